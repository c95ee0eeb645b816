"""Modules: generated trees of module files, against a model of loading, executing and binding."""
import os
import shutil
import engine

SUBS = ("", "", "", "sub/", "sub/deep/", "lib/")


class Fail(Exception):
    """loading or running stopped: a fragment expected on standard error"""


class Mod:
    def __init__(self, i, name, sub):
        self.i, self.name, self.sub = i, name, sub
        self.imports = []               # (form, target index or missing name, names)
        self.fault = None
        self.loads = []
        self.path = None
        self.decoys = []

    @property
    def ref(self):
        return self.sub + self.name


class CHECK(engine.Check):
    id = "C22"
    rule = "a tree of at least three modules in which a module is reached by two ways; distinct by text"
    flavours = ("dbg", "asan", "rel")
    batch = 40
    cases = {"quick": 16000, "thorough": 400000}

    FORMS = ("mod", "mod", "var", "list", "all", "two")

    def known(self, case, outcome):
        if isinstance(case, dict) and case.get("key") == "same-basename" and "output '', expected '1\\n2\\n'; status 1 m.kos:3:15: error: no such global in module" in outcome.detail:
            return "same-basename"
        return None

    def gen(self, src):
        if src.bool(1, 1500):
            # the recorded finding: two modules of one name in two directories
            return {"files": {"app/m.kos": "import base.print\nimport a/util.v\nimport b/util.w\nprint(v)\nprint(w)\n",
                              "app/a/util.kos": "public const v = 1\n", "app/b/util.kos": "public const w = 2\n"},
                    "out": ["1", "2"], "err": None, "ret": None, "main": "m", "how": "app/%s.kos", "nt": False, "flav": "dbg", "key": "same-basename"}
        n = src.int(1, 8)
        mods = []
        dirs = ["app", "p1", "p2"]
        for i in range(n):
            m = Mod(i, src.pick(("m%d", "Mod_%d", "very_long_module_name_%d", "_m%d", "%s%%d" % ("x" * 60))) % i, src.pick(SUBS) if i else "")
            m.dir = src.pick(dirs) if i else "app"
            m.var = src.pick(("var", "const", "fun", "class"))
            mods.append(m)
        for m in mods[:-1]:
            pass
        circ = src.bool(1, 12)
        for m in mods:
            later = mods[m.i + 1:]
            seen = set()
            for _ in range(src.below(4) if m.i else src.int(min(1, len(later)), 4)):
                if not later:
                    break
                t = src.pick(later)
                if t.i in seen:
                    continue
                seen.add(t.i)
                m.imports.append((src.pick(self.FORMS), t.i))
            if m.i == 0:
                for t in later:
                    if t.i not in seen and src.bool(1, 6):
                        m.loads.append(t.i)
        if circ and n > 1:
            a = src.pick(mods)
            m = src.pick(mods)
            if a.i <= m.i:
                m.imports.append(("mod", a.i))
        if src.bool(1, 4):
            m = src.pick(mods)
            m.fault = src.pick(("throw", "syntax", "undecl", "missing", "noglobal", "noattr", "assign", "assignattr"))
            if m.fault in ("noglobal", "noattr", "assign", "assignattr") and not m.imports:
                m.fault = "throw"
        # decoys: a file of the same name in a directory searched later
        order = ["app", "p1", "p2"]
        for m in mods[1:]:
            if src.bool(1, 3):
                for d in order[order.index(m.dir) + 1:]:
                    if src.bool():
                        m.decoys.append(d)
        files = {}
        for m in mods:
            body = self.text(src, m, mods)
            files["%s/%s.kos" % (m.dir, m.ref)] = body
            for d in m.decoys:
                files["%s/%s.kos" % (d, m.ref)] = "import base\nbase.print(\"decoy\")\npublic const v%d = 0\n" % m.i
        main = mods[0]
        main_ret = None
        if main.fault is None and src.bool(1, 3):
            main_ret = src.pick(("0", "1", "7", "255", "256", "(-1)", "void", "\"5\"", "3.7", "true", "[]"))
            files["app/%s.kos" % main.ref] += "public fun main { print(\"main\"); return %s }\n" % main_ret
        # the model
        out = []
        state = {}
        chain = []
        err = None
        try:
            self.load(mods, mods[0], out, state, chain)
            if main_ret is not None:
                out.append("main")
        except Fail as e:
            err = str(e)
        reach = sum(len(m.imports) for m in mods if m.i in state)
        how = src.pick(("app/%s.kos", "./app/%s.kos", "cd"))
        return {"files": files, "out": out, "err": err, "ret": main_ret, "main": main.ref, "how": how, "nt": n >= 3 and reach >= len(state), "flav": src.weighted(((3, "dbg"), (1, "rel"), (2, "asan")))}

    # ---- text of a module

    def text(self, src, m, mods):
        ls = []
        head = ["import base", "import base.print"]
        imps = []
        m.binds = []                    # (expression reading, kind, target)
        for form, ti in m.imports:
            t = mods[ti]
            r = t.ref.replace("/", src.pick(("/", "/", " / ")))
            v, inc, k = "v%d" % ti, "inc%d" % ti, "K%d" % ti
            if form == "mod":
                imps.append("import %s" % r)
                m.binds.append((t.name + "." + v, t.name + "." + inc, t.name + "." + k, ti))
            elif form == "var":
                imps.append("import %s.%s" % (r, v))
                imps.append("import %s.%s" % (r, inc))
                imps.append("import %s.%s" % (r, k))
                m.binds.append((v, inc, k, ti))
            elif form == "list":
                names = [v, inc, k]
                if src.bool():
                    names.reverse()
                imps.append("import %s: %s" % (r, ", ".join(names)))
                m.binds.append((v, inc, k, ti))
            elif form == "all":
                imps.append("import %s.*" % r)
                m.binds.append((v, inc, k, ti))
            else:
                imps.append("import %s" % r)
                imps.append("import %s: %s" % (r, v))
                m.binds.append((v, t.name + "." + inc, t.name + "." + k, ti))
        f = m.fault
        t = mods[m.imports[0][1]] if m.imports else None
        m.fault_ref = t
        if f == "missing":
            imps.append("import no_such_module")
        elif f == "noglobal":
            imps.append("import %s.hidden%d" % (t.ref, t.i) if src.bool() else "import %s: nothing" % t.ref)
        if src.bool():
            ls = head + imps
        else:
            ls = imps + head
        m.first = imps and ls[0] == imps[0]
        if src.bool(1, 4):
            ls = [x for l in ls for x in (l, src.pick(("", "# c", "/* import nothing */", ";" if False else "")))]
        ls.append("print(\"enter %s\")" % m.name)
        ls.append("public var v%d = %d" % (m.i, m.i * 10))
        ls.append("const hidden%d = 1" % m.i)
        ls.append("public fun inc%d { v%d += 1; return v%d }" % (m.i, m.i, m.i))
        ls.append("public class K%d { constructor { this.x = v%d }\n fun get { return this.x + v%d } }" % (m.i, m.i, m.i))
        m.ops = []
        for _ in range(src.below(5)):
            if not m.binds:
                break
            v, inc, k, ti = src.pick(m.binds)
            op = src.below(4)
            m.ops.append((op, ti))
            if op == 0:
                ls.append("print(%s)" % v)
            elif op == 1:
                ls.append("print(%s(), %s)" % (inc, v))
            elif op == 2:
                ls.append("do { const k = %s(); %s(); print(k.get(), k instanceof %s) }" % (k, inc, k))
            else:
                ls.append("print((() => %s)())" % v if False else "do { const g = x => %s + x; print(g(1000)) }" % v)
        if f == "throw":
            ls.append("throw \"fault in %s\"" % m.name)
        elif f == "syntax":
            ls.append("const = 5")
        elif f == "undecl":
            ls.append("print(undeclared_thing)")
        elif f in ("noattr", "assign", "assignattr"):
            form = m.imports[0][0]
            if form in ("mod", "two"):
                m.fault = f = "noattr" if f == "noattr" else "assignattr"
            else:
                m.fault = f = "assign"
            if f == "noattr":
                ls.append("print(%s.hidden%d)" % (t.name, t.i))
            elif f == "assign":
                ls.append("%s = 5" % m.binds[0][0])
            else:
                m.fault = f = "throw"
                ls.append("throw \"fault in %s\"" % m.name)
        for ti in m.loads:
            t = mods[ti]
            how = src.below(3)
            route = "\"%s\"" % t.name if t.sub == "" else None
            if how or route is None:
                route = "base.module.load.path"
                route = "root + \"/%s/%s.kos\"" % (t.dir, t.ref)
            if "root" in route:
                ls.append("do { const root = base.args[0]; const md = base.module.load(root + \"/%s/%s.kos\"); print(md.name, md.get(\"v%d\"), md.get(\"hidden%d\"), md.get(\"nope\", 3), md.path == root + \"/%s/%s.kos\", [(md.exports -> base.sort)...].size) }" % (t.dir, t.ref, ti, ti, t.dir, t.ref))
            else:
                ls.append("do { const root = base.args[0]; const md = base.module.load(%s); print(md.name, md.get(\"v%d\"), md.get(\"hidden%d\"), md.get(\"nope\", 3), md.path == root + \"/%s/%s.kos\", [(md.exports -> base.sort)...].size) }" % (route, ti, ti, t.dir, t.ref))
        ls.append("print(\"leave %s\")" % m.name)
        return src.pick(("", "", "\ufeff")) + "\n".join(l.replace("[(md.exports -> base.sort)...].size", "\"v%d\" in md.exports, \"hidden%d\" in md.exports, base.module.load(md.name).name == md.name" % (m.loads[0] if False else 0, 0)) if False else l.replace(", [(md.exports -> base.sort)...].size", ", md instanceof base.module") for l in ls) + "\n"

    # ---- the model

    def load(self, mods, m, out, state, chain):
        if m.i in chain:
            raise Fail("circular dependencies detected for module \"%s\"" % m.ref)
        if m.i in state:
            return
        if m.fault == "syntax":
            raise Fail(m.name + ".kos:")
        chain.append(m.i)
        for form, ti in m.imports:
            self.load(mods, mods[ti], out, state, chain)
        if m.fault == "missing":
            raise Fail("module \"no_such_module\" not found")
        if m.fault in ("noglobal", "noattr", "undecl", "assign"):
            raise Fail(m.name + ".kos:")
        chain.pop()
        state[m.i] = None
        # the body
        out.append("enter " + m.name)
        state[m.i] = m.i * 10
        for op, ti in m.ops:
            if op == 0:
                out.append("%d" % state[ti])
            elif op == 1:
                state[ti] += 1
                out.append("%d %d" % (state[ti], state[ti]))
            elif op == 2:
                a = state[ti]
                state[ti] += 1
                out.append("%d true" % (a + state[ti]))
            else:
                out.append("%d" % (state[ti] + 1000))
        if m.fault == "throw":
            raise Fail("fault in " + m.name)
        for ti in m.loads:
            self.load(mods, mods[ti], out, state, chain)
            out.append("%s %d void 3 true true" % (mods[ti].name, state[ti]))
        out.append("leave " + m.name)

    def describe(self, c):
        return {"files": c["files"], "expected": c["out"], "error": c["err"], "flavour": c["flav"]}

    def evaluate(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        d = os.path.join(engine.scratch(), "c22")
        os.makedirs(d)
        d = os.path.realpath(d)
        try:
            for x in ("app", "p1", "p2"):
                os.makedirs(os.path.join(d, x))
            for n, t in c["files"].items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(t.replace("base.args[0]", "\"%s\"" % d).encode("utf-8"))
            how = c["how"]
            cwd = d
            if how == "cd":
                cwd, main = os.path.join(d, "app"), c["main"] + ".kos"
            else:
                main = how % c["main"]
            r = engine.run([self.exe[c["flav"]], main], timeout=60, cwd=cwd, env={"KOSPATH": "%s:%s" % (os.path.join(d, "p1"), os.path.join(d, "p2"))})
        finally:
            shutil.rmtree(d)
        why = self.judge(c, r)
        return engine.Outcome(not why, "%s: %s" % (c["flav"], why), c["nt"], [c["flav"], "error" if c["err"] else "runs"])

    def judge(self, c, r):
        out, err = r.out.decode("utf-8", "replace"), r.err.decode("utf-8", "replace")
        want = "".join(x + "\n" for x in c["out"])
        code = 1 if c["err"] else {None: 0, "0": 0, "1": 1, "7": 7, "255": 255, "256": 1, "(-1)": 1, "3.7": 3, "void": 0, "\"5\"": 0, "true": 0, "[]": 0}[c["ret"]]
        if r.timeout or out != want:
            return "output %r, expected %r; status %s %s" % (out, want, r.rc, err[-300:])
        if r.rc != code:
            return "status %s, expected %d: %s" % (r.rc, code, err[-300:])
        if c["err"]:
            if c["err"] not in err or (c["err"].endswith(".kos:") and not err.startswith((c["err"], "Exception: " + c["err"]))):
                return "error %r, expected %r" % (err[-300:], c["err"])
        elif err:
            return "unexpected error text %r" % err[-300:]
        return None
