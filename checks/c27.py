"""Where an error came from: call chains with known frames, and compile errors at known places."""
import os
import re
import shutil
import engine

HEAD = ("import io", "import base.range", "import base.print", "import debug", "import base")


class Mod:
    def __init__(self, name, imports):
        self.name = name
        self.lines = []
        for h in imports:
            self.add(h)

    def add(self, s):
        self.lines.append(s)
        return len(self.lines)

    @property
    def at(self):
        return len(self.lines)


class CHECK(engine.Check):
    id = "C27"
    rule = "a chain of at least three frames, or a compile error past line 3; distinct by text"
    flavours = ("dbg", "asan", "rel")
    batch = 40
    cases = {"quick": 24000, "thorough": 1000000}

    # ---- filler

    def filler(self, src, m, ind, n=None, code=True):
        for _ in range(src.below(4) if n is None else n):
            k = src.below(12)
            v = "w%d_%d" % (m.at, len(m.name))
            if k == 0:
                m.add("")
            elif k == 1:
                m.add(ind + "# comment fun x { \" /*")
            elif k == 2:
                m.add(ind + "/* a")
                for _ in range(src.below(4)):
                    m.add(src.pick(("", "  # b", "\" }", "żółw \U0001f600")))
                m.add("*/")
            elif k == 3 and src.bool():
                for _ in range(src.pick((3, 15, 16, 17, 31, 33, 127, 128, 129, 255, 256, 257, 300, 1000))):
                    m.add("")
            elif not code:
                m.add(ind)
            elif k == 4:
                m.add(ind + "var %s = [1," % v)
                for _ in range(src.below(3)):
                    m.add(ind + "   2,")
                m.add(ind + "  3]")
            elif k == 5:
                m.add(ind + "if id(1) == 2 {")
                m.add(ind + "  throw 1")
                m.add(ind + "}")
            elif k == 6:
                m.add(ind + "const %s = r\"a" % v)
                m.add("b\\")
                m.add("c\"")
            elif k == 7:
                m.add(ind + "const %s = y => y" % v)
            elif k == 8:
                m.add(ind + "const %s = fun(y) {" % v)
                m.add(ind + "  return id(y) + 1")
                m.add(ind + "}")
            elif k == 9 and src.bool(1, 3):
                n = src.pick((5, 40, 120, 200))
                m.add(ind + "var %s = 0" % v)
                for i in range(n):
                    m.add(ind + "%s += id(%d)" % (v, i))
            elif k == 10:
                m.add(ind + "for const %s in range(2) { id(%s) }" % (v, v))
            else:
                m.add(ind + "id(%d)" % src.pick((0, 1, 200, 70000)))

    # ---- statement holding a failing expression

    def wrap(self, src, m, ind, e, tail=True):
        st = self.st
        """adds a statement which evaluates e once; -> (first, last) line"""
        opens = []
        for _ in range(src.weighted(((5, 0), (3, 1), (1, 2), (1, 3)))):
            k = src.below(9)
            c = "c%d" % m.at
            if k == 0:
                m.add(ind + "if true {")
            elif k == 1:
                m.add(ind + "while id(true) {")
            elif k == 2:
                m.add(ind + "for const %s in range(2) {" % c)
            elif k == 3:
                m.add(ind + "do {")
            elif k == 4:
                m.add(ind + "if id(false) {")
                m.add(ind + "  id(0)")
                m.add(ind + "} else {")
            elif k == 5:
                m.add(ind + "switch 3 {")
                m.add(ind + "case 1 { id(0) }")
                m.add(ind + "default {")
            elif k == 6:
                m.add(ind + "repeat {")
            elif k == 7:
                m.add(ind + "with const %s = {release: fun { id(1) }} {" % c)
            else:
                m.add(ind + "for const %s, %s_ in [[1, 2], [3, 4]] {" % (c, c))
            opens.append(k)
            ind += " "
            self.filler(src, m, ind, src.below(2))
        v = "q%d" % m.at
        multi = src.bool(1, 5)
        forms = ["%s", "const %s = #" % v, "const %s = id(1) + #" % v, "const %s = [1, #]" % v, "const %s = {a: #}" % v, "const %s = \"a\\(#)\"" % v, "id(#)", "id(1, #, 2)",
                 "if # { id(1) }", "while # { id(1) }", "for const %s in # { id(1) }" % v, "switch # { case 1 { id(1) } default { id(2) } }", "const %s = id(true) && #" % v,
                 "const %s = id(true) ? # : 0" % v, "assert #", "throw #", "const %s = -#" % v, "const %s = [#...]" % v, "const %s = typeof #" % v, "var %s = 0; %s += #" % (v, v), "id([2][#])", "const %s = # + 1" % v, "const %s = (y => y)(#)" % v,
                 "do { id(1); #; }", "const %s, %s_ = #" % (v, v), "delete #.a", "const %s = id(1) -> id -> (=> #)" % v if False else "id(#, #)", "const %s = # ?? 1" % v if False else "const %s = !#" % v]
        f = src.pick(forms) if src.bool(2, 3) else "#"
        if f == "%s":
            f = "#"
        if src.bool(1, 8) and tail and not st.get("nr"):
            f = "return #"
        if f == "#" and e[0] in "([":
            f = "id(#)"
        first = m.at + 1
        if multi and f not in ("#", "return #") and "\"" not in f:
            pre, post = f.split("#", 1)
            if pre.rstrip().endswith(("(", "[", "=", "+", ",", "&&", "?", ":", "assert", "throw", "if", "while", "in", "-", "!", "typeof")) and not pre.rstrip().endswith(("assert", "throw", "if", "while", "in", "typeof", "=>")):
                m.add(ind + pre)
                for _ in range(src.below(3)):
                    m.add(src.pick(("", "   # c", "/* d */")))
                pre = "  "
            m.add(ind + pre + e + post.replace("#", e))
        elif multi and "(x)" in e and "{" not in e and "\"" not in f and "#)" not in f.replace("(#)", "")[:0] + "":
            a, b = e.rsplit("(x)", 1)
            m.add(ind + f.replace("#", a + "(", 1).split("#")[0] if f.count("#") == 1 and f.endswith("#") else ind + a + "(")
            for _ in range(src.below(3)):
                m.add(src.pick(("", "   # c")))
            m.add(ind + "   x)" + b)
        else:
            m.add(ind + f.replace("#", e))
        last = m.at
        for k in reversed(opens):
            self.filler(src, m, ind, src.below(2))
            if k == 1:
                m.add(ind + "break")
            ind = ind[:-1]
            if k == 5:
                m.add(ind + "} }")
            elif k == 6:
                m.add(ind + "} while id(false)")
            else:
                m.add(ind + "}")
        return first, last

    # ---- the innermost

    ORIGINS = (("throw x", ()), ("throw \"boom\"", ()), ("(1 / (x - x))", ()), ("id(void).foo", ()), ("[].pop()", ("pop",)), ("assert !id(true)", ()), ("throw debug.backtrace()", ()),
               ("id(1)()", ()), ("[1][id(5)]", ()), ("(x + {}.foo.foo)", ()), ("[x, x].fill()", ()), ("base.string.prototype.size", ("size",)), ("id()", ()), ("id(5)[\"a\"][1]", ()), ("(x << id(\"e\"))", ()),
               ("range.apply(x, x)", ("apply",)), ("\"a\".repeat(-1)", ()), ("(id(\"a\") - id([]))", ()), ("base.array.prototype.size", ("size",)))

    def origin(self, src, m, ind):
        k = src.below(len(self.ORIGINS)) if src.bool() else src.below(3)
        text, nat = self.ORIGINS[k]
        if text.startswith("assert"):
            text += src.pick(("", "", " || id(\"%s%s\") == 1" % ("a" * src.below(5), "\u017c\u20ac\U0001f600" * src.int(1, 20))))
        frames = [("@" + n, 0, 0) for n in nat]
        if text.startswith(("throw", "assert")):
            opens = src.below(3)
            for _ in range(opens):
                m.add(ind + src.pick(("do {", "if id(true) {", "for const z%d in range(1) {" % m.at)))
                self.filler(src, m, ind + " ")
            a = m.add(ind + text)
            b = a
            for _ in range(opens):
                m.add(ind + "}")
        else:
            a, b = self.wrap(src, m, ind, text if text[0] not in "[" else "id(" + text + ")" if False else text)
        return frames, a, b

    def body(self, src, m, ind, st, callee, nr=False):
        st["nr"] = nr
        r = self.body_(src, m, ind, st, callee)
        st["nr"] = False
        return r

    def body_(self, src, m, ind, st, callee):
        """the inside of a function whose argument is x; -> (frames below, first, last)"""
        self.filler(src, m, ind)
        if callee is None:
            fr, a, b = self.origin(src, m, ind)
            if "backtrace()" in m.lines[a - 1]:
                st["bt"] = True
            self.filler(src, m, ind)
            return fr, a, b
        k = src.below(16)
        below = []
        if k == 0:
            a, b = self.wrap(src, m, ind, "%s.apply(void, [x])" % callee)
            below = [("@apply", 0, 0)]
        elif k == 1:
            a = b = m.add(ind + "for const m%d in [x].map(%s) { id(1) }" % (m.at, callee))
        elif k == 2:
            a, b = self.wrap(src, m, ind, "[2, x].sort(%s)" % callee)
            below = [("@sort", 0, 0)]
        elif k == 3:
            a = b = m.add(ind + "x -> %s" % callee)
        elif k == 4:
            m.add(ind + "try {")
            self.filler(src, m, ind + " ")
            a, b = self.wrap(src, m, ind + " ", "%s(x)" % callee)
            m.add(ind + "}")
            m.add(ind + "catch const e {")
            self.filler(src, m, ind + " ")
            if src.bool(1, 3) and st["reset"] is not None:
                a = b = m.add(ind + " throw e.value")
                st["reset"] = True
                below = None
            else:
                m.add(ind + " throw e")
            m.add(ind + "}")
        elif k == 5 and not (m.lines and st.get("gen")):
            m.add(ind + "defer {")
            self.filler(src, m, ind + " ")
            a, b = self.wrap(src, m, ind + " ", "%s(x)" % callee, False)
            m.add(ind + "}")
            self.filler(src, m, ind)
        elif k == 6:
            m.add(ind + "fun inner%d(y)" % m.at)
            n = "inner%d" % (m.at - 1)
            m.add(ind + "{")
            self.filler(src, m, ind + " ")
            nr, st["nr"] = st["nr"], False
            a1, b1 = self.wrap(src, m, ind + " ", "%s(x)" % callee)
            st["nr"] = nr
            m.add(ind + "}")
            self.filler(src, m, ind)
            a, b = self.wrap(src, m, ind, "%s(x)" % n)
            below = [(n, a1, b1)]
        elif k == 7:
            a, b = self.wrap(src, m, ind, "(z => %s(z))(x)" % callee if src.bool() else "((z) => %s(z))(x)" % callee)
            below = [("=>", a, b)]
        elif k == 8:
            a, b = self.wrap(src, m, ind, "%s(id(x), 1, 2, 3)" % callee)
        elif k == 9:
            a, b = self.wrap(src, m, ind, "%s(id(x), [x]...)" % callee)
        elif k == 10 and st["reset"] is not None and src.bool(1, 2):
            a, b = self.wrap(src, m, ind, "%s.async(void, [x]).wait()" % callee) if not st["cls"] else self.wrap(src, m, ind, "%s(x)" % callee)
            if not st["cls"]:
                st["cut"] = True
        elif k == 11:
            m.add(ind + "try {")
            m.add(ind + " throw 1")
            m.add(ind + "}")
            m.add(ind + "catch const e {")
            self.filler(src, m, ind + " ")
            a, b = self.wrap(src, m, ind + " ", "%s(x)" % callee)
            m.add(ind + "}")
        else:
            a, b = self.wrap(src, m, ind, "%s(x)" % callee)
        self.filler(src, m, ind)
        return below, a, b

    def func(self, src, m, i, st, callee):
        """defines a function f<i> in module m, which calls callee; -> frames"""
        n = "f%d" % i
        pub = "" if m.name == "main" else "public "
        k = src.below(11)
        self.filler(src, m, "")
        style = src.bool()
        cls = False
        if k < 4:
            if style:
                m.add("%sfun %s(x)" % (pub, n))
                m.add("{")
            else:
                m.add("%sfun %s(x%s) {" % (pub, n, src.pick(("", ", y = 1", ", args..."))))
            below, a, b = self.body(src, m, " ", st, callee)
            m.add("}")
            name = n
        elif k == 4:
            m.add("%sconst %s = fun(x) {" % (pub, n))
            below, a, b = self.body(src, m, " ", st, callee)
            m.add("}")
            name = n
        elif k == 5 and callee:
            a = b = m.add("%sconst %s = x => %s(x)" % (pub, n, callee))
            below, name = [], n
        elif k == 6:
            m.add("%sclass %s {" % (pub, n))
            self.filler(src, m, " ", code=False)
            m.add(" constructor(x) {")
            below, a, b = self.body(src, m, "  ", st, callee, True)
            m.add(" }")
            if src.bool():
                m.add(" fun other(x) { id(x) }")
            m.add("}")
            name, cls = n, True
        elif k == 7:
            m.add("class k%d {" % i)
            self.filler(src, m, " ", code=False)
            m.add(" fun meth%d(x) {" % i)
            below, a, b = self.body(src, m, "  ", st, callee)
            m.add(" }")
            m.add("}")
            m.add("%sconst %s = k%d.prototype.meth%d" % (pub, n, i, i))
            name = "meth%d" % i
        elif k == 8:
            m.add("const o%d = {" % i)
            m.add(" a: 1,")
            m.add(" meth%d: fun(x) {" % i)
            below, a, b = self.body(src, m, "  ", st, callee)
            m.add(" }")
            m.add("}")
            m.add("%sconst %s = o%d.meth%d" % (pub, n, i, i))
            name = "meth%d" % i
        elif k == 9:
            m.add("fun g%d(x) {" % i)
            m.add(" yield 1")
            st["gen"] = True
            below, a, b = self.body(src, m, "  ", st, callee, True)
            st["gen"] = False
            m.add(" yield 2")
            m.add("}")
            m.add("%sfun %s(x) {" % (pub, n))
            if src.bool():
                m.add(" const it = g%d(x)" % i)
                m.add(" it()")
                self.filler(src, m, " ")
                l = m.add(" it()")
                ls = (l, l)
            else:
                l = m.add(" for const z in g%d(x) {" % i)
                m.add("  id(z)")
                l2 = m.add(" }")
                ls = (l, l2)
            m.add("}")
            below = None if below is None else below
            self.cut(st, below, ("g%d" % i, a, b, m.name))
            st["cls"] = False
            st["frames"].append((n,) + ls + (m.name,))
            return
        else:
            m.add("fun r%d(d) {" % i)
            m.add(" if d > 0 {")
            l = m.add("  r%d(d - 1)" % i)
            m.add(" }")
            m.add(" else {")
            m.add("  const x = d")
            below, a, b = self.body(src, m, "  ", st, callee)
            m.add(" }")
            m.add("}")
            d = src.below(6)
            a2 = b2 = m.add("%sconst %s = x => r%d(%d)" % (pub, n, i, d))
            self.cut(st, below, ("r%d" % i, a, b, m.name))
            st["cls"] = False
            for _ in range(d):
                st["frames"].append(("r%d" % i, l, l, m.name))
            st["frames"].append((n, a2, b2, m.name))
            return
        self.cut(st, below, (name, a, b, m.name))
        st["cls"] = cls

    def cut(self, st, below, fr):
        if below is None:
            st["frames"] = []
            below = []
            st.pop("kept", None)
            st.pop("cut", None)
            st["moved"] = True
        if st.get("cut"):
            st.setdefault("kept", list(st["frames"]))
        st["frames"] += [f + (fr[3],) for f in below] + [fr]

    def gen(self, src):
        if src.bool(1, 4):
            return self.gen_error(src)
        nm = src.weighted(((4, 0), (2, 1), (1, 2)))
        names = ["modb", "moda"][2 - nm:] + ["main"]
        depth = src.int(1, 9)
        st = {"frames": [], "reset": False, "cls": False}
        self.st = st
        mods = []
        prev = None
        for mi, name in enumerate(names):
            imp = list(HEAD)
            if mods:
                imp.insert(src.below(len(imp) + 1), "import " + mods[-1].name)
            m = Mod(name, [])
            self.filler(src, m, "", code=False)
            for h in imp:
                m.add(h)
            m.add("fun id(x, y...) { return x }")
            mods.append(m)
            k = src.int(1, depth) if name != "main" else depth
            for i in range(k):
                self.func(src, m, len(st["frames"]) + 1000 * mi + i * 50, st, prev)
                nn = max(int(x) for x in re.findall(r"\bf(\d+)\b", "\n".join(m.lines)))
                prev = "f%d" % nn
                if st.get("cut") and "done" not in st:
                    st["done"] = True
            prev = "%s.%s" % (m.name, prev)
        m = mods[-1]
        callee = prev.split(".")[-1]
        self.filler(src, m, "")
        how = src.below(4)
        if how == 0:
            a, b = self.wrap(src, m, "", "%s(7)" % callee, False)
        else:
            m.add("try {")
            self.filler(src, m, " ")
            a, b = self.wrap(src, m, " ", "%s(7)" % callee, False)
            m.add("}")
            m.add("catch const e {")
            m.add(" for const f in e.backtrace { print(f.function, f.line, f.module, f.file) }")
            if st.get("bt"):
                m.add(" print(\"--\")")
                m.add(" for const f in e.value { print(f.function, f.line, f.module, f.file) }")
            m.add("}")
        st["frames"].append(("<global>", a, b, "main"))
        frames = st["kept"] if "kept" in st else st["frames"]
        bt = bool(st.get("bt"))
        eol = src.weighted(((6, "\n"), (1, "\r\n"), (1, "\r")))
        files = {m.name: eol.join(m.lines) + src.pick(("", eol)) for m in mods}
        return {"files": files, "frames": frames, "how": how, "bt": bt, "btall": "kept" not in st and not st.get("moved"), "nt": len(frames) >= 3, "flav": src.weighted(((3, "dbg"), (1, "rel"), (1, "asan")))}

    ERRORS = (("undecl77", 0, "undeclared identifier"), ("@", 0, "invalid character"), ("const v77 = ]", 12, ""), ("id77 = ", None, ""), ("fun (", None, ""), ("const v77 = 1 +* 2", 15, ""), ("a7: 1", None, ""),
              ("const v77 = 0x", 14, None), ("yield7 = 1", 0, ""), ("const main77 = 1; const main77 = 1", 24, ""), ("if", None, ""), ("yield", None, None), ("const v77 = [1, 2", None, ""), ("id(undecl77)", 3, "undeclared identifier"),
              ("const v77 = {a: undecl77}", 16, "undeclared identifier"), ("var v77; do { const z = 1; z = 2 }", None, ""), ("const v77 = \"a\\(undecl77)\"", 16, "undeclared identifier"))

    def gen_error(self, src):
        m = Mod("main", [])
        self.st = {}
        self.filler(src, m, "", code=False)
        for h in HEAD:
            m.add(h)
        m.add("fun id(x, y...) { return x }")
        self.filler(src, m, "", src.below(6))
        opens = src.below(4)
        for _ in range(opens):
            m.add(src.pick(("do {", "if id(true) {", "fun n%d(x) {" % m.at, "const n%d = fun(x) {" % m.at, "for const z%d in range(1) {" % m.at)))
            self.filler(src, m, " ")
        text, col, msg = self.ERRORS[src.below(3) if src.bool() else src.pick([i for i, e in enumerate(self.ERRORS) if e[1] is not None])]
        pre = src.pick(("", " ", "    ", "/* c */ ", "id(1); ", "const s77 = \"żółw \U0001f600\u20ac\"; ", "/* \U0001f600 */ ", "id(\"\\x41\"); "))
        line = m.add(pre + text)
        want = len(pre) + 1 + col
        self.filler(src, m, " ")
        for _ in range(opens):
            m.add("}")
        eol = src.weighted(((6, "\n"), (1, "\r\n"), (1, "\r")))
        return {"files": {"main": eol.join(m.lines) + eol}, "err": (line, want, msg), "nt": line > 3, "flav": src.weighted(((3, "dbg"), (1, "rel"), (1, "asan")))}

    def describe(self, c):
        return {"files": c["files"], "frames": c.get("frames"), "error": c.get("err"), "flavour": c["flav"]}

    def evaluate(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        d = os.path.join(engine.scratch(), "c27")
        os.makedirs(d)
        try:
            for n, t in c["files"].items():
                with open(os.path.join(d, n + ".kos"), "wb") as f:
                    f.write(t.encode("utf-8"))
            r = engine.run([self.exe[c["flav"]], "main.kos"], timeout=60, cwd=d)
        finally:
            shutil.rmtree(d)
        lab = [c["flav"], "error" if "err" in c else "frames"]
        why = self.judge_error(c, r) if "err" in c else self.judge(c, r, d)
        return engine.Outcome(not why, "%s: %s" % (c["flav"], why), c["nt"], lab)

    def judge_error(self, c, r):
        line, col, msg = c["err"]
        err = r.err.decode("utf-8", "replace")
        if r.timeout or r.rc != 1 or r.out:
            return "status %s %s %s" % (r.rc, r.out[:200], err[-400:])
        m = re.match(r"main\.kos:(\d+):(\d+): error: ([^\n]*)\n", err)
        if not m:
            return "no compile error: %r" % err[:300]
        if (int(m.group(1)), int(m.group(2))) != (line, col) or (msg and msg not in m.group(3)):
            return "error at %s:%s (%s), expected at %d:%d (%s)" % (m.group(1), m.group(2), m.group(3), line, col, msg)
        return None

    def judge(self, c, r, d):
        out, err = r.out.decode("utf-8", "replace"), r.err.decode("utf-8", "replace")
        if r.timeout or r.rc < 0 or r.rc not in (0, 1):
            return "status %s %s" % (r.rc, err[-600:])
        got = []
        if c["how"] == 0:
            ls = err.rstrip("\n").split("\n")
            if r.rc != 1 or not err.startswith("Exception: "):
                return "uncaught exception expected, status %d %r" % (r.rc, err[:300])
            i = 0
            while i < len(ls) and not re.match(r"  #0 ", ls[i]):
                i += 1
            for j, l in enumerate(ls[i:]):
                m = re.match(r"  #(\d+) +0x([0-9A-F]+) in '(.*)' in (.*):(\d+)$", l)
                if not m or int(m.group(1)) != j:
                    return "bad backtrace line %r" % l
                fn = m.group(4)
                got.append((m.group(3), int(m.group(5)), os.path.basename(fn)[:-4], fn))
            lists = [got]
        else:
            if r.rc or err:
                return "status %d %s" % (r.rc, err[-600:])
            lists = [[]]
            for l in out.rstrip("\n").split("\n"):
                if l == "--":
                    lists.append([])
                    continue
                f, n, mod, fn = l.split(" ", 3)
                lists[-1].append((f, int(n), mod, fn))
        for li, got in enumerate(lists):
            if li == 1 and c["btall"] and lists[1] != lists[0]:
                return "debug.backtrace() gives %s, the exception thrown there %s" % (lists[1], lists[0])
            if li == 1:
                continue
            got = [g for g in got if not (g[2] == "base" and g[1] != 0)]
            exp = c["frames"]
            if len(got) != len(exp):
                return "%d frames, expected %d: %s, expected %s" % (len(got), len(exp), [g[:3] for g in got], exp)
            for g, e in zip(got, exp):
                if e[0].startswith("@"):
                    if g[0] != e[0][1:] or g[1] != 0:
                        return "frame %s, expected the built-in %s" % (g, e[0][1:])
                    continue
                if g[0] != e[0] or not e[1] <= g[1] <= e[2] or g[2] != e[3]:
                    return "frame %s, expected %s; all %s, expected %s" % (g, e, [x[:3] for x in got], exp)
                if os.path.basename(g[3]) != e[3] + ".kos":
                    return "frame %s names file %s" % (g, g[3])
        return None
