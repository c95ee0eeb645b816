"""os.spawn() and process.wait(): generated histories of child processes against a model of what each must see and
report.  The children are copies of harness/child.c, which write down how they were started.  The interpreter runs as
an unprivileged user in a scratch directory."""
import os
import shutil
import subprocess
import engine

NOBODY = 65534
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TEXTS = ("", "a", "x y", "a\"b'c", "\\n", "$HOME", "*", "ż", "\U0001f600", " ", "--help", "-", "a=b", "\t", "\x01\x7f", "very " * 60, "é" * 700)
BASE = {"PATH": "@/bin1:@/nodir:@/bin2", "TRAP": "x:@/trap:y", "KOSPATH": "@/m", "EMPTY": "", "EQ": "a=b=c", "UNI": "żółw \U0001f600", "Z_9": "z" * 3000}


def q(s):
    """s as a Kos string literal"""
    out = ""
    for c in s:
        out += c if 32 <= ord(c) < 127 and c not in "\"\\" else "\\x{%x}" % ord(c)
    return "\"%s\"" % out


class CHECK(engine.Check):
    id = "C25"
    rule = "at least three children of which one is redirected, stopped, signalled, abandoned or could not be started; distinct by text"
    flavours = ("rel", "asan", "dbg")
    batch = 40
    cases = {"quick": 2400, "thorough": 60000}
    nwork = 0

    def prepare(self):
        super().prepare()
        self.child = os.path.join(HERE, ".build", "child")
        src = os.path.join(HERE, "harness", "child.c")
        if not os.path.exists(self.child) or os.path.getmtime(self.child) < os.path.getmtime(src):
            os.makedirs(os.path.dirname(self.child), exist_ok=True)
            tmp = "%s.%d" % (self.child, os.getpid())
            subprocess.check_call(["gcc", "-O1", "-w", "-static", "-o", tmp, src])
            os.rename(tmp, self.child)

    def known(self, case, outcome):
        if isinstance(case, dict) and case.get("key") == "stdin-text" and "output" in outcome.detail:
            return "stdin-text"
        return None

    # ---------------------------------------------------------------- generation

    def gen(self, src):
        if src.bool(1, 1000):
            return {"text": "import base.print\nimport os\nconst p = os.spawn(program=\"ha\", args=[\"@cat\"], stdin=\"hello\\n\")\nprint(p.wait().status)\n",
                    "out": "hello\n0\n", "err": "", "reps": [], "files": {}, "flav": "dbg", "nt": False, "key": "stdin-text"}
        self.o, self.exp, self.err, self.reps, self.files = [], [], [], [], {}
        self.procs, self.nf, self.ni, self.marks = [], 0, 0, set()
        n = src.int(3, 10)
        for k in range(n):
            self.step(src, k)
        # whatever is still there
        for p in self.procs:
            if p["state"] == "live":
                self.wait(src, p, plain=True)
        self.o.append("p_ = void\nkos.collect_garbage()")
        self.o.append("io.stdout.flush()\nos.spawn(\"ha\", [\"@zombies\"]).wait()")
        self.exp.append("children 0 zombies 0")
        text = "import base.print\nimport base.string\nimport base.range\nimport os\nimport io\nimport kos\nvar p_ = void\n"
        text += "".join("var p%d = void\n" % i for i in range(self.ni))
        text += "const keep1 = io.create(\"keep1\")\nconst keep2 = io.pipe()\nconst keep3 = io.open(\"keep1\", io.ro)\n"
        text += "fun st(s) { print(s.status, s.signal, s.stopped) }\n"
        text += "\n".join(self.o) + "\n"
        return {"text": text, "out": "".join(x + "\n" for x in self.exp), "err": "".join(self.err), "reps": self.reps, "files": self.files,
                "flav": src.pick(self.flavours), "nt": len(self.reps) >= 3 and bool(self.marks), "labels": sorted(self.marks)}

    def args(self, src):
        a = []
        k = src.weighted([(4, 0), (4, 1), (2, 2), (1, 3)])
        if k == 1:
            a = [src.pick(TEXTS) for _ in range(src.int(1, 5))]
        elif k == 2:
            a = [src.pick(TEXTS) + str(i) for i in range(src.int(1, 80))]
        elif k == 3:
            a = ["w" * src.int(1000, 60000)]
        return ["@@"] + a if a or src.bool(1, 3) else []

    def env(self, src):
        """(text or None, expected overrides, error)"""
        if src.bool(1, 2):
            return None, {}, False
        d = {}
        for _ in range(src.int(0, 4)):
            d[src.pick(("A", "PATH", "EMPTY", "ż", "a b", "UNI", "B1", "KOSPATH", "x-y", "Q" * 200))] = src.pick(TEXTS + ("=", "a=b", "/x:/y"))
        t = ["%s: %s" % (q(x), q(y)) for x, y in d.items()]
        bad = src.bool(1, 12)
        if bad:
            t.insert(src.int(0, len(t)), src.pick(("\"a=b\": \"x\"", "\"N\": 1", "\"N\": void", "\"N\": []", "\"=\": \"\"", "\"N=\": \"\"")))
        t = "{%s}" % ", ".join(t)
        return t, d, bad

    def step(self, src, k):
        f = src.weighted([(10, self.spawn), (2, self.fail), (3, self.later), (2, self.abandon), (1, self.getenv), (2, self.parallel), (2, self.text)])
        f(src)

    def text(self, src):
        t = src.pick(("tick", "", "w" * 500))
        self.o.append("print(%s)" % q(t))
        self.exp.append(t)

    def getenv(self, src):
        k = src.pick(tuple(BASE) + ("NOPE", "EMPT", "", "EQQ", "path"))
        self.o.append("print(os.getenv(%s, \"none\"))" % q(k))
        self.exp.append(("env:" + k) if k in BASE else "none")

    def program(self, src):
        return src.pick((("ha", "bin1/ha"), ("hb", "bin2/hb"), ("hc", "bin2/hc"), ("./sub/hd", "sub/hd"), ("sub/ha", "sub/ha"), ("@/bin2/ha", "bin2/ha"),
                         ("@/sub/../bin1/ha", "bin1/ha"), ("../bin2/hb", "bin2/hb")))

    def spawn(self, src):
        i = self.ni
        self.ni += 1
        files, initial = {}, {}
        prog, exe = self.program(src)
        cmds, code, sig, stops, out, err = [], 0, None, 0, b"", b""
        args = self.args(src)
        io = src.weighted([(4, "none"), (3, "file"), (3, "pipe"), (2, "stdinpipe"), (2, "stdinfile"), (2, "std"), (1, "swap"), (1, "same")])
        named = []
        pre, post, after = "", "", None
        data = bytes(src.pick((b"hello\n", b"\x00\xff\x80", b"", b"line\r\n\r\n", b"q" * 5000)))
        to = src.bool(1, 2)

        def say(fd, b):
            cmds.extend(["@out" if fd == 1 else "@err", b.hex()] if b else [])
        if io != "none":
            self.marks.add("redirected")
        if io in ("file", "same"):
            name = "f%d" % self.nf
            self.nf += 1
            head = src.pick((b"", b"head\n"))
            pre = "const w%d = io.create(\"%s\")\n" % (i, name)
            if head:
                pre += "w%d.write(\"head\\n\")\nw%d.flush()\n" % (i, i)
            e1, e2 = src.pick((b"first\n", b"")), src.pick((b"err\n", b""))
            say(1, e1)
            say(2, e2)
            if io == "same":
                named += ["stdout=w%d" % i, "stderr=w%d" % i]
                say(1, b"more")
                files[name] = head + e1 + e2 + b"more"
            elif to:
                named.append("stdout=w%d" % i)
                files[name] = head + e1
                err = e2
            else:
                named.append("stderr=w%d" % i)
                files[name] = head + e2
                out = e1
            initial[name] = head
            post = src.pick(("w%d.close()\n" % i, ""))
        elif io == "pipe":
            big = src.int(0, 30000) if src.bool(1, 4) else 0
            say(1, data)
            if big:
                cmds += ["@rep", str(big)]
            pre = "const i%d = io.pipe()\n" % i
            named.append("%s=i%d.write" % ("stdout", i))
            want = data + b"abcd\n" * big
            post = "i%d.write.close()\nvar n%d = 0\nvar h%d = 0\nloop { const b = i%d.read.read_some() ; if b.size == 0 { break } ; n%d += b.size ; for const x in b { h%d = (h%d * 31 + x) & 0xFFFFFFF } }\ni%d.read.close()\nprint(n%d, h%d)\n".replace("%d", str(i))
            h = 0
            for x in want:
                h = (h * 31 + x) & 0xFFFFFFF
            after = "%d %d" % (len(want), h)
        elif io == "stdinpipe":
            name = "f%d" % self.nf
            self.nf += 1
            pre = "const i%d = io.pipe()\nconst w%d = io.create(\"%s\")\n" % (i, i, name)
            named += ["stdin=i%d.read" % i, "stdout=w%d" % i]
            cmds.append("@cat")
            post = "i%d.read.close()\nw%d.close()\ni%d.write.write(\"abc\\n\", \"\\x{17c}\")\ni%d.write.close()\n".replace("%d", str(i))
            files[name] = "abc\nż".encode()
            initial[name] = b""
        elif io == "stdinfile":
            name = "f%d" % self.nf
            self.nf += 2
            rn = "f%d" % (self.nf - 1)
            pre = "with const v = io.create(\"%s\") { v.write(\"12345\", \"\\n6\") }\nconst r%d = io.open(\"%s\", io.ro)\nconst w%d = io.create(\"%s\")\n" % (rn, i, rn, i, name)
            seek = src.pick((0, 0, 3))
            if seek:
                pre += "r%d.seek(%d)\n" % (i, seek)
            named += ["stdin=r%d" % i, "stdout=w%d" % i]
            cmds.append("@cat")
            files[rn] = initial[rn] = b"12345\n6"
            initial[name] = b""
            files[name] = b"12345\n6"[seek:]
        elif io in ("std", "swap"):
            e1, e2 = src.pick((b"out\n", b"")), src.pick((b"err\n", b""))
            if io == "std":
                out, err = e1, e2
                if to:
                    named.append("stdout=io.stdout")
                if src.bool():
                    named.append("stderr=io.stderr")
            else:
                out, err = e2, e1
                named += ["stdout=io.stderr", "stderr=io.stdout"]
            say(1, e1)
            say(2, e2)
        if src.bool(1, 5):
            cmds += ["@sleep", str(src.int(1, 15))]
        if src.bool(1, 6) and io not in ("pipe", "stdinpipe"):
            cmds.append("@stop")
            stops = 1
            self.marks.add("stopped")
        e = src.weighted([(4, 0), (3, 1), (2, 2)])
        if e == 1:
            code = src.pick((1, 2, 77, 126, 127, 128, 200, 255))
            cmds += ["@exit", str(code)]
        elif e == 2:
            sig = src.pick((1, 2, 3, 6, 9, 10, 11, 12, 14, 15))
            cmds += ["@sig", str(sig)]
            self.marks.add("signalled")
        args = cmds + args
        et, over, bad = self.env(src)
        inh = src.weighted([(5, None), (1, True), (3, False)])
        cwd, at = src.weighted([(5, (None, "work")), (1, ("", "work")), (2, ("@/sub", "sub")), (2, ("../bin2", "bin2")), (1, ("/", "/"))])
        badcwd = src.bool(1, 14)
        if badcwd:
            cwd = src.pick(("@/missing", "keep1", "@/bin1/ha"))
        form = src.int(0, 2)
        al = "[%s]" % ", ".join(q(x) for x in args)
        if form == 0 and not named and inh is None:
            a = [q(prog), al]
            if et is not None or cwd is not None:
                a.append(et or "{}")
            if cwd is not None:
                a.append(q(cwd))
        elif form == 1 and not named:
            a = [q(prog), al, et or "{}", q(cwd or ""), "false" if inh is False else "true"]
        else:
            a = ["program=" + q(prog)]
            if args or src.bool():
                a.append("args=" + al)
            if et is not None:
                a.append("env=" + et)
            if cwd is not None:
                a.append("cwd=" + q(cwd))
            if inh is not None:
                a.append("inherit_env=" + ("true" if inh else "false"))
            a += named
            for j in range(len(a) - 1, 0, -1):
                r = src.int(0, j)
                a[j], a[r] = a[r], a[j]
        call = "os.spawn(%s)" % ", ".join(a)
        self.o.append(pre.rstrip("\n")) if pre else None
        fails = bad or badcwd
        if out or err or io in ("std", "swap"):
            self.o.append("io.stdout.flush()")
        if fails:
            self.marks.add("not started")
            if src.bool():
                self.o.append("print(\"before %d\")" % i)
                self.exp.append("before %d" % i)
            self.o.append("try { %s ; print(\"started\") } catch const e { print(\"not started\") }" % call)
            self.exp.append("not started")
            self.files.update(initial)
            return
        self.files.update(files)
        shared = bool(out or err)
        p = {"i": i, "state": "live", "code": code, "sig": sig, "stops": stops}
        self.procs.append(p)
        self.o.append("p%d = %s" % (i, call))
        self.reps.append({"i": i, "exe": exe, "cwd": at, "args": args, "env": over, "inherit": inh is not False})
        said = "print(\"pid\", %d, p%d.pid)" % (i, i)
        if not shared:
            self.o.append(said)
            self.exp.append("pid %d" % i)
        if post:
            self.o.append(post.rstrip("\n"))
        if after is not None:
            self.exp.append(after)
        if shared:
            # nothing is printed until the child is known to have ended: it writes to the same files
            self.err.append(err.decode())
            self.exp += out.decode().split("\n")[:-1]
            self.wait(src, p, said=said)
        elif src.bool(1, 2):
            self.wait(src, p)

    def wait(self, src, p, plain=False, said=None):
        i = p["i"]
        w = "p%d.wait()" % i
        if not plain and src.bool(1, 5):
            w = "(async p%d.wait()).wait()" % i
        show = []
        if said:
            self.exp.append("pid %d" % i)
            show.append(said)
        if p["stops"]:
            p["stops"] = 0
            self.o.append("const s%d = %s" % (i, w))
            show.append("st(s%d)" % i)
            self.exp.append("147 19 true")
            self.o.append("os.spawn(\"ha\", [\"@kill\", \"\\(p%d.pid)\", \"18\"]).wait()" % i)
        self.o.append("const t%d = %s" % (i, w))
        self.o += show + ["st(t%d)" % i]
        if p["sig"]:
            self.exp.append("%d %d false" % (128 + p["sig"], p["sig"]))
        else:
            self.exp.append("%d void false" % p["code"])
        p["state"] = "done"
        if src.bool(1, 3):
            self.o.append("try { p%d.wait() ; print(\"again\") } catch const e { print(\"waited\") }" % i)
            self.exp.append("waited")

    def later(self, src):
        c = [p for p in self.procs if p["state"] == "live"]
        if c:
            self.wait(src, src.pick(c))

    def fail(self, src):
        self.marks.add("not started")
        call = src.pick(("os.spawn(\"nothere\")", "os.spawn(\"./nothere\")", "os.spawn(\"trapped\")", "os.spawn(\"@/bin1/noexec\")", "os.spawn(\"@/bin1/badfmt\")", "os.spawn(\"noexec\")",
                         "os.spawn(\"badfmt\")", "os.spawn(\"@/bin1\")", "os.spawn(\"\")", "os.spawn(\"ha\", [1])", "os.spawn(\"ha\", {})", "os.spawn(program=\"ha\", env=[])",
                         "os.spawn(program=\"ha\", stdout=1)", "os.spawn(program=\"ha\", stderr={})", "os.spawn(program=\"ha\", inherit_env=1)",
                         "do { const f = io.create(\"keep9\") ; f.close() ; os.spawn(program=\"ha\", stdout=f) }", "os.spawn(program=\"ha\", cwd=\"@/none\")", "os.process()"))
        n = src.pick((1, 1, 1, 5))
        if src.bool():
            self.o.append("print(\"unflushed\")")
            self.exp.append("unflushed")
        for _ in range(n):
            self.o.append("try { %s ; print(\"started\") } catch const e { print(\"not started\") }" % call if not call.startswith("do ") else
                          "try { %s ; os.spawn(program=\"ha\", stdout=f) ; print(\"started\") } catch const e { print(\"not started\") }" % call[5:call.index(" ; os.spawn")])
            self.exp.append("not started")
        if src.bool():
            self.o.append("kos.collect_garbage()")

    def abandon(self, src):
        self.marks.add("abandoned")
        n = src.int(1, 4)
        if src.bool(1, 25):
            n = src.pick((33, 40))
            self.o.append("for const x in range(%d) { fun { os.spawn(\"ha\", [\"@sleep\", \"\\(x * 7 %% 90)\"]) }() }" % n)
            n = 0
        for _ in range(n):
            self.o.append("fun { os.spawn(\"ha\", [\"@sleep\", \"%d\"]) }()" % src.pick((0, 1, 5, 20, 60)))
        if src.bool():
            self.o.append("kos.collect_garbage()")

    def parallel(self, src):
        n = src.int(2, 5)
        self.o.append("do {\n  const l = []")
        codes = []
        for j in range(n):
            c = src.int(0, 255)
            codes.append(c)
            self.o.append("  l.push(async fun { const p = os.spawn(\"ha\", [\"@sleep\", \"%d\", \"@exit\", \"%d\"]) ; return p.wait().status }())" % (src.int(0, 4), c))
        self.o.append("  for const t in l { print(t.wait()) }\n}")
        self.exp += [str(c) for c in codes]

    def describe(self, c):
        return {"program": c["text"], "expected": c["out"], "stderr": c["err"], "children": [dict(r, args=[a[:100] for a in r["args"]]) for r in c["reps"]], "flavour": c["flav"]}

    # ---------------------------------------------------------------- running

    def evaluate(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        s = engine.scratch()
        os.chmod(s, 0o755)
        if os.environ.get("KOSV_SCRATCH"):
            os.chmod(os.environ["KOSV_SCRATCH"], 0o755)
        CHECK.nwork += 1
        d = os.path.realpath(os.path.join(s, "c25_%d" % CHECK.nwork))
        os.mkdir(d)
        try:
            for x in ("bin1", "bin2", "sub", "trap", "rep", "work"):
                os.mkdir(os.path.join(d, x))
                os.chmod(os.path.join(d, x), 0o777)
            first = None
            for x in ("bin1/ha", "bin2/ha", "bin2/hb", "bin2/hc", "sub/ha", "sub/hd", "trap/trapped"):
                t = os.path.join(d, x)
                if first is None:
                    try:
                        os.link(self.child, t)
                    except OSError:
                        shutil.copy(self.child, t)
                        os.chmod(t, 0o755)
                    first = t
                else:
                    os.link(first, t)
            os.mkdir(os.path.join(d, "bin1", "hc"))     # a directory is not a program
            for x, m in (("bin1/noexec", 0o644), ("bin1/badfmt", 0o755)):
                with open(os.path.join(d, x), "wb") as f:
                    f.write(b"not a program")
                os.chmod(os.path.join(d, x), m)
            os.symlink("../sub", os.path.join(d, "work", "sub"))
            with open(os.path.join(d, "main.kos"), "wb") as f:
                f.write(c["text"].replace("@/", d + "/").encode())
            env = {k: v.replace("@/", d + "/") for k, v in BASE.items()}
            root = os.getuid() == 0

            def drop():
                import resource
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if root:
                    os.setgroups([])
                    os.setgid(NOBODY)
                    os.setuid(NOBODY)
            r = engine.run([self.exe[c["flav"]], os.path.join(d, "main.kos")], timeout=60, cwd=os.path.join(d, "work"), env=env, preexec=drop)
            why = self.judge(c, r, d, dict(engine.CLEAN_ENV, **env))
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return engine.Outcome(not why, "%s: %s" % (c["flav"], why), c["nt"], [c["flav"]] + c.get("labels", []))

    def judge(self, c, r, d, env):
        out, err = r.out.decode("utf-8", "replace"), r.err.decode("utf-8", "replace")
        lines, pids = [], {}
        for x in out.split("\n"):
            if x.startswith("pid ") and x.count(" ") == 2:
                _, i, p = x.split(" ")
                if not p.isdigit() or int(p) < 2:
                    return "pid %r" % p
                pids[int(i)] = p
                x = "pid " + i
            lines.append(x)
        got = "\n".join(lines)
        want = "".join((env[x[4:]] if x.startswith("env:") else x) + "\n" for x in c["out"].split("\n")[:-1])
        if r.timeout or got != want:
            a, b = got.split("\n"), want.split("\n")
            k = 0
            while k < min(len(a), len(b)) and a[k] == b[k]:
                k += 1
            return "output differs at line %d: %r, expected %r; status %s %s" % (k + 1, a[k:k + 3], b[k:k + 3], "timeout" if r.timeout else r.rc, err[-600:])
        if r.rc or err != c["err"]:
            return "status %s, error text %r, expected %r" % (r.rc, err[-600:], c["err"])
        if len(set(pids.values())) != len(pids):
            return "two children have the same pid"
        for w in c["reps"]:
            i = w["i"]
            try:
                with open(os.path.join(d, "rep", pids[i])) as f:
                    rep = [x.rstrip("\n").split(" ", 1) for x in f]
            except OSError:
                return "child %d has not run" % i
            g = {"arg": [], "env": [], "fd": []}
            for k, v in rep:
                if k == "fd":
                    g["fd"].append(int(v))
                elif k in g:
                    g[k].append(bytes.fromhex(v).decode("utf-8", "replace"))
                else:
                    g[k] = bytes.fromhex(v).decode("utf-8", "replace")
            if g["exe"] != os.path.join(d, w["exe"]):
                return "child %d: program %s, expected %s" % (i, g["exe"], w["exe"])
            at = w["cwd"] if w["cwd"] == "/" else os.path.join(d, w["cwd"])
            if g["cwd"] != at:
                return "child %d: directory %s, expected %s" % (i, g["cwd"], at)
            if g["arg"] != [a.replace("@/", d + "/") for a in w["args"]]:
                return "child %d: arguments %.300r, expected %.300r" % (i, g["arg"], w["args"])
            e = dict(env) if w["inherit"] else {}
            e.update(w["env"])
            if sorted(g["env"]) != sorted("%s=%s" % kv for kv in e.items()):
                return "child %d: environment %.600r, expected %.600r" % (i, sorted(g["env"]), sorted("%s=%s" % kv for kv in e.items()))
            if sorted(g["fd"]) != [0, 1, 2]:
                return "child %d: file descriptors %s" % (i, sorted(g["fd"]))
        for n, w in c["files"].items():
            try:
                with open(os.path.join(d, "work", n), "rb") as f:
                    b = f.read()
            except OSError:
                return "file %s is missing" % n
            if b != w:
                return "file %s has %.200r, expected %.200r" % (n, b, w)
        return None
