"""Iterables: base's generators and folds, iter.* and generator methods against Python lists."""
import itertools
import kosops
import kosval
from kosseq import SeqCheck, THROWS, ANY
from kosval import VOID, lit, Buf

I64 = (1 << 63) - 1
STR = ("", "a", "ab", "abc", "q\xe9\u4e00", "hello w\xf6rld", "x\U0001f600y")


def elem(src):
    k = src.below(10)
    if k < 5:
        return src.int(-9, 9)
    if k == 5:
        return src.pick((VOID, True, False, 1.5, -0.25, 1 << 62))
    if k < 8:
        return src.pick(STR)
    return src.int(-1000, 1000)


def g_range(src):
    """-> text, list"""
    k = src.below(12)
    if k < 4:
        n = src.int(-2, 9)
        return "range(%d)" % n, list(range(max(n, 0)))
    if k < 8:
        a, b, s = src.int(-9, 9), src.int(-9, 9), src.int(-4, 4)
        if src.bool(1, 3):
            return "range(%d, %d)" % (a, b), list(range(a, b))
        return "range(%d, %d, %d)" % (a, b, s), list(range(a, b, s)) if s else []
    if k == 8:
        a, s, n = src.int(-4, 4) * 0.5, src.pick((0.25, 0.5, 1.0, 1.5, -0.5, -1.0)), src.int(0, 8)
        b = a + s * n
        if src.bool():
            b += s * 0.5 if n else 0
        r = []
        x = a
        while (x < b) if s > 0 else (x > b):
            r.append(x)
            x += s
        return "range(%s, %s, %s)" % (lit(a), lit(b), lit(s)), r
    if k == 9:
        a, s = I64 - src.below(20), 1 + src.below(9)
        return "range(%d, %d, %d)" % (a, I64, s), list(range(a, I64, s))
    if k == 10:
        a, s = -I64 + src.below(20), -1 - src.below(9)
        return "range(%d, %s, %d)" % (a, lit(-I64 - 1), s), list(range(a, -I64 - 1, s))
    a, b, s = src.int(-1 << 63, I64), src.int(-1 << 63, I64), src.int(1 << 58, 1 << 62)
    if src.bool():
        s = -s
    return "range(%s, %s, %s)" % (lit(a), lit(b), lit(s)), list(range(a, b, s))


def source(src, depth=2, ints=False):
    k = src.below(13)
    if ints and k in (1, 2, 4, 7, 8):
        k = 0
    if k <= 0 or depth == 0:
        xs = [src.int(-9, 9) if ints else elem(src) for _ in range(src.len(8))]
        return lit(xs), xs
    if k == 1:
        s = src.pick(STR)
        return lit(s), list(s)
    if k == 2 and not ints:
        b = bytes(src.below(256) for _ in range(src.below(7)))
        return lit(Buf(b)), list(b)
    if k == 3:
        t, xs = g_range(src)
        if ints and any(isinstance(x, float) or abs(x) > 1 << 40 for x in xs):
            return "range(3)", [0, 1, 2]
        return t, xs
    if k == 4:
        v = src.pick((5, 1.5, True, -3))
        return lit(v), [v]
    if k == 5:
        t, xs = source(src, depth - 1, ints)
        return "(%s).iterator()" % t, xs
    if k == 6:
        xs = [src.int(-9, 9) for _ in range(src.len(5))]
        return "(fun { %s })()" % " ".join(["yield %s;" % lit(x) for x in xs] + ["if false { yield 0 }"]), xs
    if k == 7:
        d = {"k": elem(src)} if src.bool() else {}
        return lit(d), [[k2, v] for k2, v in d.items()]
    return stage(src, depth - 1, ints)


PRED = (("x => typeof x == \"integer\"", lambda x: isinstance(x, int) and not isinstance(x, bool)), ("x => true", lambda x: True), ("x => void", lambda x: False),
        ("x => x", kosops.truthy), ("x => ! x", lambda x: not kosops.truthy(x)), ("x => x == 1", lambda x: kosops.isnum(x) and x == 1))
IPRED = (("x => x & 1", lambda x: bool(x & 1)), ("x => x > 2", lambda x: x > 2), ("x => x % 3 == 0", lambda x: x % 3 == 0))
MAPS = (("x => [x]", lambda x: [x]), ("x => x", lambda x: x), ("x => typeof x", kosops.typename), ("x => [x, 1]", lambda x: [x, 1]))
IMAPS = (("x => x + 1", lambda x: x + 1), ("x => x * x", lambda x: x * x), ("x => -x", lambda x: -x), ("x => x & 3", lambda x: x & 3))


def seq_only(t):
    """sources spread operators accept: not plain numbers and booleans"""
    return t


def isseq(t):
    return t[0] in "[\"(rb{im" or t.startswith("range") or t.startswith("iter") or t.startswith("string")


def slice_(src, t, xs):
    n = len(xs)
    b = src.pick((VOID, src.int(-n - 2, n + 2), src.int(0, n + 1)))
    e = src.pick((VOID, src.int(-n - 2, n + 2), src.int(0, n + 1)))
    bb = 0 if b is VOID else b
    ee = n if e is VOID else e
    bb = max(0, bb + n) if bb < 0 else min(bb, n)
    ee = max(0, ee + n) if ee < 0 else min(ee, n)
    form = "(%s).slice(%s, %s)" % (t, lit(b), lit(e)) if src.bool() else "(%s)[%s:%s]" % (t, "" if b is VOID else lit(b), "" if e is VOID else lit(e))
    return form, xs[bb:ee]


def stage(src, depth, ints=False):
    """-> text of an iterable, list"""
    k = src.below(19)
    if k < 4:
        t, xs = source(src, depth, ints)
        alli = all(isinstance(x, int) and not isinstance(x, bool) and abs(x) < 1 << 30 for x in xs)
        f, g = src.pick(IMAPS if alli and (ints or src.bool()) else MAPS[:2] if ints else MAPS)
        if ints and not alli:
            f, g = "x => x", lambda x: x
        if ints and f == "x => [x]":
            f, g = "x => x", lambda x: x
        ys = [g(x) for x in xs]
        return src.pick(("map(%s, %s)" % (f, t), "map(%s)(%s)" % (f, t), "(%s -> map(%s))" % (t, f), "(%s).map(%s)" % (t, f))), ys
    if k < 8:
        t, xs = source(src, depth, ints)
        alli = all(isinstance(x, int) and not isinstance(x, bool) for x in xs)
        f, g = src.pick(IPRED if alli and src.bool() else PRED)
        ys = [x for x in xs if g(x)]
        return src.pick(("filter(%s, %s)" % (f, t), "filter(%s)(%s)" % (f, t), "(%s -> filter(%s))" % (t, f), "(%s).filter(%s)" % (t, f))), ys
    if k == 8 and not ints:
        t, xs = source(src, depth)
        return "enumerate(%s)" % t, [[i, x] for i, x in enumerate(xs)]
    if k == 9:
        t, xs = source(src, depth)
        return "indices(%s)" % t, list(range(len(xs)))
    if k == 10 and not ints:
        ps = [source(src, depth - 1) for _ in range(2 + src.below(2))]
        return "zip(%s)" % ", ".join(p[0] for p in ps), [list(r) for r in zip(*[p[1] for p in ps])]
    if k == 11:
        t, xs = g_gen(src, depth, ints)
        return slice_(src, t, xs)
    if k == 12:
        t, xs = list_source(src, depth, ints)
        return "iter.reverse(%s)" % t, xs[::-1]
    if k == 13:
        t, xs = list_source(src, depth, ints)
        n = src.int(-1, 4)
        return src.pick(("iter.repeats(%d, %s)" % (n, t), "iter.repeats(%d)(%s)" % (n, t), "(%s -> iter.repeats(%d))" % (t, n))), xs * max(n, 0)
    if k == 14:
        t, xs = source(src, depth, ints)
        if xs:
            n = src.below(3 * len(xs) + 2)
            return "iter.cycle(%s)[0:%d]" % (t, n), [xs[i % len(xs)] for i in range(n)]
        return t, xs
    if k == 15 and not ints:
        ps = [source(src, depth - 1) for _ in range(2 + src.below(2))]
        r = [list(p) for p in itertools.product(*[p[1] for p in ps][::-1])]
        if len(r) > 400:
            ps = [(lit([1, 2]), [1, 2]), (lit("ab"), ["a", "b"])]
            r = [list(p) for p in itertools.product(["a", "b"], [1, 2])]
        return "iter.product(%s)" % ", ".join(p[0] for p in ps), [x[::-1] for x in r]
    if k == 16 and not ints:
        ns = [src.int(-1 if src.bool(1, 4) else 1, 4) for _ in range(2 + src.below(3))]
        r = [list(p) for p in itertools.product(*[range(max(n, 0)) for n in ns][::-1])]
        return "iter.iproduct(%s)" % ", ".join(str(n) for n in ns), [x[::-1] for x in r]
    if k == 17:
        a = src.pick((0, src.int(-5, 5), I64 - src.below(4) if not ints else 3))
        n = src.below(8)
        return "iter.iota(%d)[0:%d]" % (a, n), [a + i for i in range(n) if a + i <= I64]
    t, xs = source(src, depth, ints)
    return "iter.generator(%s)()" % t, xs


def g_gen(src, depth, ints):
    """a generator object (not an array)"""
    for _ in range(3):
        t, xs = source(src, depth, ints)
        if t.startswith(("range", "map", "filter", "(fun")):
            return t, xs
    t, xs = source(src, max(depth - 1, 0), ints)
    return "map(x => x, %s)" % t, xs


def list_source(src, depth, ints):
    t, xs = source(src, depth, ints)
    if t in ("5", "1.5", "true", "(-3)", "-3"):
        return "[%s]" % t, xs
    if t[0] == "{":
        return "(%s).iterator()" % t, xs
    return t, xs


class CHECK(SeqCheck):
    id = "C18"
    rule = "a case in which at least one pipeline of two or more stages yields at least two elements; distinct by its steps"
    batch = 150
    prelude = "import base\nimport iter\n" + kosval.PRELUDE
    cases = {"quick": 40000, "thorough": 1500000}

    def step(self, q, src):
        k = src.below(16)
        if k < 5:
            t, xs = stage(src, 2 + src.below(2))
            if len(xs) >= 2 and t.count("(") > 2:
                q.nt = True
            q.labels.add("pipeline")
            if len(xs) > 300:
                return
            forms = ["(fun { const r = []; for const x in %s { r.push(x) }; return r })()"]
            if t[0] not in "{\"b-15t(":
                forms += ["[(%s)...]", "(%s) -> array", "array(%s)"]
            q.do(src.pick(forms) % t, xs)
        elif k < 8:
            t, xs = source(src, 2)
            w = src.below(8)
            if w == 0:
                f, g = src.pick(PRED)
                n = sum(1 for x in xs if g(x))
                q.do(src.pick(("count(%s, %s)" % (f, t), "count(%s)(%s)" % (f, t), "(%s).count(%s)" % (t, f))), n)
            elif w == 1:
                v = src.pick((1, 0, "a", VOID, True)) if not xs or src.bool() else src.pick(xs)
                if isinstance(v, list):
                    v = 3
                n = sum(1 for x in xs if not isinstance(x, list) and kosops.compare("==", x, v))
                q.do(src.pick(("count(%s, %s)" % (lit(v), t), "count(%s)(%s)" % (lit(v), t), "(%s).count(%s)" % (t, lit(v)))), n)
                m = all(not isinstance(x, list) and kosops.compare("==", x, v) for x in xs)
                q.do(src.pick(("all(%s, %s)" % (lit(v), t), "all(%s)(%s)" % (lit(v), t), "(%s).all(%s)" % (t, lit(v)))), m)
                q.do(src.pick(("any(%s, %s)" % (lit(v), t), "any(%s)(%s)" % (lit(v), t), "(%s).any(%s)" % (t, lit(v)))), n > 0)
            elif w == 2:
                q.do(src.pick(("count_elements(%s)", "(%s).count()", "each()(%s)", "each(x => x, %s)")) % t, len(xs))
            elif w == 3:
                if t[0] == "{":
                    return
                q.do("first(%s)" % t, xs[0] if xs else THROWS)
                q.do("last(%s)" % t, xs[-1] if xs else THROWS)
            elif w == 4:
                t, xs = source(src, 2, True)
                if not all(isinstance(x, int) and not isinstance(x, bool) for x in xs):
                    return
                i = src.pick((0, 5, 1 << 62, -(1 << 63)))
                q.do("sum(%s)" % t if not i else "sum(%s, %s)" % (t, lit(i)), kosval.wrap(sum(xs) + i))
            elif w == 5:
                ss = [src.pick(STR) for _ in range(src.len(6))]
                sep = src.pick(("", ",", ", ", "\u4e00"))
                t = lit(ss)
                if src.bool():
                    t = "map(x => x, %s)" % t
                q.do(src.pick(("join(%s, %s)" % (lit(sep), t), "join(%s)(%s)" % (lit(sep), t), "(%s -> join(%s))" % (t, lit(sep)))), sep.join(ss))
                q.do("sum(%s, \"\")" % lit(ss), "".join(ss))
                ii = [src.int(-99, 99) for _ in range(src.below(5))]
                q.do("join(%s, %s)" % (lit(sep), lit(ii)), sep.join(str(i) for i in ii))
            elif w == 6:
                if len(xs) > 20:
                    return
                q.do(src.pick(("reduce((a, x) => [a, x], 0, %s)", "reduce((a, x) => [a, x], 0)(%s)", "(%s).reduce((a, x) => [a, x], 0)")) % t, self.fold(xs))
            else:
                f, g = src.pick(PRED)
                q.do("all(%s, %s)" % (f, t), all(g(x) for x in xs))
                q.do("any(%s, %s)" % (f, t), any(g(x) for x in xs))
        elif k < 11:
            # how much of the source is consumed, and when functions are called
            self.lazy(q, src)
        elif k < 13:
            # one iterator, consumed by several operations
            self.shared(q, src)
        elif k == 13:
            # cached generator
            t, xs = source(src, 2)
            v = "g%d" % len(q.lines)
            q.stmt("const %s = iter.generator(%s)" % (v, t))
            for _ in range(1 + src.below(3)):
                q.do("(fun { const r = []; for const x in %s() { r.push(x) }; return r })()" % v, xs)
            q.labels.add("cached")
        elif k == 14:
            t, xs = g_range(src)
            q.do("[%s...]" % t, xs)
            q.labels.add("range")
            for _ in range(2):
                self.loop(q, src)
        else:
            # exceptions pass through the pipeline
            xs = [src.int(0, 9) for _ in range(1 + src.len(6))]
            at = src.below(len(xs))
            v = "l%d" % len(q.lines)
            q.stmt("const %s = []" % v)
            f = "fun(x) { if %s.size == %d { throw \"stop\" }; %s.push(x); return x }" % (v, at, v)
            forms = ["(map(%s, %s) -> array)", "(filter(%s, %s) -> array)", "each(%s, %s)", "all(fun(x) { const f = %s; f(x); return true }, %s)",
                     "reduce(fun(a, x) { const f = %s; return f(x) }, 0, %s)", "count(%s, %s)"]
            if len(xs) > 1:
                forms.append("sort(%s, %s)")
            q.do(src.pick(forms) % (f, lit(xs)), THROWS)
            if len(xs) > 1:
                q.do(v, xs[:at])
            q.labels.add("exceptions")

    def fold(self, xs):
        a = 0
        for x in xs:
            a = [a, x]
        return a

    def lazy(self, q, src):
        xs = [src.int(0, 5) for _ in range(1 + src.len(7))]
        v = "l%d" % len(q.lines)
        q.stmt("const %s = []" % v)
        s = "map(fun(x) { %s.push(x); return x }, %s)" % (v, lit(xs))
        w = src.below(9)
        p = src.below(6)
        q.labels.add("lazy")

        def until(f):
            r = []
            for x in xs:
                r.append(x)
                if f(x):
                    break
            return r
        if w == 0:
            q.do("any(x => x == %d, %s)" % (p, s), p in xs)
            q.do(v, until(lambda x: x == p))
        elif w == 1:
            q.do("all(x => x != %d, %s)" % (p, s), p not in xs)
            q.do(v, until(lambda x: x == p))
        elif w == 2:
            q.do("first(%s)" % s, xs[0])
            q.do(v, xs[:1])
        elif w == 3:
            n = src.below(len(xs)) + 1
            q.do("[(%s)[0:%d]...]" % (s, n), xs[:n])
            q.do(v, xs[:n])
        elif w == 4:
            q.stmt("const g%s = %s" % (v, s))
            q.do(v, [])
            q.do("g%s()" % v, xs[0])
            q.do(v, xs[:1])
        elif w == 5:
            # map and filter interleave
            q.do("[filter(fun(x) { %s.push([x]); return x & 1 }, %s)...]" % (v, s), [x for x in xs if x & 1])
            q.do(v, [y for x in xs for y in (x, [x])])
        elif w == 6:
            q.do("any(%d, %s)" % (p, s), p in xs)
            q.do(v, until(lambda x: x == p))
        elif w == 7:
            q.do("all(%d, %s)" % (xs[0], s), all(x == xs[0] for x in xs))
            q.do(v, until(lambda x: x != xs[0]))
        else:
            q.do("(fun { for const x in %s { if x == %d { return [x] } }; return 0 })()" % (s, p), [p] if p in xs else 0)
            q.do(v, until(lambda x: x == p))

    def loop(self, q, src):
        """a for loop directly over range(), which has an implementation of its own in the compiler"""
        a, b, st = src.int(-6, 6), src.int(-6, 8), src.pick((1, 1, -1, 2, -2, 3, 0, 0.5, -0.5, 0.0, 1.5))
        if src.bool(1, 8):
            a, b, st = I64 - src.below(9), I64, 1
        elif src.bool(1, 8):
            a, b, st = -I64 + src.below(9), -I64 - 1, src.pick((-1, 0))
        n = src.pick((1, 2, 3, 3))
        if n == 1:
            a, b, st = 0, src.int(-2, 7), 1
        elif n == 2:
            st = 1
        if src.bool(1, 6):
            b = b + 0.5 if abs(b) < 99 else b
        xs, x = [], a
        while st and ((x < b) if st > 0 else (x > b)) and len(xs) < 60:
            xs.append(x)
            x += st
        pre, args, endvar = [], [], False
        for i, v in enumerate({1: [b], 2: [a, b], 3: [a, b, st]}[n]):
            w = src.below(5)
            if w < 2 or i == 2 and w < 3:
                args.append(lit(v))
            elif w == 2:
                args.append("(%s + 0)" % lit(v))
            else:
                pre.append("%s p%d = %s" % ("const" if w == 3 else "var", i, lit(v)))
                args.append("p%d" % i)
                if w == 4 and i == (0 if n == 1 else 1):
                    endvar = True
        extra = n == 3 and src.bool(1, 8)
        if extra:
            args.append("r.push(77)")
        call = "%s(%s)" % (src.pick(("range", "range", "base.range")), ", ".join(args))
        decl = src.pick(("const x", "const x", "var x", "x", "_", "const _"))
        if decl == "_":
            decl = "const _"
        body, get, out = [], "x", []
        if extra:
            out.append(77)
        if decl == "const _":
            get = "5"
        at = src.below(6)
        brk = src.bool(1, 3)
        cont = src.bool(1, 3)
        cap = src.bool(1, 4) and decl != "const _"
        mod = decl in ("var x", "x") and src.bool()
        q.labels.add("range-loop")
        body.append("i += 1")
        if cont:
            body.append("if i == %d { continue }" % (at + 1))
        body.append("r.push(%s)" % get)
        if cap:
            body.append("r.push((()=>x)())")
        if mod:
            body.append("x = -100")
        if endvar and src.bool():
            body.append("p%d = 1000" % (0 if n == 1 else 1))
        if brk:
            body.append("if i == %d { break }" % (at + 2))
        done, last = True, VOID
        for i, v in enumerate(xs):
            g = 5 if decl == "const _" else v
            last = v
            if cont and i == at:
                continue
            out.append(g)
            if cap:
                out.append(v)
            if mod:
                last = -100
            if brk and i == at + 1:
                done = False
                break
        post = ""
        if decl == "x":
            pre.append("var x = 9")
            post = "r.push(x); "
            out.append(VOID if done else last)
            if not xs:
                out[-1] = VOID
        src.bool()
        q.do("(fun { const r = []; var i = 0; %s; for %s in %s { %s }; %sreturn r })()" % ("; ".join(pre) or "const z = 0", decl, call, "; ".join(body), post), out)
        if len(xs) > 1:
            q.nt = True

    # --- known findings --------------------------------------------------------------------------
    def fixed_cases(self):
        from kosseq import Seq
        q = Seq()
        q.do("(fun { const r = []; for const x in range(%d, %d, 5) { r.push(x); if r.size > 3 { break } }; return r })()" % (I64 - 1, I64), [I64 - 1])
        return [dict(q.case(), key="range-loop-overflow")]

    def known(self, case, outcome):
        if isinstance(case, dict) and case.get("key") == "range-loop-overflow" and outcome.detail.strip().endswith("got      [i9223372036854775806,i-9223372036854775805,i-9223372036854775800,i-9223372036854775795]"):
            return "range-loop-overflow"
        return None

    def shared(self, q, src):
        t, xs = g_gen(src, 1, False)
        v = "it%d" % len(q.lines)
        q.stmt("const %s = %s" % (v, t))
        q.labels.add("shared-iterator")
        pos = 0
        done = False
        for _ in range(2 + src.below(4)):
            w = src.below(6)
            if done:
                q.do("%s.state" % v, "done")
                q.do("%s()" % v, THROWS)
                break
            if w == 0:
                q.do(src.pick(("%s()", "%s.next()")) % v, xs[pos] if pos < len(xs) else THROWS)
                done = pos >= len(xs)
                pos += 1
            elif w == 1:
                q.do("first(%s)" % v, xs[pos] if pos < len(xs) else THROWS)
                done = pos >= len(xs)
                pos += 1
            elif w == 2:
                n = src.below(4)
                # the slice takes exactly n elements
                q.do("[%s[0:%d]...]" % (v, n), xs[pos:pos + n])
                done = n > 0 and pos + n > len(xs)
                pos = min(pos + n, len(xs))
            elif w == 3:
                n = src.below(3)
                q.do("(fun { const r = []; if %d { for const x in %s { r.push(x); if r.size == %d { break } } }; return r })()" % (n, v, n), xs[pos:pos + n])
                done = n > 0 and pos + n > len(xs)
                pos = min(pos + n, len(xs))
            elif w == 4:
                q.do("%s.iterator() == %s" % (v, v), True)
            else:
                q.do("[map(x => [x], %s)...]" % v, [[x] for x in xs[pos:]])
                pos = len(xs)
                done = True

    def build(self, q, src):
        for _ in range(1 + src.len(5)):
            self.step(q, src)
