"""Sorting: array.prototype.sort and base.sort against Python's stable sort."""
import functools
import kosops
import kosval
from kosseq import SeqCheck, THROWS, ANY
from kosval import VOID, lit, Buf


def less(a, b):
    if isinstance(a, list):
        for x, y in zip(a, b):
            if less(x, y):
                return True
            if less(y, x):
                return False
        return len(a) < len(b)
    return kosops.compare("<", a, b)


def cmp(a, b):
    return -1 if less(a, b) else 1 if less(b, a) else 0


def ksort(xs, key=None, reverse=False):
    # reverse gives exactly the reversed order, also of equal elements (pinned by the tests)
    r = sorted(xs, key=functools.cmp_to_key(lambda a, b: cmp(key(a) if key else a, key(b) if key else b)))
    return r[::-1] if reverse else r


STR = ("", "a", "b", "ab", "abc", "B", "\xe9", "\u4e00", "\U0001f600", "zz", "a\x00", "aa")


def domain(src):
    k = src.below(8)
    if k == 0:
        return "int", lambda: src.int(-4, 9)
    if k == 1:
        return "int", lambda: src.int(-1 << 63, (1 << 63) - 1) if src.bool() else src.pick((0, 1, (1 << 62), (1 << 62) + 1, -(1 << 62), -(1 << 63), (1 << 63) - 1, (1 << 53) + 1, 1 << 53))
    if k == 2:
        return "float", lambda: src.pick((0.0, -0.0, 1.5, -1.5, 1e300, -1e300, 5e-324, float("inf"), float("-inf"), 2.0, 3.25))
    if k == 3:
        return "num", lambda: src.pick((src.int(-5, 5), float(src.int(-5, 5)), src.int(-5, 5) + 0.5))
    if k == 4:
        return "str", lambda: src.pick(STR)
    if k == 5:
        return "arr", lambda: [src.int(0, 2) for _ in range(src.below(4))]
    if k == 6:
        return "bool", lambda: src.bool()
    return "tag", None


def pattern(src, g, n):
    xs = [g() for _ in range(n)]
    k = src.below(8)
    if k == 0:
        return ksort(xs)
    if k == 1:
        return ksort(xs, reverse=True)
    if k == 2:
        h = ksort(xs[:n // 2])
        return h + h[::-1]
    if k == 3:
        h = ksort(xs[:n // 2])
        return h[::-1] + h
    if k == 4 and n:
        return xs[:1] * n
    return xs


class CHECK(SeqCheck):
    id = "C17"
    rule = "a sort of at least 3 elements, not all equal and not given in the resulting order; distinct by the steps"
    batch = 150
    cases = {"quick": 30000, "thorough": 800000}

    def build(self, q, src):
        kind, g = domain(src)
        n = src.weighted(((60, 10), (25, 40), (6, 130), (2, 500)))
        n = src.below(n + 1)
        if kind == "tag":
            kk = src.below(3)
            ks = pattern(src, (lambda: src.int(0, 4)) if kk == 0 else (lambda: src.pick(STR)) if kk == 1 else (lambda: src.pick((0.0, -0.0, 1, 1.0, 2.5, -1))), n)
            xs = [[k, i] for i, k in enumerate(ks)]
        else:
            xs = pattern(src, g, n)
        q.labels.add(kind)
        keys = [("void", None)]
        if kind == "tag":
            keys = [("x => x[0]", lambda x: x[0]), ("x => [x[0]]", lambda x: [x[0]]), ("x => -x[1]", lambda x: -x[1]), ("x => x[1] & 3", lambda x: x[1] & 3),
                    ("x => 0", lambda x: 0), ("x => \"\\(x[1])\"", lambda x: str(x[1]))]
        elif kind == "int":
            keys += [("x => x & 3", lambda x: x & 3), ("x => -x", lambda x: kosval.wrap(-x)), ("x => \"\\(x)\"", str), ("x => [x & 1, -x]", lambda x: [x & 1, kosval.wrap(-x)]), ("x => x > 2", lambda x: x > 2)]
        elif kind in ("str", "arr"):
            keys += [("x => x.size", len), ("x => -x.size", lambda x: -len(x)), ("x => x", lambda x: x), ("x => [x.size, x]", lambda x: [len(x), x])]
        elif kind in ("num", "float"):
            keys += [("x => x * 2.0", lambda x: x * 2.0), ("x => x < 1", lambda x: x < 1)]
        elif kind == "bool":
            keys += [("x => ! x", lambda x: not x)]
        q.stmt("const a = %s" % lit(xs))
        for _ in range(1 + src.below(3)):
            kt, kf = src.pick(keys)
            rev = src.bool(2, 5)
            r = "true" if rev else "false"
            want = ksort(xs, kf, rev)
            if len(xs) > 2 and want != xs:
                q.nt = True
            if rev:
                q.labels.add("reverse")
            if kf:
                q.labels.add("key")
            w = src.below(10)
            if w < 4:
                # base.sort: never touches its input
                it = src.pick(("a", "a.iterator()", "(a -> map(x => x))", "a[:]"))
                if kind == "tag" and src.bool(1, 8):
                    it = "a"
                forms = ["sort(%s, %s, %s)" % (kt, r, it), "sort(%s, %s)(%s)" % (kt, r, it), "%s -> sort(%s, %s)" % (it, kt, r)]
                if not rev:
                    forms += ["sort(%s, %s)" % (kt, it), "sort(%s)(%s)" % (kt, it), "%s -> sort(%s)" % (it, kt)]
                if kf is None:
                    forms += ["sort(%s, %s)" % (r, it), "sort(%s)(%s)" % (r, it)]
                    if not rev:
                        forms += ["sort(%s)" % it, "sort()(%s)" % it, "%s -> sort()" % it]
                q.do(src.pick(forms), want)
                q.do("a", xs)
                q.labels.add("base.sort")
            elif w < 8:
                forms = ["a.sort(%s, %s)" % (kt, r), "a.sort(key = %s, reverse = %s)" % (kt, r), "a.sort(reverse = %s, key = %s)" % (r, kt)]
                if not rev:
                    forms += ["a.sort(%s)" % kt, "a.sort(key = %s)" % kt]
                if kf is None:
                    forms += ["a.sort(reverse = %s)" % r]
                    if not rev:
                        forms += ["a.sort()"]
                q.do(src.pick(forms), want)
                xs = want
                q.do("a", xs)
                q.labels.add("array.sort")
            elif w == 8 and kf is not None:
                # the key is computed once for each element, in order; a key function which throws leaves the array alone
                q.stmt("const log%d = []" % len(q.lines))
                lg = "log%d" % (len(q.lines) - 1)
                if src.bool() and len(xs) > 1:
                    at = src.below(len(xs))
                    q.do("a.sort(fun(x) { %s.push(x); if %s.size == %d { throw 1 }; return (%s)(x) }, %s)" % (lg, lg, at + 1, kt, r), THROWS)
                    q.do(lg, xs[:at + 1])
                    q.do("a", xs)
                    q.labels.add("key-throws")
                else:
                    q.do("a.sort(fun(x) { %s.push(x); return (%s)(x) }, %s)" % (lg, kt, r), want)
                    q.do(lg, xs if len(xs) > 1 else OneCall(xs))
                    xs = want
                    q.labels.add("key-calls")
            elif kf is not None and len(xs) > 1:
                q.labels.add("modified-by-key")
                if src.bool():
                    # elements added meanwhile stay behind the sorted ones
                    k = src.below(len(xs))
                    m = 1 + src.below(40)
                    q.do("(fun { const b = a[:]; var i = 0; b.sort(fun(x) { if i == %d { for const j in range(%d) { b.push(-7) } }; i += 1; return (%s)(x) }, %s); return b })()" % (k, m, kt, r),
                         want + [-7] * m)
                elif src.bool():
                    # replaced meanwhile: the sorted elements win
                    q.do("(fun { const b = a[:]; b.sort(fun(x) { b[%d] = -9; return (%s)(x) }, %s); return b })()" % (src.below(len(xs)), kt, r), want)
                else:
                    q.do("(fun { const b = a[:]; try { b.sort(fun(x) { b.resize(%d); return (%s)(x) }, %s) } catch const e { } return b.size })()" % (src.below(len(xs)), kt, r), ANY)
            else:
                q.do("(%s).sort(%s)" % (lit(xs), src.pick(("1", "void, 1", "void, void", "\"a\"", "true"))), THROWS)
        if src.bool(1, 6):
            s = "".join(src.pick("abcXYZ \xe9\u4e00") for _ in range(src.below(12)))
            q.do("sort(%s)" % lit(s), ksort(list(s)))
            b = [src.below(256) for _ in range(src.below(12))]
            q.do("sort(true, %s)" % lit(Buf(bytes(b))), ksort(b, reverse=True))
        if src.bool(1, 6):
            d = {src.pick(STR[1:6]): src.int(0, 3) for _ in range(src.below(5))}
            q.do("sort(x => x[0], %s)" % lit(d), [[k, d[k]] for k in sorted(d, key=lambda s: [ord(c) for c in s])])
            q.do("sort(%s)" % lit(d), [[k, d[k]] for k in sorted(d, key=lambda s: [ord(c) for c in s])])

    def fixed_cases(self):
        import kosseq
        cs = []
        n = 60000
        for text in ("range(%d)" % n, "range(%d, 0, -1)" % n, "[range(%d)..., range(%d, 0, -1)...]" % (n // 2, n // 2), "[range(%d, 0, -1)..., range(%d)...]" % (n // 2, n // 2),
                     "array(%d, 5)" % n, "range(%d) -> map(x => x & 7)" % n, "range(%d) -> map(x => (x * 7919) & 0xFFFF)" % n):
            for form in ("b.sort()", "b.sort(x => -x, true)"):
                q = kosseq.Seq()
                q.nt = True
                q.labels = {"large"}
                q.do("(fun { const b = [(%s)...]; const h = reduce((p, x) => p + x * x, 0, b); const c = %s; var bad = 0; for const i in range(1, c.size) { if c[i] < c[i - 1] { bad += 1 } }; "
                     "return [bad, c.size, reduce((p, x) => p + x * x, 0, c) == h] })()" % (text, form), [0, n, True])
                cs.append(q.case())
        return cs


def OneCall(xs):
    from kosseq import OneOf
    # whether the key of a single element is computed is not specified
    return OneOf([], xs)
