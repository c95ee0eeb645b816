"""Arrays behave like the sequence model."""
import kosval
import kosops
from kosseq import SeqCheck, THROWS, ANY, OneOf
from kosval import VOID, lit, Buf

BIG = 1 << 33


def fix(i, n, dflt):
    if i is VOID or isinstance(i, kosval.Void):
        return dflt
    if isinstance(i, float):
        i = int(i // 1)
    if i < 0:
        i += n
    return max(0, min(n, i))


def g_elem(src):
    k = src.below(8)
    if k < 3:
        return src.int(-3, 9)
    if k == 3:
        return src.pick((VOID, True, False, "", "ab", 1.5, 1 << 62, -(1 << 63), (1 << 40) + 7))
    if k < 6:
        return "s%d" % src.below(6)
    if k == 6:
        return src.int(-70000, 70000)
    return kosops.g_scalar(src)


def g_index(src, n):
    """Mostly valid, with the edges."""
    k = src.below(12)
    if k < 7:
        return src.int(-n - 1, n + 1)
    if k == 7:
        return n
    if k == 8:
        return -n
    if k == 9:
        return src.pick((n + 5, -n - 5, 127, 128, -128, -129, 1000, -1000, BIG, -BIG, (1 << 63) - 1, -(1 << 63), 1 << 32, (1 << 32) + 1, -(1 << 32)))
    if k == 10:
        return src.pick((0.0, 0.5, 1.9, -0.5, -1.0, -1.5, 2.0))
    return 0


def g_range(src, n):
    return VOID if src.below(5) == 0 else g_index(src, n)


def ii(i):
    return int(i // 1) if isinstance(i, float) else i


def cmp_arr(a, b):
    """Arrays compare element by element, then by size; an array is greater than any number."""
    la, lb = isinstance(a, list), isinstance(b, list)
    if la and lb:
        for x, y in zip(a, b):
            c = cmp_arr(x, y)
            if c:
                return c
        a, b = len(a), len(b)
    elif la or lb:
        a, b = int(la), int(lb)
    return (a > b) - (a < b)


class CHECK(SeqCheck):
    id = "C10"
    rule = ("a history of at least 4 array operations which changes the size of an array at least twice or replaces a range; "
            "distinct by the steps")
    flavours = ("dbg", "asan")
    cases = {"quick": 60000, "thorough": 400000}

    def compare_shared(self, q, src):
        """Comparison of arrays which share elements or contain each other."""
        n = src.int(2, 6)
        names = list(range(n))
        src_order = src.below(2)
        for i in (names if src_order else names[::-1]):
            q.stmt("const p%d = []" % i)            # addresses in either order
        vals = []
        for i in range(n):
            v, t = [], []
            for _ in range(src.weighted(((4, 1), (3, 2), (1, 0), (1, 3)))):
                if vals and src.below(4):
                    j = src.below(len(vals))
                    v.append(vals[j])
                    t.append("p%d" % j)
                else:
                    x = src.pick((0, 1, 1, 2, [], [1], [[1]], [2]))
                    v.append(x)
                    t.append(lit(x))
            vals.append(v)
            if t:
                q.stmt("p%d.push(%s)" % (i, ", ".join(t)))
        for _ in range(src.int(1, 4)):
            i, j = src.below(n), src.below(n)
            c = cmp_arr(vals[i], vals[j])
            q.do("[p{0} == p{1}, p{0} != p{1}, p{0} < p{1}, p{0} <= p{1}, p{0} > p{1}, p{0} >= p{1}]".format(i, j),
                 [c == 0, c != 0, c < 0, c <= 0, c > 0, c >= 0])
        q.labels.add("compare-shared")

    def build(self, q, src):
        if src.bool(1, 6):
            self.compare_shared(q, src)
        na = src.int(1, 2)
        arrs = []
        for i in range(na):
            k = src.below(6)
            n = src.len(20)
            if k < 4:
                v = [g_elem(src) for _ in range(n)]
                q.stmt("const a%d = %s" % (i, lit(v)))
            elif k == 4:
                x = g_elem(src)
                v = [x] * n
                q.stmt("const a%d = array(%d, %s)" % (i, n, lit(x)))
            else:
                v = [VOID] * n
                q.stmt("const a%d = array(%d)" % (i, n))
            arrs.append(v)
        changes = 0
        steps = src.int(2, 14)
        for _ in range(steps):
            w = src.below(na)
            a = arrs[w]
            A = "a%d" % w
            n = len(a)
            op = src.below(24)
            if op < 3:
                vs = [g_elem(src) for _ in range(src.weighted(((5, 1), (2, 2), (1, 3), (1, 0), (1, 9))))]
                how = src.below(3)
                if how == 2:
                    q.do("%s.push(%s...)" % (A, lit(vs)), n)
                else:
                    q.do("%s.push(%s)" % (A, ", ".join(map(lit, vs))), n)
                a.extend(vs)
                changes += 1
            elif op == 3:
                if src.below(3) or not n:
                    q.do("%s.pop()" % A, a.pop() if n else THROWS)
                else:
                    k = src.int(0, n)
                    if k == 0:
                        q.do("%s.pop(0)" % A, VOID)
                    else:
                        q.do("%s.pop(%d)" % (A, k), a[n - k:])
                        del a[n - k:]
                changes += 1
            elif op == 4:
                i = g_index(src, n)
                j = ii(i)
                ok = -n <= j < n
                how = src.below(4)
                if how == 0:
                    v = g_elem(src)
                    q.do("%s.get(%s, %s)" % (A, lit(i), lit(v)), a[j] if ok and not isinstance(i, float) else ANY if isinstance(i, float) else v)
                elif how == 1:
                    q.do("%s?[%s]" % (A, lit(i)) if False else "%s?.[%s]" % (A, lit(i)) if False else "%s[%s]" % (A, lit(i)), a[j] if ok else THROWS)
                else:
                    q.do("%s[%s]" % (A, lit(i)), a[j] if ok else THROWS)
            elif op < 7:
                i = g_index(src, n)
                j = ii(i)
                ok = -n <= j < n
                v = g_elem(src)
                q.do("(fun { %s[%s] = %s })()" % (A, lit(i), lit(v)), VOID if ok else THROWS)
                if ok:
                    a[j] = v
            elif op < 9:
                b, e = g_range(src, n), g_range(src, n)
                bi, ei = fix(b, n, 0), fix(e, n, n)
                t = src.below(3)
                if t == 0:
                    s = "%s.slice(%s, %s)" % (A, lit(b), lit(e))
                else:
                    s = "%s[%s:%s]" % (A, "" if b is VOID and src.bool() else lit(b), "" if e is VOID and src.bool() else lit(e))
                q.do(s, a[bi:max(bi, ei)])
            elif op < 12:
                self.insert(q, src, arrs, w)
                changes += 2
            elif op == 12:
                n2 = src.len(40)
                v = g_elem(src)
                q.do("%s.resize(%d, %s) == %s" % (A, n2, lit(v), A), True)
                if n2 < n:
                    del a[n2:]
                else:
                    a.extend([v] * (n2 - n))
                changes += 1
            elif op == 13:
                q.do("%s.reserve(%d) == %s" % (A, src.len(100), A), True)
            elif op < 16:
                v = g_elem(src)
                b, e = g_range(src, n), g_range(src, n)
                bi, ei = fix(b, n, 0), fix(e, n, n)
                k = src.below(3)
                if k == 0:
                    bi, ei, args = 0, n, lit(v)
                elif k == 1:
                    ei, args = n, "%s, %s" % (lit(v), lit(b))
                else:
                    args = "%s, %s, %s" % (lit(v), lit(b), lit(e))
                q.do("%s.fill(%s) == %s" % (A, args, A), True)
                for x in range(bi, ei):
                    a[x] = v
            elif op == 16:
                # compare-and-swap compares references: small integers, booleans and void are compared by value
                i = g_index(src, n)
                j = ii(i)
                ok = -n <= j < n
                v = src.int(0, 99)
                if ok and kosops.isint(a[j]) and abs(a[j]) < 1 << 60:
                    hit = src.bool()
                    old = a[j] if hit else a[j] + 1
                    q.do("%s.cas(%s, %s, %s)" % (A, lit(i), lit(old), lit(v)), a[j])
                    if hit:
                        a[j] = v
                elif not ok:
                    q.do("%s.cas(%s, 1, %s)" % (A, lit(i), lit(v)), THROWS)
            elif op == 17:
                q.do("[%s..., %s...]" % (A, "a%d" % (na - 1)), a + arrs[na - 1])
            elif op == 18:
                q.do("array(%s, %s)" % (A, "a%d" % (na - 1)), a + arrs[na - 1])
            elif op == 19:
                how = src.below(4)
                if how == 0:
                    q.do("(fun { const r = []; for const x in %s { r.push(x) }; return r })()" % A, list(a))
                elif how == 1:
                    q.do("[%s.iterator()...]" % A, list(a))
                elif how == 2:
                    q.do("(fun(x...) { return x })(%s...)" % A, list(a))
                else:
                    q.do("(fun { var i = 0; for const x in %s { i += 1; if i > %d { break } }; return i })()" % (A, n // 2), min(n, n // 2 + 1))
            elif op == 20:
                # appending while iterating: the loop sees elements which exist when it reaches them
                m = src.int(0, 3)
                q.do("(fun { const r = []; var i = 0; for const x in %s { r.push(x); if i < %d { %s.push(i) }; i += 1 }; return r })()" % (A, m, A),
                     a + list(range(m)) if n else [])
                if n:
                    a.extend(range(min(m, n + m)))
                changes += 1
            elif op == 21:
                b, e = sorted((src.int(0, n), src.int(0, n)))
                rep = src.int(0, 3)
                q.do("(fun { repeat_(%d, ()=>(%s.push(%s[%d:%d]...))); return void })()" % (rep, A, A, b, e), VOID)
                for _ in range(rep):
                    a.extend(a[b:e])
                if len(a) > 3000:
                    return False
                changes += 1
            elif op == 22:
                q.do("%s.size" % A, n)
            else:
                # destructuring: the array must have at least as many elements as variables
                k = src.int(2, 4)
                names = ["x%d" % i for i in range(k)]
                q.do("(fun { const %s = %s; return [%s] })()" % (", ".join(names), A, ", ".join(names)), a[:k] if n >= k else THROWS)
            if src.below(4) == 0:
                q.do(A, list(a))
        for i, a in enumerate(arrs):
            q.do("a%d" % i, list(a))
            q.do("a%d.size" % i, len(a))
        q.nt = steps >= 4 and changes >= 2
        return None

    def insert(self, q, src, arrs, w):
        a = arrs[w]
        n = len(a)
        A = "a%d" % w
        b = g_range(src, n)
        kind = src.below(9)
        if kind < 3:
            items = [g_elem(src) for _ in range(src.len(12))]
            text = lit(items)
        elif kind == 3:
            u = src.below(len(arrs))
            items = list(arrs[u])
            text = "a%d" % u
        elif kind == 4:
            s = "".join(src.pick("abcxyz") for _ in range(src.len(6)))
            items = list(s)
            text = lit(s)
        elif kind == 5:
            data = [src.below(256) for _ in range(src.len(6))]
            items = data
            text = "mkbuf_(%s)" % lit(data)
        elif kind == 6:
            k = src.int(0, 6)
            items = list(range(k))
            text = "range(%d)" % k
        elif kind == 7:
            v = src.int(-5, 5)
            items = [v]
            text = lit(v)
        else:
            items = [g_elem(src) for _ in range(src.len(6))]
            text = "(fun { for const x in %s { yield x } })()" % lit(items) if items else "[].iterator()"
        form = src.below(5)
        if form == 0:
            bi = n if b is VOID else fix(b, n, n)
            ei = bi
            s = "%s.insert(%s, %s)" % (A, lit(b), text)
        else:
            e = g_range(src, n)
            bi, ei = fix(b, n, 0), fix(e, n, n)
            ei = max(bi, ei)
            if any(isinstance(x, float) for x in (b, e)) and kind >= 4:
                b, e = (0 if isinstance(x, float) else x for x in (b, e))
                bi, ei = fix(b, n, 0), fix(e, n, n)
                ei = max(bi, ei)
            if any(not isinstance(x, kosval.Void) and abs(x) > 1 << 40 for x in (b, e)) and kind >= 4:
                return
            if form == 1 and kind < 4:
                s = "%s.insert_array(%s, %s, %s)" % (A, lit(b), lit(e), text)
            else:
                s = "%s.insert(%s, %s, %s)" % (A, lit(b), lit(e), text)
        if form == 0 and kind >= 4 and (isinstance(b, float) or not isinstance(b, kosval.Void) and abs(b) > 1 << 40):
            return
        if kind == 3 and False:
            return
        q.do("%s == %s" % (s, A), True)
        a[bi:ei] = items
        q.labels.add("insert%d" % kind)

    pre = """
fun repeat_(n, f) { var i = 0; while i < n { f(); i += 1 } }
"""
