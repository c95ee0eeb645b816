"""Module random: PCG XSH RR 32 reference generator, ranges, shuffles."""
import struct
import kosval
from kosseq import SeqCheck, THROWS, ANY
from kosval import VOID, lit

M64 = (1 << 64) - 1
M32 = (1 << 32) - 1


class Pcg:
    def __init__(self, st, stream):
        self.inc = ((stream << 1) | 1) & M64
        self.state = (self.inc + st) & M64
        self.next()

    def next(self):
        s = self.state
        self.state = (s * 0x5851F42D4C957F2D + self.inc) & M64
        x = (((s >> 18) ^ s) >> 27) & M32
        r = s >> 59
        return ((x >> r) | (x << (-r & 31))) & M32


class Rng:
    """two PCG XSH RR 32 streams, seeded from a third"""
    def __init__(self, seed):
        seed &= M64
        p = Pcg(seed, seed ^ M64)
        self.pcg = []
        for _ in range(2):
            a = [p.next() for _ in range(4)]
            self.pcg.append(Pcg(a[0] << 32 | a[1], a[2] << 32 | a[3]))

    def u64(self):
        lo = self.pcg[0].next()
        hi = self.pcg[1].next()
        return hi << 32 | lo

    def range(self, n):
        """0..n inclusive, without modulo bias"""
        if n == M64:
            return self.u64()
        if n == M32:
            return self.pcg[0].next()
        m = n + 1
        if n < M32:
            t = (1 << 32) % m
            sel = 0
            while True:
                r = self.pcg[sel].next()
                if r >= t:
                    return r % m
                sel ^= 1
        t = (1 << 64) % m
        while True:
            r = self.u64()
            if r >= t:
                return r % m

    def integer(self, lo=None, hi=None):
        if lo is None:
            return kosval.wrap(self.u64())
        if lo == hi:
            return lo
        return lo + self.range(hi - lo)

    def float(self):
        return struct.unpack("<d", struct.pack("<Q", (self.u64() & ((1 << 52) - 1)) | (0x3FF << 52)))[0] - 1.0


EDGE = (0, 1, -1, 2, 5, 9, 255, 256, M32 - 1, M32, M32 + 1, 1 << 31, (1 << 31) + 1, -(1 << 31), 1 << 33, (1 << 62), -(1 << 62), (1 << 63) - 1, -(1 << 63), (1 << 63) - 2, -(1 << 63) + 1, 3 << 29, 3 << 60)


def integer(src):
    k = src.below(4)
    if k == 0:
        return src.pick(EDGE)
    if k == 1:
        return src.int(-10, 10)
    if k == 2:
        return src.int(-(1 << 34), 1 << 34)
    return src.int(-(1 << 63), (1 << 63) - 1)


class CHECK(SeqCheck):
    id = "C23"
    rule = "a seeded generator from which at least two values are drawn; distinct by the steps"
    batch = 200
    prelude = "import random\n" + kosval.PRELUDE
    cases = {"quick": 20000, "thorough": 600000}

    def build(self, q, src):
        gens = []
        for i in range(1 + src.below(2)):
            s = integer(src)
            if src.bool(1, 4):
                f = src.pick((s + 0.5 if abs(s) < 1 << 40 else float(s), -0.5, 42.0, 1e18, -7.25))
                if not -2.0 ** 63 < f < 2.0 ** 63:
                    q.do("random.random(%s)" % lit(f), THROWS)
                    f = 0.0
                import math
                q.stmt("const r%d = random.random(%s)" % (i, lit(f)))
                s = math.floor(f)
                q.labels.add("float-seed")
            else:
                q.stmt("const r%d = random.random(%s)" % (i, lit(s)))
            gens.append(Rng(s))
        n = 0
        for _ in range(2 + src.below(10)):
            i = src.below(len(gens))
            g = gens[i]
            k = src.below(10)
            if k < 2:
                q.do("r%d.integer()" % i, g.integer())
            elif k < 7:
                lo, hi = integer(src), integer(src)
                if src.bool(1, 3):
                    hi = lo + src.pick(EDGE)
                    if not -(1 << 63) <= hi < 1 << 63:
                        hi = lo
                if lo > hi and src.bool(7, 8):
                    lo, hi = hi, lo
                if lo > hi:
                    q.do("r%d.integer(%s, %s)" % (i, lit(lo), lit(hi)), THROWS)
                    q.labels.add("bad-range")
                    continue
                d = hi - lo
                q.labels.add("same" if d == 0 else "r32" if d < M32 else "r32full" if d == M32 else "r64full" if d == M64 else "r64")
                q.do("r%d.integer(%s, %s)" % (i, lit(lo), lit(hi)), g.integer(lo, hi))
            elif k == 7:
                q.do("r%d.float()" % i, g.float())
                q.labels.add("float")
            elif k == 8:
                bad = src.pick(("r%d.integer(1)", "r%d.integer(void, 1)", "r%d.integer(\"a\", 1)", "r%d.integer(1, [])", "r%d.integer.apply({}, [])", "random.random(\"1\"), r%d", "random.random(true), r%d", "r%d.float.apply(void, [])"))
                b = bad % i
                if "," in b and b.startswith("random"):
                    b = b.split(",")[0]
                q.do(b, THROWS)
                q.labels.add("bad")
            else:
                self.shuffle(q, src, gens, i)
            n += 1
        q.nt = n > 1
        return True

    def shuffle(self, q, src, gens, i):
        # a permutation, the same one for the same state of the generator, and the input stays as it was
        s = integer(src)
        n = src.below(20)
        xs = [src.int(0, 9) for _ in range(n)]
        q.stmt("{ const sa_ = random.random(%s); const sb_ = random.random(%s)" % (lit(s), lit(s)) if False else "const v%d = %s" % (len(q.lines), lit(xs)))
        v = "v%d" % (len(q.lines) - 1)
        it = src.pick((v, v + ".iterator()", "(%s -> map(x => x))" % v))
        q.do("random.random(%s).shuffle(%s) == random.random(%s).shuffle(%s)" % (lit(s), v, lit(s), it), True)
        q.do("random.random(%s).shuffle(%s) -> sort()" % (lit(s), it), sorted(xs))
        q.do("random.shuffle(%s) -> sort()" % v, sorted(xs))
        q.do(v, xs)
        q.labels.add("shuffle")

    def fixed_cases(self):
        import kosseq
        cs = []
        q = kosseq.Seq()
        q.nt = True
        q.labels = {"entropy", "distribution"}
        q.do("[random.grandom instanceof random.random, random.random() instanceof random.random]", [True, True])
        # values of an unseeded generator: range, and no two generators alike
        q.do("(fun { const r = random.random(); for const i in range(2000) { const f = r.float(); if f < 0.0 || f >= 1.0 { return f }; const n = r.integer(-3, 3); if n < -3 || n > 3 { return n } }; return true })()", True)
        q.do("(fun { const s = {}; for const i in range(50) { s[\"\\(random.random().integer())\"] = 1 }; return [shallow(s)...].size })()", 50)
        # every value of a small range and every permutation of a small array turns up
        q.do("(fun { const c = [array(7, 0)...]; const r = random.random(); for const i in range(7000) { c[r.integer(0, 6)] += 1 }; for const x in c { if x < 700 || x > 1300 { return c } }; return true })()", True)
        q.do("(fun { const s = {}; const r = random.random(); for const i in range(3000) { s[r.shuffle(\"abc\").join(\"\")] = 1 }; return [shallow(s)...].size })()" if False else
             "(fun { const s = {}; const r = random.random(); for const i in range(3000) { s[string(r.shuffle(\"abc\")...)] = 1 }; return [shallow(s)...].size })()", 6)
        q.do("(fun { const s = {}; for const i in range(3000) { s[string(random.shuffle(\"abc\")...)] = 1 }; return [shallow(s)...].size })()", 6)
        cs.append(q.case())
        return cs
