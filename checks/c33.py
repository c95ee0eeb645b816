"""Module math against IEEE arithmetic and the C library's functions."""
import math
import struct
import kosops
import kosval
from kosseq import SeqCheck, THROWS, OneOf
from kosval import VOID, lit

INF = float("inf")
NAN = float("nan")
FL = (0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 1.5, -1.5, 2.5, 1e-300, 5e-324, -5e-324, 1e300, 1.7976931348623157e308, -1.7976931348623157e308, INF, -INF, NAN,
      2.0 ** 52, 2.0 ** 52 + 0.5, 2.0 ** 53, -2.0 ** 63, 2.0 ** 63, 0.9999999999999999, 1.0000000000000002, -0.9999999999999999, -1.0000000000000002, math.pi, math.pi / 2, -math.pi / 4,
      709.78, 710.0, -745.0, -746.0, 1e-17, 1e22, 0.1)
IN = (0, 1, -1, 2, -2, 3, 10, 100, -100, (1 << 53) + 1, 1 << 62, -(1 << 62), (1 << 63) - 1, -(1 << 63), -(1 << 63) + 1, 1 << 32, (1 << 62) - 1, -(1 << 62) - 1)
BAD = (VOID, True, False, "1", "", [1], {"a": 1})


def num(src):
    k = src.below(10)
    if k < 3:
        return src.pick(FL)
    if k < 5:
        return src.pick(IN)
    if k == 5:
        return src.int(-20, 20)
    if k == 6:
        return src.int(-20, 20) / src.pick((1.0, 2.0, 4.0, 7.0, 10.0))
    if k == 7:
        return src.int(-(1 << 63), (1 << 63) - 1)
    if k == 8:
        return src.int(-1 << 20, 1 << 20) / float(1 << 20)
    return struct.unpack("<d", struct.pack("<Q", src.int(0, (1 << 64) - 1)))[0]


def near(r):
    """the C library's result; its neighbours are accepted"""
    if r != r or math.isinf(r) or r == 0.0:
        return r
    return OneOf(r, math.nextafter(r, INF), math.nextafter(r, -INF))


def call(f, *a):
    try:
        return f(*a)
    except OverflowError:
        return None
    except ValueError:
        return NAN


def fexp(x):
    r = call(math.exp, x)
    return INF if r is None else r


def fexpm1(x):
    r = call(math.expm1, x)
    return INF if r is None else r


def trig(f):
    return lambda x: NAN if math.isinf(x) else f(x)


def fround(f):
    def g(x):
        if x != x or math.isinf(x) or x == 0.0:
            return x
        return math.copysign(float(f(x)), x)
    return g


def fpow(a, b):
    if a == 0.0:
        return THROWS if b == 0.0 else 0.0
    if a == 1.0 or b == 0.0:
        return 1.0
    if a < 0 and b == b and not math.isinf(b) and b != math.ceil(b):
        return THROWS
    if a < 0 and b != b:
        return OneOf(THROWS, NAN)
    r = call(math.pow, a, b)
    if r is None:
        neg = a < 0 and b == math.floor(b) and math.fmod(b, 2.0) != 0.0
        r = -INF if neg else INF
    return r


def dom(f, ok):
    return lambda x: THROWS if not (x != x or ok(x)) else (call(f, x) if x == x else NAN)


F1 = {
    "acos": dom(math.acos, lambda x: -1 <= x <= 1), "asin": dom(math.asin, lambda x: -1 <= x <= 1), "atan": math.atan,
    "cos": trig(math.cos), "sin": trig(math.sin), "tan": trig(math.tan), "exp": fexp, "expm1": fexpm1,
    "log": dom(math.log, lambda x: x > 0), "log10": dom(math.log10, lambda x: x > 0), "log1p": dom(math.log1p, lambda x: x > -1),
    "sqrt": dom(math.sqrt, lambda x: x >= 0),
}
EXACT = ("sqrt",)


class CHECK(SeqCheck):
    id = "C33"
    rule = "a call with a number outside the small integers 0..3, or one which must throw; distinct by the steps"
    batch = 400
    prelude = "import math\n" + kosval.PRELUDE
    cases = {"quick": 60000, "thorough": 1500000}

    def build(self, q, src):
        for _ in range(1 + src.below(5)):
            k = src.below(12)
            if src.bool(1, 12):
                f = src.pick(tuple(F1) + ("abs", "ceil", "floor"))
                b = src.pick(BAD)
                q.do("math.%s(%s)" % (f, lit(b)), THROWS)
                if src.bool(1, 3):
                    q.do("math.%s()" % f, THROWS)
                    q.do("math.pow(%s)" % lit(num(src)), THROWS)
                q.do(src.pick(("math.pow(%s, 2)", "math.pow(2, %s)", "math.pow(1, %s)", "math.pow(%s, 0)")) % lit(b), THROWS)
                q.labels.add("bad")
                continue
            if k < 6:
                f = src.pick(tuple(F1))
                x = num(src)
                if f in ("acos", "asin") and src.bool():
                    x = src.int(-1000, 1000) / 997.0
                r = F1[f](float(x))
                q.labels.add(f)
                q.labels.add("throws" if r is THROWS else "value")
                q.do("math.%s(%s)" % (f, lit(x)), r if r is THROWS or f in EXACT else near(r))
            elif k < 8:
                x = num(src)
                f = src.pick(("abs", "ceil", "floor"))
                q.labels.add(f)
                if f == "abs":
                    r = THROWS if not isinstance(x, float) and x == -(1 << 63) else abs(x)
                else:
                    r = x if isinstance(x, int) else fround(math.ceil if f == "ceil" else math.floor)(x)
                q.do("math.%s(%s)" % (f, lit(x)), r)
            elif k < 9:
                x = src.pick(BAD) if src.bool(1, 4) else num(src)
                fl = isinstance(x, float)
                q.do("math.is_nan(%s)" % lit(x), fl and x != x)
                q.do("math.is_infinity(%s)" % lit(x), fl and math.isinf(x))
                if isinstance(x, (int, float)) and not isinstance(x, bool):
                    # made by arithmetic, not by a literal
                    q.do("math.is_infinity(%s * 1e308 * 10.0)" % lit(x), math.isinf(float(x) * 1e308 * 10.0))
                    q.do("math.is_nan(%s * math.infinity)" % lit(x), math.isnan(float(x) * INF))
                q.labels.add("is")
            elif k < 11:
                if src.bool():
                    a, b = src.int(-12, 12), src.int(-9, 9)
                    a, b = src.pick((a, float(a))), src.pick((b, float(b), b + 0.5))
                else:
                    a, b = num(src), num(src)
                r = fpow(float(a), float(b))
                q.labels.add("pow")
                q.labels.add("throws" if r is THROWS else "value")
                q.do("math.pow(%s, %s)" % (lit(a), lit(b)), r if r is THROWS or isinstance(r, OneOf) else near(r))
            else:
                f = src.pick(("min", "max"))
                kind = src.below(3)
                g = (lambda: num(src)) if kind == 0 else (lambda: src.pick(("", "a", "b", "ab", "\xe9", "z"))) if kind == 1 else (lambda: src.int(-3, 3) * src.pick((1, 1.0)))
                xs = [g() for _ in range(1 + src.below(6))]
                m = xs[0]
                for x in xs[1:]:
                    if kosops.compare("<" if f == "min" else ">", x, m):
                        m = x
                t = ", ".join(lit(x) for x in xs)
                q.do(src.pick(("math.%s(%s)", "math.%s([%s]...)")) % (f, t), m)
                q.labels.add(f)
        q.nt = True
        return True

    def fixed_cases(self):
        import kosseq
        q = kosseq.Seq()
        q.nt = True
        q.do("math.pi", math.pi)
        q.do("math.e", math.e)
        q.do("math.infinity", INF)
        q.do("math.nan", NAN)
        q.do("math.min()", THROWS)
        q.do("math.max()", THROWS)
        return [q.case()]
