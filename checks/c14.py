"""Numbers and text: parsing, literals, printing."""
import math
import re
import struct
from fractions import Fraction

from kosops import g_int, g_float, to_int, Throw
from kosseq import SeqCheck, THROWS, OneOf
from kosval import I64MIN, I64MAX, VOID, canon, lit, strlit, wrap

MAXD = Fraction(1.7976931348623157e308)


def frac(text):
    """Exact value of a decimal float text (no sign)."""
    t = text.replace("_", "").lower()
    m, _, e = t.partition("e")
    ip, _, fp = m.partition(".")
    return Fraction(int((ip + fp) or "0")) * Fraction(10) ** (int(e or "0") - len(fp))


def allowed(text):
    """Doubles the parser may return for a decimal text: it works on a 64-bit mantissa and rounds after every decimal
    digit and every power of 10, and looks at about 17 significant digits."""
    t = text.replace("_", "").lower()
    m, _, e = t.partition("e")
    if int(e or "0") > 308 or int(e or "0") < -324:
        return [THROWS]
    ip, _, fp = m.partition(".")
    digits = (ip + fp).lstrip("0")
    nd = len(digits)
    d = frac(text)
    if d == 0:
        return [0.0]
    dexp = int(e or "0") - len(fp)
    ops = min(nd, 19) + abs(dexp + max(0, nd - 19)) + 2
    exact = dexp == 0 and int(digits[:-1] or "0") < 1 << 54
    tol = Fraction(0) if exact else Fraction(ops, 1024) + (Fraction(1, 3) if nd > 16 else 0)
    out = []
    if d > MAXD * 2:
        return [THROWS]
    try:
        x = float(d)
    except OverflowError:
        return [THROWS, 1.7976931348623157e308]
    for c in {x, math.nextafter(x, 0.0), math.nextafter(x, math.inf)}:
        if math.isinf(c):
            if d > MAXD:
                out.append(THROWS)
            else:
                u = Fraction(math.ulp(1.7976931348623157e308))
                if MAXD + u * (Fraction(1, 2) - tol) < d:
                    out.append(THROWS)
            continue
        u = Fraction(math.ulp(c))
        low = u if not (c > 0 and math.frexp(c)[0] == 0.5) else u / 2
        dist = d - Fraction(c)
        if exact:
            if c == x:
                out.append(c)
        elif abs(dist) <= (u if dist > 0 else low) * (Fraction(1, 2) + tol) + (0 if d > Fraction(1, 10 ** 307) else u * tol):
            out.append(c)
    return out or [x]


def printed(x):
    if x != x:
        return "nan"
    if math.isinf(x):
        return "infinity" if x > 0 else "-infinity"
    s = "%.15f" % x
    if "." not in s[:31]:
        return "%.16e" % x
    s = s[:31].rstrip("0")
    # the print buffer ends at the 31st character, the tests specify the bare point
    return s + "0" if s.endswith(".") and len(s) < 31 else s


def hexs(n, w):
    return "0x" + ("%x" % (n & ((1 << 64) - 1))).rjust(w, "0")


def g_digits(src, n):
    k = src.below(6)
    if k == 0:
        return "".join(src.pick("09") for _ in range(n))
    if k == 1:
        return "0" * (n - 1) + src.pick("123456789") if n else ""
    if k == 2:
        return "".join(src.pick("049") for _ in range(n))
    return "".join(src.pick("0123456789") for _ in range(n))


def under(src, s):
    if src.below(4):
        return s
    o = []
    for i, c in enumerate(s):
        if i and src.below(4) == 0:
            o.append("_")
        o.append(c)
    return "".join(o)


def g_decimal(src):
    """Text of a float literal."""
    k = src.below(10)
    if k < 2:
        # near the middle between two doubles
        x = abs(g_float(src))
        if math.isinf(x) or x != x or x == 0:
            x = 1.5
        d = (Fraction(x) + Fraction(math.nextafter(x, 0.0))) / 2 if src.bool() else Fraction(x)
        e = 0
        nd = src.int(15, 40)
        ex = math.floor(math.log10(x)) if x > 1e-300 else -300
        n = d / Fraction(10) ** (ex - nd + 1)
        n = n.numerator // n.denominator + src.int(-1, 1)
        s = str(max(n, 1))
        p = src.int(1, len(s))
        e = ex - nd + 1 + len(s) - p
        return "%s.%se%d" % (s[:p], s[p:], e) if e or src.bool() else "%s.%s" % (s[:p], s[p:])
    if k == 2:
        # integers around powers of two
        n = (1 << src.int(50, 64)) + src.int(-3, 3)
        return "%d.0" % n if src.bool() else "%d.%s" % (n, g_digits(src, src.int(0, 4)))
    if k == 3:
        x = abs(g_float(src))
        if math.isinf(x) or x != x:
            x = 1.0
        s = re.sub(r"e([+-]?)0+", r"e\1", repr(x))
        return s if "." in s or "e" in s else s + ".0"
    ip = str(int(g_digits(src, src.weighted(((5, 1), (3, 4), (1, 17), (1, 19), (1, 25)))) or "0"))
    fp = "." + g_digits(src, src.weighted(((2, 0), (5, 1), (3, 4), (2, 15), (1, 17), (1, 40)))) if src.below(5) else ""
    e = ""
    if not fp or src.bool():
        v = src.weighted(((6, src.int(-10, 10)), (3, src.int(-30, 30)), (2, src.int(-330, 312)), (1, src.pick((308, 307, 309, -324, -323, -325, -308, -307)))))
        e = "eE"[src.below(2)] + ("%d" % v if v < 0 or src.bool() else "+%d" % v)
    return under(src, ip) + under(src, fp) + e


BAD = ("", " ", "-", "+", "--1", "+-1", "-+1", "1-", "1+1", " 1", "1 ", "1\n", "1\0", "\0", "x", "0x", "0xg", "0b", "0b2", "0b12", "12a", "a", "z", "1e", "1e+", "1e-",
       "1.5e", "1e1.5", "1.2.3", "1..2", "1,5", "1e--5", "1e5e5", "infinity", "nan", "inf", "0x1.5", "0b1.1", "1.5x", "void", "true", "١", "１", "1\xa0", "\ufeff1", "1\U0001f600",
       "0x1g", "1.0f", "1L", "0o7", "1e5.", "0x-1", "0x+1", "-0x", "-0b", "0b1e1")


class CHECK(SeqCheck):
    id = "C14"
    rule = ("a text of at least 3 characters parsed, a number printed with at least 3 characters, or a malformed text; at least 3 steps; "
            "distinct by the steps")
    cases = {"quick": 150000, "thorough": 2000000}

    def build(self, q, src):
        for _ in range(src.int(2, 6)):
            self.step(q, src)
        q.nt = len(q.exp) >= 3

    def parse(self, q, src, text, neg):
        """A float text"""
        vals = allowed(text)
        sign = "-" if neg else src.pick(("", "", "", "+"))
        if neg:
            vals = [v if v is THROWS else -v for v in vals]
        f = src.pick(("float", "number"))
        k = src.below(3)
        if k == 0 and text.isascii() and THROWS not in vals:
            # literals: a leading zero must be the only digit of the integer part
            q.do("%s%s" % ("-" if neg else "", text), OneOf(*vals))
            # all the ways to read a literal agree
            q.do('%s(%s) == %s%s' % (f, strlit(sign + text), "-" if neg else "", text), True)
        elif k == 1 and THROWS not in vals:
            q.do("float(%s) == number(%s)" % (strlit(sign + text), strlit(text if sign == "+" else sign + text)), True)
            q.do("float(%s)" % strlit(sign + text), OneOf(*vals))
        else:
            q.do("%s(%s)" % (f, strlit(sign + text)), OneOf(*vals))
            q.do("integer(%s)" % strlit(sign + text), THROWS)

    def step(self, q, src):
        op = src.below(16)
        if op < 4:
            self.parse(q, src, g_decimal(src), src.below(3) == 0)
        elif op < 7:
            n = g_int(src)
            if src.below(6) == 0:
                n = src.pick((I64MAX, I64MIN, I64MAX - 1, I64MIN + 1, 1 << 62, (1 << 30) - 1, -(1 << 30), 10 ** 18, -10 ** 18))
            k = src.below(6)
            d = str(abs(n))
            sg = "-" if n < 0 else src.pick(("", "", "+"))
            f = src.pick(("integer", "number"))
            if k == 0:
                q.do("string(%s)" % lit(n), str(n))
                q.do("%s(string(%s))" % (f, lit(n)), n)
            elif k == 1:
                q.do("%s(%s)" % (f, strlit(sg + "0" * src.pick((0, 0, 1, 30)) + under(src, d))), n)
            elif k == 2:
                h = "%x" % (n & ((1 << 64) - 1))
                h = h.upper() if src.bool() else h
                t = "0" + src.pick("xX") + "0" * src.pick((0, 0, 3, 20)) + under(src, h)
                q.do("%s(%s)" % (f, strlit(src.pick(("", "+")) + t)), n)
                q.do(t, n)
            elif k == 3:
                b = bin(n & ((1 << 64) - 1))[2:]
                t = "0" + src.pick("bB") + under(src, b)
                if n < 0:
                    q.do("%s(%s)" % (f, strlit("-0b%s" % under(src, bin(-n)[2:]))), n if n > I64MIN else OneOf(n, THROWS))
                else:
                    q.do("%s(%s)" % (f, strlit(t)), n)
                    q.do(t, n)
            elif k == 4:
                w = src.int(0, 16)
                q.do("hex(%s, %d)" % (lit(n), w), hexs(n, w))
                q.do("integer((%s).hex())" % lit(n), n)
            else:
                t = under(src, d)
                if n >= 0:
                    q.do(t, n)
                elif n > I64MIN:
                    q.do("-%s" % t, n)
                q.do('"\\(%s)"' % lit(n), str(n))
        elif op == 7:
            # one more than fits
            k = src.below(5)
            n = src.int(0, 5) if src.bool() else (1 << src.int(1, 62))
            if k == 0:
                q.do("integer(%s)" % strlit(str(I64MAX + 1 + n)), THROWS)
            elif k == 1:
                q.do("number(%s)" % strlit(str(I64MIN - 1 - n)), THROWS)
            elif k == 2:
                q.do("integer(%s)" % strlit(hex((1 << 64) + n)), THROWS)
            elif k == 3:
                q.do("number(%s)" % strlit(bin((1 << 64) + n)), THROWS)
            else:
                q.do("float(%s)" % strlit(str(I64MAX + 1 + n)), OneOf(*allowed(str(I64MAX + 1 + n))))
        elif op < 11:
            x = g_float(src)
            if src.below(3) == 0:
                x = float(src.int(-10 ** 6, 10 ** 6)) / src.pick((1, 2, 3, 7, 10, 100, 1000, 1024, 10 ** 6, 10 ** 12, 10 ** 15))
            elif src.below(4) == 0:
                x = float(10 ** src.int(0, 40)) * src.pick((1, -1, 0.3, 1.5, 9.99999999999999))
            p = printed(x)
            k = src.below(6)
            e = lit(x)
            if k == 0:
                q.do("string(%s)" % e, p)
            elif k == 1:
                q.do('"\\(%s)"' % e, p)
            elif k == 2:
                q.do("stringify(%s)" % e, p)
            elif k == 3:
                q.do('"a" + string(%s, "b", %s)' % (e, lit(7)), "a" + p + "b7")
            elif k == 4:
                q.do("(fun { const v_ = %s; return \"<\\(v_)>\" })()" % e, "<" + p + ">")
            elif not (math.isinf(x) or x != x):
                # printing keeps the value as far as 15 decimals tell, parsing gives it back
                ok = allowed(p.lstrip("-"))
                if p.startswith("-"):
                    ok = [v if v is THROWS else -v for v in ok]
                q.do("float(string(%s))" % e, OneOf(*ok))
        elif op < 13:
            s = src.pick(BAD)
            if src.below(3) == 0:
                # damage a valid number
                t = src.pick((str(g_int(src)), g_decimal(src)))
                i = src.below(len(t) + 1)
                c = src.pick(("g", " ", "%", "\0", "p", "\u0661", "\xb2", "#", "/", ":", "@", "`", "'"))
                s = t[:i] + c + t[i:]
            for f in ("integer", "float", "number"):
                # binary and hexadecimal digits count for integer() only
                q.do("%s(%s)" % (f, strlit(s)), THROWS)
        elif op == 13:
            v = src.pick((g_int(src), g_float(src)))
            k = src.below(3)
            if k == 0:
                try:
                    r = to_int(v)
                except Throw:
                    r = THROWS
                q.do("integer(%s)" % lit(v), r)
            elif k == 1:
                q.do("float(%s)" % lit(v), float(v))
            else:
                q.do("number(%s)" % lit(v), v)
        elif op == 14:
            v, r = src.pick(((VOID, False), (False, False), (True, True), (0, False), (0.0, False), (-0.0, False), (1, True), (-1, True), (5e-324, True), ("", True), ("0", True),
                             ([], True), (float("nan"), None), (1 << 32, True), (I64MIN, True)))
            if r is None:
                return
            q.do("boolean(%s)" % lit(v), r)
            q.do("!%s" % lit(v), not r)
            q.do("(fun { if %s { return 1 } else { return 2 } })()" % lit(v), 1 if r else 2)
        else:
            f = src.pick(("integer", "float", "number"))
            v = src.pick(("void", "true", "[]", "{}", "buffer()", "()=>1", '[1]'))
            q.do("%s(%s)" % (f, v), THROWS)
            q.do("%s()" % f, 0.0 if f == "float" else 0)
