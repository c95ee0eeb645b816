"""Strings behave like sequences of code points."""
import math

import kosval
from kosseq import SeqCheck, THROWS, ANY, OneOf
from kosval import VOID, Buf, lit, strlit, canon
from c10 import g_index, g_range, fix, ii

WS = " \r\n\t\f\v\xa0\u2028\u2029\ufeff"
EOL = "\n\r\v\f\x1c\x1d\x1e\x85\u2028\u2029"
ALPHA = (("ab", 8), ("abc ", 6), ("aA zZ@[`{\t\n\r", 4), ("a\xe9\xff\x80\xb5\xc9", 3), ("a\u0105\u2028\u0100b", 3), ("a\U0001f600b\u0105\xe9", 3),
         (WS + "ax", 3), (EOL + "ax", 3), ("0+-1a", 2), ("\0\x7fa\xff\u0100\uffff\U00010000\U0010ffff", 2))


def g_text(src, cap=14, alpha=None):
    if alpha is None:
        alpha = src.weighted([(w, a) for a, w in ALPHA])
    s = "".join(src.pick(alpha) for _ in range(src.len(cap)))
    if src.below(12) == 0:
        s += src.pick(("\U0001f600", "\u0105", "\xe9"))
    return s


def expr(src, s, depth=0):
    """A Kos expression for s, held in different ways: literal, slice of a wider or longer string, concatenation, ..."""
    k = src.below(10) if depth < 2 else 0
    if k < 3:
        return strlit(s)
    if k == 3:
        pre = src.pick(("", "x", "\u0105", "\U0001f600\U0001f600", "0123456789abcdefghij"))
        post = src.pick(("", "y", "\u2028", "\U0001f600", "0123456789abcdefghij"))
        return "(%s)[%d:%d]" % (strlit(pre + s + post), len(pre), len(pre) + len(s))
    if k == 4:
        c = src.below(len(s) + 1)
        return "(%s + %s)" % (expr(src, s[:c], depth + 1), expr(src, s[c:], depth + 1))
    if k == 5:
        return "string(%s)" % lit([ord(c) for c in s])
    if k == 6:
        return "%s.reverse()" % expr(src, s[::-1], depth + 1)
    if k == 7:
        c = src.below(len(s) + 1)
        return "string(%s, %s)" % (expr(src, s[:c], depth + 1), expr(src, s[c:], depth + 1))
    if k == 8:
        c = src.below(len(s) + 1)
        return "stringify(%s, %s)" % (expr(src, s[:c], depth + 1), expr(src, s[c:], depth + 1))
    c = src.below(len(s) + 1)
    return '"%s\\(%s)"' % (strlit(s[:c])[1:-1], expr(src, s[c:], depth + 1))


def scan(s, chars, pos, inc, rev):
    """chars is not empty"""
    n = len(s)
    if rev:
        p = n if pos is VOID else ii(pos)
        p = p + n if p < 0 else p
        p = min(p, n - 1)
        while p >= 0:
            if (s[p] in chars) == inc:
                return p
            p -= 1
        return -1
    p = fix(pos, n, 0)
    while p < n:
        if (s[p] in chars) == inc:
            return p
        p += 1
    return -1


def find(s, t, pos):
    return s.find(t, fix(pos, len(s), 0))


def rfind(s, t, pos):
    n = len(s)
    p = n if pos is VOID else ii(pos)
    p = p + n if p < 0 else p
    if p < 0:
        return -1
    return s.rfind(t, 0, min(p + len(t), n)) if len(t) <= n else -1


def split_ws(s, limit):
    out = []
    i = 0
    n = len(s)
    if limit == 0:
        return out
    while True:
        while i < n and s[i] in WS:
            i += 1
        if i == n:
            return out
        if limit > 0 and len(out) == limit - 1:
            out.append(s[i:])
            return out
        j = i
        while j < n and s[j] not in WS:
            j += 1
        out.append(s[i:j])
        i = j


def split_lines(s, keep):
    out = []
    i = 0
    st = 0
    n = len(s)
    while i < n:
        if s[i] in EOL:
            e = i + 2 if s[i] == "\r" and i + 1 < n and s[i + 1] == "\n" else i + 1
            out.append(s[st:e if keep else i])
            i = st = e
        else:
            i += 1
    if st < n:
        out.append(s[st:])
    return out


def acase(s, up):
    """Simple case mapping of the basic plane (the checks run in a UTF-8 locale)"""
    out = []
    for c in s:
        if ord(c) < 0x10000:
            d = c.upper() if up else c.lower()
            if len(d) == 1:
                c = d
        out.append(c)
    return "".join(out)


class CHECK(SeqCheck):
    id = "C12"
    rule = ("at least 3 operations on a string of at least 2 characters which are held as slices, concatenations or wider "
            "storage, or contain characters beyond ASCII; distinct by the steps")
    flavours = ("dbg", "asan")
    cases = {"quick": 70000, "thorough": 800000}

    def build(self, q, src):
        alpha = src.weighted([(w, a) for a, w in ALPHA])
        s = g_text(src, src.pick((16, 16, 16, 70)), alpha)
        n = len(s)
        e = expr(src, s)
        plain = e.startswith('"') and s.isascii()
        q.stmt("const s = %s" % e)
        q.do("s", s)
        for _ in range(src.int(2, 8)):
            self.step(q, src, s, n, alpha)
        if src.below(6) == 0:
            q.do("s", s)
        q.nt = n >= 2 and not plain and len(q.exp) >= 4

    def sub(self, src, s, alpha):
        """A string likely to occur in s"""
        if src.below(3) and s:
            i = src.below(len(s))
            t = s[i:i + src.int(1, 4)]
            if src.below(5) == 0:
                t += src.pick(alpha)
            return t
        return g_text(src, 3, alpha)

    def long_compare(self, q, src):
        """Order, equality and search of longer strings which differ little, with characters which share some of their bytes."""
        al = src.pick(("ab\xe1\xe2", "\u0141\u0241\u0199\u0299\u0111\u0211", "\u0141\u0241\u4141\u4142\u0142", "\U00010141\U00010241\U00020141\U00020142\u0141", "\U00010141\U00010241\U00020199\U00010199\U00020111", "\u0141\U00010141A", "ab"))
        n = src.int(1, 80)
        c0 = src.pick(al)
        dense = src.bool()
        x = [c0 if dense and src.bool(3, 4) else src.pick(al) for _ in range(n)]
        y = list(x)
        b0 = src.below(min(n, 20))
        for _ in range(src.below(3)):
            i = min(n - 1, b0 + src.below(4)) if src.bool() else src.below(n)
            for j in range(i, min(n, i + 1 + src.below(3))):
                y[j] = src.pick(al)
        if src.bool(1, 4):
            y = y[:src.below(n) + 1]
        x, y = "".join(x), "".join(y)
        m = min(len(x), len(y))
        b = min(b0, m - 1)
        if src.bool(2, 3):
            b2, e, e2 = b, m - src.below(min(m - b, 9) + 1), m
            e2 = e
        else:
            b2 = src.below(min(m, 20))
            e, e2 = len(x) - src.below(min(3, len(x) - b) + 1), len(y) - src.below(min(3, len(y) - b2) + 1)
        ex = "(%s)[%d:%d]" % (expr(src, x), b, e) if src.bool(3, 4) else strlit(x[b:e])
        ey = "(%s)[%d:%d]" % (expr(src, y), b2, e2) if src.bool(3, 4) else strlit(y[b2:e2])
        u, v = x[b:e], y[b2:e2]
        o = src.pick(("<", ">", "<=", ">=", "==", "!="))
        q.do("((a, b) => a %s b)(%s, %s)" % (o, ex, ey), {"<": u < v, ">": u > v, "<=": u <= v, ">=": u >= v, "==": u == v, "!=": u != v}[o])
        if src.bool(1, 3):
            p = u[src.below(len(u) + 1):] if u else ""
            p = p[:1 + src.below(20)]
            if p:
                r = src.bool()
                q.do("(%s).%sfind(%s)" % (ey, "r" if r else "", expr(src, p)), (v.rfind(p) if r else v.find(p)))

    def step(self, q, src, s, n, alpha):
        op = src.below(29)
        if op >= 26:
            return self.long_compare(q, src)
        if op == 0:
            i = g_index(src, n)
            j = ii(i)
            ok = -n <= j < n
            k = src.below(3)
            if k == 0:
                q.do("s[%s]" % lit(i), s[j] if ok else THROWS)
            elif k == 1:
                q.do("s.code(%s)" % lit(i), ord(s[j]) if ok else THROWS)
            elif not isinstance(i, float):
                q.do("s.get(%s, 7)" % lit(i), s[j] if ok else 7)
        elif op < 3:
            b, e = g_range(src, n), g_range(src, n)
            bi, ei = fix(b, n, 0), fix(e, n, n)
            if src.bool():
                t = "s.slice(%s, %s)" % (lit(b), lit(e))
            else:
                t = "s[%s:%s]" % ("" if b is VOID else lit(b), "" if e is VOID else lit(e))
            q.do(t, s[bi:max(bi, ei)])
        elif op < 5:
            t = self.sub(src, s, alpha)
            if not t:
                return
            pos = src.pick((None, VOID)) if src.below(3) == 0 else g_index(src, n)
            r = src.bool()
            a = expr(src, t) + ("" if pos is None else ", " + lit(pos))
            if pos is None:
                pos = VOID
            q.do("s.%sfind(%s)" % ("r" if r else "", a), rfind(s, t, pos) if r else find(s, t, pos))
        elif op < 8:
            t = self.sub(src, s, alpha)
            if not t:
                return
            r = src.bool()
            inc = src.bool()
            pos = VOID if src.below(3) == 0 else g_index(src, n)
            q.do("s.%sscan(%s, %s, %s)" % ("r" if r else "", expr(src, t), lit(pos), lit(inc)), scan(s, t, pos, inc, r))
        elif op == 8:
            t = s[:src.below(n + 1)] if src.bool() else self.sub(src, s, alpha)
            q.do("s.starts_with(%s)" % expr(src, t), s.startswith(t))
        elif op == 9:
            t = s[src.below(n + 1):] if src.bool() else self.sub(src, s, alpha)
            q.do("s.ends_with(%s)" % expr(src, t), s.endswith(t))
        elif op == 10:
            k = src.below(3)
            w = src.int(0, n + 8)
            f = src.pick(alpha)
            dflt = src.bool()
            m = ("ljust", "rjust", "zfill")[k]
            if dflt:
                f = "0" if k == 2 else " "
            pad = f * max(0, w - n)
            if k == 0:
                r = s + pad
            elif k == 1:
                r = pad + s
            else:
                r = s[0] + pad + s[1:] if s[:1] in ("+", "-") and s else pad + s
            q.do("s.%s(%d%s)" % (m, w, "" if dflt else ", " + expr(src, f)), r)
        elif op == 11:
            k = src.below(3)
            m = ("lstrip", "rstrip", "strip")[k]
            if src.bool():
                chars, a = WS, ""
            else:
                chars = self.sub(src, s, alpha) + src.pick(alpha)
                a = expr(src, chars)
            r = getattr(s, m)(chars)
            q.do("s.%s(%s)" % (m, a), r)
        elif op < 14:
            lim = src.weighted(((3, None), (1, -1), (1, 0), (1, 1), (1, 2), (1, 3)))
            if src.bool():
                a = "void" if lim is not None or src.bool() else ""
                r = split_ws(s, -1 if lim is None else lim)
            else:
                t = self.sub(src, s, alpha)
                if not t:
                    return
                a = expr(src, t)
                if lim == 0:
                    r = []
                else:
                    r = s.split(t) if lim is None or lim < 0 else s.split(t, lim - 1)
            q.do("[s.split(%s%s)...]" % (a, "" if lim is None else ", %s" % lit(lim)), r)
        elif op == 14:
            k = src.below(3)
            q.do("[s.split_lines(%s)...]" % ("", "false", "true")[k], split_lines(s, k == 2))
        elif op == 15:
            up = src.bool()
            q.do("s.%scase()" % ("upper" if up else "lower"), acase(s, up))
        elif op == 16:
            q.do("s.reverse()", s[::-1])
        elif op == 17:
            k = src.weighted(((6, src.int(0, 6)), (1, -1), (1, 70000), (1, 2.9)))
            if k == 70000:
                q.do("s.repeats(70000)", THROWS)
            else:
                q.do("s.repeats(%s)" % lit(k), THROWS if k < 0 else s * int(k))
        elif op == 18:
            t = s if src.below(3) == 0 else s[:src.below(n + 1)] + g_text(src, 3, alpha)
            c = src.pick(("<", "<=", ">", ">=", "==", "!="))
            q.do("s %s %s" % (c, expr(src, t)), eval("s %s t" % c))
        elif op == 19:
            t = g_text(src, 12)
            q.do("s + %s" % expr(src, t), s + t)
        elif op == 20:
            k = src.below(4)
            if k == 0:
                q.do("[s.iterator()...]", list(s))
            elif k == 1:
                q.do("[s...]", list(s))
            elif k == 2:
                q.do("array(s)", [ord(c) for c in s])
            else:
                q.do("(fun { const r = []; for const x in s { r.push(x) }; return r })()", list(s))
        elif op == 21:
            # equal strings are the same key, however they are stored
            t = s if src.bool() else self.sub(src, s, alpha)
            q.do("(fun { const o = {}; o[s] = 1; o[%s] = 2; return [o[s], %s in o, [shallow(o)...].size] })()" % (expr(src, t), expr(src, s)),
                 [2 if t == s else 1, True, 1 if t == s else 2])
        elif op == 22:
            q.do("s.size", n)
            q.do("s.ascii", s.isascii())
        elif op == 23:
            parts = [g_text(src, 5) for _ in range(src.int(0, 4))]
            q.do("join(s, [%s])" % ", ".join(expr(src, p) for p in parts), s.join(parts))
        elif op == 24:
            q.do("(fun { switch %s { case %s { return 1 } default { return 2 } } })()" % (expr(src, s), strlit(s)), 1)
        else:
            # interpolation
            v, shown = src.pick(((1, "1"), (True, "true"), (VOID, "void"), (-5, "-5"), ("x", "x")))
            t = g_text(src, 5)
            q.do('"%s\\(s)%s\\(%s)"' % (strlit(t)[1:-1], strlit(t)[1:-1], lit(v)), t + s + t + shown)
