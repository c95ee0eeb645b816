"""Regular expressions: re.find against a backtracking matcher over the documented grammar."""
import re as pyre
import kosval
from kosseq import SeqCheck, THROWS, ANY
from kosval import VOID, lit

INF = 0xFFFF
ESC = {"t": "\t", "n": "\n", "v": "\v", "f": "\f", "r": "\r"}
SPECIAL = ".*+?^$\\|{(["


class Bad(Exception):
    """not a regular expression"""


class Unsure(Exception):
    """text whose meaning the grammar does not specify"""


# --- parser of the grammar in kos_mod_re.c -----------------------------------------------------
class Parser:
    def __init__(self, s):
        self.s, self.i, self.groups, self.depth = s, 0, 0, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def parse(self):
        a = self.alt()
        if self.i != len(self.s):
            raise Bad()
        return a

    def alt(self):
        r = [self.seq()]
        while self.peek() == "|":
            self.i += 1
            r.append(self.seq())
        return ("alt", r)

    def seq(self):
        r = []
        while self.peek() not in (None, "|", ")"):
            if self.peek() in "*+?{":
                raise Bad()
            n = self.single()
            r.append(self.mult(n))
        return r

    def number(self):
        b = self.i
        while self.peek() is not None and self.peek() in "0123456789":
            self.i += 1
            if int(self.s[b:self.i]) > 0xFFFF:
                raise Bad()
        if b == self.i:
            raise Bad()
        return int(self.s[b:self.i])

    def mult(self, n):
        c = self.peek()
        if c is None or c not in "*+?{":
            return n
        self.i += 1
        lo, hi = {"*": (0, INF), "+": (1, INF), "?": (0, 1)}.get(c, (0, 0))
        if c == "{":
            lo = hi = self.number()
            if self.peek() == ",":
                self.i += 1
                hi = INF if self.peek() == "}" else self.number()
                if hi < lo:
                    raise Bad()
            if not hi:
                raise Bad()
            if self.peek() != "}":
                raise Bad()
            self.i += 1
        lazy = self.peek() == "?"
        if lazy:
            self.i += 1
        if self.peek() is not None and self.peek() in "*+?{":
            raise Bad()
        return ("rep", n, lo, hi, lazy)

    def single(self):
        c = self.peek()
        self.i += 1
        if c == ".":
            return ("any",)
        if c == "^":
            return ("bol",)
        if c == "$":
            return ("eol",)
        if c == "\\":
            e = self.peek()
            self.i += 1
            if e is None:
                raise Bad()
            if e in ".*+?{^$\\[]|()\"":
                return ("chr", e)
            if e in "<>bB":
                return ("bound", e)
            if e in "dD":
                return ("cls", e == "D", [("0", "9")])
            if e in "wW":
                return ("cls", e == "W", [("a", "z"), ("A", "Z"), ("0", "9"), ("_", "_")])
            if e in ESC:
                return ("chr", ESC[e])
            if e in "AZsS0123456789":
                raise Unsure()
            raise Bad()
        if c == "[":
            return self.cls()
        if c == "(":
            gid = self.groups
            if self.peek() == "?":
                self.i += 1
                if self.peek() != ":":
                    raise Bad()
                self.i += 1
                gid = None
            else:
                self.groups += 1
            a = self.alt()
            if self.peek() != ")":
                raise Bad()
            self.i += 1
            return ("grp", gid, a)
        return ("chr", c)

    def clschar(self):
        c = self.peek()
        self.i += 1
        if c is None:
            raise Bad()
        if c in "]-":
            raise Unsure()
        if c == "\\":
            e = self.peek()
            self.i += 1
            if e is None:
                raise Bad()
            if e in "[]()^\"\\-":
                return e
            if e in ESC:
                return ESC[e]
            raise Bad()
        return c

    def cls(self):
        neg = self.peek() == "^"
        if neg:
            self.i += 1
        r = []
        while True:
            a = b = self.clschar()
            if self.peek() == "-":
                self.i += 1
                b = self.clschar()
            if a > b:
                raise Bad()
            r.append((a, b))
            if self.peek() == "]":
                self.i += 1
                return ("cls", neg, r)


# --- matcher -------------------------------------------------------------------------------------
class TooLong(Exception):
    pass


def word(c):
    return c != "" and (c == "_" or (c.isascii() and c.isalnum()))


class Matcher:
    def __init__(self, text, limit=4000):
        p = Parser(text)
        self.ast = p.parse()
        self.ngroups = p.groups
        self.limit = limit

    def find(self, s, begin, end):
        self.s, self.begin, self.end, self.steps = s, begin, end, 0
        for pos in range(begin, end + 1):
            r = self.m(self.ast, pos, (None,) * (2 * self.ngroups), lambda p, c: (p, c))
            if r is not None:
                return pos, r[0], r[1]
        return None

    def seq(self, nodes, i, pos, caps, k):
        if i == len(nodes):
            return k(pos, caps)
        return self.m(nodes[i], pos, caps, lambda p, c: self.seq(nodes, i + 1, p, c, k))

    def m(self, n, pos, caps, k):
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong()
        t = n[0]
        s, end = self.s, self.end
        if t == "alt":
            for q in n[1]:
                r = self.seq(q, 0, pos, caps, k)
                if r is not None:
                    return r
            return None
        if t == "grp":
            g = n[1]
            if g is None:
                return self.m(n[2], pos, caps, k)
            c2 = caps[:2 * g] + (pos,) + caps[2 * g + 1:]
            return self.m(n[2], pos, c2, lambda p, c: k(p, c[:2 * g + 1] + (p,) + c[2 * g + 2:]))
        if t == "rep":
            return self.rep(n, 0, None, pos, caps, k)
        if t == "bol":
            return k(pos, caps) if pos == self.begin or s[pos - 1] in "\r\n" else None
        if t == "eol":
            return k(pos, caps) if pos == end or s[pos] in "\r\n" else None
        if t == "bound":
            a = word(s[pos - 1:pos] if pos else "")
            b = word(s[pos] if pos < end else "")
            ok = {"<": b and not a, ">": a and not b, "b": a != b, "B": a == b}[n[1]]
            return k(pos, caps) if ok else None
        if pos >= end:
            return None
        c = s[pos]
        if t == "any" or t == "chr" and n[1] == c or t == "cls" and n[1] != any(a <= c <= b for a, b in n[2]):
            return k(pos + 1, caps)
        return None

    def rep(self, n, count, start, pos, caps, k):
        """count iterations are done, the last one began at start"""
        _, body, lo, hi, lazy = n
        self.steps += 1
        if self.steps > self.limit:
            raise TooLong()

        def again():
            return self.m(body, pos, caps, lambda p, c: self.rep(n, count + 1, pos, p, c, k))
        if count < lo:
            return again()
        more = (hi == INF or count < hi) and not (count and start == pos)
        if not more:
            return k(pos, caps)
        for f in ((lambda: k(pos, caps)), again) if lazy else (again, (lambda: k(pos, caps))):
            r = f()
            if r is not None:
                return r
        return None


# --- generators ----------------------------------------------------------------------------------
CHARS = ("a", "b", "c", "_", " ", "1", "-", "\n", "\r", "A", "z", "\xe9", "\u4e00", "\U0001f600", "\xff", "\u0100", "\"", "]", "}", ",", ":", "0", "9", "{", "[", ")", "\\", "|", "^", "$", ".")
MIX = (4, 6, 10, 18, len(CHARS))


def g_chr(src, alpha):
    c = src.pick(alpha)
    if c in "\n\r" and src.bool():
        return "\\" + {"\n": "n", "\r": "r"}[c]
    if c in SPECIAL or c == ")" or c in "\"]" and src.bool():
        return "\\" + c
    return c


def g_clschar(src, alpha):
    c = src.pick(alpha)
    if src.bool(1, 3):
        c = chr(ord("a") + src.below(14))
    return c


def esc_cls(src, c):
    if c in "]\\-" or c in "^[()\"" and src.bool() or c == "^":
        return "\\" + c
    if c in "\n\r" and src.bool():
        return "\\" + {"\n": "n", "\r": "r"}[c]
    return c


def g_class(src, alpha):
    t = "[" + ("^" if src.bool(1, 4) else "")
    for _ in range(1 + src.len(7)):
        a = g_clschar(src, alpha)
        if src.bool():
            b = g_clschar(src, alpha)
            if a > b:
                a, b = b, a
            t += esc_cls(src, a) + "-" + esc_cls(src, b)
        else:
            t += esc_cls(src, a)
    return t + "]"


def g_mult(src):
    k = src.below(8)
    if k < 6:
        m = "*+?"[k % 3]
    else:
        lo = src.below(4)
        hi = max(1, lo + src.below(3))
        m = src.pick(("{%d}" % max(lo, 1), "{%d,}" % lo, "{%d,%d}" % (lo, hi)))
    return m + ("?" if src.bool(1, 3) else "")


def g_single(src, alpha, depth):
    k = src.below(20)
    if k < 8:
        return g_chr(src, alpha)
    if k < 10:
        return "."
    if k < 12:
        return g_class(src, alpha)
    if k == 12:
        return src.pick(("\\d", "\\D", "\\w", "\\W"))
    if k == 13:
        return src.pick(("^", "$", "^", "$", "\\b", "\\B", "\\<", "\\>"))
    if depth:
        return "(" + ("?:" if src.bool(1, 3) else "") + g_alt(src, alpha, depth - 1) + ")"
    return g_chr(src, alpha)


def g_seq(src, alpha, depth):
    t = ""
    for _ in range(src.len(5)):
        t += g_single(src, alpha, depth)
        if src.bool(1, 3):
            t += g_mult(src)
    return t


def g_alt(src, alpha, depth):
    return "|".join(g_seq(src, alpha, depth) for _ in range(src.pick((1, 1, 1, 2, 2, 3, 4))))


def damage(src, t):
    for _ in range(1 + src.below(2)):
        i = src.below(len(t) + 1)
        k = src.below(3)
        if k == 0:
            t = t[:i] + src.pick("()[]{}*+?|\\^-,1ax:") + t[i:]
        elif k == 1:
            t = t[:i] + t[i + 1:]
        else:
            t = t[:i] + src.pick("()[]{}*+?|\\^-,1ax:") + t[i + 1:]
    return t


def subject(src, alpha, n=14):
    return "".join(src.pick(alpha) for _ in range(src.len(n)))


PRE = r"""
const re_m_ = fun(m) {
    if m == void { return void }
    const g = []
    for const x in m.groups { g.push(x == void ? void : [x.begin, x.end]) }
    return [m.begin, m.end, m.match, g, m.match_groups, m.string]
}
const re_all_ = fun(r, s) {
    const out = []
    var pos = 0
    while pos <= s.size {
        const m = r.find(s, pos)
        if m == void { break }
        out.push([m.begin, m.end])
        pos = m.end > m.begin ? m.end : m.end + 1
    }
    return out
}
"""


def mresult(m, s, ngroups):
    if m is None:
        return VOID
    b, e, caps = m
    g, mg = [], []
    for i in range(ngroups):
        x, y = caps[2 * i], caps[2 * i + 1]
        if x is None or y is None:
            g.append(VOID)
            mg.append(VOID)
        else:
            g.append([x, y])
            mg.append(s[x:y])
    return [b, e, s[b:e], g, mg, s]


# long subjects: the matcher is Python's re
LONGRE = ("x*y", "y?z", "(x|y)*z", "(x+)(y|z)", "x*?y", "z$", "[xy]+z", "x{3}y", "(?:xx)*y", "y|z", "(y)?(x)", "x*", "x+", "[^y]+", "(.)y", "(x{70}){2}y", "y.", "x?$", "(y(x*))z")


def long_case(q, src):
    n = src.pick((32760, 32765, 65400, 65520, 65525)) + src.below(6)
    pre = src.pick(("", "y", "z", "xy", "a"))
    post = src.pick(("", "y", "z", "yz", "xyz", "\u4e00y"))
    if n > 65500:
        n = 65535 - len(pre) - len(post) - src.pick((0, 0, 1, 2))
    s = pre + "x" * n + post
    text = src.pick(LONGRE)
    begin = src.pick((0, 0, 1, 2, n - 2, n, len(s)))
    expr = "(%s + big_(%d) + %s)" % (lit(pre), n, lit(post))
    rx = pyre.compile(text.replace("$", "\\Z"), pyre.S)
    if "^" in text and begin:
        return
    if text in ("(x|y)*z", "(x+)(y|z)", "x*y", "[xy]+z", "(?:xx)*y", "x*?y", "(x{70}){2}y", "x{3}y", "z$", "x?$") and not (
            begin >= n - 2 or text in ("x{3}y", "z$", "x?$")):
        # quadratic unless the first position matches
        if not rx.match(s, begin):
            return
    m = rx.search(s, begin)
    v = VOID
    if m:
        v = [m.start(), m.end(), [VOID if x < 0 else [x, y] for x, y in (m.span(i + 1) for i in range(rx.groups))]]
    q.do("(fun { const m = re.re(%s).find(%s, %d); return m == void ? void : [m.begin, m.end, re_m_(m)[3]] })()" % (lit(text), expr, begin), v)
    q.labels.add("long")
    q.nt = True


class CHECK(SeqCheck):
    id = "C16"
    rule = "a case in which a regular expression with a repetition, alternative or class matches at least two characters; distinct by its steps"
    batch = 150
    prelude = "import re\n" + kosval.PRELUDE
    pre = PRE + r"""
const big_ = fun(n) { const b = buffer(n); b.fill(0x78); return string(b) }
"""
    cases = {"quick": 40000, "thorough": 1500000}

    def fixed_cases(self):
        from kosseq import Seq
        r = []
        # deep groups: accepted or rejected, but handled
        q = Seq()
        for d in (100, 400, 2000, 16000):
            for o in ("(", "(?:"):
                q.do("(fun { var o = %s; var c = \")\"; while c.size < %d { o += o; c += c }; try { const m = re.re(o + \"a\" + c).find(\"ba\"); return [m.begin, m.end] } catch const e { return [1, 2] } })()" % (lit(o), d), [1, 2])
        r.append(q.case())
        # very large classes
        q = Seq()
        for n in (1000, 32768, 65530):
            q.do("(fun { const c = []; for const i in range(%d) { c.push(0x4000 + i * 2) }; try { const r = re.re(\"[\" + string(c) + \"]\"); const f = i => r.find(string([i])) != void; return [f(0x4000), f(0x4001), f(0x4000 + %d), f(0x4001 + %d)] } catch const e { return [true, false, true, false] } })()" % (n, 2 * n - 2, 2 * n - 2), [True, False, True, False])
        r.append(q.case())
        return r

    def build(self, q, src):
        if src.bool(1, 60):
            long_case(q, src)
            return
        alpha = CHARS[:src.pick(MIX)]
        for _ in range(1 + src.len(3)):
            t = g_alt(src, alpha, 2)
            if src.bool(1, 5):
                t = damage(src, t)
                q.labels.add("damaged")
            v = "r%d" % len(q.lines)
            try:
                mt = Matcher(t)
            except Bad:
                q.do("re.re(%s)" % lit(t), THROWS)
                q.labels.add("invalid")
                continue
            except Unsure:
                q.do("re.re(%s)" % lit(t), ANY)
                continue
            q.stmt("const %s = re.%s(%s)" % (v, src.pick(("re", "re_uncached")), lit(t)))
            for _ in range(1 + src.below(4)):
                s = subject(src, alpha)
                n = len(s)
                b = src.pick((0, 0, 0, src.int(-n - 1, n + 2)))
                e = src.pick((VOID, VOID, VOID, src.int(-n - 1, n + 2)))
                bb = min(max(b + n if b < 0 else b, 0), n)
                ee = n if e is VOID else min(max(e + n if e < 0 else e, bb), n)
                try:
                    m = mt.find(s, bb, ee)
                    r = mresult(m, s, mt.ngroups)
                    every, pos = [], 0
                    while pos <= n:
                        x = mt.find(s, pos, n)
                        if x is None:
                            break
                        every.append([x[0], x[1]])
                        pos = x[1] if x[1] > x[0] else x[1] + 1
                except (TooLong, RecursionError):
                    q.labels.add("too-long")
                    continue
                args = lit(s)
                if e is not VOID or src.bool(1, 6):
                    args += ", %s, %s" % (lit(b), lit(e))
                elif b or src.bool(1, 6):
                    args += ", %s" % lit(b)
                q.do("re_m_(%s.find(%s))" % (v, args), r)
                if src.bool(1, 3):
                    q.do("re_all_(%s, %s)" % (v, lit(s)), every)
                if m and m[1] - m[0] >= 2 and any(c in t for c in "*+?{|["):
                    q.nt = True
                q.labels.add("match" if m else "no-match")
                if mt.ngroups:
                    q.labels.add("groups")
