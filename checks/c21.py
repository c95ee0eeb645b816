"""Tokens: kos.raw_lexer and kos.lexer against an independent tokenizer written from doc/grammar.md."""
from kosseq import SeqCheck
import kosval
from kosval import lit

WS = "\v\f \u00a0\u2028\u2029\ufeff"
LETTER = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
DIGIT = "0123456789"
HEX = "0123456789abcdefABCDEF"
SEP = {"(": "paren_open", ")": "paren_close", ",": "comma", ":": "colon", ";": "semicolon", "[": "square_open", "]": "square_close", "{": "curly_open", "}": "curly_close"}
OPS = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "mod", "&": "and", "|": "or", "^": "xor", "!": "lognot", "~": "not", "=": "set",
       "+=": "setadd", "-=": "setsub", "*=": "setmul", "/=": "setdiv", "%=": "setmod", "&=": "setand", "|=": "setor", "^=": "setxor",
       "<<=": "setshl", ">>=": "setshr", ">>>=": "setshru", "<": "lt", ">": "gt", "?": "logtri", ".": "dot", "...": "more", "<=": "le", ">=": "ge",
       "<<": "shl", ">>": "shr", ">>>": "shru", "!=": "ne", "==": "eq", "&&": "logand", "||": "logor", "->": "arrow", "=>": "lambda"}
KEYWORDS = """_ __line__ assert async break case catch class const constructor continue default defer delete do else extends fallthrough false for fun
get if import in instanceof loop match propertyof public repeat return set static super switch this throw true try typeof var void while with yield""".split()
KW = {k: {"_": "underscore", "__line__": "line"}.get(k, k) for k in KEYWORDS}
TYPES = "whitespace eol comment eof identifier keyword numeric string string_open operator separator".split()
INVALID = range(0xdc80, 0xdd00)         # bytes which are not UTF-8, as decoded by surrogateescape


class Lexer:
    """pos is the position of s[i]; every token is (text, line, column, type, keyword, op, sep) or an error"""

    def __init__(self, s, line=1, col=1):
        self.s, self.i, self.line, self.col = s, 0, line, col

    def adv(self, to):
        s = self.s
        while self.i < to:
            c = s[self.i]
            if c == "\n" or (c == "\r" and s[self.i + 1:self.i + 2] != "\n"):
                self.line, self.col = self.line + 1, 1
            elif c == "\r":
                # CR LF is one end of line
                self.line, self.col = self.line + 1, 1
                self.i += 1
            elif c == "\t":
                self.col = ((self.col + 8) & ~7) + 1
            else:
                self.col += 1
            self.i += 1

    def at(self, j):
        return self.s[j] if j < len(self.s) else ""

    def string(self, j):
        """j: after the opening quote -> (end, type or None when in error)"""
        s = self.s
        while j < len(s):
            c = s[j]
            if c == '"':
                return j + 1, "string"
            if ord(c) in INVALID:
                return j + 1, None
            if c in "\r\n":
                return j + (2 if s[j:j + 2] == "\r\n" else 1), None
            if c != "\\":
                j += 1
                continue
            j += 1
            e = self.at(j)
            if e == "":
                return j, None
            if e == "(":
                return j + 1, "string_open"
            if e == "\r" and self.at(j + 1) == "\n":
                j += 2
                continue
            j += 1
            if e != "x":
                continue
            h = self.at(j)
            if h == "":
                return j, None
            if h == "{":
                j += 1
                n = 0
                while self.at(j) and self.at(j) in HEX:
                    j, n = j + 1, n + 1
                if self.at(j) == "":
                    return j, None
                if self.at(j) != "}":
                    return self.over(j), None
                j += 1
                if not 0 < n <= 6:
                    return j, None
            else:
                if h not in HEX:
                    return self.over(j), None
                j += 1
                if self.at(j) == "":
                    return j, None
                if self.at(j) not in HEX:
                    return self.over(j), None
                j += 1
        return j, None

    def over(self, j):
        return j + (2 if self.s[j:j + 2] == "\r\n" else 1)

    def number(self):
        """-> (end, ok)"""
        s, j = self.s, self.i
        if s[j] == "0" and self.at(j + 1) in ("x", "X", "b", "B"):
            digs = HEX + "_" if s[j + 1] in "xX" else "01_"
            j += 2
            if self.at(j) == "":
                return j, False
            if s[j] not in digs:
                return self.over(j), False
            while self.at(j) and s[j] in digs:
                j += 1
            return j, True

        def run(j):
            while self.at(j) and s[j] in DIGIT + "_":
                j += 1
            return j
        j = j + 1 if s[j] == "0" else run(j)
        if self.at(j) == ".":
            j = run(j + 1)
        if self.at(j) and self.at(j) in "eEpP":
            j += 1
            if self.at(j) and self.at(j) in "+-":
                j += 1
            if not self.at(j) or s[j] not in DIGIT + "_":
                return j, False
            j = j + 1 if s[j] == "0" else run(j)
        return j, not (self.at(j) and self.at(j) in LETTER + DIGIT + "_")

    def next(self, cont=False):
        """-> (text, line, column, type, keyword, op, sep); type None for an error; None at the end"""
        s, i = self.s, self.i
        if i >= len(s):
            return None
        c = s[i]
        kw = op = sep = "none"
        line, col = self.line, self.col
        if cont:
            j, t = self.string(i + 1)
        elif c in WS:
            j = i
            while self.at(j) and s[j] in WS:
                j += 1
            t = "whitespace"
        elif c in "\r\n":
            j, t = self.over(i), "eol"
        elif c in "rR" and self.at(i + 1) == '"':
            j, t = i + 2, None
            while j < len(s):
                if ord(s[j]) in INVALID:
                    j += 1
                    break
                if s[j] == '"':
                    j, t = j + 1, "string"
                    break
                if s[j] == "\\":
                    j += 1
                    if j < len(s) and ord(s[j]) in INVALID:
                        j += 1
                        break
                    j = self.over(j) if j < len(s) else j
                else:
                    j += 1
        elif c in LETTER + "_":
            j = i
            while self.at(j) and s[j] in LETTER + DIGIT + "_":
                j += 1
            t = "identifier"
            if s[i:j] in KW:
                t, kw = "keyword", KW[s[i:j]]
        elif c == '"':
            j, t = self.string(i + 1)
        elif c in DIGIT:
            j, ok = self.number()
            t = "numeric" if ok else None
        elif c == "#" or s[i:i + 2] == "//":
            j, t = i, "comment"
            while j < len(s) and s[j] not in "\r\n" and ord(s[j]) not in INVALID:
                j += 1
        elif s[i:i + 2] == "/*":
            e = s.find("*/", i + 2)
            j, t = (len(s) if e < 0 else e + 2), "comment"
            for k in range(i + 2, j):
                if ord(s[k]) in INVALID:
                    j = k
                    break
        elif c in SEP:
            j, t, sep = i + 1, "separator", SEP[c]
        elif c in OPS:
            j = max(i + n for n in (1, 2, 3, 4) if s[i:i + n] in OPS)
            t, op = "operator", OPS[s[i:j]]
        else:
            j, t = i + 1, None
        j = min(j, len(s))
        text = s[i:j]
        if t and len(text.encode("utf-8", "surrogateescape")) > 0xffff:
            t = None
        if t is None:
            kw = op = sep = "none"
        self.adv(j)
        return text, line, col, t, kw, op, sep


NOUTF8 = ("\\x{200000}", "a \\x{ffffff}")


class End(Exception):
    pass


def spaced(text):
    try:
        text.encode("utf-8")
        return text
    except UnicodeEncodeError:
        # not valid UTF-8: the bytes of the token beyond ASCII are shown as spaces
        return "".join(chr(b) if b < 128 else " " for b in text.encode("utf-8", "surrogateescape"))


def show(t, ignore):
    text, line, col, ty, kw, op, sep = t
    if ty is None:
        ty = "whitespace"
    text = spaced(text)
    return [text[:9] + str(len(text)) if len(text) > 999 else text, line, col, ty, kw, op, sep]


FRAGS = ("a", "foo", "_", "__line__", "x1_", "r", "R", "rr", "0", "1", "10", "0x1F", "0X_a", "0b01_", "1_000", "1.5", "1.", "0.5e10", "1e5", "1p-3", "9E+07", "0e0", "1__", "2._5",
         "01", "0x", "0xg", "0b2", "1e", "1e+", "12ab", "0_", "1.5.2", "..", "0..1",
         "\"\"", "\"a\"", "\"a\\\"b\"", "\"\\x41\"", "\"\\x{41}\"", "\"\\x{10ffff}\"", "\"\\x{}\"", "\"\\x{1234567}\"", "\"\\x4\"", "\"\\xg\"", "\"a", "\"\\\n\"", "\"\\n\\t\\0\\q\"", "\"\u00e9\u20ac\U0001f600\"", "\"\t\"",
         "\"a\\(", "\"\\(", ")b\"", ")b\\(", "r\"a\\n\"", "R\"\\\"\"", "r\"\n\"", "r\"", "r\"\\",
         "# c", "// c", "/* c */", "/* a\n*b\r\n*/", "/*/", "/**/", "/***/", "/* ", "#", "//", "/",
         "\n", "\r", "\r\n", "\n\n", "\r\r\n", " ", "  ", "\v", "\f", "\u00a0", "\u2028", "\u2029", "\ufeff", "\t",
         "(", ")", "[", "]", "{", "}", ",", ";", ":", "$", "'", "@", "`", "\\", "\x00", "\x7f", "\x01", "\u00e9", "\u20ac", "\U0001f600", "\u0085", "\u3000")


def noise(src):
    out = []
    for _ in range(src.int(1, 14)):
        k = src.below(10)
        if k < 4:
            out.append(src.pick(FRAGS))
        elif k == 4:
            out.append("".join(src.pick("+-*/%&|^!~=<>?.") for _ in range(src.int(1, 6))))
        elif k == 5:
            out.append("".join(src.pick("<>=") for _ in range(src.int(1, 7))))
        elif k == 6:
            w = src.pick(KEYWORDS)
            out.append(src.pick((w, w, w, w[:-1] or "x", w + "s", w.upper(), w + "_", "_" + w)))
        elif k == 7:
            out.append("".join(src.pick("0123456789_.eExXbBpP+-") for _ in range(src.int(1, 8))))
        elif k == 8:
            out.append("\"" + "".join(src.pick(("a", "\\", "x", "{", "}", "4", "1", "F", "(", "\"", " ", "\n", "\u00e9")) for _ in range(src.int(0, 8))) + "\"")
        else:
            out.append(src.pick((" ", "\n", " ", ";")))
    t = "".join(out)
    if t and src.bool(1, 4):
        p = src.below(len(t))
        t = t[:p] + src.pick(("", t[p] * 2, "\"", "\\", "*/")) + t[p + 1:]
    return t


def source(src):
    """text whose brackets match most of the time"""
    out = []
    stack = []
    for _ in range(src.int(1, 16)):
        k = src.below(12)
        if k < 3:
            o = src.pick("([{")
            out.append(o)
            stack.append({"(": ")", "[": "]", "{": "}"}[o])
        elif k < 5:
            out.append("\"s\\(" if src.bool() else src.pick(("\"\\x{e9}\\(", "\"\u00e9\\(", "\"\\(")))
            stack.append(src.pick((")e\"", ")e\\(", ")\"")))
        elif k < 9 and stack:
            e = stack.pop()
            out.append(e)
            if e.endswith("("):
                stack.append(")x\"")
        else:
            out.append(src.pick(("a", " ", "\n", "1", "+", "\"lit\"", ",", "fun", "\r\n", "# (", "/* ) */", "r\"(\"", "\u00a0", "=>")))
        if src.bool(1, 4):
            out.append(src.pick((" ", "\n")))
    if src.bool(3, 4):
        for e in reversed(stack):
            out.append(e if not e.endswith("(") else ")z\"")
    if src.bool(1, 6):
        out.append(src.pick((")", "]", "}", "\"")))
    t = "".join(out)
    if src.bool(1, 8):
        p = src.below(len(t))
        t = t[:p] + src.pick(("", ")", "]", "\"")) + t[p + 1:]
    return t


def tables():
    """objects mapping the values of the module's constants to their names"""
    o = []
    for name, prefix, names in (("TT_", "token_", TYPES), ("KK_", "keyword_", ["none"] + sorted(KW.values())), ("OO_", "op_", ["none"] + sorted(OPS.values())), ("SS_", "sep_", ["none"] + sorted(SEP.values()))):
        o.append("const %s = {}\n" % name + "".join("%s[string(kos.%s%s)] = \"%s\"\n" % (name, prefix, n, n) for n in names))
    return "".join(o)


class CHECK(SeqCheck):
    id = "C21"
    rule = "a text of at least four tokens with an error, continuation, multi-line token or operator of several characters; distinct by text"
    batch = 200
    cases = {"quick": 24000, "thorough": 600000}
    prelude = "import kos\n" + kosval.PRELUDE
    pre = tables() + r"""
fun B_(a) {
    const b = buffer()
    for const s in a { b.pack("s", s) }
    return b
}
fun lx_(g, conts, span) {
    const out = []
    var i = 0
    try {
        loop {
            const t = (i < conts.size && conts[i]) ? g(kos.continue_string) : g()
            const s = t.token
            out.push([s.size > 999 ? s[:9] + string(s.size) : s, t.line, t.column, TT_[string(t.type)], KK_[string(t.keyword)], OO_[string(t.op)], SS_[string(t.sep)]])
            i += 1
        }
    }
    catch const e {
        const v = e.value
        if typeof v == "string" && v.starts_with("parse error ") {
            const a = v.find(":", 12)
            const l = integer(v[12:a])
            const c = integer(v[a + 1:v.find(":", a + 1)])
            const from = span && (l > span[0] || (l == span[0] && c >= span[1]))
            const to = span && (l < span[2] || (l == span[2] && c <= span[3]))
            out.push((from && to) ? "error" : v)
        }
        else {
            out.push((typeof v == "string" && v.starts_with("f:")) ? v : "end")
        }
    }
    return out
}
"""

    def build(self, q, src):
        mode = src.weighted(((4, "raw"), (4, "ignore"), (3, "lexer"), (3, "gen"), (2, "genignore"), (2, "bytes")))
        if mode == "lexer" and src.bool(5, 6):
            t = source(src)
        else:
            t = noise(src) if src.bool(3, 4) else source(src)
        if src.bool(1, 300):
            n = src.pick((65534, 65536, 65537, 70000)) - 2
            t = t + "\n" + src.pick(("\"" + "s" * n + "\"", "ii" + "i" * n, "/*" + "c" * (n - 2) + "*/", "# " + "c" * n, "  " + " " * n, "\"\u00e9" + "\u00e9" * ((n - 2) // 2) + "\"")) + "\n" + noise(src)
            if mode != "lexer":
                mode = "raw"
        ignore = mode in ("ignore", "genignore", "bytes")
        chunks = [t]
        if mode == "bytes":
            # bytes which are no UTF-8, between tokens or inside strings, never after a lead byte of a longer sequence
            s = t
            for _ in range(src.int(1, 3)):
                p = src.pick((0, src.int(0, len(s)), src.int(0, len(s))))
                s = s[:p] + "".join(chr(0xdc00 + src.pick((0x80, 0xbf, 0xa0) if p else (0x80, 0xff, 0xfe, 0xf8, 0xc0, 0xc1))) for _ in range(src.int(1, 2))) + s[p:]
            t = s
            chunks = [t]
        if mode in ("gen", "genignore"):
            chunks = []
            if src.bool():
                # by lines
                chunks = t.splitlines(True) if src.bool() else t.split("\n")
            else:
                while t:
                    n = src.int(0, 12)
                    chunks.append(t[:n])
                    t = t[n:]
            if src.bool(1, 6):
                chunks.insert(src.int(0, len(chunks)), "")
            if src.bool(1, 12):
                # a string which has no UTF-8 encoding
                chunks.insert(src.int(0, len(chunks)), src.pick(NOUTF8))
        # the model
        out, conts, span, multi, i = [], [], None, False, 0
        line = col = 1
        stack = []
        ended = None
        try:
            for n, s in enumerate(chunks):
                if s in NOUTF8:
                    raise End("end")
                if mode not in ("gen", "genignore") and s.startswith("\ufeff"):
                    s = s[1:]
                lx = Lexer(s, line, col)
                while True:
                    cont = False
                    save = (lx.i, lx.line, lx.col)
                    tok = lx.next()
                    if tok is None:
                        break
                    conts.append(False)
                    if tok[3] is None and not ignore:
                        span = [tok[1], tok[2], lx.line, lx.col]
                        raise End("error")
                    out.append(show(tok, ignore))
                    if "\n" in tok[0] or len(tok[0]) > 1 and tok[3] == "operator" or tok[3] is None:
                        multi = True
                    if mode == "lexer":
                        sep = tok[6]
                        if sep.endswith("_open"):
                            stack.append((sep[:-4] + "close", False))
                        elif sep.endswith("_close"):
                            if not stack:
                                out.pop()
                                raise End("f:%d:%d: unexpected '%s'" % (tok[1], tok[2], tok[0]))
                            want, cont = stack.pop()
                            if want != sep:
                                out.pop()
                                raise End("f:%d:%d: expected '%s'" % (tok[1], tok[2], {"paren_close": ")", "square_close": "]", "curly_close": "}"}[want]))
                        elif tok[3] == "string_open":
                            stack.append(("paren_close", True))
                    elif tok[6] == "paren_close" and src.bool(1, 3):
                        cont = True
                    if cont:
                        multi = True
                        if mode == "lexer":
                            out.pop()
                        else:
                            conts.append(True)
                        lx.i, lx.line, lx.col = save
                        tok = lx.next(True)
                        if tok[3] is None and not ignore:
                            span = [tok[1], tok[2], lx.line, lx.col]
                            raise End("error")
                        out.append(show(tok, ignore))
                        if mode == "lexer" and tok[3] == "string_open":
                            stack.append(("paren_close", True))
                line, col = lx.line, lx.col
            ended = "end"
        except End as e:
            ended = str(e)
        out.append(ended)
        if mode == "bytes":
            s = kosval.lit(kosval.Buf(t.encode("utf-8", "surrogateescape")))
        elif mode in ("gen", "genignore"):
            s = "[%s].iterator()" % ", ".join("\"%s\"" % c if c in NOUTF8 else lit(c) for c in chunks)
        else:
            if len(t) > 12000:
                s = "B_([%s])" % ", ".join(lit(t[i:i + 9000]) for i in range(0, len(t), 9000))
            else:
                s = lit(t) if src.bool() else "buffer(%s)" % lit(t)
        if mode == "lexer":
            g = "kos.lexer(\"f\", %s)" % s
        elif ignore:
            g = "kos.raw_lexer(%s, true)" % s
        else:
            g = "kos.raw_lexer(%s%s)" % (s, src.pick(("", ", false")))
        q.do("lx_(%s, %s, %s)" % (g, lit(conts) if any(conts) else "[]", lit(span) if span else "void"), out)
        q.labels.add(mode)
        q.labels.add({"end": "complete", "error": "lexing error"}.get(ended, "bracket error"))
        q.nt = len(out) > 4 and (multi or ended != "end")
