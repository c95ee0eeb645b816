"""JSON: dump and parse are inverse, and agree with the JSON grammar."""
import json
import re

from c14 import printed
from kosops import g_int
from kosseq import SeqCheck, THROWS, ANY
from kosval import I64MIN, I64MAX, PRELUDE, VOID, canon, lit, strlit

ESC = {'"': '"', "\\": "\\", "/": "/", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
WS = " \t\r\n\f\v\xa0\u2028\u2029\ufeff"


class Bad(Exception):
    pass


def tokens(t):
    """Tokens of the accepted language: JSON, with comments, where numbers may end with a bare point."""
    i = 0
    n = len(t)
    out = []
    while i < n:
        c = t[i]
        if c in WS:
            i += 1
        elif c in "{}[],:":
            out.append((c, None))
            i += 1
        elif c == '"':
            i += 1
            o = []
            while True:
                if i >= n or t[i] in "\r\n":
                    raise Bad
                c = t[i]
                i += 1
                if c == '"':
                    break
                if c != "\\":
                    o.append(c)
                    continue
                c = t[i:i + 1]
                i += 1
                if c and c in ESC:
                    o.append(ESC[c])
                elif c == "u" and re.fullmatch("[0-9a-fA-F]{4}", t[i:i + 4]):
                    v = int(t[i:i + 4], 16)
                    i += 4
                    if v >> 10 == 0x36 and t[i:i + 2] == "\\u" and re.fullmatch("[dD][c-fC-F][0-9a-fA-F]{2}", t[i + 2:i + 6]):
                        v = 0x10000 + ((v & 0x3FF) << 10) + (int(t[i + 2:i + 6], 16) & 0x3FF)
                        i += 6
                    o.append(chr(v))
                else:
                    raise Bad
            out.append(("v", "".join(o)))
        else:
            m = re.compile(r"-?(0|[1-9][0-9]*)(\.[0-9]*)?([eE][-+]?(0|[1-9][0-9]*))?").match(t, i)
            if m:
                s = m.group()
                i = m.end()
                if i < n and (t[i].isalnum() or t[i] in "._"):
                    raise Bad
                out.append(("v", float(s) if m.group(2) or m.group(3) else int(s)))
                continue
            m = re.compile(r"true|false|null").match(t, i)
            if not m or re.match(r"\w", t[m.end():m.end() + 1]):
                raise Bad
            i = m.end()
            out.append(("v", {"true": True, "false": False, "null": VOID}[m.group()]))
    out.append(("end", None))
    return out


def parse(t):
    tk = tokens(t)
    pos = [0]

    def nxt():
        pos[0] += 1
        return tk[pos[0] - 1]

    def value():
        k, v = nxt()
        if k == "v":
            return v
        if k == "[":
            r = []
            while True:
                k, _ = tk[pos[0]]
                if k == ",":
                    nxt()
                    continue
                if k == "]":
                    nxt()
                    return r
                r.append(value())
                k, _ = nxt()
                if k == "]":
                    return r
                if k != ",":
                    raise Bad
        if k == "{":
            r = {}
            while True:
                k, v = nxt()
                if k == ",":
                    continue
                if k == "}":
                    return r
                if k != "v" or not isinstance(v, str):
                    raise Bad
                if nxt()[0] != ":":
                    raise Bad
                r[v] = value()
                k, _ = nxt()
                if k == "}":
                    return r
                if k != ",":
                    raise Bad
        raise Bad

    r = value()
    if nxt()[0] != "end":
        raise Bad
    return r


CH = ('"', "\\", "\n", "\r", "\t", "\b", "\f", "\0", "\x1f", "\x7f", "/", "a", "u", "n", " ", "'", "(", ")", "\xe9", "\u2028", "\uffff", "\U0001f600", "\U0010ffff", "{", "}", ",", "0", "$", "#")
KEYS = ("", "a", "b", "map", "iterator", "value", "token", "filter", "prototype", "size", "toString", "constructor", "x y", "line", "type")


def g_str(src, cap=8):
    k = src.below(4)
    if k == 0:
        return src.pick(KEYS)
    return "".join(src.pick(CH) for _ in range(src.len(cap)))


def g_flt(src):
    return src.int(-10 ** 9, 10 ** 9) / (1 << src.int(0, 10))


def g_val(src, depth=0):
    k = src.below(12 if depth < 3 else 8)
    if k == 0:
        return VOID
    if k == 1:
        return src.bool()
    if k < 4:
        return g_int(src) if src.below(5) else src.pick((I64MIN, I64MAX, 0, -1))
    if k == 4:
        return g_flt(src)
    if k < 8:
        return g_str(src)
    if k < 10:
        return [g_val(src, depth + 1) for _ in range(src.len(4))]
    return {g_str(src, 4): g_val(src, depth + 1) for _ in range(src.len(3))}


def dump(v):
    if v == VOID and not isinstance(v, (int, float, str)):
        return "null"
    if v is True or v is False:
        return str(v).lower()
    if isinstance(v, int):
        return str(v)
    if isinstance(v, float):
        return printed(v)
    if isinstance(v, str):
        return json.dumps(v, ensure_ascii=False)
    if isinstance(v, list):
        return "[" + ",".join(dump(x) for x in v) + "]"
    return "{" + ",".join(dump(k) + ":" + dump(x) for k, x in v.items()) + "}"


def small(v):
    """No object with two or more keys: their order is not specified"""
    if isinstance(v, list):
        return all(small(x) for x in v)
    if isinstance(v, dict):
        return len(v) < 2 and all(small(x) for x in v.values())
    return True


def render(src, v, parts):
    """JSON text of v in a random style, as a list of tokens and whitespace."""
    def ws():
        if src.below(3) == 0:
            parts.append("".join(src.pick(" \t\n\r") for _ in range(src.int(1, 3))))
    ws()
    if isinstance(v, str):
        o = ['"']
        for c in v:
            n = ord(c)
            if src.below(4) == 0 or n < 32 or c in '"\\':
                if c in "\"\\/\b\f\n\r\t" and src.bool():
                    o.append("\\" + {"\b": "b", "\f": "f", "\n": "n", "\r": "r", "\t": "t"}.get(c, c))
                else:
                    for u in ([n] if n < 0x10000 else [0xD800 + ((n - 0x10000) >> 10), 0xDC00 + (n & 0x3FF)]):
                        h = "%04x" % u
                        o.append("\\u" + (h.upper() if src.bool() else h))
            else:
                o.append(c)
        o.append('"')
        parts.append("".join(o))
    elif isinstance(v, list):
        parts.append("[")
        for i, x in enumerate(v):
            if i:
                parts.append(",")
            render(src, x, parts)
        ws()
        parts.append("]")
    elif isinstance(v, dict):
        parts.append("{")
        for i, (k, x) in enumerate(v.items()):
            if i:
                parts.append(",")
            render(src, k, parts)
            ws()
            parts.append(":")
            render(src, x, parts)
        ws()
        parts.append("}")
    elif isinstance(v, float):
        k = src.below(3)
        s = repr(v)
        if "e" not in s and k:
            m, _, f = s.partition(".")
            e = src.int(0, 3)
            if k == 1:
                # move the point to the right: 1.25 -> 125e-2
                f = f.ljust(e, "0")
                sg = "-" if m.startswith("-") else ""
                ip = (m.lstrip("-") + f[:e]).lstrip("0") or "0"
                s = sg + ip + ("." + f[e:] if f[e:] else "") + src.pick("eE") + "-%d" % e
            else:
                s = s + src.pick(("e0", "E+0", "e-0", "0"))
        parts.append(s)
    else:
        parts.append(dump(v))
    ws()


class CHECK(SeqCheck):
    id = "C15"
    rule = ("a value with at least 2 nodes or a string with escapes, or a damaged text of at least 4 characters; distinct by the steps")
    cases = {"quick": 120000, "thorough": 1500000}
    prelude = "import json\n" + PRELUDE
    pre = "fun chunks_(a) { for const s in a { yield s } }\n"

    def build(self, q, src):
        v = g_val(src)
        q.nt = len(repr(v)) > 6
        k = src.below(10)
        if k == 0:
            q.do("json.parse(json.dump(%s))" % lit(v), v)
            if small(v):
                q.do("json.dump(%s)" % lit(v), dump(v))
        elif k == 1:
            if isinstance(v, list):
                q.do("[json.parse_array(json.dump(%s))...]" % lit(v), v)
                q.do("json.parse(json.dump((fun { for const x in %s { yield x } })()))" % lit(v), v)
            else:
                q.do("[json.parse_array(json.dump(%s))...]" % lit(v), THROWS)
            f = src.pick(("buffer()", "()=>1", "json.dump", "math", "fun { yield 1 }", "buffer"))
            q.do("json.dump(%s)" % src.pick(("%s", "[%s]", "{a: %s}", "[1, [%s]]")) % f, THROWS)
        elif k < 6:
            parts = []
            render(src, v, parts)
            t = "".join(parts)
            m = src.below(4)
            if m == 0:
                q.do("json.parse(buffer(%s))" % strlit(t), v)
            elif m == 1:
                # text in pieces cut between tokens
                chunks = []
                for p in parts:
                    if chunks and src.bool():
                        chunks[-1] += p
                    else:
                        chunks.append(p)
                if src.bool():
                    chunks.insert(src.below(len(chunks) + 1), "")
                # two tokens which would join must not be cut from each other by the model only
                q.do("json.parse(chunks_(%s))" % lit(chunks), v)
            else:
                q.do("json.parse(%s)" % strlit(t), v)
                if m == 2 and isinstance(v, list):
                    q.do("[json.parse_array(%s)...]" % strlit(t), v)
            assert canon(parse(t)) == canon(v), (t, v)
        else:
            if k < 9:
                parts = []
                render(src, v, parts)
            else:
                parts = [src.pick(("{", "}", "[", "]", ",", ":", "1", "-", '"a"', "null", "true", "x", " ", "1.5", '"'))
                         for _ in range(src.int(0, 7))]
            for _ in range(src.int(1, 2)):
                i = src.below(len(parts) + 1)
                m = src.below(4)
                if m == 0 and i < len(parts):
                    del parts[i]
                elif m == 1:
                    parts.insert(i, src.pick(("{", "}", "[", "]", ",", ":", "1", "-1", '"a"', "null", "true", "x", '"', "\\", "$", "@", "\x01", "'a'", "(", ")", "+", "nul", "-", "r\"a\"",
                                              '"\\x41"', '"\\u12"', '"\\u12g4"', '"\\q"', '"\\', "void", '"\n"', "01", "1e", "NaN", "Infinity", "\xe9", ";", "`", ".5", "1.5.5", "1..5", "1e5e5")))
                elif m == 2 and i < len(parts):
                    t = parts[i]
                    j = src.below(len(t))
                    parts[i] = t[:j] + src.pick(("", '"', "\\", "u", "x", "$", "\x7f", "!")) + t[j + 1:]
                else:
                    j = src.below(len(parts) + 1)
                    i, j = min(i, j), max(i, j)
                    parts[i:j] = []
            t = "".join(parts)
            if re.search(r"0[xXbB]|[eE][-+]?\d{3}|//|/\*|#|_", t):
                return False
            try:
                w = parse(t)
                if not self.fits(w):
                    return False
            except Bad:
                w = THROWS
            q.nt = len(t) >= 4
            q.labels.add("damaged, rejected" if w is THROWS else "damaged, valid")
            q.do("json.parse(%s)" % strlit(t), w)
            q.do("[json.parse_array(%s)...]" % strlit(t), w if isinstance(w, list) else THROWS)

    def fits(self, v):
        """Values every reader agrees on: integers of 64 bits, floats with few digits"""
        if isinstance(v, list):
            return all(self.fits(x) for x in v)
        if isinstance(v, dict):
            return all(self.fits(x) for x in v.values())
        if isinstance(v, float):
            return v == 0 or (1e-9 < abs(v) < 1e12 and v * 1024 == int(v * 1024))
        if isinstance(v, int):
            return I64MIN <= v <= I64MAX
        return True
