"""Printing and stringification: every value, through every route, against a reader of the printed text."""
import copy
import re
import engine
import kosops
import kosval
from c14 import printed
from kosval import VOID, lit, Buf

PRE = "import base\n" + kosval.PRELUDE + "\n"
NPRE = PRE.count("\n")


class Ref:
    """an array or an object, shared or recursive"""
    def __init__(self, kind):
        self.kind = kind
        self.items = [] if kind == "array" else {}


class Fun:
    def __init__(self, expr, name, line, cls=False):
        self.expr, self.name, self.line, self.cls = expr, name, line, cls


class Raw:
    """text printed literally"""
    def __init__(self, text):
        self.text = text


class Bad(Exception):
    pass


def decode(text, pos):
    """reads a string literal -> (string, new position)"""
    if text[pos:pos + 1] != '"':
        raise Bad("string expected at %r" % text[pos:pos + 20])
    pos += 1
    out = []
    while True:
        c = text[pos:pos + 1]
        if c == "":
            raise Bad("string not ended")
        pos += 1
        if c == '"':
            return "".join(out), pos
        if c != "\\":
            if ord(c) < 32:
                raise Bad("control character %r in a literal" % c)
            out.append(c)
            continue
        c = text[pos:pos + 1]
        pos += 1
        if c in ('"', "\\"):
            out.append(c)
        elif c in "nrt":
            out.append({"n": "\n", "r": "\r", "t": "\t"}[c])
        elif c == "x":
            m = re.compile(r"\{([0-9a-fA-F]{1,6})\}|([0-9a-fA-F]{2})").match(text, pos)
            if not m:
                raise Bad("escape %r" % text[pos:pos + 10])
            out.append(chr(int(m.group(1) or m.group(2), 16)))
            pos = m.end()
        else:
            raise Bad("escape \\%s" % c)


def scalar(v, text, pos):
    if isinstance(v, kosval.Void) or v is True or v is False:
        w = "void" if isinstance(v, kosval.Void) else "true" if v else "false"
        if not text.startswith(w, pos):
            raise Bad("%s expected at %r" % (w, text[pos:pos + 20]))
        return pos + len(w)
    if isinstance(v, int):
        w = str(v)
        if not text.startswith(w, pos):
            raise Bad("%s expected at %r" % (w, text[pos:pos + 30]))
        return pos + len(w)
    if isinstance(v, float):
        w = printed(v)
        if not text.startswith(w, pos):
            raise Bad("%s expected at %r" % (w, text[pos:pos + 40]))
        return pos + len(w)
    if isinstance(v, Buf):
        w = "<" + " ".join("%02x" % b for b in v.b) + ">"
        if not text.startswith(w, pos):
            raise Bad("%s expected at %r" % (w, text[pos:pos + 60]))
        return pos + len(w)
    if isinstance(v, Fun):
        w = "<%s %s @ %d>" % ("class" if v.cls else "function", v.name, v.line)
        if not text.startswith(w, pos):
            raise Bad("%s expected at %r" % (w, text[pos:pos + 60]))
        return pos + len(w)
    raise AssertionError(v)


def match(v, text, pos, raw, path=()):
    """v: the value inside a container or a container; raw: strings in arrays are quoted but not escaped"""
    if isinstance(v, str):
        if raw:
            w = '"' + v + '"'
            if text.startswith(w, pos):
                return pos + len(w)
        s, p = decode(text, pos)
        if s != v:
            raise Bad("%s expected at %r" % (lit(v), text[pos:pos + 60]))
        return p
    if not isinstance(v, Ref):
        return scalar(v, text, pos)
    if any(v is x for x in path):
        w = "[...]" if v.kind == "array" else "{...}"
        if not text.startswith(w, pos):
            raise Bad("%s expected at %r" % (w, text[pos:pos + 30]))
        return pos + len(w)
    path = path + (v,)
    op, cl = "[]" if v.kind == "array" else "{}"
    if text[pos:pos + 1] != op:
        raise Bad("%s expected at %r" % (op, text[pos:pos + 30]))
    pos += 1
    if v.kind == "array":
        for i, x in enumerate(v.items):
            if i:
                if text[pos:pos + 2] != ", ":
                    raise Bad("comma expected at %r" % text[pos:pos + 30])
                pos += 2
            pos = match(x, text, pos, raw, path)
    else:
        left = dict(v.items)
        n = 0
        while left:
            if n:
                if text[pos:pos + 2] != ", ":
                    raise Bad("comma expected at %r" % text[pos:pos + 30])
                pos += 2
            n += 1
            k, pos = decode(text, pos)
            if k not in left:
                raise Bad("property %s not expected" % lit(k))
            if text[pos:pos + 2] != ": ":
                raise Bad("colon expected at %r" % text[pos:pos + 30])
            pos = match(left.pop(k), text, pos + 2, False, path)
    if text[pos:pos + 1] != cl:
        raise Bad("%s expected at %r" % (cl, text[pos:pos + 30]))
    return pos + 1


CH = ("a", "b", " ", "\"", "\\", "\n", "\r", "\t", "\0", "\x01", "\x1f", "\x7f", "\x80", "\xe9", "\xff", "\u0100", "\u07ff", "\u0800", "\u20ac", "\uffff", "\U00010000", "\U0001f600", "\U000fffff", "\U00100000", "\U0010ffff", "~", "{", "}", "[", ",", "/", "'", "x", "0", "\u2028")


def g_str(src):
    if src.bool(1, 12):
        return src.pick(CH) * src.pick((50, 127, 128, 255, 256, 300, 1000))
    return "".join(src.pick(CH) for _ in range(src.len(10)))


class CHECK(engine.Check):
    id = "C30"
    rule = "a program printing at least one array or object with an element in it; distinct by text"
    flavours = ("dbg", "asan")
    batch = 40
    cases = {"quick": 16000, "thorough": 400000}

    def value(self, src, st, depth):
        k = src.below(12)
        if k < 3:
            return g_str(src)
        if k == 3:
            return kosops.g_int(src)
        if k == 4:
            return kosops.g_float(src)
        if k == 5:
            return src.pick((VOID, True, False))
        if k == 6:
            n = src.below(7) if src.bool(5, 6) else src.pick((100, 255, 256, 300))
            return Buf(bytes(src.below(256) for _ in range(min(n, 7))) + bytes(max(0, n - 7)))
        if k == 7 and st["funs"]:
            return src.pick(st["funs"])
        if k == 8 and st["refs"]:
            return src.pick(st["refs"])[1]
        if depth <= 0:
            return src.int(0, 9)
        return self.ref(src, st, depth)

    def ref(self, src, st, depth):
        r = Ref(src.pick(("array", "object")))
        n = src.below(4) if src.bool(9, 10) else src.int(4, 40)
        for _ in range(n):
            v = self.value(src, st, depth - 1)
            if r.kind == "array":
                r.items.append(v)
            else:
                r.items[g_str(src) if src.bool() else src.pick(("a", "b", "c", "prototype", ""))] = v
        return r

    def text(self, v, st):
        if isinstance(v, Ref):
            for n, r in st["refs"]:
                if r is v:
                    return n
            if v.kind == "array":
                return "[" + ", ".join(self.text(x, st) for x in v.items) + "]"
            return "{" + ", ".join(lit(k) + ": " + self.text(x, st) for k, x in v.items.items()) + "}"
        if isinstance(v, Fun):
            return v.expr
        return lit(v)

    def show(self, v):
        """the pieces which a value at the top of a print gives"""
        return [Raw(v)] if isinstance(v, str) else [v]

    def gen(self, src):
        st = {"funs": [], "refs": []}
        lines = []
        want = []                       # of (value or Raw, raw mode)
        n = src.int(1, 14)
        nontriv = False
        for i in range(n):
            k = src.below(10)
            line = NPRE + len(lines) + 1
            if k == 0 and len(st["funs"]) < 4:
                f = "f%d" % len(st["funs"])
                form, name, cls = src.pick((("fun %s { }", f, 0), ("const %s = fun(a) { }", f, 0), ("const %s = x => x", f, 0), ("class %s { }", f, 1), ("fun %s { yield 1 }", f, 0), ("const %s = [fun { }][0]", "fun", 0), ("const %s = [(a, b) => a][0]", "=>", 0),
                                            ("const %s = {meth: fun { }}.meth", "meth", 0), ("const %s = [class { }][0]", "class", 1), ("const %s = {\"p\": x => x}[\"p\"]", "p", 0)))
                lines.append(form % f)
                st["funs"].append(Fun(f, name, line, cls))
                continue
            if k < 3 and len(st["refs"]) < 5:
                nm = "v%d" % len(st["refs"])
                r = self.ref(src, st, 2)
                lines.append("const %s = %s" % (nm, self.text(r, st)))
                st["refs"].append((nm, r))
                continue
            if k == 3 and st["refs"]:
                nm, r = src.pick(st["refs"])
                v = src.pick(st["refs"])[1] if src.bool() else self.value(src, st, 1)
                if r.kind == "array":
                    lines.append("%s.push(%s)" % (nm, self.text(v, st)))
                    r.items.append(v)
                else:
                    key = src.pick(("a", "b", "self", "q\""))
                    lines.append("%s[%s] = %s" % (nm, lit(key), self.text(v, st)))
                    r.items[key] = v
                continue
            vs = [self.value(src, st, 2) for _ in range(src.weighted(((6, 1), (2, 2), (1, 3), (1, 0))))]
            if any(isinstance(v, Ref) and v.items for v in vs):
                nontriv = True
            ts = [self.text(v, st) for v in vs]
            route = src.below(9)
            out = []
            if route in (0, 1, 2, 3):
                lines.append("%s(%s)" % (("print", "base.print", "io.stdout.print", "print")[route], ", ".join(ts)))
                for j, v in enumerate(vs):
                    if j:
                        out.append((Raw(" "), False))
                    out += [(x, False) for x in self.show(v)]
                out.append((Raw("\n"), False))
            elif route == 4:
                lines.append("%s(stringify(%s))" % (src.pick(("print", "io.stdout.write")), ", ".join(ts)))
                out = [(x, True) for v in vs for x in self.show(v)]
                if lines[-1].startswith("print"):
                    out.append((Raw("\n"), False))
            elif route == 5:
                if any('"' in t and False for t in ts) or not vs:
                    continue
                if any(isinstance(v, (str, Ref, Buf)) and "\"" in t for v, t in zip(vs, ts)):
                    names = []
                    for t in ts:
                        nm = "t%d" % len(lines)
                        lines.append("const %s = %s" % (nm, t))
                        names.append(nm)
                    ts = names
                lines.append("print(\"<" + "".join("\\(%s)|" % t for t in ts) + "\")")
                out = [(Raw("<"), False)]
                for v in vs:
                    out += [(x, True) for x in self.show(v)] + [(Raw("|"), False)]
                out.append((Raw("\n"), False))
            elif route == 6:
                lines.append("%s([%s])" % (src.pick(("print_lines", "io.stdout.print_lines")), ", ".join(ts)))
                for v in vs:
                    out += [(x, False) for x in self.show(v)] + [(Raw("\n"), False)]
            elif route == 7:
                lines.append("print(stringify([%s]).size > 0, stringify({a: [%s]}))" % (", ".join(ts), ", ".join(ts)))
                r = Ref("array")
                r.items = vs
                o = Ref("object")
                o.items = {"a": r}
                out = [(Raw("true "), False), (o, False), (Raw("\n"), False)]
            else:
                if not vs or not isinstance(vs[0], (int, float, str)) or isinstance(vs[0], bool):
                    continue
                lines.append("print(string(%s) + \"\" == stringify(%s), string(%s))" % (ts[0], ts[0], ts[0]))
                out = [(Raw("true "), False)] + [(x, False) for x in self.show(vs[0])] + [(Raw("\n"), False)]
            want.append(copy.deepcopy(out))
        if not want:
            return None
        return {"text": PRE + "\n".join(lines) + "\n", "want": want, "nt": nontriv, "flav": src.weighted(((3, "dbg"), (2, "asan")))}

    def describe(self, c):
        return {"program": c["text"][len(PRE):], "flavour": c["flav"]}

    def evaluate(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        r = engine.run_script(self.exe[c["flav"]], c["text"], timeout=60)
        lab = [c["flav"]]
        if r.rc != 0 or r.err or r.timeout:
            return engine.Outcome(False, "%s: status %s %s" % (c["flav"], r.rc, r.err.decode("utf-8", "replace")[-400:]), c["nt"], lab)
        try:
            text = r.out.decode("utf-8")
            pos = 0
            for out in c["want"]:
                for v, raw in out:
                    if isinstance(v, Raw):
                        if not text.startswith(v.text, pos):
                            raise Bad("%r expected at %r" % (v.text[:80], text[pos:pos + 80]))
                        pos += len(v.text)
                    else:
                        pos = match(v, text, pos, raw)
            if pos != len(text):
                raise Bad("more text than expected: %r" % text[pos:pos + 80])
        except (Bad, UnicodeDecodeError) as e:
            return engine.Outcome(False, "%s: %s" % (c["flav"], e), c["nt"], lab)
        return engine.Outcome(True, "", c["nt"], lab)
