"""Buffers: byte sequences, pack/unpack and UTF-8 conversion."""
import math
import struct

import kosops
import kosval
from kosseq import SeqCheck, THROWS, ANY, OneOf
from kosval import VOID, Buf, lit, canon
from c10 import g_index, g_range, fix, ii

CPS = (0, 1, 0x41, 0x5c, 0x22, 0x7e, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xd800, 0xdfff, 0xe000,
       0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x110000, 0x1fffff)


def enc(cps):
    o = bytearray()
    for c in cps:
        if c < 0x80:
            o.append(c)
        elif c < 0x800:
            o += bytes((0xc0 | c >> 6, 0x80 | c & 63))
        elif c < 0x10000:
            o += bytes((0xe0 | c >> 12, 0x80 | c >> 6 & 63, 0x80 | c & 63))
        else:
            o += bytes((0xf0 | c >> 18, 0x80 | c >> 12 & 63, 0x80 | c >> 6 & 63, 0x80 | c & 63))
    return bytes(o)


def dec(b):
    """-> list of code points, None when malformed, ANY for an overlong form"""
    out = []
    i = 0
    over = False
    while i < len(b):
        c = b[i]
        i += 1
        if c < 0x80:
            out.append(c)
            continue
        if c < 0xc2 or c > 0xf7:
            return None
        n = 1 if c < 0xe0 else 2 if c < 0xf0 else 3
        v = c & (0x3f >> n)
        if i + n > len(b):
            return None
        for _ in range(n):
            if b[i] & 0xc0 != 0x80:
                return None
            v = v << 6 | b[i] & 63
            i += 1
        if v < (0, 0x80, 0x800, 0x10000)[n]:
            over = True
        out.append(v)
    return ANY if over else out


def g_byte(src):
    return src.pick((0, 1, 2, 3, 127, 128, 200, 254, 255)) if src.bool() else src.below(256)


def g_bytes(src, cap=20):
    return [g_byte(src) for _ in range(src.len(cap))]


def g_bad_byte(src):
    return src.pick((-1, 256, 1 << 32, -(1 << 63), (1 << 32) + 5, 256.0, -0.5, 1e30, True, VOID))


def g_cps(src, cap=12):
    k = src.below(5)
    if k == 0:
        hi = 0x7f
    elif k == 1:
        hi = 0xff
    elif k == 2:
        hi = 0xffff
    else:
        hi = 0x1fffff
    out = []
    for _ in range(src.len(cap)):
        c = src.pick(CPS) if src.bool() else src.below(hi + 1)
        out.append(min(c, hi))
    return out


def g_utf8ish(src):
    """Bytes near valid UTF-8."""
    b = bytearray(enc(g_cps(src, 8)))
    for _ in range(src.weighted(((4, 0), (4, 1), (2, 2)))):
        k = src.below(4)
        p = src.below(len(b) + 1)
        x = src.pick((0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xef, 0xf0, 0xf4, 0xf5, 0xf7, 0xf8, 0xfc, 0xff, 0x41))
        if k == 0:
            b.insert(p, x)
        elif k == 1 and b:
            b[p % len(b)] = x
        elif k == 2:
            del b[p:]
        elif p < len(b):
            del b[p]
    return bytes(b)


def strx(cps):
    """Kos expression for a string with these code points, built without the UTF-8 decoder."""
    return "string(%s)" % lit(list(cps))


def byte_of(v):
    """byte value accepted by buffer functions or None"""
    if v is True or v is False or isinstance(v, kosval.Void):
        return None
    if isinstance(v, float):
        v = math.floor(v)
    return v if 0 <= v <= 255 else None


class CHECK(SeqCheck):
    id = "C13"
    rule = ("a history of at least 3 buffer operations which changes the buffer at least twice, a pack/unpack format with at "
            "least 3 items, or a conversion of at least 2 multi-byte sequences; distinct by the steps")
    flavours = ("dbg", "asan")
    cases = {"quick": 100000, "thorough": 1000000}

    def build(self, q, src):
        k = src.below(10)
        if k < 5:
            return self.history(q, src)
        if k < 8:
            return self.packing(q, src)
        return self.utf8(q, src)

    # ------------------------------------------------------------------
    def source(self, src, bufs):
        """-> (Kos expression of an iterable, bytes)"""
        k = src.below(7)
        if k == 0:
            v = g_bytes(src, 10)
            return lit(v), v
        if k == 1:
            v = g_bytes(src, 10)
            return lit(Buf(v)), v
        if k == 2:
            n = src.below(9)
            return "range(%d)" % n, list(range(n))
        if k == 3:
            c = g_cps(src, 5)
            return strx(c), list(enc(c))
        if k == 4:
            w = src.below(len(bufs))
            return "b%d" % w, list(bufs[w])
        if k == 5:
            w = src.below(len(bufs))
            return "b%d.iterator()" % w, list(bufs[w])
        v = [x + src.pick((0.0, 0.25, 0.99)) for x in g_bytes(src, 6)]
        return lit(v), [math.floor(x) for x in v]

    def history(self, q, src):
        nb = src.int(1, 2)
        bufs = []
        for i in range(nb):
            k = src.below(5)
            if k < 2:
                v = g_bytes(src)
                q.stmt("const b%d = buffer(%s)" % (i, lit(v)))
            elif k == 2:
                n, x = src.len(20), g_byte(src)
                v = [x] * n
                q.stmt("const b%d = buffer(%d, %d)" % (i, n, x))
            elif k == 3:
                v = [0] * src.len(20)
                q.stmt("const b%d = buffer(%d)" % (i, len(v)))
            else:
                v = []
                parts = []
                for _ in range(src.int(1, 4)):
                    e, d = self.source(src, bufs) if bufs else (lit([7]), [7])
                    parts.append(e)
                    v += d
                q.stmt("const b%d = buffer(%s)" % (i, ", ".join(parts)))
            bufs.append(v)
            q.do("b%d.slice(void, void)" % i, Buf(v))
        changes = 0
        for _ in range(src.int(2, 12)):
            w = src.below(nb)
            b = bufs[w]
            B = "b%d" % w
            n = len(b)
            op = src.below(20)
            if op < 2:
                i = g_index(src, n)
                j = ii(i)
                ok = -n <= j < n
                if src.below(3) == 0 and not isinstance(i, float):
                    q.do("%s.get(%s, \"d\")" % (B, lit(i)), b[j] if ok else "d")
                else:
                    q.do("%s[%s]" % (B, lit(i)), b[j] if ok else THROWS)
            elif op < 4:
                i = g_index(src, n)
                j = ii(i)
                v = g_byte(src) if src.below(6) else g_bad_byte(src)
                bv = byte_of(v)
                ok = -n <= j < n and bv is not None
                q.do("(fun { %s[%s] = %s })()" % (B, lit(i), lit(v)), VOID if ok else THROWS)
                if ok:
                    b[j] = bv
                    changes += 1
            elif op < 6:
                s, e = g_range(src, n), g_range(src, n)
                si, ei = fix(s, n, 0), fix(e, n, n)
                if src.bool():
                    t = "%s.slice(%s, %s)" % (B, lit(s), lit(e))
                else:
                    t = "%s[%s:%s]" % (B, "" if s is VOID else lit(s), "" if e is VOID else lit(e))
                q.do(t, Buf(b[si:max(si, ei)]))
            elif op < 10:
                e, d = self.source(src, bufs)
                if e.endswith(".iterator()") and e.startswith(B):
                    continue
                if src.bool():
                    p = VOID if src.below(6) == 0 else src.int(-n - 2, n + 3)
                    pi = fix(p, n, n)
                    b[pi:pi] = d
                    q.do("%s.insert(%s, %s) == %s" % (B, lit(p), e, B), True)
                else:
                    s, t = src.int(-n - 2, n + 3), src.int(-n - 2, n + 3)
                    si, ti = fix(s, n, 0), fix(t, n, n)
                    b[si:max(si, ti)] = d
                    q.do("%s.insert(%s, %s, %s) == %s" % (B, lit(s), lit(t), e, B), True)
                changes += 1
            elif op < 12:
                v = g_byte(src) if src.below(5) else g_bad_byte(src)
                bv = byte_of(v)
                s, e = g_range(src, n), g_range(src, n)
                si, ei = fix(s, n, 0), fix(e, n, n)
                kk = src.below(3)
                if kk == 0:
                    si, ei, args = 0, n, lit(v)
                elif kk == 1:
                    ei, args = n, "%s, %s" % (lit(v), lit(s))
                else:
                    args = "%s, %s, %s" % (lit(v), lit(s), lit(e))
                q.do("%s.fill(%s) == %s" % (B, args, B), True if bv is not None else THROWS)
                if bv is not None:
                    for x in range(si, ei):
                        b[x] = bv
                    changes += 1
            elif op < 15:
                w2 = src.below(nb)
                o = bufs[w2]
                m = len(o)
                p = VOID if src.below(6) == 0 else g_index(src, n)
                s, e = g_range(src, m), g_range(src, m)
                pi, si, ei = fix(p, n, 0), fix(s, m, 0), fix(e, m, m)
                kk = src.below(3)
                args = [lit(p), "b%d" % w2]
                if kk == 0:
                    si, ei = 0, m
                elif kk == 1:
                    ei = m
                    args.append(lit(s))
                else:
                    args += [lit(s), lit(e)]
                d = o[si:max(si, ei)][:n - pi]
                b[pi:pi + len(d)] = d
                q.do("%s.copy_buffer(%s) == %s" % (B, ", ".join(args), B), True)
                changes += 1
            elif op == 15:
                n2 = src.len(80)
                v = g_byte(src)
                if src.below(3) == 0:
                    q.do("%s.resize(%d) == %s" % (B, n2, B), True)
                    v = 0
                else:
                    q.do("%s.resize(%d, %s) == %s" % (B, n2, v, B), True)
                if n2 < n:
                    del b[n2:]
                else:
                    b.extend([v] * (n2 - n))
                changes += 1
            elif op == 16:
                q.do("%s.reserve(%d).size" % (B, src.len(300)), n)
            elif op == 17:
                how = src.below(5)
                if how == 0:
                    q.do("[%s.iterator()...]" % B, list(b))
                elif how == 1:
                    q.do("[%s...]" % B, list(b))
                elif how == 2:
                    q.do("array(%s)" % B, list(b))
                elif how == 3:
                    q.do("(fun { const r = []; for const x in %s { r.push(x) }; return r })()" % B, list(b))
                else:
                    q.do("\"\\(%s)\"" % B, "<" + " ".join("%02x" % x for x in b) + ">")
            elif op == 18:
                o = g_bytes(src, 6) if src.bool() else list(b)
                if src.bool() and o:
                    o[-1] = g_byte(src)
                c = src.pick(("<", "<=", ">", ">=", "==", "!="))
                x, y = bytes(b), bytes(o)
                q.do("%s %s %s" % (B, c, lit(Buf(o))), eval("x %s y" % c))
            else:
                if src.bool():
                    vs = [g_byte(src) for _ in range(src.int(0, 4))]
                    q.do("%s.pack(%s) == %s" % (B, ", ".join(['"%du1"' % len(vs)] + [str(x) for x in vs]), B), True)
                    b += vs
                else:
                    q.do("%s.pack(\"b%d\", %s) == %s" % (B, n + 2, B, B), True)
                    b += b + [0, 0]
                changes += 1
            if src.below(3) == 0:
                q.do("%s.slice(0, void)" % B, Buf(b))
        for i, b in enumerate(bufs):
            q.do("b%d.slice(0, void)" % i, Buf(b))
            q.do("b%d.size" % i, len(b))
        q.nt = changes >= 2 and len(q.exp) >= 3
        q.labels.add("history")

    # ------------------------------------------------------------------
    def packing(self, q, src):
        big = False
        fmt = []
        args = []
        vals = []
        out = bytearray()
        items = src.int(1, 7)
        fail = None
        for it in range(items):
            k = src.below(12)
            if k == 0:
                big = src.bool()
                fmt.append(">" if big else "<")
                continue
            cnt = 1
            pre = ""
            if src.below(3) == 0:
                cnt = src.pick((0, 1, 2, 3, 5))
                pre = str(cnt) + src.pick(("", " ", "  "))
            end = ">" if big else "<"
            if k < 6:
                c = src.pick("ui")
                sz = src.pick((1, 2, 4, 8))
                fmt.append("%s%s%d" % (pre, c, sz))
                for _ in range(cnt):
                    v = kosops.g_int(src) if src.below(4) else float(src.int(-300, 300)) + src.pick((0.0, 0.5, -0.25))
                    args.append(lit(v))
                    x = math.floor(v) & ((1 << 8 * sz) - 1)
                    out += x.to_bytes(sz, "big" if big else "little")
                    if c == "i":
                        vals.append(x - (1 << 8 * sz) if x >> (8 * sz - 1) else x)
                    else:
                        vals.append(kosval.wrap(x))
            elif k < 8:
                sz = src.pick((4, 8))
                fmt.append("%sf%d" % (pre, sz))
                for _ in range(cnt):
                    v = kosops.g_float(src) if src.below(4) else kosops.g_int(src)
                    if isinstance(v, float) and v != v:
                        v = 1.5
                    args.append(lit(v))
                    f = float(v)
                    if sz == 4:
                        try:
                            d = struct.pack(end + "f", f)
                        except OverflowError:
                            d = struct.pack(end + "f", math.copysign(math.inf, f))
                        vals.append(struct.unpack(end + "f", d)[0])
                    else:
                        d = struct.pack(end + "d", f)
                        vals.append(f)
                    out += d
            elif k == 8:
                fmt.append(pre + "x")
                out += b"\0" * cnt
            elif k == 9:
                sz = src.pick((0, 1, 2, 3, 4, 7, 16))
                fmt.append("%sb%d" % (pre, sz))
                for _ in range(cnt):
                    v = bytes(g_bytes(src, 8))
                    args.append(lit(Buf(v)))
                    d = (v + b"\0" * sz)[:sz]
                    out += d
                    vals.append(Buf(d))
            elif k == 10:
                sz = src.pick((0, 1, 2, 3, 4, 7, 16))
                fmt.append("%ss%d" % (pre, sz))
                for _ in range(cnt):
                    s = g_cps(src, 5)
                    args.append(strx(s))
                    d = (enc(s) + b"\0" * sz)[:sz]
                    out += d
                    u = dec(d)
                    if u is None:
                        fail = True
                    vals.append(u)
            elif it == items - 1:
                s = g_cps(src, 5)
                fmt.append("s")
                args.append(strx(s))
                out += enc(s)
                vals.append(s)
        text = ""
        for i, f in enumerate(fmt):
            if i and (f[0].isdigit() and text[-1].isdigit() or src.below(3) == 0):
                text += " " * src.int(1, 2)
            text += f
        if src.below(6) == 0:
            text = " " + text + " "
        lead = g_bytes(src, 5)
        tail = [] if "s" in [f[-1] for f in fmt] else g_bytes(src, 3)
        shown = []
        # strings are compared as arrays of code points
        for v in vals:
            shown.append(["s"] + v if isinstance(v, list) else v)
        q.stmt("const f = %s" % lit(text))
        q.stmt("const b = buffer(%s)" % lit(lead))
        q.stmt("const av = [%s]" % ", ".join(args))
        q.stmt("fun dec_(a) { const r = []; for const x in a { r.push(typeof x == \"string\" ? chars_(x) : x) }; return r }")
        if src.below(8) == 0 and args:
            # one argument missing
            q.do("buffer().pack(f, av.slice(0, -1)...)", THROWS)
        mode = src.below(3)
        if mode == 0:
            q.do("b.pack(f, av...) == b", True)
        elif mode == 1:
            q.do("b.pack(f, av) == b", True)
        else:
            q.do("b.pack(%s) == b" % ", ".join(["f"] + args), True)
        q.do("b.slice(0, void)", Buf(bytes(lead) + bytes(out)))
        if tail:
            q.stmt("b.insert(void, %s)" % lit(tail))
        q.do("dec_(b.unpack(f, %d))" % len(lead), THROWS if fail else shown)
        full = bytes(lead) + bytes(out) + bytes(tail)
        if out and not fail and "s" not in [f[-1] for f in fmt]:
            cut = src.int(1, len(out))
            q.do("b.slice(0, %d).unpack(f, %d)" % (len(lead) + len(out) - cut, len(lead)), THROWS)
            neg = len(lead) - len(full)
            q.do("dec_(b.unpack(f, %d))" % neg, shown)
        if src.below(4) == 0:
            bad = src.pick(("u3", "f2", "f1", "i0", "q", "u", "b", "3", "4294967290x", "5000000000u1", "u99999999999", "65536b65536",
                            "65536s65536", "1073741824u4", "u4 \u0105", "i8i", "2 2u1", "-u1", "u-1", "x y", "65537b65535"))
            q.do("buffer(8).unpack(%s)" % lit(text + " " + bad), THROWS)
            q.do("buffer().pack(%s, av)" % lit(text + " " + bad), THROWS)
        q.nt = len([f for f in fmt if f not in "<>"]) >= 3
        q.labels.add("pack")

    # ------------------------------------------------------------------
    def utf8(self, q, src):
        nt = False
        for _ in range(src.int(1, 4)):
            k = src.below(4)
            if k == 0:
                c = g_cps(src)
                q.do("buffer(%s)" % strx(c), Buf(enc(c)))
                nt |= len([x for x in c if x > 127]) >= 2
            elif k == 1:
                c = g_cps(src)
                q.do("chars_(string(buffer(%s)))" % strx(c), ["s"] + c)
                q.do("string(buffer(%s)) == %s" % (strx(c), strx(c)), True)
                nt |= len([x for x in c if x > 127]) >= 2
            elif k == 2:
                b = g_utf8ish(src)
                d = dec(b)
                q.do("chars_(string(%s))" % lit(Buf(b)), THROWS if d is None else ANY if d is ANY else ["s"] + d)
                nt |= len([x for x in b if x >= 0xc0]) >= 2
            else:
                c, e = g_cps(src, 6), g_cps(src, 6)
                q.do("buffer(%s, %s)" % (strx(c), strx(e)), Buf(enc(c + e)))
                q.do("chars_(string(%s, %s))" % (lit(Buf(enc(c))), lit(Buf(enc(e)))), ["s"] + c + e)
                nt |= len([x for x in c + e if x > 127]) >= 2
        q.nt = nt
        q.labels.add("utf8")

    pre = r"""
fun chars_(s) {
    const r = ["s"]
    var i = 0
    while i < s.size {
        r.push(s.code(i))
        i += 1
    }
    return r
}
"""
