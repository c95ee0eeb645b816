"""Sockets on the loopback interface against a model of the streams and datagrams in flight."""
import ipaddress
import kosval
from kosseq import Seq, SeqCheck, THROWS, ANY, OneOf
from kosval import VOID, lit, Buf

LIB = r"""
const rng_ = random.random()
var six_ = false
try { net.socket(net.AF_INET6).bind("::1").close() ; six_ = true } catch const e { }

fun fam_(six) { return six && six_ ? net.AF_INET6 : net.AF_INET }
fun addr_(k, six) { return six && six_ ? "::1" : "127.\(k).\(k * 3).1" }
fun bound_(fam, typ, a) {
    var err = void
    for const i in range(400) {
        const p = rng_.integer(10000, 32000)
        const s = net.socket(fam, typ)
        try { s.bind(a, p) ; return [s, p] } catch const e { s.close() ; err = e }
    }
    throw err
}
# connection between a listener at la and a client at ca
fun conn_(six, la, ca, backlog) {
    var err = void
    for const i in range(20) {
        const l = bound_(fam_(six), net.SOCK_STREAM, la)
        const c = bound_(fam_(six), net.SOCK_STREAM, ca)
        try {
            l[0].listen(backlog)
            c[0].connect(la, l[1])
        }
        catch const e { l[0].close() ; c[0].close() ; err = e ; continue }
        return { l: l[0], lp: l[1], c: c[0], cp: c[1] }
    }
    throw err
}
fun patn_(n, k) {
    const b = buffer(n)
    var i = 0
    while i < n { b[i] = (i * 7 + (i >> 8) + k) & 255 ; i += 1 }
    return b
}
fun rep_(s, n) {
    const a = []
    for const i in range(n) { a.push(s) }
    return string(a...)
}
fun ck_(b) {
    var h = 0
    for const x in b { h = (h * 31 + x) & 0xFFFFFFF }
    return [b.size, h]
}
# receives want bytes with given call, which must return 1 to size bytes every time
fun rd_(want, size, exact, call) {
    const out = buffer()
    while out.size < want {
        const n  = exact ? math.min(size, want - out.size) : size
        const b  = call(n)
        if b.size < 1 || b.size > n { throw "size \(b.size) of \(n) after \(out.size) of \(want)" }
        const at = out.size
        out.resize(at + b.size)
        out.copy_buffer(at, b)
    }
    return out
}
# the same with bytes appended to a buffer
fun ap_(want, size, exact, dest, call) {
    const at = dest.size
    while dest.size - at < want {
        const had = dest.size
        const n   = exact ? math.min(size, want - (had - at)) : size
        const b   = call(n, dest)
        if b != dest { throw "another buffer" }
        if b.size < had + 1 || b.size > had + n { throw "size \(b.size) after \(had)" }
    }
    return dest
}
fun prefix_(b, whole) {
    if b.size < 1 || b.size > whole.size { return [b.size, whole.size] }
    var i = 0
    while i < b.size { if b[i] != whole[i] { return i } ; i += 1 }
    return true
}
# receives k datagrams and tells which socket each came from
fun dg_(k, who, call) {
    const out = []
    for const i in range(k) {
        const r = call()
        var from = -1
        for const j in range(who.size) {
            if who[j].port == r.port && who[j].addr == r.address { from = j }
        }
        const c = ck_(r.data)
        out.push("\(from) \(c[0]) \(c[1])")
    }
    return [sort(out)...]
}
fun took_(f) {
    const t = datetime.now()
    f()
    return (datetime.now() - t) / 1000
}
fun hexg_(s) {
    if s.size < 1 || s.size > 4 { throw "bad group \(s)" }
    var v = 0
    for const ch in s {
        const i = "0123456789abcdef".find(ch)
        if i < 0 { throw "bad digit in \(s)" }
        v = v * 16 + i
    }
    return v
}
fun split_(s, sep) {
    const out = []
    var at = 0
    loop {
        const i = s.find(sep, at)
        if i < 0 { out.push(s[at:]) ; return out }
        out.push(s[at:i])
        at = i + sep.size
    }
}
fun groups_(s) { return s.size ? [map(hexg_, split_(s, ":"))...] : [] }
fun ip_(s) {
    if s.find(":") < 0 {
        const p = [map(integer, split_(s, "."))...]
        if p.size != 4 { throw "bad address " + s }
        for const x in p { if x < 0 || x > 255 { throw "bad address " + s } }
        return p
    }
    const h = split_(s, "::")
    if h.size == 1 {
        const g = groups_(s)
        if g.size != 8 { throw "bad address " + s }
        return g
    }
    if h.size != 2 { throw "bad address " + s }
    const a = groups_(h[0])
    const b = groups_(h[1])
    if a.size + b.size > 7 { throw "bad address " + s }
    while a.size + b.size < 8 { a.push(0) }
    return [a..., b...]
}
fun info_(a, p) {
    const out = []
    var bad = void
    for const x in net.getaddrinfo(a, p) {
        const d = [ip_(x.address), x.port, x.family == net.AF_INET ? 4 : x.family == net.AF_INET6 ? 6 : x.family]
        if ! out.size { out.push(d...) }
        else { for const i in range(3) { if string(d[i]) != string(out[i]) { bad = d } } }
        if typeof x.socktype != "integer" || typeof x.protocol != "integer" { bad = x }
    }
    return bad ?? out
}
"""
LIB = LIB.replace("bad ?? out", "bad == void ? out : bad")


def pat(n, k):
    return bytes((i * 7 + (i >> 8) + k) & 255 for i in range(n))


def ck(b):
    h = 0
    for x in b:
        h = (h * 31 + x) & 0xFFFFFFF
    return [len(b), h]


CLOSED = ("%s.send(\"x\")", "%s.recv(5)", "%s.read()", "%s.recvfrom()", "%s.write(\"x\")", "%s.write()", "%s.wait(0)", "%s.listen()", "%s.accept()",
          "%s.bind(\"127.0.0.1\")", "%s.connect(\"127.0.0.1\", 9)", "%s.shutdown()", "%s.blocking", "(fun { %s.blocking = false })()",
          "%s.getsockopt(net.SOL_SOCKET, net.SO_KEEPALIVE)", "%s.setsockopt(net.SOL_SOCKET, net.SO_KEEPALIVE, true)",
          "%s.sendto(\"127.0.0.1\", 9, \"x\")")


def got(q, expr, b):
    """step with the bytes themselves, or with their hash where they are too long for the results of all steps to fit in a string"""
    if len(b) <= 300:
        q.do(expr, Buf(bytes(b)))
    else:
        q.do("ck_(%s)" % expr, ck(bytes(b)))


class End:
    def __init__(self, name):
        self.name = name
        self.inq = bytearray()      # sent by the peer, not received yet
        self.shut = False           # this end sends no more
        self.closed = False
        self.block = True
        self.peer = None


class CHECK(SeqCheck):
    id = "C26"
    rule = "at least 5 operations on connected sockets of which at least one transfers data, or an address, option or failing call with a computed result; distinct by the steps"
    batch = 60
    flavours = ("dbg", "asan")
    prelude = "import net\nimport random\nimport threads\nimport datetime\n" + kosval.PRELUDE + LIB
    cases = {"quick": 30000, "thorough": 600000}
    timeout = 90
    retries = 3

    def build(self, q, src):
        k = src.weighted(((6, "tcp"), (4, "udp"), (2, "opts"), (2, "addr"), (1, "big"), (1, "accepts")))
        q.labels.add(k)
        getattr(self, "g_" + k)(q, src)
        return True

    def payload(self, src, mx=3000):
        """-> (expression, bytes)"""
        k = src.below(6)
        if k == 0:
            n, j = src.pick((0, 1, 2, 255, 256, 1000, mx)), src.below(200)
            n = min(n, mx)
            return "patn_(%d, %d)" % (n, j), pat(n, j)
        if k == 1:
            n, j = src.below(min(mx, 600)), src.below(200)
            return "patn_(%d, %d)" % (n, j), pat(n, j)
        if k == 2:
            b = bytes(src.below(256) for _ in range(src.below(8)))
            return lit(Buf(b)), b
        if k == 3:
            s = src.pick(("", "a", "hello", "\u00e9", "\u4e2d\u6587", "\U0001f600!", "\0", "a\0b", "x" * 40, "\x7f\x80\u07ff\u0800\uffff\U00010000\U0010ffff"))
            s = s * (1 + src.below(3))
            return lit(s), s.encode()
        if k == 4:
            s, n = src.pick(("ab", "\u00e9", "z", "\u4e2d")), src.below(200)
            return "rep_(%s, %d)" % (lit(s), n), (s * n).encode()
        b = bytes(src.below(256) for _ in range(1 + src.below(4)))
        return "%s[%d:]" % (lit(Buf(b"zz" + b)), 2), b

    # --- streams -----------------------------------------------------
    def connect(self, q, src, n):
        six = src.bool(1, 5)
        la, ca = "addr_(%d, %s)" % (src.below(80), lit(six)), "addr_(%d, %s)" % (src.below(80), lit(six))
        q.stmt("const h%d = conn_(%s, %s, %s, %d)" % (n, lit(six), la, ca, src.pick((1, 5, 100))))
        if src.bool(1, 3):
            q.do("h%d.l.wait(30)" % n, True)
        q.stmt("const a%d = h%d.l.accept()" % (n, n))
        q.do("a%d.address == %s && a%d.port == h%d.cp && a%d.socket instanceof net.socket" % (n, ca, n, n, n), True)
        q.stmt("const c%d = h%d.c" % (n, n))
        q.stmt("const s%d = a%d.socket" % (n, n))
        if src.bool(1, 3):
            q.do("[h%d.l.wait(0), h%d.l.close() == h%d.l]" % (n, n, n), [False, True])
        else:
            q.stmt("h%d.l.close()" % n)
        x, y = End("c%d" % n), End("s%d" % n)
        x.peer, y.peer = y, x
        q.do("[c%d.blocking, s%d.blocking]" % (n, n), [True, True])
        return [x, y]

    def g_tcp(self, q, src):
        ends = []
        for n in range(src.pick((1, 1, 2))):
            ends += self.connect(q, src, n)
        n = 0
        for _ in range(8 + src.len(40)):
            e = src.pick(ends)
            if self.op_tcp(q, src, e):
                n += 1
        q.nt = n >= 3
        for e in ends:
            if not e.closed:
                q.stmt("%s.close()" % e.name)

    def op_tcp(self, q, src, e):
        p, s = e.peer, e.name
        if e.closed:
            q.labels.add("closed-socket")
            if src.bool(1, 4):
                q.do("%s.%s() == %s" % (s, src.pick(("close", "release")), s), True)
            else:
                q.do(src.pick(CLOSED) % s, THROWS)
            return False
        k = src.weighted(((8, "send"), (8, "recv"), (4, "idle"), (2, "blocking"), (1, "shut"), (1, "close"), (1, "bad"), (3, "eof")))
        if k == "send":
            return self.send(q, src, e)
        if k == "recv":
            if not e.inq:
                return False
            return self.recv(q, src, e)
        if k == "blocking":
            e.block = src.bool()
            q.stmt("%s.blocking = %s" % (s, lit(e.block)))
            q.do("%s.blocking" % s, e.block)
            return False
        if k == "idle":
            if e.inq or p.shut or p.closed:
                return False
            q.labels.add("idle")
            if src.bool():
                q.do("[%s.wait(0), %s.wait(%s)]" % (s, s, src.pick(("0.001", "0.0", "1e-7", "0.01"))), [False, False])
            if src.bool(1, 8):
                q.do("took_(() => %s.wait(%s)) >= 15" % (s, src.pick(("0.02", "0.016"))), True)
            if not e.block:
                q.do("%s.%s(%s)" % (s, src.pick(("recv", "read")), src.pick(("", "10", "0", "100000"))), Buf(b""))
                b = bytes(src.below(256) for _ in range(src.pick((0, 1, 2, 9))))
                q.do("%s.%s(%d, %s)" % (s, src.pick(("recv", "read")), 1 + src.below(50), lit(Buf(b))), Buf(b))
                if src.bool(1, 4):
                    q.do("%s.recvfrom(%d, %s).data" % (s, 1 + src.below(50), lit(Buf(b))), Buf(b))
            return False
        if k == "eof":
            if e.inq or not (p.shut or p.closed):
                return False
            q.labels.add("end-of-stream")
            if src.bool():
                q.do("%s.wait(30)" % s, True)
            elif not e.block:
                q.stmt("%s.wait(30)" % s)
            b = bytes(src.below(256) for _ in range(src.below(4)))
            q.do("%s.recv(%d, %s)" % (s, 1 + src.below(9), lit(Buf(b))), Buf(b))
            q.do("%s.read(%d)" % (s, 1 + src.below(9)), Buf(b""))
            return False
        if k == "shut":
            if p.closed or e.shut or not src.bool(1, 2):
                return False
            q.labels.add("shutdown")
            q.do("%s.shutdown(net.SHUT_WR) == %s" % (s, s), True)
            e.shut = True
            return False
        if k == "close":
            if e.inq or not src.bool(1, 2):
                return False
            q.do("%s.%s() == %s" % (s, src.pick(("close", "release")), s), True)
            e.closed = True
            return False
        q.labels.add("bad-arguments")
        q.do(src.pick(("%s.recv(5, [])", "%s.recv(0x1_0000_0000)", "%s.recv(5, void, {})", "%s.recv(0xFFFFFFFF, buffer(1))", "%s.send(5)", "%s.send(void)", "%s.write([])", "%s.recv(5, void, 0x100000)",
                       "%s.send(\"x\", {})", "%s.send(\"x\", 0x200000)", "%s.wait(-0.5)", "%s.wait(-1)", "%s.wait(math.nan)", "%s.wait([])", "%s.blocking = 5".join(("(fun { ", " })()")),
                       "%s.recv({})", "%s.recvfrom(5, \"\")", "%s.send(\"x\", 0x1_0000_0000)", "%s.recv(5, void, -1)", "%s.wait(3e9)")) % s, THROWS)
        return False

    def send(self, q, src, e):
        s, p = e.name, e.peer
        if p.closed:
            q.do("%s.send(\"x\")" % s, ANY)
            return False
        if len(p.inq) > 16000:
            return False
        if e.shut:
            q.do(src.pick(("%s.send(\"x\")", "%s.write(\"x\", \"y\")", "%s.send(buffer(5))")) % s, THROWS)
            return False
        if src.bool(1, 2):
            t, b = self.payload(src)
            form = src.pick(("%s.send(%s)", "%s.send(%s, 0)", "%s.write(%s)", "%s.send(data = %s)", "%s.send(%s, 0.0)"))
            q.do((form + " == %s") % (s, t, s), True)
        else:
            ps = [self.payload(src, 500) for _ in range(src.below(5))]
            b = b"".join(x for _, x in ps)
            q.do("%s.write(%s) == %s" % (s, ", ".join(t for t, _ in ps), s), True)
        p.inq += b
        return bool(b)

    def recv(self, q, src, e):
        s, n = e.name, len(e.inq)
        # a non-blocking socket may have received only the first part
        wait = "" if e.block else "%s.wait(30) ; " % s
        k = src.weighted(((3, "some"), (2, "all"), (2, "append"), (1, "default"), (1, "waitall"), (2, "peek"), (1, "recvfrom"), (1, "one")))
        q.labels.add("recv-" + k)
        f = src.pick(("recv", "read"))
        if k == "peek":
            m = 1 + src.below(n)
            q.do("(fun { %s.wait(30) ; return prefix_(%s.%s(%d, void, net.MSG_PEEK), %s) })()" % (s, s, f, m, lit(Buf(e.inq[:m])) if m < 3000 else "buffer()"), True if m < 3000 else ANY)
            return False
        if k == "waitall":
            if not e.block:
                return False
            m = 1 + src.below(n)
            pre = bytes(src.below(256) for _ in range(src.pick((0, 0, 3))))
            if src.bool(1, 3):
                got(q, "%s.%s(%d, void, net.MSG_PEEK | net.MSG_WAITALL)" % (s, f, m), e.inq[:m])
            got(q, "%s.%s(%d, %s, net.MSG_WAITALL)" % (s, f, m, lit(Buf(pre))), pre + e.inq[:m])
            del e.inq[:m]
            return True
        if k == "one":
            size = src.pick(("0", "1", "-5", "1.9"))
            got(q, "rd_(1, 1, true, fun(n) { %sreturn %s.%s(%s) })" % (wait, s, f, size), e.inq[:1])
            del e.inq[:1]
            return True
        if k == "default":
            got(q, "rd_(%d, 4096, false, fun(n) { %sreturn %s.%s() })" % (n, wait, s, f), bytes(e.inq))
            e.inq.clear()
            return True
        exact = True
        if k == "some":
            m, size = 1 + src.below(n), src.pick((1, 2, 7, 100, 5000, 1 + src.below(300)))
            if m > 300:
                size = max(size, m // 50)
        elif k == "all":
            m, size, exact = n, src.pick((n, n + 1, 5000, 100000)), False
        else:
            m, size = 1 + src.below(n), src.pick((1, 10, 1000, 100000))
            if m > 300:
                size = max(size, m // 50)
            if m == n:
                exact = src.bool()
        want = bytes(e.inq[:m])
        if k == "append":
            pre = bytes(src.below(256) for _ in range(src.below(10)))
            got(q, "ap_(%d, %d, %s, %s, fun(n, b) { %sreturn %s.%s(n, b) })" % (m, size, lit(exact), lit(Buf(pre)), wait, s, f), pre + want)
        elif k == "recvfrom":
            got(q, "rd_(%d, %d, %s, fun(n) { %sreturn %s.recvfrom(n).data })" % (m, size, lit(exact), wait, s), want)
        else:
            got(q, "rd_(%d, %d, %s, fun(n) { %sreturn %s.%s(n) })" % (m, size, lit(exact), wait, s, f), want)
        del e.inq[:m]
        return True

    # --- datagrams ---------------------------------------------------
    def g_udp(self, q, src):
        six = src.bool(1, 4)
        ns = 2 + src.below(2)
        for i in range(ns):
            q.stmt("const a%d = addr_(%d, %s)" % (i, src.below(80), lit(six)))
            q.stmt("const b%d = bound_(fam_(%s), net.SOCK_DGRAM, a%d)" % (i, lit(six), i))
            q.stmt("const u%d = b%d[0]" % (i, i))
        q.stmt("const who = [%s]" % ", ".join("{ addr: a%d, port: b%d[1] }" % (i, i) for i in range(ns)))
        qs = [[] for _ in range(ns)]
        block = [True] * ns
        peer = [None] * ns
        n = 0
        for _ in range(7 + src.len(30)):
            i = src.below(ns)
            u = "u%d" % i
            k = src.weighted(((6, "send"), (6, "recv"), (3, "idle"), (1, "blocking"), (1, "bad"), (1, "toobig")))
            if k == "send":
                j = src.below(ns)
                if len(qs[j]) >= 6 or sum(map(len, (d for d, _ in qs[j]))) > 20000:
                    continue
                t, b = self.payload(src, src.pick((3000, 3000, 20000)))
                if src.bool(1, 5):
                    ps = (t, src.pick((", 0", "")))
                    q.do("%s.sendto(a%d, b%d[1], %s%s) == %s" % ((u, j, j) + ps + (u,)), True)
                else:
                    q.do("%s.sendto(a%d, b%d[1], %s) == %s" % (u, j, j, t, u), True)
                if b:
                    n += 1
                    qs[j].append((b, i))
                else:
                    q.labels.add("empty")
            elif k == "recv":
                if not qs[i]:
                    continue
                size = src.pick((None, None, 1, 10, 1000, 65536, 4096))
                lim = 4096 if size is None else size
                wait = "" if block[i] else "%s.wait(30) ; " % u
                sz = "" if size is None else str(size)
                if src.bool(1, 4):
                    q.labels.add("datagram-peek")
                    if len(qs[i]) == 1:
                        q.stmt("%s.wait(30)" % u)
                        got(q, "%s.recvfrom(%d, void, net.MSG_PEEK).data" % (u, lim), qs[i][0][0][:lim])
                if any(len(d) > lim for d, _ in qs[i]):
                    q.labels.add("truncated")
                if len(qs[i]) == 1 and src.bool():
                    pre = bytes(src.below(256) for _ in range(src.below(4)))
                    if wait:
                        q.stmt(wait)
                    got(q, "%s.recv(%d, %s)" % (u, lim, lit(Buf(pre))), pre + qs[i][0][0][:lim])
                else:
                    want = sorted("%d %d %d" % tuple([f] + ck(d[:lim])) for d, f in qs[i])
                    q.do("dg_(%d, who, fun { %sreturn %s.recvfrom(%s) })" % (len(qs[i]), wait, u, sz), want)
                qs[i] = []
                n += 1
            elif k == "idle":
                if qs[i]:
                    continue
                q.labels.add("idle")
                q.do("[%s.wait(0), %s.wait(%s)]" % (u, u, src.pick(("0.001", "0"))), [False, False])
                if not block[i]:
                    b = bytes(src.below(256) for _ in range(src.below(4)))
                    got(q, "%s.recv(10, %s)" % (u, lit(Buf(b))), b)
                    got(q, "%s.recvfrom(10, %s).data" % (u, lit(Buf(b))), b)
            elif k == "blocking":
                block[i] = src.bool()
                q.do("(fun { %s.blocking = %s ; return %s.blocking })()" % (u, lit(block[i]), u), block[i])
            elif k == "toobig":
                j = src.below(ns)
                q.do("%s.sendto(a%d, b%d[1], buffer(%d))" % (u, j, j, src.pick((65536, 70000, 200000))), THROWS)
            else:
                j = src.below(ns)
                q.do(src.pick(("%s.sendto(a%d, 0x10000, \"x\")", "%s.sendto(a%d, -1, \"x\")", "%s.sendto(a%d, 9, 5)", "%s.sendto(a%d, 9, \"x\", {})", "%s.sendto(a%d, 9, \"x\", 0x200000)", "%s.sendto(a%d + \"x\", 9, \"x\")",
                               "%s.sendto(5 - a%d.size, 9, \"x\")", "%s.listen(a%d.size)", "%s.bind(a%d, 0x1FFFF)", "%s.sendto(a%d, 9)")) % (u, j), THROWS)
        q.nt = n >= 3
        for i in range(ns):
            q.stmt("u%d.close()" % i)

    # --- options and arguments ---------------------------------------
    def g_opts(self, q, src):
        q.nt = True
        typ = src.pick(("net.SOCK_STREAM", "net.SOCK_DGRAM"))
        q.stmt("const s = net.socket(%s, %s)" % (src.pick(("net.AF_INET", "fam_(true)")), typ))
        cur = {}
        ops = ["SO_KEEPALIVE", "SO_REUSEADDR", "SO_OOBINLINE", "SO_DONTROUTE", "SO_BROADCAST"]
        for _ in range(2 + src.len(10)):
            k = src.below(8)
            if k < 3:
                o = src.pick(ops)
                v = src.pick((True, False, 1, 0, 5, -1, 1 << 40, 0.9, 1.5, -0.5))
                if o == "SO_KEEPALIVE" and typ != "net.SOCK_STREAM":
                    o = "SO_BROADCAST"
                val = v if isinstance(v, bool) else int(v // 1 if isinstance(v, float) else v) != 0
                if v == 0.9:
                    val = False
                q.do("s.setsockopt(net.SOL_SOCKET, net.%s, %s) == s" % (o, lit(v)), True)
                if v == -0.5:
                    q.do("typeof s.getsockopt(net.SOL_SOCKET, net.%s)" % o, "boolean")
                    cur.pop(o, None)
                else:
                    cur[o] = val
            elif k == 3 and cur:
                o = src.pick(sorted(cur))
                q.do("s.getsockopt(net.SOL_SOCKET, net.%s)" % o, cur[o])
            elif k == 4:
                o = src.pick(("SO_RCVTIMEO", "SO_SNDTIMEO"))
                v = src.pick((0, 1, 2.5, 0.25, 0.001, 100, 3600.75, 0.0, 1e5, 2000000, 1e-3))
                q.do("(fun { s.setsockopt(net.SOL_SOCKET, net.%s, %s) ; const g = s.getsockopt(net.SOL_SOCKET, net.%s) ; return typeof g == \"float\" && g >= %s - 0.000002 && g <= %s + 0.02 })()"
                     % (o, lit(v), o, lit(float(v)), lit(float(v))), True)
            elif k == 5:
                o = src.pick(("SO_RCVBUF", "SO_SNDBUF"))
                v = src.pick((5000, 10000, 65536, 100000, 7777.5))
                q.do("(fun { s.setsockopt(net.SOL_SOCKET, net.%s, %s) ; const g = s.getsockopt(net.SOL_SOCKET, net.%s) ; return typeof g == \"integer\" && g >= %d && g <= %d })()"
                     % (o, lit(v), o, int(v), 4 * int(v)), True)
            elif k == 6:
                q.do(src.pick(("s.setsockopt(net.SOL_SOCKET, net.SO_RCVTIMEO, %s)" % src.pick(("-1", "-0.001", "math.nan", "math.infinity", "18446744073710", "18446744073709551", "1e30", "-0x7FFFFFFF_FFFFFFFF", "\"5\"", "true", "void")),
                               "s.setsockopt(net.SOL_SOCKET, net.SO_KEEPALIVE, %s)" % src.pick(("\"1\"", "void", "[]", "math.nan", "1e30")),
                               "s.setsockopt(net.SOL_SOCKET, net.SO_SNDBUF, %s)" % src.pick(("\"1\"", "void", "true", "1e30")),
                               "s.getsockopt(%s, net.SO_KEEPALIVE)" % src.pick(("12345", "\"x\"", "-1", "void")),
                               "s.getsockopt(net.SOL_SOCKET, %s)" % src.pick(("12345", "\"x\"", "-1", "void", "[]")),
                               "s.setsockopt(%s, net.SO_KEEPALIVE, true)" % src.pick(("12345", "\"x\"", "void")),
                               "s.setsockopt(net.SOL_SOCKET, %s, true)" % src.pick(("12345", "\"x\"", "void")))), THROWS)
            else:
                q.do(src.pick(("net.socket(%s)" % src.pick(("12345", "\"x\"", "-1", "void", "0x1_0000_0002")),
                               "net.socket(net.AF_INET, %s)" % src.pick(("12345", "\"x\"", "-1", "void")),
                               "net.socket(net.AF_INET, net.SOCK_STREAM, net.IPPROTO_UDP)",
                               "s.bind(%s)" % src.pick(("\"300.1.1.1\"", "5", "void", "\"127.0.0.1\", 65536", "\"127.0.0.1\", -1", "\"192.0.2.1\"", "\"127.0.0.1\", \"x\"")),
                               "s.connect(%s)" % src.pick(("\"\"", "\"127.0.0.1\"", "\"300.1.1.1\", 5", "5, 5", "\"127.0.0.1\", 65536")),
                               "s.listen(%s)" % src.pick(("0", "-1", "65536", "\"x\"", "void")),
                               "net.socket.prototype.%s.apply(%s, [])" % (src.pick(("close", "recv", "wait", "accept", "listen", "release", "write")), src.pick(("void", "5", "\"s\"", "[]"))),
                               "net.socket.prototype.%s.apply({}, [])" % src.pick(("recv", "wait", "accept", "listen", "write", "shutdown")))), THROWS)
        q.do("s.close() == s", True)
        q.do(src.pick(CLOSED) % "s", THROWS)
        q.do("s.close() == s", True)
        if src.bool(1, 3):
            q.stmt("var w = void")
            q.do("(fun { with const x = net.socket() { w = x ; return x.blocking } })()", True)
            q.do(src.pick(CLOSED) % "w", THROWS)

    def g_addr(self, q, src):
        q.nt = True
        for _ in range(3 + src.len(10)):
            port = src.pick((0, 1, 80, 255, 256, 8080, 65535, src.below(65536)))
            p = src.pick((str(port), lit(str(port))))
            if src.bool(1, 4):
                b = [src.pick((0, 1, 10, 99, 100, 127, 128, 255, src.below(256))) for _ in range(4)]
                q.do("info_(\"%s\", %s)" % (".".join(map(str, b)), p), [b, port, 4])
                continue
            if src.bool(1, 10):
                q.do("net.getaddrinfo(%s)" % src.pick(("\"127.0.0.1\", 65536", "\"127.0.0.1\", -1", "5", "\"1::2::3\"", "\"1:2:3\"", "\"127.0.0.1\", []", "\"::12345\", 80", "\"127.0.0.1\", 1.0e9", "\"127.0.0.1\", \"no-such-service\"")), THROWS)
                continue
            zeros = src.below(3)
            g = [0 if src.bool(zeros, 3) else src.pick((1, 0xf, 0x10, 0xff, 0x100, 0xfff, 0x1000, 0xffff, 0xa0b0, 0x00ab, src.below(65536))) for _ in range(8)]
            if src.bool(1, 3):
                a, z = src.below(9), src.below(9)
                g = [0 if i < a or i >= z else x for i, x in enumerate(g)]
            if g[0] == 0xfe80 or g[0] >> 8 == 0xff:
                g[0] = 0x2001
            ip = ipaddress.IPv6Address(b"".join(x.to_bytes(2, "big") for x in g))
            text = src.pick((str(ip), ip.exploded, ip.exploded.upper()))
            q.do("info_(\"%s\", %s)" % (text, p), [g, port, 6])

    # --- large transfers and several clients -------------------------
    def g_big(self, q, src):
        q.nt = True
        self.connect(q, src, 0)
        a, b = src.pick((("c0", "s0"), ("s0", "c0")))
        if src.bool():
            q.stmt("%s.setsockopt(net.SOL_SOCKET, net.SO_SNDBUF, 5000)" % a)
        # a small receive buffer makes the sender wait for timers of the protocol
        slow = src.bool(1, 30)
        if slow:
            q.stmt("%s.setsockopt(net.SOL_SOCKET, net.SO_RCVBUF, 5000)" % b)
        nb = src.bool(2, 3)
        if nb:
            q.labels.add("sent-in-parts")
            q.stmt("%s.blocking = false" % a)
        rb = src.bool()
        if rb:
            q.stmt("%s.blocking = false" % b)
        size, k, gran = src.pick((70000, 200000, 400000)) if not slow else 20000, src.below(256), src.pick((1000, 4096, 100000, 333))
        q.stmt("const data = patn_(%d, %d)" % (size, k))
        if src.bool():
            q.stmt("const rd = async (fun { const out = buffer() ; loop { %s.wait() ; const had = out.size ; %s.recv(%d, out) ; if out.size == had { break } } return out })()" % (b, b, gran))
        else:
            q.stmt("const rd = async (fun { const out = [] ; var n = 0 ; loop { %s.wait() ; const x = %s.read(%d) ; if x.size == 0 { break } ; out.push(x) ; n += x.size }"
                   " const all = buffer(n) ; n = 0 ; for const x in out { all.copy_buffer(n, x) ; n += x.size } return all })()" % (b, b, gran))
        way = src.below(3)
        if way == 0:
            q.do("%s.send(data) == %s" % (a, a), True)
            q.stmt("const total = data")
        elif way == 1:
            q.do("%s.write(data, \"mid\", data[:1000]) == %s" % (a, a), True)
            q.stmt("const total = buffer(data, \"mid\", data[:1000])")
        else:
            q.do("%s.send(rep_(\"\u00e9x\", %d)) == %s" % (a, 30000, a), True)
            q.stmt("const total = buffer(rep_(\"\u00e9x\", %d))" % 30000)
        q.do("%s.shutdown(net.SHUT_WR) == %s" % (a, a), True)
        q.do("(fun { const got = rd.wait() ; return [got.size - total.size, got == total] })()", [0, True])
        q.stmt("c0.close() ; s0.close()")

    def g_accepts(self, q, src):
        # several clients of one listening socket, each told apart by its address
        q.nt = True
        six = src.bool(1, 5)
        n = 1 + src.below(5)
        q.stmt("const la = addr_(1, %s)" % lit(six))
        q.stmt("const l = bound_(fam_(%s), net.SOCK_STREAM, la)" % lit(six))
        q.do("l[0].listen(%s) == l[0]" % src.pick(("10", "", "100")), True)
        nb = src.bool()
        if nb:
            q.stmt("l[0].blocking = false")
            q.do("l[0].accept()", THROWS)
        q.do("l[0].wait(0)", False)
        q.stmt("const cs = []")
        q.do("(fun { for const i in range(%d) { const c = bound_(fam_(%s), net.SOCK_STREAM, addr_(i + 1, %s)) ; c[0].connect(la, l[1]) ; cs.push(c) ; c[0].write(\"hello \\(i)\") } return cs.size })()" % (n, lit(six), lit(six)), n)
        q.stmt("const ss = []")
        q.do("(fun { const out = [] ; for const i in range(%d) { l[0].wait(30) ; const r = l[0].accept() ; ss.push(r.socket) ; "
             "for const j in range(cs.size) { if cs[j][1] == r.port && r.address == addr_(j + 1, %s) { out.push(\"\\(j) \" + string(r.socket.recv(%d, void, net.MSG_WAITALL))) } } } return [sort(out)...] })()" % (n, lit(six), 7),
             ["%d hello %d" % (i, i) for i in range(n)])
        q.do("l[0].wait(0)", False)
        q.do("(fun { for const s in ss { s.blocking = false } ; const out = [] ; for const s in ss { out.push(s.recv(5).size) ; out.push(s.blocking) } return out })()", [0, False] * n)
        q.stmt("for const c in cs { c[0].close() }")
        q.do("(fun { const out = [] ; for const s in ss { s.wait(30) ; out.push(s.recv(5).size) ; s.close() } return out })()", [0] * n)
        q.stmt("l[0].close()")

    def fixed_cases(self):
        out = []

        def new(label):
            q = Seq()
            q.nt = True
            q.labels = {label}
            out.append(q)
            return q
        q = new("recv-vs-gc")
        # one thread waits for data while another one collects garbage and moves objects
        for call in ("s.recv(64, b)", "s.recvfrom(64, b)", "s.read(200, b)"):
            q.do("(fun { const h = conn_(false, \"127.0.0.1\", \"127.0.0.1\", 5) ; const s = h.l.accept().socket ; const ack = threads.queue() ; "
                 "const r = async (fun { const out = [] ; for const i in range(25) { const b = buffer() ; %s ; out.push(ck_(b)) ; ack.push(i) } return out })() ; "
                 "const keep = [] ; for const i in range(25) { for const j in range(300) { keep.push([j]) } ; keep.resize(100) ; kos.collect_garbage() ; h.c.send(patn_(64, i)) ; loop { try { ack.pop() ; break } catch const e { threads.sleep(0) } } } ; return r.wait() })()" % call,
                 [ck(pat(64, i)) for i in range(25)])
        q = new("send-vs-gc")
        q.do("(fun { const h = conn_(false, \"127.0.0.1\", \"127.0.0.1\", 5) ; const s = h.l.accept().socket ; h.c.setsockopt(net.SOL_SOCKET, net.SO_SNDBUF, 5000) ; "
             "const w = async (fun { for const i in range(60) { h.c.send(patn_(5000, i)) } ; h.c.close() })() ; "
             "const keep = [] ; const got = buffer() ; loop { for const j in range(300) { keep.push([j]) } ; keep.resize(100) ; kos.collect_garbage() ; const had = got.size ; s.recv(20000, got) ; if got.size == had { break } } ; w.wait() ; return ck_(got) })()",
             ck(b"".join(pat(5000, i) for i in range(60))))
        q = new("many-sockets")
        q.do("(fun { const ks = [] ; try { for const i in range(1100) { ks.push(net.socket(net.AF_INET, net.SOCK_DGRAM)) } } catch const e { } ; const b = bound_(net.AF_INET, net.SOCK_DGRAM, \"127.0.0.1\") ; "
             "const u = ks[ks.size - 1] ; const r = [u.wait(0), u.wait(0.001)] ; u.bind(\"127.0.0.1\") ; b[0].sendto(\"127.0.0.1\", b[1], \"x\") ; r.push(b[0].wait(30)) ; for const k in ks { k.close() } ; b[0].close() ; return r })()",
             OneOf([False, False, True], THROWS))
        q = new("same-functions")
        q.do("(fun { const u = bound_(net.AF_INET, net.SOCK_DGRAM, \"127.0.0.1\") ; return [u[0] instanceof net.socket, u[0].blocking] })()", [True, True])
        q.do("net.socket.prototype.blocking", THROWS)
        return [q.case() for q in out]
