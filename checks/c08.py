"""Failures of memory allocation and of the system are reported as exceptions and leave everything intact.

Every case is one operation.  It is repeated with a fault injected at each of its fault points (allocations,
files, threads...), each time on fresh data: the operation either completes with the fault-free result or throws,
the data are as before or after it, and repeating it then works.  Start-up is covered point by point."""
import os
import re
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

import engine
import kosbatch
import kosprog
import kosval
from kosval import PRELUDE, VOID, lit, strlit
from c15 import g_val

IMPORTS = """
import os
import iter
import json
import re
import random
import datetime
import io
import fs
import net
import math
import threads
import kos
"""
PRE = r"""

const OFF_ = "VFAIL:off"
const getenv_ = os.getenv

# Exceptions of the threads left by failed operations are reported by the next collection
fun gc_
{
    loop {
        try { kos.collect_garbage(); return void } catch const e { }
    }
}

fun off_
{
    loop {
        try { return getenv_(OFF_) } catch const e { }
    }
}

# atomic: 2 - the state is the one before, whatever happens
#         1 - state is the one before or after, and the operation can be repeated
#         0 - any state on which check works
fun fault_(mk, atomic, len, maxp)
{
    var st = mk()
    const before = show_(st[1]())
    gc_()
    getenv_("VFAIL:arm 1000000000 1")
    var r0 = void
    var ok0 = false
    try { r0 = st[0](); ok0 = true } catch const e { }
    const total = integer([off_().split(" ")...][0])
    r0 = ok0 ? show_(r0) : "E"
    const after = show_(st[1]())
    const step = (total > maxp) ? (total // maxp) : 1
    var at = (step > 1) ? (total % step) : 0
    var n = 0
    var thrown = 0
    loop {
        st = mk()
        const f = st[0]
        const key = "VFAIL:arm \(at) \(len)"
        var th = true
        var r = void
        try {
            getenv_(key)
            r = f()
            th = false
        }
        catch const e { }
        var c = void
        loop {
            try { c = getenv_(OFF_); break } catch const e { }
        }
        n += 1
        if c[-2:] == " 0" {
            break
        }
        if th {
            thrown += 1
        }
        if (n & 31) == 5 {
            gc_()
        }
        const s = show_(st[1]())
        if th {
            if atomic == 2 {
                if s != before {
                    return "BAD fault \(at): afterwards the state is \(s), not \(before)"
                }
            }
            else if atomic {
                if (s != before) && (s != after) {
                    return "BAD fault \(at): state is neither the one before nor the one after: " + s
                }
                if s == before {
                    var again = "E"
                    try { again = show_(f()) } catch const e { }
                    const s2 = show_(st[1]())
                    if (again != r0) || (s2 != after) {
                        return "BAD fault \(at): repeated without fault it gives \(again) \(s2)"
                    }
                }
            }
        }
        elif (show_(r) != r0) || (s != after) {
            return "BAD fault \(at): no exception, but the result is \(show_(r)) \(s)"
        }
        at += step
    }
    return "ok \(n - 1) \(thrown) \(r0 == "E")"
}

fun io_fds_
{
    gc_()
    return count(fs.listdir("/proc/self/fd"))
}
"""
PRE = PRE.replace("elif (", "else if (").replace("total // maxp", "integer(total / maxp)")



PROGPRE = r"""
fun progf_(n, text, len, skip)
{
    const getenv_ = os.getenv
    reset_()
    getenv_("VFAIL:arm 1000000000 1")
    try { kos.execute(text) } catch const e { }
    const total = integer([getenv_("VFAIL:off").split(" ")...][0])
    var i = 0
    while i < 12 {
        const at = (skip + integer(i * total / 12)) % total
        const key = "VFAIL:arm \(at) \(len)"
        reset_()
        try { getenv_(key); kos.execute(text) } catch const e { }
        loop {
            try { getenv_("VFAIL:off"); break } catch const e { }
        }
        if i == 5 {
            loop {
                try { kos.collect_garbage(); break } catch const e { }
            }
        }
        i += 1
    }
    prog_(n, text)
}
"""
ENV = {"KOSPATH": os.path.join(engine.VERIF, "kosmods")}
MAXP = {"quick": 60, "thorough": 1000}


def arr(src, n=6, lo=0):
    return [src.pick((src.int(-9, 99), "s%d" % src.below(5), VOID, 1.5, 1 << 60)) for _ in range(src.len(n, lo))]


def text(src, n=12, lo=0):
    al = src.pick(("abc ,x", "a\xe9\xdf,", "a\u4e00,\u0416", "x\U0001f600 ,"))
    return "".join(src.pick(al) for _ in range(src.len(n, lo)))


T = []


def template(f):
    T.append(f)
    return f


@template
def t_push(src):
    a = arr(src, 40)
    return "const a = %s" % lit(a), "return a.push(%s)" % lit(src.pick(("v", 5))), "a", 1


@template
def t_push_many(src):
    a = arr(src)
    return "const a = %s" % lit(a), "return a.push(%s...)" % lit(arr(src)), "a[:%d]" % len(a), 0


@template
def t_insert(src):
    a = arr(src)
    x = src.pick((lit(arr(src)), strlit(text(src)), "a"))
    b = src.below(len(a) + 1)
    return "const a = %s" % lit(a), "return a.insert(%d, %d, %s)" % (b, b + src.below(3), x), "a.size >= 0" if x[0] == '"' else "a", int(x[0] != '"')


@template
def t_array_op(src):
    a = arr(src, 20)
    op = src.pick(("a.resize(%d)" % src.below(60), "a.reserve(%d)" % src.below(200), "a.fill(3, 1, -1)", "a.slice(1, -1)", "[a..., 1, a...]",
                   "a.cas(0, a[?0], 7)", "a.insert_array(0, 1, a)", "array(%d, 5)" % src.below(50), "array(a)", "a.slice(void, void)",
                   "stringify(a)", "a.map(x => [x]) -> array", "a.filter(x => typeof x == \"string\") -> array", "a.iterator() -> array"))
    return "const a = %s" % lit(a), "return %s" % op, "a", 1


@template
def t_sort(src):
    a = [src.int(-50, 50) for _ in range(src.len(30))]
    op = src.pick(("sort(a)", "a.slice(0, void).sort()", "sort(x => -x, a)", "sort(true, a)", "sort(x => \"\\(x)\", a)"))
    return "const a = %s" % lit(a), "return %s" % op, "a", 1


@template
def t_sort_in_place(src):
    a = [src.int(-50, 50) for _ in range(src.len(30, 1))]
    return "const a = %s" % lit(a), "return a.sort()", "[a.size, typeof a[0]]", 0


@template
def t_buffer(src):
    b = kosval.Buf(bytes(src.below(256) for _ in range(src.len(20))))
    n = len(b.b)
    op = src.pick(("b.resize(%d)" % src.below(9000), "b.reserve(%d)" % src.below(9000), "b.fill(7)", "b.slice(1, void)", "buffer(b)", "string(b)" if all(x < 128 for x in b.b) else "b.slice(0, 1)",
                   "b.pack(\"<u4\", 5)", "b.copy_buffer(0, b)", "stringify(b)", "buffer([1, 2, 3])", "buffer(\"\\x{4e00}abc\")", "buffer(range(40))"))
    return "const b = %s" % lit(b), "return %s" % op, "b", 1


@template
def t_buffer_insert(src):
    b = kosval.Buf(bytes(src.below(256) for _ in range(src.len(20))))
    n = len(b.b)
    return ("const b = %s" % lit(b), "return b.insert(%d, %d, %s)" % (src.below(n + 1), n, src.pick(("[1, 2, 3]", "\"abc\"", "b", "range(20)"))), "b.size >= 0", 0)


@template
def t_pack(src):
    n = src.len(8)
    return "const b = mkbuf_([1, 2])", "b.pack(\"<u2 %du4 s5 f8\", %s \"abc\", 1.5); return b.unpack(\"u1 u1\")" % (n, "".join("%d, " % i for i in range(n + 1))), "b[0:2]", 0


@template
def t_object(src):
    n = src.pick((0, 1, 3, 6, 12, 25, 50))
    o = {"k%d" % i: i for i in range(n)}
    op = src.pick(("(fun { o.z = 5; return o.z })()", "(fun { delete o.k0; return \"k0\" in o })()", "(fun { o.k0 = [1]; return o.k0 })()", "object(o)", "json.dump(o)[:1]",
                   "(shallow(o) -> array).size", "(deep(o) -> array).size", "o.map(x => x[1]) -> sort", "o.?nothing", "o.get(\"zz\", 3)",
                   "(fun { var s = 0; for const k, v in o { s += v } return s })()", "{a: o, b: [o]}", "o[?\"k1\"]"))
    return "const o = %s" % lit(o), "return %s" % op, "o", 1


@template
def t_class(src):
    q = src.below(3)
    cls = ("class A { constructor(x, y = 4) { this.x = x; this.y = y } fun m(z) { return [this.x, z] } var d = [1] }\n"
           "class B extends A { constructor(x) { super(x); this.b = [x] } fun m(z) { return [\"b\", super.m(z)] } }")
    op = ("const o = B(5); return [o.x, o.y, o.b, o.m(3), o.d]", "return A(1, 2)", "const K = class extends A { fun q { return this.y } }; return K(8).q()")[q]
    return cls, op, "A.prototype.d", 1


@template
def t_string(src):
    s = text(src)
    t = text(src, 3, 1)
    op = src.pick(("s + t", "s.split(t) -> array", "s.split_lines() -> array", "s.repeats(3)", "s.uppercase()", "s.lowercase()", "s.reverse()", "s.ljust(20)", "s.zfill(9)",
                   "s.strip()", "s.find(t)", "s.rfind(t)", "s.scan(t)", "\"<\\(s)-\\(t)>\"", "stringify([s, t])", "s.slice(1, -1)", "s[1:]", "string(s, t, 5, 1.25)",
                   "buffer(s)", "string(buffer(s))", "s -> array", "join(t, [s, 1, s])", "integer(\"123\") + float(\"2.5\")", "hex(255)", "s < t", "{}.?x",
                   "s == t", "json.parse(json.dump([s, t]))", "s.starts_with(t)", "string(s.iterator()...)"))
    return "const s = %s\nconst t = %s" % (strlit(s), strlit(t)), "return %s" % op, "[s, t]", 1


@template
def t_json(src):
    v = g_val(src)
    return "const v = %s" % lit(v), "return json.parse(json.dump(v))" if src.bool() else "return json.dump(v).size", "v", 1


@template
def t_cleanup(src):
    """Every acquired resource is released exactly once, whatever fails."""
    body = src.pick(("s = \"a\" + string(n)", "[1, 2, [3]]", "throw \"t\"", "return n", "o.k = [n]", "const g = fun { yield n }; for const x in g() { n += x }", "string(1.5, n)"))
    k = src.below(3)
    if k == 0:
        op = "with const x = r {\n%s\n}" % body
        op = "var s = \"\"\nvar n = 3\nconst o = {}\n" + op
    elif k == 1:
        op = "var s = \"\"\nvar n = 3\nconst o = {}\nc.acq += 1\ndefer { c.rel += 1 }\n%s" % body
    else:
        op = "var s = \"\"\nvar n = 3\nconst o = {}\nwhile n < 5 {\nn += 1\nc.acq += 1\ndefer { c.rel += 1 }\nif n == 4 { continue }\n%s\n}" % body
    return ("const c = { acq: 0, rel: 0 }\nconst r = { acquire: fun { c.acq += 1 }, release: fun { c.rel += 1 } }",
            op + "\nreturn 1", "c.acq - c.rel", 2 if k else 0)


@template
def t_catch(src):
    op = ("const t = []\n"
          "fun g(x) { if x { throw [x] } return x }\n"
          "try { t.push(g(0)); t.push(g(%d)); t.push(9) } catch const e { t.push(e.value[0]); c[0] += 1 }\n"
          "return t" % src.int(1, 5))
    # a fault inside try may be caught by the program itself: only e.value[0] fails then
    return "const c = [0]", op.replace("e.value[0]", "(typeof e.value == \"array\") ? e.value[0] : (fun { throw e })()"), "c.size", 0


@template
def t_generator(src):
    n = src.int(1, 5)
    gens = src.pick(("fun(n) { var i = 0; while i < n { yield [i]; i += 1 } }", "fun(n) { for const x in range(n) { yield \"\\(x)\" } }",
                     "fun(n) { try { yield n; yield n + 1 } catch const e { throw e } }"))
    op = src.pick(("g(%d) -> array" % n, "[g(%d)..., g(%d)...]" % (n, n), "(fun { const it = g(%d); const a = it(); return a })()" % n,
                   "enumerate(g(%d)) -> array" % n, "zip(g(%d), \"abc\") -> array" % n,
                   "map(x => [x], g(%d)) -> array" % n, "first(g(%d))" % n, "count(g(%d))" % n,
                   "(fun { var s = 0; for const x in g(%d) { s += 1 } return s })()" % n))
    return "const g = %s" % gens, "return %s" % op, "0", 1


@template
def t_iter(src):
    a = lit([src.int(0, 9) for _ in range(src.len(6, 1))])
    op = src.pick(("sum(%s)", "reduce((x, y) => x + y, 0, %s)", "filter(x => x > 3, %s) -> array", "all(x => x > 0, %s)", "any(x => x > 4, %s)", "last(%s)",
                   "iter.product(%s, \"ab\") -> array", "iter.repeats(2, %s) -> array", "iter.reverse(%s) -> array", "zip(%s, range(3)) -> array", "enumerate(%s) -> array",
                   "join(\"-\", %s)", "each(x => [x], %s)"))
    return "const x = 1", "return %s" % (op % a), "x", 1


@template
def t_call(src):
    n = src.pick((0, 1, 3, 10, 40))
    f = "fun f(a, b = [2], c...) { return [a, b, c] }\nfun rec(n) { return (n > 0) ? rec(n - 1) + 1 : 0 }\nconst args = array(%d, 6)" % n
    op = src.pick(("f(1)", "f(1, 2, 3)", "f(1, args...)", "f.apply(void, [1, args...])", "f(a = 1)", "f(a = 1, b = [3])", "rec(%d)" % src.below(30), "(x => (y => [x, y]))(1)(2)",
                   "(fun { var n = 0; const h = fun { n += 1; return n }; h(); return h() })()"))
    return f, "return %s" % op, "args", 1


@template
def t_re(src):
    r = src.pick(("a(b|c)*d", "[a-f]{2,4}x?", "(?:ab)+$", "^.*,", "x|(y(z))|", "\\\\d+"))
    s = text(src, 10)
    return "const s = %s" % strlit(s), "const m = re.re%s(\"%s\").find(s); return (typeof m == \"void\") ? 0 : 1" % (src.pick(("", "_uncached")), r), "s", 1


@template
def t_misc(src):
    op = src.pick(("datetime.datetime(%d).day" % src.int(0, 10 ** 15), "random.random(%d).integer()" % src.below(1000), "random.random(5).float()",
                   "random.random(7).integer(0, 5)",
                   "(kos.raw_lexer(\"a + b # c\") -> array).size", "os.getenv(\"KOSPATH\", \"none\").size",
                   "datetime.datetime(2020, 2, %d, 1, 2, 3).timestamp" % src.int(1, 28)))
    return "const x = [1]", "return %s" % op, "x", 1


@template
def t_file(src):
    data = "".join(src.pick("ab\n\xe9\u4e00") for _ in range(src.len(30)))
    op = src.pick(("with const f = io.create(path) { f.write(d); f.flush() }; with const f = io.open(path) { return f.read().size }",
                   "with const f = io.create(path) { f.print(d) }; return io.read_lines(path) -> array",
                   "with const f = io.create(path) { f.print(d, 1) }; with const f = io.append(path) { f.print(2) }; with const f = io.open(path) { return f.read_line() }"))
    return "const path = os.getenv(\"KVTMP\") + \"/f\"\nconst d = %s" % strlit(data), op, "io_fds_()", 2


@template
def t_fs(src):
    op = src.pick(("fs.mkdir(path); const d = [fs.listdir(path)...].size; fs.rmdir(path); return d", "return fs.stat(path)", "return fs.file_exists(path)", "return fs.file_exists(\"/proc/self\")",
                   "return (fs.stat(\"/\")).type", "return count(fs.listdir(\"/proc/self/fdinfo\")) > 2", "return (fs.cwd()).size > 0", "fs.remove(path); return 1"))
    return "const path = os.getenv(\"KVTMP\") + \"/d\"\ntry { fs.rmdir(path) } catch const e { }", op, "io_fds_()", 2


@template
def t_gc(src):
    op = src.pick(("const a = range(%d).map(x => [x, \"\\(x)\"]) -> array; kos.collect_garbage(); return a[-1][1]" % src.int(1, 600), "return typeof kos.collect_garbage()",
                   "const a = [array(%d, [1]), {a: buffer(%d)}]; kos.collect_garbage(); return a[1].a.size" % (src.below(2000), src.below(90000)),
                   "const a = array(%d); kos.collect_garbage(); return a.size" % src.below(30000),
                   "var a = void; for const i in range(%d) { a = [a, i] }; kos.collect_garbage(); return a[1]" % src.int(1, 300)))
    return "const x = [[1], {a: \"b\"}]", op, "x", 1


@template
def t_thread(src):
    n = src.int(1, 6)
    op = src.pick(("const t = (fun(x) { return [x] }).async(void, [%d]); return t.wait()" % n, "const t = (fun { throw 5 }).async(); try { t.wait() } catch const e { if typeof e.value != \"integer\" { throw e } return e.value }",
                   "const m = threads.mutex(); with m { return %d }" % n, "const s = threads.semaphore(%d); s.acquire(1); s.release(1); return 1" % n,
                   "const q = threads.queue(); q.push(1, 2, [3]); return [q.pop(), q.pop()]", "const q = threads.stack(); q.push(1, 2, [3]); return q.pop(2)"))
    return "const x = [1]", op, "x", 1


@template
def t_pipe(src):
    op = src.pick(("const p = io.pipe(); p.write.write(\"abc\"); p.write.close(); return p.read.read()", "const p = io.pipe(); return [typeof p.read.info, 1]",
                   "const p = io.pipe(); p.write.write(\"a\\nb\"); p.write.close(); return p.read.read_lines() -> array"))
    return "const x = [1]", op, "io_fds_()", 2


@template
def t_spawn(src):
    op = src.pick(("const p = os.spawn(\"/bin/true\"); return p.wait().status", "const q = io.pipe(); const p = os.spawn(program = \"/bin/echo\", args = [\"a\", \"b\"], env = {A: \"b\"}, stdout = q.write); q.write.close(); p.wait(); return q.read.read()"))
    return "const x = [1]", op, "io_fds_()", 2


NETPORT = """
fun netport_(s) {
    var p = 10000 + integer(datetime.now() % 20000)
    loop { try { s.bind("127.0.0.1", p) ; return p } catch const e { p = p < 31000 ? p + 1 : 10000 } }
}
"""


@template
def t_net(src):
    k = src.below(3)
    if k == 0:
        op = src.pick(("const s = net.socket(net.AF_INET, net.SOCK_STREAM, 0); s.bind(\"127.0.0.1\"); s.listen(); s.close(); return 1",
                       "const s = net.socket(net.AF_INET, net.SOCK_DGRAM, 0); s.bind(\"127.0.0.1\"); return s.getsockopt(net.SOL_SOCKET, net.SO_REUSEADDR)",
                       "const s = net.socket(); s.blocking = false; return s.setsockopt(net.SOL_SOCKET, net.SO_RCVTIMEO, 0.5).blocking",
                       "return [net.getaddrinfo(\"%s\", 80)[0].address, net.getaddrinfo(\"127.0.0.1\", \"%d\")[0].port]" % (src.pick(("1.2.3.4", "1:2::3", "::1:0:0", "::")), src.below(9999))))
        return "const x = [1]", op, "io_fds_()", 2
    if k == 1:
        data = src.pick(("\"abc\"", "buffer([1, 2, 3])", "rep_(200)"))
        op = src.pick(("return u.recvfrom(500).data", "const b = buffer(3) ; u.recv(1000, b) ; return b", "return u.read()", "const r = u.recvfrom() ; return [r.address, r.data, r.port == port]"))
        return NETPORT + "fun rep_(n) { const b = buffer(n) ; b.fill(7) ; return b }\nconst u = net.socket(net.AF_INET, net.SOCK_DGRAM)\nconst port = netport_(u)", "u.sendto(\"127.0.0.1\", port, %s) ; u.wait(5) ; %s" % (data, op), "io_fds_()", 2
    op = src.pick(("return a.address", "return a.socket.blocking", "a.socket.write(\"abc\", buffer(5)) ; return 1", "a.socket.blocking = false ; return a.socket.wait(0) ? 1 : 1", "c.send(\"abc\") ; return 2"))
    return NETPORT + "const l = net.socket()\nconst port = netport_(l)\nl.listen(100)", "with const c = net.socket() { c.connect(\"127.0.0.1\", port) ; const a = l.accept() ; with a.socket { %s } }" % op, "io_fds_()", 2


@template
def t_deep(src):
    """Calls which need more stack at every kind of frame: plain, with captured variables, generators."""
    pad = " ; ".join("const l%d = n" % i for i in range(src.below(24)))
    use = " + 0 * (" + " + ".join("l%d" % i for i in range(pad.count("const"))) + ")" if pad else ""
    fr = {"plain": "fun %%s(n) { %s ; return n ? step(n - 1) + 1%s : 0 }" % (pad, use),
          "closure": "fun %s(n) { const m = n ; const h = () => m ; return m ? step(m - 1) + h() - m + 1 : 0 }",
          "gen": "fun %s(n) { for const x in (fun { yield n ? step(n - 1) + 1 : 0 })() { return x } }",
          "apply": "fun %s(n) { return n ? step.apply(void, [n - 1]) + 1 : 0 }"}
    k = [src.pick(("plain", "closure", "gen", "apply", "plain", "closure")) for _ in range(src.int(2, 4))]
    body = "var step = void\n" + "\n".join(fr[x].replace("{  ; ", "{ ") % ("m%d" % i) for i, x in enumerate(k))
    body += "\nconst ms = [%s]\nstep = fun(n) { return ms[n %% %d](n) }" % (", ".join("m%d" % i for i in range(len(k))), len(k))
    return body, "return step(%d)" % src.int(5, 45), "step(6)", 2


@template
def t_read(src):
    data = "".join(src.pick("ab\n\r\xe9") for _ in range(src.pick((0, 5, 40, 5000))))
    op = src.pick(("with const f = io.open(path) { return f.read_some(%d).size }" % src.pick((1, 100, 9000)), "with const f = io.open(path) { return [f.read_lines(%d)...].size }" % src.pick((1, 10, 5000)), "with const f = io.open(path) { const b = buffer(3) ; f.read_some(%d, b) ; return b.size }" % src.pick((5, 9000)),
                   "with const f = io.open(path) { return [typeof f.size, f.read_line()] }", "with const f = io.open(path) { f.seek(1) ; return f.position }"))
    return "const path = os.getenv(\"KVTMP\") + \"/r\"\nwith const f = io.create(path) { f.write(%s) }" % strlit(data), op, "io_fds_()", 2


@template
def t_show(src):
    op = src.pick(("stringify(b)", "string(b)", "\"\\(b)\"", "string([b, b])", "stringify([x, b, 1.5, -3])", "string({a: b})", "string(x)", "stringify(x)", "string(f)", "string([f, c, void, true])", "stringify({a: [1, {}], b: \"q\\n\"})"))
    return "const b = buffer([%s])\nconst x = %s\nfun f { }\nclass c { }" % (", ".join(str(src.below(128)) for _ in range(src.pick((0, 1, 5, 200)))), lit(g_val(src))), "return " + op, "[b, x]", 1


@template
def t_exec(src):
    op = src.pick(("return kos.execute(\"1 + 2\")", "return kos.execute(\"fun f(a, b = 2, c...) { return [a, b, c] }\\nf(1, 2, 3)\")", "return kos.execute(\"import math\\nmath.abs(-3)\")",
                   "try { kos.execute(\"a b c\") } catch const e { return 1 }", "return kos.execute(\"throw 5\")",
                   "return kos.execute(\"class A { fun x { return super.y } }\\nswitch 5 { case 5 { try { throw 1 } catch const e { e.value } } }\")"))
    return "const x = [1]", op, "x", 1


@template
def t_math(src):
    op = src.pick(("math.max(1, 2, [3].size)", "math.min(5, 2.5)", "math.pow(2, 10)", "math.abs(-1 << 62)", "math.sqrt(2)"))
    return "const x = [1]", "return " + op, "x", 1


@template
def t_re2(src):
    r = src.pick(("(a|b)+(c*)", "(?:x)|y", "([a-cx]|[^b])*", "((a)(b)?)+", "\\\\w+\\\\s*", "a{2,3}(b{1,2})?"))
    s = text(src, 10)
    return "const s = %s" % strlit(s), "const m = re.re(\"%s\").find(s, %d); if typeof m == \"void\" { return 0 } return [m.begin, m.end, m.groups.size]" % (r, src.below(2)), "s", 1


@template
def t_program(src):
    r = None
    for _ in range(3):
        r = kosprog.generate(src, src.pick((kosprog.FLOW, kosprog.DEFER, kosprog.GEN)))
        if r is not None and len(r["exp"]) < 3000:
            break
    else:
        return None
    return ("prog", kosprog.plain(r["kos"]), r["exp"], r["labels"])


STARTUP = [
    "import base.*\nprint(\"hello\")\n",
    "import base.*\nimport io\nimport iter\nimport json\nimport re\nconst x = json.parse(\"[1, {\\\"a\\\": 2}]\")\nprint(x[1].a)\nfun f(n) { if n { throw n } }\ntry { f(3) } catch const e { print(e.value) }\n",
    "import base.*\nprint(1\n",
    "import base.*\nthrow [1, 2]\n",
    "import nosuch\n",
]


class CHECK(engine.Check):
    id = "C08"
    rule = ("an operation in which at least one injected fault made it throw (operations), or a process with at least one fault (start-up); "
            "distinct by the operation and the window of faults")
    flavours = ("dbgf", "asanf")
    batch = 60
    cases = {"quick": 20000, "thorough": 400000}
    assumptions = ("a fault point is a call of kos_seq_fail(); the window of failing points is chosen by a replacement of that function linked into the interpreter",)

    def prepare(self):
        engine.Check.prepare(self)
        self.points = []
        self.plain = []
        d = tempfile.mkdtemp(dir=engine.scratch())
        rep = os.path.join(d, "rep")
        for t in STARTUP:
            r = engine.run_script(self.exe["dbgf"], t, env={"VFAIL_AT": "1000000000", "VFAIL_REPORT": rep}, name="start.kos")
            self.points.append(int(open(rep).read().split()[0]))
            self.plain.append((r.rc, r.out))

    def startup(self, p, at, ln, fl):
        return {"kind": "start", "prog": p, "at": at, "len": ln, "fl": fl}

    def fixed_cases(self):
        cs = []
        quick = engine.TIER == "quick"
        for p, n in enumerate(self.points):
            for at in range(0, n + 3, 1 if p == 0 or not quick else 23):
                if p == 0 or not quick:
                    cs.append(self.startup(p, at, 1, "dbgf"))
                    cs.append(self.startup(p, at, 1 << 40, "dbgf"))
                else:
                    cs.append(self.startup(p, at, (1, 2, 1 << 40)[at % 3], "dbgf"))
                if not quick or at % 7 == engine.SEED % 7:
                    cs.append(self.startup(p, at, (1, 1 << 40)[at // 7 % 2], "asanf"))
        return cs

    def gen(self, src):
        t = src.pick(T)
        r = t(src)
        if r is None:
            return None
        ln = src.pick((1, 1, 1, 2, 3, 8)) if t is not t_cleanup else 1
        if r[0] == "prog":
            return {"kind": "prog", "text": r[1], "exp": r[2], "len": ln, "skip": src.below(1 << 30), "labels": ["program"]}
        return {"kind": "op", "setup": r[0], "op": r[1], "check": r[2], "atomic": r[3], "len": ln, "labels": [t.__name__[2:]]}

    # --- start-up --------------------------------------------------------------------------------
    def eval_start(self, c):
        r = engine.run_script(self.exe[c["fl"]], STARTUP[c["prog"]], env={"VFAIL_AT": str(c["at"]), "VFAIL_LEN": str(c["len"])}, timeout=60)
        rc, out = self.plain[c["prog"]]
        if r.rc not in (0, 1) or r.timeout:
            return engine.Outcome(False, "fault point %d (+%d), %s: %s" % (c["at"], c["len"], c["fl"], kosbatch.why(r)))
        if not out.startswith(r.out):
            return engine.Outcome(False, "fault point %d (+%d), %s: printed %r" % (c["at"], c["len"], c["fl"], r.out[:200]))
        if r.rc == 0 and (rc, out) != (0, r.out):
            return engine.Outcome(False, "fault point %d (+%d), %s: success reported, output %r" % (c["at"], c["len"], c["fl"], r.out[:200]))
        return engine.Outcome(True, "", c["at"] < self.points[c["prog"]], ["start-up"])

    # --- operations ------------------------------------------------------------------------------
    def op_text(self, c):
        return "fault_(fun {\n%s\nreturn [fun {\n%s\n}, ()=>(%s)]\n}, %d, %d, %d)" % (c["setup"], c["op"], c["check"], c["atomic"], c["len"], MAXP[engine.TIER])

    def eval_ops(self, cases):
        outs = [None] * len(cases)
        tmp = tempfile.mkdtemp(dir=engine.scratch())
        mk = [lambda n, c=c: "case_(%d, fun {\nreturn %s\n})\n" % (n, self.op_text(c)) for c in cases]
        for fl in self.flavours:
            res = kosbatch.run_snippets(self.exe[fl], mk, prelude=IMPORTS + PRELUDE, pre=PRE, env={"KVTMP": tmp}, timeout=400, single_timeout=90)
            for i, g in enumerate(res):
                if g is None or outs[i] is not None and not outs[i].ok:
                    continue
                m = re.fullmatch(r"ok (\d+) (\d+) (true|false)", g)
                outs[i] = engine.Outcome(True, "", int(m.group(2)) > 0, cases[i]["labels"]) if m else engine.Outcome(False, "%s: %s" % (fl, g))
        shutil.rmtree(tmp, ignore_errors=True)
        return [o or engine.Outcome(True, "", False) for o in outs]

    # --- programs --------------------------------------------------------------------------------
    def eval_progs(self, cases):
        outs = [None] * len(cases)
        for fl in self.flavours:
            mk = [lambda n, c=c: "progf_(%d, %s, %d, %d)\n" % (n, strlit(c["text"]), c["len"], c["skip"]) for c in cases]
            res = kosbatch.run_snippets(self.exe[fl], mk, prelude="import base.*\nimport kvp.*\nimport kos\nimport os\n", pre=PROGPRE, env=ENV, timeout=400, single_timeout=90)
            for i, g in enumerate(res):
                if g is None or outs[i] is not None and not outs[i].ok:
                    continue
                outs[i] = engine.Outcome(True, "", True, cases[i]["labels"]) if g == cases[i]["exp"] else engine.Outcome(False, "%s: after the faults\nexpected %s\ngot      %s" % (fl, cases[i]["exp"], g))
        return [o or engine.Outcome(True, "", False) for o in outs]

    def evaluate(self, cases):
        outs = [None] * len(cases)
        st = [i for i, c in enumerate(cases) if c["kind"] == "start"]
        if st:
            with ThreadPoolExecutor(8) as ex:
                for i, o in zip(st, ex.map(lambda i: self.eval_start(cases[i]), st)):
                    outs[i] = o
        for kind, f in (("op", self.eval_ops), ("prog", self.eval_progs)):
            ix = [i for i, c in enumerate(cases) if c["kind"] == kind]
            if ix:
                for i, o in zip(ix, f([cases[i] for i in ix])):
                    outs[i] = o
        return outs

    def describe(self, c):
        if c["kind"] == "start":
            return {"start-up of": STARTUP[c["prog"]], "first failing point": c["at"], "failing points": c["len"], "build": c["fl"]}
        if c["kind"] == "prog":
            return {"program": c["text"], "expected_trace": c["exp"], "failing points": c["len"]}
        return {"setup": c["setup"], "operation": c["op"], "state": c["check"], "failing points": c["len"]}
