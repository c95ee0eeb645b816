"""Threads: async calls, mutex, semaphore, queue, stack, and containers shared by threads."""
import engine
import kosbatch
import kosval
from kosseq import SeqCheck, THROWS, ANY, OneOf, PRE
from kosval import VOID, lit

LIB = """
fun spawn_(n, f) {
    const ts = []
    for const i in range(n) { ts.push(async f(i)) }
    return ts
}
fun all_(ts) {
    const r = []
    for const t in ts { r.push(t.wait()) }
    return r
}
fun jit_(k) {   # perturbs the schedule
    switch k & 7 {
        case 0 { threads.sleep(0) }
        case 1 { threads.sleep(0.00002) }
        case 2 { for const i in range(k & 31) { } }
        case 3 { [range(k & 63)...] }
    }
}
# every element once; elements of one producer in order, if ordered
fun merged_(logs, np, n, ordered) {
    const seen = [array(np * n, 0)...]
    for const log in logs {
        const last = [array(np, -1)...]
        for const v in log {
            const p = v / n
            seen[v] += 1
            if ordered && v % n <= last[p] { return ["order", v] }
            last[p] = v % n
        }
    }
    for const i in range(seen.size) { if seen[i] != 1 { return ["count", i, seen[i]] } }
    return "ok"
}
"""


class CHECK(SeqCheck):
    id = "C19"
    rule = "at least two threads running at the same time, or a history of at least 5 operations on one synchronisation object; distinct by the steps"
    batch = 24
    flavours = ("rel", "asan")
    prelude = "import threads\n" + kosval.PRELUDE + LIB
    cases = {"quick": 12000, "thorough": 300000}
    timeout = 60
    retries = 8

    def build(self, q, src):
        k = src.weighted(((3, "mutex"), (2, "sem-region"), (2, "sem-signal"), (3, "queue"), (2, "stack"), (3, "async"), (4, "shared"), (1, "gc"), (5, "seq"), (1, "foreign")))
        q.labels.add(k)
        getattr(self, "g_" + k.replace("-", "_"))(q, src)
        return True

    def g_mutex(self, q, src):
        t, n, j = 2 + src.below(6), 5 + src.below(60), src.below(64)
        q.nt = True
        q.stmt("const m = threads.mutex()")
        q.stmt("var v = 0; var inside = 0; var most = 0")
        body = "inside += 1; if inside > most { most = inside }; const c = v; jit_(i * 7 + %d); v = c + 1; inside -= 1" % j
        way = src.below(3)
        if way == 0:
            step = "with m { %s }" % body
        elif way == 1:
            step = "m.acquire(); %s; m.release()" % body
        else:
            step = "try { with m { %s; if i %% 3 == 0 { throw i } } } catch const e { }" % body
        q.stmt("const ts = spawn_(%d, fun(p) { for const i in range(%d) { %s } return p * 10 })" % (t, n, step))
        if src.bool(1, 3):
            q.labels.add("main-too")
            q.stmt("for const i in range(%d) { %s }" % (n, step))
            q.do("all_(ts)", [p * 10 for p in range(t)])
            q.do("[v, most, inside]", [(t + 1) * n, 1, 0])
        else:
            q.do("all_(ts)", [p * 10 for p in range(t)])
            q.do("[v, most, inside]", [t * n, 1, 0])

    def g_foreign(self, q, src):
        # release() by a thread which does not hold the mutex does nothing
        q.nt = True
        q.stmt("const m = threads.mutex()")
        q.stmt("var v = 0")
        if src.bool():
            q.do("m.release() == m", True)
            q.do("m.release() == m", True)
        q.stmt("m.acquire()")
        q.do("(async (() => m.release() == m)()).wait()", True)
        q.stmt("const t = async do { with m { v += 1 } }")
        q.stmt("threads.sleep(%s)" % src.pick(("0.002", "0.01", "0.001")))
        q.do("v", 0)
        q.stmt("m.release()")
        q.do("t.wait()", VOID)
        q.do("v", 1)

    def g_sem_region(self, q, src):
        k, t, n, j = 1 + src.below(3), 2 + src.below(6), 5 + src.below(40), src.below(64)
        q.nt = True
        q.stmt("const s = threads.semaphore(%d)" % k)
        q.stmt("const m = threads.mutex()")
        q.stmt("var v = 0; var inside = 0; var most = 0")
        step = "with s { with m { inside += 1; if inside > most { most = inside } }; jit_(i * 5 + %d); with m { inside -= 1; v += 1 } }" % j
        q.do("all_(spawn_(%d, fun(p) { for const i in range(%d) { %s } return p }))" % (t, n, step), list(range(t)))
        q.do("[v, most <= %d, inside, s.value]" % k, [t * n, True, 0, k])

    def g_sem_signal(self, q, src):
        t, n = 1 + src.below(6), 3 + src.below(40)
        init = src.pick((0, 0, 1, 5))
        acq = [[src.pick((1, 1, 1, 2, 3, 5)) for _ in range(n)] for _ in range(t)]
        total = sum(map(sum, acq))
        extra = src.below(4)
        # nothing is released beyond what the threads need plus extra; counts above 1 are taken piecewise, so only the sum matters
        rel = []
        left = max(0, total + extra - init)
        while left:
            r = min(left, src.pick((1, 1, 2, 3, 7, 20)))
            rel.append(r)
            left -= r
        q.nt = True
        q.stmt("const s = threads.semaphore(%d)" % init)
        q.stmt("const acq = %s" % lit(acq))
        q.stmt("const ts = spawn_(%d, fun(p) { for const c in acq[p] { if c == 1 { s.acquire() } else { s.acquire(c) }; jit_(c * 3 + p) } return p })" % t)
        q.stmt("for const r in %s { if r == 1 { s.release() } else { s.release(r) }; jit_(r + %d) }" % (lit(rel), src.below(64)))
        q.do("all_(ts)", list(range(t)))
        q.do("s.value", init + sum(rel) - total)

    def g_queue(self, q, src, kind="queue"):
        np_, nc, n = 1 + src.below(4), 1 + src.below(4), src.pick((5, 20, 60, 200))
        total = np_ * n
        chunk = [src.pick((1, 1, 2, 3, 10)) for _ in range(4)]
        takes = [src.pick((0, 0, 1, 2, 3, 7)) for _ in range(4)]     # 0: pop(), k: pop(k)
        if kind == "stack":
            pass
        q.nt = True
        q.stmt("const c = threads.%s()" % kind)
        q.stmt("const chunk = %s" % lit(chunk))
        q.stmt("const take = %s" % lit(takes))
        share = [total // nc] * nc
        share[0] += total - sum(share)
        if nc > 1:
            d = src.below(share[1] + 1)
            share[0] += d
            share[1] -= d
        # several threads taking more than one at a time could starve each other: only one of them may
        q.stmt("const share = %s" % lit(share))
        q.stmt("""const cons = fun(p) {
        const log = []
        var left = share[p]
        var i = 0
        while left {
            const k = p == 0 ? take[i & 3] : 0
            i += 1
            if k && k <= left { for const v in c.pop(k) { log.push(v) }; left -= k }
            else { log.push(c.pop()); left -= 1 }
            jit_(left + %d)
        }
        return log
    }""" % src.below(64))
        q.stmt("""const prod = fun(p) {
        var i = 0
        var j = 0
        while i < %d {
            const k = [chunk[j & 3], %d - i] -> sort
            j += 1
            const xs = [range(p * %d + i, p * %d + i + k[0])...]
            if k[0] == 1 { c.push(xs[0]) } else { c.push(xs...) }
            i += k[0]
            jit_(i + %d)
        }
        return p
    }""" % (n, n, n, n, src.below(64)))
        first, second = ("cons", nc), ("prod", np_)
        if src.bool():
            first, second = second, first
        q.stmt("const t1 = spawn_(%d, %s)" % (first[1], first[0]))
        q.stmt("const t2 = spawn_(%d, %s)" % (second[1], second[0]))
        cons, prod = ("t1", "t2") if first[0] == "cons" else ("t2", "t1")
        q.do("all_(%s)" % prod, list(range(np_)))
        q.do("merged_(all_(%s), %d, %d, %s)" % (cons, np_, n, "true" if kind == "queue" else "false"), "ok")
        q.do("c.size", 0)

    def g_stack(self, q, src):
        self.g_queue(q, src, "stack")

    def g_async(self, q, src):
        q.nt = True
        n = 1 + src.below(5)
        q.stmt("const o = {x: 5, f: fun(a, b = 7, r...) { return [this.x, a, b, r] }}")
        exprs = []
        for i in range(n):
            a, b = src.int(-9, 9), src.pick(("s", 1.5, VOID, [1]))
            j = src.below(64)
            exprs.append(src.pick((
                ("async o.f(%d)" % a, [5, a, 7, []]),
                ("async o.f(%d, %s, 1, 2)" % (a, lit(b)), [5, a, b, [1, 2]]),
                ("o.f.async({x: 1}, [%d, %s])" % (a, lit(b)), [1, a, b, []]),
                ("o.f.async({x: %s}, [%d])" % (lit(b), a), [b, a, 7, []]),
                ("async (x => x * 2)(%d)" % a, a * 2),
                ("async %d -> (x => [x])" % a, [a]),
                ("async do { jit_(%d) }" % j, VOID),
                ("async (fun { jit_(%d); return %s })()" % (j, lit(b)), b),
                ("async (fun { jit_(%d); throw %s })()" % (j, lit(b)), THROWS),
                ("async (fun { const t = async (() => %d)(); return t.wait() + 1 })()" % a, a + 1),
                ("async (fun { const t = async (fun { throw %d })(); try { t.wait() } catch const e { return e.value } })()" % a, a),
                ("async (fun { return [range(%d)...].size })()" % (a + 9), a + 9),
                ("async o.f()", None),
            )))
        ex = []
        for i, (t, w) in enumerate(exprs):
            if w is None:
                # a missing argument is reported by the thread
                q.stmt("const t%d = async (fun(z, y) { return [z, y] })(1)" % i)
                w = THROWS
            else:
                q.stmt("const t%d = %s" % (i, t))
            ex.append((i, w))
        if src.bool():
            ex = ex[::-1]
        for i, w in ex:
            k = src.below(4)
            if k == 0:
                # several threads wait for it: exactly one gets the result
                q.labels.add("wait-race")
                q.do("(fun { var got = 0; var err = 0; var val = void; for const r in all_(spawn_(3, fun(p) { try { return [t%d.wait()] } catch const e { "
                     "return typeof e.value == \"string\" && e.value == \"thread already joined\" ? void : \"E\" } })) "
                     "{ if r == void { err += 1 } else { got += 1; val = r } }; return [got, err, val] })()" % i, ANY if w is THROWS else [1, 2, [w]])
            elif w is THROWS:
                q.do("t%d.wait()" % i, THROWS)
            else:
                q.do("t%d.wait()" % i, w)
            q.do("t%d.wait()" % i, THROWS)
        q.do("t0 instanceof thread", True)

    def g_shared(self, q, src):
        q.nt = True
        k = src.below(7)
        t, n, j = 2 + src.below(5), src.pick((10, 40, 150, 400)), src.below(64)
        q.labels.add("shared%d" % k)
        ids = list(range(t))
        if k == 0:
            # properties of one object set, read and deleted by several threads, each with keys of its own
            q.stmt("const o = {}")
            q.do("all_(spawn_(%d, fun(p) { var bad = 0; for const i in range(%d) { const key = \"k\\(p)_\\(i)\"; o[key] = p * 1000 + i; if i & 1 { delete o[key] } else { if o[key] != p * 1000 + i { bad += 1 } } jit_(i + %d) } return bad }))" % (t, n, j), [0] * t)
            q.do("[shallow(o)...].size", t * ((n + 1) // 2))
            q.do("(fun { var bad = 0; for const p in range(%d) { for const i in range(0, %d, 2) { if o[\"k\\(p)_\\(i)\"] != p * 1000 + i { bad += 1 } } } return bad })()" % (t, n), 0)
        elif k == 1:
            # elements of one array written by several threads, each at places of its own
            q.stmt("const a = [array(%d, -1)...]" % (t * n))
            q.do("all_(spawn_(%d, fun(p) { var bad = 0; for const i in range(%d) { const at = i * %d + p; a[at] = at; if a[at] != at { bad += 1 } jit_(i + %d) } return bad }))" % (t, n, t, j), [0] * t)
            q.do("a == [range(%d)...]" % (t * n), True)
        elif k == 2:
            # buffers
            q.stmt("const b = buffer(%d)" % (t * n))
            q.do("all_(spawn_(%d, fun(p) { var bad = 0; for const i in range(%d) { const at = i * %d + p; b[at] = at & 0xFF; if b[at] != at & 0xFF { bad += 1 } } return bad }))" % (t, n, t), [0] * t)
            q.do("(fun { var bad = 0; for const i in range(b.size) { if b[i] != (i & 0xFF) { bad += 1 } } return bad })()", 0)
        elif k == 3:
            # readers see either of the values ever stored, never anything else
            q.stmt("const o = {v: 0, w: \"x0\"}")
            q.stmt("const a = [0, \"x0\"]")
            q.do("all_(spawn_(%d, fun(p) { var bad = 0; for const i in range(%d) { if p & 1 { o.v = i; o.w = \"x\\(i)\"; a[0] = i; a[1] = \"x\\(i)\" } "
                 "else { for const v in [o.v, a[0]] { if typeof v != \"integer\" || v < 0 || v >= %d { bad += 1 } } for const w in [o.w, a[1]] { if w[0] != \"x\" || w.size < 2 { bad += 1 } } } jit_(i + %d) } return bad }))" % (t, n, n, j), [0] * t)
        elif k == 4:
            # captured variables and module-level objects; interned strings and new properties of separate objects
            q.stmt("const l = [array(%d, void)...]" % t)
            q.do("all_(spawn_(%d, fun(p) { const o = {}; for const i in range(%d) { o[\"s\\(i)\"] = i; l[p] = o } var s = 0; for const key, v in o { if key != \"s\\(v)\" { return -1 } s += v } return s }))" % (t, n), [n * (n - 1) // 2] * t)
            q.do("l -> map(o => [shallow(o)...].size) -> reduce(_ => 0, 0) == void" if False else "[(l -> map(o => [shallow(o)...].size))...]", [n] * t)
        elif k == 5:
            # generators and regular library code, separate instances in each thread
            q.do("all_(spawn_(%d, fun(p) { const g = (fun { for const i in range(%d) { yield i * p } })(); var s = 0; for const x in g { s += x; jit_(x + %d) } return s }))" % (t, n, j), [p * n * (n - 1) // 2 for p in ids])
            q.do("all_(spawn_(%d, fun(p) { return [range(%d)...] -> sort(x => -x) -> filter(x => (x & 3) == p) -> reduce((a, b) => a + b, 0) }))" % (t, n) if False else
                 "all_(spawn_(%d, fun(p) { return reduce((a, b) => a + b, 0, filter(x => (x & 3) == p, sort(x => -x, range(%d)))) }))" % (t, n), [sum(x for x in range(n) if x & 3 == p) for p in ids])
        else:
            # pushes to one array
            q.stmt("const a = []")
            q.stmt("const m = threads.mutex()")
            q.do("all_(spawn_(%d, fun(p) { for const i in range(%d) { with m { a.push(p * %d + i) } jit_(i + %d) } return p }))" % (t, n, n, j), ids)
            q.do("merged_([a], %d, %d, true)" % (t, n), "ok")

    def g_gc(self, q, src):
        q.nt = True
        t, n = 2 + src.below(4), 20 + src.below(80)
        q.stmt("var stop = false")
        q.stmt("const g = async (fun { var c = 0; loop { kos.collect_garbage(); c += 1; if stop { break } threads.sleep(0) } return c })()")
        q.do("all_(spawn_(%d, fun(p) { const keep = []; for const i in range(%d) { keep.push({a: i, b: \"\\(p)_\\(i)\", c: [i, [p]]}); buffer(1000); } "
             "var bad = 0; for const i in range(%d) { const o = keep[i]; if o.a != i || o.b != \"\\(p)_\\(i)\" || o.c[1][0] != p { bad += 1 } } return bad }))" % (t, n, n), [0] * t)
        q.stmt("stop = true")
        q.do("g.wait() > 0", True)

    def g_seq(self, q, src):
        """one thread: the object against its model"""
        kind = src.pick(("semaphore", "queue", "stack"))
        q.labels.add("seq-" + kind)
        n = 3 + src.below(25)
        q.nt = n >= 5
        if kind == "semaphore":
            v = src.pick((0, 1, 5, 0x7FFFFFFF))
            q.stmt("const s = threads.semaphore(%s)" % ("" if v == 0 and src.bool() else str(v)))
            for _ in range(n):
                w = src.below(6)
                if w < 2 and v:
                    c = src.pick((1, min(v, 3), v))
                    q.do("s.acquire(%s) == s" % ("" if c == 1 and src.bool() else c), True)
                    v -= c
                elif w < 4:
                    c = src.pick((1, 2, 10, 0x7FFFFFFF - v, 0x7FFFFFFF, 1 << 20))
                    if c < 1 or v + c > 0x7FFFFFFF:
                        q.do("s.release(%d)" % c, THROWS)
                    else:
                        q.do("s.release(%s) == s" % ("" if c == 1 and src.bool() else c), True)
                        v += c
                elif w == 4:
                    q.do("s.%s(%s)" % (src.pick(("acquire", "release")), src.pick(("0", "-1", "0x8000_0000", "1 << 40", "\"1\"", "[]"))), THROWS)
                else:
                    q.do("threads.semaphore(%s)" % src.pick(("-1", "0x8000_0000", "\"1\"", "1 << 32")), THROWS)
                q.do("s.value", v)
            return
        xs = []
        q.stmt("const c = threads.%s()" % kind)
        num = 0
        for _ in range(n):
            if src.bool(11, 20) or not xs:
                k = src.pick((0, 1, 1, 2, 5, 40))
                new = [src.pick((num + i, "s%d" % (num + i), VOID)) for i in range(k)]
                num += k
                q.do("c.push(%s) == c" % src.pick((", ".join(lit(x) for x in new), "%s..." % lit(new))), True)
                xs += new
            else:
                k = src.pick((None, None, 1, 2, len(xs), len(xs) // 2))
                if k is not None and k > len(xs):
                    k = len(xs)
                if k == 0:
                    q.do("c.pop(0)", VOID)
                elif k is None:
                    q.do("c.pop()", xs[0] if kind == "queue" else xs[-1])
                    xs = xs[1:] if kind == "queue" else xs[:-1]
                else:
                    q.do("c.pop(%d)" % k, xs[:k] if kind == "queue" else xs[-k:])
                    xs = xs[k:] if kind == "queue" else xs[:-k]
            q.do("c.size", len(xs))

    def evaluate(self, cases):
        """A crash or hang which a case alone does not repeat is still a violation."""
        outs = SeqCheck.evaluate(self, cases)
        return outs

    def fixed_cases(self):
        import kosseq
        q = kosseq.Seq()
        q.nt = True
        q.labels = {"misc"}
        q.do("threads.sleep(math.nan)", THROWS)
        q.do("threads.sleep(-0.5)", THROWS)
        q.do("threads.sleep(0)", VOID)
        q.do("thread()", THROWS)
        q.do("(fun { const l = []; const t = async (fun { while l.size == 0 { threads.sleep(0) }; return l[0].wait() })(); l.push(t); return t.wait() })()", THROWS)
        # as many threads as there may be, and one too many
        q.do("(fun { const s = threads.semaphore(); const ts = []; var err = void; try { for const i in range(100) { ts.push(async s.acquire()) } } catch const e { err = e.value } s.release(100); all_(ts); return [ts.size, err] })()", [32, "too many threads"])
        q.do("all_(spawn_(5, fun(p) { return p }))", [0, 1, 2, 3, 4])
        return [q.case()]
