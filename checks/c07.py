"""Garbage collection is invisible."""
import ast
import json

import engine
import kosbatch
import kosprog
import progcheck

M = 0xFFFFFFFF
KINDS = ("a", "b", "k0", "k1", "k2", "k9", "k20", "k63")


class Fn:
    def __init__(self, f):
        self.f = f


class Heap:
    """Reference model of kosmods/kvh.kos; values are Python ints, floats, str, list, bytearray, dict (objects), Fn."""
    def __init__(self, nroots):
        self.r = [0] * nroots
        self.out = []
        self.work = 0
        self.alloc = 0      # generous estimate of the bytes ever made reachable

    def size(self, v):
        if isinstance(v, list):
            return 100 + 24 * len(v)
        if isinstance(v, (str, bytearray)):
            return 100 + 8 * len(v)
        return 5000

    def tick(self, n=1):
        self.work += n
        if self.work > 60000:
            raise engine.Stop()

    def dig(self, v, d):
        self.tick()
        if v is None:
            return 17
        if isinstance(v, int):
            return (v * 31 + 7) & M
        if isinstance(v, float):
            return (int(v * 8) * 37 + 11) & M
        if isinstance(v, str) or isinstance(v, bytearray):
            s = isinstance(v, str)
            n = len(v)
            h = (n * (131 if s else 137) + (1 if s else 2)) & M
            st = n >> 5 if n > 64 else 1
            for i in range(0, n, st):
                h = (h * 33 + (ord(v[i]) if s else v[i])) & M
            return h
        if isinstance(v, list):
            n = len(v)
            h = (n * 139 + 3) & M
            if d > 0:
                st = n // 6 if n > 12 else 1
                for i in range(0, n, st):
                    h = (h * 33 + self.dig(v[i], d - 1)) & M
            return h
        if isinstance(v, Fn):
            return (self.dig(v.f(), d - 1) * 3 + 19) & M if d > 0 else 23
        h = 29
        if "next" in v:
            n = 0
            while v:
                h = (h * 33 + v["val"]) & M
                n += 1
                v = v["next"]
            self.tick(n)
            return (h + n) & M
        if d > 0:
            for k in KINDS:
                h = (h * 33 + self.dig(v.get(k), d - 1)) & M
            h = (h * 33 + self.dig(v.get("pr"), d - 1)) & M
        return h

    def gen(self, n):
        st = {"i": 0}

        def f():
            if st["i"] >= n:
                raise engine.Stop()
            st["i"] += 1
            return st["i"] - 1
        return f

    def run(self, ops):
        r = self.r
        for op, a, b, c in ops:
            self.tick()
            if op == 0:
                r[a] = [c * i + i for i in range(b)]
                self.tick(b)
            elif op == 1:
                r[a] = {"a": r[b], "b": c}
            elif op == 2:
                if isinstance(r[a], list):
                    r[a].append(r[b])
                elif isinstance(r[a], dict) and "next" not in r[a]:
                    r[a][KINDS[c & 7]] = r[b]
            elif op == 3:
                if isinstance(r[a], str) and len(r[a]) < 20000:
                    r[a] = r[a] + str(c) + (r[b] if isinstance(r[b], str) and len(r[b]) < 20000 else "x")
                else:
                    r[a] = str(c)
            elif op == 4:
                if isinstance(r[a], (str, list, bytearray)):
                    r[b] = r[a][c >> 1:c]
            elif op == 5:
                x = bytearray([c & 255]) * b
                if b:
                    x[b >> 1] = 7
                r[a] = x
            elif op == 6:
                r[a] = Fn(lambda x=r[b]: x)
            elif op == 7:
                g = self.gen(1000)
                for _ in range(c & 31):
                    g()
                r[a] = Fn(g)
            elif op == 8:
                r[a] = None
            elif op == 9:
                self.tick(b // 20)
            elif op == 11:
                if isinstance(r[a], (list, bytearray)):
                    o = len(r[a])
                    v = c if isinstance(r[a], list) else c & 255
                    if b < o:
                        del r[a][b:]
                    else:
                        r[a].extend([v] * (b - o))
            elif op == 12:
                p = None
                for i in range(b):
                    p = {"val": (c + i) & 0xFFFF, "next": p}
                self.tick(b)
                r[a] = p
            elif op == 13:
                o = {"k%d" % k: k * c for k in range(b)}
                for k in range(3, b, 3):
                    del o["k%d" % k]
                self.tick(b)
                r[a] = o
            elif op == 14:
                self.out.append(self.dig(r[a], 4))
            elif op == 15:
                r[a] = {"b": c, "pr": r[b]}
            elif op == 16:
                r[a] = c * 0.25
            elif op == 17:
                r[a] = r[b]
            elif op == 18:
                self.tick(b)
            elif op == 19:
                if isinstance(r[a], list) and isinstance(r[b], list) and len(r[a]) < 5000 and len(r[b]) < 5000:
                    i = c % (len(r[a]) + 1)
                    r[a][i:i] = list(r[b])
            elif op == 20:
                if isinstance(r[a], list) and r[a]:
                    r[b] = r[a].pop()
            elif op == 21:
                r[a] = [r[b], r[a]]
            if op in (12, 13):
                self.alloc += b * (150 if op == 12 else 600)
            if op not in (8, 9, 10, 14, 18, 17):
                self.alloc += self.size(r[a]) + (self.size(r[b]) if op in (4, 20) else 0)
        for x in r:
            self.out.append(self.dig(x, 5))
        return self.out


def churn(name, n, w, p):
    """Reference model of kosmods/kvchurn.kos."""
    first = sum(range(n - w)) if n > w else 0
    if name == "dict":
        return sum(i + len(str(p)) + len(str(i)) for i in range(max(0, n - w), n))
    if name == "dict_same":
        o = {}
        for i in range(n):
            o[i % w] = i
            o.pop((i * p + 1) % w, None)
        return sum(o.values())
    if name == "dict_random":
        o, live, x = {}, [], p + 1
        for i in range(n):
            x = (x * 1103515245 + 12345) & 0x7FFFFFFF
            o[x] = i
            live.append(x)
            if len(live) > w:
                j = (x >> 8) % len(live)
                o.pop(live[j], None)
                last = live.pop()
                if j < len(live):
                    live[j] = last
        return sum(o.values())
    if name == "fields":
        return sum([1] + [i & 3 for i in range(n - 1)]) if n else 0
    if name in ("queue", "lists", "cycles", "queues"):
        return sum(max(0, k - 1) for k in range(n - w)) if name == "lists" else first
    if name == "stack":
        return (n // w) * sum(len(str(j)) for j in range(w))
    if name == "resize":
        return sum((i * p) % w for i in range(n))
    if name == "strings":
        return (n // w) * 2 * w
    if name == "buffers":
        return sum((i * p) % (w * 40 + 1) for i in range(n))
    if name == "closures":
        return sum(i + p for i in range(n - w))
    if name == "generators":
        return sum(range(n)) + sum(i + 1 for i in range(n - w))
    if name in ("exceptions", "asyncs", "jsons", "classes"):
        return sum(range(n))
    if name == "sorts":
        return (n // w) * (w - 1)
    if name == "iterators":
        return (n // w) * p * sum(range(0, w, 2))
    if name == "regexes":
        return n
    if name == "formats":
        return sum(len(str(i)) * 2 + len(" [, {\"a\": }]") + len(str(p)) for i in range(n))
    if name == "big":
        return n * 120 * w
    if name == "applies":
        return sum(i % w for i in range(n))
    if name == "rotate":
        return sum(([*range(w)] + [*range(n)])[:n])
    if name == "substrings":
        return 58 * max(0, n - w)
    assert name == "recursion", name
    return (n // w) * w


CHURN = {"dict": 1, "dict_same": 1, "dict_random": 1, "fields": 1, "queue": 1, "stack": 1, "resize": 1, "strings": 1, "buffers": 1,
         "closures": 1, "generators": 1, "exceptions": 6, "asyncs": 12, "cycles": 1, "sorts": 1, "iterators": 1, "regexes": 6,
         "jsons": 40, "formats": 2, "big": 6, "classes": 2, "applies": 4, "rotate": 4, "substrings": 1, "recursion": 1,
         "lists": 1, "queues": 4}


def g_churn(src):
    name = src.pick(sorted(CHURN))
    w = src.pick([1, 2, 3, 5, 8, 16, 20, 40, 64, 100])
    n = max(w, src.pick([8000, 20000, 30000, 60000]) // CHURN[name] // 4) * 4
    p = src.pick([1, 3, 7, 10, 123, 99991])
    return {"t": "churn", "name": name, "n": n, "w": w, "p": p, "mem": src.pick([8, 12, 16]),
            "exp": [churn(name, n // 4, w, p), churn(name, n, w, p), 0]}


def g_ops(src):
    nr = src.int(2, 8)
    n = src.int(4, 60)
    ops = []
    big = src.below(3)
    for _ in range(n):
        op = src.weighted([(3, 0), (4, 1), (6, 2), (4, 3), (2, 4), (3, 5), (3, 6), (2, 7), (2, 8), (5, 9), (6, 10), (3, 11),
                           (2, 12), (2, 13), (4, 14), (2, 15), (1, 16), (2, 17), (2, 18), (2, 19), (2, 20), (2, 21), (1, 22)])
        a = src.below(nr)
        c = src.below(1000)
        if op in (0, 5, 11, 12, 13, 22):
            b = src.pick([0, 1, 2, 3, 7, 15, 16, 17, 31, 33, 60, 64, 65, 100, 127, 128, 129, 200])
            if big and src.below(3) == 0:
                b = src.int(200, 4000) if op != 13 else src.int(200, 600)
        elif op == 9:
            b = src.pick([1, 10, 100, 1000]) if not big else src.pick([100, 1000, 3000, 20000])
            c = src.pick([8, 10, 16])
        elif op == 18:
            b, c = src.pick([1, 10, 100, 300]), src.pick([10, 500, 5000, 60000])
        else:
            b = src.below(nr)
        ops.append([op, a, b, c])
    return nr, ops


class CHECK(engine.Check):
    id = "C07"
    rule = ("either a heap history containing at least one collection or enough garbage to cause one, and at least one root "
            "holding a container, or a generated program with at least 3 trace events run with a collection at every "
            "allocation or trace event, or a long run of work which makes garbage several times the memory limit while little is "
            "alive; distinct by content")
    flavours = ("dbg", "rel", "mad")
    batch = 24
    cases = {"quick": 6000, "thorough": 120000}
    cap_s = {"quick": 300, "thorough": 3000}
    assumptions = ("the machine's malloc does not fail",)

    def gen(self, src):
        if src.below(25) == 0:
            return g_churn(src)
        if src.below(3) < 2:
            nr, ops = g_ops(src)
            h = Heap(nr)
            exp = h.run(ops)
            return {"t": "heap", "nr": nr, "ops": ops, "exp": exp, "mem": src.pick([8, 12, 16]), "alloc": h.alloc, "work": h.work}
        prof = src.pick([kosprog.FLOW, kosprog.DEFER, kosprog.GEN])
        r = kosprog.generate(src, prof)
        if r is None or r["n"] > 60:
            return None
        return {"t": "prog", "kos": r["kos"], "exp": r["exp"], "n": r["n"]}

    def evaluate(self, cases):
        outs = [None] * len(cases)

        def fail(i, how, got):
            if outs[i] is None:
                outs[i] = engine.Outcome(False, "%s:\nexpected %s\ngot      %s" % (how, cases[i]["exp"], got))

        hs = [i for i, c in enumerate(cases) if c["t"] == "heap"]
        ps = [i for i, c in enumerate(cases) if c["t"] == "prog"]
        cs = [i for i, c in enumerate(cases) if c["t"] == "churn"]
        for fl in ("rel", "dbg") if cs else ():
            for mem in sorted({cases[i]["mem"] for i in cs}):
                idx = [i for i in cs if cases[i]["mem"] == mem]
                mk = [lambda n, c=cases[i]: 'run_churn(%d, "%s", %d, %d, %d)\n' % (n, c["name"], c["n"], c["w"], c["p"]) for i in idx]
                res = kosbatch.run_snippets(self.exe[fl], mk, prelude="import kvchurn.*\n", env=progcheck.ENV,
                                            opts=["-m", str(mem)], timeout=240, single_timeout=120)
                for i, g in zip(idx, res):
                    if g is not None and g != str(cases[i]["exp"]):
                        fail(i, "%s build, -m %d, [value, value, growth of the live memory]" % (fl, mem), g)
        for fl in self.flavours:
            groups = {}
            for i in hs:
                mem = cases[i]["mem"] if fl != "mad" else 32
                if fl == "mad" and (i % 2 or cases[i]["work"] > 500):
                    continue
                groups.setdefault(mem, []).append(i)
            for mem, idx in groups.items():
                mk = [lambda n, c=cases[i]: "run_heap(%d, %d, %s)\n" % (n, c["nr"], json.dumps(self.trim(c["ops"], fl))) for i in idx]
                res = kosbatch.run_snippets(self.exe[fl], mk, prelude="import kvh.*\n", env=progcheck.ENV, opts=["-m", str(mem)],
                                            timeout=120)
                for i, g in zip(idx, res):
                    if g is None:
                        continue
                    try:
                        ok = ast.literal_eval(g) == cases[i]["exp"]
                    except (ValueError, SyntaxError):
                        ok = False
                    if not ok and "out of memory" in g and cases[i]["alloc"] > (mem << 19) // 6:
                        continue        # the live data may really not fit
                    if not ok:
                        fail(i, "%s build, -m %d" % (fl, mem), g)
        if ps:
            texts = [kosprog.plain(cases[i]["kos"]) for i in ps]
            for fl, pre in (("mad", ""), ("dbg", "gc_every_(1)\n"), ("rel", "gc_every_(3)\n")):
                res = progcheck.run_programs(self.exe[fl], texts, pre=pre)
                for i, g in zip(ps, res):
                    if g is not None and g != cases[i]["exp"]:
                        fail(i, "%s build, collection at every %s" % (fl, "allocation" if fl == "mad" else "trace event"), g)
        for i, c in enumerate(cases):
            if outs[i] is None:
                if c["t"] == "heap":
                    nt = any(o[0] in (9, 10, 18) for o in c["ops"]) and any(o[0] in (0, 1, 3, 5, 6, 7, 12, 13, 15) for o in c["ops"])
                    outs[i] = engine.Outcome(True, "", nt, ["heap"] + sorted({"op%d" % o[0] for o in c["ops"]}))
                elif c["t"] == "churn":
                    outs[i] = engine.Outcome(True, "", True, ["churn_" + c["name"]])
                else:
                    outs[i] = engine.Outcome(True, "", c["n"] >= 3, ["prog"])
        return outs

    @staticmethod
    def trim(ops, fl):
        if fl != "mad":
            return ops
        # garbage needs no volume when every allocation collects
        return [[o[0], o[1], min(o[2], 3), o[3]] if o[0] in (9, 18) else o for o in ops]

    def describe(self, c):
        if c["t"] == "churn":
            return {"work": c["name"], "steps": c["n"], "alive": c["w"], "parameter": c["p"], "expected": c["exp"]}
        if c["t"] == "heap":
            return {"roots": c["nr"], "ops": c["ops"], "expected": c["exp"]}
        return {"program": kosprog.plain(c["kos"]), "expected": c["exp"]}
