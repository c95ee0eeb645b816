"""Histories of library calls: every step is a Kos expression and its expected canonical result.

A case is built by a subclass's build(seq, src): seq.do(text, value) adds a step which must produce the model's value,
seq.do(text, THROWS) a step which must throw, seq.do(text, ANY) one whose result is not compared,
seq.stmt(text) a statement without result.  All steps of a case run in one Kos function.
"""
import engine
import kosbatch
import kosval

THROWS = object()
ANY = object()


class OneOf:
    def __init__(self, *vals):
        self.vals = vals


PRE = r"""
fun S_(o, f) {
    var r = void
    try { r = show_(f()) } catch const e { r = "E" }
    o.push(r)
}
fun join_(o) {
    const p = []
    for const x in o {
        p.push(x)
        p.push(" ")
    }
    return string(p...)
}
"""


class Seq:
    def __init__(self):
        self.lines = []
        self.exp = []
        self.labels = set()
        self.nt = False
        self.head = []

    def stmt(self, text):
        self.lines.append(text)

    def do(self, text, want):
        self.lines.append("S_(o_, ()=>(%s))" % text)
        if want is THROWS:
            self.exp.append(["E"])
        elif want is ANY:
            self.exp.append(None)
        elif isinstance(want, OneOf):
            self.exp.append(["E" if v is THROWS else kosval.canon(v) for v in want.vals])
        else:
            self.exp.append([kosval.canon(want)])

    def raw(self, text, canon):
        self.lines.append("S_(o_, ()=>(%s))" % text)
        self.exp.append([canon])

    def case(self):
        return {"lines": self.lines, "exp": self.exp, "labels": sorted(self.labels), "nt": self.nt}


class SeqCheck(engine.Check):
    batch = 200
    flavours = ("dbg", "asan")
    prelude = kosval.PRELUDE
    pre = ""
    env = None
    opts = ()
    timeout = 90

    def run_kw(self):
        return None

    def build(self, q, src):
        raise NotImplementedError

    def gen(self, src):
        q = Seq()
        if self.build(q, src) is False or not q.exp:
            return None
        return q.case()

    def text(self, c):
        return "\n    ".join(c["lines"])

    def compare(self, c, fl, g):
        """-> None or text of the mismatch"""
        if g.startswith("!"):
            return "%s: interpreter failed: %s" % (fl, g[1:])
        got = g.split(" ")
        if got and got[-1] == "":
            got.pop()
        steps = [l for l in c["lines"] if l.startswith("S_(o_")]
        for i, want in enumerate(c["exp"]):
            have = got[i] if i < len(got) else "(missing: %s)" % g[-300:]
            if want is not None and have not in want:
                return "%s: step %d: %s\n  expected %s\n  got      %s" % (fl, i + 1, steps[i][12:-1], " or ".join(want), have)
        if len(got) != len(c["exp"]):
            return "%s: %d results instead of %d: %s" % (fl, len(got), len(c["exp"]), g[-300:])
        return None

    def evaluate(self, cases):
        outs = [None] * len(cases)
        mk = [lambda n, c=c: "case_(%d, fun {\n    const o_ = []\n    %s\n    return join_(o_)\n})\n" % (n, self.text(c)) for c in cases]
        for fl in self.flavours:
            res = kosbatch.run_snippets(self.exe[fl], mk, prelude=self.prelude, pre=PRE + self.pre, env=self.env, opts=self.opts, timeout=self.timeout, run_kw=self.run_kw())
            for i, (c, g) in enumerate(zip(cases, res)):
                if g is None or outs[i] is not None:
                    continue
                m = self.compare(c, fl, g)
                if m:
                    outs[i] = engine.Outcome(False, m)
            if any(o is not None and "TIMEOUT" in o.detail for o in outs):
                break
        for i, c in enumerate(cases):
            if outs[i] is None:
                outs[i] = engine.Outcome(True, "", c["nt"], c["labels"])
        return outs

    def describe(self, c):
        return {"steps": c["lines"], "expected": ["anything" if e is None else " or ".join(e) for e in c["exp"]]}
