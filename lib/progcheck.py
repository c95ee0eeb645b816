"""Checks which run generated programs (kosprog) and compare the trace with the Python model's."""
import os

import engine
import kosbatch
import kosprog
import kosval

ENV = {"KOSPATH": os.path.join(engine.VERIF, "kosmods")}


def run_programs(exe, texts, env=None, opts=(), timeout=120, pre=""):
    """Each text is executed by kos.execute inside one process; returns "trace | outcome" per text."""
    e = dict(ENV)
    e.update(env or {})
    mk = [lambda n, t=t: "prog_(%d, %s)\n" % (n, kosval.strlit(t)) for t in texts]
    return kosbatch.run_snippets(exe, mk, prelude="import kvp.*\nimport kos\n", pre=pre, env=e, opts=opts, timeout=timeout)


class ProgCheck(engine.Check):
    batch = 250
    flavours = ("dbg", "rel")
    profiles = (kosprog.FLOW,)
    variants = (("dbg", "plain"),)
    need = ()           # labels of which at least one makes a case non-trivial
    assumptions = ("Python's own semantics of closures, try/finally and generators is the reference for the modelled subset",)

    def gen(self, src):
        prof = src.pick(self.profiles)
        r = kosprog.generate(src, prof)
        if r is None or len(r["exp"]) > 60000:
            return None
        return {"kos": r["kos"], "exp": r["exp"], "labels": r["labels"], "n": r["n"]}

    def text(self, c, how):
        return kosprog.plain(c["kos"]) if how == "plain" else kosprog.opaque(c["kos"])

    def evaluate(self, cases):
        outs = [None] * len(cases)
        for fl, how in self.variants:
            res = run_programs(self.exe[fl], [self.text(c, how) for c in cases])
            for i, (c, g) in enumerate(zip(cases, res)):
                if g is not None and g != c["exp"] and outs[i] is None:
                    outs[i] = engine.Outcome(False, "%s build, %s form:\nexpected %s\ngot      %s" % (fl, how, c["exp"], g))
        for i, c in enumerate(cases):
            if outs[i] is None:
                outs[i] = engine.Outcome(True, "", c["n"] >= 3 and (not self.need or any(l in c["labels"] for l in self.need)), c["labels"])
        return outs

    def describe(self, c):
        return {"program": kosprog.plain(c["kos"]), "expected_trace": c["exp"]}
