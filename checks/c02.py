"""Compile-time optimisations are invisible."""
import engine
import kosprog
import progcheck

import c01


class Fold(c01.CHECK):
    fold = True


class CHECK(progcheck.ProgCheck):
    id = "C02"
    rule = ("a terminating generated program producing at least 3 trace events, each run as written (literals visible "
            "to the optimizer) and with every literal hidden behind a call, or an expression of literals and constants, "
            "evaluated by the compiler; all must equal the run-time model; distinct by text")
    profiles = (kosprog.FLOW, kosprog.DEFER, kosprog.GEN, kosprog.DEAD)
    variants = (("dbg", "plain"), ("dbg", "opaque"), ("rel", "plain"))
    cases = {"quick": 100000, "thorough": 900000}

    def gen(self, src):
        if src.below(10) < 4:
            f = Fold()
            k = src.below(6)
            c = f.gen_binary(src) if k < 3 else f.gen_unary(src) if k == 3 else f.gen_chain(src) if k == 4 else f.gen_tree(src)
            return {"fold": c}
        return super().gen(src)

    def evaluate(self, cases):
        outs = [None] * len(cases)
        ix = [i for i, c in enumerate(cases) if "fold" in c]
        if ix:
            f = Fold()
            f.exe = self.exe
            for i, o in zip(ix, f.evaluate([cases[i]["fold"] for i in ix])):
                outs[i] = o
        ip = [i for i, c in enumerate(cases) if "fold" not in c]
        if ip:
            for i, o in zip(ip, super().evaluate([cases[i] for i in ip])):
                outs[i] = o
        return outs

    def describe(self, c):
        if "fold" in c:
            return Fold().describe(c["fold"])
        return super().describe(c)
