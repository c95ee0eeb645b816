"""Numeric and scalar operators compute exactly the documented result in every syntactic form."""
import engine
import kosval
import kosops
import kosbatch
from kosval import lit, canon, VOID
from kosops import Throw

OPS = kosops.ARITH + kosops.BITS + kosops.CMP
COMPOUND = kosops.ARITH + kosops.BITS
UN = ("-", "~", "!", "typeof", "+")

PRE = "fun id_(x) { return x }\n"


def g_operand(src, op):
    if op in kosops.BITS:
        k = src.below(8)
        if k < 5:
            return kosops.g_int(src)
        if k < 7:
            v = kosops.g_float(src)
            return v if v == v else 2.5
        return src.pick([VOID, True, False, "1"])
    if op in kosops.ARITH:
        k = src.below(16)
        if k < 8:
            return kosops.g_int(src)
        if k < 14:
            return kosops.g_float(src)
        if k == 14:
            return kosops.g_str(src)
        return src.pick([VOID, True, False, "", "1"])
    return kosops.g_scalar(src)


def relit(src, v):
    """A literal spelling of v (hex, binary, digit separators, exponent)."""
    if kosops.isint(v) and v >= 0:
        k = src.below(5)
        if k == 1:
            return "0x%x" % v
        if k == 2:
            return "0b" + bin(v)[2:]
        if k == 3 and v > 999:
            s = str(v)
            return s[:-3] + "_" + s[-3:]
        if k == 4:
            return "0X%X" % v
    return lit(v)


class CHECK(engine.Check):
    id = "C01"
    rule = ("an operator application whose operands are not both in -1..10, or which throws, wraps, mixes types, "
            "or is part of a chain/tree with at least two operators; distinct by operator, form and operands")
    fold = False        # only forms the compiler can evaluate
    flavours = ("dbg", "rel")
    batch = 400
    cases = {"quick": 800000, "thorough": 20000000}
    assumptions = ("IEEE-754 double arithmetic and fmod of the platform's libm equal Python's",
                   "NaN converted to integer is outside the documented domain and not generated",
                   "unary plus applied to a non-number is left open by the implementation (TODO in the source)")

    # ---- generation
    def gen(self, src):
        k = src.below(10)
        if k < 6:
            return self.gen_binary(src)
        if k == 6:
            return self.gen_unary(src)
        if k < 8:
            return self.gen_chain(src)
        return self.gen_tree(src)

    def gen_unary(self, src):
        op = src.pick(UN)
        v = g_operand(src, "&" if op == "~" else "-" if op in "+-" else "==")
        if op == "+" and not kosops.isnum(v):
            v = 5
        form = src.pick((1, 3)) if self.fold else src.below(4)
        L = relit(src, v)
        if form == 0:
            e = "%s(id_(%s))" % (op, L)
        elif form == 1:
            e = "%s(%s)" % (op, L)
        elif form == 2:
            e = "(fun(a) { return %s a })(%s)" % (op, L)
        else:
            e = "(fun { const a = %s; return %s a })()" % (L, op)
        try:
            exp = canon(kosops.unary(op, v))
        except Throw:
            exp = "E"
        return {"e": e, "x": exp, "lit": form in (1, 3), "k": "un" + op, "nt": True}

    def gen_binary(self, src):
        op = src.pick(OPS)
        a = g_operand(src, op)
        b = g_operand(src, op)
        if op in ("<<", ">>", ">>>") and src.bool(2, 3):
            b = src.int(-70, 70)
        if op in kosops.CMP:
            r = src.below(4)
            if r == 0:
                b = a
            elif r == 1 and kosops.isint(a):
                try:
                    b = float(a)
                except OverflowError:
                    pass
            elif r == 2 and kosops.isint(a):
                b = max(kosval.I64MIN, min(kosval.I64MAX, a + src.int(-2, 2)))
            if op not in ("==", "!="):
                if not ((kosops.isnum(a) and kosops.isnum(b)) or type(a) is type(b)):
                    b = a
        A = relit(src, a)
        B = relit(src, b)
        if self.fold:
            form = src.pick((1, 4, 5)) if op in kosops.CMP else src.pick((1, 4, 5, 15))
        elif op in kosops.CMP:
            form = src.below(10)
        else:
            form = src.below(16)
            if form >= 6 and form <= 8:
                form = src.pick([0, 1, 2])
        lf = False
        if form == 0:
            e = "(fun(a, b) { return a %s b })(%s, %s)" % (op, A, B)
        elif form == 1:
            e, lf = "%s %s %s" % (A, op, B), True
        elif form == 2:
            e = "(fun(a) { return a %s %s })(%s)" % (op, B, A)
        elif form == 3:
            e = "(fun(b) { return %s %s b })(%s)" % (A, op, B)
        elif form == 4:
            e, lf = "(fun { const a = %s; const b = %s; return a %s b })()" % (A, B, op), True
        elif form == 5:
            e, lf = "(fun { var a = %s; var b = %s; return a %s b })()" % (A, B, op), True
        elif form == 6:
            e = "(fun(a, b) { if a %s b { return true } return false })(%s, %s)" % (op, A, B)
        elif form == 7:
            e = "(fun(a, b) { return ! (a %s b) ? false : true })(%s, %s)" % (op, A, B)
        elif form == 8:
            e = "(fun(a, b) { while a %s b { return true } return false })(%s, %s)" % (op, A, B)
        elif form == 9:
            e = "(fun(a, b) { return (()=>(a %s b))() })(%s, %s)" % (op, A, B)
        elif form == 10:
            e = "(fun(a, b) { a %s= b; return a })(%s, %s)" % (op, A, B)
        elif form == 11:
            e = "(fun(a, b) { const x = [0, a]; x[1] %s= b; return x[1] })(%s, %s)" % (op, A, B)
        elif form == 12:
            e = "(fun(a, b) { const x = { p: a }; x.p %s= b; return x.p })(%s, %s)" % (op, A, B)
        elif form == 13:
            e = "(fun(a, b) { const f = fun { a %s= b }; f(); return a })(%s, %s)" % (op, A, B)
        elif form == 14:
            e = "(fun(a) { a %s= %s; return a })(%s)" % (op, B, A)
        else:
            e, lf = "(fun { var a = %s; a %s= %s; return a })()" % (A, op, B), True
        try:
            exp = canon(kosops.binary(op, a, b))
        except Throw:
            exp = "E"
        small = all(kosops.isint(v) and -1 <= v <= 10 for v in (a, b))
        # a literal operand of a type the operator can never accept is rejected at compile time
        wrongtype = not all(kosops.isnum(v) for v in (a, b))
        return {"e": e, "x": exp, "lit": lf or (exp == "E"), "k": "bin%s/%d" % (op, form), "nt": not small or exp == "E"}

    def gen_chain(self, src):
        """Flat arithmetic chain: * / % bind tighter than + -, all left-associative."""
        n = src.int(2, 6)
        vals = []
        for _ in range(n + 1):
            vals.append(kosops.g_int(src) if src.bool(2, 3) else kosops.g_float(src, False))
        ops = [src.pick(kosops.ARITH) for _ in range(n)]
        form = src.below(3)
        try:
            out = []
            cur = vals[0]
            pend = []
            for o, v in zip(ops, vals[1:]):
                if o in "*/%":
                    cur = kosops.arith(o, cur, v)
                else:
                    pend.append((cur, o))
                    cur = v
            terms = [p[0] for p in pend] + [cur]
            acc = terms[0]
            for (_, o), t in zip(pend, terms[1:]):
                acc = kosops.arith(o, acc, t)
            exp = canon(acc)
        except Throw:
            exp = "E"
        names = ["p%d" % i for i in range(n + 1)]
        if form == 0:
            toks = names
        elif form == 1:
            toks = [lit(v) for v in vals]
        else:
            toks = [names[i] if src.bool() else lit(vals[i]) for i in range(n + 1)]
        s = toks[0]
        for o, t in zip(ops, toks[1:]):
            s += " " + o + " " + t
        e = "(fun(%s) { return %s })(%s)" % (", ".join(names), s, ", ".join(lit(v) for v in vals))
        return {"e": e, "x": exp, "lit": exp == "E", "k": "chain", "nt": True}

    def gen_tree(self, src):
        params = []

        def leaf():
            v = kosops.g_scalar(src)
            if src.bool():
                params.append(v)
                return "p%d" % (len(params) - 1), v, False
            t = lit(v)
            return t, v, not (isinstance(v, float) and "_" in t)

        state = {"bad": False}

        def ev(f, const):
            try:
                return f()
            except Throw:
                if const:
                    state["bad"] = True
                return Throw

        def node(d):
            """-> (text, value or Throw, const)"""
            if d == 0 or src.below(5) == 0:
                return leaf()
            k = src.below(8)
            if k < 4:
                op = src.pick(OPS)
                if src.below(3) == 0:
                    op = src.pick(("&&", "||"))
                a = node(d - 1)
                b = node(d - 1)
                t = "(%s %s %s)" % (a[0], op, b[0])
                c = a[2] and b[2]
                for x, y in ((a, b), (b, a)):
                    # a constant of a type the operator never accepts is rejected at compile time
                    if x[2] and x[1] is not Throw and op not in ("&&", "||") and op not in kosops.CMP:
                        if not kosops.isnum(x[1]) or y[2]:
                            state["bad"] |= not kosops.isnum(x[1]) or y[1] is Throw
                        if op in kosops.BITS and isinstance(x[1], float):
                            state["bad"] = True
                if a[1] is Throw:
                    return t, Throw, c
                if op == "&&":
                    return t, (b[1] if kosops.truthy(a[1]) else a[1]), c or (a[2] and not kosops.truthy(a[1])) or b[2]
                if op == "||":
                    return t, (a[1] if kosops.truthy(a[1]) else b[1]), c or a[2] or b[2]
                if b[1] is Throw:
                    return t, Throw, c
                if op in kosops.BITS and any(isinstance(x[1], float) and x[1] != x[1] for x in (a, b)):
                    return "(%s == %s)" % (a[0], b[0]), kosops.compare("==", a[1], b[1]), False
                if op in ("<", "<=", ">", ">=") and not ((kosops.isnum(a[1]) and kosops.isnum(b[1])) or type(a[1]) is type(b[1])):
                    return "(%s != %s)" % (a[0], b[0]), True, False
                cc = c or a[2] or b[2]
                return t, ev(lambda: kosops.binary(op, a[1], b[1]), cc), c
            if k < 6:
                op = src.pick(UN)
                a = node(d - 1)
                t = "(%s %s)" % (op, a[0])
                if a[1] is Throw:
                    return t, Throw, a[2]
                if op == "~" and isinstance(a[1], float) and a[1] != a[1]:
                    op, t = "!", "(! %s)" % a[0]
                if op == "+" and not kosops.isnum(a[1]):
                    op, t = "typeof", "(typeof %s)" % a[0]
                return t, ev(lambda: kosops.unary(op, a[1]), a[2]), a[2]
            a = node(d - 1)
            b = node(d - 1)
            c = node(d - 1)
            t = "(%s ? %s : %s)" % (a[0], b[0], c[0])
            if a[1] is Throw:
                return t, Throw, False
            r = b if kosops.truthy(a[1]) else c
            return t, r[1], b[2] or c[2]

        t, v, _ = node(src.int(1, 4))
        form = src.below(3)
        sig = ", ".join("p%d" % i for i in range(len(params)))
        if form == 1 and len(params):
            e = "(fun(%s) { return (fun { return %s })() })(%s)" % (sig, t, ", ".join(lit(x) for x in params))
        elif form == 2:
            e = "(fun(%s) { const r = %s; return r })(%s)" % (sig, t, ", ".join(lit(x) for x in params))
        else:
            e = "(fun(%s) { return %s })(%s)" % (sig, t, ", ".join(lit(x) for x in params))
        exp = "E" if v is Throw else canon(v)
        return {"e": e, "x": exp, "lit": exp == "E" or state["bad"], "either": state["bad"], "k": "tree", "nt": True}

    # ---- evaluation
    def evaluate(self, cases):
        outs = None
        mk = []
        for c in cases:
            if c["lit"]:
                body = "kos.execute(%s)" % kosval.strlit(
                    "import math\nconst NAN_ = (fun { return math.nan })()\n"
                    "const INF_ = (fun { return math.infinity })()\nfun id_(x) { return x }\n"
                    "fun fb_(bits) { const b = buffer(); b.pack(\">i8\", bits); return b.unpack(\">f8\")[0] }\n" + c["e"] + "\n")
            else:
                body = c["e"]
            mk.append(lambda n, body=body: "case_(%d, ()=>show_(%s))\n" % (n, body))
        # both the assert-enabled and the optimised build must agree with the model
        results = []
        for fl in self.flavours:
            results.append(kosbatch.run_snippets(self.exe[fl], mk, pre=PRE))
        outs = []
        for i, c in enumerate(cases):
            ok, detail = True, ""
            for fl, r in zip(self.flavours, results):
                g = r[i]
                if g is None:
                    continue
                if g.startswith("!"):
                    ok, detail = False, "%s: interpreter failed: %s" % (fl, g)
                    break
                thrown = g.startswith("E") or g.startswith("X")
                if c.get("either"):
                    if not thrown and g != c["x"]:
                        ok, detail = False, "%s: expected %s or a rejection, got %s" % (fl, c["x"], g)
                elif c["x"] == "E":
                    if not thrown:
                        ok, detail = False, "%s: expected an exception, got %s" % (fl, g)
                elif g != c["x"]:
                    ok, detail = False, "%s: expected %s, got %s" % (fl, c["x"], g)
                if not ok:
                    break
            outs.append(engine.Outcome(ok, detail, c["nt"], (c["k"].split("/")[0], "throws" if c["x"] == "E" else "value")))
        return outs

    def describe(self, c):
        return {"expression": c["e"], "expected": c["x"], "kind": c["k"]}
