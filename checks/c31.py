"""Size and depth: a program of any nesting or length, and any depth of calls or of data, either works or is
refused by an orderly error, and never ends the interpreter."""
import re
import engine

OK_ERR = ("string too long", "stack overflow", "out of memory", "expression depth exceeded", "register capacity exceeded", "too many nesting levels", "too many arguments", "too many non-default",
          "too many instr", "too many modules", "too many constants")

PRE = """import math
import kos
import threads
const zero = integer("0")
const yes = zero == 0
const no = ! yes
const nul = [void][0]
fun f(a) { return a }
fun g(a, b) { return a }
class box { constructor(a) { this.v = a } fun get { return this.v } }
const lk = { acquire: () => void, release: () => void }
"""

# text with @ for the inside, all of which keep the value of the inside
EXPR = [
    "(@)", "((@))", "[@][0]", "[1, @][1]", "[[@]...][0]", "{a: @}.a", "{a: 1, b: @}[\"b\"]", "-(-(@))", "~(~(@))", "(@ + zero)", "(zero + @)", "(@ - zero)", "(zero - (zero - @))", "(@ * 1)", "(1 * @)",
    "(@ | zero)", "(zero ^ @)", "(@ >> zero)", "(yes ? @ : 0)", "(no ? 0 : @)", "(yes && @)", "(no || @)", "f(@)", "f.apply(void, [@])", "(@ -> f)", "g(@, 1)", "g(b = 1, a = @)", "integer(\"\\(@)\")",
    "integer(\"x\\(@)y\"[1:-1])", "(fun { return @ })()", "(() => @)()", "((a) => a)(@)", "(fun(a = @) { return a })()", "((a = @) => a)()", "[zero, @][([1, zero])[0]]", "box(@).get()", "(class { constructor { this.v = @ } })().v",
    "(fun { if yes { return @ } ; return 0 })()", "(fun { if no { return 1 } else { return @ } })()", "(fun { for const i in [zero] { return @ } })()", "(fun { while yes { return @ } })()", "(fun { loop { return @ } })()",
    "(fun { try { return @ } catch const e { } })()", "(fun { try { throw [@] } catch const e { return e.value[0] } })()", "(fun { defer { zero + 0 } return @ })()", "(fun { with lk { return @ } })()",
    "(fun { switch 1 { case 1 { return @ } } })()", "(fun { switch zero { default { return @ } } })()", "(fun { const v = @ ; return v })()", "(fun { var v = 0 ; v = @ ; return v })()", "(fun { var v = 0 ; v += @ ; return v })()",
    "(fun { const a, b = [1, @] ; return b })()", "(fun { do { return @ } })()", "(fun { yield @ })()()", "[(fun { for const i in [@] { yield i } })()...][0]", "(fun(a...) { return a[0] })(@)", "(fun(a...) { return a[0] })([@]...)",
    "(fun { return (fun { return @ }) })()()", "({ get: () => @ }).get()", "f(f(@))", "math.max(@, zero - 9)", "(no ? @ : @)",
]
LAST = len(EXPR) - 1
STMT = [
    "do { @ }", "if yes { @ }", "if no { } else { @ }", "if no { } else if yes { @ }", "while yes { @ break }", "loop { @ break }", "for const i in [zero] { @ }", "for const i in range(1) { @ }", "try { @ } catch const e { }",
    "try { throw 1 } catch const e { @ }", "try { @ } defer { }" if False else "do { defer { } @ }", "with lk { @ }", "switch zero { case 0 { @ } }", "switch 1 { default { @ } }", "(() => do { @ })()" if False else "f(fun { @ })() ; ",
    "repeat { @ } while no ; ", "do { const u = 1 ; @ }", "do { defer { @ } }", "if yes { zero + 1 ; @ zero + 2 }",
]
# (unit, separator-free repetition) with n copies and the value
FLAT = {
    "plus": lambda n: ("zero" + " + 1" * n, n), "minus": lambda n: ("zero" + " - 1" * n, -n), "and": lambda n: ("yes" + " && yes" * n + " ? 7 : 0", 7), "or": lambda n: ("no" + " || no" * n + " ? 0 : 7", 7),
    "xor": lambda n: ("zero" + " ^ 1" * n, n & 1), "mul": lambda n: ("3" + " * 1" * n, 3), "bor": lambda n: ("zero" + " | %d" % 5 * n, 5 if n else 0), "shift": lambda n: ("zero" + " + (1 << 1)" * n, 2 * n),
    "str": lambda n: ("(\"a\"" + " + \"b\"" * n + ").size", n + 1), "strv": lambda n: ("(string(zero)" + " + \"b\"" * n + ").size", n + 1), "stream": lambda n: ("7" + " -> f" * n, 7),
    "dots": lambda n: ("(fun { const o = {}; o.a = o; return o" + ".a" * n + " == o })() ? 7 : 0", 7), "index": lambda n: ("(fun { const o = [0]; o[0] = o; return o" + "[0]" * n + " == o })() ? 7 : 0", 7),
    "calls": lambda n: ("(fun { fun h { return h } ; return h" + "()" * n + " == h })() ? 7 : 0", 7), "neg": lambda n: ("- " * (2 * n) + "7", 7), "not": lambda n: ("(" + "! " * (2 * n) + "yes) ? 7 : 0", 7), "tern": lambda n: ("no ? 1 : " * n + "7", 7),
    "tern2": lambda n: ("yes ? " * n + "7" + " : 1" * n, 7), "elems": lambda n: ("[" + "1, " * n + "2].size", n + 1), "args": lambda n: ("(fun(a...) { return a.size })(" + "1, " * n + "2)", n + 1),
    "props": lambda n: ("(fun(o) { return o.a%d })({" % n + ", ".join("a%d: %d" % (i, i) for i in range(n + 1)) + "})", n),
    "params": lambda n: ("(fun(" + ", ".join("a%d" % i for i in range(n + 1)) + ") { return a%d })([range(%d)...]...)" % (n, n + 1), n),
    "dparams": lambda n: ("(fun(" + ", ".join("a%d = %d" % (i, i) for i in range(n + 1)) + ") { return a%d })()" % n, n),
    "spread": lambda n: ("[" + "[1, 2]..., " * n + "0].size", 2 * n + 1), "locals": lambda n: ("(fun { " + "".join("const v%d = f(%d) ; " % (i, i) for i in range(n + 1)) + "return v0 + v%d })()" % n, n),
    "captured": lambda n: ("(fun { " + "".join("var v%d = f(%d) ; " % (i, i) for i in range(n + 1)) + "return (() => v%d + v0)() })()" % n, n),
    "stmts": lambda n: ("(fun { var v = 0 ; " + "v += 1 ; " * n + "return v })()", n), "ifs": lambda n: ("(fun { var v = 0 ; " + "if yes { v += 1 } " * n + "return v })()", n),
    "elseif": lambda n: ("(fun { if no { } " + "else if no { return 1 } " * n + "else { return 7 } })()", 7), "trys": lambda n: ("(fun { var v = 0 ; " + "try { throw 1 } catch const e { v += e.value } " * n + "return v })()", n),
    "cases": lambda n: ("(fun { switch f(%d) { " % n + "".join("case %d { return %d } " % (i, i) for i in range(n + 1)) + "} })()", n), "caselist": lambda n: ("(fun { switch f(%d) { case " % n + ", ".join(map(str, range(n + 1))) + " { return 7 } } })()", 7),
    "closures": lambda n: ("(fun { var v = 0 ; " + "(() => do { v += 1 })() ; " * 0 + "(fun { v += 1 })() ; " * n + "return v })()", n), "string": lambda n: ("\"" + "a" * n + "\".size", n), "ident": lambda n: ("(fun(" + "a" * (n + 1) + ") { return " + "a" * (n + 1) + " })(7)", 7),
    "interp": lambda n: ("\"" + "\\(zero)" * n + "\".size", n), "loops": lambda n: ("(fun { var v = 0 ; " + "for const i in range(2) { v += i } " * n + "return v })()", n), "uniq": lambda n: ("[" + ", ".join("\"s%d\"" % i for i in range(n + 1)) + "][%d]" % n + " == \"s%d\" ? 7 : 0" % n, 7),
    "nums": lambda n: ("[" + ", ".join(str(1 << 33 | i) for i in range(n + 1)) + "][%d] - %d" % (n, 1 << 33), n), "slices": lambda n: ("([range(9)...]" + "[:]" * n + ").size", 9), "zeros": lambda n: ("0" * 0 + "0x" + "0" * n + "7", 7),
    "frac": lambda n: ("integer(7." + "0" * (n + 1) + ")", 7), "spaces": lambda n: (" " * n + "7", 7), "lines": lambda n: ("(\n" + "\n" * n + "7)", 7), "comment": lambda n: ("/*" + "*" * n + "*/ 7", 7), "gens": lambda n: ("(fun { " + "yield 1 ; " * n + "yield 7 })() -> reduce_((a, b) => a + b, 0)", n + 7),
    "classes": lambda n: ("(fun { class c0 { fun m { return 7 } } ; " + "".join("class c%d extends c%d { } ; " % (i + 1, i) for i in range(n)) + "return c%d().m() })()" % n, 7), "methods": lambda n: ("(fun { class c { " + "".join("fun m%d { return %d } " % (i, i) for i in range(n + 1)) + "} ; return c().m%d() })()" % n, n),
    "asserts": lambda n: ("(fun { " + "assert yes ; " * n + "return 7 })()", 7), "defers": lambda n: ("(fun { var v = 0 ; (fun { " + "defer { v += 1 } " * n + "})() ; return v })()", n), "optdots": lambda n: ("nul" + ".?a" * n + " == void ? 7 : 0", 7),
    "multi": lambda n: ("(fun { const " + ", ".join("v%d" % i for i in range(n + 2)) + " = [range(%d)...] ; return v%d })()" % (n + 2, n), n),
}
# constructs which need one register or handler for each repetition, so that they have a limit of less than 2000
SMALL = {"params": 200, "dparams": 200, "locals": 200, "multi": 200, "captured": 200, "defers": 60, "classes": 30, "closures": 250, "args": 1000, "neg": 30, "not": 30}
SMALL.update((k, 60) for k in ("and", "bor", "minus", "mul", "or", "plus", "shift", "str", "strv", "stream", "tern", "tern2", "xor"))

# mechanisms of going one call deeper: the code calls R(n) for the rest
REC = [
    "return R(n)", "return R.apply(void, [n])", "return [n] -> R.apply(void)" if False else "return f(R(n))", "return n -> R", "return map_(R, [n])[0]", "return [n] -> filter_(x => yes) -> first_ -> R", "return box(R(n)).v", "return (class { constructor { this.v = R(n) } })().v",
    "return sort([n], x => void).size ? R(n) : 0" if False else "return sort([n, n], x => do { })" if False else "var r = 0 ; [1, 2].sort(fun(x) { if ! r { r = R(n) } ; return x }) ; return r", "try { return R(n) } catch const e { throw e }", "defer { zero + 0 } return R(n)", "with lk { return R(n) }",
    "for const x in gen_(n) { return x }", "return reduce_((a, b) => R(n), 0, [1])", "return \"\\(R(n))\" -> integer", "return [R(n), 1][0]", "const a = [n] ; return R(a...)", "return (fun { yield R(n) })()()", "return [(fun { yield R(n) })()...][0]",
    "return [1].fill(R(n))[0]", "return all_(x => R(n) != void, [1]) ? 1 : R(n)" if False else "return any_(n)", "return (fun(a = R(n)) { return a })()", "return switch_(n)", "return math.max(R(n), -1)", "return kos_.call(n)", "return R.bind_(n)" if False else "return R.async_(n)" if False else "const h = x => R(x) ; return h(n)",
    "return enumerate([5]) -> map(x => R(n)) -> first_", "return {a: () => R(n)}.a()", "return [5] -> base.fold(fun(a, b) { return R(n) }, 0)" if False else "return zip([1], [2]) -> map(x => R(n)) -> first_", "return string(1) == \"1\" ? R(n) : 0",
]


def deep_data(src):
    """-> (setup, test expression for depth n, key of a known finding or None)"""
    mk = src.pick(("a = [a]", "a = {a: a}", "a = [a, 1]", "a = (fun(x) { return () => x })(a)", "a = [{a: a}]", "a = box(a)", "a = [1].iterator" if False else "a = [a].slice(0)"))
    return mk


class CHECK(engine.Check):
    id = "C31"
    rule = "a program with nesting, length or call depth of at least 20; distinct by text"
    flavours = ("dbg", "asan", "rel")
    batch = 24
    cases = {"quick": 7000, "thorough": 120000}
    assumptions = ("memory is not exhausted: sizes are chosen so that a run needs less than 4 GB", "the native stack has its default limit of 8 MB (in the sanitized flavour 64 MB)",)

    def size(self, src, top):
        k = src.below(8)
        if k < 3:
            n = src.pick((20, 31, 32, 33, 50, 63, 64, 65, 97, 98, 99, 100, 101, 127, 128, 129, 200, 253, 254, 255, 256, 257, 258, 300))
        elif k < 5:
            n = src.int(1, 120)
        elif k < 7:
            n = src.pick((511, 512, 513, 1000, 1023, 1024, 1999, 2000, 2001, 3000, 5000))
        else:
            n = src.pick((10000, 32767, 32768, 33000, 65535, 65536, 70000))
        return min(n, top)

    def gen(self, src):
        k = src.weighted(((5, "expr"), (3, "stmt"), (5, "flat"), (2, "shallow"), (4, "rec"), (3, "data"), (2, "limit"), (1, "big")))
        c = getattr(self, k)(src)
        if c is None:
            return None
        c.setdefault("kind", k)
        c["text"] = PRE + LIB + c["text"]
        c["flav"] = src.weighted(((3, "dbg"), (2, "asan"), (1, "rel")))
        return c

    def wrap(self, src, forms, n, inner, sep):
        m = src.below(3)
        cyc = [src.pick(forms) for _ in range(src.int(1, 4))]
        out_a, out_b = [], []
        size = len(inner)
        for i in range(n):
            w = cyc[i % len(cyc)] if m < 2 else src.pick(forms) if i < 400 else cyc[0]
            a, _, b = w.partition("@")
            if "@" in b:
                # the inside twice: only the innermost level may double
                a, b = "(yes ? ", " : 0)"
            out_a.append(a)
            out_b.append(b)
            size += len(w)
            if size > 400000:
                break
        return "".join(reversed(out_a)) + inner + "".join(out_b), len(out_a), cyc

    def expr(self, src):
        n = self.size(src, 70000)
        v = src.int(0, 99)
        t, n, cyc = self.wrap(src, EXPR, n, str(v), "")
        where = src.below(4)
        if where == 0:
            text = "print_(%s)" % t
        elif where == 1:
            text = "const x = %s\nprint_(x)" % t
        elif where == 2:
            text = "fun h { return %s }\nprint_(h())" % t
        else:
            text = "var x = 0\nx = %s\nprint_(x)" % t
        return {"text": text, "want": str(v), "must": n <= 4, "n": n, "form": cyc}

    def stmt(self, src):
        n = self.size(src, 70000)
        v = src.int(0, 99)
        t, n, cyc = self.wrap(src, STMT, n, "x += %d ; " % v, "")
        text = "var x = 1\n%s\nprint_(x)" % t if src.bool() else "fun h { var x = 1 ; %s ; return x }\nprint_(h())" % t
        return {"text": text, "want": str(v + 1), "must": n <= 4, "n": n, "form": cyc}

    def flat(self, src):
        k = src.pick(sorted(FLAT))
        n = self.size(src, 70000)
        t, v = FLAT[k](n)
        if src.bool(1, 4) and n < 2000:
            # the whole inside another construct
            w = src.pick(EXPR[:LAST])
            t = w.replace("@", "(" + t + ")")
        return {"text": "print_(%s)" % t, "want": str(v), "must": n <= min(SMALL.get(k, 1900), 1900), "n": n, "form": k}

    def shallow(self, src):
        """many shallow constructs one after another"""
        m = src.pick((20, 50, 101, 300, 800))
        parts, tot = [], 0
        for i in range(m):
            if src.bool(1, 3):
                d = src.int(1, 3)
                t, _, _ = self.wrap(src, STMT, d, "x += 1 ; ", "")
                parts.append(t)
                tot += 1
            else:
                d = src.int(1, 4)
                t, _, _ = self.wrap(src, EXPR, d, "1", "")
                parts.append("x += " + t)
                tot += 1
        if src.bool():
            text = "var x = 0\n" + "\n".join(parts) + "\nprint_(x)"
        else:
            text = "fun h {\nvar x = 0\n" + "\n".join(parts) + "\nreturn x }\nprint_(h())"
        return {"text": text, "want": str(tot), "must": True, "n": m, "form": "shallow"}

    def rec(self, src):
        ms = [src.pick(REC) for _ in range(src.int(1, 4))]
        n = src.pick((5, 20, 100, 300, 1000, 3000, 10000, 100000, 1000000))
        body = "var R = void\nfun gen_(n) { yield R(n) }\nfun any_(n) { var r = 0 ; any(fun(x) { r = R(n) ; return true }, [1]) ; return r }\nfun switch_(n) { switch n { case -1 { return 0 } ; default { return R(n) } } }\nconst kos_ = { call: (n) => R(n) }\n"
        body = body.replace("case -1 { return 0 } ; default", "case -1 { return 0 } default").replace("any(fun(x)", "any_of_(fun(x)")
        for i, m in enumerate(ms):
            body += "fun m%d(n) {\n%s\n}\n" % (i, m)
        body += "fun step(n) {\nif n == 0 { return 7 }\nn -= 1\nswitch n %% %d {\n%s}\n}\nR = step\n" % (len(ms), "".join("case %d { return m%d(n) }\n" % (i, i) for i in range(len(ms))))
        body += """fun go(n) { try { return step(n) } catch const e { return e.value } }
fun lim { var lo = 0 ; var hi = 400 ; while hi - lo > 1 { const m = (lo + hi) >> 1 ; if go(m) == 7 { lo = m } else { hi = m } } ; return lo }
fun all_ {
lim()
const a = lim()
print_(go(%d))
const b = lim()
print_(a == b, a > 4, go(3), go(a))
}
""" % n
        thr = src.bool(1, 4)
        body += "(async all_()).wait()\n" if thr else "all_()\n"
        return {"text": body, "want": "7\ntrue true 7 7", "alt": True, "must": n <= 4, "n": n, "form": ms}

    def data(self, src):
        mk = [src.pick(("[x]", "{a: x}", "[x, 1]", "() => x", "[{a: x}]", "box(x)", "[[x]...]", "{a: 1, b: [x]}", "[x, x]", "f.bind_(x)" if False else "(fun(y) { return fun { yield y } })(x)")) for _ in range(src.int(1, 3))]
        n = src.pick((5, 50, 300, 1000, 5000, 20000, 100000, 200000))
        act = src.pick(("gc", "gc", "print", "print", "cmp", "stringify", "walk", "hold", "kosprint"))
        body = "".join("fun k%d(x) { return %s }\n" % (i, m) for i, m in enumerate(mk))
        body += "fun make(n, leaf) { var x = leaf ; for const i in range(n) { switch i %% %d { %s } } ; return x }\n" % (len(mk), " ".join("case %d { x = k%d(x) }" % (i, i) for i in range(len(mk))))
        shared = any(m == "[x, x]" for m in mk)
        if act == "gc":
            body += "var x = make(%d, 7)\nkos.collect_garbage()\nprint_(typeof x != \"void\" ? 7 : 0)\nx = void\nkos.collect_garbage()\n" % n
        elif act == "hold":
            body += "const x = make(%d, 7)\nconst y = make(%d, 8)\nprint_(7)\n" % (n, n)
        elif act in ("print", "stringify", "kosprint"):
            if shared:
                return None
            n = min(n, 3000)
            e = {"print": "string(x).size", "stringify": "base.stringify(x).size", "kosprint": "\"\\(x)\".size"}[act]
            body += "const x = make(%d, 7)\ntry { %s > 0 } catch const e { }\nprint_(7)\n" % (n, e)
        elif act == "cmp":
            if any(m == "[x, x]" or "{" in m or "box" in m or "fun" in m or "=>" in m for m in mk):
                mk = ["[x]"]
                body = "fun k0(x) { return [x] }\nfun make(n, leaf) { var x = leaf ; for const i in range(n) { x = k0(x) } ; return x }\n"
            n = min(n, 5000)
            body += "const x = make(%d, 7)\nconst y = make(%d, 7)\nprint_(x == y ? 7 : 0)\n" % (n, n)
        else:
            body += "fun mk1(n) { var x = {next: void} ; for const i in range(n) { x = {next: x} } ; return x }\nvar p = mk1(%d)\nvar k = 0\nwhile p.next != void { p = p.next ; k += 1 }\nprint_(k)\n" % n
            return {"text": body, "want": str(n), "must": True, "n": n, "form": ["walk"], "data": "walk"}
        return {"text": body, "want": "7", "must": True, "n": n, "form": mk, "data": act}

    def fixed_cases(self):
        mk = "fun mk(n) { var x = 7 ; for const i in range(n) { x = [x] } ; return x }\n"
        r = [("deep-print", "const x = mk(60000)\nbase.print(x)\n", None), ("deep-compare", "const x = mk(100000)\nconst y = mk(100000)\nprint_(x == y ? 7 : 0)\n", "7")]
        return [{"kind": k, "text": PRE + LIB + mk + t, "want": w, "must": False, "n": 60000, "form": ["[x]"], "flav": "rel", "finding": k} for k, t, w in r]

    def limit(self, src):
        """a generator which is resumed at every depth around the limit goes on with its next value afterwards"""
        nl = src.below(12)
        ng = src.below(14)
        pars = ", ".join("p%d" % i for i in range(ng))
        tot = sum(range(ng))
        args = ", ".join(map(str, range(ng)))
        gen = "fun gen_(%s) { var k = 0 ; loop { yield k%s ; k += 1 } }\nconst g_ = gen_(%s)\n" % (pars, "".join(" + p%d" % i for i in range(ng)), args)
        form = src.pick(("g_()", "g_.apply(void, [])", "(fun { for const x in g_ { return x } })()", "f(g_())", "g_(n)", "map_(x => g_(), [1])[0]", "base.first(g_)", "\"\\(g_())\" -> integer"))
        step = src.pick(("rec(n - 1)", "f(rec(n - 1))", "rec.apply(void, [n - 1])", "[1].map(x => rec(n - 1)) -> first_", "(fun { yield rec(n - 1) })()()"))
        loc = "".join("const l%d = f(n) ; " % i for i in range(nl))
        use = "".join(" + 0 * l%d" % i for i in range(nl))
        down = src.bool()
        body = gen + "fun rec(n) { %sreturn n ? (%s)%s : (%s) }\n" % (loc, step, use, form)
        body += """fun test_ {
    var k = %d
    var fails = 0
    for const i in range(%d, 220) {
        const n = %s
        var got = void
        try { got = rec(n) } catch const e { if e.value != "stack overflow" { throw e } }
        if got == void {
            fails += 1
            var next = void
            try { next = %s } catch const e { next = e.value }
            if next != k && next != k + 1 { print_(n, next, k) ; return void }
            k = next + 1
        }
        else {
            if got != k { print_(n, got, k) ; return void }
            k += 1
        }
    }
    print_(fails > 0)
}
""" % (tot, src.int(1, 20), "220 - i" if down else "i", "g_()")
        body += "(async test_()).wait()\n" if src.bool(1, 4) else "test_()\n"
        return {"text": body, "want": "true", "must": True, "n": 220, "form": "limit"}

    def big(self, src):
        """requests for more memory than there is: an exception, and then everything goes on"""
        body = "var ex = 0\nfun t(g) { try { const r = g() ; if r > 1 << 33 { print_(\"made\", r) } } catch const e { ex += 1 } }\n"
        n = src.int(1, 6)
        for _ in range(n):
            e = src.pick(("base.array(@).size", "base.buffer(@).size", "\"ab\".repeats(@).size", "[1].resize(@).size", "base.buffer(3).resize(@).size", "base.buffer(3).reserve(@).size", "[1, 2].reserve(@).size", "base.buffer(4).fill(0, @, @).size",
                          "[1].fill(0, 0, @).size", "[1].insert(@, @, [1]).size", "base.buffer(8)[@:@].size", "[1, 2, 3][@:@].size", "\"abc\"[@:@].size", "base.string([@]).size", "base.buffer(2).write(@).size", "base.buffer(2).copy_buffer(@, base.buffer(3), @, @).size",
                          "base.lpad" if False else "\"x\".lpad" if False else "base.buffer(1).pack(\"s\", @).size", "base.buffer(4).unpack(\"u1\", @).size", "base.buffer(4).unpack(\"@u1\".lowercase(), 0).size" if False else "\"x\"[@].size"))
            while "@" in e:
                e = e.replace("@", str(src.pick((1 << 33, 1 << 40, 1 << 47, 1 << 60, 1 << 61, 1 << 62, (1 << 62) + 1, (1 << 63) - 1, (1 << 63) - 2, 1 << 35, (1 << 32) * 3, "(-1 << 63)", "-(1 << 62)", "1e30", "-1e30", "9e18", "math.infinity", "math.nan", 1 << 34 | 1, -1, -(1 << 40)))), 1)
            body += "t(() => %s)\n" % e
        body += "const a = [base.range(2000)...]\nvar h = 0\nfor const x in a { h += x }\nprint_(h)\n"
        return {"text": body, "want": "1999000", "must": True, "n": 20, "form": "big"}

    def known(self, case, out):
        if "crashed with status -11" in out.detail:
            for k in engine.load_known(self.id):
                if k["key"] == case.get("finding"):
                    return k["key"]
        return None

    def evaluate(self, cases):
        return [self.one(c) for c in cases]

    def one(self, c):
        lim = None
        if c["flav"] == "asan":
            import resource
            hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
            want = 64 << 20
            if hard == resource.RLIM_INFINITY or hard >= want:
                def lim():
                    resource.setrlimit(resource.RLIMIT_STACK, (want, hard))
        r = engine.run_script(self.exe[c["flav"]], c["text"], timeout=240, preexec=lim)
        form = c["form"] if isinstance(c["form"], str) else "mix"
        labels = [c["kind"], c["flav"]] + ([c["form"]] if isinstance(c["form"], str) else [])
        nt = c["n"] >= 20
        out = r.out.decode("utf-8", "replace").strip()
        err = r.err.decode("utf-8", "replace")
        if r.timeout:
            return engine.Outcome(False, "%s: does not end within 240 s" % c["flav"], nt, labels)
        if r.crashed:
            m = re.search(r"(SUMMARY: .*|[^\n]*Assertion[^\n]*|[^\n]*runtime error:[^\n]*)", err)
            return engine.Outcome(False, "%s: crashed with status %s %s" % (c["flav"], r.rc, m.group(1)[:300] if m else ""), nt, labels)
        if r.rc == 0 and not err:
            if out == c["want"] or c["want"] is None:
                labels.append("works")
                return engine.Outcome(True, "", nt, labels)
            if c.get("alt"):
                if out == "stack overflow\ntrue true 7 7" and not c["must"]:
                    labels.append("overflow-caught")
                    return engine.Outcome(True, "", nt, labels)
            return engine.Outcome(False, "%s: wrong output %s, expected %s" % (c["flav"], out[:200], c["want"]), nt, labels)
        first = [x for x in err.split("\n") if "error:" in x or "xception" in x or "rror" in x] or [err[:200]]
        if r.rc == 1 and (not c["must"] or "out of memory" in first[0] and c["n"] >= 20000) and not out and any(s in first[0] for s in OK_ERR):
            labels.append("refused")
            return engine.Outcome(True, "", nt, labels)
        return engine.Outcome(False, "%s: status %s, output %s, error %s" % (c["flav"], r.rc, out[:100], first[0][-200:]), nt, labels)

    def describe(self, c):
        t = c["text"][len(PRE) + len(LIB):]
        return {"kind": c["kind"], "size": c["n"], "form": c["form"], "flavour": c["flav"], "program": t if len(t) < 1500 else t[:700] + " ... " + t[-700:], "length": len(t)}


LIB = """const print_ = base.print
fun first_(it) { for const x in it { return x } }
fun map_(h, a) { return [map(h, a)...] }
fun filter_(h, a = void) { return a == void ? fun(b) { return filter(h, b) } : filter(h, a) }
fun reduce_(h, z, a = void) { return a == void ? fun(b) { return reduce(h, z, b) } : reduce(h, z, a) }
fun any_of_(h, a) { for const x in a { if h(x) { return true } } ; return false }
"""
PRE = "import base\nimport base.*\n" + PRE
