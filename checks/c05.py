"""Calls: binding of arguments to parameters.

A case defines a few functions (plain, arrow, method, constructor, generator, with captured, modified and unused parameters,
from none to over a hundred of them) and calls them in every form.  The model is the parameter list itself."""
import kosseq
import kosval
from kosseq import THROWS
from kosval import VOID, lit

PRE = r"""
const log_ = []
var tick_ = 0
fun ev_(v) { log_.push(typeof v == "array" ? v[:] : v); return v }
fun next_() { tick_ += 1; return tick_ }
fun flush_() { const r = log_[:]; log_.resize(0); return r }
"""


class Fn:
    pass


def names(src, n):
    base = src.pick(("a", "p_", "arg", "x"))
    return ["%s%d" % (base, i) for i in range(n)]


def size(src):
    return src.weighted(((60, "s"), (12, "r"), (6, "m"), (3, "l")))


def gen_fn(q, src, k, state):
    f = Fn()
    f.kind = src.weighted(((40, "fun"), (14, "arrow"), (14, "method"), (8, "ctor"), (12, "gen"), (6, "derived"), (6, "decl")))
    sz = size(src)
    if sz == "s":
        m, d = src.below(4), src.below(4)
    elif sz == "r":
        n = src.int(29, 36)
        m = src.below(n + 1)
        d = n - m
    elif sz == "m":
        m, d = src.below(34), src.below(34)
    else:
        m, d = src.below(60), src.below(60)
    f.m, f.d = m, d
    f.rest = src.bool(2, 5)
    ns = names(src, m + d + 1)
    f.names = ns[:m + d]
    f.restname = ns[-1]
    f.name = "f%d_" % k
    f.defs = []
    dt = []
    # defaults: evaluated in order at the declaration
    pre = []
    for i in range(d):
        w = src.below(6)
        if w == 0:
            state["tick"] += 1
            f.defs.append(state["tick"])
            dt.append("next_()")
        elif w == 1:
            f.defs.append(state["var"])
            dt.append("outer_")
        elif w == 2:
            f.defs.append(("list", []))
            dt.append("[]")
        elif w == 3:
            f.defs.append([100 + i])
            dt.append("[%d]" % (100 + i))
        else:
            v = src.pick((VOID, True, 100 + i, "d%d" % i, -i))
            f.defs.append(v)
            dt.append(lit(v))
    params = f.names[:m] + ["%s = %s" % (n, t) for n, t in zip(f.names[m:], dt)] + ([f.restname + "..."] if f.rest else [])
    ptext = "(%s)" % ", ".join(params)
    allp = f.names + ([f.restname] if f.rest else [])
    # which parameters are used: all, or a subset which keeps the last mandatory one (unused trailing ones become optional)
    used = set(range(len(allp)))
    if len(allp) > 1 and src.bool(1, 5):
        q.labels.add("unused-parameter")
        for i in range(len(allp)):
            if i != m - 1 and i != len(allp) - 1 and src.bool(1, 3):
                used.discard(i)
    f.used = used
    vals = [allp[i] if i in used else "void" for i in range(len(allp))]
    body = []
    f.mods = {}
    f.style = src.weighted(((50, "plain"), (14, "captured"), (14, "modified"), (8, "both"), (7, "nested")))
    if f.kind == "arrow":
        f.style = "plain"
    f.thisv = f.kind == "method" or (f.kind in ("fun", "gen", "arrow", "decl") and src.bool(1, 3))
    ret = ", ".join(vals + (["this"] if f.thisv and f.kind not in ("method", "derived") else []))
    if f.kind in ("method", "derived", "ctor"):
        f.thisv = False
    if f.style in ("modified", "both"):
        for i in sorted(used):
            if i < len(f.names) and src.bool(1, 3):
                body.append("%s = [%s, %d]" % (allp[i], allp[i], i))
                f.mods[i] = True
                q.labels.add("assigned-parameter")
    if f.style in ("captured", "both"):
        q.labels.add("captured-parameter")
        some = [i for i in sorted(used) if i < len(f.names) and src.bool()]
        for i in some:
            body.append("const g%d_ = fun { const t = %s; %s = t; return t }" % (i, allp[i], allp[i]))
            body.append("g%d_()" % i)
    if f.style == "nested":
        q.labels.add("captured-parameter")
        final = "(() => [%s])()" % ret
        if "this" in ret:
            final = "[%s]" % ret
    else:
        final = "[%s]" % ret
    lists = [i for i in range(d) if isinstance(f.defs[i], tuple) and (m + i) in used and (m + i) not in f.mods]
    f.push = []
    for i in lists:
        if src.bool():
            # the default value is one object shared by the calls
            f.push.append(i)
            body.append("if typeof %s == \"array\" { %s.push(7) }" % (f.names[m + i], f.names[m + i]))
            q.labels.add("shared-default")
    if f.push and f.kind == "arrow":
        f.push = []
    if f.kind == "fun":
        q.stmt("const %s = fun%s { %s }" % (f.name, ptext, "; ".join(body + ["return " + final])))
    elif f.kind == "decl":
        q.stmt("fun %s%s { %s }" % (f.name, ptext, "; ".join(body + ["return " + final])))
    elif f.kind == "arrow":
        q.stmt("const %s = %s => %s" % (f.name, ptext, final))
    elif f.kind == "gen":
        q.stmt("const %s = fun%s { %s }" % (f.name, ptext, "; ".join(body + ["yield " + final])))
    elif f.kind == "method":
        q.stmt("const %s = { id: %d, f: fun%s { %s } }" % (f.name, k, ptext, "; ".join(body + ["return [this.id, %s...]" % final])))
    elif f.kind == "ctor":
        q.stmt("class %s { constructor%s { %s } }" % (f.name, ptext, "; ".join(body + ["this.r = " + final])))
    else:
        q.stmt("class B%d_ { fun f%s { %s } }" % (k, ptext, "; ".join(body + ["return [this.id, %s...]" % final])))
        q.stmt("class %s extends B%d_ { constructor { this.id = %d } fun f(a...) { return super.f(a...) } }" % (f.name, k, k))
    f.k = k
    f.ptext = ptext
    q.labels.add(f.kind)
    if m + d > 32:
        q.labels.add("over-32")
    q.labels.add("defaults" if d else "no-defaults")
    if f.rest:
        q.labels.add("rest")
    return f


def snap(v):
    if isinstance(v, tuple):
        return list(v[1])
    if isinstance(v, list):
        return [snap(x) for x in v]
    return v


def bind(f, args, this=VOID):
    """args: list; -> result or THROWS"""
    need = f.m
    if len(args) < need:
        return THROWS
    vals = list(args[:f.m + f.d])
    for i in range(len(vals), f.m + f.d):
        vals.append(f.defs[i - f.m])
    out = []
    for i in f.push:
        v = vals[f.m + i]
        if isinstance(v, tuple):
            v[1].append(7)
        elif isinstance(v, list):
            vals[f.m + i] = v + [7]
    for i, v in enumerate(vals):
        if i not in f.used:
            out.append(VOID)
        elif i in f.mods:
            out.append([snap(v), i])
        else:
            out.append(snap(v))
    if f.rest:
        out.append([snap(x) for x in args[f.m + f.d:]] if (f.m + f.d) in f.used else VOID)
    if f.thisv:
        out.append(this)
    if f.kind == "method":
        out = [f.k] + out
    if f.kind == "derived":
        out = [f.k] + out
    return out


def gval(src):
    w = src.below(8)
    if w == 0:
        return VOID
    if w == 1:
        return src.pick((True, False))
    if w == 2:
        return "s%d" % src.below(50)
    if w == 3:
        return [src.below(9), "q"]
    if w == 4:
        return src.pick(((1 << 62), -(1 << 63), 1.5, 255, 256, -1))
    return src.below(200)


def call_case(q, src, f, thrown):
    n = src.weighted(((30, f.m), (20, f.m + f.d), (15, f.m + src.below(f.d + 1)), (15, f.m + f.d + 1 + src.below(4)), (10, src.below(f.m + f.d + 3)), (4, f.m + f.d + src.below(40)),
                      (4, max(0, f.m - 1))))
    args = [gval(src) for _ in range(n)]
    forms = ["plain", "spread", "apply", "named", "tail", "try"]
    if f.kind in ("fun", "decl", "arrow", "gen", "method"):
        forms += ["stream", "opt"]
        if f.kind != "gen":
            forms += ["async"]
    if f.kind in ("fun", "decl", "gen", "arrow"):
        forms += ["asmethod", "holder"]
    form = src.pick(forms)
    this = VOID
    callee = f.name + (".f" if f.kind in ("method", "derived") else "")
    if f.kind == "derived":
        callee = f.name + "().f"
    if f.kind == "method" and src.bool(1, 3):
        callee = f.name + '["f"]'
    if form == "opt":
        if f.kind == "method":
            callee = f.name + src.pick((".?f", '[?"f"]'))
        else:
            form = "plain"
    if f.kind == "derived" and form == "named":
        form = "spread"
    post = ""
    if f.kind == "ctor":
        post = ".r"
    log = None
    if form == "asmethod":
        q.stmt("const h%d_ = { id: %d, f: %s }" % (len(q.lines), 5, f.name))
        callee = "h%d_.f" % (len(q.lines) - 1)
        this = {"id": 5, "f": None}
        form = src.pick(("plain", "spread", "named", "try"))
    elif form == "holder":
        q.stmt("const h%d_ = [%s]" % (len(q.lines), f.name))
        callee = "h%d_[0]" % (len(q.lines) - 1)
        this = "holder"
        form = src.pick(("plain", "spread", "named"))
    traced = form in ("plain", "named", "spread") and src.bool(1, 3) and len(args) < 30
    w = (lambda t: "ev_(%s)" % t) if traced else (lambda t: t)
    want_log = []
    if form == "named":
        given = {}
        order = list(range(f.m + f.d))
        sel = []
        for i in order:
            if src.bool(11, 12) if i < f.m else src.bool():
                sel.append(i)
        # shuffle
        for i in range(len(sel) - 1, 0, -1):
            j = src.below(i + 1)
            sel[i], sel[j] = sel[j], sel[i]
        bad = None
        if src.bool(1, 12):
            bad = src.pick(("zz_", f.restname))
        parts = []
        for i in sel:
            v = gval(src)
            given[i] = v
            parts.append("%s = %s" % (f.names[i], w(lit(v))))
            want_log.append(v)
        if bad:
            parts.append("%s = 1" % bad)
        if not parts:
            atext = ""
            exp = bind(f, [], this)
        else:
            atext = ", ".join(parts)
            if bad or any(i not in given for i in range(f.m)):
                exp = THROWS
            else:
                full = [given[i] if i in given else f.defs[i - f.m] for i in range(f.m + f.d)]
                exp = bind(f, full, this)
            q.labels.add("named")
        text = "%s(%s)%s" % (callee, atext, post)
    else:
        exp = None
        plain = [w(lit(a)) for a in args]
        if form == "spread":
            parts = []
            i = 0
            while i < len(args) or (not parts):
                j = min(len(args), i + src.below(4))
                if src.bool():
                    parts += plain[i:j]
                else:
                    parts.append("[%s]..." % ", ".join(plain[i:j]) if src.bool(2, 3) else "([%s] -> (fun(a) { for const x in a { yield x } }))..." % ", ".join(plain[i:j]))
                if j == len(args) and src.bool(3, 4):
                    i = j
                    break
                i = j
            if i < len(args):
                parts += plain[i:]
            text = "%s(%s)%s" % (callee, ", ".join(parts), post)
            want_log = list(args)
            q.labels.add("spread")
        elif form in ("plain", "opt"):
            text = "%s(%s)%s" % (callee, ", ".join(plain), post)
            want_log = list(args)
        elif form == "apply":
            tv = gval(src)
            if f.kind == "method":
                tv = {"id": f.k}
                text = "%s.f.apply({id: %d}, %s)" % (f.name, f.k, lit(args))
            elif f.kind == "derived":
                text = "%s.prototype.f.apply({id: %d}, %s)" % ("B%d_" % f.k, f.k, lit(args))
            elif f.kind == "ctor":
                # the constructor initialises the given object
                text = "(fun { const o = {k: 1}; %s.apply(o, %s); return o.r })()" % (f.name, lit(args))
            else:
                this = tv
                text = "%s.apply(%s, %s)%s" % (f.name, lit(tv), lit(args), post)
            q.labels.add("apply")
        elif form == "async":
            q.labels.add("async")
            if src.bool() or f.kind == "arrow" and False:
                text = "(async %s(%s)).wait()" % (callee, ", ".join(plain))
            elif f.kind == "method":
                text = "%s.f.async({id: %d}, %s).wait()" % (f.name, f.k, lit(args))
            else:
                tv = gval(src)
                this = tv
                if src.bool():
                    text = "%s.async(%s, %s).wait()" % (f.name, lit(tv), lit(args))
                else:
                    # the thread has arguments of its own
                    text = "(fun { const a = %s; const t = %s.async(%s, a); a.fill(\"!\"); a.push(1); try { return t.wait() } catch const e { throw e } })()" % (lit(args), f.name, lit(tv))
        elif form == "stream":
            v = gval(src)
            args = [v]
            text = "(%s -> %s)" % (lit(v), callee)
            q.labels.add("stream")
        elif form == "tail":
            text = "(fun { return %s(%s) })()%s" % (callee, ", ".join(plain), post)
        else:
            text = "(fun { try { return %s(%s)%s } catch const e { throw e } })()" % (callee, ", ".join(plain), post)
        exp = bind(f, args, this)
    if f.kind == "gen":
        # an exception is thrown by the call itself
        text = "[(%s)...]" % text
        if exp is not THROWS:
            exp = [exp]
    if exp is THROWS:
        q.labels.add("throws")
        q.nt = True
    if isinstance(this, dict) and f.thisv and exp is not THROWS:
        e = exp[0] if f.kind == "gen" else exp
        e[-1] = "T"
        text = "this_(%s, %s)" % (text, "true" if f.kind == "gen" else "false")
    if this == "holder" and f.thisv and exp is not THROWS:
        e = exp[0] if f.kind == "gen" else exp
        e[-1] = "A"
        text = "this_(%s, %s)" % (text, "true" if f.kind == "gen" else "false")
    if traced:
        q.do("flush_()", [])
    q.do(text, exp)
    if traced:
        q.do("flush_()", want_log)
        q.labels.add("order")


EXTRA = r"""
fun this_(r, gen)
{
    const l = gen ? r[0] : r
    const t = l[-1]
    if typeof t == "object" { l[-1] = (t.id == 5) ? "T" : "?" }
    else if typeof t == "array" { l[-1] = "A" }
    return r
}
"""


class CHECK(kosseq.SeqCheck):
    id = "C05"
    rule = "a case with defaults, rest, spread, named, missing or over 32 arguments; distinct by its steps"
    pre = PRE + EXTRA
    batch = 100
    cases = {"quick": 60000, "thorough": 1500000}

    def build(self, q, src):
        state = {"tick": 0, "var": src.below(9)}
        q.stmt("tick_ = 0; flush_()")
        q.stmt("var outer_ = %d" % state["var"])
        fs = []
        for k in range(1 + src.below(2)):
            fs.append(gen_fn(q, src, k, state))
            if src.bool(1, 3):
                state["var"] = src.below(9)
                q.stmt("outer_ = %d" % state["var"])
        for _ in range(2 + src.len(6)):
            call_case(q, src, src.pick(fs), None)
        if q.labels & {"defaults", "rest", "spread", "named", "over-32"}:
            q.nt = True

    # --- known findings --------------------------------------------------------------------------
    def fixed_cases(self):
        q = kosseq.Seq()
        q.stmt("const f = fun(a, b = 2) { return [a, b] }")
        q.do("(async f(a = 1)).wait()", [1, 2])
        q.nt = True
        return [dict(q.case(), key="async-named")]

    def known(self, case, outcome):
        if isinstance(case, dict) and case.get("key") == "async-named" and outcome.detail.strip().endswith("got      E"):
            return "async-named"
        return None
