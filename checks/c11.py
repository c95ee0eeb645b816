"""Objects, prototypes and classes behave like dictionaries with a parent link."""
import kosval
from kosseq import SeqCheck, THROWS
from kosval import VOID, PRELUDE, canon, lit, strlit, wrap

NAMES = ("a", "b", "c", "m", "q", "x y", "", "\xe9", "k1", "iterator", "get")
IDENT = ("a", "b", "c", "m", "q", "k1")
BUILTIN = {"iterator", "get"}


class Fn:
    """Function value: kind, tag, and for super calls the prototype looked up."""
    def __init__(self, kind, tag, sup=None, key="a"):
        self.kind = kind
        self.tag = tag
        self.sup = sup
        self.key = key

    def text(self):
        if self.kind == "get":
            return '(y = "d") { return ["%s", this[?"%s"], y] }' % (self.tag, self.key)
        if self.kind == "set":
            return '(y = "d") { this["%s"] = y; return ["%s", this["%s"]] }' % (self.key, self.tag, self.key)
        if self.kind == "rest":
            return '(y = "d", r...) { return ["%s", this[?"%s"], y, r] }' % (self.tag, self.key)
        if self.kind == "super":
            return '(y = "d") { return ["%s", super.m(y)] }' % self.tag
        raise AssertionError


class Thrown(Exception):
    pass


class Obj:
    def __init__(self, proto, props=None):
        self.p = dict(props or {})
        self.proto = proto


ROOT = Obj(None)        # object.prototype; its properties are not modelled one by one


def find(o, k):
    while o is not None:
        if k in o.p:
            return o.p[k]
        if o is ROOT and k in BUILTIN:
            return Fn("builtin", k)
        o = o.proto
    raise Thrown


def has(o, k):
    try:
        find(o, k)
        return True
    except Thrown:
        return False


def chain(o):
    while o is not None:
        yield o
        o = o.proto


class Cls:
    def __init__(self, name, base, ctor, proto):
        self.name = name
        self.base = base        # Cls, None or "void"
        self.ctor = ctor        # None or dict
        self.static = {"prototype": proto}
        self.used_super = False

    @property
    def proto(self):
        return self.static["prototype"]


def call(f, this, args):
    """this: Obj or None (void)"""
    if not isinstance(f, Fn) or f.kind == "builtin":
        raise Thrown
    y = args[0] if args else "d"
    if f.kind in ("get", "rest"):
        v = find(this, f.key) if this is not None and has(this, f.key) else VOID
        if isinstance(v, Fn):
            v = FNV
        return [f.tag, v, y] + ([list(args[1:])] if f.kind == "rest" else [])
    if f.kind == "set":
        if this is None:
            raise Thrown
        this.p[f.key] = y
        return [f.tag, y]
    if f.kind == "super":
        return [f.tag, call(find(f.sup, "m"), this, [y])]
    raise AssertionError


class FnVal:
    pass


FNV = FnVal()


def can(v):
    """Canonical text of a model value, functions are F."""
    if isinstance(v, (Fn, FnVal)):
        return "F"
    if isinstance(v, Cls):
        return "C"
    if isinstance(v, Obj):
        return can(v.p)
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(can(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(canon(k) + ":" + can(v[k]) for k in sorted(v, key=lambda k: [ord(c) for c in k])) + "}"
    return canon(v)


def construct(c, this, args):
    """Runs the constructor of c on this."""
    if c.ctor is None:
        if isinstance(c.base, Cls):
            construct(c.base, this, args)
        return
    need = c.ctor["need"]
    if len(args) < need:
        raise Thrown
    x = args[0] if args else 7
    y = args[1] if len(args) > 1 else 9
    if isinstance(c.base, Cls) and not any(st[0] == "super" for st in c.ctor["body"]):
        construct(c.base, this, [])
    if c.ctor["rest"]:
        this.p["r"] = list(args[2:])
    this.p["xy"] = [x, y]
    for st in c.ctor["body"]:
        if st[0] == "set":
            this.p[st[1]] = {"x": x, "y": y, "const": st[3]}[st[2]]
        elif st[0] == "super":
            construct(c.base, this, [{"x": x, "y": y}[a] for a in st[1]])
        elif st[0] == "throwif":
            if kosval.canon(x) == kosval.canon(st[1]):
                raise Thrown
        elif st[0] == "retif":
            if kosval.canon(x) == kosval.canon(st[1]):
                return


class CHECK(SeqCheck):
    id = "C11"
    rule = ("a history of at least 5 steps on objects with at least one inherited lookup, deletion or class instance; "
            "distinct by the steps")
    cases = {"quick": 60000, "thorough": 1500000}
    assumptions = ("the model of an object is a dictionary and a link to its prototype",)
    prelude = PRELUDE
    pre = r"""
const BUILT_ = (fun { const o = {}; for const k, v in deep({}) { o[k] = true }; return o })()
fun sortk_(a)
{
    var i = 1
    while i < a.size {
        const x = a[i]
        var j = i
        while (j > 0) && (x[0] < a[j - 1][0]) {
            a[j] = a[j - 1]
            j -= 1
        }
        a[j] = x
        i += 1
    }
    return a
}
fun deepk_(o)
{
    const a = []
    for const k, v in deep(o) {
        if ! (k in BUILT_) || (k in o) {
            a.push([k, v])
        }
    }
    return sortk_(a)
}
fun pairs_(it)
{
    const a = []
    for const kv in it {
        a.push(kv)
    }
    return sortk_(a)
}
"""

    def val(self, src):
        k = src.below(8)
        if k < 4:
            return src.int(-5, 40)
        if k < 6:
            return "v%d" % src.below(5)
        return src.pick((VOID, True, False, "", [1, 2], 2.5, 1 << 61))

    def key(self, src):
        return src.pick(NAMES) if src.below(3) == 0 else src.pick(IDENT)

    def keyx(self, src, k):
        """Expression producing the key string in some storage form."""
        n = src.below(6)
        if n < 3:
            return strlit(k)
        if n == 3:
            return "(%s)[:-1]" % strlit(k + "\u4e00")
        if n == 4:
            return "(%s)[1:]" % strlit("\U0001f600" + k)
        h = src.below(len(k) + 1)
        return "(%s + %s)" % (strlit(k[:h]), strlit(k[h:]))

    def fn(self, src, n, sup=None):
        kinds = ["get", "set", "rest", "get"]
        if sup is not None and has(sup, "m") and isinstance(find(sup, "m"), Fn) and find(sup, "m").kind != "builtin":
            kinds += ["super"] * 4
        kind = src.pick(kinds)
        return Fn(kind, "t%d" % n, sup, src.pick(IDENT))

    def build(self, q, src):
        self.nfn = 0
        classes = []
        objs = []          # (name, Obj)
        for i in range(src.len(3)):
            classes.append(self.g_class(q, src, classes, i))
        for i in range(1 + src.len(3)):
            self.new_obj(q, src, classes, objs)
        for _ in range(src.len(22, 4)):
            self.op(q, src, classes, objs)
        for name, o in objs:
            q.raw(name, can(o))
            q.raw("deepk_(%s)" % name, can(self.deep(o)))

    def deep(self, o):
        m = {}
        for x in chain(o):
            for k, v in x.p.items():
                m.setdefault(k, v)
        r = [[k, m[k]] for k in sorted(m, key=lambda k: [ord(c) for c in k]) if k not in BUILTIN or k in o.p]
        return r

    def g_class(self, q, src, classes, i):
        name = "C%d" % i
        base = None
        k = src.below(6)
        if k == 0:
            base = "void"
        elif k < 5 and classes:
            base = src.pick(classes)
        if isinstance(base, Cls):
            pp = base.proto
        else:
            pp = None if base == "void" else ROOT
        proto = Obj(pp)
        ctor = None
        mem = []
        if src.below(4):
            body = []
            for _ in range(src.len(3, 1)):
                body.append(["set", src.pick(IDENT), src.pick(("x", "y", "const")), self.val(src)])
            if isinstance(base, Cls) and src.below(4):
                body.insert(src.below(len(body) + 1), ["super", [src.pick("xy") for _ in range(src.below(3))]])
            z = src.below(8)
            if z == 0:
                body.insert(src.below(len(body) + 1), ["throwif", src.int(0, 3)])
            elif z == 1:
                body.insert(src.below(len(body) + 1), ["retif", src.int(0, 3)])
            ctor = {"need": src.below(3), "rest": src.below(3) == 0, "body": body}
            ps = ["x", "y"]
            if ctor["need"] < 1:
                ps[0] = "x = 7"
            if ctor["need"] < 2:
                ps[1] = "y = 9"
            if ctor["rest"]:
                ps.append("r...")
            t = []
            if ctor["rest"]:
                t.append("this.r = r")
            t.append("this.xy = [x, y]")        # unused trailing arguments would be optional
            for s in body:
                if s[0] == "set":
                    t.append("this.%s = %s" % (s[1], lit(s[3]) if s[2] == "const" else s[2]))
                elif s[0] == "super":
                    t.append("super(%s)" % ", ".join(s[1]))
                elif s[0] == "throwif":
                    t.append("if x == %s { throw 1 }" % lit(s[1]))
                else:
                    t.append("if x == %s { return%s }" % (lit(s[1]), src.pick(("", " this"))))
            mem.append("constructor(%s) {\n%s\n}" % (", ".join(ps), "\n".join(t)))
            q.labels.add("constructor")
        used = set()
        supers = False
        for _ in range(src.len(3)):
            n = "m" if src.below(2) else src.pick(IDENT)
            if n in used:
                continue
            used.add(n)
            if src.below(3):
                self.nfn += 1
                f = self.fn(src, self.nfn, pp if isinstance(base, Cls) else None)
                if f.kind == "super":
                    supers = True
                    q.labels.add("super call")
                proto.p[n] = f
                mem.append("fun %s%s" % (n, f.text()))
            else:
                v = self.val(src)
                proto.p[n] = v
                mem.append("var %s = %s" % (n, lit(v)))
        if ctor and src.bool():
            mem = mem[1:] + mem[:1]
        ext = ""
        if base == "void":
            ext = " extends void"
            q.labels.add("extends void")
        elif base:
            ext = " extends " + base.name
            base.used_super = True
            q.labels.add("derived class")
        if isinstance(base, Cls) and not src.below(4):
            # the variable assigned holds the base class
            q.stmt("var %s = %s\n%s = class extends %s {\n%s\n}" % (name, base.name, name, name, "\n".join(mem)))
        elif src.bool():
            q.stmt("class %s%s {\n%s\n}" % (name, ext, "\n".join(mem)))
        else:
            q.stmt("const %s = class%s {\n%s\n}" % (name, ext, "\n".join(mem)))
        return Cls(name, base, ctor, proto)

    def new_obj(self, q, src, classes, objs):
        name = "o%d" % len(objs)
        k = src.below(10)
        if classes and k < 6:
            c = src.pick(classes)
            args = [self.val(src) for _ in range(src.pick((2, 2, 2, 3, 4, 1, 0)))]
            o = Obj(c.proto)
            try:
                construct(c, o, args)
            except Thrown:
                q.raw("%s(%s)" % (c.name, ", ".join(lit(a) for a in args)), "E")
                return
            q.stmt("const %s = %s(%s)" % (name, c.name, ", ".join(lit(a) for a in args)))
            q.labels.add("instance")
            q.nt = True
        elif k == 6:
            prs = [(self.key(src), self.val(src)) for _ in range(src.len(6))]
            o = Obj(ROOT, dict(prs))
            how = src.below(4)
            if how == 0:
                q.stmt("const %s = object(%s)" % (name, lit([list(p) for p in prs])))
            elif how == 1 and all(v is not VOID for _, v in prs):
                q.stmt("const %s = object(%s, %s)" % (name, lit([p[0] for p in prs]), lit([p[1] for p in prs])))
            elif how == 2:
                q.stmt("const %s = object((fun { for const p in %s { yield p } })())" % (name, lit([list(p) for p in prs])))
            else:
                q.stmt("const %s = object(%s)" % (name, lit(dict(prs))))
            q.labels.add("object()")
        else:
            o = Obj(ROOT)
            t = []
            for _ in range(src.len(5)):
                n = self.key(src)
                if n in o.p:
                    continue
                if src.below(4) == 0:
                    self.nfn += 1
                    f = self.fn(src, self.nfn)
                    o.p[n] = f
                    v = "fun" + f.text()
                else:
                    o.p[n] = self.val(src)
                    v = lit(o.p[n])
                t.append("%s: %s" % (n if n in IDENT and src.bool() else strlit(n), v))
            q.stmt("const %s = {%s}" % (name, ", ".join(t)))
        objs.append((name, o))

    def op(self, q, src, classes, objs):
        if not objs:
            return self.new_obj(q, src, classes, objs)
        # targets: objects, prototypes of classes
        tg = list(objs) + [("%s.prototype" % c.name, c.proto) for c in classes]
        name, o = src.pick(objs) if src.below(4) else src.pick(tg)
        k = self.key(src)
        kx = self.keyx(src, k)
        dot = k in IDENT and src.bool()
        n = src.below(30)

        def lookup():
            if k not in o.p and has(o, k):
                q.nt = True
                q.labels.add("inherited")
            return find(o, k)

        if n < 3:
            try:
                v = can(lookup())
            except Thrown:
                v = "E"
            q.raw("%s.%s" % (name, k) if dot else "%s[%s]" % (name, kx), v)
        elif n < 5:
            v = can(lookup()) if has(o, k) else "v"
            q.raw("%s.?%s" % (name, k) if dot else "%s[?%s]" % (name, kx), v)
        elif n < 9:
            v = self.val(src)
            o.p[k] = v
            q.raw("(fun { %s = %s; return %s })()" % ("%s.%s" % (name, k) if dot else "%s[%s]" % (name, kx), lit(v), "%s[%s]" % (name, strlit(k))), can(v))
        elif n == 9:
            # compound assignment reads the inherited value and writes an own one
            try:
                v = lookup()
                d = src.int(1, 9)
                if isinstance(v, int) and not isinstance(v, bool):
                    w = wrap(v + d)
                elif isinstance(v, float):
                    w = v + d
                else:
                    return
                o.p[k] = w
                w = can(w)
            except Thrown:
                w = "E"
                d = 1
            q.raw("(fun { %s += %d; return %s })()" % ("%s.%s" % (name, k) if dot else "%s[%s]" % (name, kx), d, "%s[%s]" % (name, strlit(k))), w)
        elif n < 13:
            q.labels.add("delete")
            if k in o.p:
                q.nt = True
            o.p.pop(k, None)
            q.raw("(fun { delete %s; return %s in %s })()" % ("%s.%s" % (name, k) if dot else "%s[%s]" % (name, kx), strlit(k), name), "f")
        elif n == 13:
            q.raw("%s in %s" % (kx, name), can(k in o.p))
        elif n == 14:
            q.raw("%s propertyof %s" % (kx, name), can(has(o, k)))
            if k not in o.p and has(o, k):
                q.nt = True
        elif n == 15 and classes:
            c = src.pick(classes)
            q.raw("%s instanceof %s" % (name, c.name), can(c.proto in list(chain(o))[1:]))
            q.labels.add("instanceof")
        elif n < 19:
            k2 = k if src.below(3) else "m"
            args = [self.val(src) for _ in range(src.below(4))]
            at = ", ".join(lit(a) for a in args)
            if k2 in BUILTIN:
                return
            q.labels.add("method call")
            how = src.below(6)
            f = None
            try:
                f = find(o, k2)
                if how == 4:
                    on, oo = src.pick(objs)
                    r = call(f, oo, args)
                elif how == 5:
                    r = call(f, None, args)
                else:
                    r = call(f, o, args)
                r = can(r)
            except Thrown:
                r = "E"
                if how == 4 and not isinstance(f, Fn):
                    how = 0
            acc = "%s.%s" % (name, k2) if k2 in IDENT else "%s[%s]" % (name, strlit(k2))
            if how == 4:
                q.raw("%s.apply(%s, [%s])" % (acc, on, at), r)
            elif how == 5:
                q.raw("(fun { const f = %s; return f(%s) })()" % (acc, at), r)
            else:
                q.raw("%s(%s)" % (acc, at), r)
        elif n == 19:
            if "get" in o.p or not has(o, "get") or any("get" in x.p for x in chain(o)):
                return
            d = self.val(src)
            q.raw("%s.get(%s, %s)" % (name, kx, lit(d)), can(o.p[k]) if k in o.p else can(d))
        elif n == 20:
            if any("iterator" in x.p for x in chain(o)) or not has(o, "iterator"):
                how = 0
            else:
                how = src.below(3)
            want = [[a, o.p[a]] for a in sorted(o.p, key=lambda s: [ord(c) for c in s])]
            q.raw("pairs_(%s)" % (("shallow(%s)" % name, "%s.iterator()" % name, name)[how]), can(want))
            q.labels.add("iteration")
        elif n == 21:
            q.raw("deepk_(%s)" % name, can(self.deep(o)))
            q.labels.add("deep")
            q.nt = True
        elif n == 22:
            # deleting and adding while iterating
            q.labels.add("mutation during iteration")
            q.nt = True
            how = src.below(3)
            if how == 0:
                # delete every visited key: each is visited once, with its current value
                want = [[a, o.p[a], True] for a in sorted(o.p, key=lambda s: [ord(c) for c in s])]
                q.raw("(fun { const a = []; for const k, v in shallow(%s) { const p = %s[k]; a.push([k, v, (typeof v != typeof p) || (v == p) || (typeof v == \"array\")]); delete %s[k] }; return sortk_(a) })()" % (name, name, name), can(want))
                o.p.clear()
            elif how == 1:
                # add keys while iterating: the old ones are visited exactly once
                old = sorted(o.p, key=lambda s: [ord(c) for c in s])
                m = src.int(1, 12)
                q.raw("(fun { const a = []; const n = []; var i = 0; for const k, v in shallow(%s) { if k[:2] != \"zz\" { a.push([k, v]) } while i < %d { %s[\"zz\\(i)\"] = i; i += 1 } }; return sortk_(a) })()" % (name, m, name),
                      can([[a, o.p[a]] for a in old if not a.startswith("zz")]))
                if old:
                    for i in range(m):
                        o.p["zz%d" % i] = i
            else:
                # overwrite all values while iterating: every visit shows the current value
                q.raw("(fun { const a = []; var i = 0; const ks = pairs_(shallow(%s)); for const k, v in shallow(%s) { if i { a.push(v) } i += 1; for const p in ks { %s[p[0]] = i } }; return a })()" % (name, name, name),
                      can(list(range(1, len(o.p)))))
                for a in list(o.p):
                    o.p[a] = len(o.p)
        elif n == 23:
            # growth and deletions
            m = src.pick((3, 9, 17, 40, 100, 300))
            st = src.pick((1, 2, 3))
            s0 = src.below(3)
            q.labels.add("many properties")
            for i in range(m):
                o.p["g%d" % i] = i + s0
            q.raw("(fun { var i = 0; while i < %d { %s[\"g\\(i)\"] = i + %d; i += 1 }  i = 0; while i < %d { delete %s[\"g\\(i)\"]; i += %d }  i = 0; var c = 0; while i < %d { if \"g\\(i)\" in %s { c += %s[\"g\\(i)\"] } i += 1 }; return c })()"
                  % (m, name, s0, m, name, st, m, name, name), can(sum(i + s0 for i in range(m) if i % st)))
            for i in range(0, m, st):
                del o.p["g%d" % i]
            if src.below(2):
                q.raw("(fun { for const k, v in pairs_(shallow(%s)) { if k[:1] == \"g\" && k != \"get\" { delete %s[k] } } return void })()" % (name, name), "v")
                for a in [a for a in o.p if a.startswith("g") and a != "get"]:
                    del o.p[a]
        elif n == 24 and classes:
            c = src.pick(classes)
            kk = src.pick(("s1", "s2", "a"))
            z = src.below(4)
            q.labels.add("static property")
            if z == 0:
                v = self.val(src)
                c.static[kk] = v
                q.raw("(fun { %s.%s = %s; return %s.%s })()" % (c.name, kk, lit(v), c.name, kk), can(v))
            elif z == 1:
                q.raw("%s.?%s" % (c.name, kk), can(c.static[kk]) if kk in c.static else "v")
            elif z == 2:
                c.static.pop(kk, None)
                q.raw("(fun { delete %s.%s; return \"%s\" in %s })()" % (c.name, kk, kk, c.name), "f")
            else:
                q.raw("\"%s\" in %s" % (kk, c.name), can(kk in c.static))
        elif n == 25 and classes:
            c = src.pick(classes)
            if c.used_super:
                return
            on, oo = src.pick(objs)
            c.static["prototype"] = oo
            q.raw("(fun { %s.prototype = %s; return %s.prototype == %s })()" % (c.name, on, c.name, on), "t")
            q.labels.add("prototype replaced")
        elif n == 26 and classes:
            # constructor applied to an existing object
            c = src.pick(classes)
            on, oo = src.pick(objs)
            args = [self.val(src) for _ in range(src.pick((2, 2, 3, 1, 0)))]
            try:
                construct(c, oo, args)
                r = can(oo)
            except Thrown:
                r = "E"
            q.raw("%s.apply(%s, %s)" % (c.name, on, lit(args)), r)
            q.labels.add("constructor applied")
        elif n == 27:
            ex = src.pick(("[1]", "\"s\"", "1", "true", "void", "(fun { })", "mkbuf_([1])", "2.5"))
            z = src.below(4)
            if z == 0:
                q.raw("(fun { const t = %s; t.%s = 1; return 1 })()" % (ex, src.pick(IDENT)), "E")
            elif z == 1:
                q.raw("%s in %s" % (kx, ex), "f")
            elif z == 2:
                q.raw("(fun { const t = %s; return t.?%s })()" % (ex, src.pick(("zz1", "k1", "q"))), "v")
            else:
                q.raw("%s[%s]" % (name, src.pick(("1", "2.5", "void", "true", "[]"))), "E")
            q.labels.add("no properties")
        elif n == 28:
            # a function as a property
            self.nfn += 1
            f = self.fn(src, self.nfn)
            o.p[k] = f
            q.raw("(fun { %s[%s] = fun%s; return void })()" % (name, kx, f.text()), "v")
        else:
            if len(objs) < 8:
                self.new_obj(q, src, classes, objs)

    def compare(self, c, fl, g):
        return SeqCheck.compare(self, c, fl, g)

    def fixed_cases(self):
        """Slices of objects are calls of their function slice() with both ends as they are written."""
        import kosseq
        r = []
        for sl, lo, hi in (("1:2", 1, 2), (":", VOID, VOID), ("-1:", -1, VOID), (":5", VOID, 5), ("1 << 40:-7", 1 << 40, -7), ("0:0", 0, 0)):
            q = kosseq.Seq()
            q.nt = True
            q.labels = {"slice-call"}
            q.stmt("const o = { slice: fun(args...) { return [this.k, args] }, k: 5 }")
            q.do("o[%s]" % sl, [5, [lo, hi]])
            q.stmt("class sc { constructor(k) { this.k = k } fun slice(b, e) { this.k += 1; return [b, e, this.k] } }")
            q.do("sc(7)[%s]" % sl, [lo, hi, 8])
            q.stmt("class sd extends sc { constructor { super(3) } fun slice(args...) { return super.slice(args...) -> array } }")
            q.do("sd()[%s]" % sl, [lo, hi, 4])
            q.do("{ slice: 5 }[%s]" % sl, kosseq.THROWS)
            q.do("{ }[%s]" % sl, kosseq.THROWS)
            q.do("{ slice: fun(a, b, c) { return c } }[%s]" % sl, kosseq.THROWS)
            q.do("{ slice: fun(a, b) { throw [a, b] } }[%s]" % sl, kosseq.THROWS)
            q.do("{ slice: fun(a, b = 6, c = 4) { return [a, b, c] } }[%s]" % sl, [lo, hi, 4])
            r.append(q.case())
        return r
