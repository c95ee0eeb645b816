"""Generates Kos programs together with an equivalent Python program which is the oracle.

Every construct is emitted twice, as Kos text and as Python text, so the reference semantics is Python's own
(closures, try/finally, generators), with Kos-specific operations going through helper functions of class K.
The observable behaviour is the trace of T(...) calls plus the outcome (finished / uncaught exception).
"""
import sys

import kosops
import kosval
from kosval import VOID, lit, canon, strlit

sys.unraisablehook = lambda *a: None


class KThrow(Exception):
    def __init__(self, value=None, rt=False, end=False):
        self.value = value
        self.rt = rt
        self.end = end      # a generator_end object: documented to end an iteration when an iterator throws it


class TooBig(BaseException):
    pass


class KObj:
    def __init__(self, d):
        self.d = d


class KGen:
    """Kos generator: call() resumes it, for-in iterates over it."""
    def __init__(self, k, g):
        self.k = k
        self.g = g
        self.started = False
        self.done = False
        k.keep.append(g)

    def __call__(self, *a):
        try:
            if not self.started:
                self.started = True
                return next(self.g)
            return self.g.send(a[0] if a else VOID)
        except StopIteration:
            self.done = True
            raise KThrow(rt=True, end=True) from None
        except KThrow:
            self.done = True
            raise

    def fresh(self):
        """for-in over a generator which has already finished is left out (spread and for-in disagree on it)."""
        it = iter(self)
        while True:
            if self.done:
                self.k.big = True
                raise TooBig()
            try:
                v = next(it)
            except StopIteration:
                return
            yield v

    def __iter__(self):
        while True:
            try:
                if not self.started:
                    self.started = True
                    v = next(self.g)
                else:
                    v = self.g.send(VOID)
            except StopIteration:
                self.done = True
                return
            except KThrow as e:
                self.done = True
                if e.end:
                    return
                raise
            yield v


class K:
    """Run-time support of the Python side."""
    LIMIT = 4000

    def __init__(self):
        self.trace = []
        self.steps = 0
        self.keep = []
        self.big = False
        self.depth = 0

    def step(self):
        self.steps += 1
        if self.steps > self.LIMIT:
            self.big = True
            raise TooBig()

    def T(self, v):
        self.step()
        self.trace.append(self.show(v))
        return v

    def show(self, v):
        if isinstance(v, KObj):
            return "{" + ",".join(canon(n) + ":" + self.show(v.d[n]) for n in sorted(v.d)) + "}"
        if isinstance(v, list):
            return "[" + ",".join(self.show(x) for x in v) + "]"
        if callable(v):
            return "F"
        return canon(v)

    def bin(self, op, a, b):
        if isinstance(a, str) and len(a) > 2000 or isinstance(b, str) and len(b) > 2000:
            self.big = True
            raise TooBig()
        try:
            return kosops.binary(op, a, b)
        except kosops.Throw:
            raise KThrow(rt=True) from None

    def un(self, op, a):
        try:
            return kosops.unary(op, a)
        except kosops.Throw:
            raise KThrow(rt=True) from None

    def idx(self, a, i):
        if not isinstance(a, (list, str)) or i >= len(a) or i < -len(a):
            raise KThrow(rt=True)
        return a[i]

    def idxo(self, a, i):
        if i >= len(a) or i < -len(a):
            return VOID
        return a[i]

    def slice(self, a, b, e):
        n = len(a)

        def fix(i, dflt):
            if i is VOID:
                return dflt
            if i < 0:
                i += n
            return max(0, min(n, i))
        b = fix(b, 0)
        e = fix(e, n)
        return a[b:max(b, e)]

    def setidx(self, v, a, i):
        if i >= len(a) or i < -len(a):
            raise KThrow(rt=True)
        a[i] = v

    def setidxop(self, op, v, a, i):
        if i >= len(a) or i < -len(a):
            raise KThrow(rt=True)
        a[i] = self.bin(op, a[i], v)

    def prop(self, o, n):
        if n not in o.d:
            raise KThrow(rt=True)
        return o.d[n]

    def propo(self, o, n):
        return o.d.get(n, VOID)

    def setprop(self, v, o, n):
        o.d[n] = v

    def setpropop(self, op, v, o, n):
        o.d[n] = self.bin(op, self.prop(o, n), v)

    def delprop(self, o, n):
        o.d.pop(n, None)

    def interp(self, *parts):
        o = []
        for p in parts:
            if isinstance(p, str):
                o.append(p)
            elif p is True:
                o.append("true")
            elif p is False:
                o.append("false")
            elif p is VOID:
                o.append("void")
            else:
                o.append(str(p))
        return "".join(o)

    def unpack(self, n, v):
        if isinstance(v, KGen):
            it = iter(v)
            r = []
            for _ in range(n):
                try:
                    r.append(next(it))
                except StopIteration:
                    raise KThrow(rt=True, end=True) from None
            return r
        if len(v) < n:
            raise KThrow(rt=True, end=True)
        return list(v)[:n]

    def ev(self, e):
        return "rt" if e.rt else e.value

    def mk(self, id, mode):
        return ("res", id, mode)

    def acquire(self, r):
        if not (r[2] & 4):
            self.T("acq%d" % r[1])
            if r[2] & 1:
                raise KThrow("u:acq%d" % r[1])

    def release(self, r):
        if r[2] & 8:
            raise KThrow(rt=True)
        self.T("rel%d" % r[1])
        if r[2] & 2:
            raise KThrow("u:rel%d" % r[1])

    def enter(self):
        self.step()
        self.depth += 1
        if self.depth > 60:
            self.big = True
            raise TooBig()

    def gen(self, g):
        return KGen(self, g)

    def thr(self, v):
        return KThrow(v)

    def rethrow(self, e):
        return KThrow(e.value, e.rt, e.end)

    def spread(self, *parts):
        r = []
        for sp, v in parts:
            if sp:
                r.extend(v)
            else:
                r.append(v)
        if len(r) > 1000:
            self.big = True
            raise TooBig()
        return r


class Profile:
    """Relative weights of statement kinds."""
    def __init__(self, **kw):
        self.w = dict(trace=6, var=5, assign=6, multi=1, if_=5, while_=2, repeat=1, loop=1, for_=3, switch=2,
                      try_=3, throw=1, defer=1, with_=0, return_=1, break_=2, continue_=2, do=1, fun=2,
                      call=3, elem=2, prop=2, assert_=1, gen=0, genuse=0, recfun=1, delete=1, multiassign=1, yield_=0)
        self.size = 28
        self.depth = 4
        self.dead = 0
        self.__dict__.update({k: v for k, v in kw.items() if k in ("size", "depth", "dead")})
        self.w.update({k: v for k, v in kw.items() if k not in ("size", "depth", "dead")})


FLOW = Profile(defer=0)
DEFER = Profile(defer=5, with_=5, try_=4, throw=3, return_=3, break_=3, continue_=3, switch=1, elem=0, prop=0, delete=0,
                multi=0, multiassign=0)
GEN = Profile(gen=5, genuse=8, yield_=10, for_=4, defer=1, with_=1, switch=1, recfun=0, elem=1, prop=1)
DEAD = Profile(dead=1, if_=9, while_=4, return_=4, throw=3, break_=4, continue_=3, fun=4, defer=1, with_=1, gen=1, genuse=1,
               yield_=2, switch=3, size=36)

# literal markers: \x01 ... \x02 surrounds a literal so that a variant can hide it from the optimiser
OPEN, CLOSE = "\x01", "\x02"


def plain(kos):
    return kos.replace(OPEN, "").replace(CLOSE, "")


def opaque(kos):
    """Every literal passed through an identity function."""
    return kos.replace(OPEN, "id_(").replace(CLOSE, ")")


class Frame:
    def __init__(self, parent, gen=False):
        self.parent = parent
        self.nonlocals = set()
        self.impure = False
        self.gen = gen


class Var:
    __slots__ = ("name", "py", "kind", "const", "frame", "inloop", "info")

    def __init__(self, name, py, kind, const, frame, inloop, info=None):
        self.name, self.py, self.kind, self.const = name, py, kind, const
        self.frame, self.inloop, self.info = frame, inloop, info


class Tail:
    def __init__(self, make):
        self.make = make
        self.done = False


class Ctx:
    """Where a statement is: what break/continue/return mean."""
    def __init__(self, **kw):
        self.loop = False        # continue allowed
        self.brk = False         # break allowed
        self.switch = None       # flag name when the innermost breakable is a switch
        self.outer = None        # context outside the innermost switch
        self.fun = False
        self.gen = False
        self.indefer = False
        self.inloop = False
        self.tail = None         # appended at the end of this scope
        self.__dict__.update(kw)

    def but(self, **kw):
        c = Ctx(**self.__dict__)
        c.__dict__.update(kw)
        return c


class Gen:
    def __init__(self, src, prof):
        self.prof = prof
        self.s = src
        self.p = prof
        self.n = 0
        self.tid = 0
        self.noshadow = set()
        self.frame = Frame(None)
        self.scopes = [[]]
        self.budget = prof.size
        self.labels = set()
        self.kinds = [(w, k) for k, w in prof.w.items() if w > 0]

    # ---- names ----
    def fresh(self):
        self.n += 1
        return self.n

    def declare(self, kind, const, ctx, info=None, name=None):
        i = self.fresh()
        if name is None:
            # reuse a name of an enclosing scope now and then: shadowing
            if self.s.below(6) == 0:
                inner = {v.name for v in self.scopes[-1]}
                cand = sorted({v.name for sc in self.scopes[:-1] for v in sc if v.kind != "fun"} - inner - self.noshadow)
                if cand:
                    name = self.s.pick(cand)
                    self.labels.add("shadow")
            if name is None:
                name = "v%d" % i
        v = Var(name, "%s_%d" % (name, i), kind, const, self.frame, ctx.inloop, info)
        return v

    def add(self, v):
        self.scopes[-1].append(v)

    def lookup(self, kind, assign=False):
        """Visible variables of a kind (respecting shadowing and closures not capturing loop variables)."""
        seen = set()
        r = []
        for sc in reversed(self.scopes):
            for v in reversed(sc):
                if v.name in seen:
                    continue
                seen.add(v.name)
                if v.kind != kind or (assign and v.const):
                    continue
                if v.frame is not self.frame and v.inloop:
                    continue
                r.append(v)
        return r

    def var_py(self, v, assign=False):
        if v.frame is not self.frame and assign:
            f = self.frame
            while f is not v.frame:
                f.nonlocals.add(v.py)
                f.impure = True
                f = f.parent
        return v.py

    def mutated(self, v):
        """An array/object variable's contents are modified."""
        f = self.frame
        while f is not v.frame:
            f.impure = True
            f = f.parent

    # ---- expressions: return (kos, py) ----
    def klit(self, v):
        t = lit(v)
        return OPEN + t + CLOSE

    def int_lit(self):
        v = self.s.int(0, 9) if self.s.below(4) else self.s.pick([-1, -7, 100, 255, 256, -128, 65536, 1 << 40])
        return self.klit(v), repr(v)

    def e_int(self, d):
        s = self.s
        k = s.below(12) if d > 0 else s.below(4)
        if k < 2:
            vs = self.lookup("int")
            if vs:
                v = s.pick(vs)
                return v.name, v.py
            return self.int_lit()
        if k < 4:
            return self.int_lit()
        if k < 7:
            op = s.pick(["+", "-", "*", "&", "|", "^", "%", "/", "<<", ">>"])
            a = self.e_int(d - 1)
            if op in "%/" and s.below(4):
                v = s.int(1, 7)
                b = (self.klit(v), repr(v))
            elif op in ("<<", ">>"):
                v = s.int(0, 5)
                b = (self.klit(v), repr(v))
            else:
                b = self.e_int(d - 1)
                if op in "%/":
                    b = ("id_(%s)" % b[0], b[1])
            return "(%s %s %s)" % (a[0], op, b[0]), "K.bin(%r, %s, %s)" % (op, a[1], b[1])
        if k == 7:
            c, a, b = self.e_bool(d - 1), self.e_int(d - 1), self.e_int(d - 1)
            return "(%s ? %s : %s)" % (c[0], a[0], b[0]), "(%s if %s else %s)" % (a[1], c[1], b[1])
        if k == 8:
            a = self.e_int(d - 1)
            return "T(%s)" % a[0], "K.T(%s)" % a[1]
        if k == 9:
            vs = self.lookup("arr")
            if vs:
                v = s.pick(vs)
                m = s.below(4)
                if m == 0:
                    return "%s.size" % v.name, "len(%s)" % v.py
                i = self.e_int(0) if m == 1 else (lambda n: (self.klit(n), repr(n)))(s.pick([0, 0, 1, -1, 2, -2, 5]))
                return "%s[%s]" % (v.name, i[0]), "K.idx(%s, %s)" % (v.py, i[1])
            return self.e_int(d - 1)
        if k == 10:
            vs = self.lookup("obj")
            if vs:
                v = s.pick(vs)
                n = s.pick(["a", "b", "c"])
                return "%s.%s" % (v.name, n), "K.prop(%s, %r)" % (v.py, n)
            a = self.e_int(d - 1)
            return "(-%s)" % a[0], "K.un('-', %s)" % a[1]
        return self.e_call(d, False) or self.e_int(d - 1)

    def e_call(self, d, impure_ok):
        vs = [v for v in self.lookup("fun") if impure_ok or not v.info["impure"]]
        if not vs:
            return None
        v = self.s.pick(vs)
        if v.info["impure"]:
            self.mark_impure()
        nreq, nopt, rest = v.info["sig"]
        n = nreq + self.s.int(0, nopt) + (self.s.int(0, 2) if rest else 0)
        args = [self.e_int(max(0, d - 1)) for _ in range(n)]
        extra = self.s.below(8) == 0
        if extra and not rest and n == nreq + nopt:
            # surplus arguments are ignored
            args.append(self.e_int(0))
            pyargs = args[:-1]
            pre = args[-1][1]
            return ("%s(%s)" % (v.name, ", ".join(a[0] for a in args)),
                    "K_first(lambda *a: %s(*a[:-1]), %s)" % (v.py, ", ".join(a[1] for a in args)))
        return ("%s(%s)" % (v.name, ", ".join(a[0] for a in args)),
                "%s(%s)" % (v.py, ", ".join(a[1] for a in args)))

    def mark_impure(self):
        # the callee modifies something outside itself; so does everything that calls it
        f = self.frame
        while f is not None:
            f.impure = True
            f = f.parent

    def e_bool(self, d):
        s = self.s
        k = s.below(9) if d > 0 else s.below(3)
        if k == 0:
            v = s.bool()
            return self.klit(v), repr(v)
        if k == 1:
            vs = self.lookup("bool")
            if vs:
                v = s.pick(vs)
                return v.name, v.py
        if k < 4:
            op = s.pick(["<", "<=", ">", ">=", "==", "!="])
            a, b = self.e_int(max(0, d - 1)), self.e_int(max(0, d - 1))
            return "(%s %s %s)" % (a[0], op, b[0]), "K.bin(%r, %s, %s)" % (op, a[1], b[1])
        if k < 7:
            op, pop = s.pick([("&&", "and"), ("||", "or")])
            a, b = self.e_bool(d - 1), self.e_bool(d - 1)
            return "(%s %s %s)" % (a[0], op, b[0]), "(%s %s %s)" % (a[1], pop, b[1])
        if k == 7:
            a = self.e_bool(d - 1)
            return "(! %s)" % a[0], "(not %s)" % a[1]
        vs = self.lookup("obj")
        if vs:
            v = s.pick(vs)
            n = s.pick(["a", "b", "c"])
            return "(%s in %s)" % (strlit(n), v.name), "(%r in %s.d)" % (n, v.py)
        a, b = self.e_str(d - 1), self.e_str(d - 1)
        return "(%s == %s)" % (a[0], b[0]), "(%s == %s)" % (a[1], b[1])

    def e_cond(self, d):
        """Condition: booleans, or a number/string tested for truth."""
        if self.prof.dead and self.s.below(3) == 0:
            b = self.s.bool()
            self.labels.add("constcond")
            return (self.klit(b), repr(b))
        if self.s.below(5) == 0:
            a = self.e_int(d)
            return a[0], "(%s) != 0" % a[1]
        return self.e_bool(d)

    def e_str(self, d):
        s = self.s
        k = s.below(5) if d > 0 else s.below(2)
        if k == 0:
            vs = self.lookup("str")
            if vs:
                v = s.pick(vs)
                return v.name, v.py
        if k < 2:
            v = s.pick(["", "a", "b", "xyz", "\u017c", "\U0001F600"])
            return self.klit(v), repr(v)
        if k == 2:
            a, b = self.e_str(d - 1), self.e_str(d - 1)
            return "(%s + %s)" % (a[0], b[0]), "(%s + %s)" % (a[1], b[1])
        if k == 3:
            a, b = self.e_int(d - 1), self.e_bool(d - 1)
            return '"<\\(%s)|\\(%s)>"' % (a[0], b[0]), "K.interp('<', %s, '|', %s, '>')" % (a[1], b[1])
        a = self.e_str(d - 1)
        i, j = s.int(-3, 3), s.int(-3, 4)
        return "(%s)[%d:%d]" % (a[0], i, j), "K.slice(%s, %d, %d)" % (a[1], i, j)

    def e_arr(self, d):
        s = self.s
        n = s.len(4)
        parts = []
        for _ in range(n):
            vs = self.lookup("arr")
            if vs and s.below(5) == 0:
                v = s.pick(vs)
                parts.append((v.name + "...", "(True, %s)" % v.py))
            else:
                e = self.e_int(max(0, d - 1))
                parts.append((e[0], "(False, %s)" % e[1]))
        return "[" + ", ".join(p[0] for p in parts) + "]", "K.spread(%s)" % ", ".join(p[1] for p in parts)

    def e_obj(self, d):
        names = [n for n in ("a", "b", "c") if self.s.bool()]
        es = [self.e_int(max(0, d - 1)) for _ in names]
        return ("{" + ", ".join("%s: %s" % (n, e[0]) for n, e in zip(names, es)) + "}",
                "KObj({" + ", ".join("%r: %s" % (n, e[1]) for n, e in zip(names, es)) + "})")

    def e_kind(self, kind, d):
        return {"int": self.e_int, "bool": self.e_bool, "str": self.e_str, "arr": self.e_arr, "obj": self.e_obj}[kind](d)

    def e_any(self, d):
        return self.e_kind(self.s.weighted([(5, "int"), (2, "bool"), (2, "str"), (1, "arr"), (1, "obj")]), d)

    # ---- statements: return ([kos lines], [py lines]) ----
    @staticmethod
    def ind(lines):
        return ["    " + x for x in lines]

    def block(self, ctx, depth, mn=1, mx=4, pre_k=(), pre_p=(), mark=False, keep_tail=False):
        """Statements of one scope (without braces)."""
        self.scopes.append([])
        if ctx.tail and not keep_tail:
            ctx = ctx.but(tail=None)
        pre_k, pre_p = list(pre_k), list(pre_p)
        if mark or self.s.bool(2, 3):
            i = self.fresh()
            pre_k.append("T(%d)" % i)
            pre_p.append("K.T(%d)" % i)
        try:
            return self.stmts(ctx, depth, self.s.int(mn, mx), pre_k, pre_p)
        finally:
            self.scopes.pop()

    def stmts(self, ctx, depth, n, k, p):
        for i in range(n):
            if self.budget <= 0:
                break
            self.budget -= 1
            r = self.stmt(ctx, depth, n - i - 1)
            if r is None:
                continue
            if r == "stop":
                break
            sk, sp, end = r
            k += sk
            p += sp
            if end:
                if (self.prof.dead and not (ctx.tail and not ctx.tail.done) and sk[-1].split()[0] in ("return", "return;", "throw", "continue")
                        and self.s.bool()):
                    # unreachable statements, which only the Kos program has
                    self.labels.add("dead")
                    for _ in range(self.s.int(1, 3)):
                        if self.budget <= 0:
                            break
                        self.budget -= 1
                        r = self.stmt(ctx, depth - 1, 0)
                        if r is not None and r != "stop":
                            k += r[0]
                            if r[2]:
                                break
                break
        if ctx.tail and not ctx.tail.done:
            ctx.tail.done = True
            a, b = ctx.tail.make()
            k.append(a)
            p.append(b)
        if not p:
            p = ["pass"]
        return k, p

    def stmt(self, ctx, depth, left):
        s = self.s
        kind = s.weighted(self.kinds)
        return getattr(self, "s_" + kind.rstrip("_"))(ctx, depth, left)

    def leaf(self, k, p):
        return [k], [p], False

    def s_trace(self, ctx, depth, left):
        e = self.e_any(2)
        return self.leaf("T(%s)" % e[0], "K.T(%s)" % e[1])

    def s_var(self, ctx, depth, left):
        kind = self.s.weighted([(5, "int"), (2, "bool"), (1, "str"), (2, "arr"), (2, "obj")])
        const = self.s.below(3) == 0
        imp = kind == "int" and self.s.below(4) == 0
        e = (self.e_call(2, True) if imp else None) or self.e_kind(kind, 2)
        v = self.declare(kind, const, ctx)
        if any(x.name == v.name for x in self.scopes[-1]):
            return None
        self.add(v)
        return self.leaf("%s %s = %s" % ("const" if const else "var", v.name, e[0]), "%s = %s" % (v.py, e[1]))

    def s_assign(self, ctx, depth, left):
        kind = self.s.weighted([(5, "int"), (1, "bool"), (1, "str"), (1, "arr"), (1, "obj")])
        vs = self.lookup(kind, True)
        if not vs:
            return self.s_var(ctx, depth, left)
        v = self.s.pick(vs)
        if self.s.below(8) == 0:
            # the variable assigned is needed to make the function assigned to it
            py = self.var_py(v, True)
            self.labels.add("selfassign")
            a, b = self.s.pick((("x = %s", "x=%s"), ("y = 1, x = %s", "y=1, x=%s"), ("x = %s, y = 2", "x=%s, y=2"), ("x = [%s, 1][0]", "x=[%s, 1][0]")))
            return ["%s = fun(%s) { return x }" % (v.name, a % v.name), "%s = %s()" % (v.name, v.name)], ["%s = lambda %s: x" % (py, b % py), "%s = %s()" % (py, py)], False
        if kind in ("arr", "obj"):
            py = self.var_py(v, True)
            self.labels.add("selfassign")
            e = self.e_int(1)
            if kind == "arr":
                k = self.s.below(3)
                ks = ("[%s, %s[0:1]...]", "[%s, %s[0:2]...]", "[%s, %s...][0:3]")[k]
                ps = ("[%s] + %s[0:1]", "[%s] + %s[0:2]", "([%s] + %s)[0:3]")[k]
            else:
                ks, ps = "{a: %%s, b: (\"a\" in %%s) ? %s.a : 7}" % v.name, "KObj({'a': %s, 'b': %s.d.get('a', 7)})"
            return self.leaf("%s = %s" % (v.name, ks % (e[0], v.name)), "%s = %s" % (py, ps % (e[1], py)))
        op = self.s.pick(["", "+", "-", "*", "^", "|"]) if kind == "int" else ""
        imp = kind == "int" and self.s.below(4) == 0 and not op
        e = (self.e_call(2, True) if imp else None) or self.e_kind(kind, 2)
        if v.frame is not self.frame:
            self.labels.add("closure_write")
        py = self.var_py(v, True)
        if op:
            return self.leaf("%s %s= %s" % (v.name, op, e[0]), "%s = K.bin(%r, %s, %s)" % (py, op, py, e[1]))
        return self.leaf("%s = %s" % (v.name, e[0]), "%s = %s" % (py, e[1]))

    def s_multi(self, ctx, depth, left):
        n = self.s.int(2, 3)
        es = [self.e_int(1) for _ in range(n + self.s.int(-1, 1) if self.s.below(3) == 0 else n)]
        names_k, names_p = [], []
        new = []
        for _ in range(n):
            if self.s.below(5) == 0:
                names_k.append("_")
                names_p.append("_")
            else:
                v = self.declare("int", False, ctx)
                if any(x.name == v.name for x in self.scopes[-1] + new):
                    v = Var("v%d" % self.fresh(), "", "int", False, self.frame, ctx.inloop)
                    v.py = v.name + "_m"
                new.append(v)
                names_k.append(v.name)
                names_p.append(v.py)
        for v in new:
            self.add(v)
        if not new:
            return None
        # at least one variable is used: an assignment with no used variable is optimised out, by design
        u = self.s.pick(new)
        return ["var %s = [%s]" % (", ".join(names_k), ", ".join(e[0] for e in es)), "T(%s)" % u.name], \
               ["%s = K.unpack(%d, [%s])" % (", ".join(names_p), n, ", ".join(e[1] for e in es)), "K.T(%s)" % u.py], False

    def s_multiassign(self, ctx, depth, left):
        vs = self.lookup("int", True)
        if len(vs) < 2:
            return None
        a = self.s.pick(vs)
        b = self.s.pick([v for v in vs if v is not a])
        ea, eb = self.e_int(1), self.e_int(1)
        pa, pb = self.var_py(a, True), self.var_py(b, True)
        t = "t%d" % self.fresh()
        return ["%s, %s = [%s, %s]" % (a.name, b.name, ea[0], eb[0])], \
               ["%s = [%s, %s]" % (t, ea[1], eb[1]), "%s = %s[0]" % (pa, t), "%s = %s[1]" % (pb, t)], False

    def s_if(self, ctx, depth, left):
        if depth <= 0:
            return self.s_trace(ctx, depth, left)
        n = self.s.weighted([(4, 1), (2, 2), (1, 3)])
        k, p = [], []
        for i in range(n):
            c = self.e_cond(2)
            bk, bp = self.block(ctx, depth - 1)
            k.append(("if %s {" if i == 0 else "else if %s {") % c[0])
            k += self.ind(bk) + ["}"]
            if i == 0:
                p.append("if %s:" % c[1])
            else:
                p.append("elif %s:" % c[1])
            p += self.ind(bp)
        if self.s.bool():
            bk, bp = self.block(ctx, depth - 1)
            k += ["else {"] + self.ind(bk) + ["}"]
            p += ["else:"] + self.ind(bp)
        return k, p, False

    def loopctx(self, ctx):
        return ctx.but(loop=True, brk=True, switch=None, outer=None, inloop=True)

    def counter(self):
        i = self.fresh()
        return "c%d" % i

    def s_while(self, ctx, depth, left):
        if depth <= 0:
            return None
        c = self.counter()
        lim = self.s.int(1, 3)
        e = self.e_cond(1)
        bk, bp = self.block(self.loopctx(ctx), depth - 1)
        form = self.s.below(3)
        cond_k = "(%s < %d) && %s" % (c, lim, e[0]) if form else "%s < %d" % (c, lim)
        cond_p = "%s < %d and (%s)" % (c, lim, e[1]) if form else "%s < %d" % (c, lim)
        k = ["var %s = 0" % c, "while %s {" % cond_k, "    %s += 1" % c] + self.ind(bk) + ["}"]
        p = ["%s = 0" % c, "while %s:" % cond_p, "    K.step(); %s += 1" % c] + self.ind(bp)
        self.labels.add("loop")
        return k, p, False

    def s_repeat(self, ctx, depth, left):
        if depth <= 0:
            return None
        c = self.counter()
        lim = self.s.int(1, 3)
        e = self.e_cond(1)
        bk, bp = self.block(self.loopctx(ctx), depth - 1)
        k = ["var %s = 0" % c, "repeat {", "    %s += 1" % c] + self.ind(bk) + ["} while (%s < %d) && %s" % (c, lim, e[0])]
        p = ["%s = 0" % c, "f%s = True" % c, "while f%s or (%s < %d and (%s)):" % (c, c, lim, e[1]),
             "    f%s = False" % c, "    K.step(); %s += 1" % c] + self.ind(bp)
        return k, p, False

    def s_loop(self, ctx, depth, left):
        if depth <= 0:
            return None
        c = self.counter()
        lim = self.s.int(1, 3)
        bk, bp = self.block(self.loopctx(ctx), depth - 1)
        k = ["var %s = 0" % c, "loop {", "    %s += 1" % c, "    if %s > %d { break }" % (c, lim)] + self.ind(bk) + ["}"]
        p = ["%s = 0" % c, "while True:", "    K.step(); %s += 1" % c, "    if %s > %d: break" % (c, lim)] + self.ind(bp)
        return k, p, False

    def s_for(self, ctx, depth, left):
        if depth <= 0:
            return None
        m = self.s.below(5)
        lc = self.loopctx(ctx)
        if m == 0:
            a, b = self.s.int(-1, 3), self.s.int(0, 4)
            it = ("range(%d, %d)" % (a, b), "range(%d, %d)" % (a, b))
        elif m == 1:
            it = self.e_str(1)
        elif m == 2:
            vs = self.lookup("arr")
            if vs:
                v = self.s.pick(vs)
                it = ("%s[:]" % v.name, "list(%s)" % v.py)
            else:
                it = self.e_arr(1)
        elif m == 3 and self.lookup("genfun"):
            g = self.s.pick(self.lookup("genfun"))
            if g.info["impure"]:
                self.mark_impure()
            es = [self.e_int(1) for _ in range(g.info["sig"][0])]
            it = ("%s(%s)" % (g.name, ", ".join(e[0] for e in es)), "%s(%s)" % (g.py, ", ".join(e[1] for e in es)))
            self.labels.add("for_gen")
        else:
            n = self.s.int(0, 4)
            if self.s.bool():
                it = self.e_arr(1)
            else:
                it = ("range(%d)" % n, "range(%d)" % n)
        self.scopes.append([])
        v = self.declare("str" if m == 1 else "int", self.s.bool(), lc)
        self.add(v)
        bk, bp = self.block(lc, depth - 1)
        self.scopes.pop()
        k = ["for %s %s in %s {" % ("const" if v.const else "var", v.name, it[0])] + self.ind(bk) + ["}"]
        p = ["for %s in %s:" % (v.py, it[1]), "    K.step()"] + self.ind(bp)
        self.labels.add("loop")
        return k, p, False

    def s_switch(self, ctx, depth, left):
        if depth <= 0:
            return None
        e = self.e_int(1) if self.s.bool(3, 4) else self.e_str(1)
        isint = True
        n = self.s.int(1, 4)
        dflt = self.s.int(0, n) if self.s.bool(2, 3) else -1
        flag = "sf%d" % self.fresh()
        sel = "sw%d" % self.fresh()
        sc = ctx.but(brk=True, switch=flag, outer=ctx)
        k = ["switch %s {" % e[0]]
        ev = "se%d" % self.fresh()
        p = ["%s = %s" % (ev, e[1]), "%s = False" % flag, "%s = -1" % sel]
        bodies = []
        tests = []
        for i in range(n):
            ft = i < n - 1 and self.s.below(3) == 0
            if i == dflt:
                k.append("    default {")
            else:
                cs = [self.e_int(1) if self.s.below(4) == 0 else self.case_lit() for _ in range(self.s.int(1, 2))]
                k.append("    case %s {" % ", ".join(c[0] for c in cs))
                for c in cs:
                    tests.append(("if %s == -1 and K_eq(%s, %s): %s = %d" % (sel, ev, c[1], sel, i)))
            bk, bp = self.block(sc, depth - 1, mark=True)
            if ft:
                if bp and bp[-1] in ("break", "continue") or any(x.startswith(("return", "raise")) for x in bp[-1:]):
                    ft = False
                else:
                    bk = bk + ["fallthrough"]
                    self.labels.add("fallthrough")
            k += ["    " + x for x in self.ind(bk)] + ["    }"]
            bodies.append((i, bp, ft))
        k.append("}")
        p += tests
        if 0 <= dflt < n:
            p.append("if %s == -1: %s = %d" % (sel, sel, dflt))
        p.append("for _ in (0,):")
        for i, bp, ft in bodies:
            p.append("    if %s == %d:" % (sel, i))
            p += self.ind(self.ind(bp))
            if ft:
                p.append("        %s = %d" % (sel, i + 1))
        if ctx.loop:
            p.append("if %s: %s" % (flag, self.py_continue(ctx)))
        self.labels.add("switch")
        return k, p, False

    def case_lit(self):
        v = self.s.int(0, 5)
        if self.s.below(8) == 0:
            v = self.s.pick(["a", "", "xyz"])
        return self.klit(v), repr(v)

    def py_continue(self, ctx):
        if ctx.switch:
            return "%s = True; break" % ctx.switch
        return "continue"

    def s_break(self, ctx, depth, left):
        if not ctx.brk:
            return self.s_trace(ctx, depth, left)
        c = self.e_cond(1)
        self.labels.add("break")
        if self.s.below(3) == 0:
            return ["break"], ["break"], True
        return ["if %s { break }" % c[0]], ["if %s: break" % c[1]], False

    def s_continue(self, ctx, depth, left):
        if not ctx.loop:
            return self.s_trace(ctx, depth, left)
        c = self.e_cond(1)
        py = self.py_continue(ctx)
        self.labels.add("continue")
        if self.s.below(4) == 0:
            return ["continue"], py.split("; "), True
        return ["if %s { continue }" % c[0]], ["if %s:" % c[1]] + self.ind(py.split("; ")), False

    def s_return(self, ctx, depth, left):
        if not ctx.fun:
            return self.s_trace(ctx, depth, left)
        c = self.e_cond(1)
        self.labels.add("return")
        if ctx.gen:
            e = ("", "")
        else:
            e = self.e_int(2)
        if self.s.below(4) == 0:
            return ["return %s;" % e[0]], ["return %s" % e[1]], True
        return ["if %s { return %s }" % (c[0], e[0])], ["if %s: return %s" % (c[1], e[1])], False

    def s_throw(self, ctx, depth, left):
        c = self.e_cond(1)
        m = self.s.below(4)
        if m == 0:
            a = self.e_int(1)
            e = ('"u:\\(%s)"' % a[0], "K.interp('u:', %s)" % a[1])
        elif m == 1:
            e = self.e_arr(1)
        else:
            e = self.e_int(1)
        self.labels.add("throw")
        if self.s.below(3) == 0:
            return ["throw %s" % e[0]], ["raise K.thr(%s)" % e[1]], True
        return ["if %s { throw %s }" % (c[0], e[0])], ["if %s: raise K.thr(%s)" % (c[1], e[1])], False

    def s_try(self, ctx, depth, left):
        if depth <= 0:
            return None
        bk, bp = self.block(ctx, depth - 1)
        self.scopes.append([])
        v = self.declare("exc", self.s.bool(), ctx)
        rethrow = self.s.below(6) == 0
        if rethrow:
            self.noshadow.add(v.name)
        self.add(v)
        pre_k = ["T(ev_(%s))" % v.name]
        pre_p = ["K.T(K.ev(%s))" % v.py]
        ck, cp = self.block(ctx, depth - 1, 0, 3, pre_k, pre_p)
        if rethrow and not (cp and cp[-1].startswith(("return", "raise", "break", "continue"))):
            ck.append("throw %s" % v.name)
            cp.append("raise K.rethrow(%s)" % v.py)
            self.labels.add("rethrow")
        self.scopes.pop()
        x = "x%d" % self.fresh()
        k = ["try {"] + self.ind(bk) + ["}", "catch %s %s {" % ("const" if v.const else "var", v.name)] + self.ind(ck) + ["}"]
        p = ["try:"] + self.ind(bp) + ["except KThrow as %s:" % x, "    %s = %s" % (v.py, x)] + self.ind(cp)
        self.labels.add("try")
        return k, p, False

    def s_defer(self, ctx, depth, left):
        """defer { } followed by the rest of the scope."""
        if depth <= 0:
            return None
        dk, dp = self.block(ctx.but(indefer=True), depth - 1, 1, 2)
        t = self.fresh()
        rk, rp = self.stmts(ctx, depth, left, [], [])
        k = ["defer {"] + self.ind(["T(%s)" % strlit("d%d" % t)] + dk) + ["}"] + rk
        p = ["try:"] + self.ind(rp) + ["finally:"] + self.ind(["K.T('d%d')" % t] + dp)
        self.labels.add("defer")
        return k, p, True

    def s_with(self, ctx, depth, left):
        if depth <= 0:
            return None
        n = self.s.weighted([(3, 1), (2, 2), (1, 3)])
        k, p = [], []
        heads = []
        objs = []
        self.scopes.append([])
        for _ in range(n):
            i = self.fresh()
            mode = self.s.weighted([(6, 0), (1, 1), (2, 2), (1, 3), (1, 4), (1, 6), (1, 8)])
            named = self.s.bool()
            py = "r%d" % i
            heads.append(("const w%d = " % i if named else "") + "mk_(%d, %d)" % (i, mode))
            objs.append((py, i, mode))
        bk, bp = self.block(ctx, depth - 1)
        self.scopes.pop()
        k = ["with %s {" % ", ".join(heads)] + self.ind(bk) + ["}"]
        body = bp
        for py, i, mode in reversed(objs):
            body = ["%s = K.mk(%d, %d)" % (py, i, mode), "K.acquire(%s)" % py, "try:"] + self.ind(body) + \
                   ["finally:", "    K.release(%s)" % py]
        self.labels.add("with")
        return k, body, False

    def s_do(self, ctx, depth, left):
        if depth <= 0:
            return None
        bk, bp = self.block(ctx, depth - 1)
        return ["do {"] + self.ind(bk) + ["}"], bp, False

    def s_assert(self, ctx, depth, left):
        c = self.e_cond(1)
        return ["assert %s" % c[0]], ["if not (%s): raise KThrow(rt=True)" % c[1]], False

    def s_elem(self, ctx, depth, left):
        vs = self.lookup("arr")
        if not vs:
            return None
        v = self.s.pick(vs)
        self.mutated(v)
        m = self.s.below(5)
        i = self.s.pick([0, 0, 1, -1, 2, 7])
        if m == 0:
            e = self.e_int(1)
            return self.leaf("%s.push(%s)" % (v.name, e[0]), "%s.append(%s)" % (v.py, e[1]))
        imp = self.s.below(4) == 0
        e = (self.e_call(1, True) if imp else None) or self.e_int(1)
        if m < 3:
            return self.leaf("%s[%d] = %s" % (v.name, i, e[0]), "K.setidx(%s, %s, %d)" % (e[1], v.py, i))
        op = self.s.pick(["+", "-", "*"])
        return self.leaf("%s[%d] %s= %s" % (v.name, i, op, e[0]), "K.setidxop(%r, %s, %s, %d)" % (op, e[1], v.py, i))

    def s_prop(self, ctx, depth, left):
        vs = self.lookup("obj")
        if not vs:
            return None
        v = self.s.pick(vs)
        self.mutated(v)
        n = self.s.pick(["a", "b", "c"])
        imp = self.s.below(4) == 0
        e = (self.e_call(1, True) if imp else None) or self.e_int(1)
        if self.s.bool():
            return self.leaf("%s.%s = %s" % (v.name, n, e[0]), "K.setprop(%s, %s, %r)" % (e[1], v.py, n))
        op = self.s.pick(["+", "-", "*"])
        return self.leaf("%s.%s %s= %s" % (v.name, n, op, e[0]), "K.setpropop(%r, %s, %s, %r)" % (op, e[1], v.py, n))

    def s_delete(self, ctx, depth, left):
        vs = self.lookup("obj")
        if not vs:
            return None
        v = self.s.pick(vs)
        self.mutated(v)
        n = self.s.pick(["a", "b", "c"])
        return self.leaf("delete %s.%s" % (v.name, n), "K.delprop(%s, %r)" % (v.py, n))

    def s_call(self, ctx, depth, left):
        c = self.e_call(2, True)
        if not c:
            return None
        self.labels.add("call")
        return self.leaf("T(%s)" % c[0], "K.T(%s)" % c[1])

    def function(self, ctx, depth, name, gen=False, rec=False):
        """-> (kos params+body lines, py def lines, info)"""
        s = self.s
        frame = Frame(self.frame, gen)
        outer_frame = self.frame
        self.frame = frame
        fc = Ctx(fun=True, gen=gen)
        self.scopes.append([])
        nreq = s.int(0, 3)
        nopt = s.int(0, 1) if not gen else 0
        rest = s.below(5) == 0 and not gen
        if rec:
            nreq, nopt, rest = max(1, nreq), 0, False
        ps = [self.declare("int", False, fc, name="p%d" % (self.fresh())) for _ in range(nreq + nopt)]
        kpar = [v.name for v in ps[:nreq]]
        ppar = [v.py for v in ps[:nreq]]
        # defaults are evaluated where the function is declared
        self.frame = outer_frame
        pre_p = []
        for v in ps[nreq:]:
            e = self.e_int(1)
            t = "df%d" % self.fresh()
            pre_p.append("%s = %s" % (t, e[1]))
            kpar.append("%s = %s" % (v.name, e[0]))
            ppar.append("%s=%s" % (v.py, t))
        self.frame = frame
        for v in ps:
            self.add(v)
        body_pre_k, body_pre_p = [], ["K.enter()"] if not gen else ["K.step()"]
        if rest:
            v = self.declare("arr", False, fc, name="p%d" % self.fresh())
            kpar.append(v.name + "...")
            ppar.append("*" + v.py)
            body_pre_p.append("%s = list(%s)" % (v.py, v.py))
            self.add(v)
        if rec:
            n = ps[0]
            self.noshadow.add(n.name)
            e = self.e_int(1)
            body_pre_k.append("if %s <= 0 { return %s }" % (n.name, e[0]))
            body_pre_p.append("if %s <= 0: return %s" % (n.py, e[1]))
        def tail():
            if rec:
                args = [("%s - 1" % ps[0].name, "%s - 1" % ps[0].py)] + [self.e_int(1) for _ in ps[1:]]
                return ("return %s(%s)" % (name[0], ", ".join(a[0] for a in args)),
                        "return %s(%s)" % (name[1], ", ".join(a[1] for a in args)))
            e = self.e_int(2)
            return "return %s" % e[0], "return %s" % e[1]
        k, p = self.block(fc.but(tail=Tail(tail)), depth - 1, 1, 4, keep_tail=True)
        self.scopes.pop()
        self.frame = outer_frame
        if not gen:
            p = ["try:"] + self.ind(p) + ["finally:", "    K.depth -= 1"]
        if rec:
            # clamp the recursion depth
            body_pre_k.insert(0, "if %s > 5 { %s = 5 }" % (ps[0].name, ps[0].name))
            body_pre_p.insert(0, "if %s > 5: %s = 5" % (ps[0].py, ps[0].py))
        enter = [x for x in body_pre_p if x == "K.enter()"]
        rest_pre = [x for x in body_pre_p if x != "K.enter()"]
        if enter:
            p = enter + ["try:"] + self.ind(rest_pre) + p[1:-2] + p[-2:]
        else:
            p = rest_pre + p
        nl = sorted(frame.nonlocals)
        if nl:
            p = ["nonlocal " + ", ".join(nl)] + p
        k = body_pre_k + k
        return kpar, k, ppar, p, pre_p, dict(sig=(nreq, nopt, rest), impure=frame.impure)

    def s_fun(self, ctx, depth, left):
        if depth <= 0 or self.fdepth() >= 2:
            return None
        i = self.fresh()
        name = ("f%d" % i, "f%d" % i)
        kpar, k, ppar, p, pre_p, info = self.function(ctx, depth, name)
        form = self.s.below(3)
        if form == 0:
            kk = ["fun %s(%s) {" % (name[0], ", ".join(kpar))] + self.ind(k) + ["}"]
        else:
            kk = ["const %s = fun(%s) {" % (name[0], ", ".join(kpar))] + self.ind(k) + ["}"]
        pp = pre_p + ["def %s(%s):" % (name[1], ", ".join(ppar))] + self.ind(p)
        v = Var(name[0], name[1], "fun", True, self.frame, ctx.inloop, info)
        self.add(v)
        self.labels.add("fun")
        return kk, pp, False

    def s_recfun(self, ctx, depth, left):
        if depth <= 0 or self.fdepth() >= 2:
            return None
        i = self.fresh()
        name = ("f%d" % i, "f%d" % i)
        kpar, k, ppar, p, pre_p, info = self.function(ctx, depth, name, rec=True)
        kk = ["fun %s(%s) {" % (name[0], ", ".join(kpar))] + self.ind(k) + ["}"]
        pp = pre_p + ["def %s(%s):" % (name[1], ", ".join(ppar))] + self.ind(p)
        self.add(Var(name[0], name[1], "fun", True, self.frame, ctx.inloop, info))
        self.labels.add("recursion")
        return kk, pp, False

    def fdepth(self):
        n, f = 0, self.frame
        while f.parent is not None:
            n += 1
            f = f.parent
        return n

    # ---- generators ----
    def s_gen(self, ctx, depth, left):
        if depth <= 0 or self.fdepth() >= 2:
            return None
        i = self.fresh()
        name = "g%d" % i
        frame = Frame(self.frame, True)
        outer_frame = self.frame
        self.frame = frame
        fc = Ctx(fun=True, gen=True)
        self.scopes.append([])
        ps = [self.declare("int", False, fc, name="p%d" % self.fresh()) for _ in range(self.s.int(0, 2))]
        for v in ps:
            self.add(v)
        k, p = self.block(fc, depth - 1, 1, 5)
        self.scopes.pop()
        # at least one yield makes it a generator
        e = self.e_yield_first()
        k = [e[0]] + k
        p = [e[1]] + p
        self.frame = outer_frame
        nl = sorted(frame.nonlocals)
        body = (["nonlocal " + ", ".join(nl)] if nl else []) + ["K.step()"] + p
        kk = ["fun %s(%s) {" % (name, ", ".join(v.name for v in ps))] + self.ind(k) + ["}"]
        pp = ["def %s_i(%s):" % (name, ", ".join(v.py for v in ps))] + self.ind(body) + \
             ["def %s(*a): return K.gen(%s_i(*a))" % (name, name)]
        self.add(Var(name, name, "genfun", True, self.frame, ctx.inloop,
                     dict(sig=(len(ps), 0, False), impure=frame.impure)))
        self.labels.add("genfun")
        return kk, pp, False

    def e_yield_first(self):
        v = self.s.int(0, 9)
        return "yield %d" % v, "yield %d" % v

    def s_yield(self, ctx, depth, left):
        if not ctx.gen:
            return self.s_trace(ctx, depth, left)
        e = self.e_int(1)
        self.labels.add("yield")
        if self.s.below(3) == 0:
            return ["T(yield %s)" % e[0]], ["K.T((yield %s))" % e[1]], False
        return ["yield %s" % e[0]], ["yield %s" % e[1]], False

    def s_genuse(self, ctx, depth, left):
        """Creates a generator, or resumes one by hand."""
        gs = self.lookup("gen")
        s = self.s
        if gs and s.below(4):
            v = s.pick(gs)
            self.mark_impure()
            m = s.below(5)
            if m == 0 and depth > 0:
                lc = self.loopctx(ctx)
                self.scopes.append([])
                x = self.declare("int", True, lc)
                self.add(x)
                bk, bp = self.block(lc, depth - 1)
                self.scopes.pop()
                return ["for const %s in %s {" % (x.name, v.name)] + self.ind(["T(%s)" % x.name] + bk) + ["}"], \
                       ["for %s in %s.fresh():" % (x.py, v.py), "    K.step()", "    K.T(%s)" % x.py] + self.ind(bp), False
            if m == 1:
                return self.leaf("T([%s...])" % v.name, "K.T(list(%s))" % v.py)
            as_ = [self.e_int(1) for _ in range(s.weighted(((3, 0), (4, 1), (2, 2), (1, 3))))]
            ka = ", ".join(e[0] for e in as_)
            pa = ", ".join(e[1] for e in as_)
            how = s.below(5)
            if how == 3:
                ka = "[%s]..." % ka
            if how == 4:
                return self.leaf("T(%s.apply(0, [%s]))" % (v.name, ka), "K.T(%s(%s))" % (v.py, pa))
            return self.leaf("T(%s(%s))" % (v.name, ka), "K.T(%s(%s))" % (v.py, pa))
        fs = self.lookup("genfun")
        if not fs:
            return None
        f = s.pick(fs)
        if f.info["impure"]:
            self.mark_impure()
        es = [self.e_int(1) for _ in range(f.info["sig"][0])]
        v = self.declare("gen", True, ctx, name="it%d" % self.fresh())
        self.add(v)
        self.labels.add("gen_manual")
        return self.leaf("const %s = %s(%s)" % (v.name, f.name, ", ".join(e[0] for e in es)),
                         "%s = %s(%s)" % (v.py, f.py, ", ".join(e[1] for e in es)))


def K_eq(a, b):
    if type(a) is bool or type(b) is bool:
        return type(a) is type(b) and a == b
    if isinstance(a, str) != isinstance(b, str):
        return False
    return a == b


def K_first(f, *a):
    return f(*a)


def generate(src, prof, wrap=None):
    """-> dict(kos=marked text, exp=expected line, labels=[...]) or None when the program runs too long."""
    g = Gen(src, prof)
    mode = src.below(3) if wrap is None else wrap   # 0 module level, 1 function, 2 nested closure
    ctx = Ctx(fun=mode > 0)
    main_frame = g.frame
    if mode:
        g.frame = Frame(main_frame)
    k, p = g.stmts(ctx.but(tail=Tail(lambda: ('T("end")', "K.T('end')"))), prof.depth, 12, [], [])
    # dead text after an unconditional exit is legal; keep Python valid
    if mode == 1:
        k = ["fun main_ {"] + Gen.ind(k) + ["}", "main_()"]
    elif mode == 2:
        k = ["(fun { return fun {"] + Gen.ind(k) + ["}})()()"]
    py = "def prog():\n" + "\n".join("    " + x for x in p) + "\n"
    kt = "import kvp.*\n" + "\n".join(k) + "\n"
    rt = K()
    env = {"K": rt, "KObj": KObj, "KThrow": KThrow, "K_eq": K_eq, "K_first": K_first, "VOID": VOID}
    try:
        exec(compile(py, "<model>", "exec"), env)
    except SyntaxError as e:
        raise RuntimeError("model syntax: %s\n%s\n%s" % (e, kt, py))
    outcome = "ok"
    try:
        env["prog"]()
    except KThrow as e:
        outcome = "exc " + rt.show(rt.ev(e))
    except TooBig:
        return None
    trace = list(rt.trace)
    if rt.big:
        return None
    return {"kos": kt, "py": py, "exp": ";".join(trace) + " | " + outcome, "labels": sorted(g.labels), "n": len(trace)}
