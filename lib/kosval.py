"""Values shared between the Python models and generated Kos programs.

lit(v)  -> Kos expression producing v
show    -> Kos prelude function `show_(v)` printing a value canonically (type, exact bits)
canon(v)-> the same canonical text computed in Python
"""
import math
import struct
from fractions import Fraction

M64 = (1 << 64) - 1
I64MIN = -(1 << 63)
I64MAX = (1 << 63) - 1


def wrap(i):
    i &= M64
    return i - (1 << 64) if i >> 63 else i


class Void:
    def __repr__(self):
        return "void"

    def __eq__(self, o):
        return isinstance(o, Void)

    def __hash__(self):
        return 7

    def __bool__(self):
        return False


VOID = Void()


class Buf:
    """Model of a buffer."""
    def __init__(self, data=b""):
        self.b = bytearray(data)

    def __repr__(self):
        return "Buf(%s)" % bytes(self.b).hex()


def fbits(x):
    if x != x:
        return "nan"
    return struct.pack(">d", x).hex()


def strlit(s):
    o = ['"']
    for ch in s:
        c = ord(ch)
        if ch in '"\\':
            o.append("\\" + ch)
        elif 32 <= c < 127:
            o.append(ch)
        elif c < 256:
            o.append("\\x%02x" % c)
        else:
            o.append("\\x{%x}" % c)
    o.append('"')
    return "".join(o)


def safe_literal(s):
    """True if the decimal text s is far enough from a rounding boundary, and short enough, that any parser
    accurate to a few hundredths of an ulp must return float(s)."""
    x = float(s)
    if x == 0:
        return True
    m, _, e = s.partition("e")
    if len(m.replace(".", "").strip("0")) > 15 or abs(math.log10(x)) > 30:
        return False
    d = Fraction(s)
    fx = Fraction(x)
    lo = (fx + Fraction(math.nextafter(x, 0))) / 2
    hi = (fx + Fraction(math.nextafter(x, math.inf))) / 2
    u = Fraction(math.ulp(x))
    return min(d - lo, hi - d) > u / 20


def floatlit(x):
    """Expression without sign issues: callers wrap it in parentheses."""
    if x != x:
        return "NAN_"
    if math.isinf(x):
        return "INF_" if x > 0 else "(-INF_)"
    s = repr(abs(x))
    if not safe_literal(s):
        # the decimal parser is only documented to be close; pass the exact bits instead
        return "fb_(%s)" % lit(struct.unpack(">q", struct.pack(">d", x))[0])
    if "e" in s:
        m, e = s.split("e")
        if "." not in m:
            m += ".0"
        s = m + "e" + str(int(e))
    if math.copysign(1.0, x) < 0:
        return "(-" + s + ")"
    return s


def lit(v):
    if isinstance(v, Void):
        return "void"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, int):
        if v < 0:
            if v == I64MIN:
                return "(-0x8000000000000000)"
            return "(-%d)" % -v
        return str(v)
    if isinstance(v, float):
        return floatlit(v)
    if isinstance(v, str):
        return strlit(v)
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(lit(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join(strlit(k) + ": " + lit(x) for k, x in v.items()) + "}"
    if isinstance(v, Buf):
        return "mkbuf_([" + ", ".join(str(x) for x in v.b) + "])"
    raise TypeError(repr(v))


def canon(v):
    if isinstance(v, Void):
        return "v"
    if v is True:
        return "t"
    if v is False:
        return "f"
    if isinstance(v, int):
        return "i%d" % v
    if isinstance(v, float):
        return "d" + fbits(v)
    if isinstance(v, str):
        return "s" + ".".join("%d" % ord(c) for c in v)
    if isinstance(v, (list, tuple)):
        return "[" + ",".join(canon(x) for x in v) + "]"
    if isinstance(v, dict):
        return "{" + ",".join(canon(k) + ":" + canon(v[k]) for k in sorted(v, key=lambda k: [ord(c) for c in k])) + "}"
    if isinstance(v, (Buf, bytes, bytearray)):
        return "b" + (bytes(v.b) if isinstance(v, Buf) else bytes(v)).hex()
    raise TypeError(repr(v))


PRELUDE = r"""
import base.*
import math
import io
import kos

const HEX_ = "0123456789abcdef"
const NAN_ = (fun { return math.nan })()
const INF_ = (fun { return math.infinity })()

fun mkbuf_(a)
{
    const b = buffer(a.size)
    var i = 0
    while i < a.size {
        b[i] = a[i]
        i += 1
    }
    return b
}

fun fb_(bits)
{
    const b = buffer()
    b.pack(">i8", bits)
    return b.unpack(">f8")[0]
}

fun hex_(b)
{
    const o = []
    var i = 0
    while i < b.size {
        const c = b[i]
        o.push(HEX_[c >> 4])
        o.push(HEX_[c & 15])
        i += 1
    }
    return string(o...)
}

fun fbits_(x)
{
    if x != x {
        return "nan"
    }
    const b = buffer()
    b.pack(">f8", x)
    return hex_(b)
}

fun cps_(s)
{
    const o = []
    var i = 0
    while i < s.size {
        if i {
            o.push(".")
        }
        o.push(string(s.code(i)))
        i += 1
    }
    return string(o...)
}

fun show_(v)
{
    switch typeof v {
        case "integer" { return "i" + string(v) }
        case "string"  { return "s" + cps_(v) }
        case "void"    { return "v" }
        case "boolean" { if v { return "t" } else { return "f" } }
        case "float"   { return "d" + fbits_(v) }
        case "buffer"  { return "b" + hex_(v) }
        case "array"   {
            const o = ["["]
            var i = 0
            while i < v.size {
                if i {
                    o.push(",")
                }
                o.push(show_(v[i]))
                i += 1
            }
            o.push("]")
            return string(o...)
        }
        case "function" { return "F" }
        case "class"    { return "C" }
        case "module"   { return "M" }
        default {
            const keys = [shallow(v)...]
            const names = []
            for const k in keys {
                names.push(k[0])
            }
            # insertion sort: independent of the library's sort
            var i = 1
            while i < names.size {
                const x = names[i]
                var j = i
                while (j > 0) && (x < names[j - 1]) {
                    names[j] = names[j - 1]
                    j -= 1
                }
                names[j] = x
                i += 1
            }
            const o = ["{"]
            i = 0
            while i < names.size {
                if i {
                    o.push(",")
                }
                o.push(show_(names[i]))
                o.push(":")
                o.push(show_(v[names[i]]))
                i += 1
            }
            o.push("}")
            return string(o...)
        }
    }
}

fun err_(e)
{
    var v = void
    try {
        v = e.value
    }
    catch const e2 {
        return "E?"
    }
    if typeof v == "string" {
        return "E" + v
    }
    return "X" + show_(v)
}

# runs one case: prints "#<n> <result>" lines
fun case_(n, f)
{
    var r = void
    try {
        r = f()
    }
    catch const e {
        r = err_(e)
    }
    print("#" + string(n) + " " + r)
}
"""
