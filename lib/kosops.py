"""Reference semantics of Kos operators (from the documentation and the language's own tests)."""
import math
from kosval import VOID, Void, Buf, wrap, I64MIN, I64MAX


class Throw(Exception):
    """The operation throws a Kos exception."""


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def to_int(v):
    if not isnum(v):
        raise Throw("convert")
    if isinstance(v, float):
        if v != v:
            raise Throw("nan")
        if v <= -9223372036854775808.0 or v >= 9223372036854775808.0:
            raise Throw("range")
        return math.floor(v)
    return v


def truthy(v):
    if isinstance(v, Void) or v is False:
        return False
    if isnum(v):
        return v != 0
    return True


def fdiv(a, b):
    return a / b


def arith(op, a, b):
    if op == "+" and isinstance(a, str) and isinstance(b, str):
        return a + b
    if not (isnum(a) and isnum(b)):
        raise Throw("types")
    if isinstance(a, float) or isinstance(b, float):
        a = float(a)
        b = float(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if b == 0:
            raise Throw("div0")
        if op == "/":
            return a / b
        if math.isinf(a):
            return float("nan")
        return math.fmod(a, b)
    if op == "+":
        return wrap(a + b)
    if op == "-":
        return wrap(a - b)
    if op == "*":
        return wrap(a * b)
    if b == 0:
        raise Throw("div0")
    if b == -1 and a == I64MIN:
        raise Throw("overflow")
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    if op == "/":
        return wrap(q)
    return wrap(a - q * b)


def shl(a, b):
    """left shift by b >= 0"""
    return 0 if b > 63 else wrap(a << b)


def shr(a, b):
    return (-1 if a < 0 else 0) if b > 63 else a >> b


def shru(a, b):
    return 0 if b > 63 else wrap((a & ((1 << 64) - 1)) >> b)


def bitwise(op, a, b):
    a = to_int(a)
    b = to_int(b)
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    if op == "<<":
        return shl(a, b) if b >= 0 else shr(a, -b)
    if op == ">>":
        return shr(a, b) if b >= 0 else shl(a, -b)
    if op == ">>>":
        return shru(a, b) if b >= 0 else shl(a, -b)
    raise AssertionError(op)


def compare(op, a, b):
    """Numbers against numbers, strings against strings, == and != for anything scalar."""
    if isnum(a) and isnum(b):
        if isinstance(a, float) or isinstance(b, float):
            a, b = float(a), float(b)
    elif isinstance(a, bool) and isinstance(b, bool):
        a, b = int(a), int(b)
    elif isinstance(a, str) and isinstance(b, str):
        a, b = [ord(c) for c in a], [ord(c) for c in b]
    elif isinstance(a, Void) and isinstance(b, Void):
        a = b = 0
    else:
        if op == "==":
            return False
        if op == "!=":
            return True
        raise AssertionError("unordered")
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


ARITH = ("+", "-", "*", "/", "%")
BITS = ("&", "|", "^", "<<", ">>", ">>>")
CMP = ("==", "!=", "<", "<=", ">", ">=")


def binary(op, a, b):
    if op in ARITH:
        return arith(op, a, b)
    if op in BITS:
        return bitwise(op, a, b)
    return compare(op, a, b)


def typename(v):
    if isinstance(v, Void):
        return "void"
    if isinstance(v, bool):
        return "boolean"
    if isinstance(v, int):
        return "integer"
    if isinstance(v, float):
        return "float"
    if isinstance(v, str):
        return "string"
    if isinstance(v, list):
        return "array"
    if isinstance(v, dict):
        return "object"
    if isinstance(v, Buf):
        return "buffer"
    return "function"


def unary(op, v):
    if op == "-":
        if not isnum(v):
            raise Throw("types")
        return wrap(-v) if isint(v) else -v
    if op == "+":
        return v
    if op == "~":
        return ~to_int(v)
    if op == "!":
        return not truthy(v)
    if op == "typeof":
        return typename(v)
    raise AssertionError(op)


# ---- generators -------------------------------------------------------------------------------

EDGES = sorted(set(
    [0, 1, 2, 3, 5, 7, 10, 31, 32, 33, 62, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 32767, 32768, 65535, 65536]
    + [(1 << k) + d for k in (30, 31, 32, 52, 53, 54, 61, 62, 63) for d in (-2, -1, 0, 1)
       if (1 << k) + d <= I64MAX]), key=lambda x: x)
EDGES = EDGES + [-e for e in EDGES if e] + [I64MIN, I64MIN + 1]
EDGES.sort(key=lambda x: (abs(x), x < 0))

FEDGES = [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.0, 3.0, -2.0, 0.1, 63.0, 64.0, 62.9, -63.5, 1e10, -1e10,
          4503599627370496.5, 9007199254740992.0, 9007199254740994.0, -9007199254740992.0,
          4611686018427387904.0, -4611686018427387904.0, 9223372036854774784.0, -9223372036854774784.0,
          9223372036854775808.0, -9223372036854775808.0, 1.8446744073709552e19, 1e30, -1e30, 1e300, 1e308,
          1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, -5e-324]


def g_int(src):
    k = src.below(4)
    if k == 0:
        return src.int(-10, 70) if src.bool() else src.int(0, 9)
    if k == 1:
        return src.pick(EDGES)
    bits = src.int(1, 63)
    v = src.below(1 << bits)
    if src.bool():
        v = -v - (1 if bits == 63 and src.bool() else 0)
    return v


def g_float(src, special=True):
    import struct
    k = src.below(5)
    if k == 0:
        return float(src.int(-20, 20)) / 2
    if k == 1:
        return src.pick(FEDGES)
    if k == 2:
        return float(g_int(src)) + src.pick([0.0, 0.5, 0.25])
    if k == 3 and special:
        return src.pick([float("inf"), float("-inf"), float("nan")])
    while True:
        v = struct.unpack(">d", src.below(1 << 64).to_bytes(8, "big"))[0]
        if v == v and not math.isinf(v):
            return v
        if src.replay is not None:
            return 1.25


def g_str(src, mx=8):
    n = src.len(mx)
    cls = src.below(4)
    o = []
    for _ in range(n):
        c = cls if cls < 3 else src.below(3)
        if c == 0:
            o.append(chr(src.int(32, 126)))
        elif c == 1:
            o.append(chr(src.pick([0, 9, 10, 34, 92, 127, 128, 160, 233, 255, 256, 0x3b1, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffe, 0xffff, 0x10000])))
        else:
            o.append(chr(src.pick([0x41, 0x1f600, 0x10ffff, 0x10000, 0x4e2d])))
    return "".join(o)


def g_scalar(src):
    k = src.below(12)
    if k < 5:
        return g_int(src)
    if k < 9:
        return g_float(src)
    if k == 9:
        return src.bool()
    if k == 10:
        return VOID
    return g_str(src)
