"""Reference arithmetic: the processor's own IEEE-754 operations, on bit patterns."""
import ctypes, math
from .core import d2b, b2d, f2b, b2f

_m = ctypes.CDLL("libm.so.6")
_m.fma.restype = ctypes.c_double
_m.fma.argtypes = [ctypes.c_double] * 3
_m.fmaf.restype = ctypes.c_float
_m.fmaf.argtypes = [ctypes.c_float] * 3
NAN_D, NAN_F = "nan", "nan"


def tofloat_bits(x):
    """double value -> binary32 bits, round to nearest even"""
    if x != x:
        return NAN_F
    return f2b_safe(x)


def f2b_safe(x):
    import struct
    return struct.unpack("<I", bytes(ctypes.c_float(x)))[0]


def _div(a, b):
    if a != a or b != b:
        return math.nan
    if b == 0:
        if a == 0:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def _bin(op, a, b):
    return a + b if op == "add" else a - b if op == "sub" else a * b if op == "mul" else _div(a, b)


def ref_bin(prec, op, ab, bb):
    if prec == "d":
        r = _bin(op, b2d(ab), b2d(bb))
        return NAN_D if r != r else d2b(r)
    # binary64 holds every sum, product and quotient of binary32 values well enough for a second
    # rounding to be harmless (53 >= 2*24+2)
    return tofloat_bits(_bin(op, b2f(ab), b2f(bb)))


def ref_fma(prec, a, b, c):
    if prec == "d":
        r = _m.fma(b2d(a), b2d(b), b2d(c))
        return NAN_D if r != r else d2b(r)
    r = _m.fmaf(b2f(a), b2f(b), b2f(c))
    return NAN_F if r != r else f2b_safe(r)


def ref_cast(a):
    return tofloat_bits(b2d(a))


# LLVM predicates
PRED = ["false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "uno", "ueq", "ugt", "uge", "ult", "ule", "une", "true"]


def ref_cmp(prec, p, a, b):
    a, b = (b2d(a), b2d(b)) if prec == "d" else (b2f(a), b2f(b))
    un = a != a or b != b
    n = PRED[p]
    if n == "false":
        return False
    if n == "true":
        return True
    if n == "ord":
        return not un
    if n == "uno":
        return un
    c = {"eq": a == b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b, "ne": a != b}[n[1:]]
    return (un or c) if n[0] == "u" else (not un and c)


def same(prec, got, ref):
    """bit equality; all NaN are one value (their payload is not specified)"""
    if ref == "nan":
        return is_nan(prec, got)
    if ref == "zero":
        return got & ~(1 << (63 if prec == "d" else 31)) == 0
    return got == ref


def is_nan(prec, b):
    if prec == "d":
        return (b >> 52) & 0x7FF == 0x7FF and b & ((1 << 52) - 1) != 0
    return (b >> 23) & 0xFF == 0xFF and b & ((1 << 23) - 1) != 0


def ref_op(op, lanes):
    """(result precision, [reference results]) of an op string"""
    f = op.split()
    prec, o, n = lanes(op)
    if o == "cast":
        return "f", [ref_cast(int(f[1], 16))]
    if o == "fma":
        return prec, [ref_fma(prec, *(int(x, 16) for x in f[1:4]))]
    if o == "cmp":
        v = [int(x, 16) for x in f[2:]]
        return "b", [ref_cmp(prec, int(f[1]), v[i], v[n + i]) for i in range(n)]
    v = [int(x, 16) for x in f[1:]]
    return prec, [ref_bin(prec, o, v[i], v[n + i]) for i in range(n)]
