"""Noise and rounding follow the virtual precision in force."""
from fractions import Fraction as Fr
from vsim.csim import *
from vsim import ieee, vfi

PROP = "P14"
LEVEL = "exploration"
RULE = ("one case = a history of precision changes, explicit perturbation requests, seed changes and blocks of 64 identical operations (scalar, vector lanes, fma, cast) "
        "through one MCA, integer MCA, bitmask, cancellation or VPREC configuration, or 2-4 threads of which one changes precisions while the others compute under a seeded "
        "schedule; distinct by history and executed interleaving")
ASSUMPTIONS = ["finite results away from the subnormal and overflow ranges (except cancellation to zero or to tiny results)",
               "noise reaches its bound: the largest of 64 errors is at least 0.3 of the largest single contribution (false alarm below 1e-30), or both neighbours occur within 64 draws (below 1e-13)",
               "a cast is perturbed at the precision of either of its types",
               "a precision is possibly in force from its call until the call that replaces it has returned"]
COMPONENTS = COMPONENTS_C
BUDGET = {"quick": (30000, 30), "thorough": (400000, 600)}
TB = {"d": 53, "f": 24}
K = 64


# ---------------------------------------------------------------- numbers
def val(p, b):
    m, w, x = (52, 11, 1023) if p == "d" else (23, 8, 127)
    s = -1 if b >> (m + w) else 1
    e = b >> m & ((1 << w) - 1)
    f = b & ((1 << m) - 1)
    if e == (1 << w) - 1:
        return None
    return s * (Fr(f) * two(1 - x - m) if e == 0 else Fr(f | 1 << m) * two(e - x - m))


def two(n):
    return Fr(1 << n) if n >= 0 else Fr(1, 1 << -n)


def expo(x):
    """floor(log2(|x|))"""
    x = abs(x)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    return e if two(e) <= x else e - 1


def sig(x):
    """significant bits of a dyadic number, None when not dyadic"""
    if x == 0:
        return 0
    d = x.denominator
    if d & (d - 1):
        return None
    n = abs(x.numerator)
    return n.bit_length() - ((n & -n).bit_length() - 1)


EMIN = {"d": -1074, "f": -149}


def ulp(p, x):
    return two(max(expo(x) - TB[p] + 1, EMIN[p])) if x else two(EMIN[p])


def down(p, x):
    u = ulp(p, x)
    return (x / u).__floor__() * u


def up(p, x):
    u = ulp(p, x)
    return -((-x / u).__floor__()) * u


def near(p, x, hi):
    """x rounded to nearest, ties to the outside"""
    u = ulp(p, x)
    return (x / u + Fr(1, 2)).__floor__() * u if hi else -((-x / u + Fr(1, 2)).__floor__()) * u


def mul_i(a, b):
    v = [a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]]
    return min(v), max(v)


def op_i(o, iv):
    a = iv[0]
    if o == "cast":
        return a
    b = iv[1]
    if o == "add":
        return a[0] + b[0], a[1] + b[1]
    if o == "sub":
        return a[0] - b[1], a[1] - b[0]
    if o == "mul":
        return mul_i(a, b)
    if o == "div":
        if b[0] <= 0 <= b[1]:
            return None
        return mul_i(a, (1 / b[1], 1 / b[0]))
    m = mul_i(a, b)
    return m[0] + iv[2][0], m[1] + iv[2][1]


def exact(o, v):
    x = op_i(o, [(a, a) for a in v])
    return x and x[0]


def widen(i, h):
    return i[0] - h, i[1] + h


def mag(i):
    return max(abs(i[0]), abs(i[1]))


class Mca:
    """bounds of an operation through MCA or integer MCA"""

    def __init__(self, cfg):
        self.c = cfg

    def noise(self, i, t):
        m = mag(i)
        if m == 0:
            return Fr(0)
        h = Fr(0)
        if self.c["err"] in ("rel", "all"):
            h += two(expo(m) - t)
            if self.c["int"] and (m + h >= two(expo(m) + 1) or self.c["err"] != "rel"):  # the noise is added to the bits: it doubles beyond a power of two
                h *= 2
        if self.c["err"] in ("abs", "all"):
            h += two(self.c["abse"] - 1)
            if self.c["err"] == "all":
                h += two(self.c["abse"] - 1 - t)
        return h

    def interval(self, p, o, v, t):
        """[lo, hi] of the value returned, None when unbounded"""
        mode = self.c["mode"]
        sl = two(-52) if p == "f" else two(-100)
        iv = [(x, x) for x in v]
        if mode in ("pb", "mca"):
            iv = [widen(i, self.noise(i, t) + mag(i) * sl * 2) if i[0] or i[1] else i for i in iv]
        x = op_i(o, iv)
        if x is None:
            return None
        big = mag(x) if o != "fma" else mag(mul_i(iv[0], iv[1])) + mag(iv[2])
        if o == "cast":
            x = down("f", x[0]), up("f", x[1])
        if x[0] or x[1]:
            x = widen(x, big * sl * 4)
        if mode in ("rr", "mca"):
            x = widen(x, self.noise(x, t) * (1 + sl * 8))
        if o == "cast":
            return down("f", x[0]), up("f", x[1])
        return near(p, x[0], False), near(p, x[1], True)

    def least(self, p, o, v, t):
        """the largest single contribution to the error, 0 when none is sure"""
        mode = self.c["mode"]
        R = exact(o, v)
        if R is None or R == 0:
            return Fr(0)
        h = Fr(0)
        ns = lambda x: (two(expo(x) - t) if self.c["err"] != "abs" else two(self.c["abse"] - 1)) / (2 if self.c["int"] else 1) if x else Fr(0)
        if mode in ("rr", "mca"):
            n = sig(R)
            near = n is not None and n <= t
            if mode == "rr" and not near:  # the format used for the computation may round it to a representable number
                w = 24 if o == "cast" else 53 if p == "f" else 100
                u = two(expo(R) - w + 1)
                near = any(sig(q * u) <= t for q in ((R / u).__floor__(), (R / u).__floor__() + 1))
            if mode == "mca" or not near:
                h = max(h, ns(R))
        if mode in ("pb", "mca"):
            a = v[0]
            k = Fr(1) if o == "cast" else 1 / abs(v[1]) if o == "div" else abs(v[1]) if o in ("mul", "fma") else Fr(1)
            h = max(h, ns(a) * k)
            if o in ("add", "sub", "mul", "fma"):
                h = max(h, ns(v[1]) * (abs(a) if o in ("mul", "fma") else 1))
        return h if (t >= 3 or mode == "rr") and not (self.c["err"] != "rel" and self.wild(v, t)) else Fr(0)

    def wild(self, v, t):
        """absolute noise comparable with the operands: the error is no longer close to linear"""
        return any(x and self.noise((x, x), t) * 4 > abs(x) for x in v)


# ---------------------------------------------------------------- generation
def number(r, p, lo, hi):
    m = TB[p] - 1
    x = r.random()
    if x < 0.5:
        f = r.getrandbits(m)
    elif x < 0.85:  # few bits
        k = r.randint(0, m)
        f = r.getrandbits(k) << (m - k) if k else 0
    else:
        f = r.choice([0, 1, (1 << m) - 1, 1 << (m - 1), (1 << (m - 1)) - 1])
    e = r.randint(lo, hi)
    s = r.getrandbits(1)
    return s << 63 | (e + 1023) << 52 | f if p == "d" else s << 31 | (e + 127) << 23 | f


def operands(r, p, o):
    R = r.choice([(-3, 3), (-3, 3), (-30, 30), (-30, 30) if p == "f" else (-200, 200)])
    n = {"fma": 3, "cast": 1}.get(o, 2)
    v = [number(r, p, *R) for _ in range(n)]
    if o in ("add", "sub") and r.random() < 0.3:  # cancelling
        k = r.randint(0, TB[p] - 2)
        v[1] = v[0] ^ (1 << k)
        if o == "add":
            v[1] ^= 1 << (63 if p == "d" else 31)
    if o == "fma" and r.random() < 0.3:  # the product lies in the middle of two numbers, the addend decides
        m = TB[p] - 1
        one = (1023 << 52) if p == "d" else 127 << 23
        v = [one | r.getrandbits(m) | 1, one | 1 << (m - 1), v[2] & ~(one | one << 1) | one - (r.randint(m + 5, 90 if p == "d" else 60) << m)]
    if o in ("add", "sub", "mul") and r.random() < 0.05:
        v[r.randint(0, 1)] = 0
    return v


def block(r, p, o, v, K=K):
    """K identical operations"""
    h = " ".join("%x" % x for x in v)
    if o in ("fma", "cast") or r.random() < 0.4:
        return ["%s %s" % ("cast" if o == "cast" else p + o, h)] * K
    n = r.choice([2, 4, 8, 16])
    return ["v%d%s%s %s" % (n, p, o, " ".join("%x" % x for x in [v[0]] * n + [v[1]] * n))] * (K // n)


def prec(r, T, over=True):
    x = r.random()
    return r.randint(1, T) if x < 0.75 else r.randint(3, min(T, 12)) if x < 0.9 else T + (r.choice([0, 0, 1, 3, 10]) if over else 0)


def flush_opts(r, c, o):
    for f in ("daz", "ftz"):
        c[f] = r.random() < 0.2
        if c[f]:
            o.append("--" + f)


def gen_mca(r, integer):
    c = {"kind": "mca", "int": integer, "mode": r.choice(["mca", "rr", "pb", "mca", "rr", "pb", "ieee"]), "err": "rel", "abse": 112, "sp": None,
         "p32": 24, "p64": 53}
    o = ["--mode=" + c["mode"]] if c["mode"] != "mca" or r.random() < 0.7 else []
    if not integer:
        if r.random() < 0.7:
            c["p32"] = prec(r, 24)
            o.append("--precision-binary32=%d" % c["p32"])
        if r.random() < 0.7:
            c["p64"] = prec(r, 53)
            o.append("--precision-binary64=%d" % c["p64"])
        if r.random() < 0.35:
            c["err"] = r.choice(["abs", "all", "rel"])
            o.append("--error-mode=" + c["err"])
            if r.random() < 0.85 or c["err"] != "rel":
                c["abse"] = r.choice([r.randint(-40, 10), r.randint(-20, 4), r.randint(-1200, -1000)])
                o.append("--max-abs-error-exponent=%d" % c["abse"])
    if r.random() < 0.15:
        c["sp"] = r.choice([0.01, 0.5, 0.99, 1])
        o.append("--sparsity=%s" % c["sp"])
    flush_opts(r, c, o)
    if r.random() < 0.4:
        o.append("--seed=%d" % r.getrandbits(31))
    r.shuffle(o)
    lib = "libinterflop_mca_int.so" if integer else "libinterflop_mca.so"
    return c, " ".join([lib] + o)


def hist_mca(r, c, cast):
    ops = []
    for _ in range(r.choice([1, 2, 3, 5])):
        for _ in range(r.choice([0, 0, 1, 2])):
            x = r.random()
            if c["int"]:
                ops.append(r.choice(["pushseed libinterflop_mca_int.so mcaint %x" % r.getrandbits(64), "popseed libinterflop_mca_int.so mcaint"]))
            elif x < 0.75:
                ops.append("usp32 %d" % prec(r, 24) if r.random() < 0.5 else "usp64 %d" % prec(r, 53))
            elif x < 0.9:
                ops.append("pushseed libinterflop_mca.so mcaquad %x" % r.getrandbits(64))
            else:
                ops.append("popseed libinterflop_mca.so mcaquad")
        if not c["int"] and r.random() < 0.25:
            p = r.choice("df")
            b = r.choice([number(r, p, -60, 60), number(r, p, -60, 60), 0, (0x7ff << 52) if p == "d" else 0xff << 23])
            ops += ["uinex%s %x %d" % (p, b, r.choice([r.randint(1, TB[p]), 0, -r.randint(0, 6)]))] * K
            continue
        p = r.choice("df")
        o = r.choice(["add", "sub", "mul", "div", "fma"] + (["cast"] if cast else []))
        if o == "cast":
            p = "d"
        v = operands(r, p, o)
        if o == "cast":
            v = [number(r, "d", -60, 60)]
        ops += unusual(r) + block(r, p, o, v, 4 * K if c["mode"] == "rr" and r.random() < 0.3 else K)
    return ops


def unusual(r):
    """operations on subnormal and special values; their own results are not judged, what follows is"""
    o = []
    while r.random() < 0.3:
        p = r.choice("df")
        m, top = (52, 63) if p == "d" else (23, 31)
        sub = lambda: r.getrandbits(1) << top | r.getrandbits(r.randint(1, m))
        edge = lambda: r.getrandbits(1) << top | r.choice([1, 1, 2]) << m | r.choice([0, r.getrandbits(m), (1 << m) - 1])  # smallest normal numbers
        one = lambda: r.getrandbits(1) << top | (1022 + r.randint(0, 2) if p == "d" else 126 + r.randint(0, 2)) << m | r.choice([0, r.getrandbits(m)])
        x = r.choice([sub, sub, sub, edge, one, lambda: rand_double(r, 1) if p == "d" else rand_float(r, 1)])
        y = r.choice([sub, sub, edge, one])
        k = r.choice(["add", "sub", "mul", "div", "add", "sub", "mul", "div", "fma"])
        o.append("%s%s %s" % (p, k, " ".join("%x" % z() for z in ([x, y] if k != "fma" else [x, one, y]))))
    return o


def mid(r, p, t, e):
    """a number of the type at or next to a tie of the format with t fraction bits and e exponent bits"""
    m, w, b = (52, 11, 1023) if p == "d" else (23, 8, 127)
    emax = (1 << (e - 1)) - 1
    ex = r.choice([1 - emax - r.randint(0, t + 1), 1 - emax, -emax, emax, r.randint(-emax, emax)])
    q = r.getrandbits(r.randint(1, t)) if r.random() < 0.7 else (1 << t) - 1
    lost = max(0, 1 - emax - ex)  # bits lost below the normal range
    k = m - max(t - lost, 0)
    f = q << k & ((1 << m) - 1)
    if k > 0:
        f |= 1 << (k - 1)
        f += r.choice([0, 0, 1, -1])
    if ex < 1 - b:
        return r.getrandbits(1) << (m + w) | ((1 << m | f) >> (1 - b - ex) if 1 - b - ex <= m else 1)
    return r.getrandbits(1) << (m + w) | (min(ex, b) + b) << m | f & ((1 << m) - 1)


def gen(r, idx, ctx):
    k = r.choice(["mca"] * 5 + ["int"] * 2 + ["bitmask"] * 2 + ["cancel"] * 2 + ["vprec"] * 2 + ["mt"] * 4)
    env = {"VFC_BACKENDS_SILENT_LOAD": "True"}
    case = {"prog": "prog_base.so", "env": env, "sched": ["serial", 1, 1, 0], "clock": rand_clock(r)}
    if k in ("mca", "int"):
        c, s = gen_mca(r, k == "int")
        cast = r.random() < 0.4
        if cast:
            case["prog"], s = "prog_full.so", "libinterflop_ieee.so;" + s
        th = [hist_mca(r, c, cast)]
    elif k == "mt":
        c, s = gen_mca(r, False)
        c["sp"] = None
        s = " ".join(x for x in s.split() if "sparsity" not in x)
        c["kind"] = "mt"
        s = "libstub0.so;" + s
        th = []
        for t in range(r.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(r.choice([4, 8, 14])):
                if t == 0 and r.random() < 0.6:
                    ops.append("usp32 %d" % prec(r, 24) if r.random() < 0.5 else "usp64 %d" % prec(r, 53))
                elif r.random() < 0.2:
                    p = r.choice("df")
                    ops.append("uinex%s %x %d" % (p, number(r, p, -60, 60), r.choice([r.randint(1, TB[p]), 0, 0])))
                else:
                    p, o = r.choice("df"), r.choice(["add", "sub", "mul", "div", "fma"])
                    ops.append("%s%s %s" % (p, o, " ".join("%x" % x for x in operands(r, p, o))))
            th.append(ops)
        case["sched"] = rand_sched(r, 600)
        case["tids"] = rand_tids(r, len(th))
    elif k == "bitmask":
        c = {"kind": k, "mode": r.choice(["ob", "ib", "full", "ob", "ieee"]), "op": r.choice(["zero", "one", "rand", "rand"]), "p32": 24, "p64": 53}
        o = []
        c["p32"], c["p64"] = prec(r, 24), prec(r, 53)
        o = []
        flush_opts(r, c, o)
        o += ["--mode=" + c["mode"], "--operator=" + c["op"], "--precision-binary32=%d" % c["p32"], "--precision-binary64=%d" % c["p64"]]
        if r.random() < 0.3:
            o.append("--seed=%d" % r.getrandbits(30))
        r.shuffle(o)
        s = " ".join(["libinterflop_bitmask.so"] + o)
        th = [[]]
        for _ in range(r.choice([1, 2, 3, 5])):
            p, o = r.choice("df"), r.choice(["add", "sub", "mul", "div", "fma"])
            th[0] += unusual(r) + block(r, p, o, operands(r, p, o))
    elif k == "cancel":
        c = {"kind": k, "tol": r.choice([0, 1, 1, 2, 5, 10, 20, 50])}
        o = [] if c["tol"] == 1 and r.random() < 0.5 else ["--tolerance=%d" % c["tol"]]
        if r.random() < 0.3:
            o.append("--seed=%d" % r.getrandbits(30))
        if r.random() < 0.1:
            o.append("--warning=1")
        s = " ".join(["libinterflop_cancellation.so"] + o)
        th = [[]]
        for _ in range(r.choice([1, 2, 3, 5])):
            p, o = r.choice("df"), r.choice(["add", "sub", "sub", "mul", "div", "fma"])
            v = operands(r, p, o)
            if o in ("add", "sub") and r.random() < 0.6:  # up to full cancellation, at any magnitude
                lim = 900 if p == "d" else 70
                a = number(r, p, *r.choice([(-lim, lim), (0, 3), (-lim - 5, -lim + 20)]))
                b = a ^ r.choice([0, 1, r.getrandbits(r.randint(1, TB[p] - 2)), 1 << r.randint(0, TB[p] - 2)])
                if r.random() < 0.1:
                    b = (0x7ff << 52) if p == "d" else 0xff << 23
                v = [a, b ^ ((1 << (63 if p == "d" else 31)) if o == "add" else 0)]
            th[0] += unusual(r) + block(r, p, o, v)
    else:
        c = {"kind": k, "mode": r.choice(["full", "ib", "ob", "ieee"]), "err": "rel", "cli": list(vfi.rand_ops_set(r)), "daz": False, "ftz": False}
        s = " ".join(["libinterflop_vprec.so"] + vfi.base_opts(c) + vfi.set_opts(c["cli"]))
        cast = r.random() < 0.3
        if cast:
            case["prog"], s = "prog_full.so", "libinterflop_ieee.so;" + s
        th = [[]]
        cur = list(c["cli"])
        for _ in range(r.choice([5, 15, 40])):
            x = r.random()
            if x < 0.35:
                th[0].append(r.choice(["usp32 %d" % r.randint(1, 23), "usp64 %d" % r.randint(1, 52), "usr32 %d" % r.randint(3, 8), "usr64 %d" % r.randint(4, 11)]))
                u = th[0][-1].split()
                cur[{"usp64": 0, "usr64": 1, "usp32": 2, "usr32": 3}[u[0]]] = int(u[1])
            elif x < 0.55:  # close to the middle of two numbers of the virtual format, at the ends of its range, times a power of two
                p = r.choice("df")
                v = mid(r, p, *(cur[:2] if p == "d" else cur[2:]))
                k = r.choice([0, 0, 0, r.randint(-3, 3)])
                th[0].append("%s%s %x %x" % (p, r.choice(["mul", "div"]), v, (1023 + k) << 52 if p == "d" else (127 + k) << 23))
            else:
                th[0].append(op_cast(r, 0.1) if cast and r.random() < 0.3 else op_fma(r, 0.1) if r.random() < 0.15 else op_bin(r, None, 0.1) if r.random() < 0.6 else "%s%s %x %x" % (lambda p: (p, r.choice(["add", "sub", "mul", "div"]), number(r, p, -3, 3), number(r, p, -3, 3)))(r.choice("df")))
    env["VFC_BACKENDS"] = s
    case["threads"] = th
    case["cfg"] = c
    return case


# ---------------------------------------------------------------- check
def parse(op):
    """(precision, operation, lane operands [bits], lanes)"""
    f = op.split()
    p, o, n = lanes(op)
    v = [int(x, 16) for x in f[1:]]
    return p, o, ([v[0], v[n]] if n > 1 else v), n


def fmt(p, b):
    return "%x" % b


def odd(op):
    f = op.split()
    p = lanes(op)[0]
    m, w = (52, 11) if p == "d" else (23, 8)
    for x in f[1:]:
        x = int(x, 16)
        e = x >> m & ((1 << w) - 1)
        if e >= (1 << w) - 3 or (e <= 2 and x & ((1 << m + w) - 1)):
            return True
    return False


def blocks(ops, vals):
    """consecutive equal operations with all their lanes"""
    out = []
    for i, op in enumerate(ops):
        g = vals.get((0, i))
        if out and out[-1][0] == op:
            out[-1][1].extend(g or ())
        else:
            out.append((op, list(g or ()), i))
        if g is None:
            out[-1][1].append(None)
    return out


def reach(q, b):
    """the value, infinities as the power of two above the largest number"""
    m, w, x = (52, 11, 1023) if q == "d" else (23, 8, 127)
    if b & ((1 << m + w) - 1) == ((1 << w) - 1) << m:
        return two(x + 1) * (-1 if b >> (m + w) else 1)
    return val(q, b)


def outside(q, got, lo, hi):
    x = reach(q, got)
    return x is None or not lo <= x <= hi


def check_mca(c, ops, vals, stats):
    m = Mca(c)
    t = {"f": c["p32"], "d": c["p64"]}
    for op, got, i in blocks(ops, vals):
        n = op.split()[0]
        if n in ("usp32", "usp64"):
            t["f" if n == "usp32" else "d"] = int(op.split()[1])
            continue
        if n in ("pushseed", "popseed"):
            continue
        if None in got:
            return "op %d %s has no result" % (i, op[:60])
        if n.startswith("uinex"):
            e = check_inexact(c, t, op, got, i)
        elif odd(op):
            e = check_flush(c, op, got)
        else:
            e = check_block(m, c, t, op, got, i)
        if e:
            return "%s (op %d; %s; precision in force %s)" % (e, i, c, t)
        stats.kind("%s-%s" % ("int" if c["int"] else "mca", c["mode"]))
    return None


def tiny(p, b):
    m, w = (52, 11) if p == "d" else (23, 8)
    return not b >> m & ((1 << w) - 1) and b & ((1 << m) - 1)


def check_flush(c, op, got):
    """denormal operands and results become zero when requested, and only then; the sign of such a zero is open"""
    f = op.split()
    p = op[0]
    if len(f[0]) != 4:
        return None
    zero = (0, 1 << (63 if p == "d" else 31))
    if c["ftz"] and any(tiny(p, g) for g in got):
        return "%s gave the denormal %x though results are flushed (%s)" % (op, [g for g in got if tiny(p, g)][0], c)
    if c["mode"] != "ieee":
        return None
    alt = [[]]
    for x in f[1:]:
        x = int(x, 16)
        alt = [a + [y] for a in alt for y in (zero if c["daz"] and tiny(p, x) else (x,))]
    ok = []
    for a in alt:
        z = ieee.ref_fma(p, *a) if f[0].endswith("fma") else ieee.ref_bin(p, f[0][1:], *a)
        ok += zero if z != "nan" and c["ftz"] and tiny(p, z) else (z,)
    bad = [g for g in got if not any(ieee.same(p, g, z) for z in ok)]
    return "%s gave %x, not %s (%s)" % (op, bad[0], ["%x" % z if z != "nan" else z for z in ok], c) if bad else None


def check_inexact(c, t, op, got, i):
    p, b, pr = op.split()[0][5], int(op.split()[1], 16), int(op.split()[2])
    x = val(p, b)
    tt = pr if pr > 0 else t[p] + pr
    if x is None or x == 0 or c["mode"] == "ieee":
        return None if all(g == b for g in got) else "%s gave %x" % (op, [g for g in got if g != b][0])
    if tt < 1:
        return None
    h = two(expo(x) - tt) * (1 + two(-50))
    lo, hi = down(p, x - h), up(p, x + h)
    for g in got:
        if outside(p, g, lo, hi):
            return "%s gave %x: error %.3g, bound %.3g" % (op, g, float(abs((val(p, g) or 0) - x)), float(h))
    if len(got) >= K and h >= 64 * ulp(p, x):
        w = max(abs(reach(p, g) - x) for g in got)
        if w < h * (Fr(3, 10) if c["int"] else Fr(6, 10)):  # uniform: the chance is below 0.6**64
            return "%s: the largest of %d errors is %.3g, too small for noise up to %.3g" % (op, len(got), float(w), float(h))
    return None


def check_block(m, c, t, op, got, i):
    p, o, v, n = parse(op)
    q = "f" if o == "cast" else p
    ref = ieee.ref_op(op if n == 1 else "%s%s %s" % (p, o, " ".join("%x" % x for x in v)), lanes)[1][0]
    v = [val(p, x) for x in v]
    R = exact(o, v)
    if R is None:
        return None
    tt = t[p]
    if c["mode"] == "ieee":
        bad = [g for g in got if not ieee.same(q, g, ref)]
        return "%s gave %x in ieee mode, not %s" % (op[:100], bad[0], ref) if bad else None
    if c["mode"] == "rr":
        s = sig(R)
        if s is not None and s <= (min(tt, t["f"]) if o == "cast" else min(tt, 53 if p == "f" else 100)):
            bad = [g for g in got if val(q, g) != R and not (s > TB[q] and ieee.same(q, g, ref))]
            return "%s gave %x, but the exact result has %d bits" % (op[:100], bad[0], s) if bad else None
    iv = m.interval(p, o, v, min(tt, t["f"]) if o == "cast" else tt)
    if iv is None:
        return None
    for g in got:
        if outside(q, g, *iv):
            x = val(q, g)
            return "%s gave %x, error %.3g, allowed [%.3g, %.3g]" % (op[:100], g, float(abs(x - R)) if x is not None else float("nan"), float(iv[0] - R), float(iv[1] - R))
    if c["sp"] not in (None, 1) or len(got) < K:
        return None
    h = m.least(p, o, v, max(tt, t["f"]) if o == "cast" else tt)
    if h and h >= 64 * ulp(q, max(abs(iv[0]), abs(iv[1]))):
        w = max(abs(reach(q, g) - R) for g in got)
        sure = not c["int"] and (c["mode"] == "rr" or c["mode"] == "pb" and tt >= 8)
        if w < h * (Fr(55, 100) if sure else Fr(3, 10)):
            return "%s: the largest of %d errors is %.3g, too small for noise up to %.3g" % (op[:100], len(got), float(w), float(h))
    elif c["mode"] == "rr" and tt == TB[p] and c["err"] == "rel" and R and o != "cast":
        u = ulp(p, R)
        f = R / u - (R / u).__floor__()
        m = Fr(4, 10) if len(got) < 4 * K else Fr(15, 100)  # the chance of the other neighbour
        if m <= f <= 1 - m and expo(R) > EMIN[p] + 60 and expo(R - u) == expo(R) == expo(R + u):
            if len(set(got)) < 2:
                return "%s: %d draws all gave %x though the exact result is at %.2f between two numbers" % (op[:100], len(got), got[0], float(f))
    return None


def check_mt(c, case, res, stats):
    m = Mca(c)
    pos, nxt = {}, {}
    cnt, last = {}, {}
    for k, x in enumerate(res.recs):
        if x[2] not in (4, 5):
            continue
        t = x[0]
        i = cnt.get(t, 0)
        cnt[t] = i + 1
        pos[(t, i)] = k
        if t in last:
            nxt[last[t]] = k
        last[t] = (t, i)
    end = len(res.recs) + 1
    sets = {"f": [(c["p32"], -1)], "d": [(c["p64"], -1)]}
    for i, op in enumerate(case["threads"][0]):
        if op.startswith("usp"):
            if (0, i) not in pos:
                return "call %d was not seen" % i
            sets["f" if op.startswith("usp32") else "d"].append((int(op.split()[1]), i))
    for t, ops in enumerate(case["threads"]):
        if cnt.get(t, 0) != len(ops):
            return "thread %d: %d records for %d operations" % (t, cnt.get(t, 0), len(ops))
        for i, op in enumerate(ops):
            if op.startswith("usp"):
                continue
            s, e = pos[(t, i)], nxt.get((t, i), end)
            tt = {}
            for p in "fd":
                al = []
                for j, (v, u) in enumerate(sets[p]):
                    st = -1 if u < 0 else pos[(0, u)]
                    if j + 1 < len(sets[p]):
                        w = sets[p][j + 1][1]
                        en = nxt.get((0, w), end)
                    else:
                        en = end + 1
                    if t == 0:  # program order of the thread that makes the changes
                        if u > i or (j + 1 < len(sets[p]) and sets[p][j + 1][1] < i):
                            continue
                    elif not (st < e and en > s):
                        continue
                    al.append(v)
                tt[p] = min(al)
                if len(set(al)) > 1:
                    stats.kind("mt-overlap")
            g = res.vals.get((t, i))
            if g is None:
                return "thread %d op %d has no result" % (t, i)
            if op.startswith("uinex"):
                er = check_inexact(c, tt, op, list(g), i)
            else:
                cc = c
                p = op[0]
                er = check_block(m, cc, tt, op, list(g), i) if cc["mode"] != "rr" or True else None
            if er:
                return "thread %d op %d: %s (%s; loosest precision possibly in force %s)" % (t, i, er, c, tt)
    stats.kind("mt")
    return None


def mask_of(p, t):
    k = TB[p] - t
    full = (1 << (64 if p == "d" else 32)) - 1
    return full << k & full if k > 0 else full


def check_bitmask(c, ops, vals, stats):
    for op, got, i in blocks(ops, vals):
        if None in got:
            return "op %d %s has no result" % (i, op[:60])
        if odd(op):
            e = check_flush(c, op, got)
            if e:
                return e
            continue
        p, o, b, n = parse(op)
        t = c["p32"] if p == "f" else c["p64"]
        mk = mask_of(p, t)
        full = (1 << (64 if p == "d" else 32)) - 1
        inv = full & ~mk
        ap = (lambda x: x & mk) if c["op"] == "zero" else (lambda x: x | inv)
        stats.kind("bitmask-%s-%s" % (c["mode"], c["op"]))

        def scalar(v):
            return ieee.ref_op("%s%s %s" % (p, o, " ".join("%x" % x for x in v)), lanes)[1][0]
        special = lambda x: val(p, x) is None or val(p, x) == 0
        if c["op"] != "rand" or c["mode"] == "ieee":
            v = [ap(x) if c["mode"] in ("ib", "full") and not special(x) else x for x in b]
            r = scalar(v)
            if r == "nan" or (val(p, r) is not None and 0 < abs(val(p, r)) < two(EMIN[p] + 60)):
                continue
            if not special(r) and (c["mode"] == "full" or (c["mode"] == "ob" and sig(val(p, r)) > t)):
                r = ap(r)
            bad = [g for g in got if g != r]
            if bad:
                return "%s gave %x, not %x (%s)" % (op[:100], bad[0], r, c)
            continue
        # random low bits
        if c["mode"] == "ob":
            r = scalar(b)
            if r == "nan" or special(r) or sig(val(p, r)) <= t:
                if any(not ieee.same(p, g, r) for g in got):
                    return "%s changed an exact result (%s)" % (op[:100], c)
                continue
            if any((g ^ r) & mk for g in got):
                return "%s gave %x: a protected bit of %x changed (%s)" % (op[:100], [g for g in got if (g ^ r) & mk][0], r, c)
            same0, same1 = 0, full
            for g in got:
                same0 |= g
                same1 &= g
            if len(got) >= K and ((~same0 & inv) or (same1 & inv)):
                return "%s: of %d draws bits %x are never set, %x always (%s)" % (op[:100], len(got), ~same0 & inv, same1 & inv, c)
            continue
        iv = []
        for x in b:
            x0 = val(p, x)
            if x0 == 0:
                iv.append((x0, x0))
                continue
            y = sorted((val(p, x & mk), val(p, x | inv)))
            iv.append(tuple(y))
        x = op_i(o, iv)
        if x is None:
            continue
        lo, hi = down(p, x[0]), up(p, x[1])
        if c["mode"] == "full" and (lo or hi):
            w = two(expo(max(abs(lo), abs(hi))) - t + 1)
            lo, hi = lo - w, hi + w
        for g in got:
            if outside(p, g, lo, hi):
                return "%s gave %x outside the interval of the protected bits (%s)" % (op[:100], g, c)
        if len(got) >= K and t <= TB[p] - 6 and len(set(got)) < 2 and o != "fma" and not any(special(z) for z in b) and (o not in ("add", "sub")):
            return "%s: %d draws are all equal (%s)" % (op[:100], len(got), c)
    return None


def check_cancel(c, ops, vals, stats):
    for op, got, i in blocks(ops, vals):
        if None in got:
            return "op %d %s has no result" % (i, op[:60])
        if odd(op) and len(got) == 1:
            continue
        p, o, b, n = parse(op)
        z = ieee.ref_op(op if n == 1 else "%s%s %s" % (p, o, " ".join("%x" % x for x in b)), lanes)[1][0]
        x, y = val(p, b[0]), val(p, b[1])
        same = all(ieee.same(p, g, z) for g in got)
        if o not in ("add", "sub") or z == "nan" or val(p, z) is None or x is None or y is None:
            if not same:
                return "%s gave %x, not %s (%s)" % (op[:100], got[0], z, c)
            continue
        v = val(p, z)
        if v and expo(v) < EMIN[p] + 53:
            continue
        if v == 0:
            # the exponent of zero counts as the smallest one
            stats.kind("cancel-zero")
            if any(abs(val(p, g) if val(p, g) is not None else 1) > two(EMIN[p] + TB[p] - 1) for g in got):
                return "%s gave %x: a full cancellation to zero (%s)" % (op[:100], [g for g in got if g][0], c)
            continue
        can = max(expo(x) if x else EMIN[p], expo(y) if y else EMIN[p]) - expo(v)
        if can < c["tol"]:
            stats.kind("cancel-below")
            if not same:
                return "%s gave %x, not %x: %d bits cancelled (%s)" % (op[:100], got[0], z, can, c)
            continue
        stats.kind("cancel-noise")
        h = two(expo(v) - can)
        sl = h * two(-40) + abs(v) * two(-52) * (0 if h < ulp(p, v) else 1)
        lo, hi = down(p, v - h - sl), up(p, v + h + sl)
        bad = [g for g in got if outside(p, g, lo, hi)]
        if bad:
            return "%s gave %x: noise above 2^%d (%d bits cancelled; %s)" % (op[:100], bad[0], expo(v) - can, can, c)
        if len(got) >= K and h >= 64 * ulp(p, v):
            w = max(abs(reach(p, g) - v) for g in got)
            if w < h * Fr(3, 10):
                return "%s: the largest of %d errors is %.3g, too small for %.3g (%s)" % (op[:100], len(got), float(w), float(h), c)
    return None


def check_vprec(c, ops, vals, stats):
    s = list(c["cli"])
    for i, op in enumerate(ops):
        f = op.split()
        if f[0].startswith("us"):
            s[{"usp64": 0, "usr64": 1, "usp32": 2, "usr32": 3}[f[0]]] = int(f[1])
            continue
        r = vfi.op_ref(op, c, s)
        g = vals.get((0, i))
        if g is None:
            return "op %d %s has no result" % (i, op)
        if r is None:
            continue
        stats.kind("vprec")
        if not ieee.same("f" if f[0] == "cast" else op[0], g[0], r):
            return "op %d %s gave %x, not %s with settings %s (%s)" % (i, op, g[0], r if isinstance(r, str) else "%x" % r, s, c["mode"])
    return None


def check(env, case, stats, rec):
    res = env.run(case)
    note_run(stats, rec, res)
    d = fault_free_died(res)
    if d:
        return Violation("died", d)
    c, ops = case["cfg"], case["threads"][0]
    k = c["kind"]
    stats.distinct.add(str((case["env"]["VFC_BACKENDS"], ops))[:3000])
    e = check_mt(c, case, res, stats) if k == "mt" else {"mca": check_mca, "bitmask": check_bitmask, "cancel": check_cancel, "vprec": check_vprec}[k](c, ops, res.vals, stats)
    return Violation(k, e) if e else None
