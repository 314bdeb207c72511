"""Function instrumentation of VPREC: programs of nested calls, profiles, and their model."""
from fractions import Fraction
import math
from .csim import *
from . import ieee

FULL = (52, 11, 23, 8)
INTMAX, INTMIN = 2**31 - 1, -2**31
T_F, T_D, T_FP, T_DP = 0, 1, 3, 4


def isd(ty):
    return ty in (T_D, T_DP)


def fname(r, long=False):
    b = r.choice(["f", "g", "Aa", "BB", "AaAa", "BBBB", "AaBB", "solve", "dot", "k"])
    s = "src/a.c/%s/%s/%d/%d" % (r.choice(["main", "f", "Aa", "BB"]), b, r.randint(1, 40), r.randint(1, 3))
    if long and r.random() < 0.4:
        s = "d/" * r.randint(60, 320) + s
    return s


def rand_ops_set(r):
    return (r.choice([r.randint(1, 52), 52]), r.choice([11, 11, r.randint(4, 11)]), r.choice([r.randint(1, 23), 23]), r.choice([8, 8, r.randint(3, 8)]))


def rand_arg_set(r, ty):
    return (r.randint(1, 52), r.choice([11, 11, r.randint(4, 11)])) if isd(ty) else (r.randint(1, 23), r.choice([8, 8, r.randint(3, 8)]))


def mk_func(r, name, kind=None, longarg=False):
    k = kind or r.choice(["fp", "fp", "fp", "fp", "f", "d", "lib", "intr", "plain"])
    fl = {"fp": (0, 0, 1, 1), "f": (0, 0, 1, 0), "d": (0, 0, 0, 1), "lib": (1, 0, 1, 1), "intr": (0, 1, 0, 1), "plain": (0, 0, 0, 0)}[k]

    def args(n):
        a = []
        for i in range(n):
            ty = r.choice([T_F, T_D, T_D, T_FP, T_DP])
            nm = r.choice(["a", "b", "x%d" % i, "return_value", "parameter_%d" % i])
            if longarg and r.random() < 0.1:
                nm = "n" * r.randint(100, 300)
            a.append([ty, nm, 0 if ty < 2 else r.choice([0, 1, 2, 3, 5, 5, 17, -1])])
        return a
    return {"name": name, "flags": fl, "in": args(r.choice([0, 0, 1, 1, 2, 3, 4, 7])), "out": args(r.choice([0, 0, 1, 1, 2, 3, 5, 8])),
            "ops": list(rand_ops_set(r)), "ain": None, "aout": None, "prof": None}


def rv(r, d):
    return rand_double(r, 0.12) if d else rand_float(r, 0.12)


def small(r, d):
    """value inside the int range"""
    x = r.choice([r.uniform(-1000, 1000), float(r.randint(-100, 100)), r.uniform(-1, 1)])
    return d2b(x) if d else f2b(x)


def argstr(r, args, val):
    o = [str(len(args))]
    for ty, nm, sz in args:
        m = 1 if ty < 2 else max(sz, 0)
        if ty >= 2 and sz == 0:
            m = 1  # the simulator passes one value that no one may touch
        o += [str(ty), nm, str(sz)] + ["%x" % val(r, isd(ty)) for _ in range(m)]
    return " ".join(o)


def body(r, funcs, depth, val, budget, op):
    """calls and operations inside a scope"""
    o = []
    for _ in range(r.randint(1, 4)):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        if depth < 7 and r.random() < 0.55:
            f = r.choice(funcs)
            head = "%s %d %d %d %d" % (f["name"], *f["flags"])
            o.append("enter %s %s" % (head, argstr(r, f["in"], val)))
            for x in body(r, funcs, depth + 1, val, budget, op):
                o.append(x)
            if f["flags"][2] or f["flags"][3]:
                o.append(op(r))
            o.append("exitf %s %s" % (head, argstr(r, f["out"], val)))
        else:
            o.append(None)
    return o


def program(r, val=rv, op=None, size=None, longs=False, main_plain=None):
    """(functions, ops); every op is inside a scope that uses floating point"""
    op = op or (lambda r: op_bin(r, None, 0.15))
    names = []
    while len(names) < r.choice([1, 2, 3, 5, 8]):
        n = fname(r, longs)
        if n not in names:
            names.append(n)
            t = n.replace("Aa", "BB") if "Aa" in n else n.replace("BB", "Aa")  # the same hash
            if t not in names and r.random() < 0.5:
                names.append(t)
    funcs = [mk_func(r, n, longarg=longs) for n in names]
    main = mk_func(r, "src/a.c//main/3/0", "plain" if (main_plain if main_plain is not None else r.random() < 0.1) else "fp")
    main["in"], main["out"] = [], []
    seq = body(r, funcs, 0, val, [size or r.choice([4, 8, 16, 30])], op)
    head = "%s %d %d %d %d" % (main["name"], *main["flags"])
    ops = ["enter " + head + " 0"] + seq + ["exitf " + head + " 0"]
    # operations only where the innermost function uses floating point
    st, out = [], []
    for o in ops:
        if o is None:
            if st and st[-1]:
                out.append(op(r))
            continue
        out.append(o)
        if o.startswith("enter"):
            f = o.split()
            st.append(int(f[4]) or int(f[5]))
        elif o.startswith("exitf"):
            st.pop()
    return [main] + funcs, out


def parse_scope(o):
    """(kind, name, flags, [(type, id, size, [bits])])"""
    f = o.split()
    p, args = 7, []
    for _ in range(int(f[6])):
        ty, nm, sz = int(f[p]), f[p + 1], int(f[p + 2])
        m = 1 if ty < 2 else max(sz, 0)
        if ty >= 2 and sz == 0:
            m = 1
        args.append((ty, nm, sz, [int(x, 16) for x in f[p + 3:p + 3 + m]]))
        p += 3 + m
    return f[0], f[1], tuple(int(x) for x in f[2:6]), args


def profile_entry(f, calls=0, ranges=None):
    l = ["%s\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%d\t%d" % (f["name"], *f["flags"], *f["ops"], len(f["in"]), len(f["out"]), calls)]
    for key, s, sets in (("input:", f["in"], f["ain"]), ("output:", f["out"], f["aout"])):
        for i, (a, st) in enumerate(zip(s, sets)):
            lo, hi = (INTMAX, INTMIN) if ranges is None else ranges[key][i]
            l.append("%s\t%s\t%d\t%d\t%d\t%d\t%d" % (key, a[1], a[0], st[0], st[1], lo, hi))
    return l


def give_settings(r, f):
    f["ain"] = [list(rand_arg_set(r, a[0])) for a in f["in"]]
    f["aout"] = [list(rand_arg_set(r, a[0])) for a in f["out"]]
    f["prof"] = True


# ------------------------------------------------------------------ reference rounding
def round_ref(d, bits, p, e, flush=False, cfg=None):
    """round to nearest even with p fraction bits and e exponent bits; None where the format leaves the answer open (a tie below
    the normal range); "zero" for a zero of unspecified sign"""
    MB, EB, X = (52, 11, 1023) if d else (23, 8, 127)
    S = 1 << (MB + EB)
    ex = bits >> MB & ((1 << EB) - 1)
    if ex == (1 << EB) - 1:
        return "nan" if bits & ((1 << MB) - 1) else bits
    emax = (1 << (e - 1)) - 1
    if bits & ~S == 0:
        return bits
    inf = bits & S | ((1 << EB) - 1) << MB
    absolute = cfg is not None and cfg["err"] != "rel"
    if absolute and (ex == 0 or ex - X < 1 - emax) and not flush:
        return None
    if ex == 0 or ex - X < 1 - emax:
        if flush:
            return "zero"
        m, q = (bits & ((1 << MB) - 1) | (1 << MB if ex else 0)), max(ex, 1) - X - MB  # value m*2^q
        k = (1 - emax - p) - q  # the unit of the small range is 2^(q+k)
        if k <= 0:
            return bits
        if m << 1 & ((1 << k + 1) - 1) == 1 << k:
            return None
        n = (m + (1 << (k - 1))) >> k
        if n == 0:
            return "zero"
        v = math.ldexp(n, q + k)  # exact: at most p + 1 bits, a multiple of 2^q
        return bits & S | (d2b(v) if d else f2b(v))
    if ex - X > emax:
        return inf
    if absolute:  # multiples of 2^abse, in mode "all" also p fraction bits
        dist = ex - X - cfg["abse"]
        if ex - X == emax or cfg["abse"] > X or dist <= 0 and bits & ((1 << MB) - 1) in (0, 1 << (MB - 1)):
            return None  # the largest numbers and ties are left open
        if dist < -1:
            return "zero"
        if dist == -1:
            return bits & S | (d2b(math.ldexp(1, cfg["abse"])) if d else f2b(math.ldexp(1, cfg["abse"])))
        p = min(dist, p if cfg["err"] == "all" else MB)
    k = MB - p
    if k == 0:
        return bits
    low = bits & ((1 << k) - 1)
    q = bits >> k
    h = 1 << (k - 1)
    if low > h or (low == h and q & 1):
        q += 1
    q <<= k
    return inf if (q >> MB & ((1 << EB) - 1)) - X > emax else q


def cast_ref(bits, cfg, s):
    """cast to binary32: at the binary32 settings when results are rounded, from the rounded operand when operands are"""
    if cfg["mode"] == "ieee":
        return ieee.ref_cast(bits)
    if cfg["mode"] == "ib":
        x = round_ref(True, bits, min(s[0], 23), min(s[1], 8), cfg["daz"], cfg)
    else:
        x = round_ref(True, bits, s[2], s[3], cfg["ftz"], cfg)
    return x if x in (None, "nan", "zero") else ieee.ref_cast(x)


def op_ref(o, cfg, s):
    """reference of a scalar operation with settings s=(p64,r64,p32,r32); None when the model does not cover it"""
    f = o.split()
    if f[0] == "cast":
        return cast_ref(int(f[1], 16), cfg, s)
    d = o[0] == "d"
    p, e = (s[0], s[1]) if d else (s[2], s[3])
    a = [int(x, 16) for x in f[1:]]
    if cfg["mode"] in ("full", "ib"):
        a = [round_ref(d, x, p, e, cfg["daz"], cfg) for x in a]
        if None in a or "zero" in a:
            return None
        if "nan" in a:
            return "nan"
    res = ieee.ref_fma(o[0], *a) if f[0].endswith("fma") else ieee.ref_bin(o[0], f[0][1:], *a)
    if cfg["mode"] in ("full", "ob") and res != "nan":
        res = round_ref(d, res, p, e, cfg["ftz"], cfg)
    return res


def base_opts(cfg):
    o = ["--mode=" + cfg["mode"], "--error-mode=" + cfg["err"]]
    if cfg["err"] != "rel":
        o.append("--max-abs-error-exponent=%d" % cfg["abse"])
    if cfg["daz"]:
        o.append("--daz")
    if cfg["ftz"]:
        o.append("--ftz")
    return o


def set_opts(s):
    return ["--precision-binary64=%d" % s[0], "--range-binary64=%d" % s[1], "--precision-binary32=%d" % s[2], "--range-binary32=%d" % s[3]]


class Walk:
    """what the program should compute: expected operations and argument roundings, and the profile"""

    def __init__(self, cfg, funcs, ops):
        self.cfg = cfg
        self.tab = {}
        for f in funcs:
            if f["prof"]:
                self.tab[f["name"]] = {"flags": f["flags"], "ops": tuple(f["ops"]), "n": f.get("calls", 0),
                                       "in": [[a[0], a[1], tuple(s), INTMAX, INTMIN] for a, s in zip(f["in"], f["ain"])] if f["in"] else None,
                                       "out": [[a[0], a[1], tuple(s), INTMAX, INTMIN] for a, s in zip(f["out"], f["aout"])] if f["out"] else None}
        self.items = []  # (index, "op", settings) / (index, "args", [(d, bits, settings or None, is_input)], entry, key)
        st = []
        inst = cfg["inst"]
        for i, o in enumerate(ops):
            if o.startswith(("enter", "exitf")):
                k, name, fl, args = parse_scope(o)
                if k == "enter":
                    st.append((name, fl))
                e = None
                if fl[2] or fl[3]:
                    if name not in self.tab:
                        self.tab[name] = {"flags": fl, "ops": FULL, "n": 0, "in": None, "out": None}
                    e = self.tab[name]
                    if k == "enter":
                        e["n"] += 1
                self.items.append((i, "args", self._args(e, "in" if k == "enter" else "out", args), name))
                if k == "exitf":
                    st.pop()
            elif o.split()[0] in ("usp32", "usp64", "usr32", "usr64"):
                n = int(o.split()[1])
                c = list(cfg["cli"])
                c[{"usp64": 0, "usr64": 1, "usp32": 2, "usr32": 3}[o.split()[0]]] = n
                cfg["cli"] = tuple(c)
            else:
                s = cfg["cli"]
                if inst in ("operations", "all"):
                    for name, fl in reversed(st):
                        if not fl[0] and not fl[1] and (fl[2] or fl[3]):
                            s = self.tab[name]["ops"]
                            break
                    else:  # code called by a library function of a program without floating point functions
                        continue
                self.items.append((i, "op", s, None))

    def _args(self, e, key, args):
        c = self.cfg
        if e is None:
            return [(isd(t), v, None, key == "in", None, z) for t, _, z, vs in args for v in vs]
        new = e[key] is None
        if new and args:
            e[key] = [[t, nm, (52, 11) if isd(t) else (23, 8), INTMAX, INTMIN] for t, nm, _, _ in args]
        on = c["inst"] in ("arguments", "all") and c["mode"] in (("full", "ib") if key == "in" else ("full", "ob")) and not new
        out = []
        for j, (t, nm, z, vs) in enumerate(args):
            a = e[key][j]
            for v in vs:
                touched = not (t >= 2 and z <= 0)
                out.append((isd(t), v, a[2] if on and touched else None, key == "in", a if touched else None, z))
        return out


def references(env, walk, ops, stats):
    """{settings key: {op string: bits}} from runs of VPREC with these settings for the whole program, no function instrumentation"""
    need = {}
    for i, kind, x, _ in walk.items:
        if kind == "op":
            need.setdefault(("op", x), []).append(ops[i])
        else:
            for d, v, s, inp, _, _ in x:
                if s is not None:
                    need.setdefault((inp, d, s), []).append("%sadd %x %x" % (("d", v, 1 << 63) if d else ("f", v, 1 << 31)))
    out = {}
    for k, l in need.items():
        l = sorted(set(l))
        if k[0] == "op":
            cfg, s = walk.cfg, k[1]
        else:
            cfg = dict(walk.cfg, mode="ib" if k[0] else "ob")
            s = (k[2][0], k[2][1], 23, 8) if k[1] else (52, 11, k[2][0], k[2][1])
        res = env.run({"prog": "prog_base.so", "threads": [l], "env": {
            "VFC_BACKENDS": " ".join(["libinterflop_vprec.so"] + base_opts(cfg) + set_opts(s)), "VFC_BACKENDS_SILENT_LOAD": "True"}})
        stats.saw(res)
        if not res.ok:
            return None, res
        out[k] = {o: res.vals[(0, j)][0] for j, o in enumerate(l)}
    return out, None


def expect_args(walk, refs, x):
    """expected values of the arguments after rounding"""
    out = []
    for d, v, s, inp, a, z in x:
        if s is None:
            out.append((d, v, None))
        else:
            o = "%sadd %x %x" % (("d", v, 1 << 63) if d else ("f", v, 1 << 31))
            m = round_ref(d, v, *s, walk.cfg["daz" if inp else "ftz"], walk.cfg)
            out.append((d, refs[(inp, d, s)][o], m))
    return out
