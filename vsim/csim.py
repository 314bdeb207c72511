"""Common parts of the checks on the C simulator."""
from . import build as B
from .core import *

COMPONENTS_C = {
    "real": ["src/vfcwrapper (main.c.in, funcinstr.c)", "src/backends/* (ieee, mca, mca_int, bitmask, cancellation, vprec)",
             "src/interflop-stdlib (stdlib, logger, rng, fma, hashmap)"],
    "stub": ["libc clock, thread ids, allocator decisions, file streams (real scratch files behind fault-injecting streams)",
             "thread scheduling (real threads, one at a time)", "llvm-addr2line and other child processes"],
}
BITS = {"d": 64, "f": 32}


def prepare(ctx):
    ctx["bdir"] = B.build(ctx["tmp"] + "/b")


def open_env(ctx):
    return Sim(ctx["bdir"])


def close_env(env):
    env.close()


def hard_fma(r, p):
    """the product lies in the middle of two numbers (or on one), a tiny addend decides"""
    m, x, top = (52, 1023, 63) if p == "d" else (23, 127, 31)
    one = x << m
    a = one | r.getrandbits(m) | 1
    b = one | r.choice([1, 1, 3]) << (m - 1) if r.random() < 0.7 else one | 1 << (m - 2)
    b &= (1 << top) - 1
    c = (x - r.randint(m + 2, 100)) << m | r.choice([0, r.getrandbits(m)]) | r.getrandbits(1) << top
    return a | r.getrandbits(1) << top, b, c


def hard_bin(r, p):
    """sums close to the middle of two numbers, quotients and products close to the limits"""
    m, x, top = (52, 1023, 63) if p == "d" else (23, 127, 31)
    k = r.random()
    a = (x + r.randint(-20, 20)) << m | r.getrandbits(m)
    if k < 0.6:
        e = (a >> m) - m - 1
        b = e << m | r.choice([0, 0, 1, (1 << m) - 1, r.getrandbits(m)])
        return a, b | r.getrandbits(1) << top
    if k < 0.8:  # around the smallest normal number
        e = r.randint(1, 30)
        return e << m | r.getrandbits(m), r.choice([(x - e + r.randint(-2, 2)) << m | r.getrandbits(m), max(e + r.randint(-1, 1), 0) << m | r.getrandbits(m)])
    t = (2 * x) << m  # around the largest
    return t | r.getrandbits(m), r.choice([t | r.getrandbits(m), x << m | r.getrandbits(m), t - (m << m) | r.getrandbits(m)])


def hard_cast(r):
    b = (1023 + r.choice([r.randint(-30, 30), r.randint(-150, -120), 127])) << 52 | r.getrandbits(23) << 29
    return (b | 1 << 28 | r.choice([0, 0, 1, 2])) - r.choice([0, 0, 1]) | r.getrandbits(1) << 63


def op_bin(r, prec=None, special=0.2, ops=("add", "sub", "mul", "div")):
    p = prec or r.choice("df")
    if r.random() < 0.1:
        return "%s%s %x %x" % ((p, r.choice(ops)) + hard_bin(r, p))
    rv = rand_double if p == "d" else rand_float
    return "%s%s %x %x" % (p, r.choice(ops), rv(r, special), rv(r, special))


def op_vec(r, special=0.2, ops=("add", "sub", "mul", "div"), sizes=(2, 4, 8, 16)):
    p = r.choice("df")
    rv = rand_double if p == "d" else rand_float
    n = r.choice(sizes)
    return "v%d%s%s %s" % (n, p, r.choice(ops), " ".join("%x" % rv(r, special) for _ in range(2 * n)))


def op_fma(r, special=0.2):
    p = r.choice("df")
    if r.random() < 0.3:
        return "%sfma %x %x %x" % ((p,) + hard_fma(r, p))
    rv = rand_double if p == "d" else rand_float
    return "%sfma %x %x %x" % (p, rv(r, special), rv(r, special), rv(r, special))


def op_cast(r, special=0.2):
    return "cast %x" % (hard_cast(r) if r.random() < 0.3 else rand_double(r, special))


def op_cmp(r, special=0.3):
    p = r.choice("df")
    rv = rand_double if p == "d" else rand_float
    a, b = rv(r, special), rv(r, special)
    if r.random() < 0.25:
        b = a
    return "%scmp %d %x %x" % (p, r.randint(0, 15), a, b)


def op_vcmp(r, special=0.3):
    p = r.choice("df")
    rv = rand_double if p == "d" else rand_float
    n = r.choice((2, 4, 8, 16))
    a = [rv(r, special) for _ in range(n)]
    b = [x if r.random() < 0.3 else rv(r, special) for x in a]
    return "v%d%scmp %d %s" % (n, p, r.randint(0, 15), " ".join("%x" % x for x in a + b))


def any_op(r, special=0.2, fma=True, cast=True, cmp=False, vec=True):
    x = r.random()
    if cmp and x < 0.15:
        return op_cmp(r) if r.random() < 0.7 else op_vcmp(r)
    if vec and x < 0.25:
        return op_vec(r, special, sizes=(2, 2, 4, 8, 16))
    if fma and x < 0.4:
        return op_fma(r, special)
    if cast and x < 0.5:
        return op_cast(r, special)
    return op_bin(r, None, special)


def lanes(op):
    """(precision, operation, lanes) of an arithmetic op string"""
    n = op.split(" ", 1)[0]
    if n == "cast":
        return ("d", "cast", 1)
    if n[0] == "v":
        i = 1
        while n[i].isdigit():
            i += 1
        return (n[i], n[i + 1:], int(n[1:i]))
    return (n[0], n[1:], 1)


def rand_clock(r):
    return [r.choice([0, 1, 1, 2, 3, 4, 5]), r.randint(1_000_000_000, 2_000_000_000) * 1000000 + r.randint(0, 999999),
            r.choice([1, 1, 2, 7, 1000]), r.getrandbits(40)]


def rand_tids(r, n):
    m = r.random()
    if m < 0.5:
        b = r.randint(2, 4000000)
        return [b + i for i in range(n)]
    if m < 0.7:
        b = r.randint(2, 30000)
        t = [b + i for i in range(n)]
        r.shuffle(t)
        return t
    return r.sample(range(2, 4194304), n)


def fault_free_died(r):
    """a run without faults must end normally"""
    return None if r.ok else "ended with %s: %s" % (r.status(), r.err[-300:])


def vprec_opts(r):
    o = ["--precision-binary64=%d" % r.randint(1, 52), "--precision-binary32=%d" % r.randint(1, 23),
         "--range-binary64=%d" % r.randint(2, 11), "--range-binary32=%d" % r.randint(2, 8),
         "--mode=" + r.choice(["ieee", "full", "ib", "ob"]), "--error-mode=" + r.choice(["rel", "abs", "all"])]
    if r.random() < 0.3:
        o.append("--max-abs-error-exponent=%d" % r.randint(-30, 10))
    if r.random() < 0.3:
        o.append("--daz")
    if r.random() < 0.3:
        o.append("--ftz")
    return r.sample(o, r.randint(0, len(o)))


def quiet_backend(r, names=None):
    """a backend configuration without randomness"""
    b = r.choice(names or ["ieee", "vprec", "bitmask", "mca", "mca_int", "stub", "ieee", "vprec"])
    if b == "ieee":
        return " ".join(["libinterflop_ieee.so"] + r.sample(["--count-op", "--no-backend-name", "--print-new-line",
                                                            "--print-subnormal-normalized"], r.choice([0, 0, 1, 2])) +
                        ([r.choice(["--debug", "--debug-binary"])] if r.random() < 0.12 else []))
    if b == "vprec":
        return " ".join(["libinterflop_vprec.so"] + vprec_opts(r))
    if b == "bitmask":
        return "libinterflop_bitmask.so --mode=%s --operator=%s --precision-binary64=%d --precision-binary32=%d%s" % (
            r.choice(["ieee", "full", "ib", "ob"]), r.choice(["zero", "one"]), r.randint(1, 53), r.randint(1, 24),
            r.choice(["", "", " --daz", " --ftz"]))
    if b == "mca":
        return "libinterflop_mca.so --mode=ieee" + r.choice(["", " --daz", " --ftz", " --precision-binary64=20"])
    if b == "mca_int":
        return "libinterflop_mca_int.so --mode=ieee" + r.choice(["", " --daz", " --ftz"])
    return "libstub%d.so" % r.randint(0, 2)


def quiet_env(r):
    e = {"VFC_BACKENDS_SILENT_LOAD": r.choice(["True", "False"])}
    if r.random() < 0.3:
        e["VFC_BACKENDS_LOGGER"] = r.choice(["True", "False"])
    if r.random() < 0.2:
        e["VFC_BACKENDS_LOGGER_LEVEL"] = r.choice(["debug", "info", "warning", "error"])
    if r.random() < 0.1:
        e["VFC_BACKENDS_COLORED_LOGGER"] = "True"
    return e


def note_run(stats, rec, res, case=None):
    stats.saw(res)
    stats.distinct.add(res.swhash + "/" + res.hash)
    if rec is not None:
        rec["digest"] = res.digest()
        rec["sw"] = res.sw


def thread_vals(res, t, n):
    return [res.vals.get((t, i)) for i in range(n)]


# ---- backends with randomness
RND = {"mca": ("libinterflop_mca.so", "mcaquad"), "mca_int": ("libinterflop_mca_int.so", "mcaint"),
       "bitmask": ("libinterflop_bitmask.so", "bitmask"), "cancellation": ("libinterflop_cancellation.so", "cancellation")}


def rnd_backend(r, name=None, seed=None, noisy=False):
    """(name, configuration string); noisy: at least ~12 random bits per binary32 and ~20 per binary64 result"""
    n = name or r.choice(["mca", "mca", "mca_int", "bitmask", "cancellation"])
    o = [RND[n][0]]
    p64 = r.randint(8, 30) if noisy else r.randint(3, 52)
    p32 = r.randint(4, 10) if noisy else r.randint(2, 23)
    if n == "cancellation":
        o.append("--tolerance=%d" % (r.randint(0, 4)))
    else:
        if n in ("mca", "mca_int"):
            o.append("--mode=" + ("mca" if noisy and n == "mca_int" else r.choice(["mca", "mca", "rr", "pb"])))
            if not noisy and r.random() < 0.25:
                o.append("--sparsity=%s" % r.choice(["0.5", "0.1", "0.9", "1"]))
            if n == "mca" and not noisy and r.random() < 0.3:
                o.append("--error-mode=%s" % r.choice(["rel", "abs", "all"]))
                o.append("--max-abs-error-exponent=%d" % r.randint(-20, 5))
        else:
            o.append("--mode=" + r.choice(["full", "ib", "ob"]))
            o.append("--operator=rand")
        if n != "mca_int":
            o.append("--precision-binary64=%d" % p64)
            o.append("--precision-binary32=%d" % p32)
        if not noisy and r.random() < 0.2:
            o.append(r.choice(["--daz", "--ftz"]))
    if seed is not None:
        o.append("--seed=%d" % seed)
    head, tail = o[0], o[1:]
    r.shuffle(tail)
    return n, " ".join([head] + tail)


def noisy_op(r, backend, prec=None):
    """an operation that surely draws noise, whatever the mode"""
    from . import ieee
    while True:
        o = _noisy_op(r, backend, prec)
        if backend != "bitmask" or ieee.ref_op(o, lanes)[1][0] & 1:
            return o


def _noisy_op(r, backend, prec):
    p = prec or r.choice("df")
    if p == "d":
        a = (1023 << 52) | r.getrandbits(52) | 1
        if backend == "cancellation":  # about 20 bits cancelled
            return "dsub %x %x" % (a, a ^ (1 << r.randint(20, 34)))
        b = ((1023 + r.randint(-3, 3)) << 52) | r.getrandbits(52) | 1
        return "d%s %x %x" % (r.choice(["mul", "mul", "div"]), a, b)
    a = (127 << 23) | r.getrandbits(23) | 1
    if backend == "cancellation":
        return "fsub %x %x" % (a, a ^ (1 << r.randint(8, 14)))
    b = ((127 + r.randint(-3, 3)) << 23) | r.getrandbits(23) | 1
    return "f%s %x %x" % (r.choice(["mul", "mul", "div"]), a, b)
