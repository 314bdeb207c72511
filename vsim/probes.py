"""Model of the probe interface: scenarios and the expected file."""
from .csim import *

ALPH = ["a", "b", "Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa", "x", "test", "t1", "var_%d", "sum", "C#", "Bb", "very_long_name_" * 12, "%s%n", " sp ", "é", "0", "-1", ""]


def esc(s):
    o = "".join(c if c.isascii() and (c.isalnum() or c in "_-.") else "%%%02x" % b for c in s for b in c.encode())
    return o if o else "%"


def name(r, pool):
    if pool and r.random() < 0.6:
        return r.choice(pool)
    k = "".join(r.choice(ALPH) for _ in range(r.choice([1, 1, 2, 3])))
    if r.random() < 0.5:
        k += str(r.randint(0, 40))
    return k or "n"


def probe_op(r, slot, t, v):
    kind = r.randint(0, 5)
    return ("probe %d %d %s %s %x %x" % (slot, kind, esc(t), esc(v), rand_double(r, 0.35), rand_double(r, 0.2)),
            (kind % 3, t, v))


def parse_op(op):
    import urllib.parse
    f = op.split()
    un = lambda s: "" if s == "%" else urllib.parse.unquote(s, encoding="utf-8")
    return int(f[1]), int(f[2]), un(f[3]), un(f[4]), int(f[5], 16), int(f[6], 16)


def row(op):
    _, kind, t, v, val, thr = parse_op(op)
    return (t, v), (val, thr if kind % 3 else 0, ("none", "absolute", "relative")[kind % 3])


def same_val(text, bits):
    try:
        x = float.fromhex(text) if "nan" not in text else float("nan")
    except (ValueError, OverflowError):
        return False
    w = b2d(bits)
    if w != w:
        return x != x
    return d2b(x) == bits


def check_file(data, model):
    """None, or what is wrong with the dump of the model {(test, var): (value, threshold, mode)}"""
    if data is None:
        return "there is no output file"
    txt = data.decode("utf-8", "replace")
    ls = txt.split("\n")
    if ls[0] != "test,variable,value,accuracy_threshold,check_mode":
        return "header is %r" % ls[0][:80]
    if ls[-1] != "":
        return "the last line is torn: %r" % ls[-1][:80]
    seen = set()
    for l in ls[1:-1]:
        f = l.split(",")
        if len(f) != 5:
            return "row %r" % l[:100]
        k = (f[0], f[1])
        if k in seen:
            return "%s,%s is written twice" % k
        seen.add(k)
        if k not in model:
            return "%s,%s was never registered" % k
        val, thr, mode = model[k]
        if not same_val(f[2], val) or not same_val(f[3], thr) or f[4] != mode:
            return "%s,%s has %s,%s,%s instead of %r,%r,%s" % (*k, *f[2:], b2d(val), b2d(thr), mode)
    if seen != set(model):
        return "%d of %d probes are missing" % (len(set(model) - seen), len(model))
    return None
