from vsim.csim import *
from vsim import ieee

PROP = "P03"
LEVEL = "exploration"
RULE = ("one case = 2-5 threads running random scalar, vector, fma and cast operations through 1-4 backends without randomness under a "
        "seeded schedule, compared with runs of each thread alone and, where the last backend promises the plain result, with the processor's own arithmetic; distinct by executed interleaving")
ASSUMPTIONS = ["the reference run is the same build of the same code with one thread", "threads do not change settings (user calls) while others compute"]
COMPONENTS = COMPONENTS_C
BUDGET = {"quick": (30000, 30), "thorough": (400000, 600)}


def gen(r, idx, ctx):
    nt = r.choice([2, 2, 3, 4, 5])
    be = [quiet_backend(r) for _ in range(r.choice([1, 1, 2, 3, 4]))]
    cmp = any("ieee" in b.split()[0] for b in be)
    if not cmp:
        be.insert(r.randint(0, len(be)), "libinterflop_ieee.so") if r.random() < 0.5 else None
    cmp = any("ieee" in b.split()[0] or "stub" in b for b in be)
    env = quiet_env(r)
    env["VFC_BACKENDS"] = ";".join(be)
    nops = r.choice([3, 6, 12, 25])
    threads = [[any_op(r, r.choice([0.05, 0.2, 0.5]), cmp=cmp, cast=cmp) for _ in range(r.randint(1, nops))] for _ in range(nt)]
    if r.random() < 0.25:  # the same operations everywhere
        threads = [list(threads[0]) for _ in range(nt)]
    prog = "prog_full.so" if cmp else "prog_base.so"
    if not cmp:
        threads = [[o for o in t] for t in threads]
    return {"prog": prog, "env": env, "threads": threads, "sched": rand_sched(r, 40 * nops), "clock": rand_clock(r), "tids": rand_tids(r, nt)}


def plain(backends):
    """does the last backend of the chain promise the plain result of arithmetic operations and fused multiply-adds?"""
    b = backends.split(";")[-1]
    n = b.split()[0]
    if "--daz" in b or "--ftz" in b:
        return False
    return "_ieee" in n or ("mca" in n or "bitmask" in n or "vprec" in n) and "--mode=ieee" in b


def check(env, case, stats, rec):
    res = env.run(case)
    note_run(stats, rec, res)
    d = fault_free_died(res)
    if d:
        return Violation("died", d)
    pl = plain(case["env"]["VFC_BACKENDS"])
    for t, ops in enumerate(case["threads"]):
        if not ops:
            continue
        a = env.run({"prog": case["prog"], "env": case["env"], "threads": [ops]})
        stats.saw(a)
        if not a.ok:
            return Violation("died-alone", a.status() + a.err[-200:])
        for i, op in enumerate(ops):
            stats.kind(lanes(op)[1])
            g, e = res.vals.get((t, i)), a.vals.get((0, i))
            if g is None or g != e:
                return Violation("differs", "thread %d op %d: %s gives %s, alone %s" % (
                    t, i, op[:120], g and ["%x" % x for x in g], e and ["%x" % x for x in e]))
            if pl and lanes(op)[1] in ("add", "sub", "mul", "div", "fma"):
                stats.kind("plain")
                q, ref = ieee.ref_op(op, lanes)
                if any(not ieee.same(q, x, y) for x, y in zip(g, ref)):
                    return Violation("wrong", "thread %d op %d: %s gives %s; the last backend promises the plain result %s" % (t, i, op[:120], g, ref))
    return None
