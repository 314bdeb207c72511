from vsim.csim import *
from vsim import ieee

PROP = "P21"
LEVEL = "exploration"
RULE = ("one case = a seeded program of 1-4 threads of scalar and vector operations, fma, casts and comparisons on random and special "
        "values, a backend chain ending with IEEE, and a seeded schedule; non-trivial and distinct by executed interleaving (hash of "
        "every preemption point and context switch)")
ASSUMPTIONS = ["reference = the host processor's IEEE arithmetic (Python floats, libm fma) on the same bit patterns; all NaNs are one value",
               "preemption at every memory access of the code compiled from /repo, not inside libc"]
COMPONENTS = COMPONENTS_C
BUDGET = {"quick": (30000, 30), "thorough": (400000, 600)}


def gen(r, idx, ctx):
    nt = r.choice([1, 2, 2, 3, 4])
    pre = []
    for _ in range(r.choice([0, 0, 0, 1, 2, 3])):
        k = r.random()
        if k < 0.5:
            pre.append(quiet_backend(r))
        else:
            pre.append(r.choice(["libinterflop_mca.so --mode=mca", "libinterflop_mca_int.so --mode=rr", "libinterflop_bitmask.so --mode=full --operator=rand",
                                 "libinterflop_cancellation.so --tolerance=2", "libinterflop_vprec.so --precision-binary64=10 --precision-binary32=5 --mode=full"]))
    last = quiet_backend(r, ["ieee"])
    env = quiet_env(r)
    env["VFC_BACKENDS"] = ";".join(pre + [last])
    nops = r.choice([6, 10, 20, 40])
    threads = [[any_op(r, r.choice([0.1, 0.3, 0.7]), cmp=True) for _ in range(r.randint(1, nops))] for _ in range(nt)]
    return {"prog": r.choice(["prog_full.so", "prog_full.so", "prog_func_full.so"]), "env": env, "threads": threads,
            "sched": rand_sched(r, 30 * nops), "clock": rand_clock(r), "tids": rand_tids(r, nt)}


def check(env, case, stats, rec):
    res = env.run(case)
    note_run(stats, rec, res)
    d = fault_free_died(res)
    if d:
        return Violation("died", d)
    for t, ops in enumerate(case["threads"]):
        for i, op in enumerate(ops):
            got = res.vals.get((t, i))
            p, ref = ieee.ref_op(op, lanes)
            stats.kind(lanes(op)[1])
            if got is None or len(got) != len(ref):
                return Violation("missing", "thread %d op %d %s has no result" % (t, i, op))
            for g, e in zip(got, ref):
                if p == "b":
                    if (g != 0) != e:
                        return Violation("cmp", "%s gives %d, uninstrumented %s (predicate %s)" % (op, g, e, ieee.PRED[int(op.split()[1])]))
                elif not ieee.same(p, g, e):
                    return Violation(lanes(op)[1], "thread %d op %d %s gives %x, uninstrumented %s" % (t, i, op, g, e if e == "nan" else "%x" % e))
    return None
