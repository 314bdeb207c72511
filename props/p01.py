import itertools
from vsim.csim import *

PROP = "P01"
LEVEL = "exploration"
RULE = ("one case = 1-5 threads of perturbed operations, a seeded random backend at the end of the chain, one seeded schedule, clock and "
        "thread ids; the reference table holds every thread at every rank, from serial executions with another clock and other ids; "
        "distinct by executed interleaving")
ASSUMPTIONS = ["the rank of a thread is the number of threads that drew noise before it; any assignment of ranks to threads is accepted as long "
               "as each rank is used once", "seeds are pushed only after the thread drew noise (before that the push itself takes a rank)"]
COMPONENTS = COMPONENTS_C
BUDGET = {"quick": (30000, 30), "thorough": (300000, 600)}


def gen(r, idx, ctx):
    nt = r.choice([1, 2, 2, 3, 3, 4, 5])
    seed = r.choice([0, 1, 2, 3, r.getrandbits(16), r.getrandbits(31), -1, -r.getrandbits(20), r.getrandbits(62)])
    name, be = rnd_backend(r, seed=seed)
    chain = [be]
    if r.random() < 0.3:
        chain.insert(0, r.choice([quiet_backend(r), rnd_backend(r, r.choice([k for k in RND if k != name]))[1]]))
    env = quiet_env(r)
    env["VFC_BACKENDS"] = ";".join(chain)
    # more operations with the same seed, unseeded or re-seeded in between
    nops = r.choice([2, 4, 8, 20])

    def ops(n):
        o = []
        for _ in range(n):
            x = r.random()
            if x < 0.5:
                o.append(noisy_op(r, name))
            elif x < 0.6 and name == "mca":
                o.append("uinexd %x %d" % (normal_double(r), r.choice([0, 1, 20, 53])) if r.random() < 0.5 else
                         "uinexf %x %d" % (normal_float(r), r.choice([0, 1, 10, 24])))
            else:
                o.append(any_op(r, 0.1, cast=True))
        return o
    threads, marks = [], []
    for _ in range(nt):
        t = ops(r.choice([0, 0, 0, 1, 2])) if r.random() < 0.5 else []
        # late first draw: an operation without noise first
        if r.random() < 0.2:
            t.insert(0, "nop")
        sure = len(t)
        t.append(noisy_op(r, name))
        t += ops(r.randint(0, nops))
        threads.append(t)
        m = None
        if r.random() < 0.25:
            m = [r.randint(sure + 1, len(t)), ops(r.randint(0, 4)), r.getrandbits(32)]
        marks.append(m)
    return {"prog": "prog_base.so", "backend": name, "env": env, "threads": threads, "push": marks,
            "sched": rand_sched(r, 60 * nops), "clock": rand_clock(r), "tids": rand_tids(r, nt), "clock2": rand_clock(r),
            "tids2": rand_tids(r, nt)}


MIN_OPS = False


def shrink(env, case, fails, t_end):
    import copy, time
    for ti in range(len(case["threads"])):
        i = len(case["threads"][ti]) - 1
        while i >= 0 and time.time() < t_end:
            c = copy.deepcopy(case)
            del c["threads"][ti][i]
            c["push"][ti] = None
            if fails(c):
                case = c
            i -= 1
    return case


def check(env, case, stats, rec):
    n = len(case["threads"])
    lib, pre = RND[case["backend"]]
    base = {"prog": case["prog"], "env": case["env"]}
    if any("cast" in o for t in case["threads"] for o in t) and case["prog"] == "prog_base.so":
        pass
    stats.kind(case["backend"])
    # the program under test: with the push..pop sections
    conc, keep = [], []
    for t, m in zip(case["threads"], case["push"]):
        if m:
            at, sec, sd = m
            ins = ["pushseed %s %s %x" % (lib, pre, sd)] + sec + ["popseed %s %s" % (lib, pre)]
            conc.append(t[:at] + ins + t[at:])
            keep.append(list(range(at)) + list(range(at + len(ins), len(t) + len(ins))))
            stats.kind("push/pop")
        else:
            conc.append(t)
            keep.append(list(range(len(t))))
    sc = dict(base, threads=conc, clock=case["clock"], tids=case["tids"])
    for k in ("sched", "sw"):
        if k in case:
            sc[k] = case[k]
    res = env.run(sc)
    note_run(stats, rec, res)
    d = fault_free_died(res)
    if d:
        return Violation("died", d)
    # reference: R[i][k] = thread i at rank k
    R = [[None] * n for _ in range(n)]
    for k in range(n):
        order = [(j + k) % n for j in range(n)]
        ref = env.run(dict(base, threads=[case["threads"][i] for i in order], clock=case["clock2"], tids=case["tids2"]))
        stats.saw(ref)
        if not ref.ok:
            return Violation("died-serial", ref.status() + ref.err[-200:])
        for pos, i in enumerate(order):
            R[i][pos] = thread_vals(ref, pos, len(case["threads"][i]))
    got = [[res.vals.get((i, j)) for j in keep[i]] for i in range(n)]
    fit = [[k for k in range(n) if got[i] == R[i][k]] for i in range(n)]

    def match(i, used):
        return i == n or any(k not in used and match(i + 1, used | {k}) for k in fit[i])
    if not match(0, frozenset()):
        bad = [i for i in range(n) if not fit[i]]
        w = bad[0] if bad else 0
        if bad:
            best = max(range(n), key=lambda k: next((x for x in range(len(got[w])) if got[w][x] != R[w][k][x]), 0))
            x = next(x for x in range(len(got[w])) if got[w][x] != R[w][best][x])
            return Violation("stream", "thread %d (op %d: %s) has %s; no rank explains its results" % (
                w, x, case["threads"][w][x], got[w][x] and ["%x" % v for v in got[w][x]]))
        return Violation("rank", "two threads obtained the results of one rank: possible ranks %s" % (fit,))
    return None
