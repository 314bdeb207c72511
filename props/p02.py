from vsim.csim import *

PROP = "P02"
LEVEL = "exploration"
RULE = ("one case = 2-300 threads (most often 2-8), some started after others have ended and with their identifier, repeating the same perturbed operation, with or without a fixed seed, an adversarial clock (stopped, one tick "
        "per reading, drifting, jumping, running backwards), thread ids and a seeded schedule dense around the first draws; distinct by "
        "executed interleaving")
ASSUMPTIONS = ["two independent streams agree on 6 consecutive results with probability below 2^-70"]
COMPONENTS = COMPONENTS_C
BUDGET = {"quick": (30000, 30), "thorough": (500000, 600)}
K, W = 10, 6
MIN_OPS = False


def gen(r, idx, ctx):
    x = r.random()
    nt = r.choice([2, 2, 3, 4, 6, 8]) if x < 0.93 else r.randint(9, 40) if x < 0.99 else r.randint(65, 300)
    seeded = r.random() < 0.4
    seed = r.choice([0, 1, 2, 3, 5, 7, r.getrandbits(20), r.getrandbits(60), -1]) if seeded else None
    name, be = rnd_backend(r, seed=seed, noisy=True)
    env = quiet_env(r)
    env["VFC_BACKENDS"] = be
    op = noisy_op(r, name, r.choice("ddf"))
    if name == "mca_int":  # noise on the last bit only: 16 lanes
        q = r.choice("df")
        l = [noisy_op(r, name, q).split()[1:] for _ in range(16)]
        op = "v16%smul %s" % (q, " ".join([x[0] for x in l] + [x[1] for x in l]))
    base = r.randint(1_000_000_000, 2_000_000_000) * 1000000 + r.randint(0, 999999)
    clock = [r.choice([0, 1, 1, 1, 2, 2, 3, 4, 5]), base, r.choice([1, 1, 1, 2, 3, 4, 8]), r.getrandbits(40)]
    m = r.random()
    if m < 0.6:
        b = r.randint(2, 4000000)
        tids = [b + i for i in range(nt)]
        if r.random() < 0.4:
            r.shuffle(tids)
    else:
        tids = rand_tids(r, nt)
    # threads which start after others have ended can get their identifiers
    pre = [[] for _ in range(nt)]
    if nt < 65 and r.random() < 0.3:
        free = [0]
        for i in range(1, nt):
            if r.random() < 0.6:
                j = r.randrange(i)
                pre[i] = ["join %d" % j]
                if j in free and r.random() < 0.8:
                    free.remove(j)
                    tids[i] = tids[j]
            free.append(i)
    s = rand_sched(r, 200) if r.random() < 0.5 else ["first", r.getrandbits(62), r.choice([1, 2, 3]), r.choice([30, 60, 120])]
    warm = [r.choice([0, 0, 1, 3]) for _ in range(nt)]
    ticks = [r.choice([0, 0, 1, -1, 2]) for _ in range(nt)]
    return {"prog": "prog_base.so", "env": env, "seeded": seeded, "backend": name, "sched": s, "clock": clock, "tids": tids,
            "threads": [pre[i] + (["tick %d" % ticks[i]] if ticks[i] else []) + [op] * (K + warm[i]) for i in range(nt)]}


def check(env, case, stats, rec):
    res = env.run(case)
    note_run(stats, rec, res)
    stats.kind(("seeded " if case["seeded"] else "unseeded ") + "clock%d" % case["clock"][0])
    stats.sim_us += res.n["clock"] * case["clock"][2]
    d = fault_free_died(res)
    if d:
        return Violation("died", d)
    win = {}
    for t, ops in enumerate(case["threads"]):
        v = [res.vals.get((t, i)) for i, o in enumerate(ops) if not o.startswith(("tick", "join"))]
        for i in range(len(v) - W + 1):
            w = tuple(v[i:i + W])
            o = win.setdefault(w, t)
            if o != t:
                return Violation("seeded" if case["seeded"] else "unseeded", "threads %d and %d draw the same perturbations: %s" % (
                    o, t, ["%x" % x[0] for x in w]))
        if len(set(v)) < 3:
            return Violation("constant", "thread %d repeats the same perturbation" % t)
    return None
