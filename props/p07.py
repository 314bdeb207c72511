from vsim.csim import *

PROP = "P07"
LEVEL = "exploration"
RULE = ("one case = a configuration (1-16 backends, options, separators, up to 6 kB) given through the environment or a file, 1-3 threads of operations, "
        "libraries loaded on the way and 2-3 generations, each started with the environment its parent left; distinct by configuration and interleaving")
ASSUMPTIONS = ["the child inherits the environment of its parent at a point after loading", "the configuration file holds one line"]
COMPONENTS = dict(COMPONENTS_C, stub=COMPONENTS_C["stub"] + ["some backends of the chain: recording stand-ins (sim/stub.c)",
                                                             "exec of the next generation: a new simulated process with the dumped environment"])
BUDGET = {"quick": (30000, 30), "thorough": (300000, 600)}


def gen(r, idx, ctx):
    n = r.choice([1, 2, 3, 5, 16])
    be = []
    for _ in range(n):
        x = r.random()
        if x < 0.45:
            be.append("libstub%d.so --mask=ffff%s" % (r.randint(0, 2), "".join(" %s%d" % (r.choice(["a", "--bcd=", "-e"]), i) for i in range(r.choice([0, 1, 3, 40])))))
        elif x < 0.8:
            be.append(quiet_backend(r, ["ieee", "vprec", "bitmask", "mca", "mca_int"]).replace(" --debug-binary", "").replace(" --debug", ""))
        else:
            be.append(rnd_backend(r, seed=r.randint(0, 1 << 40))[1])
    if r.random() < 0.2:  # options given as two words
        be = [b.replace("=", " ") if "mask" not in b and "--bcd" not in b else b for b in be]
    if r.random() < 0.3:
        be = [b.replace(" ", "  ") if r.random() < 0.5 else b for b in be]
    if r.random() < 0.2:
        be = [" " + b for b in be]
    if r.random() < 0.1:
        be = [b + " " for b in be]
    cfg = r.choice([";", ";", "; ", " ;", ";;"]).join(be) + r.choice(["", "", "", ";"])
    env = quiet_env(r)
    if r.random() < 0.2:
        env["VFC_BACKENDS_LOGFILE"] = "log"
    for k in range(r.choice([0, 0, 1, 3])):
        env["OTHER%d" % k] = r.choice(["", "x;y z", "libstub0.so --mask=0", "a=b;c"])
    nt = r.choice([1, 1, 2, 3])
    threads = [[op_bin(r) for _ in range(r.randint(1, 4))] for _ in range(nt)]
    t = r.randrange(nt)
    if r.random() < 0.3:
        threads[t].insert(r.randint(0, len(threads[t])), "dlopen prog_base%s.so 1" % r.choice(["2", "2"]) if False else "dlopen prog_dd.so 1")
    threads[t].insert(r.randint(0, len(threads[t])), "environ _environ")
    return {"prog": "prog_base.so", "env": env, "cfg": cfg, "threads": threads, "sched": rand_sched(r, 100), "first": r.choice(["env", "file"]),
            "both": r.random() < 0.15, "nl": r.choice(["", "\n"]), "bufsz": r.choice([0, 0, 7, 64]), "gens": r.choice([2, 2, 3]),
            "tids": list(range(100, 100 + nt)), "clock": [1, 1600000000000000, 1, 3]}


def conf(case, how):
    c = dict(case)
    c["env"] = dict(case["env"])
    c["files"] = {}
    if how == "env":
        c["env"]["VFC_BACKENDS"] = case["cfg"]
        if case["both"]:
            c["env"]["VFC_BACKENDS_FROM_FILE"] = "other.txt"
            c["files"]["other.txt"] = "libnotabackend.so"
    else:
        c["env"]["VFC_BACKENDS_FROM_FILE"] = "conf.txt"
        c["files"]["conf.txt"] = case["cfg"] + case["nl"]
    return c


def effect(res, case):
    """what the configuration did: per backend arguments and per thread results"""
    cli = [(x[1], x[3:6]) for x in res.recs if x[2] == 2]
    return cli, sorted((k, v) for k, v in res.vals.items())


def check(env, case, stats, rec):
    other = "file" if case["first"] == "env" else "env"
    c0 = conf(case, case["first"])
    res = env.run(c0)
    note_run(stats, rec, res)
    stats.kind(case["first"])
    d = fault_free_died(res)
    if d:
        return Violation("died", "first process: " + d)
    ref = effect(res, case)
    dig = rec["digest"]
    cur = c0
    for g in range(case["gens"]):
        # what the process left behind
        for f, data in cur["files"].items():
            if res.files.get(f) != data.encode("latin-1"):
                return Violation("file-changed", "generation %d changed its configuration file %s" % (g, f))
        raw = res.files.get("_environ", b"").decode("latin-1").split("\0")
        got = dict(e.split("=", 1) for e in raw if "=" in e)
        want = dict(cur["env"])
        want.setdefault("LD_LIBRARY_PATH", env.bdir)
        want = {k: v.replace("@CWD@", env.cwd) for k, v in want.items()}
        if got != want:
            k = [x for x in set(got) | set(want) if got.get(x) != want.get(x)][0]
            return Violation("environment-changed", "generation %d: %s was %r and is %r" % (g, k, want.get(k), got.get(k)))
        if g == case["gens"] - 1:
            break
        nxt = dict(cur)
        nxt["env"] = got
        res = env.run(nxt)
        stats.saw(res)
        dig += res.digest()
        d = fault_free_died(res)
        if d:
            return Violation("child-died", "generation %d: %s" % (g + 1, d))
        if effect(res, case) != ref:
            return Violation("child-differs", "generation %d runs with another configuration" % (g + 1))
        cur = nxt
    res = env.run(conf(case, other))
    stats.saw(res)
    d = fault_free_died(res)
    if d:
        return Violation("way-died", "the configuration given through the %s is refused: %s" % (other, d))
    if effect(res, case) != ref:
        return Violation("way-differs", "the same configuration given through environment and file has different effects")
    rec["digest"] = dig + res.digest()
    return None
