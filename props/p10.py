from vsim.csim import *
from vsim.probes import *

PROP = "P10"
LEVEL = "fault_enumeration"
RULE = ("one case = 0-200 probes with arbitrary values dumped over an absent, shorter or longer older file through streams of 1-4096 bytes buffer, with up to two "
        "faults (open, write failing fully or after part of the data, close, allocation) at seeded points; distinct by probe set and fault points")
ASSUMPTIONS = ["names without line breaks", "without an output path nothing is dumped", "death by a signal after a failed allocation counts as a failure status"]
COMPONENTS = {"real": ["src/common/vfc_probes.c", "src/interflop-stdlib/hashmap"], "stub": COMPONENTS_C["stub"]}
BUDGET = {"quick": (30000, 30), "thorough": (400000, 600)}
MIN_OPS = False


def gen(r, idx, ctx):
    ops = ["pinit 0"]
    seen = set()
    for i in range(r.choice([0, 1, 3, 10, 60, 200])):
        k = (name(r, None), name(r, None))
        if k not in seen:
            seen.add(k)
            ops.append(probe_op(r, 0, *k)[0])
    ops.append("pdump 0")
    tail = r.choice([0, 0, 1])
    if tail:  # life goes on after the dump
        ops += ["pinit 1", probe_op(r, 1, "t", "v")[0], "pnum 1"]
    files = {}
    if r.random() < 0.5:
        files["out.csv"] = "test,variable,value,accuracy_threshold,check_mode\n" + "old,old,0x1p+0,0x0p+0,none\n" * r.choice([0, 1, 50, 900])
    faults = []
    if r.random() < 0.75:
        for _ in range(r.choice([1, 1, 1, 2])):
            k = r.choice(["open", "write", "write", "write", "close", "close", "malloc"])
            n = {"open": 1, "write": r.choice([1, 1, 2, 3, 5, 9]), "close": 1, "malloc": r.randint(1, 400)}[k]
            arg = {"open": r.choice([2, 13, 24, 28]), "write": r.choice([0, 1, 5, 49, 60, 300, -1, -1]), "close": r.choice([5, 28, 122]), "malloc": 0}[k]
            faults.append([k, n, arg])
    out = r.choice(["out.csv", "out.csv", "out.csv", "@CWD@/out.csv", "nodir/out.csv"])
    return {"prog": "prog_base.so", "env": {"VFC_BACKENDS": "libstub0.so", "VFC_BACKENDS_SILENT_LOAD": "True", "VFC_PROBES_OUTPUT": out}, "threads": [ops],
            "faults": faults, "files": files, "bufsz": r.choice([0, 0, 1, 10, 64, 512, 4096]), "sched": ["serial", 1, 1, 0]}


def check(env, case, stats, rec):
    res = env.run(case)
    note_run(stats, rec, res)
    stats.distinct.add(str((case["threads"], case["faults"], case["bufsz"]))[:4000])
    nodir = "nodir" in case["env"]["VFC_PROBES_OUTPUT"]
    stats.kind("fault" if res.fired else "nodir" if nodir else "clean")
    ops = case["threads"][0]
    di = [i for i, o in enumerate(ops) if o.startswith("pdump")][0]
    v = res.vals.get((0, di))
    if v is None:  # ended in the dump or before it
        if res.kind == "exit" and res.code == 97:
            return Violation("hang", "no end")
        if res.ok:
            return Violation("silent", "the program ended with success in the dump (%s)" % (res.fired,))
        if not res.fired and not nodir:
            return Violation("died", "ended with %s without a fault: %s" % (res.status(), res.err[-200:]))
        return None
    if v[0] & 0xffffffff:
        return None if res.fired or nodir else Violation("failed", "the dump returned %d without a fault" % v[0])
    if any(k == "close" for k, _ in res.fired):
        return Violation("hidden", "the dump reported success although an operation on its file failed (%s)" % (res.fired,))
    model = dict(row(o) for o in ops[:di] if o.startswith("probe"))
    e = check_file(res.files.get("out.csv") if not nodir else res.files.get("nodir/out.csv"), model)
    if e:
        return Violation("incomplete", "the dump reported success but %s (faults %s)" % (e, res.fired))
    if not res.ok and not any(k == "malloc" for k, _ in res.fired):
        return Violation("died", "ended with %s after the dump: %s" % (res.status(), res.err[-200:]))
    return None
