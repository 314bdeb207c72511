from vsim.vfi import *

PROP = "P12"
LEVEL = "exploration"
RULE = ("one case = a seeded program of nested, recursive and repeated instrumented calls with operations, a profile giving settings to a random "
        "subset of the call sites (names with equal hashes included), one instrumentation mode, rounding mode and error mode; every operation and "
        "argument compared with VPREC running the same operation with the expected settings for the whole program, and with an exact rounding "
        "model in the normal range; distinct by recorded history")
ASSUMPTIONS = ["beyond 4000 nested calls the program may end with a failure status and a message instead", "functions run in one thread (the call stack is shared by design)", "rounding at given settings is taken from VPREC itself outside "
               "the normal range and outside relative error mode", "operations happen only in functions flagged as using floating point"]
COMPONENTS = COMPONENTS_C
BUDGET = {"quick": (30000, 30), "thorough": (300000, 600)}
MIN_OPS = False


def gen(r, idx, ctx):
    cfg = {"mode": r.choice(["ieee", "full", "full", "ib", "ob"]), "err": r.choice(["rel", "rel", "rel", "abs", "all"]), "abse": r.randint(-40, 5),
           "daz": False, "ftz": False, "inst": r.choice(["all", "all", "operations", "arguments", "none"]), "cli": rand_ops_set(r)}
    longs = r.random() < 0.12
    fma = r.random() < 0.2
    funcs, ops = program(r, longs=longs, op=lambda r: op_fma(r, 0.1) if fma and r.random() < 0.3 else op_bin(r, None, 0.15))
    deep = 0
    if not longs and r.random() < 0.012:  # deep recursion, through several functions
        deep = r.choice([r.randint(30, 300), r.randint(300, 2000), r.randint(2000, 4000), 4070, r.randint(4080, 4110), r.randint(4100, 6000)])
        cyc = [r.choice(funcs[1:]) for _ in range(r.choice([1, 1, 2, 3]))]
        head = lambda i: "%s %d %d %d %d 0" % (cyc[i % len(cyc)]["name"], *cyc[i % len(cyc)]["flags"])
        for f in cyc:
            f["in"], f["out"] = [], []
        m = [ops[0]]
        some = lambda i: r.random() < 0.01 or i in (0, 1, deep - 1)
        for i in range(deep):
            m.append("enter " + head(i))
            if some(i) and any(cyc[i % len(cyc)]["flags"][2:]):
                m.append(op_bin(r, None, 0.1))
        for i in reversed(range(deep)):
            if some(i) and any(cyc[i % len(cyc)]["flags"][2:]):
                m.append(op_bin(r, None, 0.1))
            m.append("exitf " + head(i))
        if any(funcs[0]["flags"][2:]):
            m.append(op_bin(r, None, 0.1))
        m.append(ops[-1])
        ops = m
    allp = cfg["err"] != "rel" or r.random() < 0.3
    if allp and r.random() < 0.4:
        cfg["daz"], cfg["ftz"] = r.random() < 0.5, r.random() < 0.5
    pf = [f for f in funcs if allp or r.random() < 0.7]
    for f in pf:
        give_settings(r, f)
    if cfg["inst"] in ("none", "arguments") and r.random() < 0.3:
        for _ in range(r.randint(1, 4)):
            i = r.randint(1, len(ops) - 1)
            ops.insert(i, r.choice(["usp64 %d" % r.randint(1, 52), "usp32 %d" % r.randint(1, 23), "usr64 %d" % r.randint(4, 11), "usr32 %d" % r.randint(3, 8)]))
    order = [f["name"] for f in pf]
    r.shuffle(order)
    return {"prog": "prog_func.so", "cfg": cfg, "funcs": funcs, "order": order, "threads": [ops], "log": r.random() < 0.15 and deep < 300,
            "first": r.choice([None, None, None, "ieee", "vprec"]), "deep": deep, "seed": 0}


def scen(case):
    cfg = case["cfg"]
    byname = {f["name"]: f for f in case["funcs"]}
    lines = [l for n in case["order"] for l in profile_entry(byname[n])]
    o = ["libinterflop_vprec.so"] + base_opts(cfg) + set_opts(cfg["cli"]) + ["--instrument=" + cfg["inst"]]
    files = {}
    if lines:
        files["prof.txt"] = "\n".join(lines) + "\n"
        o.append("--prec-input-file=prof.txt")
    if case["log"]:
        o.append("--prec-log-file=log.txt")
    be = " ".join(o)
    if case["first"]:
        be = {"ieee": "libinterflop_ieee.so", "vprec": "libinterflop_vprec.so --precision-binary64=5"}[case["first"]] + ";" + be
    return {"prog": case["prog"], "threads": case["threads"], "files": files, "env": {"VFC_BACKENDS": be, "VFC_BACKENDS_SILENT_LOAD": "True"},
            "maxsteps": 40000000 if case.get("deep") else 0}


def check(env, case, stats, rec):
    ops = case["threads"][0]
    res = env.run(scen(case))
    note_run(stats, rec, res)
    stats.kind(case["cfg"]["inst"] + "/" + case["cfg"]["mode"])
    if not res.ok:
        if case.get("deep", 0) > 4000 and res.kind == "exit" and res.code not in (0, 97) and res.err.strip():
            stats.kind("too deep")
            return None
        return Violation("died", "ended with %s: %s" % (res.status(), res.err[-300:]))
    cfg = dict(case["cfg"])
    cfg["cli"] = tuple(cfg["cli"])
    w = Walk(cfg, case["funcs"], ops)
    refs, bad = references(env, w, ops, stats)
    if refs is None:
        return Violation("died-alone", bad.status() + bad.err[-200:])
    for i, kind, x, name in w.items:
        got = res.vals.get((0, i))
        if kind == "op":
            o = ops[i]
            g, e = got[0], refs[("op", x)][o]
            d = "d" if o[0] == "d" else "f"
            m = op_ref(o, cfg, x)
            if not (g == e or ieee.is_nan(d, g) and ieee.is_nan(d, e)) or m is not None and not ieee.same(d, g, m):
                return Violation("operation", "op %d %s gives %x; with settings %s it is %x%s" % (
                    i, o, g, x, e, "" if m in (None, "zero", e) else " (model %s)" % (m if isinstance(m, str) else "%x" % m)))
        else:
            exp = expect_args(w, refs, x)
            for k, (g, (dd, e, m)) in enumerate(zip(got, exp)):
                d = "d" if dd else "f"
                if not (g == e or ieee.is_nan(d, g) and ieee.is_nan(d, e)) or m is not None and not ieee.same(d, g, m):
                    return Violation("argument", "%s: value %d is %x instead of %x (from %x, settings %s)" % (
                        ops[i][:80], k, g, e, x[k][1], x[k][2]))
    return None


def variants(case):
    """drop a whole call or one operation"""
    ops = case["threads"][0]
    for i in range(len(ops)):
        if ops[i].startswith("enter"):
            dep = 0
            for j in range(i, len(ops)):
                dep += ops[j].startswith("enter") - ops[j].startswith("exitf")
                if dep == 0:
                    break
            if j < len(ops) - 1 or i > 0:
                c = copy.deepcopy(case)
                del c["threads"][0][i:j + 1]
                yield c
        elif not ops[i].startswith("exitf"):
            c = copy.deepcopy(case)
            del c["threads"][0][i]
            yield c
