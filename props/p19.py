"""P19: precision exploration terminates with a validated configuration."""
import copy, csv, io, os, sys
from vsim import psim
from vsim.core import Violation, VERIF
sys.path.insert(0, os.path.join(VERIF, "pysim"))
import tool_precexp as T

PROP = "P19"
VENV = True
RULE = ("the exploration ends, and the result tables hold the configuration of the last run whose comparison succeeded (the profiled one when there is none), "
        "locally minimal for monotone acceptance")
LEVEL = "exploration"
ASSUMPTIONS = ["the run and compare scripts obey their documented interface", "without a maximum time, runs that hang are waited for (not generated)",
               "settings of a format which a function does not use have no effect and may be reported as the smallest"]
COMPONENTS = {"real": ["src/tools/optimize/precexp.py", "pandas", "real files in a scratch directory"],
              "stub": ["run and compare scripts, i.e. the instrumented program (simulated processes)", "clock", "pipes"]}
BUDGET = {"quick": (100000, 35), "thorough": (10**7, 600)}
LIM = {"Prec64": (1, 52), "Range64": (2, 11), "Prec32": (1, 23), "Range32": (2, 8)}


def prepare(ctx):
    psim.prepare(ctx)


def open_env(ctx):
    return psim.PSim(ctx, "precexp", venv=True)


def close_env(env):
    env.close()


def full(functions):
    c = {}
    for f in functions:
        for k, (_, hi) in LIM.items():
            c["%s|%s" % (f["id"], k)] = hi
        for pre, args in (("input:", f["in"]), ("output:", f["out"])):
            for name, typ in args:
                d = typ in (1, 4)
                c["%s|%s|%s|Prec" % (f["id"], pre, name)] = 52 if d else 23
                c["%s|%s|%s|Range" % (f["id"], pre, name)] = 11 if d else 8
    return c


def unused(functions):
    u = set()
    for f in functions:
        for fl, ks in (("double", ("Prec64", "Range64")), ("float", ("Prec32", "Range32"))):
            if not f[fl]:
                u |= {"%s|%s" % (f["id"], k) for k in ks}
    return u


def selected(case):
    fs = case["model"]["functions"]
    sel = case["select"]
    if not sel:
        return fs
    return [f for f in fs if f["id"].split("/")[-3] in sel or f["id"].split("/")[-4] in sel]


def explored(case):
    """key -> (smallest, largest) value"""
    e = {}
    for f in selected(case):
        if case["mode"] in ("arguments", "all"):
            for pre, args in (("input:", f["in"]), ("output:", f["out"])):
                for name, typ in args:
                    e["%s|%s|%s|Prec" % (f["id"], pre, name)] = (1, 52 if typ in (1, 4) else 23)
                    e["%s|%s|%s|Range" % (f["id"], pre, name)] = (2, 11 if typ in (1, 4) else 8)
        if case["mode"] in ("operations", "all") and not f["lib"] and not f["int"]:
            for fl, ks in (("double", ("Prec64", "Range64")), ("float", ("Prec32", "Range32"))):
                if f[fl]:
                    for k in ks:
                        e["%s|%s" % (f["id"], k)] = LIM[k]
    return e


def gen(r, idx, ctx):
    nf = r.choice([1, 1, 2, 2, 3, 4, 6])
    names = ["main", "solve", "norm", "dot", "update", "init", "f", "g"]
    fs = []
    same = r.random() < 0.4
    for i in range(nf):
        lib = int(r.random() < 0.2)
        na, no = r.choice([0, 0, 1, 1, 2, 3]), r.choice([0, 0, 1, 1, 2])
        args = [[["%s%d" % (r.choice("xyab"), j), r.choice([0, 1, 1, 3, 4])] for j in range(n)] for n in (na, no)]
        if no and r.random() < 0.5:
            args[1][0][0] = "return_value"
        fs.append({"id": "%s/%s/%s/%d/%d" % (r.choice(["prog.c", "dir/prog.c"]), r.choice(names), r.choice(names), r.randrange(1, 99), i + 1),
                   "lib": lib, "int": int(not lib and r.random() < 0.1), "float": int(r.random() < 0.5), "double": int(r.random() < 0.7),
                   "in": args[0], "out": args[1], "calls": 5 if same else r.choice([1, 2, 10, 1000])})
    case = {"mode": r.choice(["all", "arguments", "operations"]), "vprec": r.choice([None, "ieee", "ib", "ob", "full"]), "select": []}
    model = {"functions": fs, "faults": {}, "cmpfaults": {}, "cmprc": r.choice([1, 1, 2, 255])}
    case["model"] = model
    if r.random() < 0.3:
        f = r.choice(fs)
        case["select"] = [f["id"].split("/")[-3]] + ([r.choice(names)] if r.random() < 0.5 else [])
    e = explored(case)
    k = r.choice(["thr"] * 4 + ["sum"] * 2 + ["holes"] * 2 + ["hash", "hash", "flaky", "never", "all"])
    if k in ("thr", "holes"):
        a = {"kind": "thr", "thr": {}}
        for n, (lo, hi) in e.items():
            a["thr"][n] = r.choice([lo, hi, r.randint(lo, hi), r.randint(lo, hi)])
        if k == "holes":
            a["holes"] = {n: sorted({r.randint(lo, hi) for _ in range(r.choice([1, 3, 10]))} | ({hi} if r.random() < 0.3 else set())) for n, (lo, hi) in e.items() if r.random() < 0.5}
    elif k == "sum":
        w = {n: r.choice([0, 1, 1, 3]) for n in e}
        tot = sum(w[n] * hi for n, (lo, hi) in e.items())
        low = sum(w[n] * lo for n, (lo, hi) in e.items())
        # selection may leave functions out of the configuration
        a = {"kind": "sum", "w": w, "min": r.randint(low, tot) if e else 0}
    else:
        a = {"kind": k, "salt": r.getrandbits(20), "rate": r.choice([5, 30, 50, 80])}
    model["accept"] = a
    case["timeout"] = r.choice([None, 2000, 2000, 5000])
    model["onbad"] = r.choice(["differ", "differ", "crash", "fail"] + (["hang", "late"] if case["timeout"] else []))
    nruns = max(2, 8 * len(e))
    if r.random() < 0.6:
        for _ in range(r.choice([1, 1, 2, 5])):
            kinds = ["crash", "fail", "big", "bigboth"] + (["hang", "hang", "slow", "slow"] if case["timeout"] else [])
            n = r.choice([0, 1, 1 + r.randrange(nruns), 1 + r.randrange(nruns), 1 + r.randrange(10)])
            b = {"kind": r.choice(kinds)}
            if b["kind"] == "slow":
                b["dt"] = case["timeout"] / 1000 * r.choice([1.5, 3])
            if b["kind"] in ("hang", "slow"):
                b["term"] = r.choice([None, None, 0.7, 3.0, "ignore"])
            model["faults"][str(n)] = b
    if r.random() < 0.3:
        b = {"kind": r.choice(["crash", "big"] + (["hang"] if case["timeout"] else []))}
        if b["kind"] == "hang":
            b["term"] = r.choice([None, "ignore"])
        model["cmpfaults"][str(r.randrange(nruns))] = b
    case["spawn"] = [[r.choice([1, 2, 3, 1 + r.randrange(2 * nruns)]), r.choice([11, 12, 2])]] if r.random() < 0.08 else []
    case["fs"] = [[1 + r.randrange(6 * nruns), r.choice([3, 4, 6]), r.choice([5, 28])]] if r.random() < 0.12 else []
    case["stale"] = int(r.random() < 0.4)
    case["seed"] = r.getrandbits(30)
    return case


def table(text):
    return list(csv.DictReader(io.StringIO(text)))


def check(ps, case, stats, rec):
    model = case["model"]
    e = explored(case)
    init = full(selected(case))
    ps.clean()
    ps.put("exrun", "#!/bin/sh\n", 0o755)
    ps.put("excmp", "#!/bin/sh\n", 0o755)
    if case["stale"]:
        # left by an earlier exploration of another program
        old = {"functions": [{"id": "old.c/main/old/1/1", "lib": 0, "int": 0, "float": 1, "double": 1, "in": [["x", 1]], "out": [], "calls": 3}]}
        ps.put("vfc_profile.txt", T.profile(old))
        ps.put("vfc_config.txt", T.profile(old))
        ps.put("vfc_ref/out.dat", "result 1 end\n")
        ps.put("vfc_std/out.dat", "result 0 end\n")
        for n in ("OperationsResults", "ArgumentsResults", "AllArgsResults", "AllOpsResults"):
            ps.put("vfc_exp_data/%s.csv" % n, ",ID\n")
    argv = ["vfc_precexp", "exrun", "excmp"]
    if case["timeout"]:
        argv += ["--maxTimeout", str(case["timeout"])]
    argv += ["-m", case["mode"]]
    if case["vprec"]:
        argv += ["--vprec_mode", case["vprec"]]
    argv += case["select"]
    bound = 2 * (sum(hi - lo + 12 for lo, hi in e.values()) + 20)
    s = ps.session(argv=argv, model=model, seed=case["seed"], spawn_faults=case["spawn"], faults=case["fs"], max_procs=bound, max_events=400000, alarm=100)
    psim.note(stats, s, case["fs"])
    stats.kind("accept-" + model["accept"]["kind"] + ("-holes" if model["accept"].get("holes") else ""))
    stats.kind("mode-" + case["mode"])
    runs = s.evs("run")
    for x in runs:
        if x["beh"]:
            stats.faults["run-" + x["beh"]] = stats.faults.get("run-" + x["beh"], 0) + 1
    for x in s.evs("spawnfail"):
        stats.faults["cannot-start"] = stats.faults.get("cannot-start", 0) + 1
    rec["digest"] = psim.digest(s)
    if s.hang is not None:
        return Violation("no-end", s.status())
    if s.end is None:
        raise RuntimeError("session " + s.status())
    # one process at a time: nothing started earlier still works on the same directory
    for x in runs + s.evs("cmp"):
        if x["others"]:
            return Violation("overlap", "%s %d starts while %r still run" % (x["ev"], x["n"], x["others"]))
    if s.end["alive"]:
        return Violation("left-running", "processes %r still run at the end" % s.end["alive"])
    # limits on time are obeyed
    if case["timeout"]:
        st = {x["n"]: x["t"] for x in s.evs("spawn")}
        en = {x["n"]: x["t"] for x in s.evs("exit")}
        for n, t in en.items():
            if t - st[n] > case["timeout"] / 1000 + 12:
                return Violation("time-limit", "process %d was given %.1f s with a limit of %d ms" % (n, t - st[n], case["timeout"]))
    prof = [x for x in runs if "--prec-output-file" in x["be"]]
    exits = {x["n"]: x["rc"] for x in s.evs("exit")}
    if not runs and not s.evs("spawnfail") and not s.end["fired"]:
        return Violation("no-run", s.status() + s.end["err"][-300:])
    if prof and exits.get(prof[0]["n"]) != 0:
        stats.kind("profile-failed")
        if s.rc == 0:
            return Violation("profile-failed", "the profile run ended with status %r, the exploration with 0" % exits.get(prof[0]["n"]))
        return None
    if s.rc != 0:
        if s.evs("spawnfail") or s.end["fired"]:
            return None
        return Violation("stopped", s.status() + " " + s.end["err"][-300:])
    # the last accepted run
    cur, last, lastn = None, dict(init), None
    byn = {x["n"]: x for x in runs}
    order = sorted([(x["n"], x) for x in runs + s.evs("cmp")], key=lambda q: q[0])
    naccepted = 0
    for n, x in order:
        if x["ev"] == "run":
            cur = x
            if "--prec-output-file" not in x["be"] and x["bad"]:
                return Violation("config-file", "run %d was given a configuration that cannot be read" % x["k"])
        elif exits.get(n) == 0 and exits.get(cur["n"] if cur else None) == 0 and "--prec-output-file" not in cur["be"]:
            if cur["cfg"] is None:
                return Violation("no-config", "run %d was accepted without a configuration: %s" % (cur["k"], cur["be"]))
            if ("--instrument=" + case["mode"]) not in cur["be"].split() or ("--mode=" + (case["vprec"] or "ob")) not in cur["be"].split():
                return Violation("backend", "run with %r in mode %s" % (cur["be"], case["mode"]))
            last, lastn = cur["cfg"], cur["k"]
            naccepted += 1
    stats.kind("accepted-some" if naccepted else "accepted-none")
    # the reported configuration
    tree = ps.tree()
    rep = {}
    want = {"arguments": (None, "ArgumentsResults"), "operations": ("OperationsResults", None), "all": ("AllOpsResults", "AllArgsResults")}[case["mode"]]
    try:
        if want[0]:
            for row in table(tree["vfc_exp_data/%s.csv" % want[0]][1].decode()):
                for k in LIM:
                    rep["%s|%s" % (row["ID"], k)] = int(row[k])
        if want[1]:
            for row in table(tree["vfc_exp_data/%s.csv" % want[1]][1].decode()):
                for k in ("Prec", "Range"):
                    rep["%s|%s|%s|%s" % (row["ID"], row["IO"], row["ArgID"], k)] = int(row[k])
    except (KeyError, ValueError, TypeError) as x:
        return Violation("table", "the result tables cannot be read: %r" % x)
    keys = {k for k in init if (k.count("|") == 1 and want[0]) or (k.count("|") == 3 and want[1])}
    if set(rep) != keys:
        return Violation("table-rows", "missing %r, unexpected %r" % (sorted(keys - set(rep))[:5], sorted(set(rep) - keys)[:5]))
    un = unused(selected(case))
    for k in sorted(keys - un):
        if rep[k] != last.get(k):
            return Violation("not-validated", "%s reported as %d, the last accepted run (%s) used %s" % (k, rep[k], lastn, last.get(k)))
    for k in sorted(set(init) - un):
        if k not in e and last.get(k, init[k]) != init[k]:
            return Violation("unasked", "%s changed to %r although it is not explored" % (k, last.get(k)))
    # minimal when less precision is never better
    a = model["accept"]
    undisturbed = not any(x["beh"] not in (None, "big", "bigboth") for x in runs) and not any(exits.get(x["n"], 0) < 0 for x in s.evs("cmp"))
    if a["kind"] in ("thr", "sum", "all", "never") and not a.get("holes") and undisturbed and not s.evs("spawnfail") and not s.end["fired"]:
        stats.kind("minimality-checked")
        if T.accept(model, init, 0) or naccepted:
            for k, (lo, hi) in e.items():
                if rep.get(k, lo) > lo:
                    c = dict(last)
                    c[k] -= 1
                    if T.accept(model, c, 0):
                        return Violation("not-minimal", "%s reported as %d, %d is accepted as well" % (k, rep[k], rep[k] - 1))
    return None


def variants(case):
    m = case["model"]
    for i in range(len(m["functions"])):
        if len(m["functions"]) > 1:
            c = copy.deepcopy(case)
            del c["model"]["functions"][i]
            if selected(c):
                yield c
        for k in ("in", "out"):
            if m["functions"][i][k]:
                c = copy.deepcopy(case)
                c["model"]["functions"][i][k].pop()
                yield c
        for k in ("float", "double"):
            if m["functions"][i][k]:
                c = copy.deepcopy(case)
                c["model"]["functions"][i][k] = 0
                yield c
    for f in ("faults", "cmpfaults"):
        for k in list(m[f]):
            c = copy.deepcopy(case)
            del c["model"][f][k]
            yield c
            if m[f][k].get("term"):
                c = copy.deepcopy(case)
                c["model"][f][k]["term"] = None
                yield c
    for k in ("spawn", "fs", "select"):
        if case[k]:
            yield {**copy.deepcopy(case), k: []}
    if case["stale"]:
        yield {**copy.deepcopy(case), "stale": 0}
    if m["accept"]["kind"] not in ("never", "all"):
        for k in ("all", "never"):
            c = copy.deepcopy(case)
            c["model"]["accept"] = {"kind": k}
            yield c
