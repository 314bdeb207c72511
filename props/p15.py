"""P15: delta-debug search results fail, are minimal and leave nothing out."""
import copy, hashlib, sys, os
from vsim import psim, ddeb
from vsim.core import Violation
sys.path.insert(0, psim.PYSIM)
import tool_ddebug as T

PROP = "P15"
RULE = ("reported sets have a recorded failing run, are one-minimal over recorded runs, their complement passes the requested number of runs; "
        "parallel and sequential sessions report the same; no comparison of an unfinished run")
LEVEL = "exploration"
ASSUMPTIONS = ["the run script's outcome is a fixed function of its include list and run number", "user scripts are simulated processes"]
COMPONENTS = {"real": ["src/tools/ddebug/*.py (all)", "real files and directories in a scratch directory"],
              "stub": ["run and compare scripts (simulated processes)", "clock", "directory order"]}
BUDGET = {"quick": (100000, 35), "thorough": (10**7, 600)}


def prepare(ctx):
    psim.prepare(ctx)


def open_env(ctx):
    return psim.PSim(ctx, "ddebug")


def close_env(env):
    env.close()


def gen(r, idx, ctx):
    case = {"model": ddeb.gen_model(r, 40), "listseed": r.choice([0, 1, 2, 3, 4]), "env": ddeb.gen_env(r), "seed": r.getrandbits(30)}
    nr = int(case["env"]["INTERFLOP_DD_NRUNS"])
    ses = []
    # sequential reference, then parallel in one or more completion orders, then repetitions in the same directory
    ses.append({"fresh": 1})
    for _ in range(r.choice([1, 1, 2])):
        ses.append({"fresh": 1, "par": nr + r.choice([0, 0, 1, 5])})
    if r.random() < 0.4:
        ses.append({"par": nr} if r.random() < 0.5 else {})
    if r.random() < 0.4:
        ses.append({"nr": nr + r.choice([1, 2, 5]), "par": 40 if r.random() < 0.5 else 0})
    if r.random() < 0.3:
        # the program was changed: it executes fewer sites now; and back
        n = case["model"]["n"]
        if n > 1:
            m = r.randint(1, n - 1)
            ses.append({"prog": [m, ddeb.gen_parts(r, r.sample(range(m), m))], "par": nr if r.random() < 0.5 else 0})
            if r.random() < 0.3:
                ses.append({})
    if r.random() < 0.2:
        ses.append({"algo": r.choice(["ddmax", "rddmin"])})
    case["ses"] = ses
    return case


def check(ps, case, stats, rec):
    model = case["model"]
    h = hashlib.sha256()
    base = None
    rc = None
    for i, sp in enumerate(case["ses"]):
        env = dict(case["env"])
        model = case["model"]
        if sp.get("prog"):
            model = {**model, "n": sp["prog"][0], "parts": sp["prog"][1]}
            stats.kind("changed-program")
        if "algo" in sp:
            env["INTERFLOP_DD_ALGO"] = sp["algo"]
            stats.kind("changed-algorithm")
        if sp.get("nr"):
            env["INTERFLOP_DD_NRUNS"] = str(sp["nr"])
        if sp.get("par"):
            env["INTERFLOP_DD_NUM_THREADS"] = str(sp["par"])
        nr = int(env["INTERFLOP_DD_NRUNS"])
        if sp.get("fresh") or rc is None:
            ddeb.setup(ps)
            rc = ddeb.Record()
        s = ddeb.session(ps, case, env, seed=case["seed"] + i, model=model)
        psim.note(stats, s)
        h.update(psim.digest(s).encode())
        rec["digest"] = h.hexdigest()[:16]
        stats.kind("sequential" if not sp.get("par") else "parallel")
        if not sp.get("fresh"):
            stats.kind("reused-directory")
        rc.add(s)
        v = ddeb.live(s)
        if v:
            return v
        what = "session %d (%s): " % (i, "parallel" if sp.get("par") else "sequential")
        if s.end is None:
            return Violation("no-end", what + s.status())
        # an earlier session in this directory may have recorded a failure in a run this one would not do
        fails = any(T.bad(model, range(model["n"]), k) for k in range(nr)) or rc.failed(range(model["n"]))
        if not fails:
            # nothing to debug: must be said, not answered
            stats.kind("nothing-to-debug")
            if s.rc == 0 or s.end["exc"]:
                return Violation("nothing", what + "nothing fails, but the session ended with %s" % s.status())
            continue
        if any(T.bad(model, [], k) for k in range(nr)) or rc.failed([]):
            # deviates without any site: to be said; an answer must still be right
            stats.kind("unstable-reference")
            if s.rc != 0 and not s.end["exc"]:
                continue
        if s.rc != 0:
            return Violation("crashed", what + s.status() + " " + s.end["err"][-200:])
        got = ddeb.reported(ps)
        v = ddeb.verify(case, env, got, rc, model["n"])
        if v:
            v.msg = what + v.msg
            return v
        pr = ddeb.printed(s)
        if pr and pr != got:
            return Violation("printed", what + "printed %r but stored %r" % (pr, got))
        stats.kind("sets-reported", len(got))
        stats.kind("largest-set>1", int(any(len(x) > 1 for k, x in got.items() if k.startswith("ddmin"))))
        if sp.get("fresh") or not ("nr" in sp or "prog" in sp or "algo" in sp):
            if base is None:
                base = got
            elif got != base and (sp.get("fresh") or ddeb.stable(model)):
                return Violation("differs", what + "reported %r, sequentially %r" % (got, base))
    return None


def variants(case):
    for i in range(len(case["ses"])):
        if len(case["ses"]) > 1:
            c = copy.deepcopy(case)
            del c["ses"][i]
            yield c
    for k in list(case["env"]):
        if k != "INTERFLOP_DD_NRUNS":
            c = copy.deepcopy(case)
            del c["env"][k]
            yield c
    for i in range(len(case["model"]["patterns"])):
        if len(case["model"]["patterns"]) > 1:
            c = copy.deepcopy(case)
            del c["model"]["patterns"][i]
            yield c
    n = case["model"]["n"]
    if len(case["model"]["parts"]) > 1 or case["model"]["parts"][0] != list(range(n)):
        c = copy.deepcopy(case)
        c["model"]["parts"] = [list(range(n))]
        yield c
    used = {x for p in case["model"]["patterns"] for x in p["sites"] + p.get("unless", [])}
    for x in range(n - 1, -1, -1):
        if any(isinstance(q, dict) and q.get("prog") for q in case["ses"]):
            break
        if x not in used and n > 1 and case["model"]["parts"] == [list(range(n))]:
            c = copy.deepcopy(case)
            f = lambda y: y - 1 if y > x else y
            for p in c["model"]["patterns"]:
                p["sites"] = [f(y) for y in p["sites"]]
                if "unless" in p:
                    p["unless"] = [f(y) for y in p["unless"]]
            c["model"]["n"] = n - 1
            c["model"]["parts"] = [list(range(n - 1))]
            yield c
            break
    for k in ("cmprc", "append", "sameaddr", "runrc"):
        if k in case["model"]:
            c = copy.deepcopy(case)
            del c["model"][k]
            yield c
    if case["listseed"]:
        yield {**copy.deepcopy(case), "listseed": 0}
