"""P16: an interrupted delta-debug session can be repeated to the same answer."""
import copy, errno, hashlib, sys
from vsim import psim, ddeb
from vsim.core import Violation
sys.path.insert(0, psim.PYSIM)
import tool_ddebug as T

PROP = "P16"
RULE = ("after up to 4 sessions killed at, or hit by a storage error in, any file-system operation, the same command completes, reports the sets of a "
        "session that was never interrupted, and every run it relies on finished and used the sites of its set")
LEVEL = "exploration"
ASSUMPTIONS = ["the run script's outcome is a fixed function of its include list and run number",
               "the processes of a killed session die with it", "completed operations of a killed session are kept (process kill, not power loss)"]
COMPONENTS = {"real": ["src/tools/ddebug/*.py (all)", "real files and directories in a scratch directory"],
              "stub": ["run and compare scripts (simulated processes)", "clock", "directory order", "kill and storage errors (pysim/shim.c)"]}
BUDGET = {"quick": (100000, 40), "thorough": (10**7, 600)}


def prepare(ctx):
    psim.prepare(ctx)


def open_env(ctx):
    return psim.PSim(ctx, "ddebug")


def close_env(env):
    env.close()


def gen(r, idx, ctx):
    while True:
        m = ddeb.gen_model(r, r.choice([2, 4, 6, 10, 16]))
        env = ddeb.gen_env(r)
        env["INTERFLOP_DD_NRUNS"] = r.choice(["1", "2", "3", "4", "5"])
        if "INTERFLOP_DD_DICHO_TAB" in env and env["INTERFLOP_DD_DICHO_TAB"].isdigit():
            env["INTERFLOP_DD_DICHO_TAB"] = "1"
        if all(p["sites"] for p in m["patterns"]) and any(T.bad(m, range(m["n"]), k) for k in range(int(env["INTERFLOP_DD_NRUNS"]))):
            break
    case = {"model": m, "listseed": r.choice([0, 1, 2, 3]), "env": env, "seed": r.getrandbits(30)}
    if r.random() < 0.5:
        case["env"]["INTERFLOP_DD_NUM_THREADS"] = "8"
    case["cuts"] = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
        # position as a fraction of the operations of an uninterrupted session, or counted from its start
        pos = r.random() if r.random() < 0.6 else r.randint(1, 60)
        act = r.choice([0, 0, 1, 2, 2, 2, 2, 3, 4, 6])
        arg = r.choice([0, 1, 300, 500, 999]) if act in (2, 4) else r.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT])
        case["cuts"].append([pos, act, arg])
    return case


def check(ps, case, stats, rec):
    model, env = case["model"], case["env"]
    h = hashlib.sha256()

    def go(seed, faults=()):
        s = ddeb.session(ps, case, env, faults=faults, seed=seed)
        psim.note(stats, s, faults)
        h.update(psim.digest(s).encode())
        rec["digest"] = h.hexdigest()[:16]
        return s
    ddeb.setup(ps)
    s = go(case["seed"])
    if s.rc != 0:
        return Violation("no-answer", "uninterrupted session: " + s.status())
    want = ddeb.reported(ps)
    total = s.end["fs"]
    ddeb.setup(ps)
    rc = ddeb.Record()
    hist = []
    for i, (pos, act, arg) in enumerate(case["cuts"]):
        n = max(1, int(pos * total)) if isinstance(pos, float) else pos
        s = go(case["seed"] + 1 + i, [[n, act, arg]])
        rc.add(s)
        hist.append(s.status() + (" %s at operation %d" % (psim.FAULTS[act], n) if s.end and s.end["fired"] else ""))
        v = ddeb.live(s)
        if v:
            v.msg = "; ".join(hist) + ": " + v.msg
            return v
        if s.hang is not None:
            return Violation("hang", "; ".join(hist))
        if s.crash is not None:
            stats.kind("killed-in-" + s.crash["op"])
        if s.rc == 0:
            got = ddeb.reported(ps)
            if got != want and ddeb.stable(model):
                return Violation("differs", "%s: the session ended with success and reported %r instead of %r" % ("; ".join(hist), got, want))
    s = go(case["seed"] + 77)
    rc.add(s)
    hist.append("repeated: " + s.status())
    v = ddeb.live(s)
    if v is None and s.rc != 0:
        v = Violation("not-repeatable", "the repeated session did not complete")
    if v is None:
        got = ddeb.reported(ps)
        if got != want and ddeb.stable(model):
            v = Violation("differs", "reported %r instead of %r" % (got, want))
        else:
            v = ddeb.verify(case, env, got, rc, model["n"])
    if v:
        v.msg = "; ".join(hist) + ": " + v.msg
    return v


def variants(case):
    for i in range(len(case["cuts"])):
        if len(case["cuts"]) > 1:
            c = copy.deepcopy(case)
            del c["cuts"][i]
            yield c
    from props import p15
    for c in p15.variants({**case, "ses": [1]}):
        c.pop("ses")
        yield c
