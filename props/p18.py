"""P18: a CI results file is complete whenever it exists."""
import copy, errno, hashlib
from vsim import psim, ci
from vsim.core import Violation

PROP = "P18"
VENV = True
RULE = ("after a run killed at, or hit by a storage error in, any file-system operation (including each write of the storage library), every results file "
        "present is complete and equals this run's or an earlier run's results; success is announced only with a complete file; a dry run writes nothing")
LEVEL = "exploration"
ASSUMPTIONS = ["completed operations of a killed run are kept (process kill, not power loss)"]
COMPONENTS = {"real": ["src/tools/ci/__main__.py, test.py, test_data_processing.py", "pandas, PyTables, HDF5 with real files"],
              "stub": ["test executables and build command (simulated processes)", "clock", "kill and storage errors (pysim/shim.c)"]}
BUDGET = {"quick": (100000, 40), "thorough": (10**7, 600)}


def prepare(ctx):
    psim.prepare(ctx)


def open_env(ctx):
    return psim.PSim(ctx, "ci", venv=True)


def close_env(env):
    env.close()


def gen(r, idx, ctx):
    # runs in one directory; all of them start at the same simulated time and so use the same file name
    runs = []
    n = r.choice([1, 1, 2, 2, 3])
    for i in range(n):
        c = ci.gen(r, faulty=False, small=True)
        c["seed"] = r.getrandbits(30)
        x = r.random()
        if i < n - 1 and x < 0.5:
            c["cut"] = None
        elif x < 0.93:
            act = r.choice([0, 1, 2, 2, 3, 3, 4, 4, 6])
            arg = r.choice([0, 1, 300, 700, 999]) if act in (2, 4) else r.choice([errno.ENOSPC, errno.EIO, errno.EDQUOT])
            c["cut"] = [r.random(), act, arg]
        elif x < 0.96:
            c["cut"] = None
        else:
            c["cut"] = None
            c["dry"] = True
        if i and r.random() < 0.7:  # the same commit, or the same second
            c["model"]["git"] = runs[0]["model"].get("git")
        runs.append(c)
    return {"runs": runs}


def counts(ps, c):
    """operations of an undisturbed run"""
    ci.setup(ps, c)
    return ci.session(ps, c)


def check(ps, case, stats, rec):
    h = hashlib.sha256()
    plans = []
    for c in case["runs"]:
        if c.get("cut"):
            b = counts(ps, c)
            if b.rc != 0:
                return Violation("undisturbed", "an undisturbed run ended with %s" % b.status())
            stats.runs += 1
            hi = b.end["fs"]
            lo = max(1, hi - (14 if c["raw"] else 8))  # about where the export starts
            n = lo - 2 + int(c["cut"][0] * (hi - lo + 3)) if c["cut"][0] < 0.9 else int((c["cut"][0] - 0.9) * 10 * lo)
            plans.append([[max(1, n), c["cut"][1], c["cut"][2]]])
        else:
            plans.append([])
    ci.setup(ps, case["runs"][0])
    past = []  # what complete files may contain
    cur = {}   # file name -> content before this run
    hist = []
    for c, f in zip(case["runs"], plans):
        ps.put("vfc_tests_config.json", __import__("json").dumps(c["config"]))
        s = ci.session(ps, c, faults=f, dry=bool(c.get("dry")))
        psim.note(stats, s, f)
        i = ps.session(argv=["inspect"], inspect=1)
        if i.rc != 0:
            raise RuntimeError("inspection failed: " + i.status())
        h.update((psim.digest(s) + psim.digest(i)).encode())
        rec["digest"] = h.hexdigest()[:16]
        hit = s.crash or (s.end and s.end["fired"])
        hist.append(s.status() + (" after %s at operation %d" % (psim.FAULTS[f[0][1]], f[0][0]) if f and hit else ""))
        where = "; ".join(hist) + ": "
        files = i.evs("files")[0]["files"]
        data, det, warn, execs = ci.expected(c)
        if s.hang:
            return Violation("hang", where)
        if c.get("dry"):
            stats.kind("dry")
            if files != cur:
                return Violation("dry-run-writes", where + "a dry run changed the results files")
            if s.end and "successfully written" in s.end["out"]:
                return Violation("announced", where + "a dry run announced that results were written")
            continue
        want = ["vfcrun.h5"] + (["vfcraw.h5"] if c["raw"] else [])
        mine = {}
        for name, d in files.items():
            v = ci.verify_file(d, data, det, name.endswith(".vfcraw.h5"), name, c["model"].get("git"))
            if v is None:
                mine[name] = d
                continue
            if cur.get(name) == d:
                continue  # an earlier file, untouched
            v.tag = "partial-" + v.tag if name not in cur else "damaged-" + v.tag
            v.msg = where + name + ": " + v.msg
            return v
        for name in cur:
            if name not in files:
                return Violation("removed", where + "the earlier file %s is gone" % name)
        have = {n.split(".", 1)[1] for n in mine}
        ok = all(w in have for w in want)
        if s.end is not None:
            said = "successfully written" in s.end["out"]
            stats.kind("announced" if said else "not-announced")
            if s.rc == 0 and not ok:
                return Violation("success-without-file", where + "ended with success, files of this run: %r" % sorted(mine))
            if said and "vfcrun.h5" not in have:
                return Violation("announced", where + "announced as written, files of this run: %r" % sorted(mine))
            if not f and s.rc != 0:
                return Violation("undisturbed", where)
        cur = files
    return None


def variants(case):
    for i in range(len(case["runs"])):
        if len(case["runs"]) > 1:
            c = copy.deepcopy(case)
            del c["runs"][i]
            yield c
    from props import p17
    for i, x in enumerate(case["runs"]):
        for y in p17.variants(x):
            c = copy.deepcopy(case)
            c["runs"][i] = y
            yield c
