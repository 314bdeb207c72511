"""P17: CI results contain exactly what completed runs recorded."""
import copy, hashlib
from vsim import psim, ci
from vsim.core import Violation

PROP = "P17"
VENV = True
RULE = ("executions, warnings, and every row of the results file (values, statistics, checks) equal those computed from what the simulated executions "
        "exported before they ended, crashed, hung, or failed to start")
LEVEL = "exploration"
ASSUMPTIONS = ["a probe file written by an execution that ends by itself with a failure status is not cut exactly between two lines",
               "test and variable names are unique over the executables of one configuration, and valid UTF-8"]
COMPONENTS = {"real": ["src/tools/ci/__main__.py, test.py, test_data_processing.py", "pandas, numpy, scipy, significantdigits, PyTables", "real files in a scratch directory"],
              "stub": ["test executables and build command (simulated processes)", "clock", "temporary file names"]}
BUDGET = {"quick": (100000, 40), "thorough": (10**7, 600)}


def prepare(ctx):
    psim.prepare(ctx)


def open_env(ctx):
    return psim.PSim(ctx, "ci", venv=True)


def close_env(env):
    env.close()


def gen(r, idx, ctx):
    c = ci.gen(r)
    c["seed"] = r.getrandbits(30)
    return c


def check(ps, case, stats, rec):
    ci.setup(ps, case)
    s = ci.session(ps, case)
    psim.note(stats, s)
    data, det, warn, execs = ci.expected(case)
    for x in ci.walk(case):
        stats.kind("exec-" + x[3]["kind"])
        if x[3]["kind"] not in ("ok",):
            stats.faults[x[3]["kind"]] = stats.faults.get(x[3]["kind"], 0) + 1
    rec["digest"] = psim.digest(s)
    if s.end is None:
        return Violation("no-end", s.status())
    v = ci.verify_execs(case, s, execs)
    if v:
        return v
    i = ps.session(argv=["inspect"], inspect=1)
    if i.rc != 0:
        raise RuntimeError("inspection failed: " + i.status())
    files = i.evs("files")[0]
    rec["digest"] = hashlib.sha256((psim.digest(s) + psim.digest(i)).encode()).hexdigest()[:16]
    if not data and not det:
        stats.kind("no-data-at-all")
        # nothing was recorded: either no file, or one without any result
        if s.rc != 0 and not files["files"]:
            return None
        if s.rc != 0:
            return Violation("file-of-failed-run", "%s but %r exist" % (s.status(), sorted(files["files"])))
    elif s.rc != 0:
        z = ci.zero_mean(data)
        if z and "ZeroDivisionError" in s.end["exc"]:
            return Violation("zero-mean-relative", "%r: %s" % (z, s.status()))
        return Violation("stopped", "the whole run ended with %s %s" % (s.status(), s.end["err"][-300:]))
    v = ci.verify_warnings(s, warn)
    if v:
        return v
    want = 2 if case["raw"] else 1
    if len(files["files"]) != want:
        return Violation("files", "files %r" % files["names"])
    for n, d in files["files"].items():
        v = ci.verify_file(d, data, det, n.endswith(".vfcraw.h5"), n, case["model"].get("git"))
        if v:
            v.msg = n + ": " + v.msg
            return v
    if files["tmp"] != [".keep"]:
        return Violation("left-over", "temporary files %r" % files["tmp"])
    return None


def variants(case):
    ex = case["config"]["executables"]
    for i in range(len(ex)):
        if len(ex) > 1:
            c = copy.deepcopy(case)
            del c["config"]["executables"][i]
            yield c
        for j in range(len(ex[i]["vfc_backends"])):
            if len(ex[i]["vfc_backends"]) > 1:
                c = copy.deepcopy(case)
                del c["config"]["executables"][i]["vfc_backends"][j]
                yield c
            n = ex[i]["vfc_backends"][j].get("repetitions", 0)
            for m in (1, n // 2, n - 1):
                if 0 < m < n:
                    c = copy.deepcopy(case)
                    c["config"]["executables"][i]["vfc_backends"][j]["repetitions"] = m
                    yield c
    for k, pl in case["model"]["plans"].items():
        names = sorted({(r[0], r[1]) for st in pl for r in st["rows"]})
        if len(names) > 1:
            for nm in names:
                c = copy.deepcopy(case)
                for st in c["model"]["plans"][k]:
                    st["rows"] = [r for r in st["rows"] if (r[0], r[1]) != nm]
                yield c
        for q, st in enumerate(pl):
            if st["kind"] != "ok":
                c = copy.deepcopy(case)
                c["model"]["plans"][k][q]["kind"] = "ok"
                yield c
            if st.get("rc"):
                c = copy.deepcopy(case)
                del c["model"]["plans"][k][q]["rc"]
                yield c
    if case["model"].get("git"):
        c = copy.deepcopy(case)
        del c["model"]["git"]
        yield c
    if case["raw"]:
        yield {**copy.deepcopy(case), "raw": False}
