"""Generators and oracle for vfc_ci test sessions (P17, P18)."""
import json, math, re
from .core import Violation

NAMES = ["t1", "test", "a b", "NA", "nan", "null", "001", "1e5", "True", "x#y", 'q"uote', " lead", "trail ", "", "é", "None", "inf", "-", "a;b", "0x1p3", "'"]
BACKENDS = ["libinterflop_mca.so --precision-binary64=24", "libinterflop_mca.so --mode=rr", "libinterflop_bitmask.so", "libinterflop_cancellation.so", "libinterflop_mca_int.so"]
DET = ["libinterflop_vprec.so --precision-binary64=10", "libinterflop_vprec.so", "libinterflop_ieee.so --count-op"]
REF = "libinterflop_ieee.so"
BAD = ["none", "early-crash", "early-hang", "mid-crash", "mid-crash", "mid-hang", "late-hang", "late-crash", "torn", "torn", "torn", "headeronly", "nostart"]


def fhex(x):
    return x.hex() if math.isfinite(x) else ("nan" if x != x else ("inf" if x > 0 else "-inf"))


def value(r, centre, kind):
    x = r.random()
    if kind == "const":
        return centre
    if kind == "sign":
        return r.choice([centre, -centre])
    if x < 0.03:
        return r.choice([float("nan"), -float("nan"), float("inf"), -float("inf"), 0.0, -0.0, 5e-324, 1e308, -1e308])
    return centre * (1 + r.gauss(0, 1) * 10.0 ** r.choice([-12, -6, -2]))


def gen(r, faulty=True, small=False):
    exes, plans, pers = [], {}, {}
    uniq = 0
    missing = []
    nexe = r.choice([1, 1, 2, 3]) if not small else 1
    for e in range(nexe):
        exe = r.choice(["bin/", ""]) + "test%d" % e
        var = []
        for _ in range(r.choice([1, 2, 3, 5, 9]) if not small else r.choice([1, 3])):
            t, v = r.choice(NAMES), r.choice(NAMES)
            if e:
                t = t + str(e)
            if (t, v) in [(a, b) for a, b, *_ in var] or (not t and not v):
                v = v + "_%d" % uniq
                uniq += 1
            mode = r.choice(["none", "none", "absolute", "relative"])
            thr = 0.0 if mode == "none" else r.choice([0.1, 1e-3, -0.1, 1e-9, 5.0, 0.0])
            centre = r.choice([0.0, 1.0, -3.5, 1e-30, 1e200, r.uniform(-10, 10)])
            var.append((t, v, centre, thr, mode, r.choice(["const", "n", "n", "n", "sign"])))
        bes = []
        pool = r.sample(BACKENDS, r.choice([1, 1, 2, 3])) if not small else [BACKENDS[0]]
        dets = r.sample(DET, r.choice([0, 0, 1, 2])) if not small else r.choice([[], [DET[0]]])
        if not pool and not dets:
            pool = [BACKENDS[0]]
        allb = pool + dets
        r.shuffle(allb)

        def one(plan_faulty):
            rows = [[t, v, fhex(value(r, c, k)), fhex(thr), mode] for t, v, c, thr, mode, k in var if r.random() > 0.03]
            r.shuffle(rows) if r.random() < 0.3 else None
            st = {"kind": "ok", "rows": rows, "pre": r.choice([0.1, 1, 30, 590]), "mid": r.choice([0, 0.1, 5])}
            if r.random() < 0.1:
                st["rc"] = r.choice([1, 2, 255])
            if plan_faulty and r.random() < pf:
                st["kind"] = r.choice(BAD)
                st["sig"] = r.choice([6, 8, 9, 11, 15])
                st["cut"] = r.randrange(4000)
                if st["kind"] == "headeronly":
                    st["rows"] = []
            return st
        pf = r.choice([0, 0.1, 0.3, 0.6, 1.0]) if faulty else 0
        for b in allb:
            if b in DET:
                bes.append({"name": b})
                plans["%s|%s" % (exe, b)] = [one(True)]
                plans.setdefault("%s|%s" % (exe, REF), []).append(one(True))
            else:
                n = r.choice([1, 2, 3, 4, 6, 10])
                bes.append({"name": b, "repetitions": n})
                plans["%s|%s" % (exe, b)] = [one(True) for _ in range(n)]
        x = {"executable": exe, "vfc_backends": bes}
        if r.random() < 0.4:
            x["parameters"] = r.choice(["", "foo", "-a 3  x"])
        exes.append(x)
        if faulty and r.random() < 0.05:
            missing.append("test%d" % e)
    cfg = {"make_command": "make tests", "executables": exes}
    case = {"config": cfg, "model": {"plans": plans, "missing": missing, "make_rc": r.choice([0, 0, 0, 2])}, "raw": r.random() < 0.6}
    if r.random() < 0.35:
        case["model"]["git"] = {"hash": "%040x" % r.getrandbits(160), "url": r.choice(["git@host:a/b.git", "https://x/y"]), "branch": r.choice(["master", "vfc/é"]),
                                "author": "A. Üser", "email": "a@b.c", "date": r.randrange(10**9, 2 * 10**9), "message": r.choice(["one", "first line\n\nrest, more", ""])}
    # a known finding: keep it rare, it hides the rest of the run
    if not faulty or r.random() < 0.97:
        for t, v, be in zero_mean(expected(case)[0]):
            for key, pl in plans.items():
                if key.endswith("|" + be):
                    for st in pl:
                        for row in st["rows"]:
                            if (row[0], row[1]) == (t, v):
                                row[4] = "absolute"
    return case


def zero_mean(data):
    """probes of non-deterministic backends with a relative check whose values average to zero"""
    import numpy as np
    out = []
    with np.errstate(all="ignore"):
        for k, l in data.items():
            if l[0][2] == "relative" and float(np.average([unhex(x) for x, _, _ in l])) == 0:
                out.append(k)
    return out


def setup(ps, case):
    ps.clean()
    ps.put("tmp/.keep", "")
    ps.put("vfc_tests_config.json", json.dumps(case["config"]))


def session(ps, case, faults=(), dry=False, seed=None):
    argv = ["vfc_ci", "test"] + (["-r"] if case.get("raw") else []) + (["-d"] if dry else []) + (["-g"] if case["model"].get("git") else [])
    # executions that cannot be started: numbers of the processes
    sf = spawn_faults(case)
    return ps.session(argv=argv, env={}, model=case["model"], faults=list(faults), seed=case.get("seed", 0) if seed is None else seed,
                      spawn_faults=sf, alarm=120)


def walk(case):
    """the executions in order: (executable, backend, repetition, state, deterministic, reference)"""
    m = case["model"]
    refk = {}
    for x in case["config"]["executables"]:
        exe = x["executable"]
        miss = exe.split("/")[-1] in m["missing"]
        for b in x["vfc_backends"]:
            pl = m["plans"]["%s|%s" % (exe, b["name"])]
            if "repetitions" in b:
                for k in range(b["repetitions"]):
                    yield exe, b["name"], k + 1, pl[k] if not miss else {"kind": "nostart", "rows": []}, False, False
            else:
                st = pl[0] if not miss else {"kind": "nostart", "rows": []}
                yield exe, b["name"], 1, st, True, False
                if good(st) and any(row[4] != "none" for row in st["rows"]):
                    i = refk.get(exe, 0)
                    refk[exe] = i + 1
                    yield exe, b["name"], 1, m["plans"]["%s|%s" % (exe, REF)][i], True, True


def good(st):
    """did this execution end by itself after exporting its probes?"""
    return st["kind"] == "ok" and bool(st["rows"])


def spawn_faults(case):
    out = []
    n = 1  # the build
    for exe, be, rep, st, det, ref in walk(case):
        n += 1
        if st["kind"] == "nostart" and exe.split("/")[-1] not in case["model"]["missing"]:
            out.append([n, 11 if st.get("sig", 9) != 9 else 12])
        elif exe.split("/")[-1] in case["model"]["missing"]:
            n += 0
    return out


def expected(case):
    data, det, warn, execs = {}, {}, [], {}
    lastdet = None
    for exe, be, rep, st, d, ref in walk(case):
        name = REF if ref else be
        if st["kind"] != "nostart":
            execs[(exe, name)] = execs.get((exe, name), 0) + 1
        ok = good(st)
        if not ok:
            warn.append((exe, REF + " (reference run)" if ref else be, rep))
        if d and not ref:
            lastdet = []
            if ok:
                for t, v, x, thr, mode in st["rows"]:
                    e = {"value": x, "thr": thr, "mode": mode, "ref": None, "checks": any(q[4] != "none" for q in st["rows"])}
                    det.setdefault((t, v, be), []).append(e)
                    lastdet.append(((t, v), e))
        elif ref:
            if ok:
                rv = {(t, v): x for t, v, x, _, _ in st["rows"]}
                for k, e in lastdet:
                    e["ref"] = rv.get(k)
        elif ok:
            for t, v, x, thr, mode in st["rows"]:
                data.setdefault((t, v, be), []).append((x, thr, mode))
    return data, det, warn, execs


def unhex(s):
    return float.fromhex(s)


def same(a, b, tol=0.0):
    if a != a or b != b:
        return a != a and b != b
    if a == b or math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(abs(a), abs(b))


WARN = re.compile(r"^- Warning \d+:\n  Executable: (.*)\n  Backend: (.*)\n  Repetition: (\d+)$", re.M)


def verify_execs(case, s, execs):
    got = {}
    for e in s.evs("exec"):
        k = (e["exe"][2:], e["be"])
        got[k] = got.get(k, 0) + 1
        par = next((x.get("parameters", "") for x in case["config"]["executables"] if x["executable"] == k[0]), None)
        if par is not None and e["args"] != par.split():
            return Violation("arguments", "%s was run with %r" % (k[0], e["args"]))
    if got != execs:
        return Violation("executions", "executions %r, configured %r" % (sorted(got.items()), sorted(execs.items())))
    return None


def verify_warnings(s, warn):
    got = sorted((a, b, int(c)) for a, b, c in WARN.findall(s.end["err"]))
    if got != sorted(warn):
        return Violation("warnings", "listed as without data: %r, should be %r" % (got, sorted(warn)))
    return None


def bits(x):
    return "nan" if x != x else x.hex()


def verify_meta(name, d, git):
    """the metadata of the run, on every row of the file and in its name"""
    m = d["metadata"][0]
    ts = m["ix"][0]
    want = {"is_git_commit": bool(git), "remote_url": "", "branch": "", "hash": "", "author": "", "message": ""}
    if git:
        want.update(remote_url=git["url"], branch=git["branch"], hash=git["hash"][:7], author="%s <%s>" % (git["author"], git["email"]),
                    message=git["message"].split("\n")[0])
        if unhex(ts[1:]) != git["date"]:
            return Violation("metadata", "timestamp %r of a commit of %r" % (ts, git["date"]))
    for k, v in want.items():
        if m.get(k) != v:
            return Violation("metadata", "%s is %r, should be %r" % (k, m.get(k), v))
    stem = git["hash"][:7] if git else str(int(unhex(ts[1:])))
    if name.split(".")[0] != stem:
        return Violation("metadata", "the file of run %s is called %s" % (stem, name))
    for t in ("data", "deterministic_data"):
        for row in d[t]:
            if row.get("timestamp") != ts:
                return Violation("metadata", "%s row with timestamp %r in a run of %r" % (t, row.get("timestamp"), ts))
    return None


def verify_file(d, data, det, raw, name=None, git=None):
    """one results file against what was recorded"""
    import numpy as np
    if "unreadable" in d:
        return Violation("unreadable", d["unreadable"])
    for k in ("metadata", "data", "deterministic_data"):
        if k not in d:
            return Violation("incomplete", "the results file has no %s" % k)
    if len(d["metadata"]) != 1:
        return Violation("incomplete", "%d metadata rows" % len(d["metadata"]))
    if name is not None:
        v = verify_meta(name, d, git)
        if v:
            return v
    rows = {}
    for row in d["data"]:
        k = tuple(row["ix"])
        if k in rows:
            return Violation("twice", "%r appears twice" % (k,))
        rows[k] = row
    if set(rows) != set(data):
        return Violation("lost" if set(data) - set(rows) else "invented", "results for %r, recorded were %r" % (sorted(rows), sorted(data)))
    f = lambda row, c: unhex(row[c][1:]) if isinstance(row[c], str) else float(row[c])
    for k, row in rows.items():
        vals = [unhex(x) for x, _, _ in data[k]]
        thr, mode = unhex(data[k][0][1]), data[k][0][2]
        if raw:
            got = [unhex(x[1:]) for x in row["values"]]
            if sorted(map(bits, got)) != sorted(map(bits, vals)):
                return Violation("values", "%r: values %r, recorded %r" % (k, got, vals))
        if int(f(row, "nsamples")) != len(vals):
            return Violation("values", "%r: %s samples, recorded %d" % (k, row["nsamples"], len(vals)))
        a = np.array(vals)
        with np.errstate(all="ignore"):
            mu, sigma = float(np.mean(a)), float(np.std(a))
            st = {"mu": mu, "sigma": sigma, "min": float(np.min(a)), "max": float(np.max(a)), "quantile25": float(np.quantile(a, 0.25)),
                  "quantile50": float(np.quantile(a, 0.5)), "quantile75": float(np.quantile(a, 0.75)), "accuracy_threshold": thr}
            q = np.float64(sigma) / np.float64(mu)
        for c, v in st.items():
            if not same(f(row, c), v, 1e-12):
                return Violation("statistics", "%r: %s is %r, should be %r" % (k, c, f(row, c), v))
        if row["check_mode"] != mode:
            return Violation("check-mode", "%r: %s, recorded %s" % (k, row["check_mode"], mode))
        e = abs(sigma) if mode == "absolute" else abs(float(q))
        want = True if mode == "none" else bool(e < abs(thr))
        if bool(row["check"]) != want:
            return Violation("check", "%r: check %r, error %r, threshold %r, %s" % (k, row["check"], e, thr, mode))
        if mu != 0 and all(map(math.isfinite, vals)) and sigma == 0 and f(row, "s2") != 53:
            return Violation("digits", "%r: %r digits though all values are equal" % (k, f(row, "s2")))
    got = {}
    for row in d["deterministic_data"]:
        got.setdefault(tuple(row["ix"]), []).append(row)
    if {k: len(v) for k, v in got.items()} != {k: len(v) for k, v in det.items()}:
        return Violation("det-lost", "deterministic results for %r, recorded were %r" % (sorted(got), sorted(det)))
    for k, l in got.items():
        row, e = l[0], det[k][0]
        if len(l) > 1:
            continue
        v, thr = unhex(e["value"]), unhex(e["thr"])
        if not same(f(row, "value"), v) or not same(f(row, "accuracy_threshold"), thr) or row["check_mode"] != e["mode"]:
            return Violation("det-values", "%r: %r, recorded %r" % (k, row, e))
        if e["checks"]:
            ref = float("nan") if e["ref"] is None else unhex(e["ref"])
            if not same(f(row, "reference_value"), ref):
                return Violation("det-reference", "%r: reference %r, recorded %r" % (k, f(row, "reference_value"), ref))
            with np.errstate(all="ignore"):
                err = abs(np.float64(v) - ref)
                if e["mode"] == "relative":
                    err = err / abs(np.float64(ref))
            want = True if e["mode"] == "none" else bool(err < abs(thr))
        else:
            want = True
        if bool(row["check"]) != want:
            return Violation("det-check", "%r: check %r but %r" % (k, row["check"], e))
    return None
