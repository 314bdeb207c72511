"""vfc_ci test with simulated test executables (and a reader for the files it leaves)."""
import glob, json, os, sys, types

main = None


def load(repo):
    global main
    pkg = types.ModuleType("verificarlo")
    pkg.__path__ = [os.path.join(repo, "src", "tools")]
    sys.modules["verificarlo"] = pkg
    import verificarlo.ci.__main__ as m
    import verificarlo.ci.test
    import tables, pandas, numpy
    import pandas.io.pytables
    # warm up the storage library
    import tempfile
    d = tempfile.mkdtemp()
    pandas.DataFrame({"a": [1.0], "b": ["x"]}).to_hdf(os.path.join(d, "x.h5"), key="k")
    pandas.read_hdf(os.path.join(d, "x.h5"), key="k")
    os.unlink(os.path.join(d, "x.h5"))
    os.rmdir(d)
    main = m


def csv(rows):
    return "test,variable,value,accuracy_threshold,check_mode\n" + "".join(
        "%s,%s,%s,%s,%s\n" % (t, v, x, thr, mode) for t, v, x, thr, mode in rows)


def number(w, argv, env):
    exe = argv[0]
    key = "%s|%s" % (exe[2:] if exe.startswith("./") else exe, env.get("VFC_BACKENDS", ""))
    cnt = w.__dict__.setdefault("runs", {})
    k = cnt.get(key, 0)
    cnt[key] = k + 1
    return key, k


def execution(p):
    w = p.w
    m = w.req["model"]
    exe = p.argv[0]
    be = p.env.get("VFC_BACKENDS", "")
    out = p.env.get("VFC_PROBES_OUTPUT")
    key, k = number(w, p.argv, p.env)
    w.log("exec", n=p.n, exe=exe, be=be, k=k, args=p.argv[1:])
    plan = m["plans"].get(key)
    if plan is None or k >= len(plan):
        return 0
    st = plan[k]
    text = csv(st["rows"]).encode()
    kind = st["kind"]
    if kind.endswith("hang"):
        p.term = p.rng.choice([None, 2.0, "ignore"])  # what a termination request does to it
    yield "sleep", st.get("pre", 0.5)
    if kind in ("none", "early-crash", "early-hang"):
        if kind == "early-hang":
            yield "hang", 0
        return -st.get("sig", 11) if kind == "early-crash" else st.get("rc", 0)
    cut = len(text)
    if kind in ("torn", "mid-crash", "mid-hang"):
        cut = st["cut"] % len(text)
        if kind == "torn" and (cut == 0 or text[cut - 1:cut] == b"\n" or text[cut:cut + 1] == b"\n"):
            cut = len(text) - 3 if len(text) > 60 else 20
    try:
        with open(out, "wb") as f:
            f.write(text[:cut // 2])
        yield "sleep", st.get("mid", 0.2)
        with open(out, "ab") as f:
            f.write(text[cut // 2:cut])
    except (OSError, TypeError):
        w.log("nooutput", n=p.n)
        return 1
    if kind == "mid-hang" or kind == "late-hang":
        yield "hang", 0
    if kind in ("mid-crash", "late-crash"):
        return -st.get("sig", 11)
    if kind == "torn":
        return 1
    yield "sleep", st.get("post", 0)
    return st.get("rc", 0)


def shell(p):
    p.w.log("make", cmd=p.argv[-1])
    yield "sleep", 3.0
    return p.w.req["model"].get("make_rc", 0)


def resolve(p):
    if p.argv[0] == "/bin/sh":
        return shell(p)
    if os.path.basename(p.argv[0]) in p.w.req["model"].get("missing", []):
        raise FileNotFoundError(2, "No such file or directory: %r" % p.argv[0])
    return execution(p)


def cell(x):
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (float, np.floating)):
        return "f" + float(x).hex()
    if isinstance(x, (int, np.integer)):
        return "f" + float(x).hex()
    if isinstance(x, (list, tuple, np.ndarray)):
        return [cell(y) for y in x]
    return str(x)


def inspect(w):
    """read every results file of the directory"""
    import pandas as pd
    res = {}
    for f in sorted(glob.glob("*.h5")) + sorted(x for x in glob.glob(".*.h5")):
        try:
            with pd.HDFStore(f, mode="r") as st:
                d = {}
                for k in st.keys():
                    t = st[k]
                    d[k.strip("/")] = [{"ix": [cell(y) for y in (i if isinstance(i, tuple) else (i,))], **{c: cell(t[c].iloc[j]) for c in t.columns}}
                                       for j, i in enumerate(t.index)]
            res[f] = d
        except Exception as e:
            res[f] = {"unreadable": "%s: %s" % (type(e).__name__, str(e)[:200])}
    w.log("files", files=res, names=sorted(os.listdir(".")), tmp=sorted(os.listdir("tmp")) if os.path.isdir("tmp") else [])


def fake_git(g):
    """the last commit of the working directory, as GitPython shows it"""
    N = types.SimpleNamespace

    class Str(N):
        def __str__(self):
            return self.text
    commit = Str(text=g["hash"], hexsha=g["hash"], authored_date=g["date"], committed_date=g["date"] + 77, message=g["message"], summary=g["message"].split("\n")[0],
                 author=Str(text=g["author"], name=g["author"], email=g["email"]), committer=Str(text="C", name="C", email="c@d"))
    m = types.ModuleType("git")
    remote = N(name="origin", url=g["url"], urls=iter([g["url"]]), config_reader=N(get=lambda k, *a: g["url"] if k == "url" else None))

    class Remotes(list):
        origin = remote
    m.Repo = lambda *a, **k: N(remotes=Remotes([remote]), active_branch=Str(text=g["branch"], name=g["branch"], commit=commit), head=N(commit=commit),
                               commit=lambda *a: commit)
    sys.modules["git"] = m


def run(w, req):
    import tempfile, warnings
    warnings.simplefilter("ignore")
    tempfile.tempdir = os.path.join(req["cwd"], "tmp")
    if req.get("inspect"):
        return inspect(w)
    if req["model"].get("git"):
        fake_git(req["model"]["git"])
    w.resolve = resolve
    w.on_spawnfail = lambda argv, env: number(w, argv, env)
    main.main()
