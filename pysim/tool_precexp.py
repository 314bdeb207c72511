"""vfc_precexp with simulated run and compare scripts.

The program has the functions of the profile the model describes; a run with a configuration
file gives the reference result when the model accepts that configuration."""
import hashlib, importlib.util, os, sys

mod = None


def load(repo):
    global mod
    sp = importlib.util.spec_from_file_location("vfc_precexp_tool", os.path.join(repo, "src", "tools", "optimize", "precexp.py"))
    mod = importlib.util.module_from_spec(sp)
    sys.modules["vfc_precexp_tool"] = mod
    sp.loader.exec_module(mod)
    # warm up
    import pandas as pd
    pd.DataFrame([["a", 1], ["b", 2]], columns=["x", "y"]).sort_values(["x", "y"], ascending=False).reset_index(drop=True).to_csv()


def profile(model):
    out = []
    for f in model["functions"]:
        out.append("\t".join(map(str, [f["id"], f["lib"], f["int"], f["float"], f["double"], 52, 11, 23, 8, len(f["in"]), len(f["out"]), f["calls"]])))
        for io, args in (("input:", f["in"]), ("output:", f["out"])):
            for name, typ in args:
                d = typ in (1, 4)
                out.append("\t".join(map(str, [io, name, typ, 52 if d else 23, 11 if d else 8, -7, 12])))
    return "".join(l + "\n" for l in out)


def parse(text, io_full=False):
    """the configuration as VPREC reads it; None when it refuses the file"""
    L = text.split("\n")
    if L[-1] != "":
        return None
    L.pop()
    cfg = {}
    i = 0
    try:
        while i < len(L):
            f = L[i].split("\t")
            if len(f) != 12:
                return None
            for v in f[1:]:
                int(v)
            for (k, lo, hi), v in zip((("Prec64", 1, 52), ("Range64", 2, 11), ("Prec32", 1, 23), ("Range32", 2, 8)), f[5:9]):
                cfg["%s|%s" % (f[0], k)] = int(v)
                if not lo <= int(v) <= hi:
                    return None
            ni, n = int(f[9]), int(f[9]) + int(f[10])
            if len(L) < i + 1 + n:
                return None
            for j, a in enumerate(L[i + 1:i + 1 + n]):
                io, name, typ, prec, rng, mn, mx = a.split("\t")
                if io != ("input:" if j < ni else "output:"):
                    return None
                typ, prec, rng = int(typ), int(prec), int(rng)
                int(mn), int(mx)
                d = typ in (1, 4)
                if not 0 <= typ <= 5 or not 1 <= prec <= (52 if d else 23) or not 2 <= rng <= (11 if d else 8):
                    return None
                cfg["%s|%s|%s|Prec" % (f[0], io, name)] = prec
                cfg["%s|%s|%s|Range" % (f[0], io, name)] = rng
            i += 1 + n
    except ValueError:
        return None
    return cfg


def h(*a):
    return int(hashlib.md5("/".join(map(str, a)).encode()).hexdigest(), 16)


def accept(model, cfg, k):
    """does run number k with this configuration give an acceptable result?"""
    a = model["accept"]
    key = ",".join("%s=%d" % x for x in sorted(cfg.items()))
    if a["kind"] == "never":
        return False
    if a["kind"] == "all":
        return True
    if a["kind"] == "hash":
        return h(a["salt"], key) % 100 < a["rate"]
    if a["kind"] == "flaky":
        return h(a["salt"], key, k) % 100 < a["rate"]
    if a["kind"] == "sum":
        return sum(v * a["w"].get(n, 0) for n, v in cfg.items()) >= a["min"]
    for n, t in a["thr"].items():
        if n in cfg and cfg[n] < t:
            return False
    for n, vals in a.get("holes", {}).items():
        if n in cfg and cfg[n] in vals:
            return False
    return True


def prun(p):
    w, model = p.w, p.w.req["model"]
    k = w.__dict__.setdefault("nruns", 0)
    w.nruns += 1
    p.tag = "run"
    beh = model["faults"].get(str(k), {})
    p.term = beh.get("term")
    d = p.argv[1]
    be = p.env.get("VFC_BACKENDS", "")
    opts = dict(o.split("=", 1) if "=" in o else (o, "") for o in be.split()[1:])
    others = [q.n for q in w.procs if q is not p and q.rc is None]
    cfg, bad = None, False
    if "--prec-input-file" in opts:
        try:
            cfg = parse(open(os.path.join(p.cwd, opts["--prec-input-file"])).read())
            bad = cfg is None
        except OSError:
            bad = True
    w.log("run", n=p.n, k=k, dir=d, be=be, cfg=cfg, bad=bad, others=others, beh=beh.get("kind"))
    bad |= opts.get("--mode", "ob") not in ("ieee", "full", "ib", "ob") or opts.get("--instrument", "none") not in ("arguments", "operations", "all", "none")
    if bad:
        yield "err", b"the configuration cannot be read\n"
        return 1
    kind = beh.get("kind")
    yield "sleep", 0.05 + 0.4 * p.rng.random()
    if kind == "crash":
        return -11
    if kind == "fail":
        return 3
    if kind == "hang":
        yield "hang", 0
    if kind == "big" or kind == "bigboth":
        for _ in range(20):
            yield "out", b"iteration 0000 residual 0.000000\n" * 200
    if kind == "bigboth":
        for _ in range(20):
            yield "err", b"warning 0000\n" * 500
    ok = cfg is None or accept(model, cfg, k)
    if not ok:
        b = model.get("onbad")
        if b == "crash":
            return -8
        if b == "fail":
            return 1
        if b == "hang":
            yield "hang", 0
        if b == "late":  # would only match after its time is over
            yield "sleep", 60
            ok = True
    try:
        with open(os.path.join(p.cwd, d, "out.dat"), "w") as f:
            f.write("result ")
        if kind == "slow":
            yield "sleep", beh["dt"]
        yield "sleep", 0.4 * p.rng.random()
        with open(os.path.join(p.cwd, d, "out.dat"), "a") as f:
            f.write("%d end\n" % (0 if ok else 1))
        if "--prec-output-file" in opts:
            with open(os.path.join(p.cwd, opts["--prec-output-file"]), "w") as f:
                f.write(profile(model))
    except OSError as e:
        return 1
    w.log("rundone", n=p.n, ok=ok)
    return 0


def pcmp(p):
    w, model = p.w, p.w.req["model"]
    k = w.__dict__.setdefault("ncmps", 0)
    w.ncmps += 1
    beh = model["cmpfaults"].get(str(k), {})
    p.term = beh.get("term")
    others = [q.n for q in w.procs if q is not p and q.rc is None]
    w.log("cmp", n=p.n, k=k, ref=p.argv[1], dir=p.argv[2], others=others)
    yield "sleep", 0.2 * p.rng.random()
    kind = beh.get("kind")
    if kind == "hang":
        yield "hang", 0
    if kind == "crash":
        return -11
    if kind == "big":
        for _ in range(20):
            yield "out", b"difference 0000 0000\n" * 400

    def rd(d):
        try:
            return open(os.path.join(p.cwd, d, "out.dat")).read()
        except OSError:
            return None
    a, b = rd(p.argv[1]), rd(p.argv[2])
    rc = 0 if a == "result 0 end\n" and a == b else model.get("cmprc", 1)
    w.log("cmpdone", n=p.n, rc=rc)
    return rc


def resolve(p):
    b = os.path.basename(p.argv[0])
    if b == "exrun":
        return prun(p)
    if b == "excmp":
        return pcmp(p)
    raise FileNotFoundError(2, "No such file or directory: %r" % p.argv[0])


def run(w, req):
    w.resolve = resolve
    mod.main()


def report(w, req):
    return {"alive": [q.n for q in w.procs if q.rc is None]}
