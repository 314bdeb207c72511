"""vfc_ddebug with simulated run and compare scripts.

The program under debug has sites 0..n-1.  A run perturbs the sites listed in the include
file it is given (all of them when there is none) and fails when the failure pattern says so
for that set of sites and that run number."""
import ctypes, ctypes.util, hashlib, os, sys, types

main = None


def load(repo):
    global main
    pkg = types.ModuleType("verificarlo")
    pkg.__path__ = [os.path.join(repo, "src", "tools")]
    sys.modules["verificarlo"] = pkg
    ctypes.util.find_library = lambda n, so=os.environ["LD_PRELOAD"].split(":")[0]: so  # shim.c has a personality() of its own
    global real_works
    pid = os.fork()
    if pid == 0:  # is the real personality() usable here?
        try:
            ctypes.CDLL("libc.so.6").personality(ctypes.c_ulong(NO_RANDOM))
            os._exit(0 if int(open("/proc/self/personality").read(), 16) & NO_RANDOM else 1)
        finally:
            os._exit(1)
    real_works = os.waitpid(pid, 0)[1] == 0
    import verificarlo.ddebug.main as m
    main = m


NO_RANDOM = 0x0040000
real_works = False


def fixed_addresses():
    """will a program started now find its code where every other one does?"""
    libc = ctypes.CDLL(None)
    libc.shim_personality.restype = ctypes.c_long
    if libc.shim_personality() & NO_RANDOM:
        return True
    try:
        return not real_works or bool(int(open("/proc/self/personality").read(), 16) & NO_RANDOM)
    except (OSError, ValueError):
        return True


def bad(model, sites, k):
    """does run number k (0..) of this set of sites deviate?"""
    s = set(sites)
    for p in model["patterns"]:
        if s >= set(p["sites"]) and not (s & set(p.get("unless", []))):
            if p["rate"] >= 100 or int(hashlib.md5(("%s/%s/%d" % (model["salt"], ",".join(map(str, sorted(s))), k)).encode()).hexdigest(), 16) % 100 < p["rate"]:
                return True
    return False


def lines(model, shift=0):
    q = model.get("sameaddr") or 10**9
    return ["0x%016x: f%d at prog.c:%d\n" % (0x401000 + shift + 7 * (i % q), i % 5, 10 + i) for i in range(model["n"])]


def finished(w, d):
    """was every process started on this directory finished?"""
    return all(p.rc is not None for p in w.__dict__.setdefault("bydir", {}).get(d, []))


def ddrun(p):
    w, model = p.w, p.w.req["model"]
    d = os.path.abspath(os.path.join(p.cwd, p.argv[1]))
    yield "sleep", p.rng.choice([0, 0.01, 0.2])
    all_l = lines(model, 0 if fixed_addresses() else p.rng.randrange(1, 1 << 20) << 12)
    gen = p.env.get("VFC_DDEBUG_GEN")
    inc = p.env.get("VFC_DDEBUG_INCLUDE")
    exc = p.env.get("VFC_DDEBUG_EXCLUDE")
    # as the wrapper library does: unreadable include lists stop the program
    sel = set(range(model["n"]))
    try:
        if inc is not None:
            got = open(inc).read().split("\n")
            sel = {i for i, l in enumerate(all_l) if l[:-1] in got}
            w.log("runsel", n=p.n, dir=d, inc=inc, sel=sorted(sel), junk=len([g for g in got if g and g + "\n" not in all_l]))
        if exc is not None:
            got = open(exc).read().split("\n")
            sel -= {i for i, l in enumerate(all_l) if l[:-1] in got}
    except OSError:
        w.log("runsel", n=p.n, dir=d, inc=inc, sel=None, junk=0)
        yield "err", b"cannot open the include list\n"
        return 1
    if gen is not None:
        # the sites of one process each
        for i, part in enumerate(model["parts"]):
            with open(gen.replace("%%p", "%%p") + ("" if i == 0 else "%d" % i), "w") as f:
                f.write("".join(all_l[x] for x in part))
    name = os.path.basename(d)
    k = int(name[6:]) - 1 if name.startswith("dd.run") and name[6:].isdigit() else 0
    isref = p.env.get("VFC_BACKENDS", "").startswith("libinterflop_ieee")
    v = "0" if isref or not bad(model, sel, k) else "1"
    yield "out", b"running\n"
    with open(os.path.join(d, "res.dat"), "a" if model.get("append") else "w") as f:
        f.write("result ")
    yield "sleep", p.rng.choice([0.1, 0.5, 1, 3, 20]) * p.rng.random()
    with open(os.path.join(d, "res.dat"), "a") as f:
        f.write(v + " end\n")
    w.log("rundone", n=p.n, dir=d, sel=sorted(sel), k=k, v=v, ref=isref)
    return 1 if v == "1" and model.get("runrc") else 0


def ddcmp(p):
    w = p.w
    a, b = (os.path.abspath(os.path.join(p.cwd, x)) for x in p.argv[1:3])
    w.log("cmp", n=p.n, ref=a, dir=b, fin=finished(w, b), reffin=finished(w, a))
    yield "sleep", p.rng.choice([0, 0.01, 0.1])

    def rd(d):
        try:
            t = open(os.path.join(d, "res.dat")).read().split()
            return t[1] if len(t) == 3 and t[0] == "result" and t[2] == "end" else None
        except OSError:
            return None
    x, y = rd(a), rd(b)
    rc = 0 if x is not None and x == y else w.req["model"].get("cmprc", 1)
    w.log("cmpdone", n=p.n, dir=b, rc=rc)
    return rc


def resolve(p):
    b = os.path.basename(p.argv[0])
    if b == "ddRun":
        w = p.w
        w.__dict__.setdefault("bydir", {}).setdefault(os.path.abspath(os.path.join(p.cwd, p.argv[1])), []).append(p)
        return ddrun(p)
    if b == "ddCmp":
        return ddcmp(p)
    raise FileNotFoundError(2, "No such file or directory: %r" % p.argv[0])


def run(w, req):
    w.resolve = resolve
    main.main()
