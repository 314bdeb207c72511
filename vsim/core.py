"""Simulator client: scenarios, results, and the search / minimise / replay driver."""
import os, sys, json, time, random, shutil, subprocess, tempfile, hashlib, multiprocessing, copy, signal, struct, traceback

from . import build as B

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


# ---------------------------------------------------------------- C simulator
class Result:
    __slots__ = ("kind", "code", "steps", "hash", "swhash", "started", "ops_done", "livelock", "exiting",
                 "n", "sw", "fired", "vals", "recs", "err", "out", "files")

    @property
    def ok(self):
        return self.kind == "exit" and self.code == 0

    @property
    def failed_visibly(self):
        """non-zero status or death by signal"""
        return not self.ok

    def digest(self):
        h = hashlib.sha256()
        h.update(repr((self.kind, self.code, self.steps, self.hash, self.swhash, self.sw, self.fired,
                       sorted(self.vals.items()), self.recs, self.err, self.out, sorted(self.files.items()))).encode())
        return h.hexdigest()[:16]

    def status(self):
        return f"{self.kind} {self.code}"


class Sim:
    """One server process; every run is a fork of it."""

    def __init__(self, bdir):
        self.bdir = bdir
        self.cwd = tempfile.mkdtemp(prefix="run-", dir=bdir)
        env = {"LD_LIBRARY_PATH": bdir, "PATH": "/usr/bin:/bin", "HOME": "/nonexistent", "LANG": "C"}
        self.p = subprocess.Popen([os.path.join(bdir, "sim"), bdir, "x"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  env=env, cwd=self.cwd)
        self.runs = 0

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
        shutil.rmtree(self.cwd, ignore_errors=True)

    def _clean(self):
        for r, ds, fs in os.walk(self.cwd, topdown=False):
            for f in fs:
                os.unlink(os.path.join(r, f))
            for d in ds:
                os.rmdir(os.path.join(r, d))

    def run(self, sc, keep=False):
        """sc: dict with prog, env, threads (list of op-string lists) and optional
        sched, sw, faults, clock, tids, kids, main, maxrun, bufsz, files"""
        if not keep:
            self._clean()
        for name, data in (sc.get("files") or {}).items():
            p = os.path.join(self.cwd, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(data if isinstance(data, bytes) else data.encode("latin-1"))
        L = ["cwd " + self.cwd, "prog " + sc["prog"]]
        env = dict(sc.get("env") or {})
        env.setdefault("LD_LIBRARY_PATH", self.bdir)
        for k, v in env.items():
            L.append("env %s=%s" % (k, v.replace("@CWD@", self.cwd)))
        th = sc["threads"]
        L.append("threads %d" % len(th))
        if sc.get("main"):
            L.append("main")
        if sc.get("maxrun"):
            L.append("maxrun %d" % sc["maxrun"])
        if sc.get("maxsteps"):
            L.append("maxsteps %d" % sc["maxsteps"])
        if sc.get("exitrun"):
            L.append("exitrun")
        if sc.get("bufsz"):
            L.append("bufsz %d" % sc["bufsz"])
        for i, t in enumerate(sc.get("tids") or []):
            L.append("tid %d %d" % (i, t))
        if sc.get("clock"):
            L.append("clock %d %d %d %d" % tuple(sc["clock"]))
        if sc.get("kids"):
            L.append("kids %d" % sc["kids"])
        if sc.get("sw") is not None:
            L.append("sched replay 0 1 0")
            sw = sc["sw"]
            for i in range(0, len(sw), 400):
                L.append("sw " + " ".join("%d:%d" % (a, b) for a, b in sw[i:i + 400]))
        elif sc.get("sched"):
            L.append("sched %s %d %d %d" % tuple(sc["sched"]))
        for f in sc.get("faults") or []:
            L.append("fault %s %d %d" % tuple(f))
        for i, ops in enumerate(th):
            for o in ops:
                L.append("op %d %s" % (i, o))
        L.append("run\n")
        self.p.stdin.write("\n".join(L).encode("latin-1"))
        self.p.stdin.flush()
        self.runs += 1
        r = Result()
        rd = self.p.stdout.readline
        h = rd().decode().split()
        if not h or h[0] != "R":
            raise RuntimeError("simulator died: %r" % (h,))
        r.kind, r.code = h[1], int(h[2])
        r.steps, r.hash, r.swhash = int(h[3]), h[4], h[5]
        r.started, r.ops_done, r.livelock, r.exiting = (int(x) for x in h[6:10])
        r.n = dict(zip(("malloc", "open", "fork", "wait", "clock", "write", "read", "close"), map(int, h[10:18])))
        r.sw = []
        for t in rd().decode().split()[1:]:
            a, b = t.split(":")
            r.sw.append((int(a), int(b)))
        r.fired = [tuple(t.split(":")) for t in rd().decode().split()[1:]]
        r.vals = {}
        for t in rd().decode().split()[1:]:
            f = t.split(",")
            r.vals[(int(f[0]), int(f[1]))] = tuple(int(x, 16) for x in f[2:])
        r.recs = []
        for t in rd().decode().split()[1:]:
            f = t.split(",")
            r.recs.append((int(f[0]), int(f[1]), int(f[2])) + tuple(int(x, 16) for x in f[3:]))
        assert rd() == b".\n"
        r.err = self._read("_err")
        r.out = self._read("_out")
        r.files = {}
        for root, ds, fs in os.walk(self.cwd):
            for f in fs:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, self.cwd)
                if rel not in ("_err", "_out"):
                    with open(p, "rb") as fh:
                        r.files[rel] = fh.read()
        if r.kind == "exit" and r.code in (95, 96) and "SIM-ERROR" in r.err or (r.kind == "exit" and r.code == 96):
            raise RuntimeError("scenario error: " + r.err[-500:])
        return r

    def _read(self, n):
        try:
            with open(os.path.join(self.cwd, n), "rb") as f:
                return f.read().decode("latin-1").replace(self.cwd, "@CWD@").replace(self.bdir, "@LIB@")
        except FileNotFoundError:
            return ""


# ---------------------------------------------------------------- float helpers
def d2b(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def b2d(b):
    return struct.unpack("<d", struct.pack("<Q", b))[0]


def f2b(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def b2f(b):
    return struct.unpack("<f", struct.pack("<I", b & 0xFFFFFFFF))[0]


SPEC_D = [0, 1 << 63, 0x3FF0000000000000, 0xBFF0000000000000, 0x7FF0000000000000, 0xFFF0000000000000, 0x7FF8000000000000,
          0xFFF8000000000000, 1, 0x8000000000000001, 0x000FFFFFFFFFFFFF, 0x0010000000000000, 0x7FEFFFFFFFFFFFFF,
          0xFFEFFFFFFFFFFFFF, 0x3CA0000000000000, 0x4340000000000000, 0x4340000000000001, 0x36A0000000000000,
          0x47EFFFFFE0000000, 0x47EFFFFFF0000000, 0x3810000000000000, 0x380FFFFFC0000000, 0x3FB999999999999A]
SPEC_F = [0, 1 << 31, 0x3F800000, 0xBF800000, 0x7F800000, 0xFF800000, 0x7FC00000, 0xFFC00000, 1, 0x80000001, 0x007FFFFF,
          0x00800000, 0x7F7FFFFF, 0xFF7FFFFF, 0x33800000, 0x4B800000, 0x4B800001, 0x3DCCCCCD]


def rand_double(r, special=0.2):
    x = r.random()
    if x < special:
        return r.choice(SPEC_D)
    if x < 0.75:  # moderate
        return (r.getrandbits(1) << 63) | ((1023 + r.randint(-30, 30)) << 52) | r.getrandbits(52)
    if x < 0.85:  # few significant bits
        return (r.getrandbits(1) << 63) | ((1023 + r.randint(-10, 10)) << 52) | (r.getrandbits(5) << 47)
    return r.getrandbits(64) & ~(1 << 51) if x < 0.9 and False else (r.getrandbits(1) << 63) | (r.randint(0, 2046) << 52) | r.getrandbits(52)


def rand_float(r, special=0.2):
    x = r.random()
    if x < special:
        return r.choice(SPEC_F)
    if x < 0.75:
        return (r.getrandbits(1) << 31) | ((127 + r.randint(-20, 20)) << 23) | r.getrandbits(23)
    if x < 0.85:
        return (r.getrandbits(1) << 31) | ((127 + r.randint(-8, 8)) << 23) | (r.getrandbits(4) << 19)
    return (r.getrandbits(1) << 31) | (r.randint(0, 254) << 23) | r.getrandbits(23)


def normal_double(r, span=30):
    return (r.getrandbits(1) << 63) | ((1023 + r.randint(-span, span)) << 52) | r.getrandbits(52)


def normal_float(r, span=20):
    return (r.getrandbits(1) << 31) | ((127 + r.randint(-span, span)) << 23) | r.getrandbits(23)


def hx(v):
    return "%x" % v


def rand_sched(r, est=400):
    """swarm: a random strategy with random parameters"""
    m = r.choice(["random", "random", "random", "pct", "pct", "first", "first", "op"])
    s = r.getrandbits(62)
    if m == "random":
        return ["random", s, r.choice([2, 3, 5, 8, 15, 40, 120]), 0]
    if m == "pct":
        return ["pct", s, r.randint(1, 6), max(10, est)]
    if m == "first":
        return ["first", s, r.choice([2, 3, 4, 6]), r.choice([20, 60, 150, 400])]
    return ["op", s, r.choice([1, 1, 2, 3]), 0]


# ---------------------------------------------------------------- search driver
class Violation:
    def __init__(self, tag, msg):
        self.tag, self.msg = tag, msg

    def __repr__(self):
        return "%s: %s" % (self.tag, self.msg)


class Stats:
    """Per-worker counters, merged by addition / union"""

    def __init__(self):
        self.runs = 0
        self.cases = 0
        self.steps = 0
        self.switches = 0
        self.sim_us = 0
        self.distinct = set()
        self.faults = {}
        self.kinds = {}
        self.samples = []
        self.dup_checked = 0
        self.dup_bad = 0
        self.extra = {}

    def saw(self, r):
        self.runs += 1
        self.steps += r.steps
        self.switches += len(r.sw)
        for k, n in r.fired:
            self.faults[k] = self.faults.get(k, 0) + 1

    def kind(self, k, n=1):
        self.kinds[k] = self.kinds.get(k, 0) + n

    def merge(self, o):
        for k in ("runs", "cases", "steps", "switches", "sim_us", "dup_checked", "dup_bad"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        self.distinct |= o.distinct
        for d, e in ((self.faults, o.faults), (self.kinds, o.kinds), (self.extra, o.extra)):
            for k, v in e.items():
                d[k] = d.get(k, 0) + v
        if len(self.samples) < 4:
            self.samples += o.samples[:2]


def case_rng(prop, seed, idx):
    return random.Random("%s/%d/%d" % (prop, seed, idx))


def run_check(mod, env, case, st, rec):
    """an oracle that cannot make sense of what the code under test did is a violation, not a harness error"""
    try:
        return mod.check(env, case, st, rec)
    except B.BuildError:
        raise
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        return Violation("uninterpretable", "%s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))


def _worker(mod, ctx, seed, wid, nw, ncases, deadline, q):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        st = Stats()
        env = mod.open_env(ctx)
        found = []
        first_err = None
        known = {k for k, _ in known_findings(mod.PROP)}
        idx = wid
        while idx < ncases and time.time() < deadline and len(found) < 3:
            r = case_rng(mod.PROP, seed, idx)
            case = mod.gen(r, idx, ctx)
            st.cases += 1
            rec = {}
            v = run_check(mod, env, case, st, rec)
            if len(st.samples) < 2 and idx >= nw:
                st.samples.append({"seed": seed, "index": idx, "case": mod.describe(case) if hasattr(mod, "describe") else case})
            if v is None and st.cases % ctx.get("dup_every", 40) == 1:
                # determinism proof: the same case again must give the same execution
                rec2 = {}
                v2 = run_check(mod, env, case, Stats(), rec2)
                st.dup_checked += 1
                if v2 is not None or rec.get("digest") != rec2.get("digest"):
                    st.dup_bad += 1
                    if first_err is None:
                        first_err = "nondeterministic case %d: %r %r" % (idx, v2, (rec, rec2))
            if v is not None and v.tag in known:
                st.kind("known-finding-" + v.tag)
            elif v is not None:
                found.append((idx, case, rec, v.tag, v.msg))
            idx += nw
        mod.close_env(env)
        q.put((st, found, first_err, None))
    except Exception:
        q.put((Stats(), [], None, traceback.format_exc()))


def known_findings(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                f = l.split(" ", 3)
                out.append((f[2], f[3] if len(f) > 3 else ""))  # signature, text
    return out


def ddmin(items, test, deadline):
    """smallest sublist (1-minimal, within the time limit) for which test holds"""
    n = 2
    items = list(items)
    if not items or test([]):
        return [] if items else items
    while len(items) >= 2 and time.time() < deadline:
        chunk = max(1, len(items) // n)
        some = False
        i = 0
        while i < len(items) and time.time() < deadline:
            cand = items[:i] + items[i + chunk:]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                some = True
            else:
                i += chunk
        if not some:
            if chunk == 1:
                break
            n = min(len(items), 2 * n)
    return items


def minimise(mod, env, case, rec, tag, budget=25):
    """schedule, faults, then operations"""
    t_end = time.time() + budget

    def fails(c):
        v = run_check(mod, env, c, Stats(), {})
        return v is not None and v.tag == tag

    best = case
    if rec.get("sw") is not None and "sched" in case:
        c = copy.deepcopy(case)
        c["sw"] = [list(x) for x in rec["sw"]]
        if fails(c):
            best = c

            def t_sw(s):
                d = copy.deepcopy(best)
                d["sw"] = s
                return fails(d)
            s = ddmin(best["sw"], t_sw, time.time() + budget * 0.4)
            best = copy.deepcopy(best)
            best["sw"] = s
    if best.get("faults"):
        def t_f(s):
            d = copy.deepcopy(best)
            d["faults"] = s
            return fails(d)
        s = ddmin(best["faults"], t_f, t_end)
        best = copy.deepcopy(best)
        best["faults"] = s
    if isinstance(best.get("threads"), list) and getattr(mod, "MIN_OPS", True):
        for ti in range(len(best["threads"])):
            def t_o(s):
                d = copy.deepcopy(best)
                d["threads"][ti] = s
                return fails(d)
            s = ddmin(best["threads"][ti], t_o, t_end)
            best = copy.deepcopy(best)
            best["threads"][ti] = s
    again = hasattr(mod, "variants")
    while again:  # greedy: keep the first smaller case that still fails
        again = False
        for c in mod.variants(best):
            if time.time() > t_end:
                break
            if fails(c):
                best, again = c, True
                break
    if hasattr(mod, "shrink"):
        best = mod.shrink(env, best, fails, t_end)
    if best.get("sw"):
        s = ddmin(best["sw"], lambda s: fails({**copy.deepcopy(best), "sw": s}), t_end)
        best = {**best, "sw": s}
    return best if fails(best) else case


def main(mod, argv):
    """argv: quick|thorough  or  replay FILE"""
    t0 = time.time()
    tier = argv[0] if argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = {"tier": tier, "seed": seed}
    tmp = tempfile.mkdtemp(prefix="vsim-%s-" % mod.PROP, dir=os.environ.get("VERIF_TMP", "/tmp"))
    ctx["tmp"] = tmp
    ctx["fast"] = fast_dir(tmp, mod.PROP)
    try:
        try:
            mod.prepare(ctx)
        except B.BuildError as e:
            print("BUILD-ERROR", e)
            return 2
        if tier == "replay":
            rp = json.load(open(argv[1]))
            env = mod.open_env(ctx)
            rec = {}
            v = run_check(mod, env, rp["case"], Stats(), rec)
            mod.close_env(env)
            print("replay of %s: %s" % (argv[1], repr(v) if v else "no violation"))
            print("execution digest:", rec.get("digest"))
            if v:
                print("VIOLATION property=%s replay=%s" % (mod.PROP, argv[1]))
                return 1
            return 0
        return search(mod, ctx, tier, seed, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        shutil.rmtree(ctx["fast"], ignore_errors=True)


def fast_dir(tmp, prop):
    """scratch directory for sessions: in memory when possible"""
    try:
        v = os.statvfs("/dev/shm")
        if v.f_bavail * v.f_frsize > 2 << 30:
            return tempfile.mkdtemp(prefix="vsim-%s-" % prop, dir="/dev/shm")
    except OSError:
        pass
    return tempfile.mkdtemp(prefix="ses-", dir=tmp)


def search(mod, ctx, tier, seed, t0):
    nw = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    ncases, limit = mod.BUDGET[tier]
    limit = float(os.environ.get("VERIF_TIME", limit))
    if "VERIF_CASES" in os.environ:
        ncases = int(os.environ["VERIF_CASES"])
    tsearch = time.time()
    deadline = tsearch + limit
    q = multiprocessing.Queue()
    ps = [multiprocessing.Process(target=_worker, args=(mod, ctx, seed, w, nw, ncases, deadline, q)) for w in range(nw)]
    for p in ps:
        p.start()
    st = Stats()
    found, errs, nondet = [], [], []
    for _ in ps:
        s, f, nd, e = q.get()
        st.merge(s)
        found += f
        if nd:
            nondet.append(nd)
        if e:
            errs.append(e)
    for p in ps:
        p.join()
    search_s = time.time() - tsearch
    if errs:
        print("HARNESS-ERROR\n" + errs[0])
        return 2
    found.sort(key=lambda x: x[0])
    known = known_findings(mod.PROP)
    reported, seen, kn_seen = [], set(), set()
    unrep = 0
    env = None
    for idx, case, rec, tag, msg in found:
        if any(tag == k for k, _ in known):
            kn_seen.add(tag)
            continue
        if tag in seen or len(reported) >= 3:
            continue
        if env is None:
            env = mod.open_env(ctx)
        # gate: the same case must fail again the same way in a fresh process
        if reported and time.time() - tsearch > limit + 150:
            continue
        rec2 = {}
        tg = time.time()
        v2 = run_check(mod, env, case, Stats(), rec2)
        tg = time.time() - tg
        if v2 is None or v2.tag != tag:
            mod.close_env(env)
            env = mod.open_env(ctx)
            v2 = run_check(mod, env, case, Stats(), rec2)
        if v2 is None or v2.tag != tag:
            unrep += 1
            print("UNREPRODUCED seed=%d index=%d %s: %s" % (seed, idx, tag, msg))
            continue
        seen.add(tag)
        rec3 = {}
        if tg < 8 and time.time() - tsearch < limit + 200:
            small = minimise(mod, env, case, rec2, tag)
            v3 = run_check(mod, env, small, Stats(), rec3)
        else:  # too slow to minimise (a hang found by its time limit)
            small, v3, rec3 = case, v2, rec2
        if v3 is None or v3.tag != tag:
            small, v3, rec3 = case, v2, rec2
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-s%d-i%d.json" % (mod.PROP, seed, idx))
        json.dump({"property": mod.PROP, "seed": seed, "index": idx, "violation": repr(v3), "tag": tag,
                   "digest": rec3.get("digest"), "case": small}, open(path, "w"), indent=1)
        # the replay file must reproduce it in a fresh process
        mod.close_env(env)
        env = mod.open_env(ctx)
        rec4 = {}
        v4 = run_check(mod, env, json.load(open(path))["case"], Stats(), rec4)
        same = v4 is not None and v4.tag == tag
        if not same:
            json.dump({"property": mod.PROP, "seed": seed, "index": idx, "violation": repr(v2), "tag": tag,
                       "digest": rec2.get("digest"), "case": case}, open(path, "w"), indent=1)
        reported.append((path, v3, idx, same))
    if env is not None:
        mod.close_env(env)
    for sig, text in known:
        print("KNOWN-FINDING: property=%s %s %s" % (mod.PROP, sig, text))
    wall = time.time() - t0
    cov = {
        "evaluations": st.runs,
        "distinct_nontrivial": len(st.distinct),
        "rule": mod.RULE,
        "samples": st.samples[:4],
        "cases": st.cases,
        "seeds_per_hour": int(st.cases / max(search_s, 1e-3) * 3600),
        "runs_per_hour": int(st.runs / max(search_s, 1e-3) * 3600),
        "simulated_steps": st.steps,
        "context_switches": st.switches,
        "simulated_time_s": round(st.sim_us / 1e6, 3),
        "faults_fired": st.faults,
        "case_kinds": st.kinds,
        "determinism": {"cases_run_twice": st.dup_checked, "mismatches": st.dup_bad},
        "unreproduced": unrep,
        "components": mod.COMPONENTS,
        "workers": nw,
    }
    cov.update(st.extra)
    ev = {"property": mod.PROP, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
          "assumptions": mod.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": len(reported)}
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, mod.PROP + ".json"), "w"), indent=1, default=str)
    for path, v, idx, same in reported:
        print("%s seed=%d index=%d %s" % (mod.PROP, seed, idx, v))
        if not same:
            print("(the minimised trace did not reproduce in a fresh process; the replay file holds the full case)")
        print("VIOLATION property=%s replay=%s" % (mod.PROP, path))
    print("%s %s: %d cases, %d runs, %d distinct, faults %s, %.1fs" % (
        mod.PROP, tier, st.cases, st.runs, len(st.distinct), st.faults, wall))
    if reported:
        return 1
    if st.dup_bad:
        print("HARNESS-ERROR nondeterminism:", nondet[0][:2000])
        return 2
    if unrep:
        return 2
    return 0
