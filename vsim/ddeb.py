"""Generators and oracle parts for the delta-debug sessions (P15, P16)."""
import os, re
from .core import Violation

RUN = "#!/bin/sh\nexit 0\n"
NAMES = re.compile(r"^(ddmin\d+|rddmin-cmp|ddmax|ddmax-cmp)$")


def gen_model(r, nmax):
    n = r.choice([1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 27, 33, 40])
    n = min(n, nmax)
    pats = []
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
        k = min(n, r.choice([1, 1, 1, 2, 2, 3, 4, 6]))
        s = sorted(r.sample(range(n), k))
        if r.random() < 0.2:
            a = r.randrange(n)
            s = list(range(a, min(n, a + k)))
        p = {"sites": s, "rate": r.choice([100, 100, 100, 90, 70, 40, 20])}
        if r.random() < 0.15:
            rest = [x for x in range(n) if x not in s]
            if rest:
                p["unless"] = sorted(r.sample(rest, min(len(rest), r.choice([1, 1, 2]))))
        pats.append(p)
    if r.random() < 0.05:
        pats.append({"sites": [], "rate": r.choice([100, 100, 60, 20])})  # deviates without any site
    idx = list(range(n))
    if r.random() < 0.4:
        r.shuffle(idx)
    parts = gen_parts(r, idx)
    m = {"n": n, "patterns": pats, "salt": r.getrandbits(30), "parts": parts}
    if r.random() < 0.4:
        m["cmprc"] = r.choice([2, 77, 255, 128, -6, -11, -9, -8])  # negative: killed by a signal
    if r.random() < 0.2:
        m["append"] = 1  # the run script appends to its output file
    if r.random() < 0.2:
        m["sameaddr"] = r.choice([1, 2, 5])  # several programs: sites that differ in the symbol only
    if r.random() < 0.2:
        m["runrc"] = 1
    return m


def gen_parts(r, idx):
    """the sites each process of the program executes"""
    n = len(idx)
    if n < 2 or r.random() < 0.6:
        return [idx]
    cuts = sorted(r.sample(range(1, n), min(n - 1, r.choice([1, 1, 2, 3]))))
    parts = [idx[a:b] for a, b in zip([0] + cuts, cuts + [n])]
    for i in range(1, len(parts)):
        if r.random() < 0.5:  # processes execute common sites
            parts[i] = idx[:r.randint(1, cuts[0])] + parts[i]
    return parts


def gen_env(r):
    env = {}
    x = r.random()
    if x < 0.15:
        env["INTERFLOP_DD_ALGO"] = "ddmax"
    elif x < 0.3:
        env["INTERFLOP_DD_ALGO"] = "rddmin"
    env["INTERFLOP_DD_NRUNS"] = str(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 11]))
    if r.random() < 0.6:
        env["INTERFLOP_DD_RDDMIN"] = r.choice(["s", "stoch", "d", "dicho", "", "strict"])
    if r.random() < 0.4:
        env["INTERFLOP_DD_RDDMIN_TAB"] = r.choice(["exp", "all", "single"])
    if r.random() < 0.5:
        n = int(env["INTERFLOP_DD_NRUNS"])
        env["INTERFLOP_DD_DICHO_TAB"] = r.choice(["exp", "all", "half", "single", str(r.randint(1, n))])
    if r.random() < 0.3:
        env["INTERFLOP_DD_DICHO_GRANULARITY"] = str(r.choice([2, 3, 4, 7]))
    if r.random() < 0.2:
        env["INTERFLOP_DD_QUIET"] = "1"
    return env


def setup(ps):
    ps.clean()
    ps.put("ddRun", RUN, 0o755)
    ps.put("ddCmp", RUN, 0o755)


def session(ps, case, env, faults=(), seed=0, slow=1.0, model=None):
    return ps.session(argv=["vfc_ddebug", "ddRun", "ddCmp"], env={"VFC_BACKENDS": "libinterflop_mca.so", **env},
                      model=model or case["model"], faults=list(faults), seed=seed, listseed=case.get("listseed", 0), slow=slow)


def site(line):
    m = re.match(r"0x([0-9a-f]+): f\d+ at prog.c:(\d+)$", line)
    return int(m.group(2)) - 10 if m else None


def reported(ps):
    """{name: sorted list of sites} from the documented result links"""
    out = {}
    d = os.path.join(ps.cwd, "dd.line")
    if not os.path.isdir(d):
        return out
    for n in sorted(os.listdir(d)):
        if NAMES.match(n):
            f = os.path.join(d, n, "dd.line.include")
            try:
                with open(f) as fh:
                    out[n] = sorted(site(l) if site(l) is not None else "?" + l for l in fh.read().split("\n") if l)
            except OSError as e:
                out[n] = "unreadable"
    return out


def printed(s):
    """the same from what the session printed"""
    out = {}
    for m in re.finditer(r"^(ddmin\d+|rddmin-cmp|ddmax|ddmax-cmp) \(([^()]*)\):$", s.end["out"], re.M):
        out[m.group(1)] = sorted(site(l) if site(l) is not None else "?" + l for l in m.group(2).split("\n") if l)
    return out


class Record:
    """outcomes of comparisons of finished runs, by set of sites and run number"""

    def __init__(self):
        self.r = {}

    def add(self, s):
        sel = {}
        for e in s.log:
            if e["ev"] == "rundone":
                sel[e["dir"]] = (e["sel"], e["k"], e["ref"])
            elif e["ev"] == "cmpdone" and e["dir"] in sel and not sel[e["dir"]][2]:
                st, k, _ = sel[e["dir"]]
                self.r.setdefault(frozenset(st), {})[k] = e["rc"]

    def failed(self, sites):
        return any(v != 0 for v in self.r.get(frozenset(sites), {}).values())

    def passed(self, sites, n):
        d = self.r.get(frozenset(sites), {})
        return all(d.get(k) == 0 for k in range(n)) and not self.failed(sites)


def live(s):
    """checks along one session"""
    for e in s.log:
        if e["ev"] == "cmp":
            if not e["fin"] or not e["reffin"]:
                return Violation("unfinished-run-used", "the comparison of %s started before the run had finished" % e["dir"])
        if e["ev"] == "runsel" and e["junk"]:
            return Violation("wrong-sites", "the list %s contains lines that are no site" % e["inc"])
    return None


def verify(case, env, got, rec, n):
    """the reported sets against the recorded outcomes"""
    nr = int(env["INTERFLOP_DD_NRUNS"])
    alls = set(range(n))
    if "unreadable" in got.values():
        return Violation("link", "a reported set cannot be read: %r" % got)
    if env.get("INTERFLOP_DD_ALGO") == "ddmax":
        if set(got) != {"ddmax", "ddmax-cmp"}:
            return Violation("missing", "ddmax reported %r" % sorted(got))
        mx, cm = got["ddmax"], got["ddmax-cmp"]
        if set(mx) | set(cm) != alls or set(mx) & set(cm):
            return Violation("partition", "ddmax and its complement are not all sites: %r" % got)
        if not rec.passed(mx, nr):
            return Violation("not-passing", "ddmax %r has no %d recorded passing runs" % (mx, nr))
        for x in cm:
            if not rec.failed(set(mx) | {x}):
                return Violation("not-maximal", "ddmax %r: no recorded failure after adding site %d" % (mx, x))
        return None
    mins = [v for k, v in got.items() if k.startswith("ddmin")]
    names = sorted(int(k[5:]) for k in got if k.startswith("ddmin"))
    if any(k.startswith("ddmax") for k in got):
        return Violation("stale", "a set of an earlier session is still reported: %r" % sorted(got))
    if "rddmin-cmp" not in got or names != list(range(len(names))):
        return Violation("missing", "reported %r" % sorted(got))
    if any(len(set(m)) != len(m) for m in mins):
        return Violation("duplicate", "a reported set lists a site twice: %r" % got)
    flat = [x for m in mins for x in m]
    if len(flat) != len(set(flat)) or set(flat) & set(got["rddmin-cmp"]) or set(flat) | set(got["rddmin-cmp"]) != alls:
        return Violation("partition", "reported sets and the rest are not all sites: %r" % got)
    for m in mins:
        if not rec.failed(m):
            return Violation("not-failing", "reported set %r has no recorded failing run" % m)
        if len(m) > 1:
            for x in m:
                if not rec.passed(set(m) - {x}, nr):
                    return Violation("not-minimal", "reported set %r: without site %d there are no %d recorded passes" % (m, x, nr))
    if not rec.passed(got["rddmin-cmp"], nr):
        return Violation("left-out", "the sites outside the reported sets, %r, have no %d recorded passes" % (got["rddmin-cmp"], nr))
    if not mins:
        return Violation("missing", "no set reported though all sites together fail")
    return None


def stable(model):
    """does every set of sites have the same outcome in all of its runs?  If not, results recorded
    by an earlier session may legitimately make a later one decide a set earlier"""
    return all(p["rate"] >= 100 for p in model["patterns"])
