from vsim.csim import *
from vsim import ieee
from props.p05 import result, CODE
from props.p08 import prepare, open_env, site, draw_sites, kind_of, NS, NX

PROP = "P09"
LEVEL = "fault_enumeration"
RULE = ("one case = inclusion and/or exclusion lists over %d call sites (" % 780 + "scalar, vector, fused multiply-add and cast; 0-700 lines, unordered, repeated, foreign addresses, long locations), 1-4 threads "
        "executing sites under a seeded schedule, and at most one defect or fault (missing, unreadable or malformed list, open, read or allocation failure), "
        "or a list generated by a first run and used in a second; distinct by selection and executed interleaving")
ASSUMPTIONS = ["lists hold one address per line, as the generator writes them", "a shorter well-formed list is another selection, not a failure",
               "death by a signal after a failed allocation counts as stopping the program"]
COMPONENTS = dict(COMPONENTS_C, stub=COMPONENTS_C["stub"] + ["llvm-addr2line", "one recording backend whose results never equal the plain ones"])
BUDGET = {"quick": (30000, 30), "thorough": (300000, 600)}


def line(r, a, long_ok=True):
    x = r.random()
    if x < 0.5:
        return "0x%x: site at sim.c:%d" % (a, a & 0xffff)
    if x < 0.65:
        return "0x%x" % a
    if x < 0.7 and long_ok:
        return "0x%x: %s at sim.c:3" % (a, "".join(r.choice("abcdef0123456789:<,> ") for _ in range(r.choice([2030, 2040, 2047, 2050, 4100]))))
    return "0x%x: f(double, double) at dir/x.c:%d" % (a, r.randint(1, 999))


def gen_list(r, sites, pool):
    k = r.sample(pool, r.randint(0, len(pool)))
    k += r.sample(range(NS + NX), r.choice([0, 0, 5, 100, 640]))
    foreign = [r.randint(1, 1 << 44) for _ in range(r.choice([0, 0, 3, 50]))]
    if r.random() < 0.3:  # near misses
        foreign += [sites[x] - 5 + r.choice([-1, 1, 5, -5, 8]) for x in pool if x not in k][:10]
        foreign = [f for f in foreign if f + 5 not in set(sites.values())]
    a = [sites[x] - 5 for x in k] + foreign
    r.shuffle(a)
    ls = [line(r, x) for x in a]
    if ls and r.random() < 0.2:
        ls += r.sample(ls, min(3, len(ls)))
    return "".join(l + "\n" for l in ls)[:None if r.random() < 0.7 or not ls else -1]


def gen(r, idx, ctx):
    sites = ctx["sites"]
    pool = draw_sites(r, r.choice([1, 3, 8, 30]))
    nt = r.choice([1, 1, 2, 4])
    threads = [[site(r, r.choice(pool), 0.1) for _ in range(r.randint(1, r.choice([4, 15])))] for _ in range(nt)]
    env = quiet_env(r)
    env["VFC_BACKENDS"] = "libstub0.so --mask=ffff"
    files, faults = {}, []
    kind = r.choice(["inc", "inc", "exc", "exc", "both", "both", "trip-inc", "trip-exc", "none"])
    if kind in ("inc", "both"):
        env["VFC_DDEBUG_INCLUDE"] = "inc.txt"
        files["inc.txt"] = gen_list(r, sites, pool)
    if kind in ("exc", "both"):
        env["VFC_DDEBUG_EXCLUDE"] = "exc.txt"
        files["exc.txt"] = gen_list(r, sites, pool)
    bad, end = "", "normal"
    if not kind.startswith("trip") and nt > 1 and r.random() < 0.3:  # one thread ends the program, the others are not stopped before
        end = "exit"
        t = r.randrange(nt)
        threads[t].insert(r.randint(0, len(threads[t])), "exit 0")
    bufsz = r.choice([0, 0, 16, 100])
    if files and r.random() < 0.4:
        f = r.choice(list(files))
        bad = r.choice(["missing", "dir", "garbage", "garbage", "open", "read", "read", "malloc", "gen"])
        if bad == "missing":
            del files[f]
        elif bad == "dir":
            del files[f]
            files[f + "/x"] = ""
        elif bad == "garbage":
            ls = files[f].split("\n")
            if ls[-1] == "":
                ls.pop()
            ls.insert(r.randint(0, len(ls)), r.choice(["xyz", "# comment", "??:0", "site at sim.c:3", "llvm-addr2line: error: no such file", "-", "::"]))
            files[f] = "\n".join(ls) + "\n"
        elif bad == "open":
            faults = [["open", r.randint(1, len(files)), r.choice([13, 24, 12])]]
        elif bad == "read":
            faults = [["read", r.choice([1, 1, 2, 3, 5, 9]), 0]]
        elif bad == "malloc":
            faults = [["malloc", r.randint(1, 40), 0]]
        elif bad == "gen":
            if "VFC_DDEBUG_INCLUDE" in env:
                env["VFC_DDEBUG_GEN"] = "gen.txt"
            else:
                bad = ""
    return {"prog": "prog_dd.so", "env": env, "threads": threads, "files": files, "faults": faults, "bad": bad, "kind": kind, "bufsz": bufsz, "end": end, "exitrun": end == "exit",
            "sched": rand_sched(r, 100)}


NO_FMA = " fma " not in open("/proc/cpuinfo").read()  # without the instruction the wrapper has no fused multiply-add of its own


def hx(v):
    return v if isinstance(v, str) else "%x" % v


def parse(data):
    s = set()
    for l in data.split("\n"):
        if l:
            s.add(int(l.split()[0].rstrip(":"), 16) + 5)
    return s


def verify(env, case, res, inc, exc):
    nops, open_ops = {}, 0
    for t, ops in enumerate(case["threads"]):
        for i, op in enumerate(ops):
            f = op.split()
            if f[0] != "site":
                continue
            k = int(f[1])
            a = env.sites[k]
            on = (exc is None or a not in exc) and (inc is None or a in inc)
            p, o, n = kind_of(k)
            v = [int(x, 16) for x in f[2:]]
            got = res.vals.get((t, i))
            if got is None and case["end"] == "exit":
                open_ops += n * on
                continue
            if got is None:
                return Violation("missing", "thread %d op %d did not complete" % (t, i))
            for l in range(n):
                x = v[l::n] + [0, 0]
                if on:
                    w = result(CODE[(p, o)], 0, x)
                    if got[l] != w:
                        return Violation("not-perturbed", "a selected site (%s) returned %s instead of the backend's %s" % (op[:60], hx(got[l]), hx(w)))
                else:
                    w = ieee.ref_cast(x[0]) if o == "cast" else ieee.ref_fma(p, *x[:3]) if o == "fma" else ieee.ref_bin(p, o, x[0], x[1])
                    if not ieee.same("f" if o == "cast" else p, got[l], w) and not (o == "fma" and NO_FMA):
                        return Violation("perturbed", "a site (%s) that is not selected returned %s instead of %s" % (op[:60], hx(got[l]), hx(w)))
            nops[on] = nops.get(on, 0) + n
    n = sum(1 for x in res.recs if x[2] == 4)
    if not nops.get(True, 0) <= n <= nops.get(True, 0) + open_ops:
        return Violation("count", "the backend saw %d operations, %d were selected" % (n, nops.get(True, 0)))
    return None


def check(env, case, stats, rec):
    stats.kind(case["kind"] + (" " + case["bad"] if case["bad"] else ""))
    if case["kind"].startswith("trip"):
        c = dict(case)
        c["env"] = dict(case["env"], VFC_DDEBUG_GEN="gen.txt")
        res = env.run(c)
        note_run(stats, rec, res)
        dig = rec["digest"]
        d = fault_free_died(res)
        if d:
            return Violation("died", d)
        v = verify(env, case, res, None, None)
        if v:
            return v
        inc = case["kind"] == "trip-inc"
        c = dict(case)
        c["files"] = {"list.txt": res.files.get("gen.txt", b"").decode("latin-1")}
        c["env"] = dict(case["env"], **{"VFC_DDEBUG_INCLUDE" if inc else "VFC_DDEBUG_EXCLUDE": "list.txt"})
        res = env.run(c)
        stats.saw(res)
        rec["digest"] = dig + res.digest()
        d = fault_free_died(res)
        if d:
            return Violation("died", d)
        n = sum(1 for x in res.recs if x[2] == 4)
        if n != (sum(kind_of(int(o.split()[1]))[2] for t in case["threads"] for o in t) if inc else 0):
            return Violation("round-trip", "with the generated list %d operations were perturbed" % n)
        return verify(env, case, res, None, None) if inc else None
    res = env.run(case)
    note_run(stats, rec, res)
    bad = case["bad"]
    if not res.ok:
        if res.kind == "exit" and res.code == 97:
            return Violation("hang", "no progress (%s)" % (res.fired,))
        if bad in ("missing", "dir", "garbage", "gen") or res.fired:
            if bad in ("missing", "dir", "garbage", "gen", "open", "read"):
                if res.vals or res.kind != "exit" or not res.err.strip():
                    return Violation("late-stop", "stopped with %s after %d operations, message %r" % (res.status(), len(res.vals), res.err[-80:]))
            return None
        return Violation("died", "ended with %s without a fault: %s" % (res.status(), res.err[-300:]))
    if bad in ("missing", "dir", "garbage", "gen"):
        return Violation("accepted", "the program ran with an unusable list (%s)" % bad)
    inc = parse(case["files"]["inc.txt"]) if "VFC_DDEBUG_INCLUDE" in case["env"] else None
    exc = parse(case["files"]["exc.txt"]) if "VFC_DDEBUG_EXCLUDE" in case["env"] else None
    v = verify(env, case, res, inc, exc)
    if v and res.fired:
        v.msg += " after %s" % (res.fired,)
    return v
