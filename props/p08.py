import re
from vsim.csim import *

PROP = "P08"
LEVEL = "fault_enumeration"
RULE = ("one case = 1-6 threads executing overlapping sets of 1-300 call sites (scalar, vector, fused multiply-add, cast) under a seeded schedule, an older list of any length in place, other child "
        "processes of the program, and up to two faults (fork, exec, wait, open, write, close, allocation); distinct by executed interleaving and fault points")
ASSUMPTIONS = ["a site is identified by the address printed for it", "sites in flight in other threads when one thread calls exit may or may not be listed",
               "death by a signal counts as failing visibly"]
COMPONENTS = dict(COMPONENTS_C, stub=COMPONENTS_C["stub"] + ["llvm-addr2line: prints the address and a fixed location", "one recording backend"])
BUDGET = {"quick": (30000, 30), "thorough": (300000, 600)}
LINE = re.compile(r"^(0x[0-9a-f]+): site at sim\.c:\d+$")


def prepare(ctx):
    from vsim import csim
    csim.prepare(ctx)
    out = subprocess.run([os.path.join(ctx["bdir"], "sim"), "--sites"], capture_output=True, text=True).stdout.split()
    ctx["sites"] = {int(out[i]): int(out[i + 1], 16) for i in range(0, len(out), 2)}


def open_env(ctx):
    e = Sim(ctx["bdir"])
    e.sites = ctx["sites"]
    return e


XK = [("d", "fma", 1), ("f", "fma", 1), ("d", "cast", 1)] + [(p, o, n) for n in (2, 4, 8, 16) for p in "df" for o in ("add", "sub", "mul", "div")]
NS, NX = 640, 4 * len(XK)  # scalar call sites; sites of fused multiply-adds, casts and vector operations


def kind_of(k):
    """(precision, operation, lanes) of a call site"""
    return XK[(k - NS) % len(XK)] if k >= NS else ("d" if (k & 7) < 4 else "f", ("add", "sub", "mul", "div")[k & 3], 1)


def site(r, k, special=0.1):
    p, o, n = kind_of(k)
    return "site %d %s" % (k, " ".join("%x" % (rand_double if p == "d" else rand_float)(r, special) for _ in range(n * {"fma": 3, "cast": 1}.get(o, 2))))


def draw_sites(r, n):
    """n call sites"""
    x = r.choice([0, 0, 0.2, 0.7])
    m = min(NX, sum(r.random() < x for _ in range(n)))
    return r.sample(range(NS), n - m) + r.sample(range(NS, NS + NX), m)


def gen(r, idx, ctx):
    nt = r.choice([1, 2, 2, 3, 4, 6])
    pool = draw_sites(r, r.choice([1, 2, 5, 8, 9, 20, 60, 300]))
    threads = []
    m = r.choice([2, 5, 12, 40])
    for t in range(nt):
        threads.append([site(r, r.choice(pool)) for _ in range(r.randint(1, m))])
    if r.random() < 0.2:
        threads[0] = [site(r, k) for k in pool] + threads[0]
    kids = 0
    if r.random() < 0.3:
        for _ in range(r.choice([1, 1, 3])):
            t = r.randrange(nt)
            threads[t].insert(r.randint(0, len(threads[t])), "kid %d %d" % (r.choice([0, 0, 256, 9]), r.randint(0, 1)))
    end = "normal"
    if r.random() < 0.15:
        end = "exit"
        t = r.randrange(nt)
        threads[t].insert(r.randint(0, len(threads[t])), "exit 0")
    exitrun = end == "exit" and r.random() < 0.7  # the other threads are not stopped before the process ends
    env = quiet_env(r)
    env["VFC_BACKENDS"] = "libstub0.so --mask=ffff"
    env["VFC_DDEBUG_GEN"] = "gen.txt"
    case = {"prog": "prog_dd.so", "env": env, "threads": threads, "sched": rand_sched(r, 20 * m), "end": end, "faults": [], "files": {}, "exitrun": exitrun,
            "kids": r.getrandbits(40)}
    x = r.random()
    if x < 0.4:
        old = "".join("0x%x: site at sim.c:%d\n" % (r.randint(0x400000, 0x600000), 7) for _ in range(r.choice([1, 3, 30, 400])))
        case["files"]["gen.txt"] = old[:r.randint(1, len(old))] if r.random() < 0.3 else old
    if r.random() < 0.1 and end == "normal":  # every site is outside an exclusion list
        env["VFC_DDEBUG_EXCLUDE"] = "excl.txt"
        case["files"]["excl.txt"] = "0x1234567\n"
    if r.random() < 0.5:
        for _ in range(r.choice([1, 1, 2])):
            k = r.choice(["fork", "wait", "exec", "exec", "open", "write", "write", "close", "malloc"])
            n = r.choice([1, 1, 2, 3, 5, 8, 20, r.randint(1, 60)])
            arg = {"exec": r.randint(0, 3), "open": r.choice([13, 28, 24]), "write": r.choice([0, 1, 7, 30, -1]), "close": r.choice([5, 28])}.get(k, 0)
            case["faults"].append([k, n, arg])
    return case


def check(env, case, stats, rec):
    res = env.run(case)
    note_run(stats, rec, res)
    stats.kind(case["end"] + (" fault" if res.fired else ""))
    if not res.ok:
        if res.kind == "exit" and res.code == 97:
            return Violation("hang", "no progress (%s)" % (res.fired,))
        if res.fired:
            return None
        return Violation("died", "ended with %s without a fault: %s" % (res.status(), res.err[-300:]))
    must, may = set(), set()
    for t, ops in enumerate(case["threads"]):
        for i, op in enumerate(ops):
            f = op.split()
            if f[0] == "site":
                a = env.sites[int(f[1])] - 5
                may.add(a)
                if (t, i) in res.vals:
                    must.add(a)
                elif case["end"] != "exit":
                    return Violation("missing", "thread %d op %d did not complete" % (t, i))
    data = res.files.get("gen.txt")
    if data is None:
        return Violation("no-list", "the program ended with success and left no list (%s)" % (res.fired,))
    got = []
    for l in data.decode("latin-1").split("\n")[:-1]:
        m = LINE.match(l)
        if not m:
            return Violation("garbage", "line %r in the list (%s)" % (l[:60], res.fired))
        got.append(int(m.group(1), 16))
    if data and not data.endswith(b"\n"):
        return Violation("torn", "the list ends in the middle of a line (%s)" % (res.fired,))
    if len(set(got)) != len(got):
        return Violation("twice", "%d sites are listed more than once" % (len(got) - len(set(got))))
    if not must <= set(got):
        return Violation("lost", "%d of %d executed sites are not listed (faults %s)" % (len(must - set(got)), len(must), res.fired))
    if not set(got) <= may:
        return Violation("extra", "%d listed sites were not executed" % len(set(got) - may))
    return None
