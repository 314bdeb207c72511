import re
from vsim.csim import *

PROP = "P04"
LEVEL = "exploration"
RULE = ("one case = 1-6 threads of counted operations, 1-3 counting IEEE backends in a chain, a seeded schedule and one of three endings "
        "(normal, exit called by a thread, a second instrumented library loaded on the way); five cases execute more than 2^31 operations of one kind; distinct by executed interleaving")
ASSUMPTIONS = ["operations in flight in other threads when one thread calls exit may or may not be counted",
               "totals are read from the report on standard error"]
COMPONENTS = COMPONENTS_C
BUDGET = {"quick": (30000, 30), "thorough": (400000, 600)}
KINDS = ("mul", "div", "add", "sub", "fma")


LONG = 8  # case numbers LONG..LONG+4: more operations of one kind than 32 bits can count


def prepare(ctx):
    ctx["bdir"] = B.build(ctx["tmp"] + "/b")
    ctx["plain"] = B.build(ctx["tmp"] + "/plain", tsan=False)  # long histories of one thread need no schedule


class Env(Sim):
    def __init__(self, ctx):
        Sim.__init__(self, ctx["bdir"])
        self.dir2, self.plain = ctx["plain"], None

    def run(self, case):
        if not case.get("plain"):
            return Sim.run(self, case)
        self.plain = self.plain or Sim(self.dir2)
        return self.plain.run(case)

    def close(self):
        if self.plain:
            self.plain.close()
        Sim.close(self)


def open_env(ctx):
    return Env(ctx)


def gen_long(r, o):
    f = lambda p: " ".join(["3fc00000" if p == "f" else "3ff8000000000000"] * (3 if o == "fma" else 2))
    n = (1 << 31) + r.randint(1, 1000)
    k = r.randint(1000, n)
    return {"prog": "prog_full.so", "env": {**quiet_env(r), "VFC_BACKENDS": "libinterflop_ieee.so --count-op"}, "plain": True,
            "threads": [["bulk %d f%s %s" % (k, o, f("f")), "bulk %d d%s %s" % (n - k, o, f("d"))]], "sched": ["op", 1, 1, 0], "end": "normal", "ncnt": 1}


def gen(r, idx, ctx):
    if LONG <= idx < LONG + 5:
        return gen_long(r, KINDS[idx - LONG])
    nt = r.choice([1, 2, 2, 3, 4, 6])
    be = []
    ncnt = r.choice([1, 1, 1, 2, 3])
    for _ in range(ncnt):
        be.append("libinterflop_ieee.so --count-op" + r.choice(["", " --no-backend-name", " --print-new-line"]) + r.choice(["", "", "", "", " --debug", " --debug-binary"]))
    for _ in range(r.choice([0, 0, 1, 2])):
        be.insert(r.randint(0, len(be)), quiet_backend(r, ["vprec", "bitmask", "mca", "stub"]))
    if r.random() < 0.15:
        be.insert(r.randint(0, len(be)), "libinterflop_ieee.so")
    env = quiet_env(r)
    env["VFC_BACKENDS"] = ";".join(be)
    nops = r.choice([3, 6, 12, 30])
    threads = [[any_op(r, 0.1, cmp=True) for _ in range(r.randint(1, nops))] for _ in range(nt)]
    end = "normal"
    x = r.random()
    if r.random() < 0.01:  # many operations of one kind
        x, nt, nops, ncnt = 1, r.choice([1, 2]), 4000, 1
        env["VFC_BACKENDS"] = be[0] = "libinterflop_ieee.so --count-op"
        p, o = r.choice("fd"), r.choice(["mul", "div", "add", "sub"])
        threads = [["v16%s%s %s" % (p, o, " ".join(["3f800000" if p == "f" else "3ff0000000000000"] * 32))] * r.choice([2100 // nt + 10, 4200 // nt]) for _ in range(nt)]
    if x < 0.15:
        end = "exit"
        t = r.randrange(nt)
        threads[t].insert(r.randint(0, len(threads[t])), "exit 0")
    elif x < 0.3:
        t = r.randrange(nt)
        end = "dlopen"
        threads[t].insert(r.randint(0, len(threads[t])), "dlopen prog_full2.so %d" % r.randint(0, 1))
    return {"prog": "prog_full.so", "env": env, "threads": threads, "sched": rand_sched(r, 40 * nops), "end": end, "ncnt": ncnt,
            "clock": rand_clock(r), "tids": rand_tids(r, nt)}


def check(env, case, stats, rec):
    res = env.run(case)
    note_run(stats, rec, res)
    stats.kind("long" if case.get("plain") else case["end"])
    d = fault_free_died(res)
    if d:
        return Violation("died", d)
    lo = dict.fromkeys(KINDS, 0)
    hi = dict.fromkeys(KINDS, 0)
    for t, ops in enumerate(case["threads"]):
        for i, op in enumerate(ops):
            if op.split()[0] in ("exit", "dlopen"):
                continue
            if op.startswith("bulk"):
                n, o = int(op.split()[1]), op.split()[2][1:]
            else:
                p, o, n = lanes(op)
            done = (t, i) in res.vals
            if case["end"] != "exit" and not done:
                return Violation("missing", "thread %d op %d did not complete" % (t, i))
            if o in lo:
                if done:
                    lo[o] += n
                    hi[o] += n
                elif i == 0 or (t, i - 1) in res.vals:  # may be in flight
                    hi[o] += n
    reps = re.findall(r"operations count:\n\t mul=(-?\d+)\n\t div=(-?\d+)\n\t add=(-?\d+)\n\t sub=(-?\d+)\n\t fma=(-?\d+)\n", res.err)
    if len(reps) != case["ncnt"]:
        return Violation("reports", "%d count reports for %d counting backends" % (len(reps), case["ncnt"]))
    for rep in reps:
        for k, v in zip(KINDS, rep):
            if not lo[k] <= int(v) <= hi[k]:
                return Violation("count", "%s counted %s, executed %d%s" % (k, v, lo[k], "" if lo[k] == hi[k] else "..%d" % hi[k]))
    return None
