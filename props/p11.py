from vsim.csim import *
from vsim.probes import *

PROP = "P11"
LEVEL = "fault_enumeration"
RULE = ("one case = 1-3 threads, each filling its own probe sets by 1-1800 registrations (names that collide in the table, prefixes, empty and long names, "
        "repeated pairs, names with the separator), counting, dumping and freeing them, under a seeded schedule, with up to one failing allocation; "
        "distinct by operation history and executed interleaving")
ASSUMPTIONS = ["names without line breaks", "a probe set is used by one thread", "death by a signal after a failed allocation counts as a failure status"]
COMPONENTS = {"real": ["src/common/vfc_probes.c", "src/interflop-stdlib/hashmap"], "stub": COMPONENTS_C["stub"]}
BUDGET = {"quick": (30000, 30), "thorough": (400000, 600)}


def gen(r, idx, ctx):
    nt = r.choice([1, 1, 2, 3])
    bad = r.choice(["none", "none", "dup", "dup", "comma", "malloc"])
    threads = []
    bt = r.randrange(nt)
    badop = None
    for t in range(nt):
        pool = [name(r, None) for _ in range(r.choice([0, 3, 8]))]
        ops = ["setenv VFC_PROBES_OUTPUT out0.csv"] if False else []
        nslot = r.choice([1, 1, 2])
        slots = [t * 2 + i for i in range(nslot)]
        state = {}
        for s in slots:
            ops.append("pinit %d" % s)
            state[s] = {}
        big = r.choice([250, 600, 1800]) if r.random() < 0.04 else 0  # several growths of the table
        for _ in range(big or r.choice([3, 8, 20, 80])):
            s = r.choice(slots)
            x = r.random() * (0.83 if big else 1)
            if x < 0.8:
                k = (name(r, pool), name(r, pool))
                if k in state[s]:
                    continue
                o, _ = probe_op(r, s, *k)
                state[s][k] = len(ops)
                ops.append(o)
            elif x < 0.95:
                ops.append("pnum %d" % s)
            elif x < 0.97:
                ops += ["pfree %d" % s, "pinit %d" % s]
                state[s] = {}
            elif nt == 1:
                ops += ["pdump %d" % s, "pinit %d" % s]
                state[s] = {}
        if t == bt and bad in ("dup", "comma"):
            c = [(s, k, i) for s in slots for k, i in state[s].items()]
            if bad == "dup" and c:
                s, k, i = r.choice(c)
                o = probe_op(r, s, *k)[0]
                j = r.randint(i + 1, len(ops))
                if any(q in ("pfree %d" % s, "pdump %d" % s) for q in ops[i:]):
                    j = i + 1
                ops.insert(j, o)
                badop = [t, j]
            else:
                s = r.choice(slots)
                a, b = name(r, pool), name(r, pool)
                p = r.randint(0, len(a))
                q = a[:p] + "," + a[p:]
                k = (q, b) if r.random() < 0.5 else (b, q)
                j = r.randint(nslot, len(ops))
                while ops[j - 1].startswith(("pfree", "pdump")):
                    j += 1
                ops.insert(j, probe_op(r, s, *k)[0])
                badop = [t, j]
        if nt == 1:
            ops += ["pnum %d" % slots[0], "pdump %d" % slots[0]]
        else:
            ops += ["pnum %d" % slots[0]]
        threads.append(ops)
    return {"prog": "prog_base.so", "env": {"VFC_BACKENDS": "libstub0.so", "VFC_BACKENDS_SILENT_LOAD": "True", "VFC_PROBES_OUTPUT": "out.csv"}, "threads": threads,
            "badop": badop, "faults": [["malloc", r.randint(1, 300), 0]] if bad == "malloc" else [], "sched": rand_sched(r, 300), "bad": bad}


MIN_OPS = False


def check(env, case, stats, rec):
    res = env.run(case)
    note_run(stats, rec, res)
    stats.distinct.add(str(case["threads"])[:3000])
    stats.kind(case["bad"])
    bo = case["badop"]
    if bo:
        if (bo[0], bo[1]) in res.vals:
            return Violation("accepted", "%s was accepted: %s" % ("a repeated pair" if case["bad"] == "dup" else "a name with a separator",
                                                                    case["threads"][bo[0]][bo[1]]))
        if res.ok:
            return Violation("accepted", "the program ended with success after a refused registration")
        if res.kind != "exit" or not res.err.strip():
            return Violation("crash", "refused with %s, message %r" % (res.status(), res.err[-100:]))
    elif not res.ok:
        if res.fired and not (res.kind == "exit" and res.code == 97):
            return None
        return Violation("died", "ended with %s: %s" % (res.status(), res.err[-200:]))
    for t, ops in enumerate(case["threads"]):
        model = {}
        for i, op in enumerate(ops):
            f = op.split()
            v = res.vals.get((t, i))
            if v is None:
                if bo and t == bo[0] and i < bo[1]:
                    return Violation("refused", "a valid registration before the faulty one was refused: %s" % op)
                break
            s = int(f[1])
            if f[0] == "pinit":
                model[s] = {}
            elif f[0] == "probe":
                if v[0]:
                    if res.fired:
                        continue
                    return Violation("refused", "%s returned %d" % (op, v[0]))
                k, w = row(op)
                model[s][k] = w
            elif f[0] == "pnum":
                if v[0] != len(model[s]):
                    return Violation("count", "%d probes reported after %d registrations" % (v[0], len(model[s])))
            elif f[0] == "pdump" and v[0] and not res.fired:
                return Violation("dump", "the dump failed")
        else:
            if ops[-1].startswith("pdump") and res.vals[(t, len(ops) - 1)][0] == 0:
                e = check_file(res.files.get("out.csv"), model[int(ops[-1].split()[1])])
                if e:
                    return Violation("disturbed", e + (" after %s" % (res.fired,) if res.fired else ""))
    return None
