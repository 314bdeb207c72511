from vsim.csim import *

PROP = "P05"
LEVEL = "exploration"
RULE = ("one case = a chain of 1-16 recording backends implementing random subsets of the interface, 1-4 threads of operations, user calls, "
        "function scopes, library loads and unloads, and a seeded schedule; distinct by executed interleaving")
ASSUMPTIONS = ["lanes of a vector operation may be processed in any order", "an operation in flight in another thread while one thread calls "
               "exit may be applied partially", "function scopes are entered by one thread only"]
COMPONENTS = dict(COMPONENTS_C, real=["src/vfcwrapper (main.c.in, funcinstr.c)", "src/interflop-stdlib"],
                  stub=COMPONENTS_C["stub"] + ["backends: recording stand-ins (sim/stub.c)"])
BUDGET = {"quick": (30000, 30), "thorough": (400000, 600)}
MASK = (1 << 64) - 1
PRE, CLI, INIT, OP, UCALL, ENTER, EXITF, FINAL = range(1, 9)
CODE = {("f", "add"): 0, ("f", "sub"): 1, ("f", "mul"): 2, ("f", "div"): 3, ("d", "add"): 4, ("d", "sub"): 5, ("d", "mul"): 6,
        ("d", "div"): 7, ("f", "cmp"): 8, ("d", "cmp"): 9, ("d", "cast"): 10, ("f", "fma"): 11, ("d", "fma"): 12}


def mix(h, v):
    h = ((h ^ v) * 0x9E3779B97F4A7C15) & MASK
    return h ^ (h >> 29)


def hs(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) & MASK
    return h


def gen_func(r, depth=0):
    """a balanced sequence of enter/exit and operations"""
    o = []
    for _ in range(r.randint(1, 3)):
        name = r.choice(["f/1", "g/2", "fAa", "fBB", "main", "h/very/long/name/%d" % r.randint(0, 5)])
        lib, intr, uf, ud = r.choice([(0, 0, 1, 1), (0, 0, 1, 0), (0, 0, 0, 1), (1, 0, 1, 1), (0, 1, 0, 1), (0, 0, 0, 0)])

        def args():
            n = r.choice([0, 1, 1, 2, 3, 4])
            a = []
            for i in range(n):
                ty = r.choice([0, 1, 3, 4])
                sz = 0 if ty < 2 else r.choice([1, 2, 3, 5, -1])
                m = 1 if ty < 2 else max(sz, 0)
                a += [str(ty), "arg%d" % i, str(sz)] + ["%x" % (rand_double(r) if ty in (1, 4) else rand_float(r)) for _ in range(m)]
            return "%d %s" % (n, " ".join(a)) if n else "0"
        head = "%s %d %d %d %d" % (name, lib, intr, uf, ud)
        o.append(("enter " + head + " " + args()).strip())
        for _ in range(r.randint(0, 2)):
            o.append(any_op(r, cmp=True))
        if depth < 3 and r.random() < 0.5:
            o += gen_func(r, depth + 1)
        o.append(("exitf " + head + " " + args()).strip())
    return o


def gen(r, idx, ctx):
    nb = r.choice([1, 2, 2, 3, 4, 6, 16])
    full = r.randrange(nb)
    be = []
    for i in range(nb):
        m = (r.getrandbits(16) | (0x1fff if i == full else 0)) & 0xffff
        if r.random() < 0.3:
            m = 0xffff
        be.append([r.randint(0, 2), m, ["x%d" % r.randint(0, 99) for _ in range(r.choice([0, 0, 1, 2, 5]))]])
    func = r.random() < 0.35
    nt = 1 if func else r.choice([1, 2, 2, 3, 4])
    nops = r.choice([3, 6, 12])
    threads = []
    loaded = []
    for t in range(nt):
        if func:
            ops = gen_func(r)
        else:
            ops = [any_op(r, cmp=True) for _ in range(r.randint(1, nops))]
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            x = r.random()
            if x < 0.3:
                u = "uinexd %x %d" % (rand_double(r), r.randint(-30, 60))
            elif x < 0.5:
                u = "uinexf %x %d" % (rand_float(r), r.randint(-30, 30))
            elif x < 0.7:
                u = "%s %d" % (r.choice(["usp32", "usp64", "usr32", "usr64"]), r.randint(-5, 60))
            else:
                u = "ucust %d %d %x s%d" % (r.randint(100, 9999), r.randint(-9, 9), rand_double(r), r.randint(0, 99))
            ops.insert(r.randint(0, len(ops)), u)
        threads.append(ops)
    if r.random() < 0.45:
        full_name = "prog_full%d.so"
        for k in r.sample([2, 3], r.choice([1, 1, 2])):
            t = r.randrange(nt)
            if func:  # a library without function scopes next to a program with them
                pass
            i = r.randint(0, len(threads[t]))
            ins = ["dlopen %s %d" % (full_name % k, r.randint(0, 1))]
            threads[t][i:i] = ins
            j = r.randint(i + 1, len(threads[t]))
            if r.random() < 0.6:
                threads[t].insert(j, "libop %s %s %x %x" % (full_name % k, r.choice(["_doubleadd", "_doublemul"]), rand_double(r), rand_double(r)))
                j = r.randint(j + 1, len(threads[t]))
            if r.random() < 0.4:
                threads[t].insert(j, "dlclose " + full_name % k)
    end = "normal"
    if r.random() < 0.15:
        end = "exit"
        t = r.randrange(nt)
        threads[t].insert(r.randint(0, len(threads[t])), "exit %d" % r.choice([0, 3]))
    env = quiet_env(r)
    sep = r.choice([";", ";", ";;", " ; "])
    case = {"prog": "prog_func_full.so" if func else "prog_full.so", "be": be, "env": env, "threads": threads, "sched": rand_sched(r, 30 * nops * nb),
            "end": end, "fromfile": r.random() < 0.3}
    cfg = sep.join(" ".join(["libstub%d.so" % b[0], "--mask=%x" % b[1]] + b[2]) for b in be)
    if case["fromfile"]:
        case["files"] = {"conf.txt": cfg + r.choice(["", "\n"])}
        env["VFC_BACKENDS_FROM_FILE"] = "conf.txt"
    else:
        env["VFC_BACKENDS"] = cfg
    return case


MIN_OPS = False


def want(op):
    """(code bit, [per-lane operand tuple], result builder)"""
    f = op.split()
    prec, o, n = lanes(op)
    c = CODE[(prec, o)]
    if o == "cast":
        return c, [(int(f[1], 16), 0, 0)], n
    if o == "fma":
        return c, [tuple(int(x, 16) for x in f[1:4])], n
    if o == "cmp":
        v = [int(x, 16) for x in f[2:]]
        return c, [(int(f[1]), v[i], v[n + i]) for i in range(n)], n
    v = [int(x, 16) for x in f[1:]]
    return c, [(v[i], v[n + i], 0) for i in range(n)], n


def result(c, bid, a):
    ID = bid // 16
    if c in (8, 9):
        return mix(mix(mix(ID * 77 + c + 100 * a[0], bid), a[1]), a[2]) & 0x7FFFFFFF
    h = mix(ID * 77 + c, bid)
    for x in a[:1 if c == 10 else 3 if c >= 11 else 2]:
        h = mix(h, x)
    if c in (4, 5, 6, 7, 12):
        return 0x3FF0000000000000 | h >> 12
    return 0x3F800000 | h >> 41


def func_record(op, stack):
    f = op.split()
    name, lib, intr, uf, ud, n = f[1], *(int(x) for x in f[2:7])
    h = 7
    p = 7
    for _ in range(n):
        ty, aid, sz = int(f[p]), f[p + 1], int(f[p + 2])
        p += 3
        m = 1 if ty < 2 else max(sz, 0)
        v = [int(x, 16) for x in f[p:p + m]]
        p += m
        h = mix(mix(h, ty), hs(aid))
        h = mix(h, 4 if sz < 0 else sz)
        for x in v:
            h = mix(h, x)
    fl = lib | intr << 1 | uf << 2 | ud << 3
    return name, uf or ud, n, h, fl


def check(env, case, stats, rec):
    res = env.run(case)
    note_run(stats, rec, res)
    stats.kind(case["end"])
    code = 0
    for t in case["threads"]:
        for o in t:
            if o.startswith("exit "):
                code = int(o.split()[1])
    if case["end"] == "exit" and not (res.kind == "exit" and res.code == code):
        return Violation("died", "ended with %s instead of exit %d: %s" % (res.status(), code, res.err[-300:]))
    if case["end"] != "exit" and not res.ok:
        return Violation("died", "ended with %s: %s" % (res.status(), res.err[-300:]))
    # backend ids in chain order
    cnt, ids = {}, []
    for b in case["be"]:
        ids.append(b[0] * 16 + cnt.get(b[0], 0))
        cnt[b[0]] = cnt.get(b[0], 0) + 1
    mask = {i: b[1] for i, b in zip(ids, case["be"])}
    args = {i: ["--mask=%x" % b[1]] + b[2] for i, b in zip(ids, case["be"])}
    seen = {(i, e): [] for i in ids for e in (PRE, CLI, INIT, FINAL)}
    per_thread = {}
    firstop, lastop = None, -1
    for pos, (th, bk, ev, *a) in enumerate(res.recs):
        if bk not in mask:
            return Violation("unknown-backend", "event %d of backend %d" % (ev, bk))
        if ev in (PRE, CLI, INIT, FINAL):
            seen[(bk, ev)].append((pos, a))
        else:
            if firstop is None:
                firstop = pos
            per_thread.setdefault(th, []).append((pos, bk, ev, tuple(a)))
    for k, i in enumerate(ids):
        for e, nm in ((PRE, "pre-initialised"), (CLI, "configured"), (INIT, "initialised")):
            s = seen[(i, e)]
            if len(s) != 1:
                return Violation("lifecycle", "backend %d of the chain %s %d times" % (k, nm, len(s)))
            if firstop is not None and s[0][0] > firstop:
                return Violation("lifecycle", "backend %d %s after the first operation" % (k, nm))
        a = seen[(i, CLI)][0][1]
        h = 3
        for x in args[i]:
            h = mix(h, hs(x))
        if a[0] != len(args[i]) + 1 or a[1] != h or not a[2]:
            return Violation("arguments", "backend %d received other arguments than %s" % (k, args[i]))
        nf = 1 if mask[i] >> 15 & 1 else 0
        if len(seen[(i, FINAL)]) != nf:
            return Violation("finalize", "backend %d of the chain finalised %d times" % (k, len(seen[(i, FINAL)])))
    fin = min([seen[(i, FINAL)][0][0] for i in ids if seen[(i, FINAL)]] or [1 << 60])
    for t, ops in enumerate(case["threads"]):
        recs = per_thread.get(t, [])
        p = 0
        stack = []
        for i, op in enumerate(ops):
            nm = op.split()[0]
            done = (t, i) in res.vals
            if not done:
                if case["end"] != "exit":
                    return Violation("missing", "thread %d op %d did not complete" % (t, i))
                break
            if nm in ("exit", "dlopen", "dlclose", "nop"):
                if nm == "dlopen" and res.vals[(t, i)] != (1,):
                    return Violation("dlopen", res.err[-200:])
                continue
            val = res.vals[(t, i)]
            exp_val = None
            if nm in ("enter", "exitf"):
                name, on, n, h, fl = func_record(op, stack)
                if nm == "enter":
                    stack.append((name, fl))
                if on:
                    # flags of the first registration of that name are not part of the property
                    par = hs(stack[-2][0]) if len(stack) > 1 else 0
                    key = (hs(name), n, h, par)
                    got = recs[p:p + sum(1 for b in ids if mask[b] >> 13 & 1)]
                    exp = [(b, ENTER if nm == "enter" else EXITF, key) for b in ids if mask[b] >> 13 & 1]
                    if [(g[1], g[2], g[3][:4]) for g in got] != exp:
                        return Violation("function", "%s: backends saw %s, expected %s" % (op[:100], [(g[1], g[2], g[3]) for g in got], exp))
                    p += len(exp)
                if nm == "exitf":
                    stack.pop()
                continue
            if nm.startswith("u"):
                f = op.split()
                if nm in ("uinexf", "uinexd"):
                    a = (1, 0 if nm == "uinexf" else 1, int(f[1], 16), int(f[2]) & MASK)
                elif nm == "ucust":
                    a = (int(f[1]), int(f[2]) & MASK, int(f[3], 16), hs(f[4]))
                else:
                    a = ({"usp32": 2, "usp64": 3, "usr32": 4, "usr64": 5}[nm], int(f[1]) & MASK, 0, 0)
                exp = [(b, UCALL, a) for b in ids if mask[b] >> 14 & 1]
                got = recs[p:p + len(exp)]
                if [(g[1], g[2], g[3][:4]) for g in got] != exp:
                    return Violation("user-call", "%s: backends saw %s, expected %s" % (op, [(g[1], g[2], g[3]) for g in got], exp))
                p += len(exp)
                continue
            if nm == "libop":
                f = op.split()
                op2 = "d%s %s %s" % (f[2][7:], f[3], f[4])
            else:
                op2 = op
            c, keys, n = want(op2)
            impl = [b for b in ids if mask[b] >> c & 1]
            got = recs[p:p + n * len(impl)]
            p += len(got)
            if len(got) != n * len(impl):
                return Violation("count", "thread %d %s: %d applications instead of %d" % (t, op[:80], len(got), n * len(impl)))
            counts = {}
            for g in got:
                if g[2] != OP or g[3][0] != c or g[1] not in impl:
                    return Violation("dispatch", "thread %d %s: backend %d saw event %d %s" % (t, op[:80], g[1], g[2], g[3]))
                if g[0] > fin:
                    return Violation("finalize-early", "operation applied after finalisation")
                k = g[3][1:4]
                j = impl.index(g[1])
                counts[(j, k)] = counts.get((j, k), 0) + 1
                if j and counts[(j, k)] > counts.get((j - 1, k), 0):
                    return Violation("order", "thread %d %s: backend %d ran before backend %d" % (t, op[:80], impl[j], impl[j - 1]))
            for j in range(len(impl)):
                for k in set(keys):
                    if counts.get((j, k), 0) != keys.count(k):
                        return Violation("operands", "thread %d %s: backend %d saw operands %s" % (
                            t, op[:80], impl[j], [["%x" % y for y in x[3]] for x in got if x[1] == impl[j]]))
            exp = tuple(result(c, impl[-1], k) for k in keys)
            if val != exp:
                return Violation("result", "thread %d %s returned %s, the last backend computed %s" % (
                    t, op[:80], ["%x" % x for x in val], ["%x" % x for x in exp]))
        else:
            if p != len(recs):
                return Violation("extra", "thread %d: %d events no operation explains" % (t, len(recs) - p))
    return None
