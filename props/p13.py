from vsim.vfi import *

PROP = "P13"
LEVEL = "exploration"
RULE = ("one case = a seeded program of instrumented calls writing its profile, optionally reloading a profile (as written by an earlier run, with "
        "changed settings, torn or malformed), ended normally, by exit or by a missing input, with failing opens, reads, writes, closes and "
        "allocations; the written profile is compared with a model; distinct by recorded history")
ASSUMPTIONS = ["functions run in one thread", "value ranges are compared only for arguments inside the int range", "a profile cut exactly between two "
               "functions is a shorter valid profile", "with several instances the last one writes the profile"]
COMPONENTS = COMPONENTS_C
BUDGET = {"quick": (30000, 30), "thorough": (300000, 600)}
MIN_OPS = False


def gen(r, idx, ctx):
    longs = r.random() < 0.15
    val = small if r.random() < 0.75 else rv
    many = r.random() < 0.06
    if many:  # enough call sites for the table to grow several times
        funcs, ops = program(r, val=val, size=10)
        head = ops[0]
        mid = []
        for i in range(r.choice([30, 60, 200])):
            f = mk_func(r, "src/%s%d.c/main/f/%d/%d" % (r.choice(["Aa", "BB", "m"]), i % 7, i, i), "fp")
            f["in"], f["out"] = f["in"][:1], []
            funcs.append(f)
            h = "%s %d %d %d %d" % (f["name"], *f["flags"])
            mid += ["enter %s %s" % (h, argstr(r, f["in"], val)), "exitf %s 0" % h] * r.choice([1, 1, 2])
        ops[1:1] = mid
    else:
        funcs, ops = program(r, val=val, longs=longs)
    cfg = {"mode": r.choice(["ieee", "full", "ib", "ob"]), "err": "rel", "abse": 0, "daz": False, "ftz": False,
           "inst": r.choice(["all", "operations", "arguments", "none"]), "cli": rand_ops_set(r)}
    c = {"prog": "prog_func.so", "cfg": cfg, "funcs": funcs, "threads": [ops], "order": [], "damage": None, "faults": [], "first": r.random() < 0.15,
         "twice": r.random() < 0.3}
    if r.random() < 0.5:
        pf = [f for f in funcs if (f["flags"][2] or f["flags"][3]) and r.random() < 0.7]
        for f in pf:
            give_settings(r, f)
            f["calls"] = r.choice([0, 1, r.randint(2, 1000)])
        c["order"] = [f["name"] for f in pf]
        r.shuffle(c["order"])
        if c["order"] and r.random() < 0.3:
            c["damage"] = [r.choice(["cut", "cut", "drop-line", "garbage", "number", "range", "extra", "missing-token", "missing", "empty-line", "comment"]), r.getrandbits(40)]
    if r.random() < 0.15:
        c["exit_at"] = r.randint(0, len(ops) - 1)
        c["exit_code"] = r.choice([0, 0, 3])
    if r.random() < 0.4:
        k = r.choice(["write", "write", "close", "open", "read", "read", "malloc"])
        n = r.choice([1, 1, 2, r.randint(1, 40)])
        a = {"write": r.choice([0, 1, r.randint(1, 4000), -1, -2]), "close": r.choice([28, 5]), "open": r.choice([2, 13, 24, 28]), "read": 0, "malloc": 0}[k]
        c["faults"] = [[k, n, a]]
    return c


def damage(txt, how, seed):
    """(text, must be refused) or (None, True) for a missing file"""
    r = random.Random(seed)
    ls = txt.split("\n")[:-1]
    i = r.randrange(len(ls))
    if how == "missing":
        return None, True
    if how == "cut":
        k = r.randint(0, len(txt) - 1)
        t = txt[:k]
        last = t.rsplit("\n", 1)[-1]
        return t, None if last else ("boundary" if k == 0 or is_boundary(ls, t.count("\n")) else True)
    if how == "drop-line":
        if ls[i].startswith(("input:", "output:")):
            return "\n".join(ls[:i] + ls[i + 1:]) + "\n", True
        if i + 1 < len(ls) and ls[i + 1].startswith(("input:", "output:")):
            return "\n".join(ls[:i] + ls[i + 1:]) + "\n", True
        return txt, False
    if how == "garbage":
        ls[i] = r.choice(["garbage", "\t".join("?" * 12), "x y z", "input:\ta"])
        return "\n".join(ls) + "\n", True
    if how == "comment":
        ls.insert(i, "# a")
        return "\n".join(ls) + "\n", None
    if how == "empty-line":
        ls.insert(r.randint(0, len(ls)), "")
        return "\n".join(ls) + "\n", None
    f = ls[i].split("\t")
    head = len(f) == 12
    if how == "number":
        f[r.choice([5, 6, 7, 8, 9, 10] if head else [2, 3, 4])] = r.choice(["", "abc", "1x", "4294967297", "-1", "99999999999999999999", "1.5"])
    elif how == "range":
        j = r.choice([5, 6, 7, 8] if head else [3, 4])
        f[j] = r.choice(["0", "-3", "53", "64", "100"])
    elif how == "extra":
        f += ["7"] * r.choice([1, 2, 30])
    else:
        del f[r.randrange(1, len(f))]
    ls[i] = "\t".join(f)
    return "\n".join(ls) + "\n", True


def is_boundary(ls, n):
    return n >= len(ls) or not ls[n].startswith(("input:", "output:"))


def scen(case, prof_text=None, out="out.txt"):
    cfg = case["cfg"]
    o = ["libinterflop_vprec.so"] + base_opts(cfg) + set_opts(cfg["cli"]) + ["--instrument=" + cfg["inst"], "--prec-output-file=" + out]
    files = {}
    if case["order"]:
        o.append("--prec-input-file=prof.txt")
        if prof_text is not None:
            files["prof.txt"] = prof_text
    be = " ".join(o)
    if case["first"]:
        be = "libinterflop_vprec.so --precision-binary64=5;" + be
    ops = list(case["threads"][0])
    if "exit_at" in case:
        ops = ops[:case["exit_at"]] + ["exit %d" % case["exit_code"]]
    return {"prog": case["prog"], "threads": [ops], "files": files, "faults": case["faults"],
            "env": {"VFC_BACKENDS": be, "VFC_BACKENDS_SILENT_LOAD": "True"}}


def model_profile(w, vals, start):
    """{name: (header fields, inputs, outputs)}; range None = not compared"""
    big = set()
    for i, kind, x, name in w.items:
        if kind != "args":
            continue
        for k, (d, v, s, inp, a, z) in enumerate(x):
            if a is None:
                continue
            b = vals[(0, i)][k]
            f = b2d(b) if d else b2f(b)
            if f != f or math.isinf(f):
                continue
            if abs(f) > 2**31 - 2:
                big.add(id(a))
                continue
            a[3] = min(a[3], math.floor(f))
            a[4] = max(a[4], math.ceil(f))
    out = {}
    for n, e in w.tab.items():
        out[n] = (tuple(e["flags"]), tuple(e["ops"]), e["n"],
                  [(a[0], a[1], tuple(a[2]), None if id(a) in big else (a[3], a[4])) for a in e["in"] or []],
                  [(a[0], a[1], tuple(a[2]), None if id(a) in big else (a[3], a[4])) for a in e["out"] or []])
    return out


def parse_profile(data):
    ls = data.decode("utf-8", "replace").split("\n")
    if ls[-1] != "":
        return None, "last line is torn: %r" % ls[-1][:60]
    ls = ls[:-1]
    out, p = {}, 0
    try:
        while p < len(ls):
            f = ls[p].split("\t")
            if len(f) != 12:
                return None, "line %r" % ls[p][:80]
            n = [int(x) for x in f[1:]]
            p += 1
            args = [[], []]
            for j, (cnt, key) in enumerate(((n[8], "input:"), (n[9], "output:"))):
                for _ in range(cnt):
                    g = ls[p].split("\t")
                    if len(g) != 7 or g[0] != key:
                        return None, "line %r" % ls[p][:80]
                    args[j].append((int(g[2]), g[1], (int(g[3]), int(g[4])), (int(g[5]), int(g[6]))))
                    p += 1
            if f[0] in out:
                return None, "%s is listed twice" % f[0]
            out[f[0]] = (tuple(n[:4]), tuple(n[4:8]), n[10], args[0], args[1])
    except (ValueError, IndexError) as e:
        return None, "malformed: %s" % e
    return out, None


def compare(got, exp):
    if set(got) != set(exp):
        return "sites %s missing, %s unexpected" % (sorted(set(exp) - set(got))[:3], sorted(set(got) - set(exp))[:3])
    for n, (fl, ops, calls, i, o) in exp.items():
        g = got[n]
        if (g[0], g[1]) != (fl, ops):
            return "%s has flags and settings %s instead of %s" % (n[-40:], g[:2], (fl, ops))
        if g[2] != calls:
            return "%s: %d calls instead of %d" % (n[-40:], g[2], calls)
        for k, ga, ea in (("input", g[3], i), ("output", g[4], o)):
            if len(ga) != len(ea):
                return "%s: %d %s arguments instead of %d" % (n[-40:], len(ga), k, len(ea))
            for x, y in zip(ga, ea):
                if x[:3] != y[:3] or y[3] is not None and x[3] != y[3]:
                    return "%s %s argument %s instead of %s" % (n[-40:], k, x, y)
    return None


def check(env, case, stats, rec):
    byname = {f["name"]: f for f in case["funcs"]}
    lines = [l for n in case["order"] for l in profile_entry(byname[n], byname[n].get("calls", 0))]
    txt = "\n".join(lines) + "\n" if lines else None
    refuse = False
    if case["damage"] and txt:
        txt, refuse = damage(txt, *case["damage"])
        stats.kind("damage " + case["damage"][0])
    s = scen(case, txt)
    res = env.run(s)
    note_run(stats, rec, res)
    ops = s["threads"][0]
    done = len(ops)
    code = 0
    if "exit_at" in case:
        done, code = len(ops) - 1, case["exit_code"]
        stats.kind("exit")
    out = res.files.get("out.txt")
    if res.kind == "livelock":
        return Violation("hang", res.err[-200:])
    ended = res.kind == "exit" and res.code == code
    if refuse is True:
        if ended and (code == 0 or res.vals):
            return Violation("accepted", "profile with %s accepted" % case["damage"][0])
        return None
    fired = bool(res.fired)
    if not ended:
        if fired or refuse in (None, "boundary"):
            return None
        return Violation("died", "ended with %s: %s" % (res.status(), res.err[-300:]))
    if refuse in (None, "boundary"):
        return None
    if code != 0 and fired:
        return None
    # success: everything was applied and the profile is complete
    w = Walk(dict(case["cfg"], cli=tuple(case["cfg"]["cli"])), case["funcs"] if txt else [dict(f, prof=None) for f in case["funcs"]], ops[:done])
    for i in range(done):
        if (0, i) not in res.vals:
            return Violation("missing", "op %d did not run" % i)
    if out is None:
        return Violation("no-profile", "the program succeeded and there is no profile")
    got, why = parse_profile(out)
    if got is None:
        return Violation("profile", "the program succeeded; the profile is torn: " + why)
    exp = model_profile(w, res.vals, None)
    why = compare(got, exp)
    if why:
        return Violation("profile", why)
    if case["twice"] and not case["faults"] and "exit_at" not in case:
        # reading back what was written: same settings, and the settings take effect
        c2 = copy.deepcopy(case)
        for f in c2["funcs"]:
            f["prof"] = None
        r2 = env.run(dict(scen(dict(c2, order=["x"]), out.decode())))
        stats.saw(r2)
        if not r2.ok:
            return Violation("reload", "the written profile is refused: %s %s" % (r2.status(), r2.err[-200:]))
        g2, why = parse_profile(r2.files.get("out.txt") or b"")
        if g2 is None:
            return Violation("reload", "profile of the second run: " + why)
        for n in exp:
            if n not in g2 or g2[n][:2] != got[n][:2] or [a[:3] for a in g2[n][3] + g2[n][4]] != [a[:3] for a in got[n][3] + got[n][4]]:
                return Violation("reload", "settings of %s changed by writing and reading" % n[-60:])
    return None
