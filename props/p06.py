from vsim.csim import *
from props.p05 import hs, mix, CODE

PROP = "P06"
LEVEL = "fault_enumeration"
RULE = ("one case = a chain of 1-5 valid backends, one configuration defect (or one I/O, allocation or library fault, or none) at a random position, "
        "logger settings and 1-3 threads of operations; distinct by defect, fault point and executed steps")
ASSUMPTIONS = ["the configuration file holds one line", "death by a signal after a failed allocation counts as stopping the program",
               "a file that is shorter than it was is a different configuration, not a read failure"]
COMPONENTS = dict(COMPONENTS_C, stub=COMPONENTS_C["stub"] + ["some backends of the chain: recording stand-ins (sim/stub.c)"])
BUDGET = {"quick": (30000, 30), "thorough": (600000, 600)}
MIN_OPS = False

# option -> values the documentation rules out
GARBAGE = ["", "x", "1x", "0x1g", "--", "1.5.2", "ten", "+-3", "99999999999999999999999"]
BAD = {
    "libinterflop_mca.so": {"--precision-binary32": ["0", "-1", "-23", "4294967306"], "--precision-binary64": ["0", "-5", "4294967306"],
                            "--mode": None, "--error-mode": None, "--max-abs-error-exponent": [], "--seed": [],
                            "--sparsity": ["0", "-0.5", "nan"]},
    "libinterflop_mca_int.so": {"--precision-binary32": ["0", "-1", "12", "4294967320"], "--precision-binary64": ["0", "10", "52", "4294967349"],
                                "--mode": None, "--seed": [], "--sparsity": ["0", "-0.5", "nan", "1.5"]},
    "libinterflop_bitmask.so": {"--precision-binary32": ["0", "-1", "4294967306"], "--precision-binary64": ["0", "-5", "4294967306"],
                                "--mode": None, "--operator": None, "--seed": []},
    "libinterflop_cancellation.so": {"--tolerance": ["-1", "4294967297"], "--seed": []},
    "libinterflop_vprec.so": {"--precision-binary32": ["0", "-1", "24", "100", "4294967306"], "--precision-binary64": ["0", "-5", "53", "4294967306"],
                              "--range-binary32": ["0", "1", "9", "-2", "4294967300"], "--range-binary64": ["0", "1", "12", "-2", "4294967300"],
                              "--mode": None, "--error-mode": None, "--max-abs-error-exponent": [], "--preset": None, "--instrument": None},
    "libinterflop_ieee.so": {},
}
WORDS = ["", "foo", "iee", "ieeee", "mca2", "full,", "0", "rels", "binary", "binary17", "allll", "zeros", "rnd"]
LOGENV = [{}, {"VFC_BACKENDS_LOGGER": "False"}, {"VFC_BACKENDS_LOGGER": "True"}, {"VFC_BACKENDS_LOGGER_LEVEL": "error"},
          {"VFC_BACKENDS_LOGGER": "False", "VFC_BACKENDS_LOGGER_LEVEL": "error"}, {"VFC_BACKENDS_SILENT_LOAD": "True"},
          {"VFC_BACKENDS_LOGFILE": "log.txt"}, {"VFC_BACKENDS_COLORED_LOGGER": "True"},
          {"VFC_BACKENDS_LOGFILE": "log.txt", "VFC_BACKENDS_LOGGER": "False", "VFC_BACKENDS_SILENT_LOAD": "true"}]


def good_backend(r):
    x = r.random()
    if x < 0.5:
        return "libstub%d.so --mask=ffff%s" % (r.randint(0, 2), "".join(" a%d" % i for i in range(r.choice([0, 0, 1, 3]))))
    return quiet_backend(r, ["ieee", "vprec", "bitmask", "mca", "mca_int"]).replace(" --debug-binary", "").replace(" --debug", "")


def gen(r, idx, ctx):
    env = dict(r.choice(LOGENV))
    n = r.choice([1, 1, 2, 3, 5])
    be = [good_backend(r) for _ in range(n)]
    pos = r.randrange(n)
    prog = r.choice(["prog_base.so", "prog_full.so", "prog_func.so", "prog_dd.so"])
    threads = [[op_bin(r) for _ in range(r.randint(1, 3))] for _ in range(r.choice([1, 1, 2, 3]))]
    files, faults, expect = {}, [], "fail"
    src = r.choice(["env", "env", "file"])
    what = r.choice(["none", "empty", "lib", "libfile", "many", "args", "value", "value", "value", "word", "unknown", "noarg", "stray",
                     "noimpl", "file", "logfile", "fault-open", "fault-read", "fault-read", "fault-malloc", "fault-malloc", "good", "good", "seed"])
    det = ""
    cfg = None
    if what == "none":
        src = "none"
    elif what == "empty":
        cfg = r.choice([";", ";;;", " ", " ; ", "  ;;  ", "" if src == "env" else "\n"])
    elif what == "lib":
        det = r.choice(["libdoesnotexist.so", "libnotabackend.so", "./", "/", "libinterflop_ieee.so.1", "libno/such.so", "libstub0", "--mode=ieee",
                        "libnopre.so", "libnocli.so", "libnoinit.so"])
        be.insert(pos, det)
    elif what == "libfile":
        k = r.randint(0, 60)
        files["bad.so"] = (b"\x7fELF\2\1\1" + bytes(80))[:k].decode("latin-1")
        be.insert(pos, "./bad.so")
        det = str(k)
    elif what == "many":
        be = ["libstub%d.so --mask=ffff" % r.randint(0, 2) for _ in range(r.randint(17, 40))]
        expect = "honour"
    elif what == "args":
        k = r.choice([200, 252, 253, 254, 255, 256, 257, 300, 1000])
        be = ["libstub0.so --mask=ffff " + " ".join("y%d" % i for i in range(k))]
        for _ in range(r.choice([0, 0, 1])):
            be.insert(r.randint(0, 1), "libstub1.so --mask=ffff")
        expect = "honour"
        det = str(k)
    elif what in ("value", "word"):
        lib = r.choice([b for b in BAD if BAD[b]])
        opt = r.choice([o for o in BAD[lib] if (BAD[lib][o] is None) == (what == "word")] or list(BAD[lib]))
        bad = WORDS if BAD[lib][opt] is None else BAD[lib][opt] + [g for g in GARBAGE if not (opt == "--sparsity" and g[0:2] == "99")] * (1 if r.random() < 0.5 or not BAD[lib][opt] else 0)
        v = r.choice(bad)
        o = ["%s=%s" % (opt, v)] if r.random() < 0.7 or not v or v[0] == "-" else [opt, v]
        det = "%s %s" % (lib, " ".join(o))
        be[pos] = lib + " " + " ".join(o)
    elif what == "unknown":
        lib = r.choice(list(BAD))
        det = lib + " " + r.choice(["--no-such-option", "-Z", "--no-such=3", "--precisionbinary32=10", "--xprecision-binary32=3"])
        be[pos] = det
    elif what == "noarg":
        lib = r.choice([b for b in BAD if BAD[b]])
        det = lib + " " + r.choice(list(BAD[lib]))
        be[pos] = det
    elif what == "stray":
        lib = r.choice(list(BAD))
        det = lib + " " + r.choice(["foo", "ieee", "10", "=", "libinterflop_ieee.so"])
        be[pos] = det
    elif what == "noimpl":
        full = prog == "prog_full.so"
        c = r.randrange(13 if full else 8)
        be = ["libstub%d.so --mask=%x" % (r.randint(0, 2), 0xffff & ~(1 << c)) for _ in range(n)]
        det = "%s %d" % (prog, c)
    elif what == "file":
        src = "file"
        det = r.choice(["missing", "dir", "empty", "nodir", "emptyname"])
    elif what == "logfile":
        det = r.choice(["nodir/log", "/proc/nodir/log", "nodir/nodir/"])
        env["VFC_BACKENDS_LOGFILE"] = det
    elif what == "seed":  # two seeds, two streams
        expect = "honour"
        nm, b = rnd_backend(r, seed=0, noisy=True)
        s1 = r.choice([0, 1, r.getrandbits(20), r.getrandbits(62)])
        s2 = s1 ^ 1 << r.choice([r.randint(0, 61), r.randint(0, 61), r.randint(31, 61)])
        det = "%d %d" % (s1, s2)
        prog, src = "prog_base.so", r.choice(["env", "file"])
        be = [b.replace("--seed=0", "--seed=%d" % s1)]
        threads = [[noisy_op(r, nm) for _ in range(24)]]
    elif what.startswith("fault"):
        expect = "same"
        if what == "fault-read":
            src = "file"
            faults = [["read", r.choice([1, 1, 1, 2, 3, 6]), 0]]
        elif what == "fault-open":
            src = r.choice(["file", "env"])
            if src == "env":
                env["VFC_BACKENDS_LOGFILE"] = "log.txt"
            faults = [["open", r.choice([1, 1, 2, 3]), r.choice([2, 13, 24, 5])]]
        else:
            faults = [["malloc", r.randint(1, 60), 0]]
            if r.random() < 0.3:
                faults.append(["malloc", r.randint(1, 80), 0])
        if "stub" not in "".join(be):
            be.insert(r.randint(0, len(be)), "libstub%d.so --mask=ffff q" % r.randint(0, 2))
    else:
        expect = "honour"
    if prog == "prog_full.so" and what != "noimpl" and not any("ieee.so" in b or "stub" in b for b in be):
        be.append("libstub2.so --mask=ffff")
    if cfg is None:
        cfg = r.choice([";", ";", " ;", "; "]).join(be)
        if r.random() < 0.1:
            cfg += ";"
    case = {"prog": prog, "env": env, "threads": threads, "files": files, "faults": faults, "expect": expect, "what": what, "det": det, "be": be,
            "sched": ["serial", 1, 1, 0]}
    if src == "env":
        env["VFC_BACKENDS"] = cfg
    elif src == "file":
        case["bufsz"] = r.choice([0, 0, 16, 64, 5])
        name = "conf.txt"
        if det == "missing":
            name = "other.txt"
        elif det == "dir":
            name = "d"
            files["d/x"] = cfg
        elif det == "nodir":
            name = "nodir/conf.txt"
        elif det == "emptyname":
            name = ""
        files["conf.txt"] = "" if det == "empty" and what == "file" else cfg + r.choice(["", "\n"])
        env["VFC_BACKENDS_FROM_FILE"] = name
    return case


def describe(c):
    return {k: c[k] for k in ("what", "det", "env", "be", "expect", "faults")} if len(str(c["be"])) < 3000 else {"what": c["what"], "det": c["det"]}


def honoured(case, res):
    """every stub of the chain configured with its own arguments, and every operation seen by each of them"""
    cnt, seen = {}, []
    for b in case["be"]:
        a = b.split()
        if a[0].startswith("libstub"):
            i = int(a[0][7])
            seen.append((i * 16 + cnt.get(i, 0), a))
            cnt[i] = cnt.get(i, 0) + 1
    cli = [(x[1], x[3:6]) for x in res.recs if x[2] == 2]
    exp = []
    for i, a in seen:
        h = 3
        for x in a[1:]:
            h = mix(h, hs(x))
        exp.append((i, (len(a), h, 1)))
    if [(c[0], tuple(c[1])) for c in cli] != exp:
        return "backends configured: %s instead of %s" % (cli, exp)
    n = sum(len(t) for t in case["threads"])
    for i, a in seen:
        k = sum(1 for x in res.recs if x[1] == i and x[2] == 4)
        if k != n:
            return "backend %s saw %d of %d operations" % (" ".join(a)[:80], k, n)
    return None


def check(env, case, stats, rec):
    res = env.run(case)
    note_run(stats, rec, res)
    stats.kind(case["what"])
    fired = bool(res.fired)
    ex = case["expect"]
    what = "%s %s" % (case["what"], case["det"])
    ran = bool(res.vals) or any(x[2] == 4 for x in res.recs)
    if res.ok:
        if ex == "fail":
            return Violation("accepted", "the program ran with a faulty configuration (%s): %s" % (what, str(case["env"])[:300]))
        if any((t, i) not in res.vals for t, o in enumerate(case["threads"]) for i in range(len(o))):
            return Violation("silent", "the program ended with success without running (%s, %s)" % (what, res.fired))
        h = honoured(case, res)
        if h:
            return Violation("not-honoured", "(%s, %s) %s" % (what, res.fired, h))
        if case["what"] == "seed":
            a, b = case["det"].split()
            c = copy.deepcopy(case)
            for d, k in ((c["env"], "VFC_BACKENDS"), (c["files"], "conf.txt")):
                if k in d:
                    d[k] = d[k].replace("--seed=" + a, "--seed=" + b)
            ref = env.run(c)
            stats.saw(ref)
            if ref.ok and ref.vals == res.vals:
                return Violation("other-seed", "seeds %s and %s give the same perturbations: %s" % (a, b, str(case["env"])[:200]))
            rec["digest"] += ref.digest()
        if ex == "same" and fired:
            c = dict(case)
            c["faults"] = []
            ref = env.run(c)
            stats.saw(ref)
            if ref.vals != res.vals:
                return Violation("other-results", "after %s the results changed" % (res.fired,))
            rec["digest"] += ref.digest()
        return None
    if ex == "same" and not fired or ex == "honour" and case["what"] == "good":
        return Violation("rejected", "a valid configuration was refused (%s): %s %s" % (what, res.status(), res.err[-300:]))
    if ex == "honour" and case["what"] in ("many", "args") and len(case["be"]) <= 16 and max(len(b.split()) for b in case["be"]) <= 200:
        return Violation("rejected", "a valid configuration was refused (%s): %s %s" % (what, res.status(), res.err[-300:]))
    alloc = any(k == "malloc" for k, _ in res.fired)
    if ran and not (ex == "same" and alloc):
        # an allocation may also fail later; everything else is read before the first operation
        return Violation("ran-first", "operations ran before the failure (%s)" % what)
    if res.kind == "exit" and res.code == 97:
        return Violation("hang", "no end after %s %s" % (what, res.fired))
    if not alloc:
        if res.kind != "exit":
            return Violation("crash", "died with %s instead of reporting the faulty configuration (%s) %s" % (res.status(), what, res.fired))
        if not res.err.strip():
            return Violation("mute", "no message on standard error (%s)" % what)
    return None
