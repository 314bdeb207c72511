"""P20: the compiler driver reports any failed stage and cleans up."""
import copy, errno, hashlib, json, os
from vsim import psim
from vsim.core import Violation

PROP = "P20"
RULE = ("one case = 1-4 concurrent drivers in one directory (compile, assemble, link, bitcode, preprocess; shared sources, different options), stages that fail, "
        "are killed or cannot start, interrupts and storage errors at seeded points; every output is checked by what it was made from; distinct by recorded history")
LEVEL = "fault_enumeration"
ASSUMPTIONS = ["a stage that ends with status 0 wrote its output", "without -o, a compilation writes the source's name with the extension .o, next to the source",
               "two drivers are not asked for the same output, and drivers asked to save temporary files have sources of their own",
               "file names without spaces (other names fail visibly)"]
COMPONENTS = {"real": ["verificarlo.in.in (each driver a real Python process, real files)"],
              "stub": ["clang, opt, llvm-link (simulated processes recording what they read)", "placeholders of the configured script", "scheduler of drivers and stages"]}
BUDGET = {"quick": (100000, 25), "thorough": (10**7, 600)}
SRC = ["a.c", "b.c", "lib/c.c", "a.cpp", "d.cc", "e.s", "g.ll", "h.bc", "k.f90"]
FLAGS = {"--inst-fcmp": "-vfclibinst-inst-fcmp", "--inst-fma": "-vfclibinst-inst-fma", "--inst-cast": "-vfclibinst-inst-cast", "--verbose": "-vfclibinst-verbose"}
DEFS = {"--inst-fcmp": "-DINST_FCMP", "--inst-fma": "-DINST_FMA", "--inst-cast": "-DINST_CAST", "--inst-func": "-DINST_FUNC", "--ddebug": "-DDDEBUG"}


def prepare(ctx):
    psim.prepare(ctx)


def open_env(ctx):
    return psim.PSim(ctx, "driver")


def close_env(env):
    env.close()


def gen(r, idx, ctx):
    n = r.choice([1, 1, 1, 2, 2, 3, 4])
    ds, used = [], set()
    solo = 0
    for i in range(n):
        mode = r.choice(["link", "link", "link", "c", "c", "emit", "S", "E"])
        opts = [f for f in ("--inst-fcmp", "--inst-fma", "--inst-cast", "--inst-func", "--ddebug", "--verbose", "--static", "--show-cmd") if r.random() < 0.2]
        save = r.random() < 0.1
        srcs = r.sample(SRC, r.choice([1, 1, 2, 3]))
        if save:
            solo += 1
            srcs = ["own%d/%s" % (i, os.path.basename(s)) for s in srcs]
        o = None
        if mode == "link":
            o = r.choice(["prog%d" % i, "out/p%d" % i, None if "a.out" not in used else "q%d" % i])
            if o is None:
                used.add("a.out")
            if r.random() < 0.07:
                srcs = []
        else:
            if mode == "S":  # its default output is in the current directory
                srcs = srcs[:1]
            if len(srcs) == 1 and (r.random() < 0.6 or mode == "S"):
                o = "o%d.x" % i
            else:
                srcs = ["own%d/%s" % (i, os.path.basename(s)) for s in srcs]
                if len({os.path.splitext(s)[0] for s in srcs}) < len(srcs):
                    srcs = srcs[:1]
        if r.random() < 0.1:
            opts += ["--function", "f%d" % i]
        else:
            if r.random() < 0.1:
                opts += ["--include-file", "inc.txt"]
            if r.random() < 0.1:
                opts += ["--exclude-file", "exc.txt"]
        if r.random() < 0.2:
            opts += ["--linker", r.choice(["clang++", "flang", "clang"])]
        user = ["-DV=%d" % i] + [x for x in ("-O2", "-g", "-Wall", "-DX=\"a b\"", "-DC='x'", "-D$HOME", "-DY=a;b") if r.random() < 0.15]
        libs = [x for x in ("-lm", "-lfoo") if r.random() < 0.2]
        pre = ["pre.o"] if mode == "link" and (r.random() < 0.15 or not srcs) else []
        if save:
            opts.append("--save-temps")
        if r.random() < 0.3:
            user.append("-I inc" if r.random() < 0.5 else "-Iinc")
        argv = opts + (["-c"] if mode == "c" else ["--emit-llvm"] if mode == "emit" else ["-S"] if mode == "S" else ["-E"] if mode == "E" else [])
        rest = [[x] for x in srcs + libs + pre] + [x.split(" ") if x == "-I inc" else [x] for x in user] + ([["-o", o]] if o else [])
        r.shuffle(rest)
        argv = ["verificarlo"] + argv + [x for y in rest for x in y]
        d = {"argv": argv, "mode": mode, "srcs": [x for y in rest for x in y if x in srcs], "o": o, "opts": opts, "user": user, "libs": libs, "pre": pre, "save": save,
             "start": r.choice([0, 0, 0.01, 0.5, 2])}
        if r.random() < 0.45:
            k = str(r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 10, 12]))
            kind = r.choice(["early", "late", "late-remove", "signal", "spawn", "missing", "after"])
            f = {"kind": kind, "rc": r.choice([1, 1, 2, 254, -6, 134])}
            if kind == "signal":
                f["rc"] = r.choice([-9, -11, -15, 137, 139])
            if kind == "missing":
                f["rc"] = r.choice([127, 126])
            if kind == "spawn":
                f["errno"] = r.choice([errno.ENOMEM, errno.EAGAIN, errno.ENOENT])
            d["stages"] = {k: f}
        elif r.random() < 0.08:
            d["int"] = r.choice([1, 1, 2, 3, 4, 5, 6])
        elif r.random() < 0.2:
            if r.random() < 0.6:
                d["faults"] = [[r.randint(1, 30), 3, r.choice([errno.ENOSPC, errno.EIO, errno.EACCES, errno.EMFILE])]]
            else:
                d["faults"] = [[r.randint(1, 40), r.choice([0, 1]), 0]]
        ds.append(d)
    c = {"drivers": ds, "seed": r.getrandbits(30), "tmpnames": r.choice([0, 0, 4, 40]), "stale": r.random() < 0.3}
    return c


def srcname(case, s):
    return "%s@%d" % (s, case["seed"] % 1000)


def initial(case):
    t = {}
    for s in SRC:
        t[s] = "SRC " + srcname(case, s)
    for d in case["drivers"]:
        for s in d["srcs"]:
            t[s] = "SRC " + srcname(case, s)
        if d["o"] and "/" in d["o"]:
            t[os.path.dirname(d["o"]) + "/.keep"] = ""
    t["pre.o"] = json.dumps({"src": "pre"}) + "\n#END\n"
    t["inc.txt"] = "SRC inc"
    t["exc.txt"] = "SRC exc"
    t["inc/h.h"] = "SRC h"
    if case.get("stale"):  # what the user has there already
        own = {os.path.splitext(s)[0] + ".o" for d in case["drivers"] if d["mode"] != "link" for s in d["srcs"]}
        for f in ("a.o", "b.o", "lib/c.o", "d.o"):
            if f not in own:
                t[f] = json.dumps({"src": "the user's " + f}) + "\n#END\n"
        for d in case["drivers"]:
            if d["o"]:
                t[d["o"]] = json.dumps({"src": "old output"}) + "\n#END\n"
    return t


def outputs(d):
    if d["mode"] == "E":
        return {d["o"]: d["srcs"]} if d["o"] else {}
    if d["o"]:
        return {d["o"]: d["srcs"]}
    if d["mode"] == "link":
        return {"a.out": d["srcs"]}
    if d["mode"] == "S":
        return {os.path.splitext(os.path.basename(s))[0] + ".s": [s] for s in d["srcs"]}
    return {os.path.splitext(s)[0] + ".o": [s] for s in d["srcs"]}


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def wrapper(d, doc):
    need(doc.get("in") == [{"src": "vfcwrapper.c"}], "the wrapper was not compiled from its source: %s" % short(doc))
    for o, f in DEFS.items():
        need((f in doc["flags"]) == (o in d["opts"]), "the wrapper was compiled with wrong options %r" % doc["flags"])


def short(doc):
    s = json.dumps(doc)
    return s if len(s) < 300 else s[:300] + "..."


def userflags(d, doc):
    for u in d["user"]:
        need(u in doc["flags"], "option %r did not reach %s %r" % (u, doc["prog"], doc["flags"]))
    for f in doc["flags"]:
        need(not f.startswith("-DV=") or f in d["user"], "option %r of another compilation" % f)


def leaf(case, s):
    return {"src": srcname(case, s)}


def ir(case, d, s, doc):
    """instrumented code of source s"""
    need("passes" in "".join(doc.get("flags", [])) and any("vfclibinst" in f for f in doc["flags"]), "not instrumented: %s" % short(doc))
    for o, f in FLAGS.items():
        need((f in doc["flags"]) == (o in d["opts"]), "instrumented with wrong options %r" % doc["flags"])
    fs = doc.get("files", {})
    need("wrapper" in fs, "instrumented without the wrapper")
    wrapper(d, fs["wrapper"])
    fn = "--function" in d["opts"]
    need(any(f.startswith("-vfclibinst-function") for f in doc["flags"]) == fn, "function selection lost or invented")
    for o, k, v in (("--include-file", "incfile", "inc"), ("--exclude-file", "excfile", "exc")):
        need((fs.get(k) == {"src": v}) == (o in d["opts"]) and (k in fs) == (o in d["opts"]), "%s not honoured" % o)
    doc = doc["in"][0]
    if "--inst-func" in d["opts"]:
        need(any("vfclibfunc" in f for f in doc.get("flags", [])), "functions not instrumented")
        doc = doc["in"][0]
    need(doc.get("in") == [leaf(case, s)] and "-emit-llvm" in doc["flags"], "not made from %s: %s" % (s, short(doc)))
    userflags(d, doc)


def obj(case, d, s, doc):
    need("-c" in doc.get("flags", []), "not an object file of %s: %s" % (s, short(doc)))
    userflags(d, doc)
    if s.endswith(".s"):
        need(doc["in"] == [leaf(case, s)], "not made from %s" % s)
    else:
        ir(case, d, s, doc["in"][0])


def verify(case, d, name, srcs, doc):
    m = d["mode"]
    if m == "link":
        ins = list(doc.get("in", []))
        need(not {"-c", "-S"} & set(doc.get("flags", [])), "not linked: %s" % short(doc))
        w = [x for x in ins if x.get("in") == [{"src": "vfcwrapper.c"}]]
        need(len(w) == 1, "%d wrapper objects linked" % len(w))
        wrapper(d, w[0])
        ins.remove(w[0])
        for x in d["pre"]:
            need({"src": "pre"} in ins, "%s not linked" % x)
            ins.remove({"src": "pre"})
        need(len(ins) == len(srcs), "%d objects linked for the sources %r" % (len(ins), srcs))
        for s, x in zip(srcs, ins):
            obj(case, d, s, x)
        for l in d["libs"]:
            need(l in doc["flags"], "%s not linked" % l)
        userflags(d, doc)
        need(("-static" in doc["flags"]) == ("--static" in d["opts"]), "static linking")
        if "--ddebug" in d["opts"] or "--inst-func" in d["opts"]:
            need("-no-pie" in doc["flags"], "position independent executable")
    elif m == "c":
        obj(case, d, srcs[0], doc)
    elif m == "emit":
        if srcs[0].endswith(".s"):
            return obj(case, d, srcs[0], doc)
        need(doc.get("prog") == "llvm-link" and len(doc["in"]) == 2, "not linked with the wrapper: %s" % short(doc))
        ir(case, d, srcs[0], doc["in"][0])
        wrapper(d, doc["in"][1])
    else:
        need(doc.get("in") == [leaf(case, s) for s in srcs] and "-" + m in doc["flags"], "not made from %r: %s" % (srcs, short(doc)))
        userflags(d, doc)


def check(env, case, stats, rec):
    ps = env
    ps.clean()
    init = initial(case)
    for f, t in init.items():
        ps.put(f, t)
    s = ps.session(argv=["coordinator"], drivers=case["drivers"], seed=case["seed"], tmpnames=case["tmpnames"])
    rec["digest"] = psim.digest(s)
    psim.note(stats, s)
    if s.hang is not None:
        return Violation("hang", s.hang["why"])
    if s.end is None or s.end["rc"] or s.end["exc"]:
        raise RuntimeError("harness: " + s.status())
    tree = {k: v[1].decode("utf-8", "replace") for k, v in ps.tree().items() if v[0] == "file"}
    end = {e["i"]: e for e in s.evs("driver-end")}
    killed = {i for i, e in end.items() if e["said"] is None or e["rc"] != e["said"]["rc"]}
    owner, rcs = {}, {}
    for e in s.evs("stage"):
        owner[e["n"]] = e["i"]
    for e in s.evs("exit"):
        rcs[e["n"]] = e["rc"]
    failed = {owner[n] for n, rc in rcs.items() if rc and n in owner} | {e["i"] for e in s.evs("spawnfail")} | {e["i"] for e in s.evs("interrupt")}
    for e in s.evs("spawnfail"):
        stats.faults["stage-not-started"] = stats.faults.get("stage-not-started", 0) + 1
    for i, d in enumerate(case["drivers"]):
        f = next(iter(d.get("stages", {}).values()), None)
        if f and i in failed and f["kind"] != "spawn":
            stats.faults["stage-" + f["kind"]] = stats.faults.get("stage-" + f["kind"], 0) + 1
        if i in killed:
            stats.faults["driver-killed"] = stats.faults.get("driver-killed", 0) + 1
    for e in s.evs("interrupt"):
        stats.faults["interrupt"] = stats.faults.get("interrupt", 0) + 1
    allowed = set(init)
    for i, d in enumerate(case["drivers"]):
        if i in killed:
            continue
        e = end[i]
        who = "driver %d (%s)" % (i, " ".join(d["argv"]))
        outs = outputs(d)
        if i in failed and e["rc"] == 0:
            return Violation("failure-hidden", "%s ended with success although a stage failed" % who)
        if not d["srcs"] and not d["pre"] and e["rc"] == 0:
            return Violation("failure-hidden", "%s ended with success without input" % who)
        if i not in failed and e["rc"] and not d.get("faults") and not badargs(d):
            return Violation("fails", "%s failed although every stage succeeded: %s %s" % (who, e["said"]["exc"], e["said"]["err"][-300:]))
        allowed |= set(outs)
        if e["rc"] == 0:
            for name, srcs in outs.items():
                try:
                    need(name in tree, "it does not exist")
                    need(tree[name].endswith("\n#END\n"), "it is incomplete")
                    verify(case, d, name, srcs, json.loads(tree[name][:-6]))
                except Bad as b:
                    return Violation("output", "%s ended with success, but %s is wrong: %s" % (who, name, b))
        if d["save"]:
            st = [os.path.splitext(os.path.basename(x))[0] for x in d["srcs"]] + [".vfcwrapper"]
            allowed |= {k for k in tree if os.path.basename(k).split(".")[0] in st or os.path.basename(k).startswith(".vfcwrapper")}
    if not killed and not any(d.get("faults") for d in case["drivers"]):  # (a removal may be what fails)
        extra = sorted(set(tree) - allowed)
        if extra:
            return Violation("left", "files left behind: %r" % extra[:6])
    asked = {o for d in case["drivers"] for o in outputs(d)}
    for f, t in init.items():
        if f in asked:
            continue
        if tree.get(f) != t:
            return Violation("damaged", "%s %s, which no driver was asked to write" % ("removed" if f not in tree else "changed", f))
    return None


def badargs(d):
    """misuse the driver refuses"""
    return (d["mode"] in ("c", "S", "E", "emit") and len(d["srcs"]) > 1 and d["o"]) or not (d["srcs"] or d["pre"])


def variants(case):
    for i in range(len(case["drivers"])):
        if len(case["drivers"]) > 1:
            c = copy.deepcopy(case)
            del c["drivers"][i]
            yield c
    for i, d in enumerate(case["drivers"]):
        for k in ("stages", "int", "faults"):
            if k in d:
                c = copy.deepcopy(case)
                del c["drivers"][i][k]
                yield c
        for a in list(d["argv"]):
            c = copy.deepcopy(case)
            e = c["drivers"][i]
            if a in d["opts"] and not d["opts"][min(len(d["opts"]) - 1, d["opts"].index(a) + 1)] in ("inc.txt", "exc.txt", "clang", "clang++", "flang") and a not in ("--function", "--save-temps", "inc.txt", "exc.txt", "clang", "clang++", "flang") and a.startswith("--"):
                e["opts"].remove(a)
            elif a in d["user"] and a != "-I inc":
                e["user"].remove(a)
            elif a in d["libs"]:
                e["libs"].remove(a)
            elif a in d["srcs"] and len(d["srcs"]) > 1:
                e["srcs"].remove(a)
            else:
                continue
            e["argv"].remove(a)
            yield c
    if case["tmpnames"]:
        yield {**copy.deepcopy(case), "tmpnames": 0}
    if case["stale"]:
        yield {**copy.deepcopy(case), "stale": False}
