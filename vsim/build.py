"""Builds the code under test from /repo's working tree for the C simulator."""
import os, re, subprocess, shutil, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(os.path.dirname(HERE), "sim")
CLANG = "/usr/lib/llvm-18/bin/clang"
if not os.path.exists(CLANG):
    CLANG = "/usr/bin/clang-18"


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout


BACK = {
    "ieee": ("ieee", ["interflop_ieee.c", "common/printf_specifier.c"], "libinterflop_ieee.so", []),
    "mca": ("mcaquad", ["interflop_mca.c"], "libinterflop_mca.so", ["-DRNG_THREAD_SAFE"]),
    "mca_int": ("mcaint", ["interflop_mca_int.c"], "libinterflop_mca_int.so", ["-DRNG_THREAD_SAFE"]),
    "bitmask": ("bitmask", ["interflop_bitmask.c"], "libinterflop_bitmask.so", ["-DRNG_THREAD_SAFE"]),
    "cancellation": ("cancellation", ["interflop_cancellation.c"], "libinterflop_cancellation.so", ["-DRNG_THREAD_SAFE"]),
    "vprec": ("vprec", ["interflop_vprec.c", "common/vprec_tools.c", "interflop_vprec_function_instrumentation.c"], "libinterflop_vprec.so", []),
}
PROGS = {
    "prog_base.so": [],
    "prog_full.so": ["-DINST_FCMP", "-DINST_FMA", "-DINST_CAST"],
    "prog_full2.so": ["-DINST_FCMP", "-DINST_FMA", "-DINST_CAST"],
    "prog_full3.so": ["-DINST_FCMP", "-DINST_FMA", "-DINST_CAST"],
    "prog_dd.so": ["-DDDEBUG", "-DINST_FMA", "-DINST_CAST"],
    "prog_dd2.so": ["-DDDEBUG", "-DINST_FMA", "-DINST_CAST"],
    "prog_func.so": ["-DINST_FUNC"],
    "prog_func_full.so": ["-DINST_FUNC", "-DINST_FCMP", "-DINST_FMA", "-DINST_CAST"],
}


def sources(d, lib, default):
    """the C files of a library, as its Makefile.am lists them"""
    try:
        t = open(os.path.join(d, "Makefile.am")).read().replace("\\\n", " ")
        m = re.search(r"^%s_la_SOURCES\s*=(.*)$" % re.escape(lib), t, re.M)
        l = [f for f in m.group(1).split() if f.endswith(".c") and os.path.exists(os.path.join(d, f))]
        return l if set(default) <= set(l) or all(not os.path.exists(os.path.join(d, f)) for f in set(default) - set(l)) else default
    except (OSError, AttributeError):
        return default


def build(out, tsan=True):
    """Compiles everything into directory `out`; returns it."""
    os.makedirs(out, exist_ok=True)
    inc = os.path.join(out, "inc", "interflop")
    os.makedirs(inc, exist_ok=True)
    std = os.path.join(REPO, "src/interflop-stdlib")
    for d in ("common", "fma", "hashmap", "iostream", "rng"):
        os.makedirs(os.path.join(inc, d), exist_ok=True)
        for f in os.listdir(os.path.join(std, d)):
            if f.endswith(".h"):
                shutil.copy(os.path.join(std, d, f), os.path.join(inc, d, f))
    for f in os.listdir(std):
        if f.endswith(".h"):
            shutil.copy(os.path.join(std, f), os.path.join(inc, f))
    for b, (d, srcs, so, fl) in BACK.items():
        bd = os.path.join(REPO, "src/backends/interflop-backend-" + d)
        for f in os.listdir(bd):
            if f.endswith(".h"):
                shutil.copy(os.path.join(bd, f), os.path.join(inc, f))
        cd = os.path.join(bd, "common")
        if os.path.isdir(cd):
            for f in os.listdir(cd):
                if f.endswith(".h"):
                    shutil.copy(os.path.join(cd, f), os.path.join(inc, "common", f))
    # the wrapper as the build assembles it
    wr = open(os.path.join(REPO, "src/vfcwrapper/main.c.in")).read().replace("@LLVM_BINDIR@", "/nonexistent/sim")
    wr += open(os.path.join(REPO, "src/vfcwrapper/funcinstr.c")).read()
    wpath = os.path.join(out, "vfcwrapper.c")
    open(wpath, "w").write(wr)
    sites = os.path.join(out, "sites.inc")
    open(sites, "w").write(_run(["python3", os.path.join(SIM, "gen_sites.py")]))

    base = ["-g", "-O2", "-fPIC", "-w", "-I" + os.path.join(out, "inc"), "-fno-omit-frame-pointer"]
    tsc = ["-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0"] if tsan else []
    tsg = ["-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"] if tsan else []
    objs = []  # (obj, cmd)
    links = []

    def obj(name, src, fl, cc="gcc"):
        o = os.path.join(out, name + ".o")
        objs.append([cc, "-c", *base, *(tsc if cc == CLANG else tsg), *fl, src, "-o", o])
        return o

    def lib(name, sub, files, fl=[]):
        d = os.path.join(std, sub).rstrip("/")
        return [obj("s_%s_%d" % (name, i), os.path.join(d, f), ["-I" + std, "-I" + d, *fl]) for i, f in enumerate(sources(d, "libinterflop_" + name, files))]

    sl = {
        "stdlib": lib("stdlib", "", ["interflop_stdlib.c"]),
        "hashmap": lib("hashmap", "hashmap", ["vfc_hashmap.c"]),
        "logger": lib("logger", "iostream", ["logger.c"], ["-D__INTERFLOP_BOOTSTRAP__"]),
        "fma": lib("fma", "fma", ["interflop_fma.c"], ["-DHAS_QUADMATH"]),
        "rng": lib("rng", "rng", ["splitmix64.c", "vfc_rng.c", "xoroshiro128.c"]),
    }
    L = ["-L" + out, "-Wl,-rpath," + out, "-Wl,--no-as-needed"]

    def link(so, os_, libs, stage):
        links.append((stage, ["gcc", "-shared", "-o", os.path.join(out, so), *os_, *L, *libs, "-lm"]))

    link("libinterflop_stdlib.so", sl["stdlib"], [], 0)
    link("libinterflop_logger.so", sl["logger"], ["-linterflop_stdlib"], 1)
    link("libinterflop_hashmap.so", sl["hashmap"], ["-linterflop_stdlib"], 1)
    link("libinterflop_fma.so", sl["fma"], ["-linterflop_stdlib", "-lquadmath"], 1)
    link("libinterflop_rng.so", sl["rng"], ["-linterflop_stdlib"], 1)
    alll = ["-linterflop_stdlib", "-linterflop_logger", "-linterflop_hashmap", "-linterflop_fma", "-linterflop_rng"]
    for b, (d, srcs, so, fl) in BACK.items():
        bd = os.path.join(REPO, "src/backends/interflop-backend-" + d)
        os_ = [obj(f"b_{b}_{i}", os.path.join(bd, s), fl + ["-I" + bd]) for i, s in enumerate(sources(bd, so[:-3], srcs))]
        link(so, os_, alll, 2)
    for i in range(3):
        link(f"libstub{i}.so", [obj(f"stub{i}", os.path.join(SIM, "stub.c"), [f"-DID={i}"])], ["-linterflop_stdlib"], 2)
    for k in ("PRE", "CLI", "INIT"):
        link("libno%s.so" % k.lower(), [obj("no" + k, os.path.join(SIM, "stub.c"), ["-DID=0", "-DNO_" + k])], ["-linterflop_stdlib"], 2)
    # a library that is not a backend, one that lacks functions
    open(os.path.join(out, "nob.c"), "w").write("int nothing_here;\n")
    link("libnotabackend.so", [obj("nob", os.path.join(out, "nob.c"), [])], ["-linterflop_stdlib"], 2)
    probes = obj("probes", os.path.join(REPO, "src/common/vfc_probes.c"), [])
    done = {}
    for p, fl in PROGS.items():
        key = tuple(fl)
        if key not in done:
            done[key] = obj("w_" + p[:-3], wpath, ["-O3", "-march=native"] + fl, CLANG)
        link(p, [done[key], probes], alll, 2)
    exe = os.path.join(out, "sim")
    simcmd = [CLANG, "-O2", "-g", "-w", "-march=native", "-no-pie", "-fno-pie", "-rdynamic", "-Wl,-z,now", "-pthread", "-I" + out,
              os.path.join(SIM, "sim.c"), "-o", exe, "-ldl", "-lm"]
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(_run, objs + [simcmd]))
        for st in (0, 1, 2):
            list(ex.map(_run, [c for s, c in links if s == st]))
    return out


if __name__ == "__main__":
    import sys, time
    t = time.time()
    build(sys.argv[1])
    print("built in %.1fs" % (time.time() - t))
