"""verificarlo (the compiler driver): 1-4 concurrent drivers in one directory, each a real forked
Python process executing the real script; one of them runs at a time.  The stages they start (clang,
opt, llvm-link) are simulated processes whose outputs record what they were made from."""
import ctypes, errno, io, json, os, random, re, shlex, socket, sys, traceback, types
import world

_fork, _exit, _waitpid = os.fork, os._exit, os.waitpid
code = None
END = "\n#END\n"
SUBST = {"@PACKAGE_STRING@": "verificarlo sim", "%LIBDIR%": "/sim/lib", "@INTERFLOP_PREFIX@": "/sim/ifl", "@INTERFLOP_INCLUDEDIR@": "/sim/ifl/include",
         "@INTERFLOP_LIBDIR@": "/sim/ifl/lib", "%INCLUDEDIR%": "/sim/include", "@LLVM_BINDIR@": "/sim/bin", "@LLVM_VERSION_MAJOR@": "18",
         "@CLANG_PATH@": "/sim/bin/clang", "@CLANGXX_PATH@": "/sim/bin/clang++", "@LLVM_LINK_PATH@": "/sim/bin/llvm-link",
         "@FLANG_PATH@": "/sim/bin/flang", "@MARCH_FLAG@": "-march=native"}


def load(repo):
    global code
    s = open(os.path.join(repo, "verificarlo.in.in")).read()
    for k, v in SUBST.items():
        s = s.replace(k, v)
    left = re.findall(r"[@%][A-Z_]{3,}[@%]", s)
    if left:
        s = re.sub(r"[@%][A-Z_]{3,}[@%]", "sim", s)
    code = compile(s, "/sim/bin/verificarlo", "exec")
    import argparse, tempfile, subprocess, shlex, shutil, atexit, weakref, gc  # noqa: what the script may import


# ---------------------------------------------------------------- stages
VALUED = {"-o", "-I", "-L", "-rpath", "-load-pass-plugin", "-load", "-vfclibinst-function", "-vfclibinst-include-file", "-vfclibinst-exclude-file",
          "-vfclibinst-vfcwrapper-file", "-x", "-include", "-MF", "-isystem", "-D", "-U", "-Xlinker"}
FILES = {"-vfclibinst-include-file": "incfile", "-vfclibinst-exclude-file": "excfile", "-vfclibinst-vfcwrapper-file": "wrapper"}


class Err(Exception):
    pass


def content(path, cwd):
    if os.path.basename(path) == "vfcwrapper.c" and not os.path.exists(os.path.join(cwd, path)):
        return {"src": "vfcwrapper.c"}
    try:
        with open(os.path.join(cwd, path)) as f:
            s = f.read()
    except OSError as e:
        raise Err("%s: %s" % (path, e.strerror))
    if s.startswith("SRC "):
        return {"src": s[4:].strip()}
    if s.endswith(END):
        return json.loads(s[:-len(END)])
    if s == "" and path.endswith(".ll"):
        return {"src": "EMPTY"}
    raise Err("%s: not a valid file" % path)


def one(p, toks, flt):
    """one tool: yields its steps, returns its status"""
    rng, cwd = p.rng, p.cwd
    prog = os.path.basename(toks[0])
    if not toks[0].startswith("/sim/bin/") or prog not in ("clang", "clang++", "flang", "opt", "llvm-link"):
        return 127
    out, ins, flags, files = None, [], [], {}
    i = 1
    while i < len(toks):
        t = toks[i]
        if t in VALUED:
            v = toks[i + 1] if i + 1 < len(toks) else None
            if v is None:
                return 1
            i += 1
            if t == "-o":
                out = v
            elif t in FILES:
                files[FILES[t]] = v
            else:
                flags.append(t + " " + v)
        elif t.startswith("-"):
            flags.append(t)
        else:
            ins.append(t)
        i += 1
    yield "sleep", rng.choice([0, 0.01, 0.2, 1.0])
    if flt and flt["kind"] == "early":
        return flt["rc"]
    if not ins:
        return 1
    docs, fdocs = [], {}
    try:
        for f in ins:
            docs.append(content(f, cwd))
            yield "sleep", rng.choice([0, 0, 0.05, 0.5])
        for k, f in files.items():
            fdocs[k] = content(f, cwd)
    except Err as e:
        p.w.log("tool-error", n=p.n, why=str(e))
        return 1
    comp = "-c" in flags or "-S" in flags or "-E" in flags or prog != "opt" and "-fsyntax-only" in flags
    if prog in ("opt", "llvm-link") or not comp:
        outs = [(out or "a.out", docs)]
    elif out:
        if len(docs) > 1 and any(not f.endswith(".o") for f in ins[1:]):
            return 1  # cannot specify -o when generating multiple output files
        outs = [(out, docs[:1])]
    else:
        ext = ".ll" if "-S" in flags and "-emit-llvm" in flags else ".s" if "-S" in flags else ".bc" if "-emit-llvm" in flags else ".o"
        outs = [(os.path.splitext(os.path.basename(f))[0] + ext, [d]) for f, d in zip(ins, docs) if not f.endswith(".o")]
        if "-E" in flags:
            outs = []
    if "-E" in flags and out is None:
        outs = []
    for o, ds in outs:
        doc = {"prog": prog, "flags": sorted(flags), "in": ds}
        if fdocs:
            doc["files"] = fdocs
        text = json.dumps(doc) + END
        path = os.path.join(cwd, o)
        style = rng.choice(["inplace", "inplace", "rename"])
        tmp = path + "-%d.tmp" % p.n if style == "rename" else path
        done = False
        try:
            try:
                with open(tmp, "w") as f:
                    f.write(text[:len(text) // 2])
                    f.flush()
                    yield "sleep", rng.choice([0, 0.05, 0.5, 2.0])
                    if flt and flt["kind"] in ("late", "late-remove", "signal"):
                        if flt["kind"] == "late-remove":
                            for x in {tmp, path}:
                                if os.path.exists(x):
                                    os.unlink(x)
                        return flt["rc"]
                    f.write(text[len(text) // 2:])
                if style == "rename":
                    os.replace(tmp, path)
                done = True
            except OSError as e:
                p.w.log("tool-error", n=p.n, why=str(e))
                return 1
        finally:
            if not done and style == "rename" and os.path.exists(tmp):
                os.unlink(tmp)
    yield "sleep", rng.choice([0, 0, 0.1])
    if flt and flt["kind"] == "after":
        return flt["rc"]
    return 0


def stage(p):
    argv = p.argv
    yield "sleep", 0
    flt = p.flt
    if flt and flt["kind"] == "missing":
        return flt["rc"]
    if argv[:2] == ["/bin/sh", "-c"]:
        try:
            toks = shlex.split(argv[2])
        except ValueError:
            return 2
        cmds = [[]]
        for t in toks:
            if t == "&&":
                cmds.append([])
            else:
                cmds[-1].append(t)
    else:
        cmds = [argv]
    for c in cmds:
        if not c:
            return 2
        rc = yield from one(p, c, flt)
        if rc:
            return rc
    return 0


# ---------------------------------------------------------------- one driver (child process)
class Link:
    def __init__(self, s):
        self.f = s.makefile("rw")

    def call(self, **k):
        self.f.write(json.dumps(k) + "\n")
        self.f.flush()
        a = self.f.readline()
        if not a:
            _exit(96)
        return json.loads(a)


def child(i, d, link, req):
    import subprocess, tempfile, signal
    out, err = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = out, err
    sys.argv = list(d["argv"])
    rn = random.Random("d/%s/%d" % (req.get("seed", 0), i))
    # all drivers of a case draw temporary names from the same few
    few = req.get("tmpnames", 0)

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            return "t%d" % rn.randrange(few) if few else "".join(rn.choice("abcdefgh") for _ in range(8))
    tempfile._name_sequence = Names()
    tempfile._get_candidate_names = lambda: tempfile._name_sequence

    def call(**k):
        a = link.call(**k)
        if a.get("int"):
            raise KeyboardInterrupt
        return a

    class Popen:
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False,
                     cwd=None, env=None, universal_newlines=None, *a, **k):
            self.args, self.returncode, self.stdin, self.pid = args, None, None, 1
            text = universal_newlines or k.get("text") or k.get("encoding")
            self.empty = "" if text else b""
            self.stdout = (io.StringIO() if text else io.BytesIO()) if stdout == subprocess.PIPE else None
            self.stderr = (io.StringIO() if text else io.BytesIO()) if stderr == subprocess.PIPE else None
            argv = [os.fsdecode(args)] if isinstance(args, (str, bytes, os.PathLike)) else [os.fsdecode(x) for x in args]
            if shell:
                argv = ["/bin/sh", "-c"] + argv
            a = call(op="spawn", argv=argv, cwd=os.path.abspath(cwd or os.getcwd()))
            if "errno" in a:
                raise OSError(a["errno"], os.strerror(a["errno"]))
            self.n = a["n"]
            self.pid = 1000 + self.n

        def wait(self, timeout=None):
            if self.returncode is None:
                a = call(op="wait", n=self.n, timeout=timeout)
                if a.get("timeout"):
                    raise subprocess.TimeoutExpired(self.args, timeout)
                self.returncode = a["rc"]
            return self.returncode

        def poll(self):
            if self.returncode is None:
                self.returncode = call(op="poll", n=self.n)["rc"]
            return self.returncode

        def communicate(self, input=None, timeout=None):
            self.wait(timeout)
            return (self.empty if self.stdout else None, self.empty if self.stderr else None)

        def send_signal(self, sig):
            if self.returncode is None:
                call(op="kill", n=self.n, sig=int(sig))

        def terminate(self):
            self.send_signal(signal.SIGTERM)

        def kill(self):
            self.send_signal(signal.SIGKILL)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.wait()
    subprocess.Popen = Popen
    os.system = lambda cmd: (lambda rc: rc << 8 if rc >= 0 else -rc)(subprocess.call(cmd, shell=True))
    ropen = os.open

    def oopen(*a, **k):
        call(op="yield")
        return ropen(*a, **k)
    os.open = oopen
    link.call(op="start")
    for n, act, arg in d.get("faults", []):
        world._libc.shim_fault(ctypes.c_long(n), act, ctypes.c_long(arg))
    world._libc.shim_noerr(0)
    world._libc.shim_arm(req["cwd"].encode())
    m = types.ModuleType("__main__")
    m.__file__ = "/sim/bin/verificarlo"
    sys.modules["__main__"] = m
    ns = m.__dict__
    del m
    rc, exc = 0, ""
    try:
        exec(code, ns)
    except SystemExit as e:
        if isinstance(e.code, str):
            err.write(e.code)
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    except KeyboardInterrupt:
        rc, exc = 130, "KeyboardInterrupt"
    except BaseException as e:
        rc, exc = 1, "%s: %s" % (type(e).__name__, e)
    del ns
    link.call(op="done", rc=rc, exc=exc, out=out.getvalue()[-600:], err=err.getvalue()[-600:])
    ctypes.pythonapi.Py_Exit(rc)  # the interpreter's own finalisation: handlers, destructors of what is left


# ---------------------------------------------------------------- the coordinator
def run(w, req):
    w.resolve = stage
    ds = req["drivers"]
    W = []
    for i, d in enumerate(ds):
        a, b = socket.socketpair()
        pid = _fork()
        if pid == 0:
            a.close()
            for x in W:
                x["s"].close()
            try:
                child(i, d, Link(b), req)
            except BaseException:
                os.write(w.logfd, (json.dumps({"ev": "harness", "err": traceback.format_exc()}) + "\n").encode())
            _exit(95)
        b.close()
        W.append({"pid": pid, "s": a, "f": a.makefile("rw"), "state": "starting", "nst": 0, "nw": 0, "d": d, "i": i})
        hear(w, W[i])
    while any(x["state"] != "gone" for x in W):
        if not w.step():
            w.stop("a driver waits for ever")
    while w.step():
        pass


def hear(w, x):
    """take the next request of a driver"""
    l = x["f"].readline()
    if not l:
        _, st = _waitpid(x["pid"], 0)
        x["state"] = "gone"
        w.log("driver-end", i=x["i"], rc=os.waitstatus_to_exitcode(st), said=x.get("said"), t=round(w.now - w.t0, 6))
        return
    q = json.loads(l)
    op = q["op"]
    rng = w.rng
    d = x["d"]
    if op == "start":
        w.at(d.get("start", 0), lambda: tell(w, x, {}))
    elif op == "yield":
        w.at(rng.choice([0, 0, 0.001, 0.1]), lambda: tell(w, x, {}))
    elif op == "done":
        x["said"] = {k: q[k] for k in ("rc", "exc", "out", "err")}
        w.at(rng.choice([0, 0, 0.1]), lambda: tell(w, x, {}))
    elif op == "spawn":
        x["nst"] += 1
        flt = d.get("stages", {}).get(str(x["nst"]))
        if flt and flt["kind"] == "spawn":
            w.nproc += 1
            w.log("spawnfail", i=x["i"], argv=q["argv"])
            w.at(0, lambda: tell(w, x, {"errno": flt["errno"]}))
            return
        p = world.Proc(w, q["argv"], {}, q["cwd"], world.Sink(), world.Sink())
        p.flt = flt
        p.term = None
        x.setdefault("procs", []).append(p)
        w.log("stage", i=x["i"], n=p.n, k=x["nst"])
        w.at(rng.choice([0, 0.001]), lambda: tell(w, x, {"n": p.n}))
    elif op in ("wait", "poll", "kill"):
        p = next(p for p in x["procs"] if p.n == q["n"])
        if op == "kill":
            p.kill(q["sig"])
            w.at(0, lambda: tell(w, x, {}))
        elif op == "poll":
            w.at(0.001, lambda: tell(w, x, {"rc": p.rc}))
        else:
            x["nw"] += 1
            if d.get("int") == x["nw"] and p.rc is None:
                def intr():
                    w.log("interrupt", i=x["i"])
                    if p.rc is None:
                        p.kill(2)
                    tell(w, x, {"int": 1})
                w.at(rng.choice([0, 0.02, 0.3]), intr)
                return
            poll(w, x, p)


def poll(w, x, p):
    if p.rc is not None:
        w.at(w.rng.choice([0, 0.001]), lambda: tell(w, x, {"rc": p.rc}))
    elif not w.q:
        w.stop("a driver waits for a stage that never ends")
    else:
        w.at(0.01, lambda: poll(w, x, p))


def tell(w, x, a):
    x["f"].write(json.dumps(a) + "\n")
    x["f"].flush()
    hear(w, x)
