"""The simulated world around one session of a Python tool: a virtual clock, simulated
processes driven by a seeded event queue, ordered directory listings, and the storage seam
(shim.c).  Loaded into the forked session process by zygote.py."""
import ctypes, heapq, io, json, os, random, sys

_libc = ctypes.CDLL(None)
PIPE_CAP = 65536


class Hang(BaseException):
    pass


class ToolExit(BaseException):
    pass


class World:
    def __init__(self, req, logfd):
        self.req = req
        self.rng = random.Random("w/%s" % req.get("seed", 0))
        self.now = 1.7e9
        self.t0 = self.now
        self.q = []
        self.seq = 0
        self.nev = 0
        self.nproc = 0
        self.procs = []
        self.logfd = logfd
        self.max_events = req.get("max_events", 60000)
        self.max_procs = req.get("max_procs", 6000)
        self.slow = req.get("slow", 1.0)
        self.on_spawnfail = None
        self.resolve = None  # argv, env -> generator function
        self.spawn_faults = {n: e for n, e in req.get("spawn_faults", [])}

    # ------------------------------------------------ history
    def log(self, ev, **k):
        k["ev"] = ev
        b = (json.dumps(k) + "\n").encode()
        while b:
            b = b[os.write(self.logfd, b):]

    # ------------------------------------------------ time and events
    def at(self, dt, fn):
        self.seq += 1
        heapq.heappush(self.q, (self.now + dt, self.rng.random(), self.seq, fn))

    def step(self, until=None):
        """run the next event; False when there is none before the limit"""
        if not self.q or (until is not None and self.q[0][0] > until):
            return False
        t, _, _, fn = heapq.heappop(self.q)
        self.now = max(self.now, t)
        self.nev += 1
        if self.nev > self.max_events:
            self.stop("livelock: %d events" % self.nev)
        _libc.shim_noerr(1)
        try:
            fn()
        finally:
            _libc.shim_noerr(0)
        return True

    def run_until(self, cond, deadline=None):
        while not cond():
            if not self.step(deadline):
                if deadline is not None:
                    self.now = max(self.now, deadline)
                    return cond()
                return False
        return True

    def sleep(self, dt):
        self.run_until(lambda: False, self.now + max(0, dt))

    def stop(self, why):
        self.log("hang", why=why, t=self.now - self.t0)
        os._exit(98)


class Proc:
    """A simulated process: a generator of steps ("sleep", dt) / ("out", bytes) / ("err", bytes)"""

    def __init__(self, w, argv, env, cwd, out, err):
        self.w, self.argv, self.env, self.cwd = w, argv, env, cwd
        w.nproc += 1
        self.pid = 1000 + w.nproc
        self.n = w.nproc
        if w.nproc > w.max_procs:
            w.stop("more than %d processes" % w.max_procs)
        self.rng = random.Random("p/%s/%d" % (w.req.get("seed", 0), self.n))
        self.rc = None
        self.out, self.err = out, err  # Sink objects
        self.gen = w.resolve(self)
        self.blocked = None
        self.term = None  # reaction to SIGTERM: None dies at once, a number: seconds until it dies, "ignore"
        w.procs.append(self)
        w.log("spawn", n=self.n, argv=argv, t=round(w.now - w.t0, 6))
        w.at(self.rng.choice([0, 0.001, 0.01, 0.3]) * w.slow, self.advance)

    def advance(self):
        if self.rc is not None:
            return
        try:
            while True:
                k, v = next(self.gen)
                if k == "sleep":
                    self.w.at(v * self.w.slow, self.advance)
                    return
                if k == "hang":
                    return
                s = self.out if k == "out" else self.err
                if not s.put(v, self):
                    return  # blocked on a full pipe: the reader resumes us
        except StopIteration as e:
            self.finish(e.value or 0)

    def finish(self, rc):
        if self.rc is None:
            self.rc = rc
            self.w.log("exit", n=self.n, rc=rc, t=round(self.w.now - self.w.t0, 6))
            self.out.close()
            self.err.close()
            self.gen.close()

    def terminate(self):
        if self.rc is None and self.term != "ignore":
            if self.term is None:
                self.kill(15)
            else:
                self.w.log("terminating", n=self.n)
                self.w.at(self.term, lambda: self.kill(15))

    def kill(self, sig):
        if self.rc is None:
            self.w.log("killed", n=self.n, sig=int(sig))
            self.finish(-int(sig))


class Sink:
    """where a process writes: a descriptor, a pipe or nowhere"""

    def __init__(self, fd=None, pipe=None):
        self.fd, self.pipe = fd, pipe
        self.tail = b""

    def put(self, data, proc):
        if self.pipe is not None:
            return self.pipe.put(data, proc)
        if self.fd is not None:
            while data:
                data = data[os.write(self.fd, data):]
        return True

    def close(self):
        if self.fd is not None:
            try:
                os.close(self.fd)
            except OSError:
                pass
            self.fd = None
        if self.pipe is not None:
            self.pipe.closed_w = True


class Pipe(io.RawIOBase):
    def __init__(self, w):
        self.w = w
        self.buf = b""
        self.wait = None
        self.rest = b""
        self.closed_w = False

    def put(self, data, proc):
        room = PIPE_CAP - len(self.buf)
        self.buf += data[:room]
        if len(data) > room:
            self.rest, self.wait = data[room:], proc
            return False
        return True

    def pump(self):
        if self.wait is not None and len(self.buf) < PIPE_CAP:
            d, p = self.rest, self.wait
            self.rest, self.wait = b"", None
            if self.put(d, p):
                self.w.at(0, p.advance)

    def readable(self):
        return True

    def readinto(self, b):
        if not self.w.run_until(lambda: self.buf or self.closed_w):
            self.w.stop("reading a pipe nobody writes to")
        n = min(len(b), len(self.buf))
        b[:n] = self.buf[:n]
        self.buf = self.buf[n:]
        self.pump()
        return n

    def drain(self):
        d = self.buf
        self.buf = b""
        self.pump()
        return d


def install(w):
    """replace processes, clocks and directory order in this process"""
    import subprocess, time, signal, tempfile, threading

    class SimPopen:
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                     close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None,
                     creationflags=0, restore_signals=True, start_new_session=False, pass_fds=(), *, user=None,
                     group=None, extra_groups=None, encoding=None, errors=None, text=None, umask=-1, pipesize=-1,
                     process_group=None):
            self.args = args
            self.returncode = None
            self.stdin = self.stdout = self.stderr = None
            self._text = bool(text or universal_newlines or encoding or errors)
            if isinstance(args, (str, bytes, os.PathLike)):
                argv = [os.fsdecode(args)]
            else:
                argv = [os.fsdecode(a) for a in args]
            if shell:
                argv = ["/bin/sh", "-c"] + argv
            e = dict(w.cenv if env is None else env)
            for k, v in e.items():
                if not isinstance(k, (str, bytes)) or not isinstance(v, (str, bytes)):
                    raise TypeError("expected str, bytes or os.PathLike object, not %s" % type(v).__name__)
            n = w.nproc + 1
            if n in w.spawn_faults:
                w.nproc += 1
                w.log("spawnfail", n=n, argv=argv)
                if w.on_spawnfail:
                    w.on_spawnfail(argv, e)
                eno = w.spawn_faults[n]
                raise OSError(eno, os.strerror(eno))
            out, self.stdout = self._sink(stdout, 1)
            if stderr == subprocess.STDOUT:
                err = out if out.pipe is not None else Sink(fd=os.dup(out.fd)) if out.fd is not None else Sink()
            else:
                err, self.stderr = self._sink(stderr, 2)
            try:
                self._p = Proc(w, argv, e, os.path.abspath(cwd or os.getcwd()), out, err)
            except FileNotFoundError:
                out.close(), err.close()
                raise
            self.pid = self._p.pid
            if stdin == subprocess.PIPE:
                self.stdin = io.BytesIO()

        def _sink(self, x, dflt):
            if x is None:
                return Sink(pipe=None, fd=None), None
            if x == subprocess.DEVNULL:
                return Sink(), None
            if x == subprocess.PIPE:
                p = Pipe(w)
                f = io.BufferedReader(p)
                return Sink(pipe=p), (io.TextIOWrapper(f) if self._text else f)
            fd = x if isinstance(x, int) else x.fileno()
            return Sink(fd=os.dup(fd)), None

        def __enter__(self):
            return self

        def __exit__(self, *a):
            for f in (self.stdout, self.stderr):
                if f is not None and not f.closed:
                    f.close()
            self.wait()

        def poll(self):
            w.sleep(0.001)
            if self._p.rc is not None:
                self.returncode = self._p.rc
            return self.returncode

        def wait(self, timeout=None):
            if self.returncode is None:
                w.log("wait", n=self._p.n)
                dl = None if timeout is None else w.now + timeout
                if not w.run_until(lambda: self._p.rc is not None, dl):
                    if timeout is not None:
                        raise subprocess.TimeoutExpired(self.args, timeout)
                    w.stop("waiting for process %d that never ends: %s" % (self._p.n, " ".join(self._p.argv)))
                self.returncode = self._p.rc
            return self.returncode

        def communicate(self, input=None, timeout=None):
            dl = None if timeout is None else w.now + timeout
            bufs = {"o": b"", "e": b""}
            pipes = {k: s.pipe for k, s in (("o", self._p.out), ("e", self._p.err)) if s.pipe is not None}

            def done():
                for k, p in pipes.items():
                    bufs[k] += p.drain()
                return self._p.rc is not None
            if not w.run_until(done, dl):
                if timeout is not None:
                    raise subprocess.TimeoutExpired(self.args, timeout)
                w.stop("communicating with a process that never ends")
            done()
            self.returncode = self._p.rc
            r = [bufs[k] if k in pipes else None for k in ("o", "e")]
            if self.stderr is None and self._p.err is self._p.out:
                r[1] = None
            if self._text:
                r = [x if x is None else x.decode() for x in r]
            return tuple(r)

        def send_signal(self, sig):
            if self.returncode is None:
                if sig == signal.SIGTERM:
                    self._p.terminate()
                else:
                    self._p.kill(sig)

        def terminate(self):
            if self.returncode is None and self._p.rc is None:
                self._p.terminate()

        def kill(self):
            self.send_signal(signal.SIGKILL)

    # the C-level environment: what a child inherits (os.putenv does not change os.environ)
    w.cenv = dict(os.environ)
    rput, runset = os.putenv, os.unsetenv

    def putenv(k, v):
        w.cenv[os.fsdecode(k)] = os.fsdecode(v)
        rput(k, v)

    def unsetenv(k):
        w.cenv.pop(os.fsdecode(k), None)
        runset(k)
    os.putenv, os.unsetenv = putenv, unsetenv
    subprocess.Popen = SimPopen
    os.system = lambda cmd: (lambda rc: rc << 8 if rc >= 0 else -rc)(subprocess.call(cmd, shell=True))

    def no_proc(*a, **k):
        raise OSError(11, "process creation outside the simulated interface")
    for n in ("fork", "forkpty", "posix_spawn", "posix_spawnp", "execv", "execve", "execvp", "execvpe", "popen"):
        setattr(os, n, no_proc)
    time.time = lambda: tick(1e-4)
    time.monotonic = lambda: tick(1e-4) - w.t0 + 100
    time.perf_counter = time.monotonic
    time.time_ns = lambda: int(time.time() * 1e9)
    time.monotonic_ns = lambda: int(time.monotonic() * 1e9)
    time.sleep = w.sleep
    gm, lt = time.gmtime, time.localtime
    time.gmtime = lambda s=None: gm(time.time() if s is None else s)
    time.localtime = lambda s=None: gm(time.time() if s is None else s)

    def tick(d):
        w.now += d
        return w.now
    rl, rs = os.listdir, os.scandir
    lseed = w.req.get("listseed", 0)

    def order(names):
        names.sort()
        if lseed:
            random.Random("l/%s/%s" % (lseed, len(names))).shuffle(names)
        return names

    def listdir(path="."):
        return order(rl(path))

    class Scan:
        def __init__(self, path):
            with rs(path) as it:
                es = list(it)
            es.sort(key=lambda e: e.name)
            if lseed:
                random.Random("l/%s/%s" % (lseed, len(es))).shuffle(es)
            self.it = iter(es)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass
    os.listdir = listdir
    os.scandir = lambda path=".": Scan(path)
    tmp = random.Random("t/%s" % w.req.get("tmpseed", w.req.get("seed", 0)))
    names = w.req.get("tmpnames", 0)

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            if names:  # few names: collisions are common
                return "t%d" % tmp.randrange(names)
            return "".join(tmp.choice("abcdefgh") for _ in range(8))
    tempfile._name_sequence = Names()
    tempfile._get_candidate_names = lambda: tempfile._name_sequence
    random.seed(12345)


def arm(req, logfd):
    _libc.shim_hash.restype = ctypes.c_uint64
    _libc.shim_count.restype = ctypes.c_long
    _libc.shim_log(logfd)
    for n, act, arg in req.get("faults", []):
        _libc.shim_fault(ctypes.c_long(n), act, ctypes.c_long(arg))
    _libc.shim_arm(req.get("armdir", req["cwd"]).encode())


def counters(req):
    return {"fs": _libc.shim_count(), "hash": "%x" % _libc.shim_hash(),
            "fired": [f[1] for i, f in enumerate(req.get("faults", [])) if _libc.shim_fired(i)]}
