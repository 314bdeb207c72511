"""Client of the Python-side simulator (pysim)."""
import hashlib, json, os, shutil, subprocess, sys, tempfile
from . import build as B
from .core import VERIF

PYSIM = os.path.join(VERIF, "pysim")
VENV_PY = "/opt/vp/venv/bin/python"
FAULTS = {0: "kill-before-op", 1: "kill-after-op", 2: "kill-torn-write", 3: "io-error", 4: "short-write-enospc",
          5: "short-write", 6: "disk-error-sticky"}


def prepare(ctx):
    so = os.path.join(ctx["tmp"], "shim.so")
    p = subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(PYSIM, "shim.c"), "-ldl"], capture_output=True, text=True)
    if p.returncode:
        raise B.BuildError(p.stderr)
    ctx["shim"] = so


class Session:
    """what happened in one session"""

    def __init__(self, log, st):
        self.log = log
        self.st = st
        self.end = next((e for e in log if e["ev"] == "end"), None)
        self.crash = next((e for e in log if e["ev"] == "crash"), None)
        self.hang = next((e for e in log if e["ev"] == "hang"), None)
        self.harness = next((e for e in log if e["ev"] == "harness"), None)

    def evs(self, k):
        return [e for e in self.log if e["ev"] == k]

    @property
    def rc(self):
        if self.end is not None:
            return self.end["rc"]
        return None

    def status(self):
        if self.end is not None:
            return "exit %d%s" % (self.end["rc"], (" (%s)" % self.end["exc"]) if self.end["exc"] else "")
        if self.crash is not None:
            return "killed at operation %d" % self.crash["n"]
        if self.hang is not None:
            return "hang: " + self.hang["why"]
        return "status %d" % self.st


class PSim:
    def __init__(self, ctx, tool, venv=False):
        self.cwd = tempfile.mkdtemp(prefix="ses-", dir=ctx["fast"])
        env = {"LD_PRELOAD": ctx["shim"], "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PATH": "/usr/bin:/bin", "HOME": self.cwd,
               "LC_ALL": "C.UTF-8", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "BLOSC_NTHREADS": "1",
               "NUMEXPR_MAX_THREADS": "1"}
        py = VENV_PY if venv and os.path.exists(VENV_PY) else "/usr/bin/python3"
        self.err = open(os.path.join(ctx["tmp"], "zyg-%d.err" % os.getpid()), "w")
        self.p = subprocess.Popen([py, "-B", os.path.join(PYSIM, "zygote.py"), B.REPO, tool], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, env=env, cwd=self.cwd, text=True)
        a = self._rd()
        if "load_error" in a:
            raise B.BuildError("the tool cannot be loaded:\n" + a["load_error"])

    def _rd(self):
        l = self.p.stdout.readline()
        if not l:
            raise RuntimeError("session server died: " + open(self.err.name).read()[-2000:])
        return json.loads(l)

    def clean(self):
        shutil.rmtree(self.cwd, ignore_errors=True)
        os.makedirs(self.cwd)

    def put(self, name, data, mode=None):
        p = os.path.join(self.cwd, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb" if isinstance(data, bytes) else "w") as f:
            f.write(data)
        if mode is not None:
            os.chmod(p, mode)
        return p

    def session(self, **req):
        req.setdefault("cwd", self.cwd)
        self.p.stdin.write(json.dumps(req) + "\n")
        self.p.stdin.flush()
        a = self._rd()
        s = Session([json.loads(l) for l in a["log"].replace(self.cwd, "@CWD@").splitlines()], a["st"])
        if s.harness:
            raise RuntimeError("harness: " + s.harness["err"])
        return s

    def tree(self):
        """content of the session directory"""
        out = {}
        for r, ds, fs in os.walk(self.cwd):
            for f in fs + [d for d in ds if os.path.islink(os.path.join(r, d))]:
                p = os.path.join(r, f)
                rel = os.path.relpath(p, self.cwd)
                if os.path.islink(p):
                    out[rel] = ("link", os.readlink(p).replace(self.cwd, "@CWD@"))
                else:
                    with open(p, "rb") as fh:
                        out[rel] = ("file", fh.read())
        return out

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(timeout=5)
        except Exception:
            self.p.kill()
        self.err.close()
        shutil.rmtree(self.cwd, ignore_errors=True)


def note(stats, s, req_faults=()):
    stats.runs += 1
    e = s.end or s.crash
    stats.steps += len(s.log)
    if s.end:
        stats.sim_us += int(s.end["t"] * 1e6)
        stats.steps += s.end["fs"]
        for a in s.end["fired"]:
            stats.faults[FAULTS[a]] = stats.faults.get(FAULTS[a], 0) + 1
    if s.crash:
        acts = [f[1] for f in req_faults if f[0] == s.crash["n"]] or [s.crash["act"]]
        k = FAULTS[acts[0]]
        stats.faults[k] = stats.faults.get(k, 0) + 1
    if e:
        stats.distinct.add(digest(s))


def digest(s):
    h = hashlib.sha256()
    for e in s.log:
        h.update(json.dumps(e, sort_keys=True).encode())
    return h.hexdigest()[:16]
