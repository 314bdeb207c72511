"""P22: CI setup reports success only when it is in place and never touches the user's work."""
import copy, errno, hashlib, json, os, shutil, stat, subprocess
from vsim import psim
from vsim.core import Violation

PROP = "P22"
VENV = True
LEVEL = "exploration"
RULE = ("one case = a repository (branch names, tracked, untracked, ignored and modified files, existing CI branch, behind or ahead of the remote), a host, and "
        "failures: any git command fails, cannot start or is where the tool is killed, the remote goes down, refuses updates or is moved by somebody else "
        "before any command, storage errors and kills at any file operation of the tool; distinct by command history and outcome")
ASSUMPTIONS = ["git itself is trusted and real; the remote is a repository on the local disk", "the workflow file itself is the tool's to overwrite",
               "files ignored by git are the user's too"]
COMPONENTS = {"real": ["src/tools/ci/__main__.py, setup.py and its templates", "GitPython, git, repositories on disk"],
              "stub": ["the remote's availability, another developer", "start and failure of git commands", "terminal answers", "clock", "storage errors and kills (pysim/shim.c)"]}
BUDGET = {"quick": (100000, 40), "thorough": (10**7, 600)}
TARGET = {"github": ".github/workflows/vfc_test_workflow.yml", "gitlab": ".gitlab-ci.yml"}
DONE = "has been setup"


def prepare(ctx):
    psim.prepare(ctx)


class Env(psim.PSim):
    def __init__(self, ctx):
        psim.PSim.__init__(self, ctx, "setup", venv=True)
        self.env = {"PATH": "/usr/bin:/bin", "HOME": self.cwd + "/home", "GIT_CONFIG_NOSYSTEM": "1", "GIT_TERMINAL_PROMPT": "0", "LC_ALL": "C.UTF-8"}
        for k in ("AUTHOR", "COMMITTER"):
            self.env.update({"GIT_%s_DATE" % k: "1700000000 +0000", "GIT_%s_NAME" % k: "u", "GIT_%s_EMAIL" % k: "u@x"})
        self.cache = {}

    def git(self, where, *a, ok=True):
        p = subprocess.run(["git", "-C", os.path.join(self.cwd, where), *a], env=self.env, capture_output=True, text=True)
        if ok and p.returncode:
            raise RuntimeError("git %s: %s" % (" ".join(a), p.stderr))
        return p.stdout

    def file(self, name, text, mode=None):
        self.put("work/" + name, text, mode)


def open_env(ctx):
    return Env(ctx)


def close_env(env):
    env.close()
    shutil.rmtree(env.cwd + "-snap", ignore_errors=True)


def gen(r, idx, ctx):
    c = {"host": r.choice(["github", "github", "gitlab"]), "branch": r.choice(["main", "main", "dev", "feature/x", "v1.2"]), "seed": r.getrandbits(30)}
    c["tracked"] = {"a.c": "int a;\n"}
    if r.random() < 0.6:
        c["tracked"]["README.md"] = "our project\n"
    if r.random() < 0.3:
        c["tracked"]["dir/b.txt"] = "b\n" * r.randint(1, 400)
    if r.random() < 0.2:
        c["tracked"][TARGET[c["host"]]] = "# an earlier workflow\n"
    if r.random() < 0.3:
        c["tracked"][".gitignore"] = "*.o\nbuild/\n" + r.choice(["", "README.md\n"])
    c["untracked"] = {}
    if r.random() < 0.5:
        for n in r.sample(["notes.txt", "README.md", "dir/secret.key", "build/x.o", "y.o", ".github/other.yml"], r.randint(1, 3)):
            if n not in c["tracked"]:
                c["untracked"][n] = "mine %s\n" % n
    c["state"] = r.choice(["ok"] * 12 + ["modified", "staged", "deleted", "behind", "ahead", "diverged", "noremote", "detached", "noorigin"])
    c["ci"] = r.choice(["none"] * 6 + ["remote", "stale"])
    c["answers"] = ["bob", "bob@x"] if r.random() < 0.95 else r.choice([["bob"], []])
    c["gfaults"], c["ffaults"] = [], []
    x = r.random()
    if x < 0.55:
        for _ in range(r.choice([1, 1, 1, 2])):
            c["gfaults"].append([r.random(), r.choice(["fail", "fail", "fail", "nostart", "eagain", "kill", "kill", "down", "down", "readonly", "readonly", "other", "other"])])
    elif x < 0.85:
        act = r.choice([0, 1, 2, 3, 3, 3, 4, 6, 6])
        c["ffaults"].append([r.random(), act, r.choice([0, 1, 300, 700, 999]) if act in (2, 4) else r.choice([errno.ENOSPC, errno.EIO, errno.EACCES])])
    return c


def build(ps, c):
    key = json.dumps([c[k] for k in ("host", "branch", "tracked", "untracked", "state", "ci")], sort_keys=True)
    snap = ps.cwd + "-snap"
    if getattr(ps, "snapkey", None) == key:
        shutil.rmtree(ps.cwd)
        shutil.copytree(snap, ps.cwd, symlinks=True)
        return
    make(ps, c)
    ps.snapkey = None
    shutil.rmtree(snap, ignore_errors=True)
    shutil.copytree(ps.cwd, snap, symlinks=True)
    ps.snapkey = key


def make(ps, c):
    ps.clean()
    for d in ("home", "tmpl", "tmp", "work"):
        os.makedirs(os.path.join(ps.cwd, d))
    t = "--template=" + os.path.join(ps.cwd, "tmpl")
    b = c["branch"]
    ps.git(".", "init", "-q", "--bare", t, "-b", b, "remote.git")
    ps.git(".", "init", "-q", t, "-b", b, "work")
    for k in ("gc.auto", "maintenance.auto"):
        ps.git("work", "config", k, "0")
    ps.git("remote.git", "config", "receive.autogc", "false")
    for n, x in c["tracked"].items():
        ps.file(n, x, 0o755 if n == "a.c" else None)
    os.symlink("a.c", os.path.join(ps.cwd, "work/link"))
    ps.git("work", "add", "-f", ".")
    ps.git("work", "commit", "-q", "-m", "one")
    remote = os.path.join(ps.cwd, "remote.git")
    ps.git("work", "remote", "add", "origin", remote)
    ps.git("work", "push", "-q", *([] if c["state"] == "noremote" else ["-u"]), "origin", b)
    shutil.copytree(os.path.join(ps.cwd, "work"), os.path.join(ps.cwd, "other"), symlinks=True)
    s = c["state"]
    if s in ("behind", "diverged"):
        ps.git("other", "commit", "-q", "--allow-empty", "-m", "theirs")
        ps.git("other", "push", "-q", "origin", b)
    if c["ci"] != "none":  # somebody set it up before
        ps.git("other", "checkout", "-q", "--orphan", "vfc_ci_" + b)
        ps.git("other", "commit", "-q", "--allow-empty", "-m", "ci")
        ps.git("other", "push", "-q", "origin", "vfc_ci_" + b)
        ps.git("other", "checkout", "-q", b)
        if c["ci"] == "stale":
            ps.git("work", "fetch", "-q")
    if s in ("ahead", "diverged"):
        ps.git("work", "commit", "-q", "--allow-empty", "-m", "mine")
    for n, x in c["untracked"].items():
        ps.file(n, x)
    if s == "modified":
        ps.file("a.c", "int a, b;\n")
    if s == "staged":
        ps.file("new.c", "int n;\n")
        ps.git("work", "add", "new.c")
    if s == "deleted":
        os.unlink(os.path.join(ps.cwd, "work/a.c"))
    if s == "detached":
        ps.git("work", "checkout", "-q", "--detach")
    if s == "noorigin":
        ps.git("work", "remote", "rename", "origin", "upstream")


def files(ps):
    out = {}
    top = os.path.join(ps.cwd, "work")
    for r, ds, fs in os.walk(top):
        if r == top:
            ds.remove(".git")
        for f in fs + [d for d in ds if os.path.islink(os.path.join(r, d))]:
            p = os.path.join(r, f)
            st = os.lstat(p)
            out[os.path.relpath(p, top)] = (stat.S_IFMT(st.st_mode) | st.st_mode & 0o111, os.readlink(p) if os.path.islink(p) else open(p, "rb").read())
    return out


def refs(ps, where):
    return dict(reversed(l.split(" ", 1)) for l in ps.git(where, "for-each-ref", "--format=%(objectname) %(refname)", "refs/heads").splitlines())


def state(ps):
    return {"files": files(ps), "head": open(os.path.join(ps.cwd, "work/.git/HEAD")).read().strip(), "local": refs(ps, "work"), "remote": refs(ps, "remote.git"),
            "index": ps.git("work", "ls-files", "-s"), "status": ps.git("work", "status", "--porcelain", "--untracked-files=all")}


def session(ps, c, **k):
    return ps.session(argv=["vfc_ci", "setup", c["host"]], env=ps.env, cwd=os.path.join(ps.cwd, "work"), armdir=ps.cwd, answers=c["answers"], seed=c["seed"], **k)


def ancestor(ps, where, a, b):
    return subprocess.run(["git", "-C", os.path.join(ps.cwd, where), "merge-base", "--is-ancestor", a, b], env=ps.env, capture_output=True).returncode == 0


def check(ps, case, stats, rec):
    c = case
    gf, ff = [], []
    if c["gfaults"] or c["ffaults"]:
        key = json.dumps([c[k] for k in ("host", "branch", "tracked", "untracked", "state", "ci", "answers")], sort_keys=True)
        if key not in ps.cache:
            build(ps, c)
            s = session(ps, c)
            stats.runs += 1
            ps.cache[key] = (s.end["ngit"], s.end["fs"]) if s.end else (12, 60)
        ng, nf = ps.cache[key]
        gf = [[1 + int(x * max(1, ng)), a] for x, a in c["gfaults"]]
        ff = [[1 + int(x * max(1, nf)), a, arg] for x, a, arg in c["ffaults"]]
    build(ps, c)
    old = state(ps)
    s = session(ps, c, git_faults=gf, faults=ff)
    away = os.path.join(ps.cwd, "remote.git.away")
    if os.path.exists(away):
        os.rename(away, away[:-5])
    shutil.rmtree(os.path.join(ps.cwd, "remote.git/hooks"), ignore_errors=True)
    new = state(ps)
    psim.note(stats, s, ff)
    for e in s.evs("gitfault") + s.evs("gitkill"):
        k = "git-" + e.get("act", "kill")
        stats.faults[k] = stats.faults.get(k, 0) + 1
    killed = bool(s.crash or s.evs("gitkill"))
    hit = killed or bool(s.evs("gitfault")) or bool(s.end and s.end["fired"])
    moved = any(e["act"] == "other" for e in s.evs("gitfault"))
    h = hashlib.sha256(json.dumps([[e.get("sub") for e in s.evs("git")], s.rc, s.end and s.end["out"], sorted(new["local"].items()), sorted(new["remote"].items()), new["status"]]).encode())
    rec["digest"] = h.hexdigest()[:16]
    stats.kind(c["state"] if c["state"] != "ok" else ("ci-" + c["ci"] if c["ci"] != "none" else "ok"))
    where = "%s, %s, remote CI branch: %s, %s%s: " % (c["host"], c["state"], c["ci"], s.status(), "".join("; %s at git command %d" % (a, n) for n, a in gf) + "".join(
        "; %s at file operation %d" % (psim.FAULTS[f[1]], f[0]) for f in ff))
    if s.hang or (s.end is None and not killed):
        return Violation("died", where)
    b, ci = "refs/heads/" + c["branch"], "refs/heads/vfc_ci_" + c["branch"]
    target = TARGET[c["host"]]
    # the user's files
    for n, x in old["files"].items():
        if n != target and new["files"].get(n) != x:
            return Violation("user-file", where + "%s %s" % (n, "is gone" if n not in new["files"] else "has changed"))
    if new["head"] != old["head"]:
        return Violation("head", where + "HEAD is %s instead of %s" % (new["head"], old["head"]))
    # what is staged: at most the workflow
    o, n = set(old["index"].splitlines()), set(new["index"].splitlines())
    for l in o ^ n:
        if l.split("\t", 1)[1] != target:
            return Violation("index", where + "the index entry of %s has changed" % l.split("\t", 1)[1])
    # branches
    for k, x in old["local"].items():
        y = new["local"].get(k)
        if y == x:
            continue
        if k != b or y is None:
            return Violation("branch", where + "the local branch %s has changed" % k)
        if ps.git("work", "rev-list", "%s..%s" % (x, y)).split() != [y] or not ancestor(ps, "work", x, y):
            return Violation("branch", where + "%s is not one commit after its old state" % k)
        d = ps.git("work", "diff", "--name-only", x, y).split("\n")[:-1]
        if [p for p in d if p != target]:
            return Violation("committed", where + "the commit on %s contains %s" % (c["branch"], ", ".join(p for p in d if p != target)))
    for k, x in old["remote"].items():
        if k not in new["remote"] or not ancestor(ps, "remote.git", x, new["remote"][k]):
            return Violation("remote", where + "%s of the remote was removed or rewritten" % k)
        if k == ci and new["remote"][k] != x:
            return Violation("remote", where + "the existing CI branch has changed")
    for k in new["remote"]:
        if k not in old["remote"] and k != ci:
            return Violation("remote", where + "a branch %s was pushed" % k)
    ok = s.end is not None and s.rc == 0
    said = s.end is not None and DONE in s.end["out"]
    refuse = c["state"] != "ok" or (c["host"] == "gitlab" and len(c["answers"]) < 2)
    if c["state"] != "ok" and (ok or new["local"] != old["local"] or (new["remote"] != old["remote"] and not moved) or new["files"] != old["files"]):
        return Violation("precondition", where + ("ended with success" if ok else "something was changed"))
    if ok or said:
        lb, rb, rci = new["local"].get(b), new["remote"].get(b), new["remote"].get(ci)
        bad = None
        if lb == old["local"].get(b):
            bad = "nothing was committed on %s" % c["branch"]
        elif rb is None or not ancestor(ps, "remote.git", lb, rb):
            bad = "the workflow commit is not on the remote"
        elif rci is None or rci == old["remote"].get(ci):
            bad = "the CI branch is not on the remote"
        elif refuse:
            bad = "the setup was not possible"
        if bad:
            return Violation("success", where + bad)
        wf = ps.git("remote.git", "show", "%s:%s" % (lb, target))
        if c["branch"] not in wf or "vfc_ci_" + c["branch"] not in wf or "{{" in wf.replace("${{", "") or new["files"].get(target, ("", b""))[1].decode() != wf:
            return Violation("content", where + "the workflow does not name both branches, or is not what is in the work tree")
        if ps.git("remote.git", "ls-tree", "-r", "--name-only", rci).split() != ["README.md"] or len(ps.git("remote.git", "rev-list", rci).split()) != 1:
            return Violation("content", where + "the CI branch does not consist of one commit with the readme")
        rd = ps.git("remote.git", "show", rci + ":README.md")
        if c["branch"] not in rd or "vfc_ci_" + c["branch"] not in rd:
            return Violation("content", where + "the readme does not name both branches")
        if new["status"].splitlines() != [l for l in old["status"].splitlines() if l[3:] != target]:
            return Violation("left", where + "the work tree is left with %r, it was %r" % (new["status"], old["status"]))
        stats.kind("success")
    elif not hit and not refuse and c["ci"] == "none":
        return Violation("progress", where + "nothing failed and nothing was in the way")
    if ok and not said:
        return Violation("silent", where + "success without saying so")
    return None


def variants(case):
    for k in ("gfaults", "ffaults"):
        for i in range(len(case[k])):
            c = copy.deepcopy(case)
            del c[k][i]
            yield c
    for k in ("untracked", "tracked"):
        for n in list(case[k]):
            if n != "a.c":
                c = copy.deepcopy(case)
                del c[k][n]
                yield c
    for k, v in (("branch", "main"), ("host", "github"), ("ci", "none")):
        if case[k] != v:
            yield {**copy.deepcopy(case), k: v}
