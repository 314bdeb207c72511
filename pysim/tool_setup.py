"""vfc_ci setup: the real tool with the real git on real repositories in the session
directory.  The seams are the git commands it starts (they fail, cannot start, meet a dead or
moved remote, or the tool is killed there) and its own file operations (shim.c)."""
import os, subprocess, sys, types

main = None
Popen = subprocess.Popen


def load(repo):
    global main
    pkg = types.ModuleType("verificarlo")
    pkg.__path__ = [os.path.join(repo, "src", "tools")]
    sys.modules["verificarlo"] = pkg
    import verificarlo.ci.__main__ as m
    import verificarlo.ci.setup
    import git, git.cmd, gitdb, tempfile
    git.Repo, git.Git.execute  # resolved before the fork
    main = m


NET = ("fetch", "push", "pull", "ls-remote", "remote")


def run(w, req):
    import builtins, git.cmd, tempfile, time
    tempfile.tempdir = os.path.join(req["cwd"], "..", "tmp")
    plan = {n: a for n, a in req.get("git_faults", [])}
    w.ngit = 0
    remote = os.path.join(req["cwd"], "..", "remote.git")
    genv = dict(req["env"])

    def sub(argv):
        a = [x for x in argv[1:] if not x.startswith("-")]
        return a[0] if a else ""

    def party(*cmds):
        for c in cmds:
            p = Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=genv, cwd=os.path.join(req["cwd"], "..", "other"))
            out = p.communicate()[0]
            if p.returncode:
                w.log("party-failed", cmd=c, out=out.decode()[-200:])

    class GitPopen(Popen):
        def __init__(self, args, *a, **k):
            w.ngit += 1
            n = w.ngit
            c = sub(list(args))
            act = plan.get(n)
            w.log("git", n=n, sub=c)
            if act == "kill":
                w.log("gitkill", n=n)
                os._exit(97)
            if act:
                w.log("gitfault", n=n, act=act, sub=c)
            if act == "nostart":
                raise FileNotFoundError(2, "No such file or directory: 'git'")
            if act == "eagain":
                raise BlockingIOError(11, "Resource temporarily unavailable")
            if act == "down" and not w.__dict__.get("down"):
                w.down = True
                os.rename(remote, remote + ".away")
            if w.__dict__.get("down"):
                act = act if act == "fail" else None  # nobody reaches the remote
            if act == "other":  # somebody else pushes first
                party(["git", "commit", "-q", "--allow-empty", "-m", "theirs"], ["git", "push", "-q", "origin", "HEAD"])
            if act == "readonly":  # the remote refuses updates from now on
                h = os.path.join(remote, "hooks")
                os.makedirs(h, exist_ok=True)
                with open(os.path.join(h, "pre-receive"), "w") as f:
                    f.write("#!/bin/sh\necho refused >&2\nexit 1\n")
                os.chmod(os.path.join(h, "pre-receive"), 0o755)
            if act == "fail":
                args = ["/bin/sh", "-c", "exec 0<&-; echo 'fatal: simulated failure' >&2; exit 128"]
            Popen.__init__(self, args, *a, **k)
    git.cmd.Popen = GitPopen
    if hasattr(git.cmd, "safer_popen"):
        git.cmd.safer_popen = GitPopen
    subprocess.Popen = GitPopen
    git.cmd.Git.GIT_PYTHON_GIT_EXECUTABLE = "git"
    answers = list(req.get("answers", []))

    def ask(prompt=""):
        if not answers:
            raise EOFError("EOF when reading a line")
        return answers.pop(0)
    builtins.input = ask
    main.main()


def report(w, req):
    r = os.path.join(req["cwd"], "..", "remote.git")
    if os.path.exists(r + ".away"):
        os.rename(r + ".away", r)
    return {"ngit": w.ngit}
