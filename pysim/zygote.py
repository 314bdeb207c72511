"""Session server: imports the tool under test once, forks one process per session.
argv: REPO TOOL.  Requests and answers are JSON lines on stdin / stdout."""
import io, json, os, signal, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import importlib
import world


def session(tool, req, logfd):
    w = world.World(req, logfd)
    out, err = io.StringIO(), io.StringIO()
    os.chdir(req["cwd"])
    os.environ.clear()
    os.environ.update(req.get("env") or {})
    os.environ.setdefault("PATH", "/usr/bin:/bin")
    sys.argv = list(req["argv"])
    sys.stdout, sys.stderr = out, err
    world.install(w)
    world.arm(req, logfd)
    rc, exc = 0, ""
    try:
        tool.run(w, req)
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
        if rc == 1 and isinstance(e.code, str):
            err.write(e.code)
    except BaseException as e:
        rc = 1
        exc = "%s: %s" % (type(e).__name__, e)
        tb = traceback.extract_tb(e.__traceback__)
        exc += " (" + " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-3:])) + ")"
    c = world.counters(req)
    world._libc.shim_disarm()
    try:
        extra = tool.report(w, req) if hasattr(tool, "report") else {}
    except Exception as e:
        extra = {"report_error": repr(e)}
    w.log("end", rc=rc, exc=exc, out=out.getvalue(), err=err.getvalue(), t=w.now - w.t0, nproc=w.nproc, nev=w.nev, **c, **extra)
    return rc


def main():
    repo, name = sys.argv[1:3]
    # the log and the answers never go where the tool prints
    answers = os.fdopen(os.dup(1), "w")
    dn = os.open("/dev/null", os.O_RDWR)
    os.dup2(dn, 1)
    tool = importlib.import_module("tool_" + name)
    try:
        tool.load(repo)
    except Exception:
        answers.write(json.dumps({"load_error": traceback.format_exc()}) + "\n")
        answers.flush()
        return 2
    answers.write(json.dumps({"ready": 1}) + "\n")
    answers.flush()
    for line in sys.stdin:
        req = json.loads(line)
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, req.get("alarm", 30))  # processor time: independent of the load
            signal.alarm(300)
            try:
                session(tool, req, wfd)
            except BaseException:
                os.write(wfd, (json.dumps({"ev": "harness", "err": traceback.format_exc()}) + "\n").encode())
            os._exit(0)
        os.close(wfd)
        data = []
        while True:
            b = os.read(r, 1 << 20)
            if not b:
                break
            data.append(b)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        answers.write(json.dumps({"st": st, "log": b"".join(data).decode("utf-8", "replace")}) + "\n")
        answers.flush()
    return 0


if __name__ == "__main__":
    sys.exit(main())
