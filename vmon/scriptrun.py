"""Run a script of the repository as a process of its own: forked from the monitor (fast), or started afresh with a given string hash seed."""
import os, runpy, signal, subprocess, sys, time, traceback
from .core import REPO


def path(name):
    return os.path.join(REPO, "scripts", name)


def run(name, args, cwd, seed=None, timeout=200, env=None):
    """ -> (exit status, standard output, standard error) """
    args = [str(a) for a in args]
    if seed is not None:
        p = subprocess.run([sys.executable, "-W", "ignore", path(name)] + args, cwd=cwd, env=dict(os.environ, PYTHONHASHSEED=str(seed), **(env or {})),
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    import tempfile
    fo, fe = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        rc = 70
        try:
            os.setsid()
            os.chdir(cwd)
            os.environ.update(env or {})
            dn = os.open(os.devnull, os.O_RDONLY)
            os.dup2(dn, 0)
            os.dup2(fo.fileno(), 1)
            os.dup2(fe.fileno(), 2)
            import io
            sys.stdout = io.TextIOWrapper(open(1, "wb", closefd=False), encoding="utf-8")
            sys.stderr = io.TextIOWrapper(open(2, "wb", closefd=False), encoding="utf-8", errors="backslashreplace", write_through=True)
            sys.__stdout__, sys.__stderr__ = sys.stdout, sys.stderr
            sys.argv = [path(name)] + args
            try:
                runpy.run_path(path(name), run_name="__main__")
                rc = 0
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                if isinstance(e.code, str):
                    sys.stderr.write(e.code)
            except BaseException:
                rc = 1
                sys.stderr.write(traceback.format_exc())
            for f in (sys.stdout, sys.stderr):
                try:
                    f.flush()
                except Exception:
                    pass
        finally:
            os._exit(rc & 255)
    end = time.time() + timeout
    n = .001
    while True:
        p, st = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > end:
            os.killpg(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            st = None
            break
        time.sleep(n)
        n = min(n * 1.5, .02)
    res = []
    for f in (fo, fe):
        f.seek(0)
        res.append(f.read().decode("utf-8", "replace"))
        f.close()
    return (None if st is None else os.waitstatus_to_exitcode(st)), res[0], res[1]


def snapshot(top):
    """ {relative path: bytes} """
    res = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                res[os.path.relpath(p, top)] = h.read()
    return res
