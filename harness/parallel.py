"""Runs harness functions in fresh worker processes (8 cores)."""

import fcntl
import multiprocessing
import os
import pathlib
import pickle
import signal
import subprocess
import sys
import time
import traceback

from . import core

PY = "/opt/venv/bin/python"


def run(
    module, function, jobs, *, patch=None, workers=8, timeout=700, prefix=(),
    env=None, limit=300,
):
    """
    Calls harness.<module>.<function>(*job) for every job, spread over
    worker processes, and returns the results in order. Violations raised
    in a worker are raised here; so are errors met while handling what the
    code under test gave back. Other errors are the check's. `limit` is the
    time one job may take; one that takes longer did not come back from the
    code under test.
    """
    if not jobs:
        return []
    base = core.scratch() / f"par-{time.monotonic_ns()}"
    base.mkdir()
    todo = list(enumerate(jobs))
    results = {}
    running = []
    deadline = time.time() + timeout
    n = 0
    full_env = dict(
        os.environ,
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=f"{core.REPO}:{core.VERIF}",
        TMPDIR=str(base),  # removed with this process's scratch directory
        **(env or {}),
    )
    # every worker gets one share of the jobs (interleaved, so that costs mix)
    workers = min(workers, len(todo))
    shares = [todo[i::workers] for i in range(workers)]
    try:
        for share in shares:
            src, dst = base / f"{n}.in", base / f"{n}.out"
            n += 1
            src.write_bytes(pickle.dumps((module, function, patch, limit, share)))
            err = open(base / f"{n}.err", "w+")
            proc = subprocess.Popen(
                [*prefix, PY, "-m", "harness.parallel", str(src), str(dst)],
                env=full_env,
                stdout=err,
                stderr=subprocess.STDOUT,
                cwd="/",
                start_new_session=True,
            )
            running.append((proc, dst, err, share))
        found = []
        for proc, dst, err, share in running:
            try:
                rc = proc.wait(max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc != 0 or not dst.exists():
                err.seek(0)
                raise core.CheckError(
                    f"worker for {module}.{function} ended with {rc}:\n"
                    + err.read()[-4000:]
                )
            for i, kind, value in pickle.loads(dst.read_bytes()):
                if kind == "violation":
                    raise core.Violation(*value)
                if kind == "error":
                    found.append(value)
                results[i] = value
        if found:
            raise core.CheckError(found[0])
    finally:
        for proc, *_ in running:
            if proc.poll() is None:
                # with the processes it may have started
                os.killpg(proc.pid, signal.SIGKILL)
                proc.wait()
    return [results[i] for i in range(len(jobs))]


# what handling a value of the wrong shape or type ends in
UNUSABLE = (LookupError, TypeError, AttributeError, ValueError, AssertionError)


class Hung(BaseException):
    pass


def worker(src, dst):
    import ctypes
    import faulthandler
    import importlib

    def hung(*_):
        raise Hung

    faulthandler.enable()
    # does not outlive the check (1: PR_SET_PDEATHSIG)
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    module, function, patch, limit, share = pickle.loads(pathlib.Path(src).read_bytes())
    if patch:
        importlib.import_module("harness." + patch).install()
    # importing the package rewrites its seed file: one process at a time
    with open(pathlib.Path(src).parent / "import.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        try:
            import aiootp  # noqa: F401
        except Exception:
            pass  # the jobs will meet it again and report it
    out = []
    for i, job in share:
        try:
            f = getattr(importlib.import_module("harness." + module), function)
            if limit:
                signal.signal(signal.SIGALRM, hung)
                signal.setitimer(signal.ITIMER_REAL, limit, 1)
            try:
                value = f(*job)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
            out.append((i, "ok", value))
        except Hung:
            out.append((i, "violation", (
                f"a call did not come back within {limit} seconds",
                dict(job=repr(job)[:3000], where=traceback.format_exc()[-3000:]),
            )))
            break
        except core.Violation as v:
            out.append((i, "violation", (v.what, v.detail)))
            break
        except Exception as e:
            text = traceback.format_exc()
            if core.in_repo(e.__traceback__):
                what = f"unexpected {type(e).__name__} from the code under test: {e}"
                out.append((i, "violation", (what, text)))
            elif "aiootp" in sys.modules and isinstance(e, UNUSABLE):
                what = f"the code under test gave something unusable: {type(e).__name__}: {e}"
                out.append((i, "violation", (what, text)))
            else:
                out.append((i, "error", text))
            break
    tmp = pathlib.Path(dst + ".tmp")
    tmp.write_bytes(pickle.dumps(out))
    tmp.rename(dst)
    sys.stdout.flush()
    core.cleanup()
    for child in multiprocessing.active_children():
        child.kill()
    os._exit(0)


if __name__ == "__main__":
    sys.dont_write_bytecode = True
    worker(*sys.argv[1:])
