"""N09: the asynchronous file calls."""

import asyncio
import errno
import functools
import json
import os
import random
import shutil
import stat
import tempfile
import threading

from . import core, parallel

ERRORS = {
    "exists": errno.EEXIST, "missing": errno.ENOENT, "not a directory": errno.ENOTDIR,
    "is a directory": errno.EISDIR, "not empty": errno.ENOTEMPTY,
}
NAMES = ("chmod", "chown", "makedirs", "mkdir", "rename", "remove", "rmdir", "sendfile", "stat")
threads = []


def install():
    """Notes which threads make the system's calls."""
    for name in NAMES:
        real = getattr(os, name)

        @functools.wraps(real)
        def call(*a, __real=real, **kw):
            threads.append(threading.get_ident())
            return __real(*a, **kw)

        setattr(os, name, call)


def file_job(steps, seed):
    from aiootp.asynchs import aos

    rng = random.Random(seed)
    os.umask(0o022)
    root = os.getuid() == 0
    top = tempfile.mkdtemp()
    path = lambda *a: os.path.join(top, *a)
    contents, log = {}, []
    mode = lambda kind, x: (0o644 if kind == "file" else 0o755) if x else 0o700

    def stop(what, **more):
        raise core.Violation(what, dict(history=log, **more))

    async def call(op, n, m, x, tree):
        if op == "mkdir":
            return await aos.mkdir(path(n))
        if op == "mkdir in":
            return await aos.mkdir(path(n, "x"))
        if op == "makedirs":
            return await (aos.makedirs(path(n, "x"), exist_ok=True) if x else aos.makedirs(path(n, "x")))
        if op == "remove":
            return await aos.remove(path(n))
        if op == "remove in":
            return await aos.remove(path(n, "x"))
        if op == "rmdir":
            return await aos.rmdir(path(n))
        if op == "rename":
            return await aos.rename(path(n), path(m))
        if op == "chmod":
            return await aos.chmod(path(n), mode(tree[n]["kind"], x))
        if op == "chown":
            return await aos.chown(path(n), 12345 if x else 0, 54321 if x else 0)
        if op == "stat":
            return await aos.stat(path(n))
        if op == "sendfile":
            source = os.open(path(n), os.O_RDONLY)
            sink = os.open(path(m), os.O_WRONLY | os.O_TRUNC)
            try:
                return await aos.sendfile(sink, source, 1, x)
            finally:
                os.close(source)
                os.close(sink)
        raise core.CheckError(op)

    async def main():
        own = threading.get_ident()
        tree = {n: dict(kind="none") for n in ("a", "b")}
        for a, after in steps:
            op, n, m, x, res = (a[k] for k in ("op", "n", "m", "x", "res"))
            log.append([op, n, m, x, res])
            got, before = None, len(threads)
            if op == "write":
                contents[n] = rng.randbytes(x)
                with open(path(n), "wb") as f:
                    f.write(contents[n])
            elif op == "write in":
                open(path(n, "x"), "wb").close()
            elif op != "chown" or root:
                try:
                    got = await call(op, n, m, x, tree)
                except OSError as e:
                    if res == "ok" or e.errno != ERRORS[res]:
                        stop(f"{op} failed as {e!r} instead of: {res}")
                else:
                    if res != "ok":
                        stop(f"{op} succeeded instead of: {res}")
                if own in threads[before:]:
                    stop(f"{op} held up the event loop")
            if res == "ok" and op == "rename":
                contents[m] = contents.pop(n, None)
            elif op == "sendfile":
                contents[m] = contents[n][1:]
                if got != x:
                    stop(f"sendfile returned {got!r} instead of {x}")
            elif op == "stat" and res == "ok":
                if got != os.stat(path(n)):
                    stop("stat returned something else", got=repr(got))
            elif op in NAMES and got is not None:
                stop(f"{op} returned {got!r}")
            tree = after
            for k, e in tree.items():
                try:
                    s = os.lstat(path(k))
                except FileNotFoundError:
                    found = dict(kind="none", **{"in": "none"})
                else:
                    isdir = stat.S_ISDIR(s.st_mode)
                    found = dict(kind="dir" if isdir else "file", mode=stat.S_IMODE(s.st_mode), own=(s.st_uid, s.st_gid))
                    inner = path(k, "x")
                    found["in"] = "dir" if os.path.isdir(inner) else "file" if os.path.isfile(inner) else "none"
                    if not isdir:
                        with open(path(k), "rb") as f:
                            found["content"] = f.read()
                want = dict(kind=e["kind"], **{"in": e["in"]})
                if e["kind"] != "none":
                    want["mode"] = mode(e["kind"], e["mode"])
                    want["own"] = ((12345, 54321) if e["own"] else (0, 0)) if root else found.get("own")
                if e["kind"] == "file":
                    want["content"] = contents[k]
                if found != want:
                    stop("the files are others than expected", name=k, found=repr(found), want=repr(want))

    try:
        asyncio.run(main())
    finally:
        shutil.rmtree(top, ignore_errors=True)
    return len(steps)


def check_N09(ctx):
    g = core.explore(ctx, "FileCalls", constants=dict(Names='{"a", "b"}', Sizes=ctx.pick("{0, 3}", "{0, 1, 3}")))
    jobs = []
    for _, steps in g.paths(ctx.rng, max_len=60):
        jobs.append(([(a, json.loads(g.views[t])) for a, t, *_ in steps], ctx.rng.random()))
    ctx.sample([a for a, _ in jobs[0][0]])
    for j, k in zip(jobs, parallel.run("filecalls", "file_job", jobs, patch="filecalls")):
        ctx.count(json.dumps(j[0]), k)
        ctx.traces += 1
    ctx.exhaustive = True
