"""
P01, P02: salt files.

Threads, and async tasks in loops of their own threads, call the salt file
functions under the controlled scheduler; every file operation is a point at
which another one may run. The workers of these checks run without root's
right to ignore permission bits.
"""

import asyncio
import gc
import json
import os
import pathlib
import random
import shutil
import stat
import tempfile

from . import core, fsmon, parallel, threadsched, vloop

PREFIX = ("setpriv", "--bounding-set=-dac_override,-dac_read_search")


def install():
    threadsched.install(
        [
            core.REPO / "aiootp" / "asynchs" / "guards",
            core.REPO / "aiootp" / "_paths.py",
        ]
    )
    fsmon.install()


def functions():
    from aiootp import _paths as p

    sync = dict(
        make=lambda f, v: p._make_salt_file(f, salt=v),
        read=lambda f, v: p._read_salt_file(f),
        update=lambda f, v: p._update_salt_file(f, salt=v),
        delete=lambda f, v: p._delete_salt_file(f),
    )
    asyn = dict(
        make=lambda f, v: p._amake_salt_file(f, salt=v),
        read=lambda f, v: p._aread_salt_file(f),
        update=lambda f, v: p._aupdate_salt_file(f, salt=v),
        delete=lambda f, v: p._adelete_salt_file(f),
    )
    return sync, asyn


def outcome(call):
    """How one call ended, in the words of the specifications."""
    try:
        got = call()
    except FileNotFoundError:
        return "missing", None
    except (PermissionError, FileExistsError) as error:
        return "refused", error
    except ValueError as error:
        return "value", error
    except (vloop.Deadlock, core.Violation):
        raise
    except Exception as error:
        return "failed", error
    return "ok", got


class Run:
    """One concurrent run on one salt file."""

    KEY = b"the key of a salt file, of 40 bytes.....".ljust(40)

    def __init__(self, rng):
        from aiootp._paths import AsyncSecureSaltPath, SecureSaltPath

        self.rng = rng
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="salt-", dir=core.scratch()))
        self.former = os.getcwd()
        os.chdir(self.dir)
        self.sync, self.asyn = functions()
        self.file = self.dir / "secure" / "file"
        self.names = {}
        self.events = []
        self.nproc = 0
        only_requests = rng.random() < 0.4
        self.requests = only_requests
        admin = rng.random() < 0.4
        if only_requests:
            kw = dict(key=self.KEY, _admin=admin)
            top = lambda: rng.choice([self.dir, str(self.dir), "."])
            self.sync["request"] = lambda f, v: SecureSaltPath(top(), **kw)
            self.asyn["request"] = lambda f, v: AsyncSecureSaltPath(top(), **kw)
            from aiootp._paths import AdminPath, SecurePath, _find_salt_file

            place = AdminPath(self.dir) if admin else SecurePath(self.dir)
            self.file = _find_salt_file(place, key=self.KEY)
        self.start = ""
        if not only_requests or rng.random() < 0.3:
            self.file.parent.mkdir(parents=True, exist_ok=True)
        if not only_requests and rng.random() < 0.7:
            self.file.write_bytes(self.salt("s0"))
            self.file.chmod(0)
            self.start = "s0"
        self.mix = rng.choice(
            [
                ["read", "read", "read", "update", "update", "make", "delete"],
                ["read", "update", "make", "make"],
            ]
        )
        self.programs = []
        threads = rng.choice([1, 2, 2, 3])
        for _ in range(threads):
            tasks = rng.choice([0, 0, 1, 2, 3]) if threads > 1 else rng.choice([2, 3])
            room = 5 - threads - self.nproc + len(self.programs)  # at most 4
            self.programs.append(
                [self.program() for _ in range(min(room, max(1, tasks)))] + [tasks > 0]
            )

    def program(self):
        """What one task does."""
        self.nproc += 1
        p = self.nproc
        if self.requests:
            ops = ["request", "read"] + self.rng.choice([[], ["request", "read"], ["read"]])
            if self.rng.random() < 0.2:
                ops.append("delete")
        else:
            ops = [
                self.rng.choice(self.mix)
                for _ in range(self.rng.choice([1, 1, 2, 3]))
            ]
        return p, ops

    def salt(self, name):
        data = (name.encode() * 40)[: self.rng.choice([32, 33, 64])]
        self.names[data] = name
        return data

    def spell(self):
        """The file, by either of its names."""
        return self.rng.choice([self.file, self.file.relative_to(self.dir)])

    def close(self):
        fsmon.watch(None, None)
        os.chdir(self.former)
        for p in self.dir.rglob("*"):
            if p.is_file():
                os.chmod(p, 0o600)
        shutil.rmtree(self.dir, ignore_errors=True)

    def called(self, p, op, k):
        v = f"v{p}.{k}" if op in ("make", "update") else ""
        self.events.append(["call", p, op, v])
        self.sched.idle = 0
        return self.salt(v) if v else b""

    def returned(self, p, out, got):
        if isinstance(got, bytes):
            if got not in self.names and len(got) == 32 and len(set(got)) > 4:
                self.names[got] = f"made{len(self.names)}"
            out = "=" + self.names.get(got, "torn")
        elif out in ("value", "failed", "refused") and got is not None:
            if not (out == "refused" and self.events_of(p) == "make"):
                out = f"{type(got).__name__}"
        self.events.append(["ret", p, out])
        self.sched.idle = 0

    def events_of(self, p):
        return next(e[2] for e in reversed(self.events) if e[0] == "call" and e[1] == p)

    def thread(self, program):
        *tasks, use_loop = program

        def main(w):
            for p, ops in tasks:
                for k, op in enumerate(ops):
                    v = self.called(p, op, k)
                    self.returned(p, *outcome(lambda: self.sync[op](self.spell(), v)))

        async def task(p, ops):
            for k, op in enumerate(ops):
                await asyncio.sleep(0)
                v = self.called(p, op, k)
                try:
                    got = await self.asyn[op](self.spell(), v)
                except Exception as error:
                    e = error

                    def call():
                        raise e

                    self.returned(p, *outcome(call))
                else:
                    self.returned(p, "ok", got)

        async def together():
            await asyncio.gather(*(task(p, ops) for p, ops in tasks))

        def loop(w):
            vloop.run(
                together(), random.Random(self.rng.random()),
                turn=lambda: self.sched.slept(w), steps=200_000, spread=0.3,
            )

        return loop if use_loop else main

    def run(self):
        self.sched = threadsched.Scheduler(
            self.rng, self.rng.choice([0.02, 0.1, 0.3, 0.6])
        )
        self.sched.limit = 3000

        def hook(what, path):
            w = threadsched.current()
            if w is not None:
                self.sched.idle = 0
                self.sched.step(w)

        threads = [self.sched.spawn(self.thread(p)) for p in self.programs]
        fsmon.watch(self.dir, hook)
        self.sched.events = self.events
        ok = self.sched.run()
        fsmon.watch(None, None)
        for w in threads:
            if w.error is not None:
                self.events.append([f"error {w.error!r}"])
        if not ok:
            if not any(e[0] == "stall" for e in self.events):
                self.events.append(["stall"])
        else:
            # what is there when everything is over
            self.sched.idle = 0
            self.called(1, "read", 0)
            self.returned(1, *outcome(lambda: self.sync["read"](self.file, b"")))
        return dict(
            file=self.start, procs=self.nproc,
            events=[e if e[0] in ("call", "ret") else [str(e[0])] for e in self.events],
        )


_kept = []


def run_job(seed, count):
    out = []
    for k in range(count):
        r = Run(random.Random(f"{seed}/{k}"))
        try:
            out.append(r.run())
        finally:
            r.close()
        if r.sched.deadlocked:
            # what is left of its coroutines must not run again
            _kept.append((r, gc.disable(), gc.get_objects()))
            break
    return out


def check_P01(ctx):
    good = dict(Exclusive="TRUE", Atomic="TRUE")
    core.model_check(
        ctx, "SaltFile",
        constants=dict(good, Procs=ctx.pick("{1,2,3}", "{1,2,3,4}")),
    )
    for broken in (dict(Exclusive="FALSE"), dict(Atomic="FALSE")):
        # the model tells the broken protocols apart
        r = core.tlc("SaltFile", constants={**good, "Procs": "{1,2}", **broken})
        if r.rc not in core.TLC_VIOLATION:
            raise core.CheckError("the model of the salt files lost its teeth")
    jobs = [(f"{ctx.seed}/{i}", ctx.pick(260, 6000)) for i in range(16)]
    traces = [
        t
        for r in parallel.run(
            "salts", "run_job", jobs, patch="salts", prefix=PREFIX,
            timeout=ctx.pick(700, 18000),
        )
        for t in r
    ]
    ctx.evaluations += len(traces)
    unique = list({json.dumps(t): t for t in traces}.values())
    for t in unique:
        ctx.distinct.add(hash(json.dumps(t)))
    ctx.sample(unique[0])
    ctx.sample(unique[-1])
    core.validate(
        ctx, "SaltTrace", "SaltTrace", unique, what="concurrent run",
        timeout=ctx.pick(300, 9000),
    )


# ------------------------------------------------------------------- P02


class Broken(OSError):
    pass


class Calls:
    """Calls one after another on one salt file."""

    def __init__(self, rng, loop):
        from aiootp._paths import AsyncSecureSaltPath, SecureSaltPath
        from aiootp._paths import SecurePath, _find_salt_file

        self.rng, self.loop = rng, loop
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="salt-", dir=core.scratch()))
        self.sync, self.asyn = functions()
        key = rng.randbytes(rng.choice([16, 32, 64, 100]))
        self.sync["request"] = lambda f, v: SecureSaltPath(self.dir, key=key)
        self.asyn["request"] = lambda f, v: AsyncSecureSaltPath(self.dir, key=key)
        self.file = _find_salt_file(SecurePath(self.dir), key=key)
        self.file.parent.mkdir()
        self.key = key
        self.traces = []

    def close(self):
        fsmon.watch(None, None)
        for p in self.dir.rglob("*"):
            if p.is_file():
                os.chmod(p, 0o600)
        shutil.rmtree(self.dir, ignore_errors=True)

    def peek(self):
        """The bytes and mode of the file, without disturbing it."""
        try:
            mode = stat.S_IMODE(os.stat(self.file).st_mode)
        except FileNotFoundError:
            return None, 0
        os.chmod(self.file, 0o600)
        with fsmon._open(self.file, "rb") as f:
            data = f.read()
        os.chmod(self.file, mode)
        return data, mode

    def label(self, data, given, before):
        if data is None:
            return "none"
        if data == before:
            return "short" if len(data) < 32 else "old"
        if given and data == given:
            return "v"
        if len(data) < 32:
            return "torn"
        if len(data) == 32 and not given:
            return "fresh"
        return "other"

    def step(self, op, size, fault):
        rng = self.rng
        if op == "plant":
            data, _ = self.peek()
            if data is not None:
                os.chmod(self.file, 0o600)
            self.file.write_bytes(rng.randbytes(size))
            os.chmod(self.file, 0)
            return
        before, _ = self.peek()
        given = rng.randbytes(size) if size else b""
        images, points = [], [0]
        where = rng.randrange(1, 8) if fault else None
        failed = [False]

        def hook(what, path):
            if what in ("read", "before chmod"):
                return
            if what in ("opening", "opened", "write") or what.startswith("before"):
                points[0] += 1
                if points[0] == where:
                    failed[0] = True
                    raise Broken(28, "no space left")
            images.append((what, self.peek()[0]))

        def quiet_hook(what, path):
            fsmon.watch(None, None)
            try:
                hook(what, path)
            finally:
                fsmon.watch(self.dir, quiet_hook)

        fsmon.watch(self.dir, quiet_hook)
        style = rng.choice(["sync", "async"])
        if style == "sync":
            out, got = outcome(lambda: self.sync[op](self.file, given))
        else:
            out, got = outcome(
                lambda: self.loop.run_until_complete(self.asyn[op](self.file, given))
            )
        fsmon.watch(None, None)
        after, mode = self.peek()
        extra = [p for p in self.file.parent.iterdir() if p.is_file() and p != self.file]
        for p in extra:
            p.unlink()
        common = dict(
            before=self.label(before, None, before), op=op, len=size, api=style
        )
        if op == "request" and out == "ok" and str(got) != str(self.file):
            raise core.Violation(
                "the location of a salt is not a function of directory and key",
                [str(got), str(self.file)],
            )
        if got is not None and not isinstance(got, bytes):
            got = None
        self.traces.append(
            dict(
                common, kind="call", fault=failed[0], out=out,
                after=self.label(after, given, before), mode=mode,
                got=self.label(got, given, before), extra=len(extra),
            )
        )
        for what, data in images:
            self.traces.append(
                dict(common, kind="image", at=what, image=self.label(data, given, before))
            )


def calls_job(seed, cases):
    loop = asyncio.new_event_loop()
    out = {}
    for k, case in enumerate(cases):
        rng = random.Random(f"{seed}/{k}")
        c = Calls(rng, loop)
        fault = rng.random() < 0.5
        try:
            for n, (op, size) in enumerate(case):
                c.step(op, size, fault and rng.random() < 0.6)
            for t in c.traces:
                out.setdefault(json.dumps(t), t)
        finally:
            c.close()
    loop.run_until_complete(loop.shutdown_default_executor())
    loop.close()
    return list(out.values()), sum(map(len, cases))


def places_job(seed, count):
    """The location depends on the directory and the key alone."""
    from aiootp._paths import AsyncSecureSaltPath, SecureSaltPath

    loop = asyncio.new_event_loop()
    n = 0
    for k in range(count):
        rng = random.Random(f"{seed}/{k}")
        base = pathlib.Path(tempfile.mkdtemp(prefix="salt-", dir=core.scratch()))
        try:
            dirs = [base / "one", base / "two"]
            for d in dirs:
                d.mkdir()
            keys = [rng.randbytes(rng.choice([16, 17, 32, 64])) for _ in range(3)]
            seen = {}
            for _ in range(16):
                d, key = rng.choice(dirs), rng.choice(keys)
                admin = rng.random() < 0.3
                arg = rng.choice([d, str(d), d / ".." / d.name])
                if rng.random() < 0.5:
                    got = SecureSaltPath(arg, key=key, _admin=admin)
                else:
                    got = loop.run_until_complete(
                        AsyncSecureSaltPath(arg, key=key, _admin=admin)
                    )
                n += 1
                if not got.is_file() or stat.S_IMODE(got.stat().st_mode):
                    raise core.Violation("a requested salt is not there or not locked")
                place = str(got.resolve())
                if not place.startswith(str(d.resolve()) + "/"):
                    raise core.Violation("a salt is outside its directory", place)
                if seen.setdefault((d, key, admin), place) != place:
                    raise core.Violation("the location of a salt changed")
            if len(set(seen.values())) != len(seen):
                raise core.Violation("different keys or directories share a salt")
        finally:
            for p in base.rglob("*"):
                if p.is_file():
                    os.chmod(p, 0o600)
            shutil.rmtree(base, ignore_errors=True)
    loop.run_until_complete(loop.shutdown_default_executor())
    loop.close()
    return n


def check_P02(ctx):
    cases = []

    def on_line(line):
        if line.startswith('"CASE '):
            cases.append(json.loads(json.loads(line)[5:]))
            return True
        return False

    core.model_check(
        ctx, "SaltCalls", on_line=on_line, workers=1, constants=dict(Depth=3)
    )
    ctx.rng.shuffle(cases)
    cases = [c for c in cases if len(c) < 3] * ctx.pick(4, 40) + cases * ctx.pick(1, 10)
    jobs = [(f"{ctx.seed}/{i}", cases[i::16]) for i in range(16)]
    unique = {}
    for traces, n in parallel.run(
        "salts", "calls_job", jobs, patch="salts", prefix=PREFIX,
        timeout=ctx.pick(700, 18000),
    ):
        ctx.evaluations += n
        for t in traces:
            unique.setdefault(json.dumps(t), t)
            ctx.distinct.add(hash(json.dumps(t)))
    traces = list(unique.values())
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    core.validate(ctx, "SaltCallsTrace", "SaltCallsTrace", traces, what="call")
    for n in parallel.run(
        "salts", "places_job", [(f"{ctx.seed}/{i}", ctx.pick(20, 500)) for i in range(8)],
        patch="salts", prefix=PREFIX,
    ):
        ctx.evaluations += n
