"""N05: functions run in other threads and processes."""

import asyncio
import json
import os
import pathlib
import random
import threading
import time

from . import core, parallel, threadsched
from .ciphers import cases

RealThread = threading.Thread


class ManagedThread(RealThread):
    """A thread that a scheduled thread starts is scheduled as well."""

    _worker = None

    def start(self):
        w = threadsched.current()
        if w is None:
            return super().start()
        threading.Thread = RealThread
        try:
            self._worker = w.sched.spawn(lambda _: self.run())
        finally:
            threading.Thread = ManagedThread
        self._worker.thread.start()
        w.sched.record("start", 0)

    def is_alive(self):
        return super().is_alive() if self._worker is None else not self._worker.done

    def join(self, timeout=None):
        if self._worker is None:
            return super().join(timeout)
        while not self._worker.done:
            w = threadsched.current()
            w.sched.slept(w)
            if timeout is not None:
                return


def install():
    threading.Thread = ManagedThread
    threadsched.install([core.REPO / "aiootp" / "asynchs" / "concurrency_interface.py"])


# ------------------------------------------------------------ what is run


class Odd(BaseException):
    pass


class Unsendable:
    def __reduce__(self):
        raise ValueError("cannot be sent")


FAILURES = ("error", "lookup", "odd", "exit")


def end(how, number):
    if how == "error":
        raise ValueError(number)
    elif how == "lookup":
        raise KeyError(number)
    elif how == "odd":
        raise Odd(number)
    elif how == "exit":
        raise SystemExit(number)
    elif how == "gone":
        os._exit(number)
    elif how == "unsendable":
        return Unsendable()


VALUES = [None, 0, b"", False, (), [], "", {"x": None}]


def value(number, size):
    """The number is in the value, unless it has no size."""
    return VALUES[-size - 1] if size < 0 else (number, bytes([number % 256]) * size)


class Work:
    """A function, by number: waits for its turn, ends as told."""

    def __init__(self, number, how, size, where, after, args):
        self.number, self.how, self.size = number, how, size
        self.where, self.after, self.args = where, after, args
        self.pause = 0

    def turn(self):
        return self.after is None or (self.where / f"done-{self.after}").exists()

    def enter(self, a, kw):
        with open(self.where / "ran", "a") as f:
            f.write(f"{self.number}\n")
        if [a, kw] != self.args:
            return (0, "other arguments")

    def leave(self):
        (self.where / f"done-{self.number}").touch()

    def __call__(self, *a, **kw):
        odd = self.enter(a, kw)
        while not self.turn():
            time.sleep(0.002)
        time.sleep(self.pause)
        try:
            return end(self.how, self.number) or odd or value(self.number, self.size)
        finally:
            self.leave()


async def awork(work, *a, **kw):
    odd = work.enter(a, kw)
    while not work.turn():
        await asyncio.sleep(0.002)
    try:
        return end(work.how, work.number) or odd or value(work.number, work.size)
    finally:
        work.leave()


def call(work, *a, **kw):
    return work(*a, **kw)


def name(works, got):
    """The numbers of the works whose values these are."""
    out = []
    for w, x in zip(works, got):
        want = value(w.number, w.size)
        out.append(w.number if type(x) is type(want) and x == want else 0)
    return out + [0] * (len(got) - len(works))


def judged(works, ret, vals):
    ran = [0] * len(works)
    log = works[0].where / "ran" if works else None
    if works and log.exists():
        for line in log.read_text().split():
            ran[int(line) - 1] += 1
    out = ["ok" if w.how == "ok" else "fail" for w in works]
    return dict(out=out, runs=ran, ret=ret, vals=vals, how=[[w.how, w.size] for w in works])


def room(rng):
    where = core.scratch() / f"off-{rng.getrandbits(60)}"
    where.mkdir()
    return where


ARGS = [[(), {}], [(1, b"x"), {}], [(), dict(key=None)], [((),), dict(args=1, kwargs={}, cls=2)]]


# ------------------------------------------------- one worker per function


def new_job(n, kind, seed):
    """Calls of new and anew, some at once."""
    from aiootp.asynchs import Processes, Threads

    rng = random.Random(seed)
    api = dict(threads=Threads, processes=Processes)[kind]
    out = []
    for _ in range(n):
        size = rng.choice([
            -1, -2, -3, -4, -5, -6, -7, -8, 0, 1, 4000, 65000, 65536 - 64 + rng.randrange(128), 65536, 65537, 131072, 1 << 20, 5 << 20,
        ])
        fail = FAILURES + (("gone", "unsendable") if kind == "processes" else ())
        how = rng.choice(["ok", "ok", "ok", rng.choice(fail)])
        works = []
        for i in range(rng.choice([1, 1, 3])):
            args = [list(ARGS[0]), list(rng.choice(ARGS[1:]))][rng.random() < 0.5]
            works.append((Work(1, how, size if i == 0 else rng.choice([0, 70000]), room(rng), None, args)))
        delay = {} if rng.random() < 0.5 else dict(probe_delay=rng.choice([1, 0.0001, 0.05]) if kind == "processes" else 0.002)
        if len(works) == 1 and rng.random() < 0.5:
            w = works[0]
            try:
                got = [api.new(w, *w.args[0], **w.args[1], **delay)]
            except Exception as e:
                got = [e]
        else:
            async def go():
                calls = []
                for w in works:
                    f = [w] if rng.random() < 0.5 else [awork, w]
                    calls.append(api.anew(*f, *w.args[0], **w.args[1], **delay))
                return await asyncio.gather(*calls, return_exceptions=True)

            got = asyncio.run(go())
        for w, x in zip(works, got):
            failed = isinstance(x, BaseException)
            out.append(judged([w], "failed" if failed else "ok", [] if failed else name([w], [x])))
    try:
        api.new(call, probe_delay=rng.choice([0, -1]))
    except ValueError:
        pass
    else:
        raise core.Violation("a delay that is not positive was accepted")
    return out


def scheduled_job(n, seed, plans):
    """Threads.new and anew, every step of caller and worker scheduled."""
    from aiootp.asynchs import Threads

    rng = random.Random(seed)
    out = []
    for k in range(n):
        plan = plans[k % len(plans)]
        sched = threadsched.Scheduler(rng, rng.choice([0.05, 0.2, 0.5]), plan=dict.fromkeys(plan, True) if plan else None)
        calls = []
        for i in range(rng.choice([1, 1, 2])):
            how = rng.choice(["ok", "ok", rng.choice(FAILURES)])
            w = Work(1, how, rng.choice([-1, -2, 0, 1, 3000]), room(rng), None, list(rng.choice(ARGS)))
            calls.append([w, rng.choice(["new", "anew", "aanew"]), "lost", []])

        def start(c):
            def body(worker):
                w, how = c[:2]
                try:
                    if how == "new":
                        got = Threads.new(w, *w.args[0], **w.args[1])
                    else:
                        f = [w] if how == "anew" else [awork, w]
                        got = threadsched.drive(worker, Threads.anew(*f, *w.args[0], **w.args[1]))
                    c[2:] = ["ok", name([w], [got])]
                except Exception:
                    c[2:] = ["failed", []]

            return body

        for c in calls:
            sched.spawn(start(c))
        sched.run(first=0)
        for w, how, ret, vals in calls:
            out.append(dict(judged([w], ret, vals), steps=sched.steps))
    return out


# ------------------------------------------------------ a pool of workers


def gather_job(batch, kind, seed):
    from aiootp.asynchs import Processes, Threads

    rng = random.Random(seed)
    api = dict(threads=Threads, processes=Processes)[kind]
    out = []
    for c in batch:
        where, works = room(rng), []
        args = list(rng.choice(ARGS))
        for i, how in enumerate(c["out"], 1):
            at = c["order"].index(i)
            after = c["order"][at - 1] if at else None
            # a process pool that loses a worker fails all calls
            kinds = FAILURES if kind == "threads" else ("error", "lookup", "exit", "unsendable")
            size = rng.choice([-1, -2, 0, 1, 70000, 200000])
            works.append(Work(i, how if how == "ok" else rng.choice(kinds), size, where, after, args))
        way = rng.choice(["gather", "agather", "mixed", "submit", "asubmit"])
        given = rng.choice([tuple, list, iter])(args[0])
        kw = {} if not args[0] and not args[1] and rng.random() < 0.5 else dict(args=given, kwargs=args[1])
        try:
            if way == "gather":
                got = api.gather(*works, **kw)
            elif way in ("agather", "mixed"):
                got = asyncio.run(api.agather(*[w if way == "agather" else Mixed(w, rng) for w in works], **kw))
            elif way == "submit":
                futures = [api.submit(w, *args[0], **args[1]) for w in works]
                got = [f.result() for f in futures]
            else:
                async def go():
                    futures = [await api.asubmit(w, *args[0], probe_delay=0.001, **args[1]) for w in works]
                    return [await f.aresult() if rng.random() < 0.7 else f.result() for f in futures]

                got = asyncio.run(go())
            ret, vals = "ok", name(works, got)
            if len(got) != len(works):
                vals = [0]
        except core.Violation:
            raise
        except BaseException as e:
            if isinstance(e, parallel.Hung):
                raise
            ret, vals = "failed", [repr(e)]
        if ret == "ok" or all(w.how == "ok" for w in works):
            out.append(dict(judged(works, ret, vals if ret == "ok" else []), way=way, why=vals))
        else:
            # those still waiting for a function that was never begun are let go
            for w in works:
                w.leave()
            time.sleep(0.01)
            out.append(dict(judged(works, ret, []), way=way, why=vals))
    # more functions than there are workers
    works = [Work(i, "ok", 1, where, None, [(), {}]) for where in [room(rng)] for i in range(1, 41)]
    for w in works[:: rng.choice([3, 40])]:
        w.pause = 0.03
    way = rng.choice([api.gather, lambda *a: asyncio.run(api.agather(*a))])
    try:
        got = way(*works)
        out.append(dict(judged(works, "ok", name(works, got)), way="many"))
    except Exception as e:
        out.append(dict(judged(works, "failed", []), way="many", why=repr(e)))
    if kind == "processes":
        broken_pool(api, rng)
        api.pool.shutdown(cancel_futures=True)
    return out


class Mixed:
    """Stands for an asynchronous function where functions are awaited."""

    def __new__(cls, work, rng):
        return work if rng.random() < 0.5 else AsyncWork(work)


class AsyncWork:
    def __init__(self, work):
        self.work = work

    def __call__(self, *a, **kw):
        return asyncio.run(awork(self.work, *a, **kw))


def broken_pool(api, rng):
    """A pool whose worker ended fails its calls, and can be replaced."""
    where = room(rng)
    dead = Work(1, "gone", 0, where, None, [(), {}])
    for f in (lambda: api.gather(dead), lambda: asyncio.run(api.agather(dead, dead))):
        try:
            got = f()
        except api.BrokenPool:
            pass
        except Exception as e:
            raise core.Violation(f"losing a worker ended in {type(e).__name__}")
        else:
            raise core.Violation("a worker was lost without a failure", dict(got=repr(got)))
    api.reset_pool()
    fine = Work(2, "ok", 1, where, None, [(), {}])
    if api.gather(fine) != [value(2, 1)]:
        raise core.Violation("a pool could not be replaced")


def check_N05(ctx):
    for size in (1, 2, 3):
        core.model_check(ctx, "Offload", constants=dict(Size=size, Pipe=2))
    found = cases(ctx, "Gather", constants=dict(N=ctx.pick(3, 4)))
    traces = []

    def add(function, jobs, **kw):
        for ts in parallel.run("offload", function, jobs, **kw):
            traces.extend(ts)

    # single preemptions at every step, then random schedules
    plans = [[a] for a in range(1, 60)] + [[a, b] for a in range(2, 40, 3) for b in range(a + 1, a + 30, 4)]
    jobs = [(len(plans[i::8]), ctx.rng.random(), plans[i::8]) for i in range(8)] * ctx.pick(2, 6)
    jobs = [(n, ctx.rng.random(), p) for n, _, p in jobs]
    jobs += [(ctx.pick(60, 400), ctx.rng.random(), [None]) for _ in range(8)]
    add("scheduled_job", jobs, patch="offload", limit=120)
    jobs = [(ctx.pick(25, 60), "threads", ctx.rng.random()) for _ in range(8)]
    jobs += [(ctx.pick(6, 30), "processes", ctx.rng.random()) for _ in range(8)]
    add("new_job", jobs, limit=100)
    ctx.rng.shuffle(found)
    jobs = [(found[i::8], "threads", ctx.rng.random()) for i in range(8)] * ctx.pick(3, 4)
    add("gather_job", [(a, b, ctx.rng.random()) for a, b, _ in jobs], limit=100)
    part = found[: ctx.pick(40, 400)]
    jobs = [(part[i::4], "processes", ctx.rng.random()) for i in range(4)]
    add("gather_job", jobs, workers=4, limit=400)
    for t in traces:
        ctx.count(json.dumps([t["out"], t["how"], t.get("way"), t.get("steps")]), 1)
    ctx.sample(traces[0])
    traces = [{k: t[k] for k in ("out", "runs", "ret", "vals")} for t in traces]
    core.validate(ctx, "OffloadTrace", "OffloadTrace", traces, what="call", batch=2000)
