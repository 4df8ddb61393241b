"""D07: tasks using one async database at the same time."""

import asyncio
import json
import pathlib
import random
import shutil
import tempfile

from . import core, parallel, vloop
from .databases import KEY, TAGS


class Run:
    """
    One run. What is done to a tag depends on its kind:
      saved   set, queried and loaded; one task saves it, and in the end may
              drop it from the cache; it is cached from the beginning
      popped  set, queried, loaded; one task pops it
      undone  set, queried, loaded and rolled back
    or, while a task saves the whole database:
      kept    set, queried and loaded; cached from the beginning
      loose   anything; only that calls succeed, and the end, is judged
    """

    def __init__(self, seed):
        self.rng = rng = random.Random(seed)
        self.serial = 0
        self.names = {}
        self.whole = rng.random() < 0.45
        tags = [*rng.choice(TAGS), "third"][: rng.choice([1, 2, 3])]
        kinds = ["kept", "loose"] if self.whole else ["saved", "popped", "undone"]
        self.kinds = {t: rng.choice(kinds) for t in tags}
        self.tasks = rng.choice([2, 2, 3, 4])
        self.owners = {t: rng.randrange(self.tasks) for t in tags}
        self.dropped = set()
        self.traces = {}
        self.silent = rng.random() < 0.5

    def value(self):
        self.serial += 1
        name = f"v{self.serial}"
        return name, self.rng.choice([name, name.encode(), [name], {"k": name}, name * 900])

    def name(self, value):
        if isinstance(value, (list, dict)):
            value = list(value.values() if isinstance(value, dict) else value)[0]
        value = value.decode() if isinstance(value, bytes) else value
        return "=v" + value.split("v")[1]

    def event(self, tag, *e):
        self.traces[tag]["events"].append(list(e))

    def prepare(self, path):
        from aiootp import Database

        db = Database(KEY, path=path)
        if self.child:
            db.metatag("sub")
        top, db = db, db.sub if self.child else db
        for tag, kind in self.kinds.items():
            stored = ""
            if kind in ("saved", "kept") or self.rng.random() < 0.7:
                stored, value = self.value()
                db[tag] = value
            self.traces[tag] = dict(kind=kind, tasks=self.tasks + 2, cache="", disk=stored, events=[])
        top.save_database()

    async def call(self, p, tag, op):
        rng, db = self.rng, self.db
        name, value = self.value() if op in ("set", "put") else ("", None)
        self.event(tag, "call", p, op, name)
        try:
            out = "ok"
            if op == "set":
                if rng.random() < 0.3:
                    db[tag] = value
                else:
                    await db.aset_tag(tag, value)
            elif op == "put":
                await db.aset_tag(tag, value, cache=False)
            elif op in ("query", "load"):
                got = await db.aquery_tag(tag, cache=op == "load", silent=self.silent)
                out = "missing" if got is None else self.name(got)
            elif op == "pop":
                got = await db.apop_tag(tag, silent=rng.random() < 0.5)
                out = "missing" if got is None else self.name(got)
            elif op == "rollback":
                await db.arollback_tag(tag, cache=self.kinds[tag] != "loose" and rng.random() < 0.3)
            elif op in ("save", "drop"):
                try:
                    await db.asave_tag(tag, drop_cache=op == "drop")
                except LookupError:
                    out = "refused"
            elif op == "listed":
                out = "yes" if tag in db.tags else "no"
        except LookupError:
            out = "missing"
        except Exception as error:
            out = repr(error)[:200]
        self.event(tag, "ret", p, out)

    def choose(self, p, tag, last):
        kind, rng = self.kinds[tag], self.rng
        ops = ["set", "set", "query", "load"]
        if kind == "saved" and self.owners[tag] == p and tag not in self.dropped:
            ops += ["save", "save", "save"]
            if last:
                self.dropped.add(tag)
                ops = ["drop", "put"]
        elif kind == "popped" and self.owners[tag] == p:
            ops += ["pop", "pop", "pop"]
        elif kind == "undone":
            ops += ["rollback", "rollback", "rollback"]
        elif kind == "loose":
            ops += ["pop", "rollback", "pop", "rollback", "set"]
        return rng.choice(ops)

    async def task(self, p):
        rng = self.rng
        n = rng.choice([1, 2, 3, 4])
        for k in range(n):
            for _ in range(rng.choice([0, 0, 1, 3, 9])):
                await asyncio.sleep(0)
            await asyncio.sleep(rng.choice([0, 0, 1e-5, 1e-4, 1e-3]) * rng.random())
            tag = rng.choice(list(self.kinds))
            await self.call(p + 1, tag, self.choose(p, tag, k == n - 1))

    async def save_whole(self, p):
        tags = [t for t, k in self.kinds.items()]
        for t in tags:
            self.event(t, "call", p, "saveall", "")
        try:
            await self.top.asave_database()
            out = "ok"
        except Exception as error:
            out = repr(error)[:200]
        for t in tags:
            self.event(t, "ret", p, out)

    async def main(self, path):
        from aiootp import AsyncDatabase

        rng = self.rng
        self.top = await AsyncDatabase(KEY, path=path)
        self.db = self.top.sub if self.child else self.top
        for tag, kind in self.kinds.items():
            if kind in ("saved", "kept"):
                await self.call(self.tasks + 1, tag, "load")
        work = [self.task(p) for p in range(self.tasks)]

        async def saving():
            for _ in range(rng.choice([1, 1, 2])):
                await asyncio.sleep(rng.choice([0, 1e-5, 1e-4, 1e-3]) * rng.random())
                await self.save_whole(self.tasks + 1)

        if self.whole:
            work.append(saving())
        await asyncio.gather(*work)
        p = self.tasks + 2
        for tag, kind in self.kinds.items():
            await self.call(p, tag, "query")
        await self.save_whole(p)
        self.top = await AsyncDatabase(KEY, path=path, preload=rng.random() < 0.5)
        self.db = self.top.sub if self.child else self.top
        for tag, kind in self.kinds.items():
            self.event(tag, "call", p, "reopen", "")
            self.event(tag, "ret", p, "ok")
            await self.call(p, tag, "listed")
            if kind != "loose" or tag in self.db.tags:
                await self.call(p, tag, "query")


def failed(events):
    """Calls on a loose tag that failed, other than by reading a file while it is written."""
    ops, bad = {}, []
    for e in events:
        if e[0] == "call":
            ops[e[1]] = e[2]
        elif e[2].endswith(")") and ops[e[1]] not in ("pop", "query", "load"):
            bad.append(e)
    return bad


def tasks_job(seed, number):
    out = []
    for k in range(number):
        run = Run(f"{seed}/{k}")
        run.child = run.rng.random() < 0.3
        path = pathlib.Path(tempfile.mkdtemp(prefix="db-", dir=core.scratch()))
        try:
            run.prepare(path)
            vloop.run(run.main(path), run.rng, drag=run.rng.choice([0, 1e-5, 1e-4]))
        except vloop.Deadlock as error:
            raise core.Violation("the tasks do not come to an end", dict(error=repr(error))) from None
        finally:
            shutil.rmtree(path, ignore_errors=True)
        for tag, trace in run.traces.items():
            if trace["kind"] == "loose":
                bad = failed(trace["events"])
                # the last query is of a tag that is listed
                if bad or (trace["events"][-1][1:] == [run.tasks + 2, "missing"]):
                    raise core.Violation("a call failed while the database was saved", dict(trace, bad=bad))
            else:
                out.append(trace)
    return out


def check_D07(ctx):
    jobs = [(f"{ctx.seed}/{i}", ctx.pick(500, 3000)) for i in range(16)]
    traces = [t for r in parallel.run("dbtasks", "tasks_job", jobs, timeout=ctx.pick(600, 9000)) for t in r]
    unique = list({json.dumps(t): t for t in traces}.values())
    for t in traces:
        ctx.count(json.dumps(t), 1)
    ctx.sample(unique[0])
    core.validate(ctx, "DbTasksTrace", "DbTasksTrace", unique, what="concurrent calls on a tag", batch=1500)
