"""
D06: profiles against Profiles.tla.

For every respect in which two sets of credentials can differ, every
transition of the model is replayed into real profiles, sync and async.
"""

import asyncio
import concurrent.futures
import functools
import pathlib
import random
import shutil
import tempfile

from . import core, parallel, vloop

LIMITS = dict(mb=1, cpu=1, cores=1)
BASE = dict(
    username=b"user name", passphrase=b"correct horse battery", salt=b"salt",
    aad=b"aad", credentials=(b"token", b"pin"), **LIMITS,
)
# what differs -> (changes of the second profile, same directory, same salt)
VARIANTS = {
    "passphrase": (dict(passphrase=b"correct horse batterz"), True, True),
    "passphrase end": (dict(passphrase=b"correct horse battery\x00"), True, True),
    "mb": (dict(mb=2), True, True),
    "cpu": (dict(cpu=2), True, True),
    "cores": (dict(cores=2), True, True),
    "username": (dict(username=b"user namf"), True, False),
    "username end": (dict(username=b"user name\x00"), True, False),
    "username case": (dict(username=b"User name"), True, False),
    "salt": (dict(salt=b"sals"), True, False),
    "no salt": (dict(salt=b""), True, False),
    "aad": (dict(aad=b"aae"), True, False),
    "salt and aad swapped": (dict(salt=b"aad", aad=b"salt"), True, False),
    "salt and aad shifted": (dict(salt=b"salta", aad=b"ad"), True, False),
    "aad and username shifted": (
        dict(aad=b"aadu", username=b"ser name"), True, False,
    ),
    "credential": (dict(credentials=(b"token", b"pim")), True, False),
    "credential order": (dict(credentials=(b"pin", b"token")), True, False),
    "credential missing": (dict(credentials=(b"token",)), True, False),
    "credential added": (dict(credentials=(b"token", b"pin", b"")), True, False),
    "credentials joined": (dict(credentials=(b"tokenpin",)), True, False),
    "credential shifted": (dict(credentials=(b"tokenp", b"in")), True, False),
    "username and credential shifted": (
        dict(username=b"user namet", credentials=(b"oken", b"pin")), True, False,
    ),
    "directory": (dict(), False, False),
}


LONG = bytes(range(256))


def lengthen(creds, mode):
    """The same credentials with long equal beginnings or ends."""
    if mode == "short":
        return creds

    def longer(x):
        return x and (LONG + x if mode == "long start" else x + LONG)

    out = {k: longer(v) if isinstance(v, bytes) else v for k, v in creds.items()}
    out["credentials"] = tuple(map(longer, creds["credentials"]))
    return out


class Pool(concurrent.futures.ThreadPoolExecutor):
    """Stands in for the process pool, which costs seconds to start."""

    def __init__(self, max_workers=None, mp_context=None, *a, **kw):
        super().__init__(2)


def install():
    concurrent.futures.ProcessPoolExecutor = Pool


class Sync:
    name = "sync"

    def __init__(self):
        from aiootp import Database

        self.cls = Database

    def open(self, path, creds, preload=False):
        c = dict(creds)
        return self.cls.generate_profile(
            *c.pop("credentials"), path=path, preload=preload, **c
        )

    def read(self, db, tag):
        return db.query_tag(tag, silent=True)

    def write(self, db, tag, value):
        db.set_tag(tag, value)
        db.save_database()

    def delete(self, db):
        db.delete_database()


class Async:
    name = "async"

    def __init__(self, loop):
        from aiootp import AsyncDatabase

        self.cls = AsyncDatabase
        self.run = loop.run_until_complete

    def open(self, path, creds, preload=False):
        c = dict(creds)
        return self.run(
            self.cls.agenerate_profile(
                *c.pop("credentials"), path=path, preload=preload, **c
            )
        )

    def read(self, db, tag):
        return self.run(db.aquery_tag(tag, silent=True))

    def write(self, db, tag, value):
        async def go():
            await db.aset_tag(tag, value)
            await db.asave_database()

        self.run(go())

    def delete(self, db):
        self.run(db.adelete_database())


class Walk:
    def __init__(self, variant, apis, style, rng, reach_only, mode):
        self.reach_only = reach_only
        changes, self.same_dir, self.same_salt = VARIANTS[variant]
        self.variant, self.apis, self.style, self.rng = variant, apis, style, rng
        self.top = pathlib.Path(tempfile.mkdtemp(prefix="pr-", dir=core.scratch()))
        first, second = self.top / "one", self.top / "two"
        first.mkdir()
        second.mkdir()
        self.dirs = {"p": first, "q": first if self.same_dir else second}
        pair = [dict(BASE), {**BASE, **changes}]
        if rng.random() < 0.5:
            pair.reverse()
        self.creds = dict(zip("pq", (lengthen(c, mode) for c in pair)))
        self.lost = {first: 0, second: 0}
        self.orphans = {first: 0, second: 0}
        self.log = []
        self.api = None

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)

    def fail(self, what, **kw):
        raise core.Violation(
            f"{what} (profiles differing in: {self.variant})"
            f" [{self.api.name if self.api else '?'}]",
            dict(
                history=self.log, credentials=repr(self.creds),
                **{k: repr(v) for k, v in kw.items()},
            ),
        )

    def value(self, x, v):
        return None if v < 1 else {"of": x, "value": v}

    def device_salt(self, path):
        found = [p for p in (path / "secure" / "_admin").iterdir() if p.is_file()]
        if len(found) != 1:
            self.fail("not one device salt", found=found)
        return found[0]

    def other_deleted(self, x):
        for op, y, _ in reversed(self.log[:-1]):
            if y == x and op == "write":
                return False
            if op == "delete":
                return y != x
        return False

    def call(self, act, before):
        x, v = act["x"], act["v"]
        path = self.dirs[x]
        if act["op"] == "device":
            self.device_salt(path).unlink()
            return
        was = self.value(x, before["data"][x])
        db = self.api.open(path, self.creds[x], self.rng.random() < 0.5)
        got = self.api.read(db, "tag")
        if got != was:
            if got is None and self.reach_only and self.other_deleted(x):
                self.fail("deleting another profile made this one unreachable")
            if got is None:
                self.fail("opening a profile again did not reach its data",
                          got=got, want=was)
            self.fail("a profile shows data that is not its own",
                      got=got, want=was)
        if set(db.tags) != ({"tag"} if was else set()):
            self.fail("a profile lists tags that are not its own", got=db.tags)
        if act["op"] == "write":
            self.api.write(db, "tag", self.value(x, v))
        elif act["op"] == "delete":
            self.api.delete(db)

    def step(self, act, before, after):
        self.log.append([act["op"], act["x"], act["v"]])
        i = self.rng.randrange(2) if self.style == "mixed" else self.style == "async"
        self.api = self.apis[i]
        self.call(act, before)
        if self.reach_only:
            return
        self.lost[self.dirs[act["x"]]] += act["lost"]
        self.orphans[self.dirs[act["x"]]] += act["orphan"]
        for path in set(self.dirs.values()):
            here = [x for x in "pq" if self.dirs[x] == path]
            files = self.lost[path] + sum(
                min(after["data"][x], 1) + 1 for x in here
            )
            have = [p for p in path.iterdir() if p.is_file()]
            if len(have) != files:
                self.fail("the directory does not hold the profiles' files",
                          have=[p.name for p in have], want=files)
            salts = [after["salt"][x] for x in here]
            salts = max(salts) if self.same_salt else sum(salts)
            salts += self.orphans[path]
            secure = path / "secure"
            have = (
                [p for p in secure.iterdir() if p.is_file()]
                if secure.exists() else []
            )
            if len(have) != salts:
                self.fail("the directory does not hold the profiles' salts",
                          have=[p.name for p in have], want=salts)


def job(variant, paths, style, seed, reach_only, mode):
    rng = random.Random(f"{seed}/{variant}/{style}")
    loop = asyncio.new_event_loop()
    apis = (Sync(), Async(loop))
    done = 0
    try:
        for path in paths:
            walk = Walk(variant, apis, style, rng, reach_only, mode)
            try:
                for act, before, after in path:
                    walk.step(act, before, after)
                    done += 1
            finally:
                walk.close()
    finally:
        loop.close()
    return done


def unpack(g, paths):
    import json

    views = [json.loads(v) for v in g.views]
    out = []
    for root, steps in paths:
        cur, path = root, []
        for act, t, _ in steps:
            path.append((act, views[cur], views[t]))
            cur = t
        out.append(path)
    return out


def check_D06(ctx):
    ctx.assumptions += [
        "One setting differs between the two profiles at a time.",
        "Cost settings at or near their minimum; the process pool is replaced"
        " by a thread pool.",
    ]
    vals = ctx.pick("{1}", "{1, 2}")
    graphs = {}
    for same_dir, same_salt, shared in (
        (True, False, False), (False, False, False), (True, True, False),
        (True, True, True),
    ):
        c = dict(
            SameDir=str(same_dir).upper(), SameSalt=str(same_salt).upper(),
            Shared=str(shared).upper(), Vals=vals,
        )
        graphs[same_dir, same_salt, shared] = core.explore(
            ctx, "Profiles", constants=c,
            constraints=() if shared else ("PROPERTY Apart",),
        )

    def run(names, shared, styles):
        jobs = []
        for name in names:
            _, d, s = VARIANTS[name]
            g = graphs[d, s, shared]
            for style in styles:
                paths = unpack(g, g.paths(ctx.rng, max_len=40))
                modes = [(p, "short") for p in paths]
                modes += [
                    (p, m) for m in ("long start", "long end")
                    for p in ctx.pick([min(paths, key=len)], paths)
                ]
                for path, mode in modes:
                    jobs.append(
                        (name, [path], style, ctx.rng.random(), s and not shared, mode)
                    )
                ctx.sample(dict(differs=name, history=[a for a, *_ in paths[0]]))
        ctx.rng.shuffle(jobs)
        for j, n in zip(jobs, parallel.run("profiles", "job", jobs, patch="profiles")):
            ctx.count((j[0], j[2], repr(j[1])), n)
            ctx.traces += 1

    styles = ctx.pick(["sync", "async"], ["sync", "async", "mixed"])
    strict = [n for n, v in VARIANTS.items() if not v[2]]
    shared = [n for n, v in VARIANTS.items() if v[2]]
    run(strict, False, styles)
    # profiles that share a salt file: what the code does with it, strictly,
    # and then what it should do
    run(shared, True, styles)
    try:
        run(shared, False, ["mixed"])
    except core.Violation as v:
        ctx.violation(v.what, v.detail)
    ctx.exhaustive = True
