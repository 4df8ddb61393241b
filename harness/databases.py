"""
D01-D04: the databases against Database.tla.

Every transition TLC explores is replayed into real databases, sync and
async. After each call the outcome, every session observation, what a fresh
opening sees (D02) and the directory (D04) are compared with the model.
"""

import asyncio
import json
import pathlib
import random
import shutil
import tempfile

from . import core, parallel, vloop

FAIL = 99
REFUSED = 98
KEY = bytes(range(200))

VALUES = [
    b"", b"\x00", b"raw bytes \xff\xfe", bytes(300), b"{}", b"null",
    b'"text"', bytes(range(256)) * 4,
    "", "text", "é中\U0001f600", "\x00\n\"'\\", 0, 1, -7, 2**70, 0.5,
    True, False, [], [1, "a", [None, {}]], {}, {"k": [1, 2], "": "e"},
    {"a": {"b": {"c": "€"}}}, "bytes", "data:bytes;base64,AAAA",
    [1.5, True, None], "x" * 700, "\ud800", ["\udfff\x00", {"\ud83d": "\u2028"}],
    {"b": 1, "a": 2}, [None], -0.0, 1e300,
]
TAGS = [
    ("x", "y"), ("0", "1"), ("", " "), ("tag", "Tag"), ("tags", "_cache"),
    ("m", "n"), ("é", "é"), ("a/b", "../a"), ("k" * 300, "k" * 299),
    ("metatags", "filenames"),
]
OTHERS = ("third", "4th", "\U0001f600" * 20, "six\n")
METAS = [("m", "n"), ("x", "y"), ("clients", "servers"), ("_m", "_n"), ("0", "1")]


def same(a, b):
    """Equality that tells 1, True and 1.0 apart, also inside containers."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


class Missing:
    def __repr__(self):
        return "<LookupError>"


MISSING = Missing()


class Reserved:
    def __repr__(self):
        return "<refused>"


RESERVED = Reserved()


class Boom(Exception):
    pass


class Sync:
    """One interface to both classes; every method returns a plain value."""

    name = "sync"

    def __init__(self):
        from aiootp import Database

        self.cls = Database

    def open(self, path, preload, key=KEY):
        return self.cls(key, path=path, preload=preload)

    def set(self, db, tag, value, cache=True):
        db.set_tag(tag, value, cache=cache)

    def save_tag(self, db, tag, drop):
        db.save_tag(tag, drop_cache=drop)

    def query(self, db, tag, **kw):
        return db.query_tag(tag, **kw)

    def pop(self, db, tag, **kw):
        return db.pop_tag(tag, **kw)

    def rollback(self, db, tag, cache):
        db.rollback_tag(tag, cache=cache)

    def clear(self, db, metatags):
        db.clear_cache(metatags=metatags)

    def save(self, db):
        db.save_database()

    def leave(self, db, fail):
        with db as inner:
            if inner is not db:
                raise core.Violation("the context is not the database")
            if fail:
                raise Boom

    def metatag(self, db, name, preload):
        return db.metatag(name, preload=preload, silent=True)

    def delete_metatag(self, db, name):
        db.delete_metatag(name)

    def delete(self, db):
        db.delete_database()

    def reload(self, db, manifest, preload):
        db.load_database(manifest=manifest, preload=preload, silent=True)

    def filename(self, db, tag):
        return db.filename(tag)


class Async(Sync):
    name = "async"

    def __init__(self, loop):
        from aiootp import AsyncDatabase

        self.cls = AsyncDatabase
        self.run = loop.run_until_complete

    def open(self, path, preload, key=KEY):
        async def make():
            return await self.cls(key, path=path, preload=preload)

        return self.run(make())

    def set(self, db, tag, value, cache=True):
        self.run(db.aset_tag(tag, value, cache=cache))

    def save_tag(self, db, tag, drop):
        self.run(db.asave_tag(tag, drop_cache=drop))

    def query(self, db, tag, **kw):
        return self.run(db.aquery_tag(tag, **kw))

    def pop(self, db, tag, **kw):
        return self.run(db.apop_tag(tag, **kw))

    def rollback(self, db, tag, cache):
        self.run(db.arollback_tag(tag, cache=cache))

    def clear(self, db, metatags):
        self.run(db.aclear_cache(metatags=metatags))

    def save(self, db):
        self.run(db.asave_database())

    def leave(self, db, fail):
        async def body():
            async with db as inner:
                if inner is not db:
                    raise core.Violation("the context is not the database")
                if fail:
                    raise Boom

        self.run(body())

    def metatag(self, db, name, preload):
        return self.run(db.ametatag(name, preload=preload, silent=True))

    def delete_metatag(self, db, name):
        self.run(db.adelete_metatag(name))

    def delete(self, db):
        self.run(db.adelete_database())

    def reload(self, db, manifest, preload):
        self.run(
            db.aload_database(manifest=manifest, preload=preload, silent=True)
        )

    def filename(self, db, tag):
        return self.run(db.afilename(tag))


FOREIGN = {
    "0": b"zero", "1": b"one", "notes.txt": b"n", "x": b"xx", "r": b"", "m": b"mm",
    "tags": b"t",
}


class Walk:
    """Replays one path of the model."""

    def __init__(self, nodes, apis, style, rng, aspects):
        self.nodes, self.apis, self.rng, self.aspects = nodes, apis, rng, aspects
        self.style = style
        self.path = pathlib.Path(
            tempfile.mkdtemp(prefix="db-", dir=core.scratch())
        )
        self.tagnames = dict(zip("xyzuvw", (*rng.choice(TAGS), *OTHERS)))
        self.metanames = dict(zip("mn", rng.choice(METAS)))
        values = rng.sample(VALUES, 3)
        while any(same(a, b) for a in values[:1] for b in values[1:]):
            values = rng.sample(VALUES, 3)
        self.values = {i + 1: v for i, v in enumerate(values)}
        if 0 not in [len(repr(v)) for v in values] and rng.random() < 0.1:
            self.values[2] = None
        self.api = None
        self.db = None
        self.left = set()      # files of tags left behind, by name
        self.leftroots = 0
        self.expected_left = set()
        self.other = None
        if "files" in aspects:
            for name, data in FOREIGN.items():
                (self.path / name).write_bytes(data)
            (self.path / "folder").mkdir()
            other = Sync().open(self.path, False, key=bytes(200))
            for t in self.tagnames.values():
                Sync().set(other, t, "other")
            Sync().set(Sync().metatag(other, "m", False), "x", "other sub")
            Sync().save(other)
            self.other = self.snapshot()
        self.ghosts = []       # objects of databases that were deleted
        self.log = []

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)

    def snapshot(self):
        return {
            p.name: (p.read_bytes() if p.is_file() else None)
            for p in self.path.iterdir()
        }

    def fail(self, what, **kw):
        raise core.Violation(
            f"{what} [{self.api.name if self.api else '?'}]",
            dict(
                history=self.log, tags=self.tagnames, metatags=self.metanames,
                values=repr(self.values), **{k: repr(v) for k, v in kw.items()},
            ),
        )

    # ------------------------------------------------------------ naming
    def node(self, n):
        """The open database object of a node, reached by attributes."""
        db = self.db
        for c in n[1:]:
            db = getattr(db, self.metanames[c])
        return db

    def family(self, db):
        """A database object and those of its metatags, with their class."""
        out = [(db, self.api)]
        for name in db.metatags:
            out += self.family(getattr(db, name))
        return out

    def poke(self):
        """Objects of deleted databases do not change files any more."""
        db, api = self.rng.choice(self.ghosts)
        before = self.snapshot()
        tag, meta = self.tagnames["x"], self.metanames["m"]
        calls = [
            lambda: api.set(db, tag, "ghost", cache=False),
            lambda: api.save(db),
            lambda: (db.__setitem__(tag, "ghost"), api.save(db)),
            lambda: api.leave(db, False),
            lambda: api.pop(db, tag, silent=True),
            lambda: api.save(api.metatag(db, meta, False)),
            lambda: api.delete_metatag(db, meta),
            lambda: api.delete(db),
        ]
        at = self.rng.randrange(len(calls))
        try:
            calls[at]()
        except (AttributeError, LookupError, TypeError):
            pass
        if self.snapshot() != before:
            self.fail("an object of a deleted database changed files", call=at)

    def value(self, v):
        return None if v == 0 else self.values[v]

    def live(self, state):
        out = []

        def visit(n):
            out.append(n)
            for c in state["metas"][n]:
                visit(n + c)

        if state["open"]:
            visit("r")
        return out

    # ------------------------------------------------------------- steps
    def call(self, act):
        api, op, o = self.api, act["op"], act["o"]
        db = self.node(act["n"]) if op != "open" else None
        tag = self.tagnames.get(act["t"], act["t"])
        if op == "set":
            v = self.values[act["v"]]
            if o == "item":
                db[tag] = v
            else:
                api.set(db, tag, v)
        elif op == "setsave":
            api.set(db, tag, self.values[act["v"]], cache=False)
        elif op == "savetag":
            api.save_tag(db, tag, o == "drop")
        elif op == "query":
            return api.query(
                db, tag, silent=o.startswith("silent"), cache=o.endswith("keep")
            )
        elif op == "pop":
            return api.pop(db, tag, silent=o == "silent")
        elif op == "del":
            del db[tag]
        elif op == "rollback":
            api.rollback(db, tag, o == "keep")
        elif op == "clear":
            api.clear(db, o == "deep")
        elif op == "save":
            if o == "save":
                api.save(db)
            else:
                try:
                    api.leave(db, o == "exiterr")
                except Boom:
                    if o != "exiterr":
                        raise
                else:
                    if o == "exiterr":
                        self.fail("an error raised in the context vanished")
        elif op == "metatag":
            name = self.metanames[act["t"]]
            sub = api.metatag(db, name, o == "preload")
            if getattr(db, name) is not sub:
                self.fail("a metatag is not reachable under its name")
        elif op == "delmeta":
            name = self.metanames[act["t"]]
            ghosts = self.family(getattr(db, name)) if name in db.metatags else []
            api.delete_metatag(db, name)
            self.ghosts += ghosts
        elif op == "reserved":
            name = self.rng.choice([x for x in dir(type(db)) + ["path"] if x[:2] != "__"])
            if o == "metatag":
                before = getattr(type(db), name, None)
                api.metatag(db, name, False)
                self.fail("a name of the class became a metatag", name=name, was=before)
            api.delete_metatag(db, name)
        elif op == "delete":
            ghosts = self.family(db)
            api.delete(db)
            self.ghosts += ghosts
            self.db = None
        elif op == "open":
            self.api = self.choose()
            self.db = self.api.open(self.path, o == "preload")
        elif op == "reload":
            api.reload(db, o.startswith("manifest"), o.endswith("+preload"))
        else:
            raise core.CheckError(op)
        return None

    def choose(self):
        if self.style == "mixed":
            return self.rng.choice(self.apis)
        return self.apis[0 if self.style == "sync" else 1]

    def step(self, act, before, after):
        self.log.append([act["op"], act["n"], act["t"], act["v"], act["o"]])
        if "files" in self.aspects and (act["left"] or act["leftroots"]):
            for n, t in act["left"]:
                self.left.add(self.filenames(n)[t])
            self.leftroots += len(act["leftroots"])
        if self.api is None:
            self.api = self.choose()
        try:
            got = self.call(act)
        except LookupError:
            got = MISSING
        except PermissionError:
            if act["op"] != "reserved":
                raise
            got = RESERVED
        want = {FAIL: MISSING, REFUSED: RESERVED}.get(act["res"])
        if want is None:
            want = self.value(act["res"])
        if not (got is want or same(got, want)):
            self.fail(f"{act['op']} gave an unexpected outcome", got=got, want=want)
        if "session" in self.aspects:
            self.check_session(after)
        if "peek" in self.aspects:
            self.check_fresh(after)
        if "files" in self.aspects:
            self.check_files(after)
            if self.ghosts and self.rng.random() < 0.3:
                self.poke()

    def filenames(self, n):
        db = self.known.get(n)
        return {t: self.api.filename(db, self.tagnames[t]) for t in self.tags}

    # ------------------------------------------------------ observations
    def check_session(self, state):
        for n in self.live(state):
            db = self.node(n)
            names = self.tagnames
            want = {names[t] for t in state["man"][n]}
            metas = {self.metanames[m] for m in state["metas"][n]}
            if set(db.tags) != want:
                self.fail("wrong listing of tags", node=n, got=db.tags, want=want)
            if set(db.metatags) != metas:
                self.fail("wrong listing of metatags", node=n, got=db.metatags)
            if len(db) != len(want):
                self.fail("wrong length", node=n, got=len(db), want=len(want))
            if bool(db) != bool(want or metas):
                self.fail("wrong truth value", node=n)
            if len(set(db.filenames)) != len(want):
                self.fail("wrong listing of filenames", node=n)
            for t, c in state["cache"][n].items():
                known = bool(c) or t in state["man"][n]
                if (names[t] in db) != known:
                    self.fail("wrong membership", node=n, tag=names[t])
                if not same(db[names[t]], self.value(c)):
                    self.fail("wrong value by item access", node=n, tag=names[t])
                v = c or state["file"][n][t]
                got = self.api.query(db, names[t], silent=True)
                if not same(got, self.value(v)):
                    self.fail(
                        "wrong value of a tag", node=n, tag=names[t], got=got,
                        want=self.value(v),
                    )

    def check_fresh(self, state):
        """What a later opening would see, by either class."""
        api = self.rng.choice(self.apis)
        preload = self.rng.random() < 0.5
        before = self.snapshot()
        top = api.open(self.path, preload)
        names = self.tagnames

        def visit(n, db):
            d = state["disk"][n]
            if set(db.tags) != {names[t] for t in d["tags"]}:
                self.fail("a fresh opening lists other tags", node=n, got=db.tags)
            if set(db.metatags) != {self.metanames[m] for m in d["metas"]}:
                self.fail("a fresh opening lists other metatags", node=n)
            for t, v in state["file"][n].items():
                if not d["ex"]:
                    v = 0
                if preload and t in d["tags"]:
                    if not same(db[names[t]], self.value(v)):
                        self.fail("a preloaded value differs", node=n, tag=t)
                got = api.query(db, names[t], silent=True)
                if not same(got, self.value(v)):
                    self.fail(
                        "a fresh opening reads another value", node=n, tag=t,
                        got=got, want=self.value(v),
                    )
            for m in d["metas"]:
                if state["disk"][n + m]["ex"]:
                    visit(n + m, getattr(db, self.metanames[m]))

        visit("r", top)
        if self.snapshot() != before:
            self.fail("opening a database changed its directory")

    def check_files(self, state):
        """The directory holds what the model says, and nothing else."""
        have = self.snapshot()
        for name, data in self.other.items():
            if have.pop(name, False) != data:
                self.fail("a file of somebody else was changed", name=name)
        for name in self.left:
            have.pop(name, None)
        want = set()
        for n in self.live(state):
            self.known[n] = self.node(n)
            files = self.filenames(n)
            for t, v in state["file"][n].items():
                if v:
                    want.add(files[t])
                elif files[t] in have:
                    self.fail("the file of a tag remains", node=n, tag=t)
        # databases that are closed but stored: only the number of files is
        # known without opening them
        hidden = roots = 0
        for n, d in state["disk"].items():
            roots += d["ex"]
            if n not in self.live(state):
                hidden += sum(1 for v in state["file"][n].values() if v)
        if not want <= have.keys():
            self.fail("a file is missing", names=want - have.keys())
        rest = len(have) - len(want) - hidden - roots - self.leftroots
        if rest:
            self.fail(
                "the directory has more files than the database stored"
                if rest > 0 else "the directory has lost files",
                extra=rest, have=sorted(have),
            )

    def run(self, steps, state):
        self.known = {}
        self.tags = list(state["cache"]["r"])
        for act, after in steps:
            self.step(act, state, after)
            state = after


def replay_job(nodes, paths, views, style, seed, aspects):
    """paths: lists of (act, state number)."""
    loop = asyncio.new_event_loop()
    apis = [Sync(), Async(loop)]
    states = {}

    def state(i):
        if i not in states:
            states[i] = json.loads(views[i])
        return states[i]

    steps = 0
    sample = None
    try:
        for k, (root, path) in enumerate(paths):
            rng = random.Random(f"{seed}/{k}")
            w = Walk(nodes, apis, style, rng, aspects)
            try:
                w.run([(a, state(t)) for a, t in path], state(root))
            finally:
                w.close()
            steps += len(path)
            if sample is None:
                sample = w.log
    finally:
        loop.run_until_complete(loop.shutdown_default_executor())
        loop.close()
    return steps, len(paths), sample


def replay(ctx, graph, nodes, aspects, styles=("sync", "async"), limit=None):
    paths = graph.paths(ctx.rng)
    if limit:
        ctx.rng.shuffle(paths)
        paths = paths[:limit]
    jobs = []
    for style in styles:
        shuffled = list(paths)
        ctx.rng.shuffle(shuffled)
        size = max(1, len(shuffled) // 24)
        for i in range(0, len(shuffled), size):
            part = shuffled[i : i + size]
            used = {s for r, p in part for s in [r, *(t for _, t, _ in p)]}
            jobs.append(
                (
                    nodes,
                    [(r, [(a, t) for a, t, _ in p]) for r, p in part],
                    {s: graph.views[s] for s in used},
                    style,
                    f"{ctx.seed}/{style}/{i}",
                    aspects,
                )
            )
    for steps, n, sample in parallel.run(
        "databases", "replay_job", jobs, timeout=ctx.pick(700, 18000)
    ):
        ctx.evaluations += steps
        ctx.traces += n
        if sample:
            ctx.sample(sample[:30])
    for i in range(graph.edges):
        ctx.distinct.add((ctx.prop, id(graph), i))


TAGOPS = '"set","setsave","savetag","query","pop","del","rollback","clear","save"'


def check_D01(ctx):
    g = core.explore(
        ctx, "Database", sets=True,
        constants=dict(
            Nodes='{"r"}', Tags='{"x","y"}', Vals="{1,2}",
            Ops="{" + TAGOPS + ',"reload"}', Opens="{FALSE}",
        ),
    )
    replay(ctx, g, ["r"], ["session"])
    long_walks(
        ctx, ctx.pick(48, 2000), 50, ["session"], TREEOPS % "",
        ("sync", "async"), ("r", "rm", "rn"), "xyzu",
    )
    ctx.exhaustive = True


FLATOPS = '{"set","setsave","savetag","pop","rollback","clear","save","open","delete","reload"}'


def check_D02(ctx):
    g = core.explore(
        ctx, "Database", sets=True,
        constants=dict(
            Nodes='{"r"}', Tags='{"x","y"}', Vals="{1,2}",
            Ops=FLATOPS, Opens="{TRUE,FALSE}",
        ),
    )
    replay(ctx, g, ["r"], ["session", "peek"], ("sync", "async", "mixed"))
    long_walks(
        ctx, ctx.pick(48, 2000), 50, ["session", "peek"], FLATOPS,
        ("sync", "async"), ("r",), "xyzuvw",
    )
    long_walks(
        ctx, ctx.pick(48, 2000), 50, ["session", "peek"], TREEOPS % ',"delete"',
        ("sync", "async"), ("r", "rm", "rn"), "xy",
    )


TREE = ("r", "rm", "rn", "rmn", "rmm")


def long_walks(ctx, num, depth, aspects, ops, styles, nodes=TREE, tags="xy"):
    """Random behaviours over a larger database, generated by TLC."""
    paths = core.simulate(
        ctx, "DatabaseSim", "DatabaseSim", num=num, depth=depth + 1,
        seed=ctx.seed,
        constants=dict(
            Nodes="{" + ",".join(f'"{n}"' for n in nodes) + "}",
            Tags="{" + ",".join(f'"{t}"' for t in tags) + "}", Vals="{1,2,3}",
            Ops=ops, Opens="{TRUE,FALSE}", Length=depth,
        ),
    )
    if len(paths) < num // 2:
        raise core.CheckError(f"only {len(paths)} behaviours generated")
    empty = dict(
        cache={n: dict.fromkeys(tags, 0) for n in nodes}, man={n: [] for n in nodes},
        metas={n: [] for n in nodes}, file={n: dict.fromkeys(tags, 0) for n in nodes},
        disk={n: dict(ex=False, tags=[], metas=[]) for n in nodes}, open=False,
    )
    jobs = []
    for style in styles:
        size = max(1, len(paths) // 8)
        for i in range(0, len(paths), size):
            views = {0: json.dumps(empty)}
            part = []
            for p in paths[i : i + size]:
                steps = []
                for a, text in p:
                    views[len(views)] = text
                    steps.append((a, len(views) - 1))
                part.append((0, steps))
            jobs.append((nodes, part, views, style, f"{ctx.seed}/{style}/{i}", aspects))
    for steps, n, sample in parallel.run(
        "databases", "replay_job", jobs, timeout=ctx.pick(700, 18000)
    ):
        ctx.evaluations += steps
        ctx.traces += n
    for p in paths:
        ctx.distinct.add(hash(json.dumps(p)))


TREEOPS = '{"set","setsave","savetag","query","pop","del","rollback","clear","save","open","metatag","delmeta"%s}'


def race_job(seed, count):
    """Tasks that open metatags of one database at the same time."""
    from aiootp import AsyncDatabase, Database

    out = []
    for k in range(count):
        rng = random.Random(f"{seed}/{k}")
        events, objects = [], []
        path = pathlib.Path(tempfile.mkdtemp(prefix="db-", dir=core.scratch()))
        stored = rng.random() < 0.5
        top = Database(KEY, path=path)
        if stored:
            top.metatag("m")
            if rng.random() < 0.5:
                top.metatag("n")["y"] = "old"
                top.n.save_database()
        top.save_database()

        def number(db):
            for i, o in enumerate(objects):
                if o is db:
                    return i + 1
            objects.append(db)
            return len(objects)

        async def main():
            db = await AsyncDatabase(KEY, path=path)
            if stored:
                for m in db.metatags:
                    events.append(["got", m, number(getattr(db, m))])
                    if "y" in getattr(db, m):
                        events.append(["set", m, "y", 77])
            serial = [0]

            async def task(t):
                for _ in range(rng.choice([1, 1, 2])):
                    name = rng.choice("mmn")
                    for _ in range(rng.choice([0, 0, 1, 3, 9])):
                        await asyncio.sleep(0)
                    sub = await db.ametatag(name, preload=rng.random() < 0.3)
                    events.append(["got", name, number(sub)])
                    serial[0] += 1
                    sub["x"] = serial[0]
                    events.append(["set", name, "x", serial[0]])
                    await asyncio.sleep(rng.choice([0, 0, 1e-5, 1e-4]))
                    again = getattr(db, name)
                    events.append(["got", name, number(again)])
                    events.append(["read", name, "x", again["x"]])

            await asyncio.gather(*(task(t) for t in range(rng.choice([2, 3, 4]))))
            events.append(["list", sorted(db.metatags)])
            await db.asave_database()
            db = await AsyncDatabase(KEY, path=path, preload=True)
            for m in sorted(db.metatags):
                sub = getattr(db, m)
                events.append(["read", m, "x", sub["x"] or 0])
                if stored and "y" in sub:
                    events.append(["read", m, "y", 77 if sub["y"] == "old" else 1])

        try:
            vloop.run(main(), rng)
        except (vloop.Deadlock, core.Violation) as error:
            events.append([repr(error)])
        finally:
            shutil.rmtree(path, ignore_errors=True)
        out.append(dict(events=events))
    return out


def race(ctx):
    core.model_check(ctx, "MetatagRace")
    jobs = [(f"{ctx.seed}/{i}", ctx.pick(60, 2500)) for i in range(8)]
    traces = [
        t
        for r in parallel.run("databases", "race_job", jobs, timeout=ctx.pick(600, 9000))
        for t in r
    ]
    unique = list({json.dumps(t): t for t in traces}.values())
    ctx.evaluations += len(traces)
    for t in unique:
        ctx.distinct.add(hash(json.dumps(t)))
    core.validate(ctx, "MetatagTrace", "MetatagTrace", unique, what="concurrent run")


def check_D03(ctx):
    g = core.explore(
        ctx, "Database", sets=True,
        constants=dict(
            Nodes='{"r","rm"}', Tags='{"x"}', Vals=ctx.pick("{1}", "{1,2}"),
            Ops='{"set","savetag","query","pop","rollback","clear","save","open","delete","metatag","delmeta","reserved"}',
            Opens="{TRUE}",
        ),
    )
    replay(ctx, g, ["r", "rm"], ["session"], ("sync", "async"))
    g = core.explore(
        ctx, "Database", sets=True,
        constants=dict(
            Nodes='{"r","rm","rmn"}', Tags='{"x"}', Vals="{1}",
            Ops='{"set","clear","save","open","metatag","delmeta"}', Opens="{FALSE}",
        ),
    )
    replay(ctx, g, ["r", "rm", "rmn"], ["session", "peek"], ("sync", "async"),
           limit=ctx.pick(400, None))
    long_walks(
        ctx, ctx.pick(56, 4000), 50, ["session", "peek"], TREEOPS % ',"reserved"',
        ("sync", "async", "mixed"),
    )
    long_walks(
        ctx, ctx.pick(24, 1000), 50, ["files"], TREEOPS % ',"delete"',
        ("sync", "async"),
    )
    race(ctx)


def check_D04(ctx):
    g = core.explore(
        ctx, "Database", sets=True,
        constants=dict(
            Nodes='{"r","rm"}', Tags='{"x"}', Vals="{1}",
            Ops='{"set","savetag","pop","del","rollback","clear","save","open","delete","metatag","delmeta"}',
            Opens="{FALSE}",
        ),
    )
    replay(ctx, g, ["r", "rm"], ["files"], ("sync", "async"))
    long_walks(
        ctx, ctx.pick(56, 4000), 50, ["files"], TREEOPS % ',"delete"',
        ("sync", "async"),
    )
