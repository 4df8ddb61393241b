"""
D05: databases whose files were disturbed, or left behind by a crash.

TLC enumerates the disturbances (DbFaults) and judges what came out of
opening and reading (DbFaultTrace).
"""

import asyncio
import json
import pathlib
import random
import shutil
import tempfile

from . import core, databases, fsmon, parallel, vloop

install = fsmon.install

KEYS = dict(A=databases.KEY, B=bytes(reversed(range(200))))
ROOTS = ["A", "Am", "B"]
TAGS = dict(Ax=("A", "x"), Ay=("A", "y"), Amx=("Am", "x"), Bx=("B", "x"))
TOP = dict(A="A", Am="A", B="B")


class Store:
    """Databases A (with metatag m) and B, saved in two versions."""

    def __init__(self, rng, apis, plan=None):
        self.rng, self.apis = rng, apis
        self.path = pathlib.Path(tempfile.mkdtemp(prefix="db-", dir=core.scratch()))
        # in which versions each tag, and the metatag, is stored
        self.plan = plan or dict.fromkeys([*TAGS, "m"], "12")
        self.values = {
            s: {v: f"{s} in version {v}" for v in "12"} for s in TAGS
        }
        for s in TAGS:
            kind = rng.choice(["str", "bytes", "json", "long"])
            for v, text in self.values[s].items():
                self.values[s][v] = dict(
                    str=text, bytes=text.encode(), json=[text, {"k": text}],
                    long=text * 40,
                )[kind]
        self.names = {}
        self.bytes = {}
        self.api = apis[0]
        self.make()

    def close(self):
        shutil.rmtree(self.path, ignore_errors=True)

    def files(self):
        return {p.name: p.read_bytes() for p in self.path.iterdir()}

    def new(self, before):
        (name,) = set(self.files()) - set(before)
        return name

    def make(self):
        """Learns file names from what appears; leaves version 1 stored."""
        api = self.api
        for d in "AB":
            before = self.files()
            api.save(api.open(self.path, False, key=KEYS[d]))
            self.names[d] = self.new(before)
        a, b = self.open("A"), self.open("B")
        before = self.files()
        m = api.metatag(a, "m", False)
        api.save(m)
        self.names["Am"] = self.new(before)
        dbs = dict(A=a, Am=m, B=b)
        for s, (d, t) in TAGS.items():
            self.names[s] = api.filename(dbs[d], t)
        if "1" not in self.plan["m"]:
            api.delete_metatag(a, "m")
            dbs.pop("Am")
        for s, (d, t) in TAGS.items():
            if "1" in self.plan[s] and d in dbs:
                api.set(dbs[d], t, self.values[s]["1"])
        for d in (a, b):
            api.save(d)
        self.bytes["1"] = self.by_slot(self.files())
        if "1" not in self.plan["m"]:
            # what will be its names once it is made again
            self.names.pop("Am"), self.names.pop("Amx")

    def open(self, d, preload=False):
        return self.api.open(self.path, preload, key=KEYS[d])

    def by_slot(self, files):
        return {s: files.get(n) for s, n in self.names.items()}

    def update(self, api, only="AB"):
        """The changes that lead to version 2; returns what to save."""
        a, b = (api.open(self.path, False, key=KEYS[d]) for d in "AB")
        if "m" in a.metatags and "2" not in self.plan["m"]:
            api.delete_metatag(a, "m")
        dbs = dict(A=a, B=b)
        if "2" in self.plan["m"]:
            if "Am" not in self.names:
                before = self.files()
                m = api.metatag(a, "m", False)
                # find the name it will have without leaving traces
                probe = api.metatag(a, "m", False)
                assert probe is m
                api.save(m)
                self.names["Am"] = self.new(before)
                self.names["Amx"] = api.filename(m, "x")
                (self.path / self.names["Am"]).unlink()
            dbs["Am"] = api.metatag(a, "m", False)
        for s, (d, t) in TAGS.items():
            if d not in dbs or d[0] not in only:
                continue
            if "2" in self.plan[s]:
                api.set(dbs[d], t, self.values[s]["2"])
            elif "1" in self.plan[s] and t in dbs[d]:
                api.pop(dbs[d], t)
        return a, b

    def tags(self, d, v):
        return {t for s, (e, t) in TAGS.items() if e == d and v in self.plan[s]}

    def classify(self, files):
        out = {}
        for s in [*ROOTS, *TAGS]:
            data = files.get(self.names[s]) if s in self.names else None
            if data is None:
                out[s] = "gone"
            elif data == self.bytes["1"].get(s):
                out[s] = "own1"
            elif data == self.bytes["2"].get(s):
                out[s] = "own2"
            else:
                out[s] = "bad"
        return out

    def observe(self, api, preload, silent):
        """Opens and reads everything; classifies the outcomes."""
        files = self.files()
        content = self.classify(files)
        opened, read, listed = {}, dict.fromkeys(TAGS, "absent"), {}
        for d in "AB":
            listed[d] = True
            try:
                db = api.open(self.path, preload, key=KEYS[d])
            except Exception as error:
                opened[d] = "error"
                continue
            opened[d] = "ok"
            v = content[d][-1]
            if content[d].startswith("own"):
                listed[d] = set(db.tags) == self.tags(d, v)
            for s, (e, t) in TAGS.items():
                if TOP[e] != d:
                    continue
                try:
                    at = db
                    if e == "Am":
                        at = api.metatag(db, "m", False)
                    got = api.query(at, t, silent=silent, cache=False)
                except LookupError:
                    read[s] = "absent"
                    continue
                except Exception:
                    read[s] = "error"
                    continue
                same = [w for w in "12" if databases.same(got, self.values[s][w])]
                if got is None:
                    read[s] = "absent"
                elif not same:
                    read[s] = "wrong"
                else:
                    v = content[s][-1]
                    read[s] = "v" + (v if v in same else same[0])
        if self.files() != files:
            raise core.Violation("opening and reading changed files")
        return dict(
            content=content, open=opened, read=read, listed=listed, preload=preload
        )


def both(rng):
    loop = asyncio.new_event_loop()
    return loop, [databases.Sync(), databases.Async(loop)]


def disturb(store, rng, deeds, foreign):
    """Carries out a case; returns what to note about it."""
    base = store.bytes["2"]
    note = {}
    for slot, deed in deeds.items():
        path = store.path / store.names[slot]
        data = base[slot]
        if isinstance(deed, list):
            deed, where = deed
        else:
            where = None
        if deed == "gone":
            path.unlink()
            continue
        if deed == "own1":
            data = store.bytes["1"][slot]
        elif deed == "empty":
            data = b""
        elif deed == "cut":
            where = rng.randrange(1, len(data)) if where is None else where
            data = data[:where]
        elif deed == "flip":
            where = rng.randrange(8 * len(data)) if where is None else where
            data = bytearray(data)
            data[where // 8] ^= 1 << (where % 8)
        elif deed == "ext":
            where = rng.choice([1, 2, 16, 32, 168, 256, 300]) if where is None else where
            data = data + rng.randbytes(where)
        elif deed == "zeros":
            data = bytes(len(data))
        elif deed.startswith("put:"):
            other = deed[4:]
            data = foreign if other == "Cx" else base[other]
        note[slot] = [deed, where]
        path.write_bytes(data)
    return note


def case_job(seed, cases):
    rng = random.Random(str(seed))
    loop, apis = both(rng)
    out = []
    store = Store(rng, apis)
    other = Store(rng, apis)
    foreign = other.bytes["1"]["Ax"]
    other.close()
    a, b = store.update(apis[0])
    apis[0].save(a), apis[0].save(b)
    store.bytes["2"] = store.by_slot(store.files())
    if any(v is None for v in store.bytes["2"].values()):
        raise core.Violation("a file is missing after a save")
    try:
        for deeds in cases:
            note = disturb(store, rng, deeds, foreign)
            for api in apis:
                t = store.observe(api, rng.random() < 0.5, rng.random() < 0.5)
                t["case"] = json.dumps(note)
                t["api"] = api.name
                out.append(t)
            for slot in deeds:
                (store.path / store.names[slot]).write_bytes(store.bytes["2"][slot])
    finally:
        store.close()
        loop.run_until_complete(loop.shutdown_default_executor())
        loop.close()
    return out


def sweep_job(seed, slot, part, parts, bits):
    """Every cut and every bit (or one bit per byte) of one slot's file."""
    rng = random.Random(str(seed))
    loop, apis = both(rng)
    store = Store(rng, apis)
    a, b = store.update(apis[0])
    apis[0].save(a), apis[0].save(b)
    store.bytes["2"] = store.by_slot(store.files())
    n = len(store.bytes["2"][slot])
    cases = [{slot: ["cut", i]} for i in range(1, n)]
    cases += [
        {slot: ["flip", 8 * i + j]}
        for i in range(n)
        for j in (range(8) if bits else [rng.randrange(8)])
    ]
    out = []
    try:
        for k, deeds in enumerate(cases[part::parts]):
            note = disturb(store, rng, deeds, None)
            api = apis[k % 2]
            t = store.observe(api, rng.random() < 0.2, rng.random() < 0.5)
            t["case"], t["api"] = json.dumps(note), api.name
            out.append(t)
            (store.path / store.names[slot]).write_bytes(store.bytes["2"][slot])
    finally:
        store.close()
        loop.run_until_complete(loop.shutdown_default_executor())
        loop.close()
    # most outcomes are alike
    return list({json.dumps([t["content"], t["open"], t["read"], t["listed"]]): t for t in out}.values()), len(out)


def crash_job(seed, count):
    """Images of the directory at every step of a save."""
    out, images = [], 0
    loop, apis = both(None)
    for k in range(count):
        rng = random.Random(f"{seed}/{k}")
        plan = {s: rng.choice(["12", "12", "1", "2"]) for s in TAGS}
        plan["m"] = rng.choice(["12", "12", "12", "1", "2"])
        if plan["m"] != "12":
            plan["Amx"] = plan["m"]
        plan["Bx"] = "12"
        store = Store(rng, apis, plan)
        seen = {}

        def hook(what, path):
            image = fsmon.image(store.path)
            seen.setdefault(json.dumps(sorted((n, hash(d)) for n, d in image.items())), (what, image))

        try:
            if rng.random() < 0.5:
                a, b = store.update(apis[0], "A")
                fsmon.watch(store.path, hook)
                apis[0].save(a)
            else:
                # the async class on the virtual loop: files in any order
                a, b = store.update(apis[1], "A")
                fsmon.watch(store.path, hook)
                vloop.run(a.asave_database(), rng)
            fsmon.watch(None, None)
            store.bytes["2"] = store.by_slot(store.files())
            seen.setdefault("end", ("end", fsmon.image(store.path)))
            for what, image in seen.values():
                for p in store.path.iterdir():
                    if p.name not in image:
                        p.unlink()
                for n, d in image.items():
                    (store.path / n).write_bytes(d)
                images += 1
                for api in apis:
                    t = store.observe(api, rng.random() < 0.3, rng.random() < 0.5)
                    t["case"] = json.dumps(dict(crash=what, plan=plan))
                    t["api"] = api.name
                    out.append(t)
        finally:
            fsmon.watch(None, None)
            store.close()
    loop.close()
    return out, images


def check_D05(ctx):
    cases = []

    def on_line(line):
        if line.startswith('"CASE '):
            case = json.loads(json.loads(line)[5:])
            cases.append(case if isinstance(case, dict) else {})
            return True
        return False

    core.model_check(
        ctx, "DbFaults", on_line=on_line, workers=1,
        constants=dict(Faults=2),
    )
    if ctx.tier != "quick":
        cases *= 6
    ctx.rng.shuffle(cases)
    limit = ctx.pick(700, 18000)
    jobs = [(f"{ctx.seed}/c/{i}", cases[i::16]) for i in range(16)]
    traces = [
        t for r in parallel.run("faults", "case_job", jobs, patch="faults", timeout=limit) for t in r
    ]
    ctx.extra["disturbances"] = len(cases)
    jobs = [
        (f"{ctx.seed}/s/{s}/{p}", s, p, 4, not ctx.quick)
        for s in [*ROOTS, *TAGS] for p in range(4)
    ]
    swept = 0
    for r, n in parallel.run("faults", "sweep_job", jobs, patch="faults", timeout=limit):
        traces += r
        swept += n
    ctx.extra["positions_swept"] = swept
    jobs = [(f"{ctx.seed}/k/{i}", ctx.pick(5, 200)) for i in range(16)]
    images = 0
    for r, n in parallel.run("faults", "crash_job", jobs, patch="faults", timeout=limit):
        traces += r
        images += n
    ctx.extra["crash_images"] = images
    ctx.evaluations += len(traces) + swept
    unique = {}
    for t in traces:
        key = json.dumps([t["content"], t["open"], t["read"], t["listed"], t["preload"]])
        unique.setdefault(key, t)
        ctx.distinct.add(hash(key))
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    core.validate(
        ctx, "DbFaultTrace", "DbFaultTrace", list(unique.values()), what="outcome"
    )
