"""I01, I02: keyed permutations and identifiers."""

import asyncio
import json
import random

from . import core, faketime, parallel, threadsched

SIZES = [*range(1, 33), 48, 64, 128, 192, 256]
KINDS = ["affine", "chain", "fast", "sequence"]


def keys(rng, size):
    """A key, often at an edge."""
    return rng.choice([
        lambda: bytes(size), lambda: b"\xff" * size, lambda: bytes(size - 1) + b"\x01",
        *[lambda: rng.randbytes(size)] * 5,
    ])()


class Subject:
    """One permutation behind integers, by sync or async calls at random."""

    def __init__(self, kind, size, key, rng, loop):
        from aiootp._permutations import FastAffineXORChain
        from aiootp._permutations.affine_permutation import AffinePermutation
        from aiootp._permutations.affine_xor_chain import AffineXORChain
        from aiootp.randoms import SequenceID

        self.cls = dict(
            affine=AffinePermutation, chain=AffineXORChain, fast=FastAffineXORChain, sequence=SequenceID,
        )[kind]
        self.kind, self.size, self.rng, self.loop = kind, size, rng, loop
        key = keys(rng, self.cls.key_size(size)) if key is None else key
        self.key = key
        self.it = self.cls(key=key, config_id=size)

    def call(self, name, *args):
        if self.rng.random() < 0.1:
            return self.loop.run_until_complete(getattr(self.it, "a" + name)(*args))
        return getattr(self.it, name)(*args)

    def forward(self, x, bare):
        if self.kind == "sequence":
            y = self.call("new", x)
            return int.from_bytes(y, "big") if type(y) is bytes and len(y) == self.size else -1
        return self.call("uncapped_permute" if bare else "permute", x)

    def backward(self, y, bare):
        if self.kind == "sequence":
            return self.call("read", y.to_bytes(self.size, "big"))
        return self.call("uncapped_invert" if bare else "invert", y)


def walker(s, top):
    """
    A key under which some values leave the domain several times in a row
    before they come back to it, and those values.
    """
    prime = getattr(s.it.config, "PRIME", top + 1)
    mult = getattr(s.it.config, "MULTIPLICATIVE_KEY", 1)
    if prime - top < 3:
        return s, []
    out = s.rng.sample(range(top, prime), 2)
    add = (out[1] - mult * out[0]) % prime
    key = add.to_bytes(2 * s.size, "big")
    back = pow(mult, -1, prime)
    first = back * (out[0] - add) % prime
    last = mult * out[1] + add
    return Subject(s.kind, s.size, key, s.rng, s.loop), [v for v in (first, last % prime) if v < top]


def permutation_job(kind, size, key, steps, whole, seed):
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    s = Subject(kind, size, key, rng, loop)
    top = 256**size
    numbers, events = {}, []
    number = lambda v: numbers.setdefault(v, len(numbers) + 1)

    def sample(n):
        edge = [0, 1, top - 1, top - 2, top // 2, top // 2 - 1, 255, 256 % top, 2**63 % top]
        return [*edge, *(rng.randrange(top) for _ in range(n))]

    few = [rng.randrange(top) for _ in range(3)]
    if kind == "affine" and key is None and rng.random() < 0.5:
        s, more = walker(s, top)
        few += more

    def look(n):
        bare = kind in ("chain", "fast") and rng.random() < 0.3
        pairs, outside = [], 0
        xs = range(top) if n == "all" else [*few, *sample(n)]
        for x in xs:
            y = s.forward(x, bare)
            again = s.backward(y, bare) if type(y) is int and 0 <= y < top else -1
            outside += not all(type(v) is int and 0 <= v < top for v in (y, again))
            pairs += [[number(x), number(y)], [number(again), number(y)]]
        for y in range(top) if n == "all" else sample(n):
            x = s.backward(y, bare)
            again = s.forward(x, bare) if type(x) is int and 0 <= x < top else -1
            outside += not all(type(v) is int and 0 <= v < top for v in (x, again))
            pairs += [[number(x), number(y)], [number(x), number(again)]]
        events.append(dict(op="bare" if bare else "pairs", pairs=pairs, outside=outside))

    for _ in range(3):
        look(whole)
    if steps > 50 and rng.random() < 0.5:
        s.call("update_increment", rng.choice([1, rng.randrange(1, 256)]))
        events.append(dict(op="increment"))
    if kind in ("chain", "fast"):
        for k in range(steps):
            s.call("step")
            events.append(dict(op="step"))
            if whole == "all" and steps > 50:
                look(0)
            else:
                look(whole if rng.random() < 0.3 else 1)
            if k % 16 == 15 and steps < 50:
                value = rng.choice([1, top - 1, 2, rng.randrange(1, top)])
                s.call("update_increment", value)
                events.append(dict(op="increment"))
                look(1)
        for value in (0, top, -1, top + 1):
            try:
                s.call("update_increment", value)
            except ValueError:
                continue
            raise core.Violation(f"an increment of {value} was accepted", dict(kind=kind, size=size))
        look(2)
    # an equal key gives the equal permutation
    twin = Subject(kind, size, s.key, rng, loop)
    if kind in ("affine", "sequence"):
        s = twin
        look(whole)
    n = len(s.key)
    for bad in (s.key[:-1], s.key + b"\0", b"", s.key * 2):
        try:
            twin.cls(key=bad, config_id=size)
        except ValueError:
            continue
        raise core.Violation(f"a key of {len(bad)} bytes instead of {n} was accepted", dict(kind=kind, size=size))
    loop.close()
    return dict(events=events, period=min(top, 10**6), kind=kind, size=size, key=s.key.hex(), seed=str(seed))


def twins_job(kind, size, seed):
    """Equal keys and equal histories give equal permutations; another increment gives other steps."""
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    a = Subject(kind, size, None, rng, loop)
    b, c = (Subject(kind, size, a.key, rng, loop) for _ in range(2))
    top = 256**size
    xs = [rng.randrange(top) for _ in range(8)]
    see = lambda s: [s.forward(x, False) for x in xs]
    for k in range(rng.choice([2, 5])):
        # an even value: the increments are odd
        value = rng.choice([2, 4, top // 2, 2 * rng.randrange(1, top // 2)])
        what = rng.choice(["step", "increment"])
        for s in (a, b, c):
            s.call("step") if what == "step" else s.call("update_increment", value)
        if see(a) != see(b) or see(b) != see(c):
            raise core.Violation("equal histories give other permutations", dict(kind=kind, size=size))
    before = see(c)
    c.call("update_increment", value)
    if see(c) != before:
        raise core.Violation("another increment changes the permutation before the next step", dict(kind=kind, size=size))
    for s in (a, b, c):
        s.call("step")
    if see(a) != see(b) or see(a) == see(c) or see(a) == before:
        raise core.Violation("an increment does not take part in the steps that follow", dict(kind=kind, size=size, value=value))
    loop.close()


def check_I01(ctx):
    for d, p, fast in ctx.pick([(4, 5, 0), (4, 7, 1)], [(4, 5, 0), (4, 7, 0), (4, 7, 1), (8, 11, 1), (8, 13, 1)]):
        core.model_check(ctx, "Permute", constants=dict(D=d, P=p, Fast=fast))
    jobs = []
    for kind in KINDS:
        for size in SIZES:
            if kind == "sequence" and size > 32:
                continue
            for _ in range(ctx.pick(2, 12)):
                jobs.append((kind, size, None, 20 if size < 48 else 3, 3, ctx.rng.random()))
        for _ in range(ctx.pick(6, 60)):
            jobs.append((kind, 1, None, 12, "all", ctx.rng.random()))
    for kind in ("chain", "fast"):
        for _ in range(ctx.pick(4, 20)):
            jobs.append((kind, 1, None, 300, "all", ctx.rng.random()))
    # a one-byte affine key matters modulo 257
    for a in range(257):
        key = (a + 257 * ctx.rng.randrange(255)).to_bytes(2, "big")
        jobs.append(("affine", 1, key, 0, "all" if a % ctx.pick(8, 1) == 0 else 20, ctx.rng.random()))
    twins = [(kind, size, ctx.rng.random()) for kind in ("chain", "fast") for size in SIZES for _ in range(ctx.pick(6, 60))]
    parallel.run("ids", "twins_job", twins)
    for t in twins:
        ctx.count(t, 1)
    traces = parallel.run("ids", "permutation_job", jobs)
    for t in traces:
        ctx.count(t["kind"] + t["key"], sum(len(e.get("pairs", ())) for e in t["events"]))
    ctx.sample(dict(traces[0], events=traces[0]["events"][:1]))
    for t in traces:
        del t["seed"], t["key"]
    core.validate(ctx, "PermTrace", "PermTrace", traces, what="permutation", batch=200)


# --------------------------------------------------------------- identifiers
EPOCH_NS = 1672531200000000000  # as documented: 1 January 2023
token = None  # a byte: random tokens all consist of it


def install():
    """Controlled clock, tokens and threads."""
    import secrets

    faketime.install()
    real = secrets.token_bytes

    def token_bytes(n=None):
        return real(n) if token is None else bytes([token]) * n

    secrets.token_bytes = token_bytes
    top = core.REPO / "aiootp"
    threadsched.install([top / "randoms" / "ids", top / "asynchs" / "clocks.py"])


def named(GUID, RawGUID, size):
    """A generator type whose configuration has a name of its own."""
    from aiootp._permutations import FastAffineXORChain
    from aiootp.commons.configs import ConfigMap
    from aiootp.randoms.ids.guid_config import GUIDConfig

    config = GUIDConfig(
        config_id="mine", size=size, raw_guid_type=RawGUID, permutation_type=FastAffineXORChain,
        raw_guid_config_id=size, permutation_config_id=size, aad=b"mine",
    )
    return type("Named", (GUID,), dict(__slots__=(), _configs=ConfigMap({"mine": config}, config_type=GUIDConfig)))


class Maker:
    """Generators sharing a key, with different nodes, and what they made."""

    def __init__(self, rng, kind, size):
        from aiootp.randoms import GUID
        from aiootp.randoms.ids.raw_guid import RawGUID

        self.rng, self.kind, self.size = rng, kind, size
        self.cls = GUID if kind == "guid" else RawGUID
        ids = size
        if kind == "guid" and rng.random() < 0.2:
            self.cls, ids = named(GUID, RawGUID, size), "mine"
        self.nodes = rng.sample([0, 1, 255, 254, *rng.sample(range(2, 254), 2)], 2)
        self.kw = dict(config_id=ids)
        if kind == "guid" and rng.random() < 0.9:
            self.kw["key"] = keys(rng, self.cls.key_size(ids))
        self.them = [self.cls(node_id=bytes([n]), **self.kw) for n in self.nodes]
        if self.nodes[0] == 0 and rng.random() < 0.5:
            self.them[0] = self.cls(**self.kw)
        self.made = []

    def begin(self):
        return faketime.now

    def end(self, g, began, value):
        if type(value) is not bytes or len(value) != self.size:
            raise core.Violation("an identifier of another size or type", dict(got=repr(value), size=self.size))
        self.made.append((g, began, faketime.now, value))

    def new(self, g):
        began = self.begin()
        self.end(g, began, self.them[g].new())

    async def anew(self, g):
        began = self.begin()
        self.end(g, began, await self.them[g].anew())

    def trace(self, epoch, loop):
        rng = self.rng
        reader = self.cls(node_id=bytes([rng.randrange(256)]), **self.kw)
        made, containers = [], []
        for g, began, ended, value in self.made:
            who = rng.choice([*self.them, reader])
            if rng.random() < 0.1:
                c = loop.run_until_complete(who.aread(value))
            else:
                c = who.read(value)
            again = rng.choice(self.them).read(value)
            if not (c == again and hash(c) == hash(again)) or c > again or c < again or list(c) != list(again):
                raise core.Violation("reading an identifier twice gave two results", dict(kind=self.kind, size=self.size))
            fields = [c.timestamp, c.token, c.node_id, c.ticker]
            if [len(f) for f in fields] != [8, self.size - 10, 1, 1]:
                raise core.Violation("an identifier's fields have other sizes", dict(size=self.size, fields=repr(fields)))
            if self.kind == "raw" and b"".join(fields) != value:
                raise core.Violation("reading a raw identifier does not give its parts", dict(value=value.hex()))
            containers.append(c)
            made.append([g, began - epoch, ended - epoch, value, *(int.from_bytes(f, "big") for f in fields)])
        if self.kind == "guid" and "key" in self.kw and made:
            self.strangers(rng.choice(made)[3])
        for bad in (b"", bytes(self.size - 1), bytes(self.size + 1)):
            try:
                self.them[0].read(bad)
            except ValueError:
                continue
            raise core.Violation("an identifier of a wrong size was read", dict(kind=self.kind, size=self.size))
        rank = lambda values: {v: i for i, v in enumerate(sorted(set(values)))}
        when = rank(t for m in made for t in (m[1], m[2], m[4]))
        what = rank(m[5] for m in made)
        name = {}
        how = rng.choice([lambda i: containers[i], lambda i: containers[i].sort_key])
        order = sorted(range(len(made)), key=how)
        if rng.random() < 0.3:
            order = sorted(range(len(made)), key=how, reverse=True)[::-1]
        return dict(
            limit=256, nodes=self.nodes, order=[i + 1 for i in order], kind=self.kind, size=self.size,
            made=[
                dict(
                    g=m[0] + 1, began=when[m[1]], ended=when[m[2]], id=name.setdefault(m[3], len(name)),
                    time=when[m[4]], token=what[m[5]], node=m[6], tick=m[7],
                )
                for m in made
            ],
        )

    def strangers(self, value):
        """Other keys do not read it."""
        mine = self.them[0].read(value)
        key = self.kw["key"]
        for _ in range(4):
            bit = self.rng.randrange(8 * len(key))
            other = bytearray(key)
            other[bit // 8] ^= 1 << bit % 8
            theirs = self.cls(key=bytes(other), config_id=self.kw["config_id"]).read(value)
            if theirs == mine:
                raise core.Violation("another key reads an identifier", dict(bit=bit, size=self.size))
        for bad in (key[1:], key + b"\0"):
            try:
                self.cls(key=bad, config_id=self.kw["config_id"])
            except ValueError:
                continue
            raise core.Violation("a key of a wrong size was accepted", dict(size=self.size))


def setup(seed, kind, size):
    global token
    rng = random.Random(seed)
    start = EPOCH_NS + rng.choice([0, 255, 2**31, 2**40 - 3, 2**56 - 5, 10**17])
    faketime.set(start)
    token = rng.choice([0, 7, 255]) if rng.random() < 0.7 else None
    return rng, EPOCH_NS, Maker(rng, kind, size), asyncio.new_event_loop()


def wrong_nodes(maker):
    for bad in (b"", b"\0\0", bytes(maker.size)):
        try:
            maker.cls(node_id=bad, **maker.kw)
        except ValueError:
            continue
        raise core.Violation("a node number of a wrong size was accepted", dict(kind=maker.kind))


def alone_job(kind, size, seed):
    """One thread, or tasks of one loop."""
    rng, epoch, maker, loop = setup(seed, kind, size)
    wrong_nodes(maker)
    pace = rng.choice([0, 0, 0.02, 0.5, 1])
    n = rng.choice([20, 100, 256, 300])

    async def tasks():
        async def work(g):
            await maker.anew(g)
            if rng.random() < pace:
                faketime.set(faketime.now + rng.choice([1, 1, 255, 10**9]))

        await asyncio.gather(*(work(rng.randrange(2)) for _ in range(n)))

    if rng.random() < 0.4:
        loop.run_until_complete(tasks())
    else:
        for _ in range(n):
            maker.new(rng.choice([0, 0, 0, 1]))
            if rng.random() < pace:
                faketime.set(faketime.now + rng.choice([1, 1, 255, 10**9]))
    out = maker.trace(epoch, loop)
    loop.close()
    return out


def threads_job(kind, size, seed):
    rng, epoch, maker, loop = setup(seed, kind, size)
    sched = threadsched.Scheduler(rng, rng.choice([0.05, 0.2, 0.5]))
    pace = rng.choice([0, 0.01, 0.2])
    per = rng.choice([1, 3, 10, 40])
    same = rng.random() < 0.8

    def work(w):
        for _ in range(per):
            maker.new(0 if same else rng.randrange(2))
            sched.record("made", w.number)
            if rng.random() < pace:
                faketime.set(faketime.now + 1)

    for _ in range(rng.choice([2, 3, 4])):
        sched.spawn(work)
    sched.run()
    return finish(sched, maker, epoch, loop)


def delayed_job(kind, size, at, seed):
    """One thread stops inside a call while another makes many."""
    rng, epoch, maker, loop = setup(seed, kind, size)
    sched = threadsched.Scheduler(rng, plan={at})
    first = rng.choice([0, 1, 2, 5])

    def slow(w):
        maker.new(0)

    def fast(w):
        for _ in range(first):
            maker.new(0)
        faketime.set(faketime.now + 1)
        for _ in range(rng.choice([255, 255, 254, 256])):
            maker.new(0)

    sched.spawn(slow)
    sched.spawn(fast)
    sched.run(first=0)
    return finish(sched, maker, epoch, loop)


def finish(sched, maker, epoch, loop):
    errors = [repr(w.error) for w in sched.workers if w.error]
    if errors or sched.deadlocked:
        raise core.Violation(
            f"making identifiers from threads failed: {errors or 'deadlock'}",
            dict(kind=maker.kind, size=maker.size),
        )
    out = maker.trace(epoch, loop)
    loop.close()
    return out


def check_I02(ctx):
    for callers, calls, wrap, times in ctx.pick([("{1, 2}", 4, 3, 2), ("{1, 2, 3}", 2, 2, 1)], [("{1, 2}", 5, 3, 2), ("{1, 2, 3}", 3, 3, 1)]):
        core.model_check(ctx, "Guid", constants=dict(Callers=callers, Calls=calls, Wrap=wrap, Times=times, Locked=1))
    kinds = [(k, s) for k in ("guid", "raw") for s in range(12, 33)]
    jobs = [(k, s, ctx.rng.random()) for k, s in kinds for _ in range(ctx.pick(4, 30))]
    traces = parallel.run("ids", "alone_job", jobs, patch="ids")
    jobs = [(k, s, ctx.rng.random()) for k, s in kinds for _ in range(ctx.pick(8, 60))]
    traces += parallel.run("ids", "threads_job", jobs, patch="ids")
    jobs = [(*ctx.rng.choice(kinds), at, ctx.rng.random()) for at in range(1, 60) for _ in range(ctx.pick(2, 10))]
    traces += parallel.run("ids", "delayed_job", jobs, patch="ids")
    for t in traces:
        ctx.count(json.dumps(t), len(t["made"]))
    ctx.sample(dict(traces[0], made=traces[0]["made"][:3]))
    core.validate(ctx, "GuidTrace", "GuidTrace", traces, what="identifiers", batch=300)
