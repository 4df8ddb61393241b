"""
S01-S03: cipher streams, replayed from StreamEnc.tla and StreamDec.tla, and
concurrent buffering judged by StreamTrace.tla.
"""

import asyncio
import itertools
import json
import random

from . import core, parallel, threadsched, vloop
from .ciphers import FORMATS, cls, flip


def install():
    top = core.REPO / "aiootp"
    threadsched.install([
        top / "ciphers" / "cipher_stream", top / "ciphers" / "decipher_stream",
        top / "asynchs" / "guards",
    ])


def names():
    import aiootp

    e = aiootp._exceptions
    return e.CipherStreamIsClosed, e.InvalidBlockID, e.InvalidSHMAC, e.ValidationIncomplete


class Enc:
    """One shape for encrypting streams of both kinds."""

    def __init__(self, cipher, mode, run, **kw):
        self.mode, self.run = mode, run
        self.s = cipher.stream_encrypt(**kw) if mode == "sync" else run(
            cipher.astream_encrypt(**kw)
        )
        self.gen = None

    def buffer(self, data):
        if self.mode == "sync":
            return self.s.buffer(data)
        return self.run(self.s.abuffer(data))

    def read(self, most=None):
        return self._take(iter(self.s) if self.mode == "sync" else aiter(self.s), most)

    def take(self):
        return self.read(1)

    def finish(self):
        return self._take(self._final(), None)

    def _final(self):
        return self.s.finalize() if self.mode == "sync" else self.s.afinalize()

    def begin(self):
        self.gen = self._final()
        return self._take(self.gen, 1)

    def rest(self):
        return self._take(self.gen, None)

    def _take(self, gen, most):
        """Takes up to `most` items and leaves the generator there."""
        out = []
        if self.mode == "sync":
            while most is None or len(out) < most:
                try:
                    out.append(next(gen))
                except StopIteration:
                    break
            return out

        async def go():
            while most is None or len(out) < most:
                try:
                    out.append(await anext(gen))
                except StopAsyncIteration:
                    break

        self.run(go())
        return out


class Dec(Enc):
    def __init__(self, cipher, mode, run, **kw):
        self.mode, self.run = mode, run
        self.s = cipher.stream_decrypt(**kw) if mode == "sync" else run(
            cipher.astream_decrypt(**kw)
        )
        self.gen = None

    def identify(self, block):
        if self.mode == "sync":
            return self.s.shmac.next_block_id(block)
        return self.run(self.s.shmac.anext_block_id(block))

    def check(self, tag):
        if self.mode == "sync":
            return self.s.shmac.test_shmac(tag)
        return self.run(self.s.shmac.atest_shmac(tag))


def fail(what, name, mode, log, **kw):
    raise core.Violation(f"{what} [{name} {mode}]", dict(history=log, **kw))


def context(rng):
    loop = asyncio.new_event_loop()
    aad = rng.randbytes(rng.choice([0, 9]))
    return loop, aad


# --------------------------------------------------------------- encrypting


def enc_job(name, steps, mode, seed):
    rng = random.Random(seed)
    closed, bad_id, bad_tag, early = names()
    loop, aad = context(rng)
    f = FORMATS[name]
    cipher = cls(name)(rng.randbytes(64))
    e = Enc(cipher, mode, loop.run_until_complete, aad=aad)
    text, packets, log = b"", [], []
    tags = set()

    def step(a):
        nonlocal text
        log.append([a["op"], a["n"], a["res"]])
        if a["op"] == "buffer":
            data = rng.randbytes(a["n"])
            try:
                e.buffer(data)
            except closed:
                if a["res"] != "closed":
                    fail("an open stream refused data", name, mode, log)
                return
            if a["res"] == "closed":
                fail("a closed stream took data", name, mode, log)
            text += data
        elif a["op"] == "tag":
            try:
                tags.add(e.s.shmac.result)
            except early:
                if a["res"] != "refused":
                    fail("no tag after finalizing", name, mode, log)
                return
            if a["res"] == "refused":
                fail("a tag before finalizing was completed", name, mode, log)
        else:
            try:
                got = getattr(e, a["op"])()
            except closed:
                if a["res"] != "closed":
                    fail("finalizing was refused", name, mode, log)
                return
            if a["res"] == "closed":
                fail("a stream was finalized twice", name, mode, log)
            for p in got:
                if [len(x) for x in p] != [f["id"], f["block"]]:
                    fail("a packet of a wrong size", name, mode, log)
            packets.extend(got)
            if len(packets) > a["most"] or (
                a["res"] == "all" and len(packets) != a["most"]
            ):
                fail(
                    f"{len(packets)} packets of at most {a['most']}", name, mode, log
                )

    for a in steps:
        step(a)
    most = (f["inner"] + len(text)) // f["block"] + 1
    last = [a["op"] for a in steps]
    if "finish" not in last and "begin" not in last:
        step(dict(op="finish", n=0, res="all", most=most))
    elif "begin" in last and "rest" not in last:
        step(dict(op="rest", n=0, res="all", most=most))
    tags.add(e.s.shmac.result)
    if len(packets) != most:
        fail(f"{len(packets)} packets instead of {most}", name, mode, log)
    # what was sent is what was supplied
    other = rng.choice(["sync", "async"])
    d = Dec(cipher, other, loop.run_until_complete, aad=aad, salt=e.s.salt, iv=e.s.iv)
    data = b"".join(i + b for i, b in packets)
    d.buffer(data)
    got = b"".join(d.finish())
    if got != text:
        fail("the plaintext changed on its way", name, mode, log)
    for tag in tags:
        d.check(tag)
    whole = e.s.shmac.result + e.s.salt + e.s.iv + b"".join(b for _, b in packets)
    if cipher.bytes_decrypt(whole, aad=aad) != text:
        fail("the packets do not make up the message", name, mode, log)
    loop.close()
    return len(steps)


def enc_jobs(ctx, ops, blocks, reps=1):
    jobs = []
    for name, f in FORMATS.items():
        b, i = f["block"], f["inner"]
        sizes = {0, 1, i, b - i - 1, b - i, b - i + 1, b - 1, b, b + 1, 2 * b, 2 * b - i}
        g = core.explore(
            ctx, "StreamEnc",
            constants=dict(
                Block=b, Inner=i, MaxTotal=blocks * b + 1, Ops=ops,
                Sizes="{" + ",".join(map(str, sorted(sizes))) + "}",
            ),
        )
        for mode in ("sync", "async"):
            for _ in range(reps):
                for root, steps in g.paths(ctx.rng, max_len=24):
                    jobs.append((name, [a for a, *_ in steps], mode, ctx.rng.random()))
    return jobs


# --------------------------------------------------------------- decrypting


def make_stream(name, rng, packets, aad):
    """A cipher and a finished stream of so many packets."""
    f = FORMATS[name]
    cipher = cls(name)(rng.randbytes(64))
    top = packets * f["block"] - f["inner"] - 1
    low = max(0, top - f["block"] + 1)
    text = rng.randbytes(rng.choice([low, top, rng.randrange(low, top + 1)]))
    s = cipher.stream_encrypt(aad=aad)
    s.buffer(text)
    out = [*s, *s.finalize()]
    assert len(out) == packets
    return cipher, text, out, s


def dec_job(name, steps, packets, mode, seed):
    rng = random.Random(seed)
    closed, bad_id, bad_tag, early = names()
    loop, aad = context(rng)
    f = FORMATS[name]
    cipher, text, sent, s = make_stream(name, rng, packets, aad)
    # another stream, all things equal but the iv
    t = cipher.stream_encrypt(aad=aad, salt=s.salt)
    t.buffer(text)
    foreign = [*t, *t.finalize()]
    tag = s.shmac.result
    d = Dec(
        cipher, mode, loop.run_until_complete, aad=aad, salt=s.salt, iv=s.iv
    )
    fed, sound, out, log = 0, True, [], []
    tainted = 0
    results = set()

    def seen(k):
        return text if k == packets else text[: max(0, k * f["block"] - f["inner"])]

    def wrong(kind, k):
        """Something which is not packet k (from 0) of the stream."""
        i, b = sent[k]
        if kind == "id":
            return flip(rng, i), b
        if kind == "block":
            return i, flip(rng, b)
        if kind == "repeat":
            return sent[rng.randrange(k)]
        if kind == "skip":
            return sent[rng.randrange(k + 1, packets)]
        if kind == "foreign":
            return foreign[k]
        if kind == "mixed":
            return rng.choice([(i, foreign[k][1]), (foreign[k][0], b)])
        if kind == "zero":
            return bytes(f["id"]), b
        return rng.randbytes(f["id"]), rng.randbytes(f["block"])

    def step(a):
        nonlocal fed, sound
        log.append([a["op"], a["kind"], a["n"], a["at"], a["res"]])
        op = a["op"]
        if op in ("feed", "bad"):
            group = sent[fed : fed + a["n"]]
            if op == "bad":
                k = a["at"] - 1
                group = list(group)
                group[k] = wrong(a["kind"], fed + k)
            try:
                d.buffer(b"".join(i + b for i, b in group))
            except closed:
                if a["res"] != "closed":
                    fail("an open stream refused data", name, mode, log)
            except bad_id as e:
                if a["res"] != "refused":
                    fail("a right packet was refused", name, mode, log)
                st = e.failure_state
                if (st.block_id, st.block) != group[k]:
                    fail("the error carries another packet", name, mode, log)
                rest = st.buffer()
                if rest != b"".join(i + b for i, b in group[k + 1 :]):
                    fail("the error does not carry the unread rest", name, mode, log)
                fed += k
            else:
                if a["res"] != "ok":
                    fail(f"a stream took data that is {a['res']}", name, mode, log)
                fed += a["n"]
        elif op == "ragged":
            i, b = sent[min(fed, packets - 1)]
            data = dict(
                empty=b"", short=(i + b)[:-1], long=i + b + b"\x00", byte=b"\x01"
            )[a["kind"]]
            try:
                d.buffer(data)
            except bad_id:
                fail("a torn packet reached the authenticator", name, mode, log)
            except ValueError:
                return
            fail("a torn packet was taken", name, mode, log)
        elif op == "forge":
            block = sent[fed][1]
            if a["kind"] == "skip" and fed + 1 < packets:
                block = sent[fed + 1][1]
            elif a["kind"] == "repeat" and fed:
                block = sent[fed - 1][1]
            else:
                block = flip(rng, block)
            d.buffer(d.identify(block) + block)
            fed += 1
            sound = False
        elif op == "check":
            value = tag if a["n"] else flip(rng, tag)
            try:
                d.check(value)
                got = "valid"
            except bad_tag:
                got = "invalid"
            except early:
                got = "refused"
            if got != a["res"]:
                fail(f"a tag was found {got} instead of {a['res']}", name, mode, log)
        elif op == "result":
            try:
                results.add(d.s.shmac.result)
                got = "ok"
            except early:
                got = "refused"
            if got != a["res"]:
                fail(f"asking for the tag: {got} instead of {a['res']}", name, mode, log)
        else:
            try:
                got = getattr(d, op)()
            except closed:
                if a["res"] != "closed":
                    fail(f"{op} was refused", name, mode, log)
                return
            if a["res"] == "closed":
                fail("a stream was finalized twice", name, mode, log)
            out.extend(got)
            data = b"".join(out)
            if not sound:
                return
            if a["res"] == "all" and fed == packets:
                if data != text:
                    fail("the stream gave another plaintext", name, mode, log)
            elif a["res"] == "some":
                if data != seen(fed)[: len(data)]:
                    fail("the stream gave other data than the packets hold",
                         name, mode, log)

    for a in steps:
        step(a)
    # complete the stream
    ops = [(a["op"], a["res"]) for a in steps]
    act = lambda op, n, res: dict(op=op, kind="", n=n, at=0, res=res)
    opened = ("finish", "all") not in ops and ("begin", "some") not in ops
    if opened and fed < packets and sound:
        step(act("feed", packets - fed, "ok"))
    if opened:
        if fed:
            step(act("finish", 0, "all"))
    elif ("begin", "some") in ops and ("rest", "all") not in ops:
        step(act("rest", 0, "all"))
    if fed:
        good = sound and fed == packets
        step(act("check", 1, "valid" if good else "invalid"))
        for r in results:
            if good != (r == tag):
                fail("the tag does not tell the streams apart", name, mode, log)
    loop.close()
    return len(steps)


def dec_jobs(ctx, ops, packets, kinds, reps=1):
    jobs = []
    for p in packets:
        g = core.explore(
            ctx, "StreamDec",
            constants=dict(
                Packets=p, Ops=ops,
                Kinds="{" + ",".join(f'"{k}"' for k in kinds) + "}",
            ),
        )
        for name in FORMATS:
            for mode in ("sync", "async"):
                for _ in range(reps):
                    for root, steps in g.paths(ctx.rng, max_len=20):
                        jobs.append(
                            (name, [a for a, *_ in steps], p, mode, ctx.rng.random())
                        )
    return jobs


def run(ctx, function, jobs):
    ctx.rng.shuffle(jobs)
    ctx.sample(jobs[0][:3])
    for j, n in zip(jobs, parallel.run("streams", function, jobs, limit=60)):
        ctx.count(json.dumps(j[:-1]), n)
        ctx.traces += 1


# --------------------------------------------------------------- concurrent


def runs(data):
    return [k for k, _ in itertools.groupby(data)]


def sizes(rng, name, n):
    f = FORMATS[name]
    b, i = f["block"], f["inner"]
    pool = [1, 2, b - i, b - i + 1, b - 1, b, b + 1, 2 * b, 3 * b + 5]
    return [rng.choice(pool + ([0] if rng.random() < 0.3 else [])) for _ in range(n)]


def order_threads(name, seed, count, side):
    """Threads buffering into one stream under the controlled scheduler."""
    rng = random.Random(seed)
    return [
        (thread_enc if side == "enc" else thread_dec)(name, rng.getrandbits(40))
        for _ in range(count)
    ]


def read_back(cipher, s, packets, aad):
    d = cipher.stream_decrypt(salt=s.salt, iv=s.iv, aad=aad)
    d.buffer(b"".join(i + b for i, b in packets))
    out = b"".join(d.finalize())
    d.shmac.test_shmac(s.shmac.result)
    return out


def thread_enc(name, seed):
    rng = random.Random(seed)
    closed = names()[0]
    n = rng.choice([2, 3, 4])
    size = sizes(rng, name, n)
    cipher = cls(name)(rng.randbytes(64))
    s = cipher.stream_encrypt()
    sched = threadsched.Scheduler(rng, rng.choice([0.02, 0.1, 0.4]))
    packets = []
    final = rng.random() < 0.4
    reader = rng.random() < 0.5
    finished = []

    def work(w):
        i = w.number + 1
        for _ in range(rng.choice([0, 0, 3, 20])):
            sched.pass_on(w)
        sched.record("call", i)
        try:
            s.buffer(bytes([i]) * size[i - 1])
        except closed:
            sched.record("closed", i)
        else:
            sched.record("ret", i)

    def finish(w):
        i = n - w.number  # 0 or -1
        for _ in range(rng.choice([0, 10, 60])):
            sched.pass_on(w)
        sched.record("call", i)
        try:
            got = list(s.finalize())
        except closed:
            sched.record("closed", i)
            return
        packets.extend(got)
        finished.append(1)
        sched.record("ret", i)

    def read(w):
        for _ in range(rng.choice([3, 30])):
            for p in s:
                packets.append(p)
            sched.pass_on(w)

    for _ in range(n):
        sched.spawn(work)
    if final:
        for _ in range(rng.choice([1, 2])):
            sched.spawn(finish)
    elif reader:
        sched.spawn(read)
    sched.run()
    errors = [repr(w.error) for w in sched.workers if w.error]
    if errors:
        raise core.Violation(
            f"concurrent use of a stream failed: {errors[0]} [{name} threads]",
            dict(errors=errors, events=sched.events, seed=seed),
        )
    if not finished:
        packets += list(s.finalize())
    text = read_back(cipher, s, packets, b"")
    return dict(
        sizes=size, strict=0, runs=runs(text), total=len(packets),
        events=[e for e in sched.events if e[0] != "stall"], seed=str(seed),
    )


def thread_dec(name, seed):
    """Threads supplying consecutive groups; refused ones try again."""
    rng = random.Random(seed)
    closed, bad_id, *_ = names()
    n = rng.choice([2, 3])
    groups = [rng.choice([1, 2, 3]) for _ in range(n)]
    cipher, text, sent, s = make_stream(name, rng, sum(groups), b"")
    cuts = [0, *itertools.accumulate(groups)]
    d = cipher.stream_decrypt(salt=s.salt, iv=s.iv)
    sched = threadsched.Scheduler(rng, rng.choice([0.02, 0.1, 0.4]))

    def work(w):
        i = w.number
        group = sent[cuts[i] : cuts[i + 1]]
        for attempt in range(10000):
            try:
                d.buffer(b"".join(a + b for a, b in group))
            except bad_id as e:
                if (e.failure_state.block_id, e.failure_state.block) != group[0]:
                    raise core.Violation(
                        f"a right packet was refused [{name} threads]", dict(seed=seed)
                    )
                sched.pass_on(w)
            else:
                return
        raise core.Violation(f"never accepted [{name} threads]", dict(seed=seed))

    for _ in range(n):
        sched.spawn(work)
    sched.run()
    for w in sched.workers:
        if w.error:
            raise core.Violation(
                f"concurrent use of a stream failed: {w.error!r} [{name} threads]",
                dict(seed=seed),
            )
    if b"".join(d.finalize()) != text:
        raise core.Violation(f"another plaintext [{name} threads]", dict(seed=seed))
    d.shmac.test_shmac(s.shmac.result)
    return None


def order_tasks(name, seed, count):
    rng = random.Random(seed)
    return [task_enc(name, rng.getrandbits(40)) for _ in range(count)]


def task_enc(name, seed):
    rng = random.Random(seed)
    closed, _, _, early = names()
    n = rng.choice([2, 3, 4, 5])
    tags = []
    size = sizes(rng, name, n)
    cipher = cls(name)(rng.randbytes(64))
    events, packets, out = [], [], []
    final = rng.random() < 0.4
    groups = []

    async def main():
        s = await cipher.astream_encrypt()
        finished = []

        async def pause():
            for _ in range(rng.choice([0, 0, 1, 2, 5])):
                await asyncio.sleep(0)
            if rng.random() < 0.3:
                await asyncio.sleep(rng.random() * 1e-4)

        async def work(i):
            await pause()
            events.append(["call", i])
            try:
                await s.abuffer(bytes([i]) * size[i - 1])
            except closed:
                events.append(["closed", i])
            else:
                events.append(["ret", i])

        async def finish(i):
            await pause()
            await pause()
            events.append(["call", i])
            try:
                async for p in s.afinalize():
                    packets.append(p)
                    if rng.random() < 0.3:
                        await pause()
            except closed:
                events.append(["closed", i])
                return
            finished.append(1)
            events.append(["ret", i])

        async def tag():
            for _ in range(40):
                await asyncio.sleep(0)
                try:
                    tags.append(s.shmac.result)
                except early:
                    continue
                events.append(["tag", len(packets)])

        async def read():
            for _ in range(rng.choice([2, 9])):
                async for p in s:
                    packets.append(p)
                await pause()

        jobs = [work(i + 1) for i in range(n)]
        if final:
            jobs.append(finish(0))
            if rng.random() < 0.5:
                jobs.append(finish(-1))
            if rng.random() < 0.5:
                jobs.append(tag())
        elif rng.random() < 0.5:
            jobs.append(read())
        rng.shuffle(jobs)
        await asyncio.gather(*jobs)
        if not finished:
            async for p in s.afinalize():
                packets.append(p)
        # the other side: groups supplied by tasks, in their order, while
        # another one reads
        d = await cipher.astream_decrypt(salt=s.salt, iv=s.iv)
        left = list(packets)
        while left:
            k = rng.choice([1, 1, 2, 3])
            groups.append(left[:k])
            left = left[k:]
        fed = [0]

        async def feed(group):
            await d.abuffer(b"".join(a + b for a, b in group))
            fed[0] += 1

        async def drain():
            while fed[0] < len(groups):
                if fed[0]:
                    async for p in d:
                        out.append(p)
                await pause()
                await asyncio.sleep(0)

        await asyncio.gather(*map(feed, groups), drain())
        async for p in d.afinalize():
            out.append(p)
        await d.shmac.atest_shmac(s.shmac.result)
        return s

    s = vloop.run(main(), rng)
    data = b"".join(out)
    if set(tags) - {s.shmac.result}:
        raise core.Violation(f"the tag changed [{name} tasks]", dict(seed=seed))
    if data != read_back(cipher, s, packets, b""):
        raise core.Violation(
            f"concurrent supply changed the plaintext [{name} tasks]", dict(seed=seed)
        )
    return dict(
        sizes=size, strict=1, runs=runs(data), total=len(packets), events=events,
        seed=str(seed),
    )


def concurrent(ctx):
    each, count = ctx.pick(4, 12), ctx.pick(60, 120)
    jobs = [
        (name, ctx.rng.random(), count, side)
        for name in FORMATS for side in ("enc", "dec") for _ in range(each)
    ]
    traces = []
    for j, t in zip(jobs, parallel.run("streams", "order_threads", jobs, patch="streams")):
        traces += [x for x in t if x]
        ctx.count(j, len(t))
    jobs = [(name, ctx.rng.random(), count) for name in FORMATS for _ in range(2 * each)]
    for j, t in zip(jobs, parallel.run("streams", "order_tasks", jobs)):
        traces += t
    for t in traces:
        ctx.count(json.dumps(t))
    ctx.sample(traces[0])
    ctx.sample(traces[-1])
    core.validate(ctx, "StreamTrace", "StreamTrace", traces, what="concurrent buffering")


# -------------------------------------------------------------------- checks

KINDS = ["id", "block", "repeat", "skip", "foreign", "mixed", "zero", "noise"]


def check_S01(ctx):
    run(ctx, "enc_job", enc_jobs(ctx, "{}", ctx.pick(3, 5)))
    run(ctx, "dec_job", dec_jobs(ctx, "{}", ctx.pick([1, 2, 5], [1, 2, 3, 6, 9]), ["id"],
                                 reps=ctx.pick(4, 8)))
    concurrent(ctx)


def check_S02(ctx):
    run(ctx, "dec_job",
        dec_jobs(ctx, '{"bad"}', ctx.pick([1, 2, 4], [1, 2, 3, 4, 6]), KINDS,
                 reps=ctx.pick(4, 8)))


def check_S03(ctx):
    run(ctx, "enc_job", enc_jobs(ctx, '{"part", "tag"}', ctx.pick(2, 4)))
    run(ctx, "dec_job",
        dec_jobs(ctx, '{"part", "tag", "forge"}', ctx.pick([1, 2, 4], [1, 2, 3, 5, 7]),
                 ["id"], reps=ctx.pick(3, 8)))
    concurrent(ctx)
