"""R01, R02, R03: random values, keyed choices, the gathering of entropy."""

import asyncio
import json
import os
import pickle
import queue
import random
import secrets
import signal
import sys
import threading
import time

from . import core, parallel, threadsched
from .ciphers import cases
from .generic import chunks
from .keys import Sides

_real_sleep = time.sleep
_real_asleep = asyncio.sleep

still = frozenset()  # of "random", "clock", "process": what stands still


def install():
    """Lets randomness, clock and process number stand still; switching points."""
    bits, token, counter, pid = secrets.randbits, secrets.token_bytes, time.perf_counter_ns, os.getpid
    secrets.randbits = lambda k: 3 if "random" in still else bits(k)
    secrets.token_bytes = lambda nbytes=None: bytes(nbytes) if "random" in still else token(nbytes)
    time.perf_counter_ns = lambda: 10**9 if "clock" in still else counter()
    os.getpid = lambda: 77 if "process" in still else pid()
    top = core.REPO / "aiootp" / "randoms"
    threadsched.install([top / f for f in ("rng.py", "simple.py", "threading_safe_entropy_pool.py", "_early_salts.py")])


# ---------------------------------------------------------------------- R01

INPUTS = {0: None, 1: b"a", 2: b"b", 3: "a", 4: 7, 5: b"", 6: ["a", b"b"], 7: b"a" * 500}


class Source:
    """The ways to ask for random bytes, by name."""

    def __init__(self, rng):
        import collections
        import hashlib

        from aiootp import randoms
        from aiootp.randoms.threading_safe_entropy_pool import ThreadingSafeEntropyPool

        self.rng, self.randoms = rng, randoms
        self.own = ThreadingSafeEntropyPool(
            b"seed", obj=hashlib.shake_256, pool=collections.deque([secrets.token_bytes(32)], maxlen=8)
        )

    def plan(self, call, x, size, fresh=0):
        """The sync function, the async one and the arguments."""
        if call == "pool":
            data = () if x == 0 else (repr(INPUTS[x]).encode(),) if x % 2 else (b"", repr(INPUTS[x]).encode())
            return self.own.hash, self.own.ahash, data, dict(size=size)
        kw = {} if x == 0 else dict(entropy=INPUTS[x])
        if call == "csprng":
            return self.randoms.csprng, self.randoms.acsprng, (size,), kw
        return self.randoms.random_number_generator, self.randoms.arandom_number_generator, (size,), dict(kw, freshness=fresh)


class Words:
    def __init__(self):
        self.names = {}
        self.events = []

    def add(self, size, value):
        if type(value) is not bytes:
            return self.events.append(dict(size=size, got=-1, words=[], why=repr(value)[:300]))
        cut = [value[i : i + 8] for i in range(0, len(value) - 7, 8)]
        if len(cut) > 8:
            cut = cut[:5] + cut[-3:]
        words = [self.names.setdefault(w, len(self.names)) for w in cut]
        self.events.append(dict(size=size, got=len(value), words=words))


SIZES = [0, 1, 2, 7, 8, 16, 24, 31, 32, 33, 48, 64, 64, 100, 135, 136, 137, 200, 272, 1000]


def any_call(rng, heavy=0.1):
    call = rng.choice(["csprng", "csprng", "csprng", "number", "pool"])
    fresh = rng.choice([1, 1, 2]) if rng.random() < heavy else 0
    x = rng.choice([0, 0, 0, *INPUTS])
    size = rng.choice(SIZES)
    return call, x, max(size, 1) if call == "pool" else size, fresh


def stillness(rng):
    return frozenset(rng.choice([(), ("random",), ("clock",), ("random", "clock"), ("random", "clock")]))


def refusals(source):
    for bad in (-1, -8, True, 1.0, None, "1"):
        for f in (
            lambda: source.randoms.random_number_generator(freshness=bad),
            lambda: asyncio.new_event_loop().run_until_complete(source.randoms.arandom_number_generator(freshness=bad)),
        ):
            try:
                f()
            except (ValueError, TypeError):
                continue
            raise core.Violation("a freshness that is not a number of rounds was accepted", dict(freshness=repr(bad)))


def number_threads_job(seed):
    """Threads of one process, switched at every point."""
    global still
    rng = random.Random(seed)
    source, words = Source(rng), Words()
    sched = threadsched.Scheduler(rng, rng.choice([0.05, 0.2, 0.5, 0.8]))
    sched.limit = 10**5  # one who waits meets the holder of a lock at each of its steps
    alike = any_call(rng, 0) if rng.random() < 0.6 else None
    heavy = rng.choice([0, 0, 0.1])

    def work(w):
        for _ in range(per):
            call, x, size, fresh = alike or any_call(rng, heavy)
            f, g, a, kw = source.plan(call, x, size, fresh)
            if fresh or rng.random() < 0.6:
                got = f(*a, **kw)
            else:
                got = threadsched.drive(w, g(*a, **kw))
            words.add(size, got)
            sched.record("made", w.number)

    per = rng.choice([1, 2, 4])
    for _ in range(rng.choice([2, 3, 4])):
        sched.spawn(work)
    still = stillness(rng)
    try:
        sched.run()
    finally:
        still = frozenset()
    for w in sched.workers:
        if w.error:
            words.add(0, w.error)
    if sched.deadlocked:
        words.add(0, "deadlock")
    return dict(events=words.events)


def tasks_job(seed):
    global still
    rng = random.Random(seed)
    source, words = Source(rng), Words()
    loop = asyncio.new_event_loop()
    alike = any_call(rng) if rng.random() < 0.5 else None

    async def one():
        call, x, size, fresh = alike or any_call(rng)
        f, g, a, kw = source.plan(call, x, size, fresh)
        try:
            got = await g(*a, **kw) if call == "number" or rng.random() < 0.8 else f(*a, **kw)
        except Exception as error:
            got = error
        words.add(size, got)

    async def main():
        await asyncio.gather(*(one() for _ in range(rng.choice([2, 5, 20]))))

    still = stillness(rng)
    try:
        loop.run_until_complete(main())
    finally:
        still = frozenset()
        loop.close()
    refusals(source)
    return dict(events=words.events)


def forked(function, *a):
    """What the function returns in a fork of this process."""
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(100)
            os.close(r)
            try:
                out = function(*a)
            except BaseException as error:
                out = error if isinstance(error, core.Violation) else repr(error)
            with os.fdopen(w, "wb") as file:
                pickle.dump(out, file)
        finally:
            os._exit(0)
    os.close(w)
    return pid, os.fdopen(r, "rb")


def result(pid, file):
    with file:
        data = file.read()
    os.waitpid(pid, 0)
    out = pickle.loads(data) if data else "the process gave nothing"
    if isinstance(out, core.Violation):
        raise out
    return out


def forks_job(seed):
    """Processes that are copies of one another."""
    return result(*forked(_forks, seed))


def _forks(seed):
    global still
    rng = random.Random(seed)
    source, words = Source(rng), Words()
    still = stillness(rng)
    number = rng.choice([1, 2, 3])
    plan = [any_call(rng, 0.1) for _ in range(number)]

    def values():
        out = []
        do = asyncio.new_event_loop().run_until_complete
        for call, x, size, fresh in plan:
            f, g, a, kw = source.plan(call, x, size, fresh)
            try:
                out.append((size, f(*a, **kw) if side else do(g(*a, **kw))))
            except Exception as error:
                out.append((size, repr(error)))
        return out

    side = rng.random() < 0.5
    kids = [forked(values) for _ in range(rng.choice([1, 2, 4]))]
    found = values() if rng.random() < 0.5 else []
    for kid in kids:
        got = result(*kid)
        found += got if isinstance(got, list) else [(0, None)]
    for size, value in found:
        words.add(size, value)
    return dict(events=words.events)


def histories_job(batch, seed):
    """Histories from one and the same state; nothing else differs."""
    return result(*forked(_histories, batch, seed))


def _histories(batch, seed):
    global still
    rng = random.Random(seed)
    source = Source(rng)
    still = frozenset(("random", "clock", "process"))

    def value(history):
        do = asyncio.new_event_loop().run_until_complete
        for call, x in history:
            f, g, a, kw = source.plan(call, x, 48)
            got = f(*a, **kw) if rng.random() < 0.5 else do(g(*a, **kw))
        return got

    words, same = Words(), []
    for history in batch:
        words.add(48, result(*forked(value, history)))
    for history in batch[:4]:
        same.append(result(*forked(value, history)) == result(*forked(value, history)))
    return dict(events=words.events), same


def check_R01(ctx):
    k = dict(Calls=ctx.pick(1, 2), Inputs=ctx.pick("{0, 1}", "{0}"))
    core.model_check(ctx, "EntropyMC", constants=dict(k, Named='"both"', Kept=1))
    for named, kept in (("thread", 1), ("process", 1), ("both", 0)):
        k = dict(Calls=2 if kept == 0 else 1, Inputs="{0}")
        if core.tlc("EntropyMC", "EntropyMC", constants=dict(k, Named=f'"{named}"', Kept=kept)).ok:
            raise core.CheckError("the entropy model accepts a broken variant")
    # a pool of its own knows nothing of the package's
    found = []
    for calls, inputs, depth in (
        ('{"csprng", "number"}', "{0, 1, 2, 3, 4, 5, 6, 7}", 2), ('{"pool"}', "{0, 1, 2, 3, 4, 5, 6, 7}", ctx.pick(2, 3)),
        ('{"csprng", "number"}', ctx.pick("{0, 1}", "{0, 1, 5}"), ctx.pick(3, 4)),
    ):
        found += [h for h in cases(ctx, "EntropyCalls", constants=dict(Calls=calls, Inputs=inputs, Depth=depth)) if h not in found]
    ctx.rng.shuffle(found)
    batches = [found[i : i + 150] for i in range(0, len(found), 150)]
    out = parallel.run("randoms", "histories_job", [(b, ctx.rng.random()) for b in batches], patch="randoms")
    traces = [t for t, _ in out]
    ctx.sample(dict(histories=found[:3], repeatable=all(x for _, same in out for x in same)))
    for name, n in (("number_threads_job", ctx.pick(900, 6000)), ("tasks_job", ctx.pick(160, 900)), ("forks_job", ctx.pick(400, 2400))):
        traces += parallel.run("randoms", name, [(ctx.rng.random(),) for _ in range(n)], patch="randoms")
    for t in traces:
        ctx.count(json.dumps(t), len(t["events"]))
    core.validate(ctx, "EntropyTrace", "EntropyTrace", traces, what="random values", batch=400)


# ---------------------------------------------------------------------- R02

SETTINGS = dict(mb=1, cpu=1, cores=1)


def choices_job(batch, seed):
    rng = random.Random(seed)
    do = Sides(rng)
    for case in batch:
        one_choice(rng, do, case)
    return len(batch)


def select(do, side, kind, size, things, kw):
    import aiootp.keygens.mnemonics

    keygens = sys.modules["aiootp.keygens.mnemonics"]
    if kind == "keyed":
        if side:
            got = list(keygens.keyed_choices(things, size, **kw))
        else:

            async def run():
                return [x async for x in keygens.akeyed_choices(things, size, **kw)]

            got = do.loop.run_until_complete(run())
    else:
        phrase = kw.pop("passphrase", None)
        a = (size,) if phrase is None and "positional" not in kw else (phrase, size)
        kw.pop("positional", None)
        if things is not None:
            kw["words"] = things
        f = keygens.mnemonic if side else keygens.amnemonic
        got = f(*a, **kw) if len(a) == 2 else f(size=size, **kw)
        got = got if side else do.loop.run_until_complete(got)
    return got


def one_wide(rng, do, case, fail):
    n = 2 ** case["count"] + rng.choice([0, 1, rng.randrange(2 ** case["count"])])
    kw = dict(
        keyed=dict(key=rng.randbytes(64)),
        phrase=dict(SETTINGS, passphrase=rng.randbytes(16)),
        fresh={},
    )[case["other"]]
    got = select(do, case["sides"][0], case["other"], case["size"], range(n), kw)
    if len(got) != case["size"] or not all(0 <= i < n for i in got):
        fail("something else was selected")
    # each of these fails for one selection in 10^11
    if {4 * i // n for i in got} != {0, 1, 2, 3} or {i % 2 for i in got} != {0, 1}:
        fail("a part of the choices is never selected", n=n)
    if n > 2**40 and len(set(got)) < len(got):
        fail("an element is selected repeatedly", n=n)


def one_choice(rng, do, case):
    from aiootp._constants.datasets import WORD_LIST

    kind, size, count, other = case["kind"], case["size"], case["count"], case["other"]

    def fail(what, **kw):
        raise core.Violation(what, dict(case, **kw))

    def elements(n, tag):
        make = rng.choice([lambda i: (tag, i), lambda i: f"{tag}{i}", lambda i: b"%d-%d" % (tag, i)])
        return rng.choice([list, tuple])(make(i) for i in range(n))

    def checked(got, n, things):
        if type(got) is not list or len(got) != n:
            fail("another number of elements was selected", got=repr(got)[:200])
        where = {x: i for i, x in enumerate(things)}
        if any(x not in where for x in got):
            fail("something that is not among the choices was selected", got=repr(got)[:200])
        return [where[x] for x in got]

    def changed(value):
        at = rng.randrange(len(value) * 8)
        out = bytearray(value)
        out[at // 8] ^= 1 << at % 8
        return rng.choice([bytes(out), value + b"\0", value[:-1], b"\0" + value])

    if kind == "wide":
        return one_wide(rng, do, case, fail)
    words = WORD_LIST if count == 2048 and kind != "keyed" else elements(count, 1)
    things = None if words is WORD_LIST and rng.random() < 0.5 else words
    size2, words2, things2 = size, words, things
    if kind == "keyed":
        kw = dict(key=rng.randbytes(rng.choice([32, 64, 64, 168])))
        if rng.random() < 0.7:
            kw["domain"] = rng.choice([b"", b"d", rng.randbytes(rng.choice([8, 40, 200]))])
    elif kind == "phrase":
        kw = dict(SETTINGS, passphrase=rng.randbytes(rng.choice([13, 16, 40])))
        if rng.random() < 0.7:
            kw["salt"] = rng.choice([b"", b"s", rng.randbytes(rng.choice([4, 16, 100]))])
    else:
        kw = {}
        if rng.random() < 0.5:
            kw["salt"] = b"a salt"
        if rng.random() < 0.5:
            kw["positional"] = True
    kw2 = dict(kw)
    if other == "key":
        kw2["key"] = changed(kw["key"])
    elif other == "passphrase":
        kw2["passphrase"] = changed(kw["passphrase"])
    elif other in ("domain", "salt"):
        kw2[other] = changed(kw.get(other) or b"") if kw.get(other) else rng.choice([b"\0", b"else"])
    elif other in SETTINGS:
        kw2[other] = 2
    elif other == "count":
        words2 = things2 = elements(rng.choice([count + 1, 2 * count, 3 * count]), 1)
    elif other == "size":
        size2 = size + 1
    elif other == "elements":
        words2 = things2 = elements(count, 2)
    elif other == "settings":
        name = rng.choice(list(SETTINGS))
        kw[name] = SETTINGS[name]
    a, b = case["sides"]
    if case["outcome"] == "refused":
        try:
            select(do, a, kind, size, things, dict(kw))
        except (ValueError, TypeError):
            return
        fail("settings were ignored for a mnemonic without a passphrase")
    first = checked(select(do, a, kind, size, things, dict(kw)), size, words)
    second = checked(select(do, b, kind, size2, things2, dict(kw2)), size2, words2)
    if case["outcome"] == "same":
        if first != second:
            fail("equal inputs selected other elements", first=first[:8], second=second[:8])
    elif count ** min(size, size2) > 2**60 and all(x == y % count for x, y in zip(first, second)):
        fail("different inputs selected the same elements", first=first[:8])
    if size >= 40 and count >= 8:
        for got in (first, second):
            # misses by chance with a probability of (3/4)^40 and less for each
            if size >= 200 and not (min(got) < count / 4 and max(got) >= 3 * count / 4):
                fail("only a part of the choices is ever selected", first=first[:8])


def wrong_phrases_job(seed):
    """A passphrase that is too short or of a wrong type is refused."""
    import aiootp.keygens.mnemonics

    keygens = sys.modules["aiootp.keygens.mnemonics"]
    rng = random.Random(seed)
    do = Sides(rng)
    for bad in (b"", b"a", "", "a passphrase that is text", 0, False, [], bytearray(b"a long enough passphrase")):
        for settings in ({}, SETTINGS):
            try:
                got = do(keygens, "mnemonic", bad, 8, **settings)
            except (ValueError, TypeError):
                continue
            raise core.Violation("a mnemonic was made from an invalid passphrase", dict(passphrase=repr(bad), got=repr(got)))
    return 16


def check_R02(ctx):
    kinds = '{"keyed", "phrase", "fresh"}'
    found = cases(ctx, "Choices", constants=dict(Sizes="{1, 2, 8, 40, 300}", Counts="{1, 2, 3, 255, 256, 257, 2048}", Kinds=kinds))
    found += cases(ctx, "Choices", constants=dict(Sizes="{12, 200}", Counts="{70000}", Kinds=kinds))
    found += cases(ctx, "Choices", constants=dict(Sizes="{200}", Counts="{3, 7, 8, 11, 15, 16, 17, 24, 25, 31, 32, 33, 40, 48, 56, 62}", Kinds='{"wide"}'))
    slow = [c for c in found if c["kind"] == "phrase"]
    fast = [c for c in found if c["kind"] != "phrase"]
    chunks(ctx, "randoms", "choices_job", fast * ctx.pick(2, 12), 40)
    ctx.rng.shuffle(slow)
    chunks(ctx, "randoms", "choices_job", slow * ctx.pick(1, 4), 20)
    parallel.run("randoms", "wrong_phrases_job", [(ctx.rng.random(),) for _ in range(ctx.pick(4, 16))])


# ---------------------------------------------------------------------- R03


class Desk:
    """Where a sleeping thread under test waits for the harness."""

    clock = None
    known = frozenset()
    active = False

    def __init__(self):
        self.asked = queue.Queue()
        self.go = threading.Semaphore(0)
        self.thread = None

    def sleep(self, delay):
        self.thread = threading.current_thread()
        self.asked.put(delay)
        self.go.acquire()

    def next(self):
        """The duration of the next sleep."""
        try:
            return self.asked.get(timeout=60)
        except queue.Empty:
            raise core.Violation("the gathering of entropy has stopped", {}) from None


desk = None


class install_sleep:
    """A controlled clock and controlled sleeps for the threads under test."""

    @staticmethod
    def install():
        counter = time.perf_counter
        time.perf_counter = lambda: counter() if Desk.clock is None else Desk.clock

        async def asleep(delay=0, result=None):
            if desk is not None and delay != 0 and threading.get_ident() not in Desk.known:
                desk.sleep(delay)
                return result
            return await _real_asleep(delay, result)

        asyncio.sleep = asyncio.tasks.sleep = asleep

        def sleep(delay):
            if desk is not None and threading.get_ident() not in Desk.known:
                return desk.sleep(delay)
            return _real_sleep(delay)

        time.sleep = sleep


ROUNDS = 40
TICK = 1 / 1024


def daemon_job(start, steps, seed):
    global desk
    import collections
    import hashlib

    from aiootp.randoms.entropy_daemon import EntropyDaemon
    from aiootp.randoms.threading_safe_entropy_pool import ThreadingSafeEntropyPool

    rng = random.Random(seed)
    maxlen = rng.choice([2, 3, 8, 32, None])
    pool = collections.deque([secrets.token_bytes(32) for _ in range(rng.choice([1, 2, 32]))], maxlen=maxlen)
    gadget = ThreadingSafeEntropyPool(b"seed", obj=hashlib.shake_256, pool=pool)
    Desk.known = frozenset(t.ident for t in threading.enumerate())
    Desk.clock = float(rng.choice([0, 1000, 2**20]))
    desk = Desk()
    seen = set(pool)
    done = []

    def fail(what, **kw):
        raise core.Violation(what, dict(start=start, done=done, **kw))

    def seconds(n):
        n *= TICK
        return int(n) if n == int(n) and rng.random() < 0.5 else n

    def gathered(before):
        new = pool[0]
        if type(new) is not bytes or len(new) != 32 or new in seen:
            fail("a round did not add a new value to the pool")
        if len(pool) > 1 and pool[1] != before:
            fail("a round changed other values of the pool")
        seen.add(new)

    def rounds(n, hi, lo):
        slept = []
        for _ in range(n):
            before = pool[0]
            desk.go.release()
            slept.append(desk.next())
            gathered(before)
        if min(slept) < 0 or max(slept) > hi * TICK + 1e-9:
            fail("a sleep is longer than permitted", longest=max(slept), limit=hi * TICK)
        if n >= ROUNDS and max(slept) < lo * TICK:
            fail("the limit in force is not reached", longest=max(slept), limit=lo * TICK)

    for bad in (0, -1, -0.5):
        try:
            EntropyDaemon(entropy_pool=pool, gadget=gadget, max_delay=bad)
        except ValueError:
            continue
        fail("a limit that is not positive was accepted", limit=bad)
    before = pool[0]
    daemon = EntropyDaemon(entropy_pool=pool, gadget=gadget, max_delay=seconds(start[0]))
    if daemon.start() is not daemon:
        fail("starting does not give the object")
    ended = False
    try:
        first = desk.next()
        gathered(before)
        if not 0 <= first <= start[0] * TICK + 1e-9:
            fail("a sleep is longer than permitted", longest=first)
        for act in steps:
            op, a, b = act["op"], act["a"], act["b"]
            done.append([op, a, b])
            if op == "rounds":
                Desk.clock += a * TICK
                rounds(ROUNDS, act["hi"], act["lo"])
            elif op == "cancel":
                daemon.cancel()
                ended = True
            else:
                try:
                    if op == "max":
                        daemon.set_max_delay(seconds(a))
                    else:
                        daemon.set_temporary_max_delay(seconds(a), duration=seconds(b))
                except ValueError:
                    if a > 0:
                        fail("a positive limit was refused")
                else:
                    if a <= 0:
                        fail("a limit that is not positive was accepted", limit=a)
    finally:
        if not ended:
            daemon.cancel()
        desk.go.release()
        if desk.thread is not None:
            desk.thread.join(30)
            if desk.thread.is_alive():
                desk.go.release(10**6)
                desk = None
                fail("the gathering of entropy goes on after it was cancelled")
        desk = None
        Desk.clock = None
    return 1


def sleeps_job(seed):
    """Random sleeps of single callers."""
    global desk
    from aiootp import randoms

    rng = random.Random(seed)
    limit = rng.choice([0.001, 1, 2.5, 1000, 0])
    sync = rng.random() < 0.5
    n = 60

    def work():
        try:
            loop = asyncio.new_event_loop()
            for _ in range(n):
                if sync:
                    randoms.random_sleep(limit)
                else:
                    loop.run_until_complete(randoms.arandom_sleep(limit))
        finally:
            own.asked.put(None)

    Desk.known = frozenset(t.ident for t in threading.enumerate())
    desk = own = Desk()
    t = threading.Thread(target=work, daemon=True)
    t.start()
    slept = []
    while (delay := desk.next()) is not None:
        slept.append(delay)
        desk.go.release()
    desk = None
    t.join(30)
    if limit == 0 and not any(slept):
        return 1
    if len(slept) != n or min(slept) < 0 or max(slept) > limit or max(slept) < limit / 2:
        raise core.Violation("a random sleep is not within its limit", dict(limit=limit, slept=slept[:5], sync=sync, n=len(slept)))
    return 1


def check_R03(ctx):
    consts = dict(
        Limits="{2048, 10240}", Temps="{1, 512, 8192}", Spans="{0, 1024, 6000}", Steps=ctx.pick("{0, 1024, 5000}", "{0, 700, 1024, 5000, 6000}"),
    )
    g = core.explore(ctx, "Daemon", constants=consts)
    jobs = []
    for root, steps in g.paths(ctx.rng, max_len=8):
        acts = [a for a, *_ in steps]
        if any(a["op"] == "rounds" for a in acts) or ctx.rng.random() < 0.1:
            jobs.append((json.loads(g.views[root]), acts, ctx.rng.random()))
    ctx.rng.shuffle(jobs)
    jobs = jobs[: ctx.pick(3000, 30000)]
    parallel.run("randoms", "daemon_job", jobs, patch="randoms_sleep")
    parallel.run("randoms", "sleeps_job", [(ctx.rng.random(),) for _ in range(ctx.pick(60, 400))], patch="randoms_sleep")
    for start, acts, _ in jobs:
        ctx.count(json.dumps([start, acts]), len(acts))
    ctx.traces += len(jobs)
    ctx.sample(dict(start=jobs[0][0], steps=jobs[0][1]))
