"""
G01-G04: concurrency guards.

Guard.tla (the protocol, one action per deque operation) is model checked
against GuardContract.tla. The real guards are run by real threads and hand
driven coroutines under threadsched, and every recorded execution is judged
by TLC with GuardTrace.tla.
"""

import asyncio
import random

from . import core, parallel, threadsched


def install():
    threadsched.install([core.REPO / "aiootp" / "asynchs" / "guards"])


class Boom(Exception):
    pass


BOOMS = [
    Boom, Boom, KeyError, ValueError, IndexError, AttributeError, RuntimeError,
    PermissionError, TimeoutError, AssertionError, KeyboardInterrupt, SystemExit,
    GeneratorExit, asyncio.CancelledError, StopIteration, StopAsyncIteration,
]

# equal targets are one target, however they are written
TARGETS = [
    [[("target", 1), ("target", True)], [("target", 2)], [("target", 3)]],
    [[1, 1.0, True], ["1"], [b"1"]],
    [["a", "".join(["a"])], [("a",), tuple(["a"])], ["a "]],
    [[None], ["None"], [()]],
    [[b"", bytes()], [""], [0, False]],
]


def make_scenario(rng, *, prop):
    """What the participants will do; everything random is in here."""
    n = rng.choice([2, 3, 3, 3, 4, 4, 5])
    style = rng.choice(["direct", "managed", "managed"])
    if prop == "G03":
        style = "managed"
    manual = style == "direct" and prop in ("G01", "G02") and rng.random() < 0.3
    mix = rng.choice(["XN", "XN", "XN", "X", "XXN", "XNN"])
    kinds = [rng.choice(mix) for _ in range(n)]
    if prop == "G03":
        targets = [rng.choice([1, 1, 2, 3]) for _ in range(n)]
    elif style == "managed":
        targets = [rng.choice([1, 1, 1, 2]) for _ in range(n)]
    else:
        targets = [1] * n
    s = dict(
        n=n,
        style=style,
        kinds=kinds,
        targets=targets,
        manual=[manual and rng.random() < 0.8 for _ in range(n)],
        is_async=[rng.random() < 0.5 for _ in range(n)],
        late=[rng.choice([0, 0, 1, 8, 30, 60]) for _ in range(n)],
        body=[rng.choice([0, 1, 2, 6]) for _ in range(n)],
        hold=[
            not manual and prop in ("G02", "G03") and rng.random() < 0.35
            for _ in range(n)
        ],
        fail=[
            prop in ("G03", "G04") and rng.random() < 0.3 for _ in range(n)
        ],
        cancel=[None] * n,
        reuse=[None] * n,
        switch=rng.choice([0.01, 0.03, 0.1, 0.1, 0.3, 0.6]),
        seed=rng.getrandbits(48),
        family=rng.randrange(len(TARGETS)),
    )
    if prop in ("G03", "G04"):
        for p in range(n):
            if s["is_async"][p] and rng.random() < 0.6:
                s["cancel"][p] = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 25])
                if rng.random() < 0.4:
                    s["reuse"][p] = "after"
            elif rng.random() < 0.25:
                s["reuse"][p] = rng.choice(["body", "after", "wait"])
    return s


def run_scenario(s, plan=None, again=True):
    """Executes a scenario under the scheduler; returns the trace."""
    from aiootp.asynchs.guards import ConcurrencyGuard, MultiConcurrencyGaurd

    rng = random.Random(s["seed"])
    sched = threadsched.Scheduler(
        rng, s["switch"], plan=plan
    )
    n = s["n"]
    manager = MultiConcurrencyGaurd()
    deques = {t: ConcurrencyGuard.DequePair() for t in set(s["targets"])}
    policies = ConcurrencyGuard.policies
    phase = ["out"] * n
    guards = []
    for p in range(n):
        exclusive = s["kinds"][p] == "X"
        if s["style"] == "managed":
            make = manager.guard if exclusive else manager.monitor
            family = TARGETS[s["family"]]
            guards.append(make(rng.choice(family[s["targets"][p] - 1])))
        else:
            name = "Exclusive" if exclusive else "NonExclusive"
            if s["manual"][p]:
                name = (
                    "QueueManually"
                    if exclusive
                    else "NonExclusiveQueueManually"
                )
            guards.append(
                ConcurrencyGuard(
                    deques[s["targets"][p]], policy=policies[name]()
                )
            )

    def rec(event, p):
        sched.record(event, p + 1)

    # guards queued by hand stand in line from the beginning, in this order
    order = [p for p in range(n) if s["manual"][p]]
    rng.shuffle(order)
    for p in order:
        deques[s["targets"][p]].queue.append(guards[p])
        rec("arrive", p)
        rec("wait", p)
        phase[p] = "waiting"

    def on_sleep(w):
        p = w.number
        if p < n and phase[p] == "arriving":
            w.arrival_sleeps += 1
            if w.arrival_sleeps >= (10 if s["is_async"][p] else 4):
                phase[p] = "waiting"
                rec("wait", p)

    sched.on_sleep = on_sleep

    def arrive(w, p):
        for _ in range(s["late"][p]):
            sched.pass_on(w)
        w.arrival_sleeps = 0
        if phase[p] == "out":
            phase[p] = "arriving"
            rec("arrive", p)

    def opened(p):
        rec("open", p)
        phase[p] = "open"

    def closing(p):
        phase[p] = "closed"
        rec("close", p)

    def try_reuse(w, p):
        for _ in range(rng.choice([1, 2, 3])):
            try:
                with guards[p]:
                    rec("reused", p)
            except threadsched.Abort:
                raise
            except Exception:
                rec("refused", p)

    def boom(p):
        """The exception the body of p ends with."""
        kinds = BOOMS[:-2] if s["is_async"][p] else BOOMS
        booms[p] = rng.choice(kinds)(p)
        raise booms[p]

    booms = [None] * n

    def sync_proc(w):
        p = w.number
        arrive(w, p)
        failed = False
        try:
            with guards[p]:
                opened(p)
                for _ in range(s["body"][p]):
                    sched.pass_on(w)
                if s["hold"][p]:
                    sched.hold(w)
                if s["reuse"][p] == "body":
                    try_reuse(w, p)
                closing(p)
                if s["fail"][p]:
                    boom(p)
        except threadsched.Abort:
            raise
        except BaseException as error:
            failed = error is booms[p]
            # a guard whose object was reused is faulted: its own user may
            # be told so, but nobody else
            if failed:
                pass
            elif s["reuse"][p] in ("body", "wait"):
                failed = True
                if phase[p] in ("arriving", "waiting"):
                    rec("cancel", p)
                    rec("giveup", p)
                    phase[p] = "closed"
            else:
                w.error = error
                rec("error", p)
                return
        if s["fail"][p] and not failed:
            rec("swallowed", p)
        if s["reuse"][p] == "after":
            try_reuse(w, p)

    def async_proc(w):
        p = w.number
        arrive(w, p)
        cancelled = False

        async def main():
            async with guards[p]:
                opened(p)
                for _ in range(s["body"][p]):
                    try:
                        await threadsched.bare_yield()
                    except asyncio.CancelledError:
                        closing(p)
                        raise
                if s["hold"][p]:
                    sched.hold(w)
                closing(p)
                if s["fail"][p]:
                    boom(p)

        def on_cancel():
            nonlocal cancelled
            cancelled = True
            if phase[p] in ("arriving", "waiting"):
                rec("cancel", p)

        failed = unused = told = False
        try:
            threadsched.drive(w, main(), s["cancel"][p], on_cancel)
        except threadsched.Abort:
            raise
        except BaseException as error:
            if error is booms[p] or isinstance(error, asyncio.CancelledError):
                failed = cancelled or error is booms[p]
                # cancelled before it stood in line, it is as good as new
                unused = phase[p] == "arriving"
                if phase[p] in ("arriving", "waiting"):
                    phase[p] = "closed"
                    rec("giveup", p)
            elif s["reuse"][p] == "wait":
                told = True
                if phase[p] in ("arriving", "waiting"):
                    rec("cancel", p)
                    rec("giveup", p)
                    phase[p] = "closed"
            else:
                w.error = error
                rec("error", p)
                return
        if s["fail"][p] and not failed and not told:
            rec("swallowed", p)
        if s["reuse"][p] == "after" and not unused:
            try_reuse(w, p)

    for p in range(n):
        sched.spawn(async_proc if s["is_async"][p] else sync_proc)
    # another user of a guard object that is still waiting
    for p in range(n):
        if s["reuse"][p] == "wait":

            def intruder(w, p=p):
                for _ in range(200):
                    if phase[p] == "waiting":
                        break
                    if phase[p] in ("open", "closed"):
                        return
                    sched.slept(w)
                if phase[p] == "waiting":
                    try_reuse(w, p)

            sched.spawn(intruder)
    done = sched.run()
    if sched.stuck and again:
        # no progress in real time: only believed when it repeats
        return run_scenario(s, plan, again=False)
    if done and s["style"] == "managed" and len(manager.targets):
        sched.events.append(["leak", 1])
    if done and s["style"] == "direct" and not {"body", "wait"} & set(s["reuse"]):
        if any(d.queue or d.observers for d in deques.values()):
            sched.events.append(["leak", 1])
    sched.events.append(["end", 1])
    errors = [repr(w.error) for w in sched.workers if w.error]
    return dict(
        kinds=s["kinds"],
        targets=s["targets"],
        events=sched.events,
        scenario=s,
        errors=errors,
        plan=sorted(plan) if plan else [],
        steps=sched.steps,
    )


def random_job(prop, seed, count):
    rng = random.Random(f"{prop}/{seed}")
    return [run_scenario(make_scenario(rng, prop=prop)) for _ in range(count)]


def base(kinds, style, is_async, **kw):
    n = len(kinds)
    s = dict(
        n=n,
        style=style,
        kinds=list(kinds),
        targets=[1] * n,
        manual=[False] * n,
        is_async=list(is_async),
        late=[0] * n,
        body=[1] * n,
        hold=[False] * n,
        fail=[False] * n,
        cancel=[None] * n,
        reuse=[None] * n,
        switch=0.0,
        seed=7,
        family=0,
    )
    s.update(kw)
    return s


def preempt_job(kinds, style, is_async, seed, count, **kw):
    """
    Systematic: one preemption at every single bytecode of the run, and
    `count` random pairs of preemptions.
    """
    out = []
    for start in range(2):
        s = base(kinds, style, is_async, seed=seed + start, **kw)
        t = run_scenario(s, plan={-1})
        out.append(t)
        steps = t["steps"]
        for k in range(1, steps + 1):
            out.append(run_scenario(s, plan={k}))
        rng = random.Random(seed)
        for _ in range(count):
            plan = {rng.randrange(1, steps + 40) for _ in range(rng.choice([2, 3]))}
            out.append(run_scenario(s, plan=plan))
    return out


def cancel_job(kinds, style, who, seed, **kw):
    """Cancels participant `who` at each of its suspension points."""
    out = []
    rng = random.Random(f"{kinds}/{style}/{who}/{seed}")
    for k in [*range(1, 14), 18, 25]:
        for rep in range(6):
            cancel, reuse = [None] * len(kinds), [None] * len(kinds)
            cancel[who] = k
            reuse[who] = rng.choice([None, "after"])
            body = [rng.choice([1, 30]) for _ in kinds]
            s = base(
                kinds,
                style,
                [True] * len(kinds),
                cancel=cancel,
                reuse=reuse,
                body=body,
                seed=seed * 1000 + k * 10 + rep,
                switch=[0.0, 0.05, 0.3][rep % 3],
                **kw,
            )
            out.append(run_scenario(s))
    return out


def reuse_job(kinds, style, seed, count, **kw):
    """The first participant's guard is used again before the others come."""
    out = []
    rng = random.Random(f"{kinds}/{style}/{seed}/reuse")
    for rep in range(count):
        n = len(kinds)
        s = base(
            kinds,
            style,
            [rng.random() < 0.5 for _ in kinds],
            reuse=["after"] + [None] * (n - 1),
            late=[0] + [rng.choice([30, 60, 90]) for _ in range(n - 1)],
            cancel=[None] * n,
            seed=seed * 1000 + rep,
            switch=[0.0, 0.05, 0.3][rep % 3],
            **kw,
        )
        out.append(run_scenario(s))
    return out


def judge(ctx, traces):
    seen = {}
    for t in traces:
        key = (tuple(t["kinds"]), tuple(t["targets"]), tuple(map(tuple, t["events"])))
        seen.setdefault(key, t)
        ctx.evaluations += 1
    for key in seen:
        ctx.distinct.add(hash(key))
    for t in list(seen.values())[:3]:
        ctx.sample(dict(kinds=t["kinds"], targets=t["targets"], events=t["events"]))
    slim = [
        dict(
            kinds=t["kinds"],
            targets=t["targets"],
            events=t["events"],
        )
        for t in seen.values()
    ]
    try:
        core.validate(ctx, "GuardTrace", "GuardTrace", slim, what="execution")
    except core.Violation as v:
        for t in seen.values():
            if t["events"] == v.detail["trace"]["events"]:
                v.detail["scenario"] = t["scenario"]
                v.detail["errors"] = t["errors"]
                v.detail["plan"] = t["plan"]
                break
        raise
    # self-check of the judge: a recorded trace with its first two events
    # exchanged for an overlapping opening must be rejected
    bad = dict(
        kinds=["X", "N"],
        targets=[1, 1],
        events=[["arrive", 1], ["open", 1], ["arrive", 2], ["open", 2]],
    )
    try:
        scrap = core.Context(ctx.prop, ctx.tier, ctx.seed)
        core.validate(scrap, "GuardTrace", "GuardTrace", [bad])
    except core.Violation:
        pass
    else:
        raise core.CheckError("the trace judge accepts overlapping contexts")


def model(ctx, cancels):
    core.model_check(
        ctx,
        "Guard",
        constants=dict(Procs="{1,2,3}", Targets="{1}", Cancels=cancels),
    )
    if ctx.prop == "G03":
        core.model_check(
            ctx,
            "Guard",
            constants=dict(Procs="{1,2,3}", Targets="{1,2}", Cancels=0),
        )
    if not ctx.quick:
        core.model_check(
            ctx,
            "Guard",
            "Guard",
            constants=dict(Procs="{1,2,3,4}", Targets="{1}", Cancels=1),
            timeout=6000,
            heap="16g",
        )


def check(ctx):
    model(ctx, 1)
    reps = ctx.pick(120, 1500)
    jobs = []
    for i in range(16):
        jobs.append(("random_job", (ctx.prop, f"{ctx.seed}/{i}", reps)))
    pairs = [("X", "X"), ("X", "N"), ("N", "X"), ("N", "N")]
    for style in ("direct", "managed"):
        for pair in pairs:
            for a in ((False, False), (True, False)):
                if ctx.prop in ("G01", "G02", "G03"):
                    jobs.append(
                        ("preempt_job", (pair, style, a, ctx.seed, ctx.pick(30, 3000)))
                    )
    if ctx.prop in ("G01", "G02"):
        for style in ("direct", "managed"):
            for trio in ("NXN", "XNX", "NXX", "XXN", "NNX"):
                jobs.append(
                    (
                        "preempt_job",
                        (
                            tuple(trio),
                            style,
                            (False, True, False),
                            ctx.seed,
                            ctx.pick(60, 6000),
                        ),
                    )
                )
    if ctx.prop in ("G03", "G04"):
        for style in ("direct", "managed"):
            for kinds, who in (
                ("XXN", 1), ("XXX", 0), ("XNX", 1), ("NXN", 1), ("NXX", 2),
                ("XNN", 2), ("NN", 0), ("XX", 1), ("X", 0), ("N", 0),
            ):
                jobs.append(("cancel_job", (tuple(kinds), style, who, ctx.seed)))
            for kinds in ("XN", "XX", "NX", "NN", "XNX", "NXN"):
                jobs.append(
                    ("reuse_job", (tuple(kinds), style, ctx.seed, ctx.pick(24, 300)))
                )
    results = parallel.run(
        "guards", "dispatch", jobs, patch="guards",
        timeout=ctx.pick(600, 18000),
    )
    traces = [t for r in results for t in r]
    judge(ctx, traces)
    ctx.extra["schedules"] = len(traces)
    ctx.assumptions += [
        "CPython deque operations are atomic (preemption between bytecodes)",
        "waiting contexts are observed as such after several probes",
    ]


def dispatch(name, args):
    return globals()[name](*args)


check_G01 = check_G02 = check_G03 = check_G04 = check
