"""N07: contexts that ignore exceptions."""

import asyncio
import json
import random

from . import core
from .ciphers import cases
from .generic import chunks


class Own(Exception):
    """Raised by a handler."""


class OwnKey(KeyError):
    pass


class OwnAttribute(AttributeError):
    pass


class OwnBare(BaseException):
    pass


class Sub(UnicodeError):
    pass


class Bare(BaseException):
    pass


TYPES = {"nothing": (), "value": (ValueError,), "value os": (ValueError, OSError), "all": (Exception,), "base": (BaseException,)}
BODY = dict(
    value=[ValueError],
    sub=[Sub, UnicodeError],
    os=[FileNotFoundError, OSError, TimeoutError],
    key=[KeyError, LookupError, AttributeError, TypeError, RuntimeError, Own],
    exit=[Bare, GeneratorExit],
    cancel=[asyncio.CancelledError],
)
ANSWER = dict(true=True, one=1, false=False, empty=None)


class Quiet:
    """A handler that is false by itself."""

    def __init__(self, function):
        self.function = function

    def __call__(self, relay):
        return self.function(relay)

    def __len__(self):
        return 0


def ignore_job(batch, seed):
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    for case in batch:
        for is_async in (False, True):
            one_ignore(rng, loop, case, is_async)
    loop.close()
    return len(batch)


def one_ignore(rng, loop, case, is_async):
    from aiootp._exceptions import Ignore

    calls, raised = [], {}
    error = rng.choice(BODY[case["body"]])("body") if case["body"] != "fine" else None

    def fail(what, **kw):
        raise core.Violation(what, dict(case, is_async=is_async, calls=calls, **kw))

    def handler(name, how):
        def run(relay):
            calls.append(name)
            if relay is not context:
                fail("a handler is not given the context", handler=name)
            if relay.error is not error:
                fail("a handler does not see the exception", handler=name)
            if how == "raise":
                raised[name] = rng.choice([Own, OwnKey, OwnAttribute, OwnBare])(name)
                raise raised[name]
            return ANSWER.get(how)

        async def arun(relay):
            if rng.random() < 0.5:
                await asyncio.sleep(0)
            return run(relay)

        f = arun if is_async else run
        return Quiet(f) if rng.random() < 0.3 else f

    given, later = {}, {}
    for argument, attribute, name, how in (
        ("if_except", "except_code", "except", case["exc"]),
        ("if_else", "else_code", "else", case["els"]),
        ("finally_run", "finally_code", "finally", case["fin"]),
    ):
        if how != "none":
            if rng.random() < 0.5:
                given[argument] = handler(name, how)
            else:
                later[attribute] = handler(name, how)
        elif rng.random() < 0.3:
            given[argument] = None
    types = TYPES[case["types"]]
    context = Ignore(*rng.sample(types, len(types)), **given)
    after = "nothing"

    def inside(relay):
        if relay is not context:
            fail("entering does not give the context")
        for attribute, f in later.items():
            setattr(relay, attribute, f)
        if error is not None:
            raise error

    async def run():
        async with context as relay:
            inside(relay)

    try:
        if is_async:
            loop.run_until_complete(run())
        else:
            with context as relay:
                inside(relay)
    except BaseException as seen:
        after = "other"
        if isinstance(seen, core.Violation):
            raise
        # the loop may give a cancellation of its own
        if seen is error or (is_async and case["body"] == "cancel" and type(seen) is asyncio.CancelledError):
            after = "body"
        for name, own in raised.items():
            if seen is own:
                after = name
    if calls != case["calls"]:
        fail("other handlers ran")
    if after != case["seen"]:
        fail("the context ended in another way", after=after)
    if error is not None and context.error is not error:
        fail("the exception cannot be read afterwards")


def check_N07(ctx):
    chunks(ctx, "errors", "ignore_job", cases(ctx, "Ignore") * ctx.pick(4, 40), 500)
    ctx.exhaustive = True
