"""
An asyncio event loop with virtual time and a seeded schedule.

Timers fire in virtual time without waiting. Work handed to an executor runs
inline, in the loop's thread, after a random virtual delay, and its result is
delivered after another one; so every order of file operations of concurrent
tasks that real threads could produce can happen, reproducibly.
"""

import asyncio
import heapq


class Deadlock(Exception):
    """Nothing is left to run although the awaited result is missing."""


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        if timeout is None:
            raise Deadlock("no task can go on")
        if timeout > 0:
            self.loop.virtual += timeout
        return []

    def close(self):
        pass

    def get_map(self):
        return {}


class Loop(asyncio.BaseEventLoop):
    def __init__(self, rng, steps=200_000, spread=6, drag=0):
        super().__init__()
        self.rng = rng
        self.virtual = 0.0
        self.left = steps
        self.spread = spread
        self.drag = drag  # the time that a turn of the loop may take
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self.before_io = None  # called with the function about to run
        self.turn = None  # called once per turn of the loop

    def time(self):
        return self.virtual

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass

    def _run_once(self):
        self.left -= 1
        if self.left < 0:
            raise Deadlock("the tasks do not come to an end")
        if self.turn:
            self.turn()
        if self.drag:
            self.virtual += self.rng.random() * self.drag
        super()._run_once()

    def jitter(self):
        # mostly short, sometimes long: other tasks take many steps meanwhile
        return self.rng.choice([0, 1e-6, 1e-5, 1e-4, 1e-3]) * self.rng.random() * self.spread

    def run_in_executor(self, executor, func, *args):
        future = self.create_future()

        def finish(ok, value):
            if future.cancelled():
                return
            if ok:
                future.set_result(value)
            else:
                future.set_exception(value)

        def start():
            if future.cancelled():
                return
            try:
                if self.before_io:
                    self.before_io(func, args)
                outcome = True, func(*args)
            except Exception as error:
                outcome = False, error
            self.call_later(self.jitter(), finish, *outcome)

        self.call_later(self.jitter(), start)
        return future

    async def shutdown_default_executor(self, timeout=None):
        pass


def run(main, rng, turn=None, **kw):
    """Runs a coroutine to its end; Deadlock if it cannot get there."""
    loop = Loop(rng, **kw)
    loop.turn = turn
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(main)
    finally:
        try:
            tasks = asyncio.all_tasks(loop)
            for t in tasks:
                t.cancel()
            loop.left = 10_000
            if tasks:
                try:
                    loop.run_until_complete(
                        asyncio.gather(*tasks, return_exceptions=True)
                    )
                except Deadlock:
                    pass
        finally:
            asyncio.set_event_loop(None)
            loop.close()
