"""
A controlled scheduler for real threads.

Only one managed thread runs at a time. Control can pass to another thread
at scheduling points: around every call, attribute or item access and
statement of the chosen source files (inserted while they are imported, in
memory only), whenever the code sleeps, and whenever it meets a lock that is
taken. `time.sleep`, `asyncio.sleep` and the lock types are wrapped *before*
the package under test is imported; unmanaged threads see the original
behaviour.

Coroutines can be driven inside a managed thread: each suspension is a
point at which other threads may run, or at which the coroutine may be
cancelled.
"""

import _thread
import ast
import asyncio
import builtins
import importlib.machinery
import sys
import threading
import time
import types

_real_sleep = time.sleep
_real_asleep = asyncio.sleep
_real_lock = threading.Lock
_real_rlock = threading.RLock
_local = threading.local()


class Abort(BaseException):
    """Ends a managed thread whose run is given up."""


def current():
    return getattr(_local, "worker", None)


def _sleep(seconds=0):
    worker = current()
    if worker is None:
        return _real_sleep(seconds)
    worker.sched.slept(worker)


@types.coroutine
def bare_yield():
    yield None


async def _asleep(delay=0, result=None, *a, **kw):
    if current() is None or asyncio._get_running_loop() is not None:
        return await _real_asleep(delay, result, *a, **kw)
    await bare_yield()
    return result


class CoopLock:
    """A lock that lets the scheduler run others while it is taken."""

    _make = staticmethod(_real_lock)

    def __init__(self):
        self._lock = self._make()

    def acquire(self, blocking=True, timeout=-1):
        worker = current()
        if worker is None or not blocking:
            return self._lock.acquire(blocking, timeout)
        while not self._lock.acquire(False):
            if timeout is not None and timeout >= 0:
                return False
            worker.sched.slept(worker, lock=True)
        return True

    def release(self):
        self._lock.release()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *_):
        self.release()

    def locked(self):
        return self._lock.locked()

    def __getattr__(self, name):
        return getattr(self._lock, name)

    def _at_fork_reinit(self):
        self._lock = self._make()


class CoopRLock(CoopLock):
    _make = staticmethod(_real_rlock)

    def _is_owned(self):
        return self._lock._is_owned()

    def _release_save(self):
        return self._lock._release_save()

    def _acquire_restore(self, state):
        return self._lock._acquire_restore(state)


class _Points(ast.NodeTransformer):
    """
    Puts a scheduling point after every call, attribute or item access,
    comparison and await, and before every statement. Values are passed
    through unchanged.
    """

    def point(self, node):
        self.generic_visit(node)
        if isinstance(getattr(node, "ctx", None), (ast.Store, ast.Del)):
            return node
        return ast.copy_location(
            ast.Call(ast.Name("__vf_point__", ast.Load()), [node], []), node
        )

    visit_Call = visit_Subscript = visit_Attribute = point
    visit_Compare = visit_Await = point

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arguments(self, node):
        return node

    def body(self, statements):
        out = []
        for n, st in enumerate(statements):
            if not (
                isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)
            ) and not isinstance(st, (ast.ImportFrom, ast.Global, ast.Nonlocal)):
                out.append(
                    ast.copy_location(
                        ast.Expr(
                            ast.Call(
                                ast.Name("__vf_point__", ast.Load()),
                                [ast.Constant(None)],
                                [],
                            )
                        ),
                        st,
                    )
                )
            out.append(st)
        return out

    def function(self, node):
        node.body = [self.visit(st) for st in node.body]
        return node

    visit_FunctionDef = visit_AsyncFunctionDef = function

    def transform(self, tree):
        tree = self.visit(tree)
        for node in ast.walk(tree):
            for field in ("body", "orelse", "finalbody"):
                value = getattr(node, field, None)
                if (
                    isinstance(value, list)
                    and not isinstance(node, (ast.Module, ast.ClassDef))
                ):
                    setattr(node, field, self.body(value))
        return ast.fix_missing_locations(tree)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        return compile(
            _Points().transform(tree), path, "exec", dont_inherit=True
        )


class _Finder:
    def __init__(self, files):
        self.files = tuple(str(f) for f in files)

    def find_spec(self, name, path=None, target=None):
        if not name.startswith("aiootp"):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec and spec.origin and spec.origin.startswith(self.files):
            spec.loader = _Loader(name, spec.origin)
        return spec


def _point(value):
    worker = current()
    if worker is not None:
        worker.sched.step(worker)
    return value


def install(files=()):
    """Must run before the package under test is imported."""
    assert "aiootp" not in sys.modules
    time.sleep = _sleep
    asyncio.sleep = _asleep
    asyncio.tasks.sleep = _asleep
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
    builtins.__vf_point__ = _point
    sys.meta_path.insert(0, _Finder(files))


class Baton:
    """What a thread waits for; built on raw locks, which nobody wraps."""

    def __init__(self):
        self._lock = _thread.allocate_lock()
        self._lock.acquire()

    def release(self):
        self._lock.release()

    def acquire(self, timeout=-1):
        return self._lock.acquire(True, timeout)


class Worker:
    def __init__(self, sched, number, function):
        self.sched, self.number, self.function = sched, number, function
        self.sem = Baton()
        self.done = self.held = False
        self.sleeps = 0
        self.error = None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        _local.worker = self
        self.sem.acquire()
        try:
            if not self.sched.aborted:
                self.function(self)
        except Abort:
            pass
        except BaseException as error:  # reported by the harness
            self.error = error
        finally:
            self.done = True
            self.sched.leave(self)


class Scheduler:
    """
    At every scheduling point control passes on with probability `switch`,
    or exactly at the step numbers in `plan`. Sleeping threads always pass
    control on.
    """

    def __init__(self, rng, switch=0.1, plan=None, hung=45.0):
        self.rng, self.switch = rng, switch
        self.plan = plan  # {step number: True}: switch exactly there
        self.workers = []
        self.finished = Baton()
        self.idle = 0
        self.steps = 0
        self.beat = 0
        self.aborted = False
        self.deadlocked = self.stuck = False
        self.events = []
        self.hung = hung
        self.limit = 60
        self.by_number = {}
        self.switches = 0

    # ------------------------------------------------------------ events
    def record(self, event, p):
        self.events.append([event, p])
        self.idle = 0

    # ----------------------------------------------------------- workers
    def spawn(self, function):
        w = Worker(self, len(self.workers), function)
        self.workers.append(w)
        return w

    def step(self, w):
        self.steps += 1
        self.beat += 1
        if self.aborted:
            raise Abort
        if self.plan is not None:
            if self.steps in self.plan:
                self.pass_on(w)
        elif self.rng.random() < self.switch:
            self.pass_on(w)

    def candidates(self, w):
        return [
            x for x in self.workers if x is not w and not x.done and not x.held
        ]

    def pass_on(self, w):
        others = self.candidates(w)
        if not others:
            return
        self.switches += 1
        nxt = self.rng.choice(others)
        nxt.sem.release()
        w.sem.acquire()
        if self.aborted:
            raise Abort

    def slept(self, w, lock=False):
        self.beat += 1
        w.sleeps += 1
        self.idle += 1
        if self.aborted:
            raise Abort
        active = [x for x in self.workers if not x.done and not x.held]
        if self.idle > self.limit * max(1, len(active)):
            self.idle = 0
            self.events.append(["stall", 1])
            held = [x for x in self.workers if x.held and not x.done]
            if held:
                self.rng.choice(held).held = False
            else:
                self.deadlocked = True
                self.aborted = True
                raise Abort
        if not lock:
            self.on_sleep(w)
        self.pass_on(w)

    def on_sleep(self, w):
        pass

    def hold(self, w):
        """Keeps this thread out until the others cannot go on."""
        w.held = True
        others = self.candidates(w)
        if others:
            self.rng.choice(others).sem.release()
        else:
            self.events.append(["stall", 1])
            self._release_one(w)
        w.sem.acquire()
        if self.aborted:
            raise Abort

    def _release_one(self, w=None):
        held = [x for x in self.workers if x.held and not x.done]
        if held:
            x = self.rng.choice(held)
            x.held = False
            x.sem.release()

    def leave(self, w):
        self.idle = 0
        rest = [x for x in self.workers if not x.done]
        if not rest:
            self.finished.release()
            return
        ready = [x for x in rest if not x.held] or rest
        nxt = self.rng.choice(ready)
        if nxt.held:
            if not self.aborted:
                self.events.append(["stall", 1])
            nxt.held = False
        nxt.sem.release()

    def run(self, first=None):
        for w in self.workers:
            w.thread.start()
        w = self.rng.choice(self.workers) if first is None else self.workers[first]
        w.sem.release()
        seen, since = -1, time.monotonic()
        while not self.finished.acquire(0.25):
            if self.beat != seen:
                seen, since = self.beat, time.monotonic()
            elif time.monotonic() - since > self.hung:
                self.deadlocked = self.aborted = self.stuck = True
                self.events.append(["stall", 1])
                return False
        for w in self.workers:
            w.thread.join()
        return not self.deadlocked


def drive(w, coro, cancel_at=None, on_cancel=None):
    """
    Runs a coroutine inside a managed thread. Every suspension lets other
    threads run; before the `cancel_at`-th resumption it is cancelled.
    """
    k = 0
    try:
        coro.send(None)
        while True:
            w.sched.slept(w)
            k += 1
            if cancel_at is not None and k == cancel_at:
                on_cancel()
                coro.throw(asyncio.CancelledError())
            else:
                coro.send(None)
    except StopIteration as stop:
        return stop.value
    finally:
        coro.close()
