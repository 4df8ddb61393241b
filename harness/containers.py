"""N04: frozen and typed containers."""

import asyncio
import json
import random
import sys

from . import core, parallel

OTHER = [5, None, (1, 2), b"name", 2.5, frozenset({1})]
METHODS = ["keys", "values", "items", "update", "clear"]


class Hidden:
    """A value that shows when it is displayed."""

    def __init__(self, text, true=True):
        self.text, self.true = text, true

    def __repr__(self):
        return self.text

    def __bool__(self):
        return self.true


def shown(x):
    """What shows that a display reveals a value, if anything does."""
    return x.text if isinstance(x, Hidden) else repr(x) if isinstance(x, (str, bytes, list)) else None


class Sample:
    """A container of a kind, with the names and values the model speaks of."""

    def __init__(self, rng, kind):
        import aiootp.commons.instances
        import aiootp.commons.namespaces
        import aiootp.commons.slots
        import aiootp.commons.typed_slots

        part = lambda n: sys.modules["aiootp.commons." + n]
        self.rng, self.kind = rng, kind
        self.style = kind["style"]
        self.open = rng.random() < 0.5
        self.secret = "secret%d" % rng.getrandbits(40)
        word = rng.choice(["alpha", "x", "", "Ωmega", "_private", "long_name"])
        names = dict(s=rng.choice(["s", "key", "_s"]), t="t", h=rng.choice(["hidden", "_hidden"]), d=word, o=rng.choice(OTHER), r=rng.choice(METHODS))

        def value(n, v):
            text = f"{self.secret}-{n}{v}"
            if n in "do" and rng.random() < 0.6:
                return rng.choice([text, text.encode(), [text]])
            return Hidden(text, rng.random() < 0.6)

        self.values = {(n, v): value(n, v) for n in names for v in (1, 2, 3)}
        self.values["t", 1] = rng.choice([0, 1, True])
        extra = ("__dict__",) if kind["dict"] else ()
        slots = (names["s"], "t", names["h"], *extra)
        body = dict(__slots__=slots, _UNMAPPED_ATTRIBUTES=frozenset({names["h"]}))
        types = {names["s"]: Hidden, "t": int, names["h"]: object}
        self.unmapped = {"h"}
        if self.style == "map":
            name = ("Open" if self.open else "") + ("Frozen" if kind["frozen"] else "")
            if kind["typed"]:
                base = getattr(part("typed_slots"), name + "TypedSlots")
                body["slots_types"] = types
            elif kind["dict"] and rng.random() < 0.6:
                base = getattr(part("namespaces"), name + "Namespace")
                body["__slots__"] = slots[:3]
            else:
                base = getattr(part("slots"), name + "Slots")
            self.cls = type("Made", (base,), body)
            if rng.random() < 0.4:  # what a class declares holds for its heirs
                more = dict(__slots__=("further",))
                if kind["typed"]:
                    more["slots_types"] = dict(further=str)
                self.cls = type("Heir", (self.cls,), more)
        elif self.style == "instance":
            self.unmapped = set()
            self.open = False
            self.cls = type("Made", (part("instances").FrozenInstance,), dict(__slots__=slots))
        elif self.style == "config":
            from aiootp.commons.configs import Config

            self.open = True
            names["h"] = "CONFIG_ID"
            self.unmapped = set()
            self.cls = type("Made", (Config,), dict(__slots__=slots[:2], slots_types={names["s"]: Hidden, "t": int}))
        else:
            from aiootp.commons.configs import Config, ConfigMap

            self.open = True
            kinds = [type(n, (Config,), dict(__slots__=("x",), slots_types=dict(x=Hidden))) for n in ("Right", "Wrong")]
            for n in "dor":
                for v in (1, 2):
                    self.values[n, v] = kinds[0](x=Hidden(f"{self.secret}-{n}{v}"))
                self.values[n, 3] = rng.choice([kinds[1](x=Hidden("")), 7, None, dict(x=1)])
            self.cls = lambda *a, **kw: ConfigMap(*a, config_type=kinds[0], **kw)
        self.names = names
        self.of = {k: n for n, k in names.items()}
        self.obj = None

    def begin(self, items):
        """Made empty, or with its first items."""
        given = {self.names[n]: self.values[n, v] for n, v in items}
        if all(type(k) is str for k in given) and self.rng.random() < 0.5:
            return self.cls(**given)
        return self.cls(given) if given or self.rng.random() < 0.5 else self.cls()

    def do(self, a):
        op = a["op"]
        items = [(self.names[n], self.values.get((n, v)), n) for n, v in a["items"]]
        if self.obj is None:
            if op in ("set", "update") and a["res"] == "ok" and self.rng.random() < 0.5:
                self.obj = self.begin(a["items"])
                return
            self.obj = self.begin([])
        o = self.obj
        mapping = self.style != "instance"
        if op == "set":
            k, v, _ = items[0]
            ways = ["attr"] if type(k) is str else []
            if mapping:
                ways += ["item", "update", "init"] + (["kw"] if type(k) is str else [])
                if self.style == "configs":
                    ways.remove("init")
                if self.style == "config" and k == "CONFIG_ID":
                    ways += ["id"] * 3
            way = self.rng.choice(ways)
            if way == "attr":
                setattr(o, k, v)
            elif way == "item":
                o[k] = v
            elif way == "id":
                o.set_config_id(v)
            elif way == "update":
                o.update({k: v})
            elif way == "kw":
                o.update(**{k: v})
            else:
                o.__init__({k: v})
        elif op == "update":
            pairs = {k: v for k, v, _ in items}
            last = items[-1][0]
            if type(last) is str and self.rng.random() < 0.3:
                v = pairs.pop(last)
                o.update(pairs, **{last: v})
            else:
                o.update(pairs)
        elif op == "del":
            k = items[0][0]
            if type(k) is str and (not mapping or self.rng.random() < 0.5):
                delattr(o, k)
            else:
                del o[k]
        else:
            o.clear()

    def look(self, has, stop):
        """Compares everything the container shows with what it should hold."""
        o = self.obj
        want = {n: self.values[n, v] for n, v in has.items() if v}
        for n, k in self.names.items():
            if n == "r" or n not in has:
                continue
            absent = object()
            if type(k) is str:
                got = getattr(o, k, absent)
                if got is not want.get(n, absent):
                    stop(f"attribute {n} is {'gone' if got is absent else 'another'}")
            if self.style == "instance":
                continue
            try:
                got = o[k]
            except (AttributeError, KeyError):
                got = absent
            if got is not want.get(n, absent):
                stop(f"item {n} is {'gone' if got is absent else 'another'}")
            if (k in o) != (n in want):
                stop(f"membership of {n} is wrong")
        text = repr(o)
        if self.style != "instance":
            mapped = {self.names[n]: x for n, x in want.items() if n not in self.unmapped}
            keys = list(o)
            if len(keys) != len(set(keys)) or set(keys) != set(mapped):
                stop("iteration gives other names", keys)
            if list(o.keys()) != keys or [x for x in o.values()] != [o[k] for k in keys] or list(o.items()) != [(k, o[k]) for k in keys]:
                stop("names, values and items disagree")
            if len(o) != len(keys) or bool(o) != bool(keys) or {**o} != mapped:
                stop("length, truth or unpacking disagree with the names")
            for k in METHODS:
                if k in o:
                    stop("a method counts as an item")
            if self.rng.random() < 0.1:
                async def names():
                    return [k async for k in o]

                if asyncio.get_event_loop().run_until_complete(names()) != keys:
                    stop("asynchronous iteration gives other names")
            for mask, text in ((None, repr(o)), (True, o.__repr__(mask=True)), (False, o.__repr__(mask=False)), (None, f"{o}")):
                masked = not self.open if mask is None else mask
                for k, x in mapped.items():
                    public = str(k)[:1] != "_"
                    if public != (f"{k}=" in text):
                        stop("a display shows other names", text)
                    if (mark := shown(x)) is None:
                        continue
                    if (mark in text) != (public and not masked):
                        stop("a display is not masked as it should be", text)
                if masked and self.secret in text:
                    stop("a masked display shows a value", text)
        elif self.secret in text:
            stop("a display shows a value", text)


def container_job(batch, seed):
    from aiootp._debug_control import DebugControl

    rng = random.Random(seed)
    asyncio.set_event_loop(asyncio.new_event_loop())
    done = 0
    for kind, steps in batch:
        box = Sample(rng, kind)
        log = []

        def stop(what, *more):
            raise core.Violation(f"{what} ({box.style})", dict(kind=kind, names={k: repr(v) for k, v in box.names.items()}, log=log, more=repr(more), shown=repr(box.obj)))

        for a in steps:
            log.append([a["op"], a["items"], a["res"]])
            try:
                box.do(a)
                res = "ok"
            except Exception as e:
                res = "refused"
                log[-1].append(repr(e)[:200])
            if a["res"] not in (res, "any"):
                stop(f"{a['op']} was {res}")
            if box.obj is None:
                stop("a container could not be made")
            box.look({k: v for k, v in a["has"].items() if k in box.names}, stop)
            done += 1
        if rng.random() < 0.1 and box.obj is not None and box.style == "map":
            try:
                DebugControl.enable_debugging(silence_warnings=True)
                text = repr(box.obj)
            finally:
                DebugControl.disable_debugging()
            for k, x in box.obj.items():
                if str(k)[:1] != "_" and shown(x) is not None and shown(x) not in text:
                    stop("debugging does not show a value", text)
            box.look({k: v for k, v in steps[-1]["has"].items() if k in box.names}, stop)
    return done


def check_N04(ctx):
    g = core.explore(ctx, "Container", constants=dict(Styles='{"map", "instance", "config", "configs"}'))
    jobs = []
    for root, steps in g.paths(ctx.rng, max_len=ctx.pick(12, 12)):
        jobs.append((json.loads(g.views[root])["kind"], [dict(a, has=json.loads(g.views[t])["has"]) for a, t, _ in steps]))
    for kind, steps in jobs:
        for a in steps:
            ctx.count(json.dumps([kind, a["op"], a["items"], a["has"]]), 1)
    ctx.sample(jobs[0])
    jobs *= ctx.pick(1, 6)
    ctx.rng.shuffle(jobs)
    jobs = [(jobs[i : i + 1000], ctx.rng.random()) for i in range(0, len(jobs), 1000)]
    ctx.traces += sum(parallel.run("containers", "container_job", jobs))
    ctx.exhaustive = True
