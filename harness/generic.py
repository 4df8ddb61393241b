"""N01, N02, N03, N06: encodings, clocks and generator tools."""

import asyncio
import json
import random

from . import core, parallel
from .ciphers import cases
from .keys import Sides

# ---------------------------------------------------------------------- N01


def canon_job(batch, seed):
    from aiootp._exceptions import CanonicalEncodingError
    from aiootp.generics import canon

    rng = random.Random(seed)
    side = Sides(rng)
    for c in batch:
        data = bytes(c["data"])
        if c.get("how") == "packed":
            a = c["args"]
            items = [bytes(i) for i in a["items"]]
            kw = dict(blocksize=a["b"], pad=bytes([a["p"]]), int_bytes=a["s"])
            got = side(canon, "canonical_pack", *items, **kw)
            if got != data or type(got) is not bytes:
                raise core.Violation("a packing is not the documented one", dict(case=c, got=repr(got)))
        try:
            got, why = side(canon, "canonical_unpack", data), None
            got = [list(i) for i in got]
        except CanonicalEncodingError as e:
            got, why = None, e
        except Exception as e:
            raise core.Violation(f"unpacking ended in {type(e).__name__}", dict(case=c, why=repr(e)))
        want = c["items"] if c["ok"] else None
        if got != want:
            what = "refused" if got is None else "accepted" if want is None else "unpacked to other items"
            raise core.Violation(f"an encoding was {what}", dict(case=c, got=got, why=repr(why)))
    return len(batch)


def pack_job(n, seed):
    from aiootp._exceptions import CanonicalEncodingError
    from aiootp.generics import canon

    rng = random.Random(seed)
    side = Sides(rng)
    out, book = [], {}
    for _ in range(n):
        s = rng.choice([1, 1, 2, 3, 4, 8, 8, 16, 255])
        top = 256 if s == 1 else 300
        sizes = [rng.choice([0, 1, 2, 7, 8, 9, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257]) for _ in range(rng.choice([0, 1, 2, 3, 9]))]
        sizes = [k for k in sizes if k < top][: 3 if s == 255 else 9]
        fill = rng.choice([lambda k: rng.randbytes(k), lambda k: bytes(k), lambda k: b"\xff" * k, lambda k: bytes([s]) * k])
        items = [fill(k) for k in sizes]
        if rng.random() < 0.1:
            items = [b""] * rng.choice([250, 253])
        b = rng.choice([1, 2, 3, 16, 64, 104, 136, 168, 255, 256 if s > 1 else 200])
        pad = bytes([rng.choice([0, 255, s, rng.randrange(256)])])
        kw = dict(blocksize=b, pad=pad, int_bytes=s)
        if s == 8 and rng.random() < 0.5:
            del kw["int_bytes"]
        if pad == b"\0" and rng.random() < 0.5:
            del kw["pad"]
        if b == 1 and rng.random() < 0.5:
            del kw["blocksize"]
        got = side(canon, "canonical_pack", *items, **kw)
        args = (tuple(items), b, pad, s)
        if book.setdefault(got, args) != args:
            raise core.Violation("two sequences have one encoding", dict(args=repr(args), other=repr(book[got])))
        out.append(dict(items=[list(i) for i in items], b=b, p=pad[0], s=s, out=list(got)))
        if list(side(canon, "canonical_unpack", got)) != items:
            raise core.Violation("an encoding does not read back", dict(args=repr(args)))
        # whatever is read from a changed encoding, only its own error comes out
        for _ in range(5):
            bad = bytearray(got)
            for _ in range(rng.choice([1, 1, 2])):
                bad[rng.randrange(min(len(bad), rng.choice([1, 2, 30, 1000])))] = rng.choice([0, 1, 254, 255, rng.randrange(256)])
            try:
                side(canon, "canonical_unpack", bytes(bad[: rng.choice([len(bad), rng.randrange(len(bad))])]))
            except CanonicalEncodingError:
                pass
    # what does not fit the width is refused
    for bad in (
        lambda: side(canon, "canonical_pack", bytes(256), int_bytes=1),
        lambda: side(canon, "canonical_pack", *([b""] * 254), int_bytes=1),
        lambda: side(canon, "canonical_pack", b"", blocksize=256, int_bytes=1),
        lambda: side(canon, "canonical_pack", bytes(65536), int_bytes=2),
        lambda: side(canon, "canonical_pack", b"", int_bytes=256),
    ):
        try:
            bad()
        except Exception:
            continue
        raise core.Violation("a sequence that does not fit its width was packed")
    return out


def chunks(ctx, module, function, items, size, **kw):
    """Deals items out to jobs; counts them."""
    ctx.rng.shuffle(items)
    ctx.sample(items[0])
    jobs = [(items[i : i + size], ctx.rng.random()) for i in range(0, len(items), size)]
    for j, k in zip(jobs, parallel.run(module, function, jobs, **kw)):
        ctx.traces += k
    for c in items:
        ctx.count(json.dumps(c), 1)


def check_N01(ctx):
    found = cases(ctx, "CanonPack", constants=dict(
        MaxItems=2, MaxLen=1, Bytes="{0, 1}", Blocks="{1, 2, 3, 8}", Pads="{0, 1}", Widths="{1, 2}", Others="{0, 1, 2, 3, 255}",
    ))
    if not ctx.quick:
        found += cases(ctx, "CanonPack", constants=dict(
            MaxItems=1, MaxLen=3, Bytes="{0, 1, 255}", Blocks="{1, 4, 5, 255}", Pads="{0, 255}", Widths="{1, 3, 4}", Others="{0, 1, 4, 254}",
        ))
    found += cases(ctx, "CanonBytes", constants=dict(
        Bytes=ctx.pick("{0, 1, 2}", "{0, 1, 2, 3}"), MaxLen=ctx.pick(9, 9),
    ))
    packed = {json.dumps(c["data"]): c for c in sorted(found, key=lambda c: c.get("how") == "packed")}
    same = [c for c in found if c.get("how") == "packed"]
    chunks(ctx, "generic", "canon_job", [*packed.values(), *same], 4000)
    jobs = [(ctx.pick(25, 100), ctx.rng.random()) for _ in range(ctx.pick(16, 64))]
    traces = [t for ts in parallel.run("generic", "pack_job", jobs) for t in ts]
    core.validate(ctx, "CanonTrace", "CanonTrace", traces, what="packing", batch=400)
    ctx.exhaustive = True


# ---------------------------------------------------------------------- N02

URLSAFE = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
BASE_38 = "-0123456789_abcdefghijklmnopqrstuvwxyz"


def tables(rng, base):
    """A table with at least that many symbols, and whether to name the base."""
    from aiootp._constants.datasets import Tables

    named = [Tables.ASCII_95, Tables.ASCII_128, Tables.BASE_36, Tables.BASE_38, Tables.BASE_64, Tables.BYTES, Tables.HEX, Tables.URL_SAFE]
    fits = [t for t in named if len(t) >= base]
    mixed = rng.sample("abcxyz0189é漢-_ \n" + Tables.ASCII_128[33:126], 100) if base <= 100 else None
    if mixed and len(set(mixed)) == 100:
        fits.append("".join(mixed))
    table = rng.choice(fits)
    cut = rng.random() < 0.3
    if cut:
        table = table[:base]
    return table, len(table) != base or rng.random() < 0.5


def encode_job(batch, seed):
    from aiootp.generics import ByteIO, transform

    rng = random.Random(seed)
    side = Sides(rng)

    def stop(what, c, got):
        raise core.Violation(what, dict(case=c, got=repr(got)))

    for c in batch:
        if c["op"] == "number":
            table, name = tables(rng, c["b"])
            args = ([c["b"]] if name else [])
            got = side(transform, "int_as_base", c["n"], *args, table=table)
            want = [table[d] for d in c["digits"]]
            want = bytes(want) if type(table) is bytes else "".join(want)
            if got != want or type(got) is not type(table):
                stop("a number's digits are not as documented", c, (got, want))
            zeros = table[:1] * rng.choice([0, 0, 1, 3])
            back = side(transform, "base_as_int", zeros + got, *args, table=table)
            if back != c["n"]:
                stop("digits do not read back to the number", c, back)
            foreign = [x for x in (table[c["b"] :] if name else "漢é\x7f") if type(x) is int or type(table) is str and x not in table[: c["b"]]]
            if foreign:
                x = rng.choice(foreign)
                bad = got + (bytes([x]) if type(x) is int else x) + got
                try:
                    out = side(transform, "base_as_int", bad, *args, table=table)
                except ValueError:
                    pass
                else:
                    stop("a symbol outside the table was read", c, (bad, out))
            continue
        data = bytes(c["data"])
        got = side(ByteIO, "bytes_to_urlsafe", data)
        if got != "".join(URLSAFE[g] for g in c["groups"]).encode():
            stop("the url-safe form is not as documented", c, got)
        form = rng.choice([got, got.decode()])
        if (back := side(ByteIO, "urlsafe_to_bytes", form)) != data or type(back) is not bytes:
            stop("the url-safe form does not read back", c, back)
        for a in ("", "a") if hasattr(ByteIO, "_bytes_to_phrase") else ():
            f, g = (getattr(ByteIO, k) for k in (f"_{a}bytes_to_phrase", f"_{a}phrase_to_bytes"))
            run = side.loop.run_until_complete if a else (lambda x: x)
            phrase = run(f(data))
            if phrase.count(b" ") != max(0, len(data) - 1) or run(g(phrase)) != data:
                stop("the phrase form does not read back", c, phrase)
        name = side(ByteIO, "bytes_to_filename", data)
        if c["small"] and name != "".join(BASE_38[d] for d in c["name"]):
            stop("the filename is not as documented", c, name)
        if not name or set(name) - set(BASE_38):
            stop("the filename has symbols outside its alphabet", c, name)
        if (back := side(ByteIO, "filename_to_bytes", name)) != data.lstrip(b"\0"):
            stop("the filename does not read back", c, back)
    return len(batch)


def long_job(n, seed):
    from aiootp.generics import ByteIO, transform

    rng = random.Random(seed)
    side = Sides(rng)
    out, names = [], {}
    for _ in range(n):
        size = rng.choice([4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 200])
        data = rng.choice([rng.randbytes(size), b"\xff" * size, b"\x01" + bytes(size - 1), bytes(size - 1) + b"\x01"])
        name = side(ByteIO, "bytes_to_filename", data)
        if names.setdefault((size, name), data) != data:
            raise core.Violation("two values have one filename", dict(name=name))
        out.append({"from": list(data), "b1": 256, "to": [BASE_38.find(x) for x in name], "b2": 38})
        if side(ByteIO, "filename_to_bytes", name) != data.lstrip(b"\0"):
            raise core.Violation("a filename does not read back", dict(name=name, data=data.hex()))
        safe = side(ByteIO, "bytes_to_urlsafe", data)
        if b"=" in safe or side(ByteIO, "urlsafe_to_bytes", safe) != data:
            raise core.Violation("a url-safe form does not read back", dict(form=safe.decode(), data=data.hex()))
        k = 6 * len(safe) - 8 * size
        value = int.from_bytes(data, "big") << k
        shown = [URLSAFE.find(chr(x)) for x in safe]
        if sum(d * 64**i for i, d in enumerate(reversed(shown))) != value:
            raise core.Violation("a url-safe form is not as documented", dict(form=safe.decode(), data=data.hex()))
        base = rng.choice([2, 3, 7, 10, 16, 36, 64, 95, 128, 255, 256])
        table, named = tables(rng, base)
        number = int.from_bytes(data, "big")
        args = [base] if named else []
        got = side(transform, "int_as_base", number, *args, table=table)
        index = {x: i for i, x in enumerate(table[:base])}
        out.append({"from": list(data), "b1": 256, "to": [index.get(x, -1) for x in got], "b2": base})
        if side(transform, "base_as_int", got, *args, table=table) != number:
            raise core.Violation("digits do not read back to the number", dict(got=repr(got), base=base))
    return out


def refuse_job(seed):
    """What cannot be written to a base is refused."""
    from aiootp.generics import transform

    side = Sides(random.Random(seed))
    for number, base in ((-1, 16), (-255, 16), (-(2**64), 10), (5, 1), (1, 1), (5, 0), (5, -2)):
        try:
            got = side(transform, "int_as_base", number, base, table="0123456789abcdef")
        except (ValueError, ArithmeticError):
            continue
        raise core.Violation(f"{number} to base {base} gave {got!r}")
    return 1


def file_job(steps, seed):
    from aiootp.generics import ByteIO

    rng = random.Random(seed)
    side = Sides(rng)
    where = core.scratch() / f"io-{rng.getrandbits(60)}"
    piece = {x: rng.choice([b"", b"\n", b"\r\n\0", rng.randbytes(rng.choice([1, 500, 9000]))]) for x in range(1, 9)}
    content = None
    log = []
    for a in steps:
        op, x = a["op"], a["x"]
        log.append([op, x])
        path = rng.choice([where, str(where)])
        res = "ok"
        try:
            if op == "read":
                size = [None, -1, 0, rng.randrange(1, max(2, len(content or b""))), len(content or b"") + 5][x]
                got = side(ByteIO, "read", path, *([] if size is None else [size]))
                want = content if size in (None, -1) else (content or b"")[:size]
                if got != want or type(got) is not bytes:
                    raise core.Violation("reading a file does not give what was written", dict(log=log, size=size))
            elif op == "write":
                side(ByteIO, "write", path, piece[x])
                content = piece[x]
            else:
                side(ByteIO, "append", path, piece[x])
                content = (content or b"") + piece[x]
        except FileNotFoundError:
            res = "missing"
        if res != a["res"]:
            raise core.Violation(f"{op} came to {res!r} instead of {a['res']!r}", dict(log=log))
        if content is not None and where.read_bytes() != content:
            raise core.Violation("the file does not hold what was written", dict(log=log))
    if where.exists():
        where.unlink()
    return len(steps)


def check_N02(ctx):
    none = dict(Max=0, Bases="{2}", Bytes="{0}", MaxLen=0)
    found = cases(ctx, "Encode", constants={
        **none, "Mode": '"numbers"', "Max": ctx.pick(300, 3000), "Bases": "{2, 3, 4, 10, 16, 36, 38, 64, 95, 128, 255, 256}",
    })
    found += cases(ctx, "Encode", constants={
        **none, "Mode": '"bytes"', "Bytes": "{0, 1, 62, 127, 251, 255}", "MaxLen": ctx.pick(5, 6),
    })
    pairs = "{" + ", ".join(map(str, range(256))) + "}"
    found += cases(ctx, "Encode", constants={**none, "Mode": '"bytes"', "Bytes": pairs, "MaxLen": ctx.pick(1, 2)})
    chunks(ctx, "generic", "encode_job", found, 2000)
    parallel.run("generic", "refuse_job", [(ctx.rng.random(),) for _ in range(4)], limit=20, prefix=("prlimit", f"--as={3 << 30}"))
    jobs = [(ctx.pick(50, 200), ctx.rng.random()) for _ in range(ctx.pick(16, 64))]
    traces = [t for ts in parallel.run("generic", "long_job", jobs) for t in ts]
    core.validate(ctx, "EncodeTrace", "EncodeTrace", traces, what="encoding", batch=1000)
    g = core.explore(ctx, "FileIO", constants=dict(Pieces=3, Depth=ctx.pick(3, 4)))
    jobs = [([a for a, *_ in steps], ctx.rng.random()) for root, steps in g.paths(ctx.rng, max_len=40)] * 2
    for j, k in zip(jobs, parallel.run("generic", "file_job", jobs)):
        ctx.count(json.dumps(j[0]), k)
        ctx.traces += 1
    ctx.exhaustive = True


# ---------------------------------------------------------------------- N03

SECOND = 10**9
YEAR = 31556930400 * 10**6  # 365.24225 days
UNITS = dict(
    nanoseconds=1, microseconds=10**3, milliseconds=10**6, centiseconds=10**7, deciseconds=10**8, seconds=SECOND,
    minutes=60 * SECOND, hours=3600 * SECOND, days=86400 * SECOND, months=YEAR // 12, years=YEAR,
)
EPOCH = 1672531200 * SECOND  # as documented, the first second of 2023


def clock_job(batch, seed, steps=4):
    from aiootp.asynchs import Clock

    from . import faketime

    rng = random.Random(seed)
    side = Sides(rng)
    clocks = {}
    for c in batch:
        units = rng.choice(list(UNITS))
        unit = UNITS[units]
        epoch = rng.choice([0, EPOCH, 9000, -123456789, 10**18 + 1, YEAR * 30 + 7])
        if (units, epoch) not in clocks:
            named = [units] if units != "seconds" or rng.random() < 0.5 else []
            shown = {} if epoch == EPOCH and rng.random() < 0.5 else dict(epoch=epoch)
            clocks[units, epoch] = Clock(*named, **shown)
        clock = clocks[units, epoch]
        base = rng.choice([0, 0, 1, 86400 * SECOND, 3 * YEAR, 56 * YEAR, 150 * YEAR, rng.randrange(200 * YEAR), unit << 8, unit << 32]) // unit
        base = min(base, 250 * YEAR // unit)
        if c["t2"] < 0:
            base = 0

        def at(t):
            q, r = divmod(t, steps)
            inside = 0 if unit == 1 else [0, rng.choice([1, rng.randrange(1, unit - 1)]), rng.choice([unit - 2, rng.randrange(1, unit - 1)]), unit - 1][r]
            ns = epoch + (base + q) * unit + inside
            faketime.set(ns)
            return ns

        def stop(what, got):
            raise core.Violation(what, dict(units=units, epoch=epoch, base=base, first=first, second=faketime.now, case=c, got=repr(got)))

        first = at(c["t1"])
        if (got := side(clock, "time")) != base + c["read"] or type(got) is not int:
            stop("a clock does not read whole units", got)
        least = max(1, ((base + c["read"]).bit_length() + 7) // 8)
        order = rng.choice([{}, dict(byte_order="big"), dict(byte_order="little")])
        size = rng.choice([None, least, least + 1, 8, 16])
        if size is not None and size < least:
            size = least
        stamp = side(clock, "make_timestamp", **order, **({} if size is None or size == 8 and rng.random() < 0.5 else dict(size=size)))
        want = (base + c["read"]).to_bytes(size or len(stamp), order.get("byte_order", "big"))
        if stamp != want or type(stamp) is not bytes:
            stop("a timestamp is not the time it was made", stamp)
        if least > 1:
            try:
                stop("a timestamp shorter than the time was made", side(clock, "make_timestamp", size=least - 1, **order))
            except OverflowError:
                pass
        at(c["t2"])
        if (got := side(clock, "time")) != base + c["now"]:
            stop("a clock does not read whole units", got)
        if (got := side(clock, "read_timestamp", stamp, **order)) != base + c["read"]:
            stop("a timestamp does not read back", got)
        if (got := side(clock, "delta", stamp, **order)) != c["delta"]:
            stop("the age of a timestamp is wrong", got)
        try:
            got = side(clock, "test_timestamp", stamp, c["ttl"], **order)
            if got is not None:
                stop("a test came to something", got)
            expired, by, named = 0, 0, units
        except Clock.TimestampExpired as e:
            expired, by, named = 1, e.expired_by, e.units
        if expired != c["expired"] or by != c["by"] or named != units:
            stop("a timestamp was judged wrongly", (by, named))
        if rng.random() < 0.2:
            side(clock, "test_timestamp", stamp, None, **order)
        if rng.random() < 0.05:
            try:
                stop("a unit that does not exist was accepted", Clock(rng.choice(["second", "", "weeks", "SECONDS", "time"])))
            except ValueError:
                pass
    return len(batch)


def check_N03(ctx):
    found = cases(ctx, "Clock", constants=dict(U=4, Units=ctx.pick(4, 6), Past=1))
    chunks(ctx, "generic", "clock_job", found * ctx.pick(24, 66), 3000, patch="faketime")
    ctx.exhaustive = True


# ---------------------------------------------------------------------- N06


class SourceFailed(Exception):
    pass


class Source:
    """Gives up named items, counting them, in one of several disguises."""

    def __init__(self, rng, number, length, fail, asynchronous):
        kinds = ["generator", "iterator"] + ["iterable"] * (not fail)
        if not fail:
            kinds += ["list", "tuple", "dict"]
        if asynchronous:
            kinds += ["agenerator", "aiterator", "aiterable"] * 2
        self.kind = rng.choice(kinds)
        pool = [None, 0, b"", "", False, [], StopIteration(), StopAsyncIteration(), IndexError(), (), 7, b"x"]
        self.items = [rng.choice(pool) if self.kind != "dict" else object() for _ in range(length)]
        self.items = [(number, i, x) if rng.random() < 0.5 else x for i, x in enumerate(self.items)]
        if rng.random() < 0.4:
            few = rng.sample(pool, 2)
            self.items = [rng.choice(few) for _ in range(length)]
        if self.kind == "dict":
            self.items = [object() for _ in range(length)]
        self.fail, self.taken = fail, 0

    def one(self, ending):
        if self.taken < len(self.items):
            self.taken += 1
            return self.items[self.taken - 1]
        raise SourceFailed() if self.fail else ending

    def plain(self):
        while self.taken < len(self.items):
            self.taken += 1
            yield self.items[self.taken - 1]
        if self.fail:
            raise SourceFailed()

    async def suspended(self):
        for x in self.plain():
            if len(self.items) % 2:
                await asyncio.sleep(0)
            yield x

    def __call__(self):
        source = self

        class It:
            def __next__(self):
                return source.one(StopIteration())

        class AIt:
            async def __anext__(self):
                return source.one(StopAsyncIteration())

        if self.kind == "generator":
            return self.plain()
        elif self.kind == "agenerator":
            return self.suspended()
        elif self.kind == "iterator":
            It.__iter__ = lambda self: self
            return It()
        elif self.kind == "iterable":
            return type("Iterable", (), dict(__iter__=lambda self: source.plain()))()
        elif self.kind == "aiterator":
            AIt.__aiter__ = lambda self: self
            return AIt()
        elif self.kind == "aiterable":
            return type("AIterable", (), dict(__aiter__=lambda self: source.suspended()))()
        self.taken = None  # not counted
        return dict.fromkeys(self.items) if self.kind == "dict" else self.items[:] if self.kind == "list" else tuple(self.items)


def gen_job(batch, seed):
    import collections
    import io

    from aiootp import _gentools as tools

    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    made = 0

    for root, steps in batch:
        op, par, src = root["op"], root["par"], root["src"]
        asynchronous = op in ("zip", "range") or rng.random() < 0.5
        call = getattr(tools, ("a" if asynchronous else "") + op)
        sources, show, size = [], None, 1
        order = rng.choice([{}, dict(byte_order="big"), dict(byte_order="little")])
        if op in ("collate", "zip", "unpack", "cycle"):
            sources = [Source(rng, i, s["len"], s["fail"], asynchronous) for i, s in enumerate(src)]
            args, kw = [s() for s in sources], {}
            show = lambda x: sources[x[0] - 1].items[x[1] - 1]
        elif op in ("batch", "resize"):
            each = rng.choice([1, 1, 1, 7, 256, 4096])  # the model's unit of length
            length = par["a"] * each
            text = "".join(rng.choices("aé漢\n\0", k=length))
            data = rng.choice([rng.randbytes(length), bytes(length), text])
            if op == "resize":
                data = rng.choice([data, list(range(length)), (None,) * length, bytearray(length)])
                args = [data, par["b"] * each]
                kw = {} if par["c"] == -1 and rng.random() < 0.5 else dict(blocks=None if par["c"] == -1 else par["c"])
            else:
                args, kw = [data], dict(size=par["b"] * each)
                if type(data) is str:
                    kw["buffer_type"] = io.StringIO
            show = lambda x: data[(x[0] - 1) * each : x[1] * each]
        elif op == "popleft":
            queue = collections.deque((rng.choice([None, 0, i]) for i in range(par["a"])))
            pushed = list(queue)
            args, kw = [queue], {}
            show = lambda x: pushed[x[0] - 1]
        else:
            args, kw, shift = [], {}, rng.choice([0, 0, 2**32 - 1, -(2**31), 2**64])
            if op.startswith("bytes"):
                high = par["a"] >= 0 and par["c"] >= 0 and rng.random() < 0.5
                low = not high and any(a["res"] == "refused" for a in steps)
                size = 1 if low else rng.choice([1, 2, 8])
                shift = 256**size - 256 if high else 0
            if op in ("count", "bytes_count"):
                if par["a"] + shift or rng.random() < 0.5:
                    kw = dict(start=par["a"] + shift)
            else:
                args = [par["a"] + shift, par["b"] + shift, par["c"]]
                if par["c"] == 1 and rng.random() < 0.5:
                    args.pop()
                    if not args[0] and rng.random() < 0.5:
                        args.pop(0)
            show = lambda x: x[0] + shift
            if op.startswith("bytes"):
                kw.update(order)
                if size != 8 or rng.random() < 0.5:
                    kw["size"] = size
                show = lambda x: (x[0] + shift).to_bytes(size, order.get("byte_order", "big"))

        log = []

        def stop(what, *more):
            raise core.Violation(what, dict(root=root, asynchronous=asynchronous, kinds=[s.kind for s in sources], log=log, more=repr(more)))

        gen = call(*args, **kw)
        ended = False
        for a in steps:
            log.append(a)
            made += 1
            if a["op"] == "close":
                loop.run_until_complete(gen.aclose()) if asynchronous else gen.close()
            elif a["op"] == "push":
                pushed.append(rng.choice([None, 0, b"", len(pushed)]))
                queue.append(pushed[-1])
                continue
            else:
                try:
                    got = loop.run_until_complete(gen.__anext__()) if asynchronous else next(gen)
                    res = "item"
                except (StopIteration, StopAsyncIteration):
                    res = "end"
                except SourceFailed:
                    res = "error"
                except (ValueError, OverflowError):
                    res = "refused"
                if res != a["res"]:
                    stop(f"{op} came to {res!r} instead of {a['res']!r}")
                if res == "item":
                    if op == "zip":
                        right = len(got) == len(sources) and all(x is show(i) for x, i in zip(got, a["item"]))
                    elif op in ("batch", "resize"):
                        right = got == show(a["item"]) and type(got) is type(data)
                    elif op.startswith("bytes") or op in ("count", "range"):
                        right = got == show(a["item"]) and type(got) in (bytes, int)
                    else:
                        right = got is show(a["item"])
                    if not right:
                        stop(f"{op} yielded another item", got, show(a["item"]) if op != "zip" else None)
                else:
                    ended = True
            for s, n in zip(sources, a["taken"]):
                if s.taken is not None and (s.taken > n or s.taken < n and not ended):
                    stop(f"{op} took {s.taken} items of a source instead of {n}")
        if op == "popleft" and not ended and list(queue) != pushed[len(pushed) - len(queue) :]:
            stop("the queue was disturbed")
    return made


def check_N06(ctx):
    g = core.explore(ctx, "Gen", constants=dict(MaxSrc=ctx.pick(2, 3), MaxLen=ctx.pick(3, 3), MaxSize=ctx.pick(4, 6), Demands=ctx.pick(10, 14)))
    items = []
    for root, steps in g.paths(ctx.rng, max_len=30):
        items.append((json.loads(g.views[root]), [dict(a, taken=json.loads(g.views[t])["taken"]) for a, t, _ in steps]))
    chunks(ctx, "generic", "gen_job", items * 10, 3000)
    ctx.exhaustive = True
