"""M01: key bundles and authenticators, replayed from Shmac.tla."""

import asyncio
import json
import random

from . import core, parallel
from .ciphers import FORMATS, cases, cls, flip, split


class Text(bytes):
    """A subclass of bytes."""


def shmac_job(name, root, steps, seed):
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    run = loop.run_until_complete
    f = FORMATS[name]
    cipher = cls(name)(rng.randbytes(64))
    aad = rng.randbytes(4)
    plain = rng.randbytes(2 * f["block"] - f["inner"] - 5)
    message = split(name, cipher.bytes_encrypt(plain, aad=aad))
    if root["iv"] == "given":
        bundle = cipher._KeyAADBundle(
            cipher._kdfs, salt=message[1], aad=aad, iv=message[2]
        )
    else:
        bundle = cipher._KeyAADBundle(cipher._kdfs, aad=aad)
    auth = {}
    source = None
    produced, log = [], []
    padded = cipher._padding.pad_plaintext(plain)
    padded = [padded[i : i + f["block"]] for i in (0, f["block"])]
    results = {}

    def stop(what):
        raise core.Violation(f"{what} [{name}]", dict(history=log, iv=root["iv"]))

    def pick(sync, awaited, *a, **kw):
        """Either version of a method; they mean the same."""
        if rng.random() < 0.5:
            return sync(*a, **kw)
        return run(awaited(*a, **kw))

    def start(i, d, k):
        data = padded if d == "enc" else message[3]
        method = "bytes_encipher" if d == "enc" else "bytes_decipher"
        if k == "sync":
            return getattr(cipher._Junction, method)((b for b in data), shmac=auth[i])

        async def feed():
            for block in data:
                yield block

        return getattr(cipher._Junction, "a" + method)(feed(), shmac=auth[i])

    def do(a):
        nonlocal source
        op, i, x = a["op"], a["i"], a["x"]
        s = auth.get(i)
        if op == "kind":
            run(bundle.async_mode()) if asyncio.iscoroutinefunction(
                getattr(bundle, x + "_mode")
            ) else getattr(bundle, x + "_mode")()
        elif op == "make":
            auth[i] = cipher._StreamHMAC(bundle)
        elif op == "direct":
            (s._for_encryption if x == "enc" else s._for_decryption)()
        elif op == "run":
            source = start(i, *x)
        elif op == "step":
            if hasattr(source, "__anext__"):
                produced.append(run(anext(source)))
            else:
                produced.append(next(source))
        elif op == "finalize":
            got = pick(s.finalize, s.afinalize)
            if got != s.result:
                stop("finalizing returned another value than the result")
        elif op == "result":
            got = s.result
            if results.setdefault(i, got) != got:
                stop("the result changed")
            if len(got) != f["tag"]:
                stop("a result of a wrong size")
        elif op == "test":
            try:
                value = s.result
            except Exception:
                value = rng.randbytes(f["tag"])
            value = {
                "right": lambda: value, "wrong": lambda: flip(rng, value),
                "short": lambda: value[:-1] if rng.random() < 0.7 else value + b"\0",
                "text": lambda: rng.choice([value.hex(), bytearray(value), None]),
            }[x]()
            pick(s.test_shmac, s.atest_shmac, value)
        elif op == "id":
            got = pick(s.next_block_id, s.anext_block_id, b"block", size=x)
            if len(got) != x:
                stop(f"asked for an id of {x} bytes, got {len(got)}")
        elif op == "testid":
            block = rng.randbytes(f["block"])
            kw = dict(aad=rng.randbytes(3)) if rng.random() < 0.5 else {}
            value = s.next_block_id(block, size=rng.randrange(17, 33), **kw)
            if x == "wrong":
                value = flip(rng, value)
            elif x == "cut":
                value = value[:-1]
            elif x == "short":
                value = value[: rng.choice([0, 1, 15])]
            elif x == "long":
                value = value + bytes(33 - len(value))
            elif x == "text":
                value = rng.choice([value.hex(), bytearray(value), None])
            elif x == "block":
                block = rng.choice([flip(rng, block), block[:-1], block + b"\0"])
            elif x == "aad":
                kw = dict(aad=kw.get("aad", b"") + b"x")
            pick(s.test_next_block_id, s.atest_next_block_id, value, block, **kw)

    def step(a):
        log.append([a["op"], a["i"], a["x"], a["res"]])
        invalid = (cls(name).InvalidSHMAC, cls(name).InvalidBlockID)
        try:
            do(a)
            got = "ok"
        except core.Violation:
            raise
        except invalid as e:
            got = "invalid"
        except Exception as e:
            got = "refused"
            log[-1].append(repr(e)[:100])
        if got != a["res"]:
            stop(f"{a['op']} was {got} instead of {a['res']}")

    for a in steps:
        step(a)
    # the refused calls left no mark: complete what was begun
    runs = [a for a in steps if a["op"] == "run" and a["res"] == "ok"]
    if runs:
        i, d = runs[0]["i"], runs[0]["x"][0]
        finals = [a["i"] for a in steps if a["op"] == "finalize" and a["res"] == "ok"]
        if i not in finals:
            act = lambda op: dict(op=op, i=i, x="", res="ok")
            while len(produced) < 2:
                step(act("step"))
            step(act("finalize"))
        if len(produced) == 2:
            if d == "dec":
                if produced != padded_of(cipher, produced, plain):
                    stop("deciphering gave other data")
                if auth[i].result != message[0]:
                    stop("the result is not the message's tag")
            else:
                whole = auth[i].result + bundle.salt + bundle.iv + b"".join(produced)
                if cipher.bytes_decrypt(whole, aad=aad) != plain:
                    stop("the message does not decrypt to its plaintext")
    loop.close()
    return len(steps)


def padded_of(cipher, produced, plain):
    """The two blocks whose inner header may be any but whose text is plain."""
    f = FORMATS[type(cipher).__name__]
    data = b"".join(produced)
    want = data[: f["inner"]] + plain + data[f["inner"] + len(plain) :]
    return [want[: f["block"]], want[f["block"] :]]


def args_job(name, batch, seed):
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    run = loop.run_until_complete
    C = cls(name)
    good = C(rng.randbytes(64))

    def value(kind, size):
        return {
            "right": lambda: rng.randbytes(size),
            "longer": lambda: rng.randbytes(rng.choice([size + 1, 300])),
            "empty": lambda: b"",
            "short": lambda: rng.randbytes(rng.choice([1, size - 1])),
            "long": lambda: rng.randbytes(rng.choice([size + 1, 2 * size])),
            "text": lambda: "x" * size,
            "array": lambda: rng.choice([bytearray(size), memoryview(bytes(size))]),
            "number": lambda: rng.choice([size, 0, 1.5, False]),
            "bytesclass": lambda: Text(rng.randbytes(size)),
        }[kind]()

    for case in batch:
        kw = {}
        for part, size in (("salt", 8), ("aad", 8), ("iv", 8)):
            if case[part] != "none":
                kw[part] = value(case[part], size)
        mode = rng.choice(["sync", "async"])
        key = value(case["key"], 64)
        try:
            cipher = C(key)
            if case["call"] == "bytes":
                out = cipher.bytes_encrypt(b"x", **kw) if mode == "sync" else run(
                    cipher.abytes_encrypt(b"x", **kw))
            elif case["call"] == "json":
                out = cipher.json_encrypt(1, **kw) if mode == "sync" else run(
                    cipher.ajson_encrypt(1, **kw))
            elif case["call"] == "stream":
                out = cipher.stream_encrypt(**kw) if mode == "sync" else run(
                    cipher.astream_encrypt(**kw))
            elif case["call"] == "destream":
                out = cipher.stream_decrypt(**kw) if mode == "sync" else run(
                    cipher.astream_decrypt(**kw))
            else:
                out = cipher._KeyAADBundle(cipher._kdfs, **kw)
            got = 1
        except Exception as e:
            got = 0
        # subclasses of bytes are not documented either way
        if "bytesclass" in case.values():
            continue
        if got != case["ok"]:
            raise core.Violation(
                f"arguments were {'accepted' if got else 'refused'} [{name} {mode}]",
                dict(case=case, arguments=repr(kw)),
            )
        if got and case["call"] == "bytes" and case["salt"] == "right":
            if split(name, out)[1] != kw["salt"]:
                raise core.Violation(f"a given salt was not used [{name}]", dict(case=case))
    loop.close()
    return len(batch)


def check_M01(ctx):
    jobs = []
    for name, f in FORMATS.items():
        for iv in ("drawn", "given"):
            g = core.explore(
                ctx, "Shmac",
                constants=dict(
                    Steps=2, Sizes="{0, 1, 15, 16, 17, 24, 31, 32, 33, 64}", MinId=16, MaxId=32,
                    Ivs='{"%s"}' % iv,
                ),
            )
            views = [json.loads(v) for v in g.views]
            for root, steps in g.paths(ctx.rng, max_len=ctx.pick(40, 25)):
                jobs.append((name, views[root], [a for a, *_ in steps], ctx.rng.random()))
    ctx.rng.shuffle(jobs)
    ctx.sample(jobs[0][1:3])
    for j, n in zip(jobs, parallel.run("shmac", "shmac_job", jobs, limit=100)):
        ctx.count(json.dumps(j[:3]), n)
        ctx.traces += 1
    found = cases(ctx, "BundleArgs")
    ctx.rng.shuffle(found)
    ctx.sample(found[0])
    jobs = [
        (name, found[i : i + 200], ctx.rng.random())
        for name in FORMATS for i in range(0, len(found), 200)
    ]
    for j, n in zip(jobs, parallel.run("shmac", "args_job", jobs)):
        ctx.count(json.dumps(j[:2]), n)
        ctx.traces += n
    ctx.exhaustive = True
