"""
E01-E05: the ciphers, through every public interface, against the symbolic
specifications CipherPairs, CipherParts, Ttl, TtlStream, FreshTrace and the
functional one Padding.
"""

import asyncio
import json
import pathlib
import random
import shutil
import sys
import tempfile
import threading

from . import core, faketime, parallel

# from the format diagrams in the documentation of the classes
FORMATS = {
    "Chunky2048": dict(tag=32, salt=8, iv=8, inner=20, block=256, id=24),
    "Slick256": dict(tag=24, salt=8, iv=8, inner=12, block=32, id=16),
}
JSON = [
    None, True, False, 0, -1, 2**80, 0.5, -1e300, "", "text", "é中\U0001f600",
    "\x00\"\\\n", [], [[], {}], {}, {"": None, "a": [1, 2.5, {"b": "c"}]},
    ["x" * 400], list(range(200)), {"k" * 300: "v" * 300},
]


def cls(name):
    import aiootp

    return getattr(aiootp, name)


def header(name):
    f = FORMATS[name]
    return f["tag"] + f["salt"] + f["iv"]


def split(name, data):
    """(tag, salt, iv, blocks) of a ciphertext."""
    f = FORMATS[name]
    a, b, c = f["tag"], f["tag"] + f["salt"], header(name)
    body = data[c:]
    step = f["block"]
    return data[:a], data[a:b], data[b:c], [
        body[i : i + step] for i in range(0, len(body), step)
    ]


def pieces(rng, data, most=5):
    """Cuts data into some pieces, empty ones included."""
    cuts = sorted(rng.randrange(len(data) + 1) for _ in range(rng.randrange(most)))
    return [data[a:b] for a, b in zip([0, *cuts], [*cuts, len(data)])]


def plaintext(rng, n):
    style = rng.randrange(5)
    if style == 0:
        return bytes(n)
    if style == 1:
        return b"\xff" * n
    if style == 2:
        return bytes([n % 256]) * n
    return rng.randbytes(n)


class Party:
    """Encrypts and decrypts byte strings in any of four ways."""

    def __init__(self, loop):
        self.loop = loop

    def encrypt(self, via, cipher, data, rng, **kw):
        name = type(cipher).__name__
        if via == "sync":
            return cipher.bytes_encrypt(data, **kw)
        if via == "async":
            return self.loop.run_until_complete(cipher.abytes_encrypt(data, **kw))
        if via == "stream":
            s = cipher.stream_encrypt(**kw)
            out = []
            for piece in pieces(rng, data):
                s.buffer(piece)
                if rng.random() < 0.5:
                    out += list(s)
            out += list(s.finalize())
            return s.shmac.result + s.salt + s.iv + b"".join(b for _, b in out)

        async def go():
            s = await cipher.astream_encrypt(**kw)
            out = []
            for piece in pieces(rng, data):
                await s.abuffer(piece)
                if rng.random() < 0.5:
                    out.extend([p async for p in s])
            out.extend([p async for p in s.afinalize()])
            return s.shmac.result + s.salt + s.iv + b"".join(b for _, b in out)

        return self.loop.run_until_complete(go())

    def decrypt(self, via, cipher, data, rng, ttl=None, **kw):
        name = type(cipher).__name__
        if via == "sync":
            return cipher.bytes_decrypt(data, ttl=ttl, **kw)
        if via == "async":
            return self.loop.run_until_complete(
                cipher.abytes_decrypt(data, ttl=ttl, **kw)
            )
        tag, salt, iv, blocks = split(name, data)
        if via == "stream":
            s = cipher.stream_decrypt(salt=salt, iv=iv, ttl=ttl, **kw)
            out = b""
            for block in blocks:
                s.buffer(s.shmac.next_block_id(block) + block)
                if rng.random() < 0.5:
                    out += b"".join(s)
            out += b"".join(s.finalize())
            s.shmac.test_shmac(tag)
            return out

        async def go():
            s = await cipher.astream_decrypt(salt=salt, iv=iv, ttl=ttl, **kw)
            out = b""
            for block in blocks:
                await s.abuffer(await s.shmac.anext_block_id(block) + block)
                if rng.random() < 0.5:
                    out += b"".join([p async for p in s])
            out += b"".join([p async for p in s.afinalize()])
            await s.shmac.atest_shmac(tag)
            return out

        return self.loop.run_until_complete(go())


def cases(ctx, module, cfg=None, **kw):
    found = []

    def on_line(line):
        if line.startswith('"CASE '):
            found.append(json.loads(json.loads(line)[5:]))
            return True

    core.model_check(ctx, module, cfg, workers=1, on_line=on_line, **kw)
    if not found:
        raise core.CheckError(f"{module} emitted no cases")
    return found


# ---------------------------------------------------------------------- E01


def pair_job(name, case, lengths, seed):
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    party = Party(loop)
    run = loop.run_until_complete
    C = cls(name)
    done = 0

    def fail(what, **kw):
        raise core.Violation(
            f"{what} [{name} {case}]", {k: repr(v)[:3000] for k, v in kw.items()}
        )

    for n in lengths:
        key = rng.randbytes(rng.choice([64, 65, 100, 168, 336, 1000]))
        aad = rng.randbytes(rng.choice([0, 1, 7, 64, 500]))
        kw = dict(aad=aad) if rng.random() < 0.9 else {}
        skw = dict(salt=rng.randbytes(8)) if case["given"] else {}
        one, two = C(key), (C(key) if rng.random() < 0.8 else None)
        two = two or one
        if case["kind"] == "bytes":
            data = plaintext(rng, n)
            ct = party.encrypt(case["enc"], one, data, rng, **kw, **skw)
            got = party.decrypt(case["dec"], two, ct, rng, **kw)
        elif case["kind"] == "json":
            data = rng.choice(JSON) if n < 40 else ["y" * n]
            ct = (
                one.json_encrypt(data, **kw, **skw) if case["enc"] == "sync"
                else run(one.ajson_encrypt(data, **kw, **skw))
            )
            got = (
                two.json_decrypt(ct, **kw) if case["dec"] == "sync"
                else run(two.ajson_decrypt(ct, **kw))
            )
        else:
            data = plaintext(rng, n)
            ct = (
                one.make_token(data, **kw) if case["enc"] == "sync"
                else run(one.amake_token(data, **kw))
            )
            if set(ct) - set(
                b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_=%"
            ):
                fail("a token is not url-safe", token=ct)
            form = ct.decode() if rng.random() < 0.3 else ct
            got = (
                two.read_token(form, **kw) if case["dec"] == "sync"
                else run(two.aread_token(form, **kw))
            )
        if type(got) is not type(data) or got != data:
            fail("decryption did not give back the plaintext",
                 key=key, aad=aad, data=data, got=got, ciphertext=ct)
        if skw and case["kind"] == "bytes" and split(name, ct)[1] != skw["salt"]:
            fail("a given salt was not used", ciphertext=ct)
        done += 1
    loop.close()
    return done


def boundary(name, blocks, spread):
    f = FORMATS[name]
    out = set(range(spread + 1))
    for k in range(1, blocks + 1):
        edge = k * f["block"] - f["inner"]
        out |= {x for x in range(edge - spread, edge + spread + 1) if x >= 0}
        out |= {x for x in range(k * f["block"] - 1, k * f["block"] + 2)}
    return sorted(out)


def check_E01(ctx):
    found = cases(ctx, "CipherPairs")
    jobs = []
    for name in FORMATS:
        f = FORMATS[name]
        for case in found:
            n = ctx.pick(3, 6) * f["block"] + 3
            if case["kind"] == "bytes" and name == "Slick256":
                lengths = list(range(n))
            else:
                lengths = boundary(name, ctx.pick(3, 5), ctx.pick(2, 4))
                lengths += [ctx.rng.randrange(n) for _ in range(ctx.pick(10, 60))]
            if case["enc"] == case["dec"] == "sync" and case["given"]:
                lengths = list(range(n))
            lengths.append(ctx.rng.randrange(5000, 9000))
            if case["given"]:
                lengths.append(ctx.rng.randrange(66000, 140000))
            ctx.rng.shuffle(lengths)
            for i in range(0, len(lengths), 60):
                jobs.append((name, case, lengths[i : i + 60], ctx.rng.random()))
    ctx.rng.shuffle(jobs)
    ctx.sample(jobs[0][:2])
    ctx.sample(jobs[1][:2])
    for j, n in zip(jobs, parallel.run("ciphers", "pair_job", jobs)):
        ctx.count((j[0], json.dumps(j[1]), tuple(j[2])), n)
        ctx.traces += n


# ---------------------------------------------------------------------- E02


def flip(rng, data, bit=None):
    if not data:
        return b"\x01"
    bit = rng.randrange(8 * len(data)) if bit is None else bit
    out = bytearray(data)
    out[bit // 8] ^= 1 << (bit % 8)
    return bytes(out)


class Judge:
    """Decrypts and classifies; only the documented errors may occur."""

    def __init__(self, loop):
        import aiootp

        self.loop = loop
        self.auth = aiootp.Chunky2048.InvalidSHMAC
        self.size = aiootp._exceptions.InvalidCiphertextSize

    def __call__(self, via, cipher, data, **kw):
        try:
            if via == "sync":
                return cipher.bytes_decrypt(data, **kw)
            return self.loop.run_until_complete(cipher.abytes_decrypt(data, **kw))
        except self.auth:
            return "refused"
        except self.size:
            return "size"


def splice_job(name, share, batch, seed):
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    judge = Judge(loop)
    C, f = cls(name), FORMATS[name]
    size = rng.choice([5, 5, 64, 200, 2000])
    k1, a1, s1 = rng.randbytes(rng.choice([64, 500])), rng.randbytes(size), rng.randbytes(8)
    k2 = k1 if share[0] else rng.randbytes(64)
    a2 = a1 if share[1] else rng.randbytes(size)
    s2 = s1 if share[2] else rng.randbytes(8)
    n = 2 * f["block"] - f["inner"] - 3
    texts = {"1": rng.randbytes(n), "2": rng.randbytes(n)}
    ciphers = {0: C(flip(rng, k1)), 1: C(k1), 2: C(k2)}
    aads = {0: flip(rng, a1), 1: a1, 2: a2}
    c1 = split(name, ciphers[1].bytes_encrypt(texts["1"], salt=s1, aad=a1))
    c2 = split(name, ciphers[2].bytes_encrypt(texts["2"], salt=s2, aad=a2))
    parts = {1: c1, 2: c2}

    def part(i, src):
        return parts[src][i] if src else flip(rng, parts[1][i])

    for case in batch:
        body = b"".join(
            parts[m][3][i - 1] if m else
            flip(rng, rng.choice(parts[1][3]))
            for m, i in case["body"]
        )
        data = part(0, case["tag"]) + part(1, case["salt"]) + part(2, case["iv"]) + body
        want = texts.get(case["verdict"], case["verdict"])
        via = rng.choice(["sync", "async"])
        got = judge(via, ciphers[case["key"]], data, aad=aads[case["aad"]])
        if got != want:
            raise core.Violation(
                f"decryption gave {'a plaintext' if isinstance(got, bytes) else got}"
                f" instead of {case['verdict']} [{name} {via}]",
                dict(case=case, ciphertext=data.hex()),
            )
    loop.close()
    return len(batch)


def sweep_job(name, what, seed):
    """Every bit, every cut and some extensions of one message."""
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    judge = Judge(loop)
    C, f = cls(name), FORMATS[name]
    key, aad = rng.randbytes(64 + rng.randrange(40)), rng.randbytes(12)
    cipher = C(key)
    text = rng.randbytes(rng.choice([0, 1, f["block"]]))
    ct = cipher.bytes_encrypt(text, aad=aad)
    n = 0

    def expect(data, *allowed, c=cipher, a=aad, note=""):
        nonlocal n
        via = rng.choice(["sync", "async"])
        got = judge(via, c, data, aad=a)
        n += 1
        if got not in allowed:
            raise core.Violation(
                f"{note}: decryption gave"
                f" {'a plaintext' if isinstance(got, bytes) else got} [{name} {via}]",
                dict(key=key.hex(), aad=a.hex(), ciphertext=data.hex()),
            )

    expect(ct, text, note="the unchanged message")
    if what == "bits":
        for bit in range(8 * len(ct)):
            expect(flip(rng, ct, bit), "refused", note=f"bit {bit} flipped")
    elif what == "context":
        for bit in range(8 * len(aad)):
            expect(ct, "refused", a=flip(rng, aad, bit), note="aad bit flipped")
        for other in (b"", aad[:-1], aad + b"\x00", b"\x00" + aad, aad[::-1]):
            expect(ct, "refused", a=other, note="another aad")
        for bit in range(8 * len(key)):
            expect(ct, "refused", c=C(flip(rng, key, bit)), note="key bit flipped")
        for other in (key + b"\x00", b"\x00" + key, key[::-1], key + key):
            expect(ct, "refused", c=C(other), note="another key")
        # context and message parts shifted against each other
        tag, salt, iv, blocks = split(name, ct)
        expect(tag + iv + salt + b"".join(blocks), "refused", note="salt and iv swapped")
        expect(ct, "refused", a=aad + salt, note="salt moved into the aad")
    elif what == "length":
        for k in range(len(ct)):
            want = "refused" if k > header(name) and not (
                (k - header(name)) % f["block"]
            ) else "size"
            expect(ct[:k], want, note=f"cut to {k} bytes")
        for k in range(1, 2 * f["block"] + 2):
            want = "size" if k % f["block"] else "refused"
            tail = rng.choice([bytes(k), rng.randbytes(k), (ct * 9)[-k:]])
            expect(ct + tail, want, note=f"extended by {k} bytes")
            expect(tail + ct, want, note=f"preceded by {k} bytes")
    elif what == "cross":
        other = cls("Slick256" if name == "Chunky2048" else "Chunky2048")
        for size in range(0, 600, 7):
            data = other(key).bytes_encrypt(rng.randbytes(size), aad=aad)
            expect(data, "refused", "size", note="a message of the other cipher")
        run = loop.run_until_complete
        # tokens and JSON
        token = cipher.make_token(text, aad=aad)
        for i in range(len(token.rstrip(b"=")) - 1):
            bad = bytearray(token)
            bad[i] = ord("A") if token[i] != ord("A") else ord("B")
            try:
                if rng.random() < 0.5:
                    cipher.read_token(bytes(bad), aad=aad)
                else:
                    run(cipher.aread_token(bytes(bad), aad=aad))
            except (judge.auth, judge.size):
                n += 1
            else:
                raise core.Violation(
                    f"an altered token was accepted [{name}]",
                    dict(token=bad.decode(), at=i),
                )
        data = bytearray(cipher.json_encrypt({"a": 1}, aad=aad))
        for _ in range(100):
            bad = flip(rng, bytes(data))
            for f_ in (cipher.json_decrypt, lambda d, **k: run(cipher.ajson_decrypt(d, **k))):
                try:
                    f_(bad, aad=aad)
                except judge.auth:
                    n += 1
                else:
                    raise core.Violation(
                        f"an altered JSON ciphertext was accepted [{name}]",
                        dict(ciphertext=bad.hex()),
                    )
        # streams: the tag of another message
        for via in ("stream", "astream"):
            for bit in rng.sample(range(8 * len(ct)), 60):
                bad = flip(rng, ct, bit)
                try:
                    Party(loop).decrypt(via, cipher, bad, rng, aad=aad)
                except judge.auth:
                    n += 1
                else:
                    raise core.Violation(
                        f"an altered message was accepted [{name} {via}]",
                        dict(bit=bit, ciphertext=bad.hex()),
                    )
    elif what == "long":
        # contexts and messages of many blocks
        key, aad = rng.randbytes(rng.choice([300, 1000])), rng.randbytes(
            rng.choice([300, 1000, 70000]))
        cipher = C(key)
        text = rng.randbytes(rng.choice([20, 40, 300]) * f["block"] + rng.randrange(99))
        ct = cipher.bytes_encrypt(text, aad=aad)
        tag, salt, iv, blocks = split(name, ct)
        front = tag + salt + iv
        expect(ct, text, a=aad, c=cipher, note="the unchanged message")

        def refuse(body, note):
            expect(front + b"".join(body), "refused", c=cipher, a=aad, note=note)

        for _ in range(12):
            i, j = sorted(rng.sample(range(len(blocks)), 2))
            refuse([*blocks[:i], flip(rng, blocks[i]), *blocks[i + 1 :]], "a changed block")
            refuse([*blocks[:i], blocks[j], *blocks[i + 1 : j], blocks[i], *blocks[j + 1 :]],
                   "blocks swapped")
            refuse([*blocks[:i], *blocks[i + 1 :]], "a block left out")
            refuse([*blocks[:j], *blocks[i:]], "blocks repeated")
        for k in range(1, 8):
            refuse(blocks[: -k], "blocks cut off")
            refuse(blocks[k:], "blocks cut off")
            refuse([*blocks, *blocks[:k]], "blocks appended")
            refuse([*blocks, bytes(k * f["block"])], "blocks appended")
        for bit in [*range(8 * f["tag"] + 128), *rng.sample(range(8 * len(ct)), 40)]:
            expect(flip(rng, ct, bit), "refused", c=cipher, a=aad, note="a flipped bit")
        bits = {0, 8 * len(aad) - 1, *rng.sample(range(8 * len(aad)), 100)}
        for bit in bits:
            expect(ct, "refused", c=cipher, a=flip(rng, aad, bit), note="aad bit flipped")
        for other in (aad[:-1], aad[1:], aad + b"\x00", aad[: len(aad) // 2], aad + aad):
            expect(ct, "refused", c=cipher, a=other, note="another aad")
        bits = {0, 8 * len(key) - 1, *rng.sample(range(8 * len(key)), 100)}
        for bit in bits:
            expect(ct, "refused", c=C(flip(rng, key, bit)), a=aad, note="key bit flipped")
        for other in (key[:-1], key[1:], key + b"\x00", key[: len(key) // 2], key + key):
            expect(ct, "refused", c=C(other), a=aad, note="another key")
    loop.close()
    return n


def check_E02(ctx):
    found = cases(
        ctx, "CipherParts",
        constants=dict(MaxBody=3, MaxDev=ctx.pick(2, 3)),
    )
    groups = {}
    for c in found:
        groups.setdefault(tuple(c["share"]), []).append(c)
    jobs = []
    for share, lst in groups.items():
        ctx.rng.shuffle(lst)
        for name in FORMATS:
            for i in range(0, len(lst), 1500):
                jobs.append((name, share, lst[i : i + 1500], ctx.rng.random()))
    for j, n in zip(jobs, parallel.run("ciphers", "splice_job", jobs)):
        ctx.count((j[0], j[1], json.dumps(j[2])), n)
        ctx.traces += n
    ctx.sample(found[0])
    ctx.sample(found[-1])
    jobs = [
        (name, what, ctx.rng.random())
        for name in FORMATS
        for what in ("bits", "context", "length", "cross", "long", "long")
        for _ in range(ctx.pick(2, 6))
    ]
    for j, n in zip(jobs, parallel.run("ciphers", "sweep_job", jobs)):
        ctx.count(j, n)


# ---------------------------------------------------------------------- E03

SECOND = 10**9
START = 1_700_000_000 * SECOND
QUARTERS = [0, 1, SECOND // 2, SECOND - 1]


def at(tick):
    faketime.set(START + (tick // 4) * SECOND + QUARTERS[tick % 4])


def ttl_job(name, batch, seed):
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    party = Party(loop)
    run = loop.run_until_complete
    import aiootp

    C = cls(name)
    cipher = C(rng.randbytes(64))
    top = pathlib.Path(tempfile.mkdtemp(prefix="ttl-", dir=core.scratch()))
    at(0)
    db = aiootp.Database(rng.randbytes(64), path=top, preload=False)
    adb = run(_adb(aiootp.AsyncDatabase, rng.randbytes(64), top))
    done = 0
    vias = [
        "sync", "async", "stream", "astream", "json", "ajson", "token", "atoken",
    ]
    if name == "Chunky2048":
        vias += ["tag", "atag", "db", "adb"]
    for case in batch:
        ttl = None if case["ttl"] == -9 else case["ttl"]
        for via in vias:
            at(case["made"])
            text = rng.randbytes(rng.choice([0, 5, 300]))
            if via in ("sync", "async", "stream", "astream"):
                ct = party.encrypt(via, cipher, text, rng)

                def read():
                    return party.decrypt(via, cipher, ct, rng, ttl=ttl)
            elif via.endswith("json"):
                ct = cipher.json_encrypt(text.hex())

                def read():
                    if via == "json":
                        return bytes.fromhex(cipher.json_decrypt(ct, ttl=ttl))
                    return bytes.fromhex(run(cipher.ajson_decrypt(ct, ttl=ttl)))
            elif via.endswith("token"):
                ct = cipher.make_token(text)

                def read():
                    if via == "token":
                        return cipher.read_token(ct, ttl=ttl)
                    return run(cipher.aread_token(ct, ttl=ttl))
            elif via == "tag":
                db.set_tag("t", text, cache=False)

                def read():
                    return db.query_tag("t", ttl=ttl)
            elif via == "atag":
                run(adb.aset_tag("t", text, cache=False))

                def read():
                    return run(adb.aquery_tag("t", ttl=ttl))
            elif via == "db":
                ct = db.bytes_encrypt(text, filename="f")
                tk = db.make_token(text)
                js = db.json_encrypt(text.hex(), filename="f")
                which = rng.randrange(3)

                def read():
                    if which == 1:
                        return db.bytes_decrypt(ct, filename="f", ttl=ttl)
                    if which == 2:
                        return bytes.fromhex(db.json_decrypt(js, filename="f", ttl=ttl))
                    return db.read_token(tk, ttl=ttl)
            else:
                ct = run(adb.abytes_encrypt(text, filename="f"))
                tk = run(adb.amake_token(text))
                js = run(adb.ajson_encrypt(text.hex(), filename="f"))
                which = rng.randrange(3)

                def read():
                    if which == 1:
                        return run(adb.abytes_decrypt(ct, filename="f", ttl=ttl))
                    if which == 2:
                        return bytes.fromhex(
                            run(adb.ajson_decrypt(js, filename="f", ttl=ttl))
                        )
                    return run(adb.aread_token(tk, ttl=ttl))
            at(case["read"])
            try:
                got = read()
            except C.TimestampExpired as e:
                if not case["excess"]:
                    raise core.Violation(
                        f"refused as expired although it is not [{name} {via}]",
                        dict(case=case),
                    ) from None
                if e.expired_by != case["excess"] or e.units != "seconds":
                    raise core.Violation(
                        f"wrong excess reported: {e.expired_by} {e.units}"
                        f" instead of {case['excess']} seconds [{name} {via}]",
                        dict(case=case),
                    ) from None
            else:
                if case["excess"]:
                    raise core.Violation(
                        f"expired but not refused [{name} {via}]", dict(case=case)
                    )
                if got != text:
                    raise core.Violation(
                        f"wrong plaintext [{name} {via}]", dict(case=case)
                    )
            done += 1
    loop.close()
    faketime.set(None)
    shutil.rmtree(top, ignore_errors=True)
    return done


async def _adb(cls_, key, path):
    return await cls_(key, path=path, preload=False)


def ttl_stream_job(name, path, packets, mode, seed):
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    run = loop.run_until_complete
    C, f = cls(name), FORMATS[name]
    cipher = C(rng.randbytes(64))
    root, steps = path
    # a plaintext filling exactly the packets, the last one partly
    size = packets * f["block"] - f["inner"] - rng.choice([1, 2, f["block"] // 3])
    text = rng.randbytes(size)
    born = 4 + rng.randrange(4)
    at(born)
    tag, salt, iv, blocks = split(name, cipher.bytes_encrypt(text))
    ttl = None if root["ttl"] == -9 else root["ttl"]
    kw = dict(salt=salt, iv=iv, ttl=ttl)
    s = cipher.stream_decrypt(**kw) if mode == "sync" else run(cipher.astream_decrypt(**kw))
    age, fed, out = 0, 0, b""
    log = []

    def seen(k):  # plaintext in the first k packets
        if k == packets:
            return text
        return text[: max(0, k * f["block"] - f["inner"])]

    def fail(what):
        raise core.Violation(
            f"{what} [{name} {mode} stream]", dict(ttl=ttl, history=log, born=born)
        )

    async def collect(source, sink):
        async for p in source:
            sink.append(p)

    for act in steps:
        log.append([act["op"], act["res"], act["n"]])
        if act["op"] == "tick":
            age += 1
            at(4 * (1 + age) + rng.randrange(4))
        elif act["op"] == "feed":
            block = blocks[fed]
            fed += 1
            if mode == "sync":
                s.buffer(s.shmac.next_block_id(block) + block)
            else:
                run(s.abuffer(run(s.shmac.anext_block_id(block)) + block))
        else:
            sink, error = [], None
            try:
                if mode == "sync":
                    for p in (s if act["op"] == "read" else s.finalize()):
                        sink.append(p)
                else:
                    run(collect(s if act["op"] == "read" else s.afinalize(), sink))
            except C.TimestampExpired as e:
                error = e
            except (IndexError, RuntimeError, LookupError, ValueError) as e:
                error = e
            out += b"".join(sink)
            if act["res"] == "expired":
                if not isinstance(error, C.TimestampExpired):
                    fail(f"{act['op']} of an expired stream gave {error!r}")
                if error.expired_by != act["n"]:
                    fail(f"reported {error.expired_by} instead of {act['n']}")
            elif isinstance(error, C.TimestampExpired):
                fail(f"{act['op']} was refused as expired")
            elif act["res"] == "data":
                if error:
                    fail(f"{act['op']} raised {error!r}")
                if out != seen(act["n"]):
                    fail("the stream gave other data than the packets hold")
            if act["res"] != "data" and sink:
                fail("data came out of a refused call")
    loop.close()
    faketime.set(None)
    return len(steps)


def check_E03(ctx):
    # the largest signed time limits and clocks that ran backwards included
    found = cases(
        ctx, "Ttl", constants=dict(MaxTick=ctx.pick(20, 28), Ttls="{0, 1, 2, 3, 1000}")
    )
    ctx.rng.shuffle(found)
    ctx.sample(found[0])
    jobs = [
        (name, found[i : i + 40], ctx.rng.random())
        for name in FORMATS
        for i in range(0, len(found), 40)
    ]
    for j, n in zip(jobs, parallel.run("ciphers", "ttl_job", jobs, patch="faketime")):
        ctx.count((j[0], json.dumps(j[1])), n)
        ctx.traces += n
    packets = ctx.pick(3, 4)
    g = core.explore(
        ctx, "TtlStream",
        constants=dict(MaxAge=3, Packets=packets, Ttls=ctx.pick("{0, 1}", "{0, 1, 2}")),
    )
    views = [json.loads(v) for v in g.views]
    jobs = []
    for name in FORMATS:
        for mode in ("sync", "async"):
            for root, steps in g.paths(ctx.rng, max_len=14):
                jobs.append(
                    (name, (views[root], [a for a, *_ in steps]), packets, mode,
                     ctx.rng.random())
                )
    ctx.rng.shuffle(jobs)
    for j, n in zip(
        jobs, parallel.run("ciphers", "ttl_stream_job", jobs, patch="faketime")
    ):
        ctx.count((j[0], j[3], json.dumps(j[1])), n)
        ctx.traces += 1
    ctx.exhaustive = True


# ---------------------------------------------------------------------- E04

draws = None


class Draws:
    """Stands before the sources of randomness; one draw can be frozen."""

    def __init__(self):
        self.frozen = None  # which draw of a call repeats, or "all"
        self.values = {}
        self.at = 0
        self.lock = threading.Lock()

    def begin(self, frozen):
        self.at, self.frozen = 0, frozen

    def give(self, n, real):
        with self.lock:
            i = self.at
            self.at += 1
        if self.frozen not in (i, "all"):
            return real(n)
        return self.values.setdefault((i, n), real(n))


def install():
    global draws
    import secrets

    draws = Draws()
    real = secrets.token_bytes
    secrets.token_bytes = lambda n=32: draws.give(n, real)
    faketime.install()


def fresh_job(name, seed):
    """Histories of encryptions of equal plaintexts by equal contexts."""
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    party = Party(loop)
    C, f = cls(name), FORMATS[name]
    faketime.set(START)
    traces = []

    def trace(events):
        ids = {}
        out = []
        for given, ct, frozen, text in events:
            tag, salt, iv, blocks = split(name, ct)
            # the body in parts, and what the known plaintext leaves of it
            body = b"".join(blocks)
            known = text.join([bytes(f["inner"]), b""]) if text else b""
            parts = [(0, f["inner"])]
            parts += [(a, a + 20) for a in range(f["inner"], len(body) - 19, 20)]
            blocks = [body[a:b] for a, b in parts]
            if any(known):
                blocks += [
                    bytes(x ^ y for x, y in zip(body[a:b], known[a:b]))
                    for a, b in parts[1:] if b <= len(known)
                ]
            ident = lambda x: ids.setdefault(x, len(ids) + 1)
            out.append(
                dict(
                    given=ident(given) if given else 0, salt=ident(salt),
                    iv=ident(iv), blocks=[ident(b) for b in blocks],
                    frozen=int(frozen),
                )
            )
        traces.append(out)

    key = rng.randbytes(64)
    n = 3 * f["block"]
    for text in (b"", bytes(n), b"\xff" * n, rng.randbytes(n)):
        for given in (None, rng.randbytes(8), bytes(8)):
            kw = dict(salt=given) if given else {}
            for new in (False, True):
                cipher = C(key)
                events = []
                for i in range(10):
                    via = rng.choice(["sync", "async", "stream", "astream"])
                    c = C(key) if new else cipher
                    events.append(
                        (given, party.encrypt(via, c, text, rng, **kw), False, text)
                    )
                trace(events)
            # one object, many threads and tasks
            cipher = C(key)
            events, lock = [], threading.Lock()

            def work():
                mine = [cipher.bytes_encrypt(text, **kw) for _ in range(4)]
                with lock:
                    events.extend((given, ct, False, text) for ct in mine)

            threads = [threading.Thread(target=work) for _ in range(6)]
            for t in threads:
                t.start()
            for t in threads:
                t.join()

            async def gather():
                return await asyncio.gather(
                    *(cipher.abytes_encrypt(text, **kw) for _ in range(10))
                )

            events.extend(
                (given, ct, False, text) for ct in loop.run_until_complete(gather())
            )
            trace(events)
            # any one of the values drawn repeats
            for via in ("sync", "async", "stream", "astream"):
                for which in (0, 1, 2, 3, "all"):
                    events = []
                    vary = rng.random() < 0.5
                    for i in range(3):
                        this = rng.randbytes(len(text)) if vary else text
                        if which == "all":  # then the time sets them apart
                            faketime.set(START + i * SECOND)
                        draws.begin(which)
                        ct = party.encrypt(via, cipher, this, rng, **kw)
                        draws.begin(None)
                        events.append((given, ct, True, this))
                    draws.values.clear()
                    faketime.set(START)
                    trace(events)
    # json and tokens
    cipher = C(key)
    run = loop.run_until_complete
    trace([(None, cipher.json_encrypt([1]), False, b"") for _ in range(6)]
          + [(None, run(cipher.ajson_encrypt([1])), False, b"") for _ in range(6)])
    from aiootp.generics import ByteIO

    trace([(None, ByteIO.urlsafe_to_bytes(cipher.make_token(b"t")), False, b"")
           for _ in range(6)]
          + [(None, ByteIO.urlsafe_to_bytes(run(cipher.amake_token(b"t"))), False, b"")
             for _ in range(6)])
    # a stream object that has encrypted gives nothing more
    for mode in ("sync", "async"):
        for _ in range(4):
            again(C(key), mode, run, rng, name)
    faketime.set(None)
    loop.close()
    return traces


def again(cipher, mode, run, rng, name):
    text = rng.randbytes(rng.randrange(700))

    async def collect(source):
        return [p async for p in source]

    if mode == "sync":
        s = cipher.stream_encrypt()
        s.buffer(text)
        list(s)
        list(s.finalize())
        calls = [
            lambda: s.buffer(text) and list(s), lambda: list(s.finalize()),
            lambda: list(s), lambda: s.shmac.finalize(),
            lambda: s.shmac._for_encryption(), lambda: s.buffer(b"") and list(s),
        ]
    else:
        s = run(cipher.astream_encrypt())
        run(s.abuffer(text))
        run(collect(s))
        run(collect(s.afinalize()))
        calls = [
            lambda: run(s.abuffer(text)) and run(collect(s)),
            lambda: run(collect(s.afinalize())), lambda: run(collect(s)),
            lambda: run(s.shmac.afinalize()), lambda: s.shmac._for_encryption(),
            lambda: run(s.abuffer(b"")) and run(collect(s)),
        ]
    rng.shuffle(calls)
    tag = s.shmac.result
    for call in calls:
        try:
            got = call()
        except Exception:
            continue
        if got:
            raise core.Violation(
                f"a finished stream encrypted again [{name} {mode}]", dict(got=repr(got))
            )
    if s.shmac.result != tag:
        raise core.Violation(f"the tag of a finished stream changed [{name} {mode}]")


def check_E04(ctx):
    jobs = [(n, ctx.rng.random()) for n in FORMATS for _ in range(ctx.pick(4, 16))]
    traces = []
    for t in parallel.run("ciphers", "fresh_job", jobs, patch="ciphers"):
        traces += t
    for t in traces:
        ctx.count(json.dumps(t), len(t))
    ctx.sample(traces[0][:2])
    core.validate(ctx, "FreshTrace", "FreshTrace", traces, what="history of encryptions")
    # key bundles and authenticators, which serve one message only
    jobs = []
    for iv in ("drawn", "given"):
        g = core.explore(
            ctx, "Shmac",
            constants=dict(Steps=2, Sizes="{16}", MinId=16, MaxId=32, Ivs='{"%s"}' % iv),
        )
        views = [json.loads(v) for v in g.views]
        for name in FORMATS:
            for root, steps in g.paths(ctx.rng, max_len=40):
                jobs.append((name, views[root], [a for a, *_ in steps], ctx.rng.random()))
    ctx.rng.shuffle(jobs)
    for j, n in zip(jobs, parallel.run("shmac", "shmac_job", jobs, limit=100)):
        ctx.count(json.dumps(j[:3]), n)
        ctx.traces += 1


# ---------------------------------------------------------------------- E05


def length_job(name, batch, seed):
    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    party = Party(loop)
    judge = Judge(loop)
    run = loop.run_until_complete
    from aiootp.generics import ByteIO

    C, f = cls(name), FORMATS[name]
    cipher = C(rng.randbytes(64))
    done = 0
    for case in batch:
        n, want = case["n"], case["size"]
        for via in ("sync", "async", "stream", "astream", "token", "atoken", "json", "ajson"):
            text = plaintext(rng, n)
            aad = rng.randbytes(rng.choice([0, 3, 300]))
            if via == "token":
                got = len(ByteIO.urlsafe_to_bytes(cipher.make_token(text, aad=aad)))
            elif via == "atoken":
                got = len(ByteIO.urlsafe_to_bytes(run(cipher.amake_token(text, aad=aad))))
            elif via.endswith("json"):
                if n < 2:
                    continue
                value = "z" * (n - 2)
                got = len(
                    cipher.json_encrypt(value, aad=aad) if via == "json"
                    else run(cipher.ajson_encrypt(value, aad=aad))
                )
            else:
                got = len(party.encrypt(via, cipher, text, rng, aad=aad))
            if got != want:
                raise core.Violation(
                    f"a plaintext of {n} bytes gave {got} bytes of ciphertext"
                    f" instead of {want} [{name} {via}]", dict(case=case)
                )
            done += 1
        # the same number as the length of an alleged ciphertext
        data = rng.randbytes(n)
        for via in ("sync", "async"):
            hashed = []

            def watch(frame, event, arg):
                if event == "c_call" and arg.__name__ in ("update", "digest", "copy"):
                    hashed.append(arg)

            sys.setprofile(watch if via == "sync" else None)
            try:
                got = judge(via, cipher, data)
            finally:
                sys.setprofile(None)
            if got != ("refused" if case["valid"] else "size"):
                raise core.Violation(
                    f"an input of {n} bytes gave {got if isinstance(got, str) else 'a plaintext'}"
                    f" [{name} {via}]", dict(case=case, data=data.hex())
                )
            if not case["valid"] and hashed:
                raise core.Violation(
                    f"an input of {n} bytes was processed before it was refused [{name}]",
                    dict(case=case),
                )
            done += 1
        # and as that of data supplied to a stream
        whole = n and not n % (f["id"] + f["block"])
        for via in ("sync", "async"):
            kw = dict(salt=bytes(8), iv=bytes(8))
            hashed = []
            s = cipher.stream_decrypt(**kw) if via == "sync" else run(
                cipher.astream_decrypt(**kw))
            sys.setprofile(watch if via == "sync" else None)
            try:
                s.buffer(data) if via == "sync" else run(s.abuffer(data))
                got = "taken"
            except C.InvalidBlockID:
                got = "refused"
            except ValueError:
                got = "size"
            finally:
                sys.setprofile(None)
            if got != ("refused" if whole else "size") or hashed and not whole:
                raise core.Violation(
                    f"{n} bytes supplied to a stream: {got} [{name} {via}]",
                    dict(case=case, data=data.hex()),
                )
            done += 1
    loop.close()
    return done


def check_E05(ctx):
    jobs = []
    for name, f in FORMATS.items():
        most = header(name) + ctx.pick(3, 6) * f["block"] + 3
        found = cases(
            ctx, "Padding",
            constants=dict(Header=header(name), Inner=f["inner"], Block=f["block"],
                           MaxLen=most),
        )
        ctx.sample(found[7])
        ctx.rng.shuffle(found)
        jobs += [
            (name, found[i : i + 60], ctx.rng.random())
            for i in range(0, len(found), 60)
        ]
    for j, n in zip(jobs, parallel.run("ciphers", "length_job", jobs)):
        ctx.count((j[0], json.dumps(j[1])), n)
        ctx.traces += n
    ctx.exhaustive = True
