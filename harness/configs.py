"""E06: ciphers of other settings."""

import asyncio
import hashlib
import random

from . import ciphers, core, parallel

KDFS = dict(
    Slick256=dict(block_id_kdf=(b"\x9a", slice(None)), shmac_kdf=(b"\xac", slice(None))),
    Chunky2048=dict(
        block_id_kdf=(b"\xac", slice(None)), shmac_kdf=(b"\x9a", slice(None)),
        left_kdf=(b"\x5c", slice(0, None, 2)), right_kdf=(b"\x36", slice(1, None, 2)),
    ),
)


def make(kind, conf):
    """A new cipher class of the given settings."""
    import aiootp
    from aiootp._permutations import FastAffineXORChain
    from aiootp.ciphers.cipher_kdfs import ShakeConfig
    from aiootp.ciphers.dual_output_shake_cipher_config import DualOutputShakeCipherConfig
    from aiootp.ciphers.shake_permute_cipher_config import ShakePermuteCipherConfig

    kdfs = {}
    for name, (pad, part) in KDFS[kind].items():
        kdfs[name] = name
        kdfs[name + "_config"] = ShakeConfig(
            name=name, pad=pad, offset_amount=0, hasher=hashlib.shake_128, key_slice=part
        )
    T = dict(Slick256=ShakePermuteCipherConfig, Chunky2048=DualOutputShakeCipherConfig)[kind]
    config = T(
        name=kind + "x" * conf["name"], config_id=kind.encode() + b"x" * conf["cid"],
        blocksize=conf["bs"], min_padding_blocks=conf["pad"],
        epoch_ns=1672531200000000000 + 10**9 * conf["epoch"], time_unit="seconds",
        timestamp_bytes=conf["ts"], siv_key_bytes=conf["siv"], shmac_bytes=conf["mac"],
        block_id_bytes=conf["id"], min_block_id_bytes=conf["low"], max_block_id_bytes=32,
        salt_bytes=conf["salt"], iv_bytes=conf["iv"], permutation_type=FastAffineXORChain, **kdfs,
    )
    return type("Other" + kind, (getattr(aiootp, kind),), dict(__slots__=(), _config=config))


def config_job(cases, seed):
    import aiootp

    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    run = loop.run_until_complete
    key = rng.randbytes(64)
    done = 0
    before = []

    def stop(what, case, **more):
        raise core.Violation(what, dict(case={k: v for k, v in case.items() if k != "lengths"}, **more))

    def streamed(enc, dec, message, salt, aad, whole):
        cut = lambda data, step: [data[i : i + step] for i in range(0, len(data), step)]
        e = enc.stream_encrypt(salt=salt, aad=aad)
        packets = []
        for part in cut(message, rng.choice([1 + len(message), 100, 33])):
            packets += [b"".join(p) for p in e.buffer(part)]
        packets += [b"".join(p) for p in e.finalize()]
        d = dec.stream_decrypt(salt=salt, aad=aad, iv=e.iv)
        out = []
        for i in range(0, len(packets), step := rng.choice([1, 2, 50])):
            out += list(d.buffer(b"".join(packets[i : i + step])))
        out += list(d.finalize())
        d.shmac.test_shmac(e.shmac.result)
        return b"".join(out), len(packets)

    async def astreamed(enc, dec, message, salt, aad):
        e = await enc.astream_encrypt(salt=salt, aad=aad)
        packets = [b"".join(p) async for p in await e.abuffer(message)]
        packets += [b"".join(p) async for p in e.afinalize()]
        d = await dec.astream_decrypt(salt=salt, aad=aad, iv=e.iv)
        out = []
        for p in packets:
            out += [x async for x in await d.abuffer(p)]
        out += [x async for x in d.afinalize()]
        await d.shmac.atest_shmac(e.shmac.result)
        return b"".join(out), len(packets)

    for case in cases:
        kind, conf = case["kind"], case["conf"]
        try:
            C = make(kind, conf)
        except Exception as e:
            if case["usable"]:
                stop("usable settings were refused", case, error=repr(e))
            done += 1
            continue
        if not case["usable"]:
            stop("unusable settings were accepted", case)
        # both sides make their settings on their own
        enc, dec = C(key), make(kind, conf)(key)
        ways = dict(
            sync=(lambda m, **kw: enc.bytes_encrypt(m, **kw), lambda c, **kw: dec.bytes_decrypt(c, **kw)),
            async_=(
                lambda m, **kw: run(enc.abytes_encrypt(m, **kw)),
                lambda c, **kw: run(dec.abytes_decrypt(c, **kw)),
            ),
        )
        for n, length in sorted(case["lengths"]):
            # last bytes a padding could be mistaken for
            message = rng.randbytes(n)[:-4] + bytes(rng.choice([0, 1, 2, 255]) for _ in range(min(n, 4)))
            salt = rng.randbytes(conf["salt"])
            aad = rng.randbytes(rng.choice([0, 5]))
            for way in (rng.choice(["sync", "async_"]), "sync"):
                encrypt, decrypt = ways[way]
                box = encrypt(message, salt=salt, aad=aad)
                if len(box) != length:
                    stop(f"a ciphertext of {n} bytes has {len(box)} bytes instead of {length}", case, way=way)
                if salt != box[conf["mac"] : conf["mac"] + conf["salt"]]:
                    stop("the salt is not where the settings place it", case)
                back = rng.choice(list(ways.values()))[1](box, aad=aad)
                if back != message:
                    stop(f"a message of {n} bytes was decrypted to {len(back)} other bytes", case, way=way)
                done += 1
            blocks = (length - conf["mac"] - conf["salt"] - conf["iv"]) // conf["bs"]
            for how, (back, k) in dict(
                stream=streamed(enc, dec, message, salt, aad, blocks),
                astream=run(astreamed(enc, dec, message, salt, aad)),
            ).items():
                if back != message or k != blocks:
                    stop(f"a streamed message of {n} bytes became {len(back)} other bytes", case, way=how, packets=k)
                done += 1
            # any changed bit is refused
            bad = bytearray(box)
            bad[rng.randrange(len(bad))] ^= 1 << rng.randrange(8)
            try:
                dec.bytes_decrypt(bytes(bad), aad=aad)
            except Exception:
                done += 1
            else:
                stop("a changed ciphertext was decrypted", case)
        # no cipher reads what one of other settings wrote
        shipped = getattr(aiootp, kind)(key)
        base = conf == SHIPPED[kind]
        for who, other in [("shipped", shipped)] * (not base) + before:
            for a, b in ((enc, other), (other, enc)):
                box = a.bytes_encrypt(b"message", aad=b"aad")
                try:
                    b.bytes_decrypt(box, aad=b"aad")
                except Exception:
                    done += 1
                else:
                    stop("a cipher of other settings decrypted a message", case, other=who)
        if base and shipped.bytes_decrypt(enc.bytes_encrypt(b"message")) != b"message":
            stop("a cipher of equal settings decrypted to another message", case)
        before = (before + [(conf, enc)])[-3:]
    return done


SHIPPED = dict(
    Slick256=dict(bs=32, pad=0, ts=4, siv=8, mac=24, id=16, low=16, salt=8, iv=8, name=0, cid=0, epoch=0),
    Chunky2048=dict(bs=256, pad=0, ts=4, siv=16, mac=32, id=24, low=16, salt=8, iv=8, name=0, cid=0, epoch=0),
)


def check_E06(ctx):
    found = ciphers.cases(ctx, "CipherConfig", constants=dict(Changes=ctx.pick(2, 3)))
    ones = [c for c in found if len(c["done"]) < 2]
    more = [c for c in found if len(c["done"]) > 1]
    ctx.rng.shuffle(more)
    chosen = ones + more[: ctx.pick(1000, 6000)]
    ctx.sample(chosen[0])
    # settings of one kind follow one another
    chosen.sort(key=lambda c: c["kind"])
    jobs = [(chosen[i : i + 12], ctx.rng.random()) for i in range(0, len(chosen), 12)]
    for j, k in zip(jobs, parallel.run("configs", "config_job", jobs)):
        for c in j[0]:
            ctx.count(str(c["kind"]) + str(c["conf"]), k // 12)
        ctx.traces += 1
