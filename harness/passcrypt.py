"""K02, K03: password hashes and their format."""

import asyncio
import concurrent.futures
import json
import random

from . import core, faketime, parallel, profiles
from .ciphers import cases
from .keys import Outputs, Sides, flip_bit

NOW = 1_800_000_000 * 10**9


def install():
    profiles.install()
    faketime.install()
    faketime.set(NOW)


class Recorder:
    """A pool which notes what it is asked to do and does nothing."""

    _broken = False
    asked = 0

    def __init__(self, *a, **kw):
        pass

    def submit(self, *a, **kw):
        Recorder.asked += 1
        future = concurrent.futures.Future()
        future.set_result(bytes(168))
        return future

    def shutdown(self, *a, **kw):
        pass


class stubbed:
    """Installs the recorder in place of the process pool."""

    @staticmethod
    def install():
        concurrent.futures.ProcessPoolExecutor = Recorder
        faketime.install()
        faketime.set(NOW)


SMALL = dict(
    mb_allowed=range(1, 4), cpu_allowed=range(1, 6), cores_allowed=range(1, 5)
)


def outcome(call):
    """What a verification came to, and its error."""
    from aiootp import Passcrypt

    try:
        got = call()
    except Passcrypt.InvalidPassphrase as e:
        return "wrong", e
    except Passcrypt.TimestampExpired as e:
        return "expired", e
    except ResourceWarning as e:
        return "asks too much", e
    except Passcrypt.ImproperPassphrase as e:
        return "improper", e
    except (ValueError, TypeError) as e:
        return "malformed", e
    if got is not None:
        raise core.Violation("verifying returned something", dict(value=repr(got)))
    return "ok", None


def settings(rng):
    return dict(
        mb=rng.choice([1, 1, 1, 2]), cpu=rng.choice([1, 1, 2, 3, 4]), cores=rng.choice([1, 1, 2, 3]),
        tag_size=rng.choice([16, 17, 32, 64, 300]), salt_size=rng.choice([4, 5, 8, 64, 256]),
    )


def hash_job(batch, seed):
    from aiootp import Passcrypt

    rng = random.Random(seed)
    do = Sides(rng)

    def mode(which, obj, name, *a, **kw):
        if which == "sync":
            return getattr(obj, name)(*a, **kw)
        return do.loop.run_until_complete(getattr(obj, "a" + name)(*a, **kw))

    for case in batch:
        s = settings(rng)
        word = rng.randbytes(rng.choice([13, 14, 32, 200]))
        aad = rng.randbytes(rng.choice([1, 2, 20]))
        pepper = rng.choice([b"pepper", rng.randbytes(32)])
        faketime.set(NOW)
        Passcrypt.PEPPER = pepper
        made = mode(case["hashed"], Passcrypt(**s), "hash_passphrase", word, aad=aad)
        parts = dict(time=(0, 8), mb=(8, 11), cpu=(11, 12), cores=(12, 13))
        parts["salt size"] = (13, 14)
        parts["salt"] = (14, 14 + s["salt_size"])
        parts["tag"] = (14 + s["salt_size"], len(made))
        if len(made) != 14 + s["salt_size"] + s["tag_size"]:
            raise core.Violation("a hash of a wrong length", dict(settings=s, length=len(made)))
        kw = dict(aad=aad)
        given, text = word, made
        for d in case["diffs"]:
            if d == "pass flip":
                given = flip_bit(word, rng.randrange(8 * len(word)))
            elif d == "pass longer":
                given = rng.choice([word + b"\0", b"\0" + word, word + word])
            elif d == "pass cut":
                given = word[1:]
            elif d == "pass end":
                given = word[:-1]
            elif d == "aad flip":
                kw["aad"] = flip_bit(aad, rng.randrange(8 * len(aad)))
            elif d == "aad longer":
                kw["aad"] = rng.choice([aad + b"\0", b"\0" + aad])
            elif d == "aad cut":
                kw["aad"] = rng.choice([aad[1:], aad[:-1]])
            elif d == "aad none":
                del kw["aad"]
            elif d == "pass to aad":
                given, kw["aad"] = word[:-1], word[-1:] + aad
            elif d == "pepper":
                Passcrypt.PEPPER = rng.choice([pepper + b"\0", flip_bit(pepper, rng.randrange(8 * len(pepper)))])
            elif d == "pepper none":
                Passcrypt.PEPPER = b""
            elif d == "tag cut":
                text = text[:-1]
            elif d == "tag longer":
                text = text + rng.choice([b"\0", b"x"])
            elif d == "front":
                text = rng.choice([text[1:], b"\0" + text])
            elif d != "none":
                a, b = parts[d]
                text = text[:a] + flip_bit(text[a:b], rng.randrange(8 * (b - a))) + text[b:]
        limit = rng.choice([1, 2, 3600, 10**6, 3 * 10**8])
        age = dict(new=0, younger=limit * 10**9 - 1, equal=limit * 10**9, older=limit * 10**9 + 1, future=-(10**9))
        age["much older"] = limit * 10**9 + 10**18
        age["no limit"] = rng.choice([0, 10**9, 10**18])
        if case["age"] != "no limit":
            kw["ttl"] = limit
        elif rng.random() < 0.5:
            kw["ttl"] = None
        faketime.set(NOW + age[case["age"]])
        got, why = outcome(
            lambda: mode(case["verified"], Passcrypt, "verify", text, given, **kw, **SMALL)
        )
        if got == "ok" and case["errors"] or got != "ok" and got not in case["errors"]:
            raise core.Violation(
                f"a password verification came to {got!r}",
                dict(case=case, settings=s, hash=made.hex(), given=text.hex(), passphrase=word.hex(),
                     given_passphrase=given.hex(), kw=repr(kw), why=repr(why)),
            )
        if got == "expired" and "expired" in case["errors"] and case["diffs"] == ["none"]:
            if why.expired_by != age[case["age"]] - limit * 10**9:
                raise core.Violation("a wrong excess was reported", dict(case=case, why=repr(why), limit=limit))
    Passcrypt.PEPPER = b""
    faketime.set(NOW)
    return len(batch)


def flips_job(what, first, step, seed):
    """Every bit of the hash, passphrase or aad."""
    from aiootp import Passcrypt

    rng = random.Random(seed)
    do = Sides(rng)
    word, aad = rng.randbytes(12), rng.randbytes(3)
    faketime.set(NOW)
    made = do(Passcrypt(mb=1, cpu=1, cores=1, tag_size=16, salt_size=4), "hash_passphrase", word, aad=aad)
    right = dict(hash=made, word=word, aad=aad)
    todo = range(first, 8 * len(right[what]), step)
    for bit in todo:
        v = dict(right)
        v[what] = flip_bit(v[what], bit)
        got, why = outcome(
            lambda: do(Passcrypt, "verify", v["hash"], v["word"], aad=v["aad"], **SMALL)
        )
        if got == "ok" or what != "hash" and got != "wrong":
            raise core.Violation(f"bit {bit} of the {what} came to {got!r}", dict(why=repr(why)))
    got, why = outcome(lambda: do(Passcrypt, "verify", made, word, aad=aad))
    if got != "ok":
        raise core.Violation("a right passphrase was refused", dict(why=repr(why)))
    return len(todo) + 1


# (passphrase, salt, aad, pepper, settings): the same bytes cut otherwise, and
# settings differing in one
WORD, SALT, AAD = b"a long passphrase", b"salty", b"aad"
RAW = [
    (WORD, SALT, AAD, b"", {}),
    (WORD[:-1], WORD[-1:] + SALT, AAD, b"", {}),
    (WORD + SALT[:1], SALT[1:], AAD, b"", {}),
    (WORD, SALT + AAD[:1], AAD[1:], b"", {}),
    (WORD, SALT[:-1], SALT[-1:] + AAD, b"", {}),
    (WORD, SALT + AAD, b"", b"", {}),
    (WORD, SALT, b"", AAD, {}),
    (WORD, SALT, AAD[1:], AAD[:1], {}),
    (WORD, SALT, b"", b"", {}),
    (WORD + b"\0", SALT, AAD, b"", {}),
    (WORD, SALT + b"\0", AAD, b"", {}),
    (WORD, SALT, AAD + b"\0", b"", {}),
    (WORD, SALT, AAD, b"\0", {}),
    (WORD, SALT, AAD, b"", dict(mb=2)),
    (WORD, SALT, AAD, b"", dict(mb=3)),
    (WORD, SALT, AAD, b"", dict(cpu=2)),
    (WORD, SALT, AAD, b"", dict(cpu=3)),
    (WORD, SALT, AAD, b"", dict(cpu=4)),
    (WORD, SALT, AAD, b"", dict(cores=2)),
    (WORD, SALT, AAD, b"", dict(cores=3)),
    (WORD, SALT, AAD, b"", dict(cores=2, mb=2)),
    (WORD, SALT, AAD, b"", dict(cores=3, mb=2)),
    (WORD, SALT, AAD, b"", dict(cores=2, mb=4)),
    (WORD, SALT, AAD, b"", dict(cores=2, mb=3)),
    (WORD, SALT, AAD, b"", dict(tag_size=16)),
    (WORD, SALT, AAD, b"", dict(tag_size=33)),
    (WORD, SALT, AAD, b"", dict(tag_size=500)),
    (WORD, SALT, AAD, b"", dict(cores=40)),
    (WORD, SALT, AAD, b"", dict(cpu=256)),
    (WORD, SALT, AAD, b"", dict(cpu=255)),
]


def raw_job(i, seed):
    from aiootp import Passcrypt

    rng = random.Random(seed)
    do = Sides(rng)
    word, salt, aad, pepper, s = RAW[i]
    Passcrypt.PEPPER = pepper
    obj = Passcrypt(**{**dict(mb=1, cpu=1, cores=1, tag_size=32), **s})
    outs = [obj.new(word, salt, aad=aad), do.loop.run_until_complete(obj.anew(word, salt, aad=aad))]
    Passcrypt.PEPPER = b""
    if len(outs[0]) != s.get("tag_size", 32):
        raise core.Violation("a tag of a wrong size", dict(case=repr(RAW[i]), size=len(outs[0])))
    return outs


def make_job(n, seed):
    """Hashes made by real processes and threads."""
    from aiootp import Passcrypt
    from aiootp.asynchs import Threads

    rng = random.Random(seed)
    do = Sides(rng)
    out = []
    for i in range(n):
        obj = Passcrypt(**settings(rng))
        word, aad = rng.randbytes(20), rng.randbytes(2)
        if i % 2:
            made = do(Threads, "new", obj.hash_passphrase, word, aad=aad)
        else:
            made = do(obj, "hash_passphrase", word, aad=aad)
        out.append((made, word, aad))
        for text, given, want in ((made, word, "ok"), (made, word[1:] + b"!", "wrong")):
            got, why = outcome(lambda: do(Passcrypt, "verify", text, given, aad=aad, ttl=3600, **SMALL))
            if got != want:
                raise core.Violation(f"in other processes, a verification came to {got!r}", dict(why=repr(why)))
    return out


def take_job(made, seed):
    from aiootp import Passcrypt

    rng = random.Random(seed)
    do = Sides(rng)
    for text, word, aad in made:
        for given, want in ((word, "ok"), (flip_bit(word, rng.randrange(160)), "wrong")):
            got, why = outcome(lambda: do(Passcrypt, "verify", text, given, aad=aad, **SMALL))
            if got != want:
                raise core.Violation(
                    f"a hash made in another process came to {got!r}", dict(why=repr(why))
                )
    return 2 * len(made)


def check_K02(ctx):
    found = cases(ctx, "PassHash")
    ctx.rng.shuffle(found)
    good = [c for c in found if not c["errors"]]
    todo = good * ctx.pick(20, 60) + found[: ctx.pick(6000, len(found))]
    ctx.rng.shuffle(todo)
    ctx.sample(todo[0])
    jobs = [(todo[i : i + 50], ctx.rng.random()) for i in range(0, len(todo), 50)]
    for j, k in zip(jobs, parallel.run("passcrypt", "hash_job", jobs, patch="passcrypt")):
        for c in j[0]:
            ctx.count(json.dumps(c), 1)
        ctx.traces += k
    jobs = [(what, i, 8, ctx.rng.random()) for what in ("hash", "word", "aad") for i in range(8)]
    for j, k in zip(jobs, parallel.run("passcrypt", "flips_job", jobs, patch="passcrypt")):
        ctx.count(json.dumps(j[:3]), k)
        ctx.traces += k
    book = Outputs()
    jobs = [(i, ctx.rng.random()) for i in range(len(RAW))]
    for j, outs in zip(jobs, parallel.run("passcrypt", "raw_job", jobs, patch="passcrypt")):
        ctx.count(json.dumps(["raw", j[0]]), 2)
        for value in outs:
            book.add(repr(RAW[j[0]]), value)
    jobs = [(ctx.pick(4, 12), ctx.rng.random()) for _ in range(2)]
    made = parallel.run("passcrypt", "make_job", jobs, workers=2)
    ctx.count("processes", sum(map(len, made)))
    jobs = [(m, ctx.rng.random()) for m in made]
    for k in parallel.run("passcrypt", "take_job", jobs, patch="profiles"):
        ctx.traces += k
    ctx.exhaustive = ctx.tier == "thorough"


# ---------------------------------------------------------------------- K03


def format_job(batch, seed):
    import aiootp
    from aiootp import Passcrypt

    rng = random.Random(seed)
    Hash = aiootp.keygens.passcrypt.PasscryptHash
    for case in batch:
        s = {k: case[k] for k in ("mb", "cpu", "cores")}

        def tried(call):
            try:
                return call()
            except (ValueError, TypeError):
                return None

        made = tried(lambda: Passcrypt(**s, tag_size=case["tag"], salt_size=case["salt"]))
        if (made is not None) != case["ok"]:
            raise core.Violation(f"settings were {'accepted' if made else 'refused'}", dict(case=case))
        if min(case["tag"], case["salt"]) < 0:
            continue
        stamp, salt, tag = rng.randbytes(8), rng.randbytes(case["salt"]), rng.randbytes(case["tag"])
        fields = dict(timestamp=stamp, salt=salt, tag=tag, **s)
        parts = tried(lambda: Hash(**fields))
        if (parts is not None) != case["ok"]:
            raise core.Violation(f"a hash was {'accepted' if parts else 'refused'}", dict(case=case))
        if not case["ok"]:
            continue
        text = parts.export_hash()
        if text != stamp + bytes(case["header"]) + salt + tag:
            raise core.Violation("an encoding of another layout", dict(case=case, text=text.hex()))
        back = Hash().import_hash(text)
        got = {k: getattr(back, k) for k in fields}
        if got != fields:
            raise core.Violation("a hash decodes to other values", dict(case=case, got=repr(got)))
        if (back.salt_size, back.tag_size) != (case["salt"], case["tag"]) or back.export_hash() != text:
            raise core.Violation("a decoded hash differs", dict(case=case))
        try:
            back.import_hash(text[:8] + rng.randbytes(len(text) - 8))
        except Exception:
            pass
        if {k: getattr(back, k) for k in fields} != fields:
            raise core.Violation("a decoded hash changed", dict(case=case))
    return len(batch)


def decode_job(batch, seed):
    import aiootp
    from aiootp import Passcrypt

    rng = random.Random(seed)
    do = Sides(rng)
    Hash = aiootp.keygens.passcrypt.PasscryptHash
    for case in batch:
        text = bytearray(rng.randbytes(case["length"]))
        if len(text) > 13:
            text[13] = case["slen"]
        text = bytes(text)
        try:
            parts = Hash().import_hash(text)
            got = 1
        except (ValueError, TypeError):
            got = 0
        if got != case["ok"]:
            raise core.Violation(f"a string was {'decoded' if got else 'refused'}", dict(case=case, text=text.hex()))
        if got:
            n = 14 + case["salt"]
            want = (text[:8], int.from_bytes(text[8:11], "big") + 1, text[11] + 1, text[12] + 1, text[14:n], text[n:])
            if (parts.timestamp, parts.mb, parts.cpu, parts.cores, parts.salt, parts.tag) != want:
                raise core.Violation("a string decodes to other values", dict(case=case, text=text.hex()))
            if parts.export_hash() != text:
                raise core.Violation("a decoded string encodes to another", dict(case=case, text=text.hex()))
        else:
            # verifying such a string does no work either
            Recorder.asked = 0
            got, why = outcome(lambda: do(Passcrypt, "verify", text, bytes(20)))
            if got != "malformed" or Recorder.asked:
                raise core.Violation(f"verifying a malformed hash came to {got!r}", dict(case=case, why=repr(why)))
    return len(batch)


def limits_job(batch, seed):
    from aiootp import Passcrypt

    rng = random.Random(seed)
    do = Sides(rng)
    for case in batch:
        s = {k: case[k] for k in ("mb", "cpu", "cores")}
        faketime.set(NOW)
        Recorder.asked = 0
        made = do(Passcrypt(tag_size=16, **s), "hash_passphrase", bytes(12))
        if Recorder.asked != s["cores"]:
            raise core.Violation(
                f"hashing for {s['cores']} cores asked for {Recorder.asked} workers", dict(case=case)
            )
        # the recorder's results are not those of the tag's making
        made = flip_bit(made, 8 * len(made) - 1)
        kw = {}
        if case["range"] != "default":
            for name, (a, b) in zip(("mb", "cpu", "cores"), case["ranges"]):
                kw[name + "_allowed"] = range(a, b)
        faketime.set(NOW + 2 * 10**9)
        kw["ttl"] = 2 if case["fresh"] else 1
        Recorder.asked = 0
        got, why = outcome(lambda: do(Passcrypt, "verify", made, bytes(12), **kw))
        want = ["expired"] if not case["fresh"] else ["wrong"] if case["allowed"] else ["asks too much"]
        if not case["fresh"] and not case["allowed"]:
            want.append("asks too much")
        if got not in want:
            raise core.Violation(f"a hash asking for resources came to {got!r}", dict(case=case, why=repr(why)))
        if got != "wrong" and Recorder.asked:
            raise core.Violation("work was begun for a refused hash", dict(case=case))
        if got == "asks too much":
            r = why.requested_resources
            if (r.mb, r.cpu, r.cores) != (s["mb"], s["cpu"], s["cores"]):
                raise core.Violation("the error names other resources", dict(case=case, got=repr(r)))
    faketime.set(NOW)
    return len(batch)


def inputs_job(seed):
    """Passphrases, salts and associated data of every size and kind."""
    from aiootp import Passcrypt

    rng = random.Random(seed)
    do = Sides(rng)
    obj = Passcrypt(mb=1, cpu=1, cores=2, tag_size=16)
    n = 0

    def check(ok, name, *a, **kw):
        nonlocal n
        n += 1
        Recorder.asked = 0
        try:
            do(obj, name, *a, **kw)
            got = True
        except (ValueError, TypeError) as e:
            got = False
        if got != ok:
            raise core.Violation(
                f"{name} was {'carried out' if got else 'refused'}", dict(args=repr(a)[:300], kw=repr(kw))
            )
        if not got and Recorder.asked:
            raise core.Violation("work was begun for refused arguments", dict(args=repr(a)[:300], kw=repr(kw)))

    for size in (*range(30), 100, 1000):
        word = rng.randbytes(size)
        check(size >= 12, "new", word, bytes(8))
        check(size >= 12, "hash_passphrase", word)
        check(False, "hash_passphrase", rng.choice([bytearray(word), memoryview(word), word.hex(), size]))
    for size in (*range(20), *range(250, 260), 1000):
        salt = rng.randbytes(size)
        check(4 <= size <= 256, "new", bytes(12), salt)
        check(False, "new", bytes(12), rng.choice([bytearray(salt), memoryview(salt), salt.hex(), size]))
    for aad in (b"", b"x", bytes(1000)):
        check(True, "new", bytes(12), bytes(8), aad=aad)
        check(True, "hash_passphrase", bytes(12), aad=aad)
    for aad in ("x", 5, None):
        check(False, "new", bytes(12), bytes(8), aad=aad)
        check(False, "hash_passphrase", bytes(12), aad=aad)
    # settings of other types
    for name, good in dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=8).items():
        for bad in (True, False, float(good), str(good), None, bytes([good]), 2**70, -(2**70)):
            if name == "tag_size" and bad == 2**70:
                continue
            n += 1
            s = dict(mb=1, cpu=1, cores=1, tag_size=16, salt_size=8)
            s[name] = bad
            try:
                Passcrypt(**s)
            except (ValueError, TypeError):
                continue
            raise core.Violation(f"{name}={bad!r} was accepted", None)
    return n


def check_K03(ctx):
    if ctx.tier == "quick":
        mbs, cpus, counts = "{0, 1, 2, 256, 257, 65536, 65537, 16777216, 16777217}", "{0, 1, 2, 255, 256, 257}", "{0, 1, 4, 256, 257}"
    else:
        mbs = "{0, 1, 2, 3, 255, 256, 257, 511, 512, 65535, 65536, 65537, 16777215, 16777216, 16777217, 20000000}"
        cpus = counts = "{0, 1, 2, 3, 127, 128, 254, 255, 256, 257}"
    found = cases(
        ctx, "PassFormat",
        constants=dict(Mbs=mbs, Cpus=cpus, Cores=counts, Tags="{0, 15, 16, 17, 1000}", Salts="{0, 3, 4, 5, 255, 256, 257}"),
    )
    work = [("format_job", found)]
    lengths = [*range(61), *range(260, 301), 1000]
    slens = ctx.pick([*range(13), 30, 100, 127, 128, 254, 255], range(256))
    as_set = lambda numbers: "{%s}" % ", ".join(map(str, numbers))
    work.append((
        "decode_job",
        cases(ctx, "PassDecode", constants=dict(Lengths=as_set(lengths), Slens=as_set(slens))),
    ))
    work.append(("limits_job", cases(ctx, "PassLimits")))
    for name, found in work:
        ctx.rng.shuffle(found)
        ctx.sample(found[0])
        jobs = [(found[i : i + 200], ctx.rng.random()) for i in range(0, len(found), 200)]
        for j, k in zip(jobs, parallel.run("passcrypt", name, jobs, patch="passcrypt_stub")):
            for c in j[0]:
                ctx.count(json.dumps(c), 1)
            ctx.traces += k
    jobs = [(ctx.rng.random(),) for _ in range(4)]
    for k in parallel.run("passcrypt", "inputs_job", jobs, patch="passcrypt_stub"):
        ctx.count("inputs", k)
    ctx.exhaustive = True
