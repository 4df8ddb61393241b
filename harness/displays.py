"""N08: what displays and errors tell about secrets."""

import asyncio
import base64
import json
import random
import string
import traceback

from . import core, parallel


class Secrets:
    """Makes secrets and finds them, or parts of them, in a text."""

    def __init__(self, rng):
        self.rng = rng
        self.made = []

    def __call__(self, size):
        letters = string.ascii_letters + string.digits
        out = "".join(self.rng.choices(letters, k=size)).encode()
        return self.add(out)

    def add(self, value):
        self.made.append(value)
        return value

    def found(self, text):
        for s in self.made:
            if str(int.from_bytes(s, "big")) in text or str(int.from_bytes(s, "little")) in text:
                return s
            for i in range(len(s) - 7):
                part = s[i : i + 8]
                if part.hex() in text or repr(part)[2:-1] in text:
                    return s
            for start in range(3):
                coded = base64.b64encode(s[start:])[: 4 * (len(s[start:]) // 3)].decode()
                if len(coded) >= 16 and (coded[:16] in text or coded.translate({43: 45, 47: 95})[:16] in text):
                    return s


def objects(secret, rng, root, run):
    """Name -> maker of an object that holds the secrets."""
    from aiootp import (
        AsyncDatabase, Chunky2048, Database, DomainKDF, Ed25519, GUID, PackageSigner, Passcrypt, SequenceID, Slick256,
        X25519,
    )

    Cipher = rng.choice([Chunky2048, Slick256])

    def stream():
        s = Cipher(secret(64)).stream_encrypt(aad=b"aad")
        s.buffer(secret(700))
        return s

    def astream():
        async def make():
            s = await Cipher(secret(64)).astream_encrypt(aad=b"aad")
            return await s.abuffer(secret(700))

        return run(make())

    def reader():
        key = secret(64)
        s = Cipher(key).stream_encrypt(aad=b"aad")
        s.buffer(secret(700))
        r = Cipher(key).stream_decrypt(aad=b"aad", salt=s.salt, iv=s.iv)
        for block_id, block in s:
            r.buffer(block_id + block)
        return r

    def shmac():
        s = stream()
        return s.shmac

    def kdf():
        made = DomainKDF(b"domain", secret(20), key=secret(168))
        return made.update(secret(30)) if rng.random() < 0.5 else made

    def curve(cls):
        made = cls().generate() if rng.random() < 0.5 else cls().import_secret_key(secret(32))
        secret.add(made.secret_bytes)
        return made

    def dh(name):
        me, other = curve(X25519), X25519().generate().public_bytes
        made = getattr(me, name.replace(" ", "_"))()
        if "client" in name:
            made.send(other)
        else:
            made.receive(*[other] * (2 if "3" in name else 1))
        return made

    def database():
        path = root / f"db-{rng.getrandbits(60)}"
        path.mkdir()
        db = Database(secret(64), path=path)
        db["tag"] = secret(30).decode()
        db.metatag("meta")["tag"] = secret(30).decode()
        return rng.choice([db, db.meta])

    def adatabase():
        path = root / f"db-{rng.getrandbits(60)}"
        path.mkdir()

        async def make():
            db = await AsyncDatabase(secret(64), path=path)
            db["tag"] = secret(30).decode()
            return db

        return run(make())

    def signer():
        path = root / f"db-{rng.getrandbits(60)}"
        path.mkdir()
        made = PackageSigner("pkg", "1")
        made.connect_to_secure_database(
            username=secret(12), passphrase=secret(16), path=path, mb=1, cpu=1, cores=1,
        )
        return made.update_signing_key(curve(Ed25519))

    def space(cls):
        return cls(key=secret(32), other=secret(16).decode())

    from aiootp.commons.instances import FrozenInstance
    from aiootp.commons.namespaces import FrozenNamespace, Namespace

    class Held(FrozenInstance):
        __slots__ = ("key", "_other")

    return {
        "frozen instance": lambda: Held(key=secret(32), _other=secret(16)),
        "cipher": lambda: Cipher(secret(64)),
        "stream": stream, "async stream": astream, "reading stream": reader, "authenticator": shmac,
        "kdf": kdf,
        "signing key": lambda: curve(Ed25519), "exchange key": lambda: curve(X25519),
        **{name: (lambda n=name: dh(n)) for name in ("dh2 client", "dh2 server", "dh3 client", "dh3 server")},
        "database": database, "async database": adatabase,
        "signer": signer,
        "guid": lambda: GUID(key=secret(GUID.key_size(16)), config_id=16),
        "sequence id": lambda: SequenceID(key=secret(SequenceID.key_size(12)), config_id=12),
        "namespace": lambda: space(Namespace), "frozen namespace": lambda: space(FrozenNamespace),
    }


def calls(secret, rng, root, run):
    """Name -> call that is given secrets and must fail."""
    from aiootp import (
        Chunky2048, Database, DomainKDF, Ed25519, GUID, Passcrypt, SequenceID, Slick256, X25519, bytes_are_equal,
        canonical_pack, mnemonic,
    )

    Cipher = rng.choice([Chunky2048, Slick256])

    def decrypt(kind):
        box = Cipher(secret(64))
        if kind == "token":
            text = box.make_token(secret(40))
            box.read_token(text[:30] + bytes([text[30] ^ 1]) + text[31:])
        elif kind == "other key":
            Cipher(secret(64)).bytes_decrypt(box.bytes_encrypt(secret(40)))
        elif kind == "json":
            text = box.json_encrypt(secret(40).decode())
            box.json_decrypt(text[:-1] + bytes([text[-1] ^ 1]))
        else:
            run(box.abytes_decrypt(box.bytes_encrypt(secret(40))[:-1]))

    def password(kind):
        box = Passcrypt(mb=1, cpu=1, cores=1, tag_size=16)
        if kind == "wrong":
            Passcrypt.verify(box.hash_passphrase(secret(20)), secret(20))
        elif kind == "short":
            box.hash_passphrase(secret(11))
        elif kind == "text":
            box.hash_passphrase(secret(20).decode())
        elif kind == "salt":
            box.new(secret(20), secret(20).decode())
        else:
            run(Passcrypt.averify(box.hash_passphrase(secret(20)), secret(20), aad=secret(16)))

    def profile():
        Database.generate_profile(
            username=secret(12), passphrase=secret(16), salt=secret(20), path=root, mb=1, cpu=1, cores=0,
        )

    return {
        "key of text": lambda: Cipher(secret(64).decode()),
        "short key": lambda: Cipher(secret(63)),
        "plaintext of text": lambda: Cipher(secret(64)).bytes_encrypt(secret(40).decode()),
        "salt of a wrong size": lambda: Cipher(secret(64)).bytes_encrypt(secret(40), salt=secret(20)),
        **{f"decrypt {k}": (lambda k=k: decrypt(k)) for k in ("token", "other key", "json", "cut")},
        **{f"password {k}": (lambda k=k: password(k)) for k in ("wrong", "short", "text", "salt", "async")},
        "profile": profile,
        "kdf key of text": lambda: DomainKDF(b"domain", key=secret(168).decode()),
        "kdf payload of text": lambda: DomainKDF(b"domain", key=secret(168)).update(secret(20).decode()),
        "signing key of a wrong size": lambda: Ed25519().import_secret_key(secret(31)),
        "signing key of text": lambda: Ed25519().import_secret_key(secret(32).decode()),
        "exchange key of a wrong size": lambda: X25519().import_secret_key(secret(33)),
        "second key": lambda: Ed25519().generate().import_secret_key(secret(32)),
        "database key of text": lambda: Database(secret(64).decode(), path=root),
        "short database key": lambda: Database(secret(10), path=root),
        "guid key": lambda: GUID(key=secret(9), config_id=16),
        "sequence id key": lambda: SequenceID(key=secret(9), config_id=12),
        "comparison": lambda: bytes_are_equal(secret(20), secret(20).decode()),
        "packing": lambda: canonical_pack(secret(20), secret(20).decode()),
        "short mnemonic": lambda: mnemonic(secret(5)),
    }


def told(error):
    """All that an error and the errors behind it say."""
    out = []
    while error is not None and len(out) < 20:
        out += [str(error), repr(error), repr(error.args), repr(vars(error))]
        out += [line for line in traceback.format_exception_only(error)]
        error = error.__cause__ or error.__context__
    return "\n".join(out)


def show_job(steps, seed):
    import shutil

    from aiootp._debug_control import DebugControl

    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    root = core.scratch() / f"show-{rng.getrandbits(60)}"
    root.mkdir()
    log = []
    for a in steps:
        log.append([a["op"], a["x"], a["form"]])
        secret = Secrets(rng)
        if a["op"] == "enable":
            DebugControl.enable_debugging(silence_warnings=True)
            continue
        if a["op"] == "disable":
            DebugControl.disable_debugging()
            continue
        if a["op"] == "fail":
            call = calls(secret, rng, root, loop.run_until_complete)[a["x"]]
            try:
                call()
                continue  # whether it is refused is for other properties
            except Exception as e:
                text = told(e)
        else:
            o = objects(secret, rng, root, loop.run_until_complete)[a["x"]]()
            text = dict(
                repr=lambda: repr(o), str=lambda: str(o), format=lambda: f"{o} %s %r" % (o, o),
                container=lambda: repr([o, {1: (o,)}]),
            ).get(a["form"], lambda: told(ValueError(o)))()
        s = secret.found(text)
        if s and a["res"] == "hidden":
            raise core.Violation(
                f"a secret is in the {'error' if a['op'] == 'fail' else 'display'} of: {a['x']}",
                dict(history=log, text=text[:2000], secret=s.hex()),
            )
    DebugControl.disable_debugging()
    shutil.rmtree(root)
    return len(steps)


def check_N08(ctx):
    quoted = lambda names: "{%s}" % ", ".join(f'"{n}"' for n in names)
    g = core.explore(
        ctx, "Displays",
        constants=dict(
            Objects=quoted(names_of("objects")), Calls=quoted(names_of("calls")),
        ),
    )
    jobs = []
    for _ in range(ctx.pick(2, 10)):
        jobs += [([a for a, *_ in steps], ctx.rng.random()) for root, steps in g.paths(ctx.rng, max_len=60)]
    ctx.sample(jobs[0][0][:3])
    for j, k in zip(jobs, parallel.run("displays", "show_job", jobs, patch="profiles")):
        ctx.count(json.dumps(j[0]), k)
        ctx.traces += 1
    ctx.exhaustive = True


def names_of(which):
    return parallel.run("displays", "names_job", [(which,)])[0]


def names_job(which):
    return list(dict(objects=objects, calls=calls)[which](None, random.Random(0), None, None))
