"""K01, K05, K06: exchanges, derivation objects and curve key objects."""

import asyncio
import hashlib
import json
import random

from . import core, parallel
from .ciphers import cases


def flip_bit(data, bit):
    out = bytearray(data)
    out[bit // 8] ^= 1 << bit % 8
    return bytes(out)


class Sides:
    """Calls the sync or the async version of a method, at random."""

    def __init__(self, rng):
        self.rng = rng
        self.loop = asyncio.new_event_loop()

    def __call__(self, obj, name, *a, **kw):
        if self.rng.random() < 0.5:
            return getattr(obj, name)(*a, **kw)
        return self.loop.run_until_complete(getattr(obj, "a" + name)(*a, **kw))


# ---------------------------------------------------------------------- K01

# encodings of points of small order, with which no secret can be shared
LOW = [
    bytes(32),
    (1).to_bytes(32, "little"),
    bytes.fromhex("e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800"),
    bytes.fromhex("5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157"),
    (2**255 - 20).to_bytes(32, "little"),
    (2**255 - 19).to_bytes(32, "little"),
    (2**255 - 18).to_bytes(32, "little"),
]


def outputs(kdf):
    return kdf.sha3_512(), kdf.shake_128(size=24, aad=b"x")


class Pair:
    def __init__(self, rng, n, identity=None):
        import aiootp

        self.X = X = aiootp.X25519
        self.rng, self.n = rng, n
        self.do = Sides(rng)
        self.server_id = self.do(X(), "generate")
        self.client_id = self.do(X(), "generate")
        if n == 2:
            self.client = X.dh2_client()
            self.server = self.server_id.dh2_server()
        else:
            self.client = self.client_id.dh3_client()
            self.server = self.server_id.dh3_server()

    def as_any(self, key):
        """The bytes or the equal key object."""
        if self.rng.random() < 0.5:
            return key
        return self.X.PublicKey.from_public_bytes(key)

    def send(self, id_s):
        got = self.do(self.client, "send", self.as_any(id_s))
        if self.n == 2:
            return None, got
        return got

    def serve(self, id_c, eph_c):
        keys = (eph_c,) if self.n == 2 else (id_c, eph_c)
        kdf = self.do(self.server, "receive", *map(self.as_any, keys))
        return kdf, self.do(self.server, "send")

    def finish(self, eph_s):
        return self.do(self.client, "receive", self.as_any(eph_s))


def exchange_job(batch, seed):
    rng = random.Random(seed)
    for case in batch:
        pair = Pair(rng, case["n"])
        old = Pair(rng, case["n"])
        old_ids, old_c = old.send(pair.server_id.public_bytes)
        old_s = old.serve(old_ids, old_c)[1]
        known = dict(
            Att=pair.do(pair.X(), "generate").public_bytes, OldC=old_c, OldS=old_s,
            IdS=pair.server_id.public_bytes, IdC=pair.client_id.public_bytes,
            Low=rng.choice(LOW),
        )

        def key(term):
            data = known[term[0]]
            return flip_bit(data, 255) if term[1] else data

        failed = False
        try:
            id_c, known["EphC"] = pair.send(key(case["idS"]))
            if pair.n == 3 and id_c != known["IdC"]:
                raise core.Violation("the client sent a wrong identity key", case)
            try:
                server, known["EphS"] = pair.serve(
                    pair.n == 3 and key(case["idC"]), key(case["ephC"])
                )
            except ValueError:
                failed = True
                known["EphS"] = pair.do(pair.X(), "generate").public_bytes
            client = pair.finish(key(case["ephS"]))
        except ValueError:
            failed = True
        if failed:
            if case["agree"] or not low(case):
                raise core.Violation("an exchange failed for no reason", dict(case=case))
            continue
        if low(case):
            raise core.Violation("a key of small order was taken", dict(case=case))
        got = int(outputs(server) == outputs(client))
        if got != case["agree"]:
            raise core.Violation(
                f"the parties' keys {'agree' if got else 'differ'} [{pair.n} keys]",
                dict(case=case, known={k: v.hex() for k, v in known.items()}),
            )
        # not even a part of the outputs may agree
        if not got and any(a == b for a, b in zip(outputs(server), outputs(client))):
            raise core.Violation("some of the keys of differing exchanges agree", dict(case=case))
    return len(batch)


def low(case):
    return any(case[k][0] == "Low" for k in ("idS", "idC", "ephC", "ephS"))


def bits_job(n, part, bits, seed):
    """Every bit of a transmitted key, flipped."""
    rng = random.Random(seed)
    for bit in bits:
        pair = Pair(rng, n)
        change = lambda name, data: flip_bit(data, bit) if name == part else data
        id_c, eph_c = pair.send(change("idS", pair.server_id.public_bytes))
        server, eph_s = pair.serve(id_c and change("idC", id_c), change("ephC", eph_c))
        client = pair.finish(change("ephS", eph_s))
        if any(a == b for a, b in zip(outputs(server), outputs(client))):
            raise core.Violation(f"bit {bit} of {part} does not matter [{n} keys]", None)
    return len(bits)


def object_job(n, steps, seed):
    import aiootp

    rng = random.Random(seed)
    pair = Pair(rng, n)
    log, got, sent = [], {}, {}

    def stop(what):
        raise core.Violation(f"{what} [{n} keys]", dict(history=log))

    def wrong(kind):
        X = pair.X
        return {
            "text": lambda: "x" * 32,
            "short": lambda: rng.randbytes(rng.choice([0, 1, 31])),
            "long": lambda: rng.randbytes(rng.choice([33, 64])),
            "secret": lambda: X().generate().secret_key,
            "number": lambda: 7,
            "nothing": lambda: None,
            "signing": lambda: aiootp.Ed25519().generate().public_key,
            "mutable": lambda: bytearray(X().generate().public_bytes),
        }[kind]()

    def fresh():
        return pair.X().generate().public_bytes

    def call(x, obj, name, *a):
        """One call, or two tasks making it at once of which one may do so."""
        if x != "twice":
            return pair.do(obj, name, *a)

        async def both():
            tasks = (getattr(obj, "a" + name)(*a) for _ in range(2))
            return await asyncio.gather(*tasks, return_exceptions=True)

        done = pair.do.loop.run_until_complete(both())
        ok = [v for v in done if not isinstance(v, BaseException)]
        if len(ok) > 1:
            stop(f"two calls of {name} at once were both carried out")
        if not ok:
            raise done[0]
        return ok[0]

    def do(op, x):
        good = x in ("good", "twice")
        if op == "csend":
            arg = pair.as_any(pair.server_id.public_bytes) if good else wrong(x)
            out = call(x, pair.client, "send", arg)
            sent["c"] = (None, out) if n == 2 else out
        elif op == "creceive":
            arg = pair.as_any(sent.get("s") or fresh()) if good else wrong(x)
            got["c"] = call(x, pair.client, "receive", arg)
        elif op == "sreceive":
            id_c, eph_c = sent.get("c") or (fresh(), fresh())
            args = [id_c, eph_c][-(n - 1):]
            args = [pair.as_any(a) for a in args]
            if not good:
                args[rng.randrange(len(args))] = wrong(x)
            got["s"] = call(x, pair.server, "receive", *args)
            sent["s"] = pair.do(pair.server, "send")
        elif op == "ssend":
            if pair.do(pair.server, "send") != sent["s"]:
                stop("the server's ephemeral key changed")
        elif op == "meddle":
            obj = getattr(pair, x)
            names = [k for k in dir(obj) if k.startswith("_") and k[1] != "_" and hasattr(obj, k)]
            k = rng.choice(names)
            if rng.random() < 0.5:
                setattr(obj, k, rng.choice([None, fresh(), pair.client_id]))
            else:
                delattr(obj, k)

    for a in steps:
        log.append([a["op"], a["x"], a["res"]])
        try:
            do(a["op"], a["x"])
            res = "ok"
        except core.Violation:
            raise
        except Exception as e:
            res = "refused"
            log[-1].append(repr(e)[:100])
        if res != a["res"]:
            stop(f"{a['op']} was {res} instead of {a['res']}")
    return log, {k: outputs(v) for k, v in got.items()}


def check_K01(ctx):
    found = cases(ctx, "DHExchange")
    ctx.rng.shuffle(found)
    honest = [c for c in found if c["agree"]]
    others = [c for c in found if not c["agree"]]
    few = [c for c in others if c["n"] == 2]
    many = [c for c in others if c["n"] == 3]

    def changed(c):
        want = dict(idS="IdS", ephC="EphC", ephS="EphS", idC="IdC")
        return sum(c[k] != [v, 0] for k, v in want.items() if not (c["n"] == 2 and k == "idC"))

    # all single and double replacements, and a share of the rest
    many.sort(key=changed)
    cut = sum(changed(c) <= 2 for c in many)
    many = many[: max(cut, ctx.pick(12000, len(many)))]
    todo = honest * 40 + few + many
    ctx.rng.shuffle(todo)
    ctx.sample(todo[0])
    jobs = [(todo[i : i + 100], ctx.rng.random()) for i in range(0, len(todo), 100)]
    for j, k in zip(jobs, parallel.run("keys", "exchange_job", jobs)):
        for c in j[0]:
            ctx.count(json.dumps(c), 1)
        ctx.traces += k
    jobs = [
        (n, part, range(first, 256, 8), ctx.rng.random())
        for n in (2, 3) for part in ("idS", "ephC", "ephS", "idC") for first in range(8)
        if not (n == 2 and part == "idC")
    ]
    for j, k in zip(jobs, parallel.run("keys", "bits_job", jobs)):
        ctx.count(json.dumps(["bits", *j[:2], list(j[2])]), k)
        ctx.traces += k
    g = core.explore(ctx, "DHObject", constants=dict(Calls=ctx.pick(7, 9)))
    views = [json.loads(v) for v in g.views]
    jobs, ends = [], []
    for n in (2, 3):
        for _ in range(ctx.pick(6, 20)):
            for root, steps in g.paths(ctx.rng, max_len=12):
                jobs.append((n, [a for a, *_ in steps], ctx.rng.random()))
                ends.append(views[steps[-1][1]])
    ctx.sample(jobs[0][:2])
    for j, end, (log, got) in zip(jobs, ends, parallel.run("keys", "object_job", jobs)):
        ctx.count(json.dumps(j[:2]), len(j[1]))
        ctx.traces += 1
        if end["c"] == end["s"] == "done":
            want = end["sawC"] == end["sawS"] == 1
            if (got["c"] == got["s"]) != want:
                raise core.Violation(
                    f"the parties' keys {'differ' if want else 'agree'} [{j[0]} keys]", dict(history=log)
                )
    ctx.exhaustive = True


# ---------------------------------------------------------------------- K06


def key_job(curve, steps, seed):
    import aiootp

    rng = random.Random(seed)
    do = Sides(rng)
    C, Other = (
        (aiootp.Ed25519, aiootp.X25519) if curve == "ed" else (aiootp.X25519, aiootp.Ed25519)
    )
    obj = C()
    peer = C().generate()
    secret = public = None
    log = []

    def stop(what):
        raise core.Violation(f"{what} [{C.__name__}]", dict(history=log))

    def value(kind, secretly):
        k = C().generate()
        raw = k.secret_bytes if secretly else k.public_bytes
        o = Other().generate()
        return {
            "bytes": lambda: raw,
            "object": lambda: k.secret_key if secretly else k.public_key,
            "short": lambda: raw[: rng.choice([1, 31])],
            "long": lambda: raw + raw[: rng.choice([1, 32])],
            "empty": lambda: b"",
            "text": lambda: rng.choice(["x" * 32, raw.hex()]),
            "mutable": lambda: bytearray(raw),
            "public object": lambda: k.public_key,
            "secret object": lambda: k.secret_key,
            "other curve": lambda: o.secret_key if secretly else o.public_key,
            "key holder": lambda: k,
            "nothing": lambda: None,
            "number": lambda: rng.choice([0, 32, 1.5]),
        }[kind](), k

    def same(got, want, what):
        if got != want:
            stop(what)

    for a in steps:
        op, x = a["op"], a["x"]
        log.append([op, x, a["res"]])
        made = None
        try:
            if op == "generate":
                same(do(obj, "generate") is obj, True, "generating returned another object")
            elif op in ("secret", "public"):
                arg, made = value(x, op == "secret")
                same(do(obj, f"import_{op}_key", arg) is obj, True, "importing returned another object")
            elif op == "use" and x == "sign":
                data = rng.randbytes(rng.choice([0, 1, 200]))
                sig = do(obj, "sign", data)
                C.PublicKey.from_public_bytes(public).verify(sig, data)
                do(obj, "verify", sig, data)
            elif op == "use" and x.startswith("exchange"):
                arg = peer.public_bytes if x.endswith("bytes") else peer.public_key
                got = do(obj, "exchange", arg)
                same(got, do(peer, "exchange", public), "the exchange does not commute")
                theirs = C.SecretKey.from_private_bytes(secret).exchange(peer.public_key)
                same(got, theirs, "an exchange used another key")
            elif op == "use":
                if rng.random() < 0.5 or x == "dh2":
                    server = getattr(obj, x + "_server")()
                    client = C.dh2_client() if x == "dh2" else peer.dh3_client()
                    id_s = public or C().generate().public_bytes
                else:
                    client, server = obj.dh3_client(), peer.dh3_server()
                    id_s = peer.public_bytes
                first = do(client, "send", id_s)
                one = do(server, "receive", *([first] if x == "dh2" else first))
                two = do(client, "receive", do(server, "send"))
                same(one.sha3_256(), two.sha3_256(), "an exchange's keys differ")
            elif op == "read":
                got = getattr(obj, x)
                same(got, secret if x == "secret_bytes" else public, f"{x} changed")
            elif op == "verify":
                data = rng.randbytes(5)
                if x == "own":
                    key = obj if secret else None
                    if secret:
                        sig = C.SecretKey.from_private_bytes(secret).sign(data)
                    else:
                        sig = peer.sign(data)
                    if secret or not public:
                        do(obj, "verify", sig, data)
                    else:
                        # only the public half is known: the signature of the
                        # key's maker verifies, another's does not
                        do(obj, "verify", maker.sign(data), data)
                        try:
                            do(obj, "verify", sig, data)
                            stop("another's signature was accepted")
                        except C.InvalidSignature:
                            pass
                else:
                    arg = rng.choice([peer.public_bytes, peer.public_key])
                    do(obj, "verify", peer.sign(data), data, public_key=arg)
                    if public:
                        try:
                            stranger = maker if maker else obj
                            do(obj, "verify", stranger.sign(data), data, public_key=arg)
                            stop("a signature verified with another key than the given")
                        except C.InvalidSignature:
                            pass
            elif op == "meddle":
                name = "_public_key" if "public" in x else "_secret_key"
                if rng.random() < 0.3:
                    name = name[1:]
                if x == "init":
                    obj.__init__()
                elif x.startswith("set"):
                    setattr(obj, name, rng.choice([None, getattr(peer, name)]))
                else:
                    delattr(obj, name)
            got = "ok"
        except core.Violation:
            raise
        except Exception as e:
            got = "refused"
            log[-1].append(repr(e)[:100])
        if got != a["res"]:
            stop(f"{op} was {got} instead of {a['res']}")
        if got == "ok" and op in ("generate", "secret", "public"):
            maker = made
            secret = made.secret_bytes if op == "secret" else None
            public = made.public_bytes if made else None
            if op == "generate":
                secret, public = obj.secret_bytes, obj.public_bytes
                want = C.SecretKey.from_private_bytes(secret).public_key()
                same(public, want.public_bytes_raw(), "the halves of a generated key do not match")
        # what it holds is the same after every call
        same(obj.has_secret_key(), secret is not None, "has_secret_key is wrong")
        same(obj.has_public_key(), public is not None, "has_public_key is wrong")
        same(obj.secret_key and obj.secret_bytes, secret, "the secret key changed")
        same(obj.public_key and obj.public_bytes, public, "the public key changed")
        if public:
            twin = C().import_public_key(obj.public_bytes)
            same(twin.public_bytes, public, "exported bytes import to another key")
        if secret:
            twin = C().import_secret_key(obj.secret_bytes)
            same((twin.secret_bytes, twin.public_bytes), (secret, public),
                 "exported bytes import to another key")
    return len(steps)


def use_job(batch, seed):
    """Signatures, messages and keys differing in some part."""
    import aiootp

    rng = random.Random(seed)
    do = Sides(rng)
    C = aiootp.Ed25519
    done = 0

    def change(way, data, other):
        """All the ways to differ, as functions of the right value."""
        if way == "same":
            return [data]
        if way == "flip":
            return [flip_bit(data, i) for i in range(8 * len(data))]
        if way == "cut":
            return [data[:-1], data[1:], data[: len(data) // 2]]
        if way == "longer":
            return [data + b"\0", b"\0" + data, data + data]
        if way == "other":
            return [other]
        if way == "empty":
            return [b""]
        return ["text", None, 5, data.hex()]

    for case in batch:
        key, stranger = C().generate(), C().generate()
        msg = rng.randbytes(rng.choice([1, 2, 40]))
        sig = do(key, "sign", msg)
        sigs = change(case["sig"], sig, rng.choice([C().generate().sign(msg), key.sign(msg + b"x")]))
        msgs = change(case["msg"], msg, rng.randbytes(len(msg)) + b"y")
        keys = change(case["key"], key.public_bytes, stranger.public_bytes)
        lists = [sigs, msgs, keys]
        most = max(len(x) for x in lists)
        for i in range(most):
            s, m, k = (x[i] if i < len(x) else rng.choice(x) for x in lists)
            why = None
            try:
                if k is None or rng.random() < 0.5:
                    do(C().import_public_key(k), "verify", s, m)
                else:
                    do(stranger, "verify", s, m, public_key=k)
                got = 1
            except Exception as e:
                got, why = 0, e
            if got != case["ok"]:
                raise core.Violation(
                    f"a signature was {'accepted' if got else 'refused'}",
                    dict(case=case, i=i, sig=repr(s), msg=repr(m), key=repr(k), why=repr(why)),
                )
            plain = case["key"] == "same" and case["msg"] != "type" and case["sig"] in ("same", "flip", "other")
            if not got and plain and not isinstance(why, C.InvalidSignature):
                raise core.Violation("a wrong signature was not reported as such", dict(case=case, why=repr(why)))
            done += 1
    return done


def check_K06(ctx):
    jobs = []
    for curve in ("ed", "x"):
        g = core.explore(ctx, "KeyObject", constants=dict(Calls=ctx.pick(8, 12), Curve=f'"{curve}"'))
        for _ in range(ctx.pick(8, 30)):
            for root, steps in g.paths(ctx.rng, max_len=14):
                jobs.append((curve, [a for a, *_ in steps], ctx.rng.random()))
    ctx.sample(jobs[0][:2])
    for j, k in zip(jobs, parallel.run("keys", "key_job", jobs)):
        ctx.count(json.dumps(j[:2]), k)
        ctx.traces += 1
    found = cases(ctx, "KeyUse")
    todo = found * ctx.pick(3, 20)
    ctx.rng.shuffle(todo)
    jobs = [(todo[i : i + 30], ctx.rng.random()) for i in range(0, len(todo), 30)]
    for j, k in zip(jobs, parallel.run("keys", "use_job", jobs)):
        for c in j[0]:
            ctx.count(json.dumps(c), 1)
        ctx.traces += k
    ctx.exhaustive = True


# ---------------------------------------------------------------------- K05

# (domain, data, key): the same bytes cut in different places
STARTS = [
    (b"ab", (), b"cd"), (b"a", (), b"bcd"), (b"abc", (), b"d"), (b"", (), b"abcd"), (b"abcd", (), b""),
    (b"cd", (), b"ab"), (b"ab", (b"",), b"cd"), (b"ab", (b"", b""), b"cd"), (b"ab", (b"c",), b"d"),
    (b"ab", (b"cd",), b"cd"), (b"ab", (b"c", b"d"), b"cd"), (b"ab", (b"d", b"c"), b"cd"),
    (b"ab", (b"", b"cd"), b"cd"), (b"ab", (b"cd", b""), b"cd"), (b"a", (b"b", b"cd"), b"cd"),
    (b"ab", (), b"cd\0"), (b"ab\0", (), b"cd"), (b"ab", (b"\0",), b"cd"), (b"\0ab", (), b"cd"),
    (b"ab", (bytes(168),), b"cd"), (b"ab", (bytes(167),), b"cd"), (b"ab", (), b"cd" + bytes(166)),
    (b"ab", (), b"c" * 168), (b"ab", (), b"c" * 169), (b"ab", (), b"c" * 167), (b"ab", (), b"cdab"),
]
# what one update call absorbs
UPDATES = [
    (b"a",), (b"b",), (b"ab",), (b"a", b"b"), (b"b", b"a"), (b"", b"ab"), (b"ab", b""), (b"a", b"", b"b"),
    (b"",), (b"", b""), (b"\0",), (b"a\0",), (b"\0a",), (bytes(168),), (bytes(336),), (b"cd",),
]
OUTPUTS = [
    (method, size, data, aad)
    for method, size in (
        ("sha3_256", None), ("sha3_512", None), ("shake_128", 32), ("shake_128", 64), ("shake_128", 33),
        ("shake_256", 32), ("shake_256", 64), ("shake_256", 200),
    )
    for data, aad in (
        ((), b""), ((b"",), b""), ((b"a",), b""), ((), b"a"), ((b"a", b"b"), b""), ((b"b",), b"a"),
        ((b"ab",), b""), ((), b"ab"), ((b"", b"ab"), b""), ((b"\0",), b""), ((), b"\0"), ((b"b", b"a"), b""),
    )
]


class Outputs:
    """Every output by its name; two names never share one."""

    def __init__(self):
        self.by_name = {}
        self.by_start = {}

    def add(self, name, value):
        if self.by_name.setdefault(name, value) != value:
            raise core.Violation("equal derivations gave different keys", dict(derivation=name))
        # long outputs of other lengths may not begin alike either
        other = self.by_start.setdefault(value[:16], name)
        if other != name:
            raise core.Violation("different derivations gave related keys", dict(one=name, other=other))


def kdf_job(start, steps, seed, final):
    import aiootp

    rng = random.Random(seed)
    do = Sides(rng)
    domain, data, key = STARTS[start - 1]
    objs = {1: aiootp.DomainKDF(domain, *data, key=key)}
    hist = {1: ()}
    out = {}
    log = []

    def output(i, o):
        method, size, data, aad = OUTPUTS[o - 1]
        kw = {} if size is None else dict(size=size)
        if aad or rng.random() < 0.5:
            kw["aad"] = aad
        got = do(objs[i], method, *data, **kw)
        want = size or int(method[-3:]) // 8
        if len(got) != want:
            raise core.Violation(f"{method} gave {len(got)} bytes instead of {want}", dict(history=log))
        name = json.dumps([start, hist[i], o])
        if out.setdefault(name, got) != got:
            raise core.Violation("an object's output changed", dict(history=log, start=STARTS[start - 1], output=OUTPUTS[o - 1]))

    for a in steps:
        op, i, x = a["op"], a["i"], a["x"]
        log.append([op, i, x, a["res"]])
        if op == "update" and x == 0:
            bad = rng.choice([(), ("a",), (b"a", "b"), (None,), (b"a", 7)])
            try:
                do(objs[i], "update", *bad)
            except Exception:
                continue
            raise core.Violation("an update without proper data was taken", dict(data=repr(bad)))
        if op == "update":
            if do(objs[i], "update", *UPDATES[x - 1]) is not objs[i]:
                raise core.Violation("update returned another object", dict(history=log))
            hist[i] += (x,)
        elif op == "copy":
            objs[x] = objs[i].copy()
            if type(objs[x]) is not type(objs[i]):
                raise core.Violation("a copy is of another type", dict(history=log))
            hist[x] = hist[i]
        else:
            output(i, x)
        # now and then every object is looked at
        if rng.random() < 0.3:
            for j in objs:
                output(j, rng.randrange(len(OUTPUTS)) + 1)
    for i in objs:
        for o in final:
            output(i, o)
    return [(k, v) for k, v in out.items()]


def sizes_job(lengths, seed):
    """Inputs of many lengths, in every place, of repetitive bytes."""
    import aiootp

    rng = random.Random(seed)
    do = Sides(rng)
    out = []
    for n in lengths:
        for byte in (b"\0", b"\x01"):
            for place in ("key", "domain", "start", "update", "data", "aad", "hash", "keyed hash"):
                d = dict(key=b"k", domain=b"d", start=b"s", update=b"u", data=b"x", aad=b"a")
                if place not in d and n == 0 and place == "keyed hash":
                    continue
                if byte == b"\x01" and n == 0:
                    continue
                d[place] = byte * n
                if place.endswith("hash"):
                    g = aiootp.generics
                    kw = dict(key=d[place]) if place == "keyed hash" else {}
                    items = () if kw else (d[place],)
                    h = rng.choice(["hash_bytes", "ahash_bytes"])
                    got = g.hash_bytes(*items, **kw) if h[0] == "h" else do.loop.run_until_complete(
                        g.ahash_bytes(*items, **kw))
                    out.append((json.dumps([place, n, byte.hex()]), got))
                    continue
                kdf = aiootp.DomainKDF(d["domain"], d["start"], key=d["key"])
                do(kdf, "update", d["update"])
                for method, kw in (("sha3_256", {}), ("sha3_512", {}), ("shake_128", dict(size=64)), ("shake_256", dict(size=64))):
                    got = do(kdf, method, d["data"], aad=d["aad"], **kw)
                    name = [method, {k: v.hex() for k, v in d.items() if k != "keyed hash" and k != "hash"}]
                    out.append((json.dumps(name), got))
    return out


def check_K05(ctx):
    book = Outputs()
    jobs = []
    # every start with short histories, then long ones and copies of some
    for starts, updates, objects, depth, outs in (
        (len(STARTS), 5, 1, 2, 4),
        (2, len(UPDATES), 1, 2, ctx.pick(12, len(OUTPUTS))),
        (1, 3, 3, ctx.pick(2, 3), 2),
    ):
        g = core.explore(
            ctx, "Kdf",
            constants=dict(Starts=starts, Updates=updates, Objects=objects, Depth=depth, Outputs=outs),
        )
        views = [json.loads(v) for v in g.views]
        final = tuple(range(1, len(OUTPUTS) + 1))
        for root, steps in g.paths(ctx.rng, max_len=30):
            some = final if ctx.rng.random() < 0.1 else tuple(ctx.rng.sample(final, 4))
            jobs.append((views[root]["start"], [a for a, *_ in steps], ctx.rng.random(), some))
    ctx.rng.shuffle(jobs)
    ctx.sample(jobs[0])
    for j, out in zip(jobs, parallel.run("keys", "kdf_job", jobs)):
        ctx.count(json.dumps(j[:2]), len(j[1]))
        ctx.traces += 1
        for name, value in out:
            book.add(name, value)
    top = ctx.pick(345, 700)
    jobs = [(list(range(i, top, 16)), ctx.rng.random()) for i in range(16)]
    for j, out in zip(jobs, parallel.run("keys", "sizes_job", jobs)):
        ctx.count(json.dumps(["sizes", j[0]]), len(out))
        ctx.traces += len(out)
        for name, value in out:
            book.add(name, value)
    ctx.exhaustive = True
