"""K04: package signer and verifier."""

import asyncio
import copy
import hashlib
import json
import random
import shutil

from . import core, parallel
from .ciphers import cases
from .keys import flip_bit

CHEAP = dict(mb=1, cpu=1, cores=1)


def signer_job(steps, seed):
    import aiootp
    from aiootp import Ed25519, PackageSigner, PackageVerifier

    E = aiootp._exceptions
    rng = random.Random(seed)
    root = core.scratch() / f"pkg-{rng.getrandbits(60)}"
    root.mkdir()
    keys = {k: Ed25519().generate() for k in (1, 2)}
    name = rng.choice(["pkg", "my package", "é"])
    versions = {1: "1.0", 2: rng.choice(["1.1", "", "1.0 "])}
    filename = rng.choice(["a.py", "sub/b.txt", "_c", "__init__.py", "é", "a b"])
    contents = {f: rng.randbytes(rng.choice([0, 1, 300])) + bytes([f]) for f in (1, 2, 3)}
    creds = {0: {}, 1: dict(mail="a@b", n=[1, {"z": 1, "a": None}]), 2: dict(mail="c", n=[])}
    scopes = dict(date=rng.choice([None, 1, 19000])) if rng.random() < 0.5 else {}
    extra = dict(build=rng.choice([1, "x", [1, 2], {"k": {"b": 1, "a": 2}}])) if rng.random() < 0.5 else {}
    scopes.update(extra)
    who = dict(username=b"user", passphrase=b"a long passphrase", path=root, **CHEAP)
    if rng.random() < 0.5:
        who["salt"] = rng.randbytes(32)
    credentials = rng.choice([(), (b"more",), (b"more", b"yet")])
    make = lambda: PackageSigner(name, versions[1], **scopes)

    def stranger(what):
        kw, given, package = dict(who), credentials, name
        if what in ("username", "passphrase"):
            kw[what] += b"x"
        elif what == "salt":
            kw[what] = rng.randbytes(32) if rng.random() < 0.5 or what not in who else b""
        elif what == "credentials":
            given += (rng.choice([b"x", b"\0"]),)
        elif what == "fewer":
            given = given[1:] if given else (b"more",)
        elif what == "path":
            kw["path"] = root / f"other-{rng.getrandbits(60)}"
            kw["path"].mkdir()
        elif what == "cost":
            kw["cpu"] += 1
        elif what == "package":
            package += "x"
        return PackageSigner(package, versions[1], **scopes).connect_to_secure_database(*given, **kw).signing_key
    signer = make()
    log = []
    state = dict(key=0, file=0, cred=0, ver=1)

    def stop(what):
        raise core.Violation(what, dict(history=log))

    def summary():
        got = signer.summarize()
        want = dict(
            checksums={filename: hashlib.sha384(contents[state["file"]]).hexdigest()} if state["file"] else {},
            public_credentials=creds[state["cred"]] if state["cred"] else {},
            signing_key=keys[state["key"]].public_bytes.hex(),
        )
        for k, v in want.items():
            if got.get(k) != v:
                stop(f"the summary's {k} is not what was set")
        scope = got["scope"]
        if scope.get("package") != name or scope.get("version") != versions[state["ver"]]:
            stop("the summary names another package or version")
        if any(scope.get(k, stop) != v for k, v in extra.items()):
            stop("the summary's scope is not what was set")
        if scope["date"] != scopes["date"] if scopes.get("date") else not isinstance(scope["date"], int):
            stop("the summary's date is not what was set")
        body = {k: v for k, v in got.items() if k not in ("checksum", "signature")}
        digest = hashlib.sha384(json.dumps(body).encode()).digest()
        if got["checksum"] != digest.hex():
            stop("the summary's checksum does not match it")
        try:
            keys[state["key"]].verify(bytes.fromhex(got["signature"]), digest)
        except Ed25519.InvalidSignature:
            stop("a summary was handed out whose signature does not match")
        form = rng.choice([lambda: got, lambda: json.dumps(got), lambda: json.dumps(got, indent=2).encode()])()
        public = keys[state["key"]]
        public = rng.choice([public, public.public_bytes, public.public_key])
        PackageVerifier(public, verify_files=False).verify_summary(form)
        try:
            PackageVerifier(keys[3 - state["key"]], verify_files=False).verify_summary(form)
        except Exception:
            return
        stop("a summary verified with another key")

    for a in steps:
        op, x = a["op"], a["x"]
        log.append([op, x, a["res"]])
        res = "ok"
        try:
            if op == "connect":
                signer.connect_to_secure_database(*credentials, **who)
            elif op == "key":
                k = keys[x]
                signer.update_signing_key(rng.choice([k, k.secret_bytes, k.secret_key]))
            elif op == "badkey":
                bad = Ed25519().import_public_key(keys[2].public_bytes)
                bad = rng.choice([bad, keys[2].public_key, b"x" * 31, "x" * 32, None])
                signer.update_signing_key(bad)
            elif op == "file":
                signer.add_file(filename, contents[x])
            elif op == "cred":
                signer.update_public_credentials(**creds[x])
            elif op == "version":
                signer.update_scope(version=versions[x])
            elif op == "sign":
                signer.sign_package()
            elif op == "summarize":
                summary()
            elif op == "readkey":
                if signer.signing_key.secret_bytes != keys[state["key"]].secret_bytes:
                    stop("the signing key is another")
            elif op == "save":
                signer.db.save_database()
            elif op == "reopen":
                signer = make()
                signer.connect_to_secure_database(*credentials, **who)
                state.update(file=0, ver=1)
            elif op == "stranger":
                stranger(x)
                stop(f"a signer opened with another {x} reached the signing key")
            names = dict(key="key", file="file", cred="cred", version="ver")
            if op in names:
                state[names[op]] = x
        except core.Violation:
            raise
        except E.DatabaseNotConnected:
            res = "no database"
        except E.SigningKeyNotSet:
            res = "no key"
        except E.PackageNotSigned:
            res = "not signed"
        except (ValueError, TypeError, AttributeError) as e:
            res = "unsynced" if op == "summarize" and isinstance(e, ValueError) else "refused"
            log[-1].append(repr(e)[:100])
        if op == "badkey" and res in ("no database", "refused"):
            res = "refused"
        if res != a["res"]:
            stop(f"{op} came to {res!r} instead of {a['res']!r}")
    shutil.rmtree(root)
    return len(steps)


def verify_job(batch, seed):
    from aiootp import Ed25519, PackageSigner, PackageVerifier

    rng = random.Random(seed)
    root = core.scratch() / f"ver-{rng.getrandbits(60)}"
    root.mkdir()
    owner, thief, other = (Ed25519().generate() for _ in range(3))
    files = {"a.py": rng.randbytes(200), "sub/b é.txt": rng.randbytes(1), "_c": rng.randbytes(7), "d": b"d"}

    def lay(state):
        top = root / state
        data = dict(files)
        one = rng.choice(list(files))
        if state == "flip":
            data[one] = flip_bit(data[one], rng.randrange(8 * len(data[one])))
        elif state == "cut":
            data[one] = data[one][:-1]
        elif state == "longer":
            data[one] += rng.choice([b"\0", b"\n"])
        elif state == "empty":
            data[one] = b""
        elif state == "missing":
            del data[one]
        elif state == "swapped":
            data["a.py"], data["_c"] = data["_c"], data["a.py"]
        elif state == "more":
            data["more"] = b"more"
        for name, content in data.items():
            (top / name).parent.mkdir(parents=True, exist_ok=True)
            (top / name).write_bytes(content)
        return top

    places = {s: lay(s) for s in ("same", "flip", "cut", "longer", "missing", "empty", "swapped", "more")}

    def hashed(summary):
        body = {k: v for k, v in summary.items() if k not in ("checksum", "signature")}
        return hashlib.sha384(json.dumps(body).encode()).digest()

    signer = PackageSigner("pkg", "1.0", extra=[1, {"a": 2}], other="x")
    signer.connect_to_secure_database(username=b"u", passphrase=b"a long passphrase", path=root, **CHEAP)
    signer.update_signing_key(owner).update_public_credentials(mail="a@b", name="n")
    for name, content in files.items():
        signer.add_file(name, content)
    base = signer.sign_package().summarize()
    verifiers = {}

    def change(s, part):
        some = rng.choice(list(files))
        if part == "checksum of file":
            s["checksums"][some] = flip_bit(bytes.fromhex(s["checksums"][some]), rng.randrange(384)).hex()
        elif part == "name of file":
            s["checksums"][some + "x"] = s["checksums"].pop(some)
        elif part == "file added":
            s["checksums"]["more"] = hashlib.sha384(b"more").hexdigest()
        elif part == "file dropped":
            del s["checksums"][some]
        elif part == "files emptied":
            s["checksums"] = {}
        elif part == "credential":
            s["public_credentials"]["mail"] = rng.choice(["a@c", "", None, ["a@b"]])
        elif part == "credential added":
            s["public_credentials"]["zz"] = "1"
        elif part == "credential dropped":
            del s["public_credentials"]["mail"]
        elif part in ("package", "version"):
            s["scope"][part] += rng.choice(["x", " ", "\0"])
        elif part == "date":
            s["scope"]["date"] += 1
        elif part == "scope added":
            s["scope"]["zz"] = 1
        elif part == "scope dropped":
            del s["scope"]["other"]
        elif part == "extra":
            s["scope"]["extra"] = rng.choice([[1, {"a": 3}], [1], [{"a": 2}, 1], None])
        elif part == "signing key":
            s["signing_key"] = rng.choice([
                other.public_bytes.hex(), flip_bit(owner.public_bytes, rng.randrange(256)).hex(), "",
            ])
        elif part == "field added":
            s[rng.choice(["zz", "0", ""])] = 1

    def last(s, part):
        if part == "checksum":
            s["checksum"] = rng.choice([
                flip_bit(bytes.fromhex(s["checksum"]), rng.randrange(384)).hex(), s["checksum"][2:], s["checksum"] + "00", "",
            ])
        elif part == "signature":
            s["signature"] = rng.choice([
                flip_bit(bytes.fromhex(s["signature"]), rng.randrange(512)).hex(), s["signature"][2:], s["signature"] + "00", "",
            ])
        elif part.startswith("no "):
            del s[dict(zip(
                ("no checksum", "no signature", "no signing key", "no files"),
                ("checksum", "signature", "signing_key", "checksums"),
            ))[part]]

    for case in batch:
        s = copy.deepcopy(base)
        change(s, case["part"])
        if case["redone"] == "signature and key":
            s["signing_key"] = thief.public_bytes.hex()
        if case["redone"] != "nothing":
            s["checksum"] = hashed(s).hex()
        if case["redone"].startswith("signature"):
            s["signature"] = thief.sign(bytes.fromhex(s["checksum"])).hex()
        last(s, case["part"])
        form = dict(dict=lambda: s, text=lambda: json.dumps(s), bytes=lambda: json.dumps(s).encode())[case["form"]]()
        before = copy.deepcopy(form)
        key = dict(signer=owner, adversary=thief, other=other)[case["expects"]]
        where = (case["expects"], case["looks"] and case["files"])
        if where not in verifiers or rng.random() < 0.2:
            given = rng.choice([key, key.public_bytes, key.public_key])
            kw = dict(verify_files=False)
            if case["looks"]:
                place = places[case["files"]]
                kw = dict(path=rng.choice([place, str(place)]))
            verifiers[where] = PackageVerifier(given, **kw)
        try:
            got, why = verifiers[where].verify_summary(form), None
            verdict = "ok" if got is None else repr(got)
        except Exception as e:
            verdict, why = "refused", e
        if case["verdict"] not in (verdict, "open"):
            raise core.Violation(
                f"a package summary was {'accepted' if verdict == 'ok' else verdict}", dict(case=case, why=repr(why), summary=s)
            )
        if form != before:
            raise core.Violation("verifying changed the summary", dict(case=case))
    shutil.rmtree(root)
    return len(batch)


def check_K04(ctx):
    g = core.explore(
        ctx, "PackageSigner",
        constants=dict(Keys="{1, 2}", Files=ctx.pick("{1, 2}", "{1, 2, 3}"), Creds=ctx.pick("{1}", "{1, 2}")),
    )
    jobs = [
        ([a for a, *_ in steps], ctx.rng.random())
        for root, steps in g.paths(ctx.rng, max_len=40)
    ]
    ctx.sample(jobs[0][0])
    for j, k in zip(jobs, parallel.run("packages", "signer_job", jobs, patch="profiles")):
        ctx.count(json.dumps(j[0]), k)
        ctx.traces += 1
    found = cases(ctx, "PackageVerify")
    good = [c for c in found if c["verdict"] == "ok"]
    todo = found * ctx.pick(1, 5) + good * 20
    ctx.rng.shuffle(todo)
    ctx.sample(todo[0])
    jobs = [(todo[i : i + 300], ctx.rng.random()) for i in range(0, len(todo), 300)]
    for j, k in zip(jobs, parallel.run("packages", "verify_job", jobs, patch="profiles")):
        for c in j[0]:
            ctx.count(json.dumps(c), 1)
        ctx.traces += k
    ctx.exhaustive = True
