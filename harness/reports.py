"""Q01: reports of security issues."""

import base64
import builtins
import contextlib
import getpass
import io
import json
import random
import shutil
import sys

from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey, X25519PublicKey
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

from . import core, parallel, profiles

# the key SECURITY.md gives; in the copy, one whose secret is known takes its place
PUBLISHED = "4457276dbcae91cc5b69f1aed4384b9eb6f933343bb44d9ed8a80e2ce438a450"
TAKER = X25519PrivateKey.from_private_bytes(bytes(range(7, 39)))
TAKER_PUBLIC = TAKER.public_key().public_bytes_raw()
LETTERS = "abcdefghijklmnop é'\"\\{}:,\t"


class Dialog:
    """Answers the prompts, and notes which way each was asked."""

    def __init__(self):
        self.script = []

    def ask(self, how, prompt):
        want, answer = self.script.pop(0) if self.script else ("nothing", "")
        if want != how:
            raise core.Violation(f"{how} was asked for instead of {want}", dict(prompt=str(prompt)))
        return answer


dialog = Dialog()


def install():
    """The package is used from a copy, as it keeps its database in its own directory."""
    profiles.install()
    top = core.scratch() / "copy"
    shutil.copytree(core.REPO / "aiootp", top / "aiootp", ignore=shutil.ignore_patterns("__pycache__", "db"))
    (top / "aiootp" / "db").mkdir()
    for path in top.rglob("*.py"):
        text = path.read_text()
        if PUBLISHED in text:
            path.write_text(text.replace(PUBLISHED, TAKER_PUBLIC.hex()))
    sys.path.insert(0, str(top))
    getpass.getpass = lambda prompt="", stream=None: dialog.ask("a hidden answer", prompt)
    builtins.input = lambda prompt="": dialog.ask("an answer", prompt)


def report_job(steps, seed):
    import aiootp
    from aiootp import Chunky2048, Database, DomainKDF, Domains, X25519
    from aiootp.asynchs import Clock
    from aiootp.generics import canonical_unpack

    if not aiootp.__file__.startswith(str(core.scratch())):
        raise core.CheckError("the package is not used from the copy")
    if aiootp.__PUBLIC_X25519_KEY__ not in (PUBLISHED, TAKER_PUBLIC.hex()):
        raise core.Violation("reports are encrypted for another key than the published one", {})
    for module in list(sys.modules.values()):
        if getattr(module, "__PUBLIC_X25519_KEY__", "") == PUBLISHED:
            module.__PUBLIC_X25519_KEY__ = TAKER_PUBLIC.hex()
    rng = random.Random(seed)
    text = lambda n: "".join(rng.choices(LETTERS, k=n))
    users = {u: dict(mail=f"{u}-{rng.getrandbits(60)}@é", word=text(20), mb=rng.choice([1, 1, 2])) for u in (1, 2, 3)}
    if rng.random() < 0.5:
        users[2]["mail"] = users[1]["mail"]
    log, publics = [], {}

    def stop(what, **more):
        raise core.Violation(what, dict(history=log, **more))

    def urlsafe(value):
        return base64.urlsafe_b64decode(value + "=" * (-len(value) % 4))

    def run(stdin):
        out = io.StringIO()
        old, sys.stdin = sys.stdin, io.StringIO(stdin)
        try:
            with contextlib.redirect_stdout(out):
                got = aiootp.report_security_issue()
        finally:
            sys.stdin = old
        if got is not None or dialog.script:
            stop("the dialog ended early", left=repr(dialog.script))
        return out.getvalue()

    def stored():
        top = core.scratch() / "copy"
        return {str(p): p.read_bytes() for p in top.rglob("*") if p.is_file() and p.suffix != ".pyc"}

    def look(u, keeps):
        who = users[u]
        db = Database.generate_profile(
            username=who["mail"].encode(), passphrase=who["word"].encode(), salt=TAKER_PUBLIC,
            aad=b"aiootp_security_issue_reports", mb=who["mb"], preload=True,
        )
        tokens = (db["conversation"] or {}).get("period_keys", [])
        secrets = [db.read_token(t.encode(), aad=b"period_key") for t in tokens]
        got = [X25519().import_secret_key(s).public_bytes for s in secrets]
        if got != [publics[k] for k in keeps]:
            names = {v: k for k, v in publics.items()}
            stop(f"of a user's keys {[names.get(g) for g in got]} are kept instead of {keeps}")
        return secrets

    for a in steps:
        op, u, way = a["op"], a["u"], a["way"]
        log.append([op, u, way])
        if op == "decline":
            dialog.script = [("an answer", way)]
            files = stored()
            if run("a message"):
                stop("something was shown after declining")
            if stored() != files:
                stop("something was stored after declining")
        elif op == "look":
            look(u, a["keeps"])
        elif op == "report":
            who = users[u]
            message = "".join(text(rng.choice([0, 1, 30, 500])) + "\n" for _ in range(rng.choice([0, 1, 3])))
            message += text(rng.choice([0, 5]))
            mb = str(who["mb"])
            script = [rng.choice(["y", "yes", " Y "])]
            if "no number" in way:
                script += [rng.choice(["", "x", "1.5", "1 gb"])]
            if "reconsidered" in way:
                script += [str(rng.choice([7, 300])), rng.choice(["n", "No", " n"])]
            if way == "below one" and who["mb"] == 1:
                mb = rng.choice(["0", "-5"])
            script += [rng.choice([mb, f" {mb} "]), rng.choice(["y", "", "Y"]), who["mail"]]
            dialog.script = [("an answer", s) for s in script] + [("a hidden answer", who["word"])]
            days = [Clock("days").make_timestamp(size=4)]
            shown = run(message)
            days.append(Clock("days").make_timestamp(size=4))
            if message.strip() and len(message) > 20 and message in shown or who["word"] in shown:
                stop("the message or the passphrase was shown", shown=shown)
            try:
                start = shown.index("{\n")
                sent, _ = json.JSONDecoder().raw_decode(shown[start:])
                date, public, siv, box = (urlsafe(sent[k]) for k in ("date", "public_key", "siv", "encrypted_message"))
            except (ValueError, KeyError) as e:
                stop("what is shown is no report", shown=shown, why=repr(e))
            if date not in days:
                stop("a report has another date", date=date.hex(), days=days[0].hex())
            kdf = DomainKDF(
                Domains.USER, date, public, TAKER_PUBLIC, key=TAKER.exchange(X25519PublicKey.from_public_bytes(public))
            )
            key = kdf.sha3_256(siv, aad=Domains.ENCRYPTION_KEY)
            try:
                plain = ChaCha20Poly1305(key).decrypt(siv[:12], box, siv)
            except Exception as e:
                stop("a report does not decrypt", why=repr(e))
            if kdf.sha3_256(plain, aad=Domains.SIV) != siv:
                stop("a report's message is not the one its siv was made of")
            got = canonical_unpack(Chunky2048._padding.depad_plaintext(plain))
            got = [bytes(x) for x in got]
            if got != [who["mail"].encode(), message.encode()]:
                stop("a report decrypts to another message", got=repr(got), message=message)
            if public in publics.values():
                stop("two reports share a key")
            publics[len(publics) + 1] = public
            for s in look(u, a["keeps"]):
                forms = s.hex(), repr(s)[2:-1], base64.b64encode(s).decode()[:42], base64.urlsafe_b64encode(s).decode()[:42]
                if any(f in shown for f in forms):
                    stop("a secret key was shown")
    return len(steps)


def check_Q01(ctx):
    g = core.explore(
        ctx, "Report", constants=dict(Users="{1, 2}", Reports=ctx.pick(5, 6), Most=4)
    )
    jobs = [([a for a, *_ in steps], ctx.rng.random()) for root, steps in g.paths(ctx.rng, max_len=30)]
    ctx.sample(jobs[0][0])
    for j, k in zip(jobs, parallel.run("reports", "report_job", jobs, patch="reports", timeout=ctx.pick(700, 3000))):
        ctx.count(json.dumps(j[0]), k)
        ctx.traces += 1
    ctx.exhaustive = True
