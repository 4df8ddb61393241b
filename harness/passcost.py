"""K07: the memory and hashing one password hash takes."""

import hashlib
import json
import random
import threading
import tracemalloc

from . import core, parallel, passcrypt
from .ciphers import cases

real = hashlib.shake_128


class Counted:
    """A shake_128 object that notes what passes through it."""

    took = []
    lock = threading.Lock()
    name, digest_size, block_size = real().name, real().digest_size, real().block_size

    def __init__(self, data=b"", *, of=None, **kw):
        self._of = real(data, **kw) if of is None else of
        self._sums = [0, 0, 0]  # absorbed, squeezed, largest squeezed at once
        with Counted.lock:
            Counted.took.append(self._sums)

    def update(self, data, /):
        self._sums[0] += len(data)
        return self._of.update(data)

    def digest(self, length, /):
        self._sums[1] += length
        self._sums[2] = max(self._sums[2], length)
        return self._of.digest(length)

    def hexdigest(self, length, /):
        self._sums[1] += length
        return self._of.hexdigest(length)

    def copy(self):
        return Counted(of=self._of.copy())


def install():
    passcrypt.install()
    hashlib.shake_128 = Counted


def cost_job(batch, seed):
    from aiootp import Passcrypt

    rng = random.Random(seed)
    do = passcrypt.Sides(rng)
    allowed = dict(mb_allowed=range(1, 500), cpu_allowed=range(1, 257), cores_allowed=range(1, 257))
    for case in batch:
        s = {k: case[k] for k in ("mb", "cpu", "cores")}
        way, obj = case["way"], Passcrypt(**s, tag_size=rng.choice([16, 32, 300]))
        word, salt, n = rng.randbytes(20), rng.randbytes(8), case["cores"]
        made = obj.hash_passphrase(word) if "verify" in way else None
        Counted.took.clear()
        tracemalloc.start()
        if way.startswith("a"):
            run, pre = do.loop.run_until_complete, "a"
        else:
            run, pre = (lambda x: x), ""
        if made is not None:
            run(getattr(Passcrypt, pre + "verify")(made, word, **allowed))
        elif "hash" in way:
            run(getattr(obj, pre + "hash_passphrase")(word))
        else:
            run(getattr(obj, pre + "new")(word, salt))
        peak = tracemalloc.get_traced_memory()[1]
        tracemalloc.stop()
        took = sorted(Counted.took, reverse=True)
        # what is not the workers' is a few small values
        slack = 200_000
        least = case["memory"] * case["passes"]
        workers = [t for t in took if t[0] > slack]
        note = dict(case=case, took=took[: n + 2], peak=peak)
        if len(workers) != n:
            raise core.Violation(f"{len(workers)} of {n} workers worked", note)
        for absorbed, squeezed, most in workers:
            if not least - case["loose"] <= absorbed <= least + slack:
                raise core.Violation("the hashing done is not what the settings ask for", note)
            if not 2 * case["memory"] <= squeezed <= 2 * case["memory"] + slack:
                raise core.Violation("the memory filled is not what the settings ask for", note)
        if peak < case["memory"]:
            raise core.Violation("less memory was held than the settings ask for", note)
    return len(batch)


def check_K07(ctx):
    found = cases(
        ctx, "PassCost",
        constants=dict(
            Mbs=ctx.pick("{1, 2, 3, 5, 16, 65, 130}", "{1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 65, 130, 300}"),
            Cpus=ctx.pick("{1, 2, 3, 4, 5, 8, 33, 256}", "{1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33, 100, 255, 256}"),
            Cores=ctx.pick("{1, 2, 3, 9}", "{1, 2, 3, 4, 5, 8, 9, 40}"),
            Most="700",
        ),
    )
    ctx.rng.shuffle(found)
    if ctx.quick:
        # all that are light, and of the others some with each setting's value
        light = [c for c in found if c["memory"] * c["cores"] * c["passes"] < 50 << 20]
        some = {(k, c[k], i): c for k in ("mb", "cpu", "cores") for i in range(2) for c in found[i::2] if c not in light}
        found = light + list({json.dumps(c): c for c in some.values()}.values())
        ctx.rng.shuffle(found)
    ctx.sample(found[0])
    jobs = [(found[i : i + 6], ctx.rng.random()) for i in range(0, len(found), 6)]
    for j, k in zip(jobs, parallel.run("passcost", "cost_job", jobs, patch="passcost")):
        for c in j[0]:
            ctx.count(json.dumps(c), 1)
        ctx.traces += k
    ctx.exhaustive = not ctx.quick
