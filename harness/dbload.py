"""D08: loading what a database has stored."""

import asyncio
import json
import pathlib
import random
import shutil
import tempfile

from . import ciphers, core, parallel, profiles

SLOTS = dict(t=(), x=("m",), y=("m", "n"))
install = profiles.install


def load_job(cases, sync, seed):
    from aiootp import AsyncDatabase, Database

    rng = random.Random(seed)
    loop = asyncio.new_event_loop()
    run = loop.run_until_complete
    done = 0

    async def opened(key, path, **kw):
        return await AsyncDatabase(key, path=path, **kw)

    def make(key, path, **kw):
        return Database(key, path=path, **kw) if sync else run(opened(key, path, **kw))

    def profile(path, **kw):
        creds = dict(username=b"name", passphrase=b"correct horse", mb=1, cpu=1, cores=1, path=path)
        return Database.generate_profile(**creds, **kw) if sync else run(AsyncDatabase.agenerate_profile(**creds, **kw))

    def do(db, name, *a, **kw):
        return getattr(db, name)(*a, **kw) if sync else run(getattr(db, "a" + name)(*a, **kw))

    def at(db, slot):
        for name in SLOTS[slot]:
            db = getattr(db, name)
        return db

    for case in cases:
        call, silent = case["call"], case["silent"]
        how = {} if silent == "default" else dict(silent=silent == "yes")
        top = tempfile.mkdtemp()

        def stop(what, **more):
            raise core.Violation(what, dict(case=case, sync=sync, **more))

        try:
            key = rng.randbytes(64)
            values = {s: rng.choice([rng.randbytes(9), "text", 0, [1, 2], {}]) for s in SLOTS}
            db = profile(top) if call == "profile" else make(key, top)
            do(do(db, "metatag", "m"), "metatag", "n")
            for s, v in values.items():
                at(db, s)[s] = v
            do(db, "save_database")
            paths = {s: pathlib.Path(top) / do(at(db, s), "filename", s) for s in SLOTS}
            if call not in ("open", "open only", "profile"):
                db = make(key, top)
                for s in case["had"]:
                    do(at(db, s), "query_tag", s, cache=True)
            for s in case["lost"]:
                paths[s].unlink()
            files = {p: p.read_bytes() for p in pathlib.Path(top).rglob("*") if p.is_file()}
            try:
                if call == "tags":
                    do(db, "load_tags", **how)
                elif call == "metatags":
                    do(db, "load_metatags", **how)
                elif call == "metatags only":
                    do(db, "load_metatags", preload=False, **how)
                elif call == "database":
                    do(db, "load_database", **dict(how, **rng.choice([{}, dict(preload=True), dict(manifest=True)])))
                elif call == "database only":
                    do(db, "load_database", preload=False, **how)
                elif call == "inner database":
                    do(db.m, "load_database", **how)
                elif call == "open":
                    db = make(key, top, preload=True, **how)
                elif call == "open only":
                    db = make(key, top, **dict(how, **rng.choice([{}, dict(preload=False)])))
                else:
                    db = profile(top, preload=True)
            except LookupError as e:
                if not case["fails"]:
                    stop("loading failed", error=repr(e))
            else:
                if case["fails"]:
                    stop("loading did not tell of a lost file")
                found = {}
                for s in SLOTS:
                    got = at(db, s)[s]
                    if got is not None and (got != values[s] or type(got) is not type(values[s])):
                        stop("another value was loaded", slot=s, got=repr(got))
                    if got is not None:
                        found[s] = got
                if set(found) != set(case["after"]):
                    stop(f"the values of {sorted(found)} are loaded instead of {sorted(case['after'])}")
            if files != {p: p.read_bytes() for p in pathlib.Path(top).rglob("*") if p.is_file()}:
                stop("loading changed files")
            done += 1
        finally:
            shutil.rmtree(top, ignore_errors=True)
    return done


def check_D08(ctx):
    cases = ciphers.cases(ctx, "DbLoad") * ctx.pick(1, 8)
    ctx.rng.shuffle(cases)
    ctx.sample(cases[0])
    jobs = [(cases[i : i + 20], sync, ctx.rng.random()) for sync in (True, False) for i in range(0, len(cases), 20)]
    for j, k in zip(jobs, parallel.run("dbload", "load_job", jobs, patch="dbload", timeout=ctx.pick(700, 3000))):
        for c in j[0]:
            ctx.count(json.dumps([c, j[1]]), 1)
        ctx.traces += k
    ctx.exhaustive = True
