"""
Development helper: turns an edit of a scratch copy of /repo into a planted
bug under /verif/seeded and confirms it (tests pass, demo discriminates),
then says whether the check of its property catches it.
"""
import json
import os
import pathlib
import shutil
import subprocess
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
TEST = pathlib.Path("/opt/vp/test.sh").read_text()


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def copy(name):
    d = pathlib.Path("/tmp/seed") / name
    shutil.rmtree(d, ignore_errors=True)
    d.parent.mkdir(exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", str(d)])
    return d


def tests(d):
    script = d.parent / (d.name + ".sh")
    script.write_text(TEST.replace("/repo", str(d)))
    out = d.parent / (d.name + ".json")
    run(["bash", str(script), str(out)])
    got = json.loads(out.read_text())
    base = json.loads(pathlib.Path("/opt/vp/BASELINE.json").read_text())
    script.unlink()
    out.unlink()
    want = base["stable"]
    names = set(want) if isinstance(want, (list, dict)) else set()
    passed = set(got["passed"]) if isinstance(got.get("passed"), list) else set()
    missing = names - passed
    return missing


def demo(sid, d):
    env = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    with_dir = pathlib.Path("/tmp/seed") / (sid + "-demo")
    shutil.rmtree(with_dir, ignore_errors=True)
    shutil.copytree(ROOT / "seeded" / sid, with_dir)
    for f in ("patch.diff", "meta.json"):
        (with_dir / f).unlink()
    r = subprocess.run(
        ["timeout", "300", "bash", str(with_dir / "demo.sh")], cwd=d, env=env,
        capture_output=True, text=True,
    )
    shutil.rmtree(with_dir)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def confirm(sid, skip_tests=False, prop=None):
    meta = json.loads((ROOT / "seeded" / sid / "meta.json").read_text())
    d = copy(sid)
    try:
        rc0, out0 = demo(sid, d)
        if rc0:
            return f"{sid}: BAD demo fails on the unchanged tree ({rc0}): {out0}"
        r = run(["git", "-C", str(d), "apply", str(ROOT / "seeded" / sid / "patch.diff")])
        if r.returncode:
            return f"{sid}: BAD patch does not apply: {r.stderr}"
        rc1, out1 = demo(sid, d)
        if not rc1:
            return f"{sid}: BAD demo passes with the patch"
        if not skip_tests:
            missing = tests(d)
            if missing:
                return f"{sid}: BAD tests fail: {sorted(missing)[:5]}"
        prop = prop or meta["property"]
        r = run(
            [str(ROOT / "bin" / "check"), prop],
            env={**os.environ, "VERIF_REPO": str(d), "VERIF_SEED": "1"},
        )
        caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        tail = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()][-2:]
        return f"{sid}: ok; {prop} {'CAUGHT' if caught else f'MISSED rc={r.returncode}'} | {tail[0] if tail else ''}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def seed(sid, prop, needs, breaks, edits, program):
    """edits: (file, old, new[, count]); program: Python, exits non-zero if broken."""
    d = copy(sid)
    for file, old, new, *n in edits:
        p = d / file
        s = p.read_text()
        want = n[0] if n else 1
        assert s.count(old) >= 1, (sid, file, "text not found", old)
        assert s.count(old) == want or n, (sid, file, "ambiguous", s.count(old))
        p.write_text(s.replace(old, new, want))
    diff = run(["git", "-C", str(d), "diff", "--", *{e[0] for e in edits}]).stdout
    shutil.rmtree(d)
    out = ROOT / "seeded" / sid
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(diff)
    (out / "demo.py").write_text(program.lstrip("\n"))
    (out / "demo.sh").write_text(
        "#!/bin/bash\n"
        "here=$(cd \"$(dirname \"$0\")\" && pwd)\n"
        "scratch=$(mktemp -d) || exit 9\n"
        "trap 'rm -rf \"$scratch\"' EXIT\n"
        "export SCRATCH=$scratch PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD\n"
        "timeout 250 /opt/venv/bin/python \"$here/demo.py\"\n"
    )
    (out / "meta.json").write_text(
        json.dumps(dict(property=prop, needs=needs, what_it_breaks=breaks), indent=1) + "\n"
    )


if __name__ == "__main__":
    from concurrent.futures import ThreadPoolExecutor

    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    names = args or sorted(p.name for p in (ROOT / "seeded").iterdir())
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "2"))) as pool:
        for line in pool.map(lambda n: confirm(n, "-n" in sys.argv), names):
            print(line, flush=True)
