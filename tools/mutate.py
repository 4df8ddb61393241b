#!/usr/bin/env python3
"""
mutate.py PROPS FILE OLD NEW — runs checks against a scratch copy of /repo in
which the first occurrence of OLD in aiootp/FILE is replaced by NEW.
"""
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

root = pathlib.Path(__file__).resolve().parent.parent


def mutate(props, edits, tier="quick", seed="1"):
    """Returns {property: exit code} for the given edits [(file, old, new)]."""
    top = pathlib.Path(tempfile.mkdtemp(prefix="mut-", dir="/tmp"))
    out = {}
    try:
        copy = top / "repo"
        shutil.copytree(os.environ.get("VERIF_REPO", "/repo"), copy, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        for file, old, new in edits:
            p = copy / "aiootp" / file
            text = p.read_text()
            if old not in text:
                raise SystemExit(f"{old!r} not in {file}")
            p.write_text(text.replace(old, new, 1))
        env = dict(os.environ, VERIF_REPO=str(copy), VERIF_SEED=seed)
        for prop in props:
            r = subprocess.run(
                [str(root / "bin/check"), prop, "--tier", tier],
                env=env, capture_output=True, text=True, cwd=root,
            )
            out[prop] = r.returncode
            lines = [l for l in (r.stdout + r.stderr).splitlines() if l.strip()]
            print(prop, r.returncode, " | ".join(lines[:2])[:300])
    finally:
        shutil.rmtree(top)
    return out


if __name__ == "__main__":
    props, file, old, new = sys.argv[1:5]
    mutate(props.split(","), [(file, old, new)])
