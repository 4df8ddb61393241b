"""
Watches what the code under test does to files in one directory.

Wraps the standard library's file functions (before the package under test
is imported). Every change of a watched file is a point at which `hook(what,
path)` is called: after a file was opened for writing (truncated or made),
after part of the data of a write has reached the file, after all of it, and
around permission changes, renames and removals. Reads are reported too.
"""

import builtins
import io
import os
import pathlib

_root = None
_hook = None

_open = io.open
_os = {
    n: getattr(os, n)
    for n in (
        "chmod", "replace", "rename", "remove", "unlink", "mkdir", "rmdir",
        "open", "stat", "link",
    )
}


def watch(root, hook):
    """Reports to `hook` what happens below `root`; None stops."""
    global _root, _hook
    _root = os.path.abspath(root) if root else None
    _hook = hook


def _watched(path):
    if _root is None or not isinstance(path, (str, bytes, os.PathLike)):
        return None
    text = os.path.abspath(os.fsdecode(os.fspath(path)))
    return text if text.startswith(_root + os.sep) else None


def _report(what, path):
    if _hook is not None:
        _hook(what, path)


class _Writes:
    _path = None

    def write(self, data):
        data = bytes(data)
        for part in (data[: len(data) // 2], data[len(data) // 2 :]):
            if part:
                super().write(part)
                super().flush()
                _report("write", self._path)
        return len(data)


class Writer(_Writes, io.BufferedWriter):
    pass


class Random(_Writes, io.BufferedRandom):
    pass


class Reader(io.BufferedReader):
    _path = None

    def read(self, size=-1):
        _report("read", self._path)
        return super().read(size)

    def readinto(self, buffer):
        _report("read", self._path)
        return super().readinto(buffer)


def _watching_open(file, mode="r", *args, **kwargs):
    path = _watched(file)
    if path is None or "b" not in mode:
        return _open(file, mode, *args, **kwargs)
    _report("opening", path)
    raw = io.FileIO(file, mode.replace("b", ""))
    if "+" in mode:
        f = Random(raw)
    elif "r" in mode:
        f = Reader(raw)
    else:
        f = Writer(raw)
    f._path = path
    if "r" not in mode:
        _report("opened", path)
    return f


def _wrap(name):
    real = _os[name]

    def call(*args, **kwargs):
        path = _watched(args[0]) if args else None
        if path is None and len(args) > 1 and name in ("replace", "rename", "link"):
            path = _watched(args[1])
        if path is None:
            return real(*args, **kwargs)
        _report("before " + name, path)
        result = real(*args, **kwargs)
        _report(name, path)
        return result

    call.__name__ = name
    return call


def install():
    builtins.open = io.open = _watching_open
    for name in _os:
        if name not in ("open", "stat"):
            setattr(os, name, _wrap(name))


def image(root):
    """The directory as a crash right now would leave it."""
    out = {}
    for p in pathlib.Path(root).iterdir():
        if p.is_file():
            with _open(p, "rb") as f:
                out[p.name] = f.read()
    return out
