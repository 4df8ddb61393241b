"""Lets a harness set the wall clock that the code under test reads."""

import time

real = time.time_ns
now = None


def install():
    def time_ns():
        return real() if now is None else now

    time.time_ns = time_ns


def set(ns):
    global now
    now = ns
