"""Controlled clock and sleeps, for R03."""

from .randoms import install_sleep

install = install_sleep.install
