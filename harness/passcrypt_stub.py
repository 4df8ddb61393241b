"""Password hashing with a process pool that only records."""

from .passcrypt import stubbed

install = stubbed.install
