"""Controlled randomness.

Every source of operating-system randomness the code under test can reach is
replaced by a deterministic stream, so that an execution is a function of the
choices the explorer made (a requirement of stateless model checking: a
violating schedule must replay).  `install()` must run before Cryptodome is
imported, because `Cryptodome.Random` binds `os.urandom` at import.

The stream can also be scripted: `RNG.script` is a function (n) -> bytes or
None; this is how the explorer drives the environment (leading zero octets,
all-ones, repeated outputs) as one more nondeterministic choice.
"""
import contextlib
import hashlib
import os
import random

_real_urandom = os.urandom


class _Rng(object):
    def __init__(self):
        self.seed = b"0"
        self.ctr = 0
        self.script = None
        self.log = None
        self.real = False

    def reset(self, seed=b"0"):
        self.seed = seed if isinstance(seed, bytes) else str(seed).encode()
        self.ctr = 0
        self.script = None
        self.log = None
        self.real = False

    def urandom(self, n):
        if self.real:
            return _real_urandom(n)
        out = None
        if self.script is not None:
            out = self.script(n)
        if out is None:
            out = b""
            while len(out) < n:
                self.ctr += 1
                out += hashlib.sha512(
                    self.seed + b"|%d" % self.ctr).digest()
            out = out[:n]
        if self.log is not None:
            self.log.append(out)
        return out


    @contextlib.contextmanager
    def aside(self):
        """what happens here (filling caches) takes nothing from the stream"""
        old = self.__dict__.copy()
        self.reset(b"aside")
        try:
            yield
        finally:
            self.__dict__.update(old)


RNG = _Rng()
_pid = os.getpid()


def _urandom(n):
    return RNG.urandom(n)


def install():
    os.urandom = _urandom
    random._urandom = _urandom
