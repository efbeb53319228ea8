"""Simulator core: the one PRNG, the event log, the counters, the error classes."""

import hashlib
import json
import random as _random


class HarnessError(Exception):
    """The harness (not the code under test) went wrong."""


class Violation(Exception):
    """A property does not hold.  `cls` is the violation class the minimiser keeps."""

    def __init__(self, cls, msg):
        super().__init__("{}: {}".format(cls, msg))
        self.cls = cls
        self.msg = msg


class SimAbort(BaseException):
    """Never swallowed: raised to unwind simulated threads when a run is torn down."""


def rng(*parts):
    """A PRNG that is a pure function of `parts` (independent of PYTHONHASHSEED)."""
    return _random.Random(":".join(str(p) for p in parts))


def jdump(obj):
    return json.dumps(obj, sort_keys=True, separators=(",", ":"))


class Log:
    """The event log of one run.  Writing to it draws no randomness and reads no clock."""

    def __init__(self):
        self.events = []

    def add(self, *what):
        self.events.append(what)

    def digest(self):
        h = hashlib.sha256()
        for ev in self.events:
            h.update(repr(ev).encode("utf-8", "replace"))
            h.update(b"\n")
        return h.hexdigest()[:24]


class Counters(dict):
    def inc(self, key, n=1):
        self[key] = self.get(key, 0) + n

    def merge(self, other):
        for key, n in other.items():
            self.inc(key, n)


def close(a, b, tol):
    return abs(a - b) <= tol
