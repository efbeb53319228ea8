"""The seams.  Everything nondeterministic that pyNTM touches is owned here.

* set / dict iteration order  - PYTHONHASHSEED is chosen by the runner for each worker
  process; classes that hash by object identity (memory address) get a seeded hash.
* random.choice & co          - the module's global generator is re-seeded for each run.
* clock                       - datetime / time names in the pyNTM modules read SimClock.
* stdout                      - SimStdout, which can fail at a chosen write.
* files                       - builtins.open / io.open serve simulated files.
* asynchronous exceptions     - LineTracer raises at a chosen executed line.
* threads                     - sim.threads.
"""

import builtins
import datetime as _dt
import io
import os
import random
import sys
import time as _time
import types

from .core import HarnessError, rng

REPO = os.environ.get("NTM_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import networkx  # noqa: E402

# pyNTM is always compiled from its present source: a .pyc beside it may be stale
sys.dont_write_bytecode = True
_prefix, sys.pycache_prefix = sys.pycache_prefix, "/nonexistent/sim-pycache"
import pyNTM  # noqa: E402
import pyNTM.flex_model  # noqa: E402
import pyNTM.performance_model  # noqa: E402
sys.pycache_prefix = _prefix

PKG = os.path.dirname(os.path.realpath(pyNTM.__file__)) + os.sep
NXDIR = os.path.dirname(os.path.realpath(networkx.__file__)) + os.sep
if not PKG.startswith(os.path.realpath(REPO) + os.sep):
    raise HarnessError("pyNTM was imported from {} and not from {}".format(PKG, REPO))

ModelException = pyNTM.ModelException


# ------------------------------------------------------------------ identity hashes
_HASHES = {}
_SALT = [0]
_COUNT = [0]


def _seeded_hash(self):
    entry = _HASHES.get(id(self))
    if entry is None or entry[0] is not self:
        _COUNT[0] += 1
        x = (_COUNT[0] * 0x9E3779B97F4A7C15 + _SALT[0]) & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 31
        x = (x * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 29
        entry = (self, x >> 3)
        _HASHES[id(self)] = entry
    return entry[1]


PATCHED_HASH = []


def install_hashes():
    for name in dir(pyNTM):
        cls = getattr(pyNTM, name)
        if isinstance(cls, type) and cls.__module__.startswith("pyNTM"):
            if cls.__hash__ is object.__hash__ and not issubclass(cls, BaseException):
                cls.__hash__ = _seeded_hash
                PATCHED_HASH.append(cls.__name__)


# ------------------------------------------------------------------ clock
class SimClock:
    """Simulated wall clock.  Every reading advances it by the next planned delta, which
    may be zero, minutes long, or negative (the clock was stepped back)."""

    def __init__(self):
        self.reset(0, "steady")

    def reset(self, seed, mode):
        self.now = _dt.datetime(2021, 3, 1, 0, 0, 0)
        self.rng = rng("clock", seed)
        self.mode = mode
        self.reads = 0
        self.covered = 0.0
        self.jumps_back = 0

    def read(self):
        self.reads += 1
        if self.mode == "steady":
            d = 0.01
        elif self.mode == "frozen":
            d = 0.0
        else:
            r = self.rng.random()
            if r < 0.3:
                d = -self.rng.choice([0.5, 3600.0, 86400.0 * 30])
                self.jumps_back += 1
            elif r < 0.6:
                d = self.rng.choice([60.0, 86400.0])
            else:
                d = 0.001
        self.covered += abs(d)
        self.now = self.now + _dt.timedelta(seconds=d)
        return self.now


CLOCK = SimClock()


class _SimDatetimeMeta(type(_dt.datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _dt.datetime)


class SimDatetime(_dt.datetime, metaclass=_SimDatetimeMeta):
    @classmethod
    def now(cls, tz=None):
        return CLOCK.read()

    @classmethod
    def utcnow(cls):
        return CLOCK.read()

    @classmethod
    def today(cls):
        return CLOCK.read()


def _sim_seconds():
    return CLOCK.read().timestamp()


def _sim_time_module():
    shim = types.SimpleNamespace(**{k: getattr(_time, k) for k in dir(_time) if not k.startswith("__")})
    for name in ("time", "monotonic", "perf_counter", "process_time"):
        setattr(shim, name, _sim_seconds)
    for name in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        setattr(shim, name, lambda: int(_sim_seconds() * 1e9))
    shim.sleep = lambda s: None
    return shim


def _sim_datetime_module():
    shim = types.SimpleNamespace(**{k: getattr(_dt, k) for k in dir(_dt) if not k.startswith("__")})
    shim.datetime = SimDatetime
    return shim


CLOCK_SEAMS = []


def install_clock():
    for modname, mod in list(sys.modules.items()):
        if mod is None or not (modname == "pyNTM" or modname.startswith("pyNTM.")):
            continue
        for name, val in list(vars(mod).items()):
            if val is _dt.datetime:
                setattr(mod, name, SimDatetime)
            elif val is _dt:
                setattr(mod, name, _sim_datetime_module())
            elif val is _time:
                setattr(mod, name, _sim_time_module())
            elif val in (_time.time, _time.monotonic, _time.perf_counter):
                setattr(mod, name, _sim_seconds)
            else:
                continue
            CLOCK_SEAMS.append("{}.{}".format(modname, name))


# ------------------------------------------------------------------ stdout
class SimStdout(io.TextIOBase):
    """Swallows what pyNTM prints; fails from write number `fail_at` on."""

    encoding = "utf-8"

    def __init__(self):
        self.writes = 0
        self.fail_at = None
        self.exc = None
        self.fired = 0
        self.sticky = True

    def arm(self, fail_at, exc, sticky=True):
        self.writes = 0
        self.fail_at = fail_at
        self.exc = exc
        self.fired = 0
        self.sticky = sticky

    def disarm(self):
        fired, self.fail_at, self.fired = self.fired, None, 0
        return fired

    def writable(self):
        return True

    def write(self, s):
        self.writes += 1
        if self.fail_at is not None and (
            self.writes == self.fail_at or (self.sticky and self.writes > self.fail_at)
        ):
            self.fired += 1
            raise self.exc
        return len(s)

    def flush(self):
        pass


STDOUT = SimStdout()


# ------------------------------------------------------------------ asynchronous exceptions
class LineTracer:
    """Counts executed lines of the code under test (and of networkx when it runs on its
    behalf) and raises `exc` at line number `at`."""

    def __init__(self, at=None, exc=None, budget=None, nx=True):
        self.n = 0
        self.at = at
        self.exc = exc
        self.budget = budget
        self.fired = False
        self.where = None
        self.in_nx = False
        self.prefixes = (PKG, NXDIR) if nx else (PKG,)

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.prefixes):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                self.fired = True
                self.where = "{}:{}".format(
                    os.path.basename(frame.f_code.co_filename), frame.f_code.co_name
                )
                self.in_nx = frame.f_code.co_filename.startswith(NXDIR)
                sys.settrace(None)
                raise self.exc
            if self.budget is not None and self.n > self.budget:
                sys.settrace(None)
                raise LineBudgetExceeded(self.budget)
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class LineBudgetExceeded(BaseException):
    pass


# ------------------------------------------------------------------ files
class _SimRaw(io.RawIOBase):
    def __init__(self, vfs, spec):
        self.vfs = vfs
        self.spec = spec
        self.pos = 0
        self.reads = 0
        self.delivered = bytearray()
        vfs.open_handles += 1
        vfs.streams.append(self)

    def readable(self):
        return True

    def seekable(self):
        return False

    def close(self):
        if not self.closed:
            self.vfs.open_handles -= 1
        super().close()

    def readinto(self, buf):
        self.reads += 1
        data = self.spec["versions"][0]
        for after, idx in self.spec.get("switch", []):
            # a writer rewrote the file in place after that many reads
            if self.reads > after:
                data = self.spec["versions"][idx]
        fail = self.spec.get("fail")
        limit = len(buf)
        chunks = self.spec.get("chunks")
        if chunks:
            limit = min(limit, chunks[(self.reads - 1) % len(chunks)])
        if fail is not None:
            at, exc = fail
            if self.pos >= at:
                self.vfs.fired += 1
                raise exc
            limit = min(limit, at - self.pos)
        piece = data[self.pos:self.pos + limit]
        buf[:len(piece)] = piece
        self.pos += len(piece)
        self.delivered += piece
        return len(piece)


class VFS:
    """Simulated files, by path.  Other paths go to the real open."""

    def __init__(self):
        self.real_open = builtins.open
        self.depth = 0
        self.serial = 0
        self.files = {}
        self.clear()

    def clear(self):
        self.files = {}
        self.open_handles = 0
        self.fired = 0
        self.opens = 0
        self.serial = 0
        self.streams = []

    def new_path(self):
        self.serial += 1
        return "/sim/world{}.csv".format(self.serial)

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
        key = None
        if isinstance(file, (str, os.PathLike)):
            key = os.fspath(file)
        spec = self.files.get(key)
        if spec is None:
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        self.opens += 1
        if spec.get("open_error") is not None:
            self.fired += 1
            raise spec["open_error"]
        if set(mode) - set("rtbU"):
            raise HarnessError("pyNTM opened the model file with mode {!r}".format(mode))
        raw = _SimRaw(self, spec)
        if "b" in mode and buffering == 0:
            return raw
        buf = io.BufferedReader(raw, spec.get("bufsize", 8192))
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline)

    def install(self):
        self.depth += 1
        builtins.open = self.open
        io.open = self.open

    def uninstall(self, force=False):
        self.depth = 0 if force else max(0, self.depth - 1)
        if not self.depth:
            builtins.open = self.real_open
            io.open = self.real_open


VFS = VFS()


# ------------------------------------------------------------------ per run
_installed = []


def install():
    if _installed:
        return
    _installed.append(1)
    install_hashes()
    install_clock()
    from .threads import install_locks
    install_locks()


def begin_run(plan):
    """Reset every seam from the plan (and nothing else)."""
    install()
    Ctx.current = None
    _HASHES.clear()
    _COUNT[0] = 0
    _SALT[0] = rng("salt", plan["salt"]).getrandbits(64)
    random.seed("rand:{}".format(plan["salt"]))
    CLOCK.reset(plan["salt"], plan.get("clock", "steady"))
    STDOUT.disarm()
    VFS.clear()


class quiet_stdout:
    def __enter__(self):
        self.real = sys.stdout
        sys.stdout = STDOUT
        return STDOUT

    def __exit__(self, *a):
        sys.stdout = self.real
        return False


def captured(fn):
    """What fn prints."""
    real, sys.stdout = sys.stdout, io.StringIO()
    try:
        fn()
        return sys.stdout.getvalue()
    finally:
        sys.stdout = real


class Ctx:
    """Iteration-order salt and random stream of one simulated party.  `activate` makes it the
    current one, so that what a party gets does not depend on what the others draw."""

    current = None

    def __init__(self, salt):
        self.salt = rng("salt", salt).getrandbits(64)
        self.count = 0
        self.state = random.Random("rand:{}".format(salt)).getstate()

    def activate(self):
        old = Ctx.current
        if old is self:
            return
        if old is not None:
            old.count = _COUNT[0]
            old.state = random.getstate()
        Ctx.current = self
        _SALT[0], _COUNT[0] = self.salt, self.count
        random.setstate(self.state)


def reseed(salt):
    """New iteration-order salt and random stream, for a second build in the same run."""
    _SALT[0] = rng("salt", salt).getrandbits(64)
    random.seed("rand:{}".format(salt))
