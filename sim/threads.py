"""Real threads under a simulated scheduler.

Every simulated thread is a real one, but at most one runs at any time: it holds the baton, and
gives it up only at a scheduling point (a line of pyNTM about to be executed, or a point the
harness names).  Who goes on, and for how many points, is decided by the schedule: drawn from a
seed, or given as a script of [thread, points] segments.  What was decided is recorded, so that
the recorded script replays the execution exactly."""

import sys
import threading

from . import env
from .core import HarnessError, SimAbort, Violation, rng

STEP_BUDGET = 3_000_000
LAST = []           # script of the last run, for the minimiser
ACTIVE = [None]     # the scheduler that is running


class Schedule:
    """Segments: which thread runs for how many points."""

    def __init__(self, spec):
        self.script = [list(x) for x in spec["script"]] if "script" in spec else None
        self.pos = 0
        if self.script is None:
            self.rng = rng("sched", spec["seed"])
            self.mode = spec["mode"]
            self.scale = spec.get("scale", 2000)

    def next(self, alive, me):
        """(thread, points), thread in alive."""
        if self.script is not None:
            while self.pos < len(self.script):
                t, n = self.script[self.pos]
                self.pos += 1
                if t in alive:
                    return t, n
            return (me if me in alive else min(alive)), STEP_BUDGET
        r = self.rng
        others = sorted(x for x in alive if x != me)
        if me in alive and (not others or r.random() < 0.1):
            t = me
        else:
            t = r.choice(others)
        if self.mode == "fine":
            n = r.choice([1, 1, 1, 2, 3, 5, 20])
        elif self.mode == "op":
            n = 1
        elif self.mode == "round":
            n = self.scale // 20 + 1
        elif self.mode == "long":
            n = r.choice([r.randint(1, self.scale), STEP_BUDGET])
        else:
            n = int(self.scale ** r.random())
        return t, max(1, n)


class _Thread:
    def __init__(self, tid, fn, ctx):
        self.tid, self.fn, self.ctx = tid, fn, ctx
        self.go = threading.Lock()
        self.go.acquire()
        self.done = False
        self.error = None
        self.result = None
        self.blocked = False


class Scheduler:
    def __init__(self, fns, sched, ctxs=None, lines=True, tracing=True):
        self.schedule = Schedule(sched)
        ctxs = ctxs or [None] * len(fns)
        self.threads = [_Thread(i, f, c) for i, (f, c) in enumerate(zip(fns, ctxs))]
        # by_op: switches only where the harness names a point
        self.by_op = not lines
        self.tracing = tracing      # or the threads' functions turn it on and off themselves
        self.steps = 0
        self.script = []
        self.cur = None
        self.left = 0
        self.abort = False
        self.over_budget = False
        self.deadlock = False
        self.main = threading.Lock()
        self.main.acquire()
        self.switches = 0
        self.faults = {}        # step of a thread's own count -> exception
        self.own = [0] * len(fns)
        self.fired = {}
        self.places = set()

    # ---- tracing, in the simulated threads
    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(env.PKG):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line" and frame.f_lineno is not None:
            self.point(frame)
        return self._local

    def trace(self):
        sys.settrace(self._global)

    def point(self, frame=None):
        """A scheduling point of the running thread."""
        if self.abort:
            raise SimAbort()
        t = self.cur
        self.steps += 1
        self.own[t.tid] += 1
        if self.steps > STEP_BUDGET:
            self.over_budget = self.abort = True
            raise SimAbort()
        f = self.faults.get(t.tid)
        if f is not None and frame is not None and self.own[t.tid] >= f[0]:
            del self.faults[t.tid]
            self.fired[t.tid] = f[1]
            raise f[1]
        if frame is not None and self.by_op:
            return
        self.left -= 1
        if self.left <= 0:
            if frame is not None:
                self.places.add((frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno))
            self.switch(t)

    def block(self):
        """The running thread waits for something another one holds."""
        t = self.cur
        t.blocked = True
        if all(x.done or x.blocked for x in self.threads):
            self.deadlock = self.abort = True
            raise SimAbort()
        self.switch(t)

    def unblock(self):
        for x in self.threads:
            x.blocked = False

    def switch(self, t):
        alive = [x.tid for x in self.threads if not x.done and not x.blocked]
        if not alive:
            alive = [x.tid for x in self.threads if not x.done]
        tid, n = self.schedule.next(alive, t.tid if t is not None else None)
        self.script.append([tid, n])
        self.left = n
        to = self.threads[tid]
        if to is t:
            return
        self.switches += 1
        self.cur = to
        if to.ctx is not None:
            to.ctx.activate()
        to.go.release()
        if t is not None:
            t.go.acquire()
            if self.abort:
                raise SimAbort()

    def _finish(self, t):
        t.done = True
        rest = [x for x in self.threads if not x.done]
        if not rest:
            self.main.release()
            return
        if self.abort:
            # let the others come to their end, one after the other
            self.cur = rest[0]
            rest[0].go.release()
            return
        self.unblock()
        # hand over without waiting
        tid, n = self.schedule.next([x.tid for x in rest], None)
        self.script.append([tid, n])
        self.left = n
        self.switches += 1
        to = self.threads[tid]
        self.cur = to
        if to.ctx is not None:
            to.ctx.activate()
        to.go.release()

    def _body(self, t):
        t.go.acquire()
        try:
            if self.abort:
                raise SimAbort()
            if self.tracing:
                self.trace()
            t.result = t.fn()
        except BaseException as e:
            t.error = e
        finally:
            sys.settrace(None)
            self._finish(t)

    def run(self):
        """Run all threads to the end.  Their results, or the first error by thread number."""
        if ACTIVE[0] is not None:
            raise HarnessError("one scheduler at a time")
        ACTIVE[0] = self
        real = []
        try:
            for t in self.threads:
                th = threading.Thread(target=self._body, args=(t,), daemon=True)
                th.start()
                real.append(th)
            self.switch(None)
            try:
                self.main.acquire()
            except BaseException:
                # the watchdog: unwind the threads, then let it go on
                self.abort = True
                self.main.acquire(timeout=10)
                raise
            for th in real:
                th.join()
        finally:
            ACTIVE[0] = None
            LAST[:] = [[list(x) for x in self.script]]
        if self.over_budget:
            raise Violation("no-progress", "the threads have not finished after {} steps".format(STEP_BUDGET))
        if self.deadlock:
            raise Violation("deadlock", "every thread waits for another one")
        for t in self.threads:
            if t.error is not None and not isinstance(t.error, SimAbort):
                raise t.error
        return [t.result for t in self.threads]


class SimLock:
    """Stands for threading.Lock and RLock in the code under test."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        s = ACTIVE[0]
        me = s.cur.tid if s is not None else -1
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            if s is None:
                raise Violation("deadlock", "a lock is taken twice and nobody can release it")
            s.block()
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            if ACTIVE[0] is not None:
                ACTIVE[0].unblock()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


_LOCKS = (type(threading.Lock()), type(threading.RLock()))


def install_locks():
    """Locks of the pyNTM modules go behind the seam (none exist at the pinned commit)."""
    import types
    for modname, mod in list(sys.modules.items()):
        if mod is None or not (modname == "pyNTM" or modname.startswith("pyNTM.")):
            continue
        spaces = [mod] + [v for v in vars(mod).values() if isinstance(v, type) and v.__module__ == modname]
        for space in spaces:
            for name, val in list(vars(space).items()):
                if val is threading:
                    shim = types.SimpleNamespace(**{k: getattr(threading, k) for k in dir(threading)
                                                    if not k.startswith("__")})
                    shim.Lock = SimLock
                    shim.RLock = lambda: SimLock(True)
                    setattr(space, name, shim)
                elif val is threading.Lock:
                    setattr(space, name, SimLock)
                elif val is threading.RLock:
                    setattr(space, name, lambda: SimLock(True))
                elif isinstance(val, _LOCKS):
                    setattr(space, name, SimLock(isinstance(val, _LOCKS[1])))
