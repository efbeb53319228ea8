"""A step of a run in a process of its own, forked from one that has not run any of the code under test.

What the step leaves behind in module- or class-level state cannot reach any other step."""

import gc
import os
import pickle
import signal
import sys
import traceback

from . import env
from .core import HarnessError, Violation


def call(fn, stats):
    """fn(stats) in a forked child: its (picklable) result, or its exception."""
    from . import runner
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        out = ("error", "the child did not finish")
        try:
            signal.alarm(0)
            os.close(r)
            gc.disable()
            mine = runner.Stats()
            try:
                out = ("ok", fn(mine))
            except Violation as e:
                out = ("violation", e.cls, e.msg)
            except env.LineBudgetExceeded:
                out = ("budget",)
            except Exception as e:
                where = runner.sut_frame(e.__traceback__, env)
                if where is None or isinstance(e, HarnessError):
                    out = ("error", traceback.format_exc())
                else:
                    out = ("violation", "exception:" + type(e).__name__, "unexpected {} from {}: {}".format(
                        type(e).__name__, where, str(e)[:300]))
            sys.settrace(None)
            out = (out, dict(mine), mine.states, mine.schedules, mine.sim_s + env.CLOCK.covered, env.CLOCK.reads)
            data = pickle.dumps(out)
        except BaseException:
            data = pickle.dumps((("error", traceback.format_exc()), {}, set(), set(), 0.0, 0))
        try:
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(0)
    os.close(w)
    parts = []
    try:
        while True:
            part = os.read(r, 1 << 16)
            if not part:
                break
            parts.append(part)
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not parts:
        raise HarnessError("a forked step died")
    out, counts, states, schedules, sim_s, reads = pickle.loads(b"".join(parts))
    stats.merge(counts)
    stats.states |= states
    stats.schedules |= schedules
    stats.sim_s += sim_s
    stats.inc("clock-reads", reads)
    if out[0] == "ok":
        return out[1]
    if out[0] == "violation":
        raise Violation(out[1], out[2])
    if out[0] == "budget":
        raise env.LineBudgetExceeded()
    raise HarnessError(out[1])
