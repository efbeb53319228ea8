"""Running one history: apply ops (some of them interrupted), audit after each update."""

from . import env
from .audit import snapshot
from .core import Violation
from .env import LineTracer
from .world import World

EXCS = {
    "KeyboardInterrupt": lambda: KeyboardInterrupt("sim"),
    "SystemExit": lambda: SystemExit(3),
    "MemoryError": lambda: MemoryError("sim"),
    "TimeoutError": lambda: TimeoutError("sim"),
    "BrokenPipeError": lambda: BrokenPipeError(32, "sim: Broken pipe"),
    "OSError": lambda: OSError(28, "sim: No space left on device"),
}


def apply_interrupted(world, op, fault, log, stats):
    """Run the real side of `op` under `fault`.  Returns 'aborted', 'completed' or
    ('raised', ModelException)."""
    exc = EXCS[fault["exc"]]()
    label = "fault:{}:{}".format(fault["kind"], fault["exc"])
    outcome = "completed"
    if fault["kind"] == "stdout":
        env.STDOUT.arm(fault["at"], exc)
        try:
            with env.quiet_stdout():
                world._apply_real(op)
        except Exception:
            if not env.STDOUT.fired:
                raise
            outcome = "aborted"
        finally:
            fired = env.STDOUT.disarm()
        fired = bool(fired)
        where = "write"
    else:
        at = fault.get("at") or 1 + int(fault["frac"] * fault["lines"])
        tracer = LineTracer(at=at, exc=exc, nx=fault.get("nx", False))
        try:
            with env.quiet_stdout(), tracer:
                world._apply_real(op)
        except BaseException as e:
            if e is exc or (tracer.fired and isinstance(e, Exception)):
                # networkx has a bare except around one statement: an exception injected
                # there comes out as another one
                outcome = "aborted"
            elif isinstance(e, env.ModelException):
                outcome = ("raised", e)
            else:
                raise
        fired = tracer.fired
        where = tracer.where
    world.fault_fired = fired
    world.fault_in_nx = tracer.in_nx if fault["kind"] == "line" else False
    if fired:
        stats.inc(label)
        stats.inc("faults-fired")
        if outcome == "completed":
            stats.inc("fault-swallowed")
    else:
        stats.inc("fault-not-reached")
    log.add("fault", label, fired, where, str(outcome)[:40])
    return outcome


def update(world, log, stats, measure=False):
    if measure:
        t = LineTracer(nx=False)
        with t:
            world.apply(["update"])
        world.update_lines = max(t.n, 50)
    else:
        world.apply(["update"])


def run(plan, log, stats, audits, after_op=None, measure=False):
    """audits: callables (world, snap).  Returns the world."""
    world = World(plan["spec"], log, stats)
    n = 0
    for op in plan["ops"]:
        if op[0] == "update_x":
            fault = dict(op[1])
            fault["lines"] = world.update_lines
            out = apply_interrupted(world, ["update"], fault, log, stats)
            if out == "completed":
                world.dirty = world.must_update = False
                world.simulated = True
            else:
                if out != "aborted":
                    raise Violation("refused:update", "update_simulation was refused: {}".format(
                        str(out[1])[:300]))
                world.dirty = world.must_update = True
                continue
        elif op[0] == "update":
            update(world, log, stats, measure and n == 0)
        else:
            res = world.apply(op)
            if res == "skip":
                stats.inc("skipped-op")
                continue
            if after_op is not None:
                after_op(world, op, res)
            continue
        n += 1
        stats.inc("updates")
        snap = snapshot(world)
        log.add("snap", snap.text)
        for audit in audits:
            audit(world, snap)
    return world
