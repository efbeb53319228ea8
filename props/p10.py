from sim import audit, env, hist_prop, history, twin
from sim import gen as G
from sim.core import Violation
from sim.world import World

TITLE = "recovery after an aborted simulation"
LEVEL = "exploration"
RUNS = 6000
RULE = ("seeded random networks and histories in which simulations are cut short by an exception raised at a seeded "
        "executed line of pyNTM or networkx, or by failing output; several in a row, edits and failures in between. "
        "After each abort the configuration is compared with the reference; each next completed simulation is "
        "checked in full (paths, loads, conservation, reservations, signalling) and, where the outcome is unique, "
        "against an uninterrupted fresh build.  A case counts when at least one demand is routed; distinct = "
        "distinct state snapshot")
NEED = ["probe:abort-then-update", "probe:abort-abort", "probe:abort-edit-update", "fault:line:KeyboardInterrupt",
        "fault:line:MemoryError", "fault:line:TimeoutError", "fault:line:SystemExit", "fault:stdout:BrokenPipeError",
        "fault:stdout:OSError", "probe:twin-compared", "audited:rsvp-serial"]


def gen(r, i, tier):
    mode = r.choice(["none", "roomy", "free", "free", "single"])
    kw = {"lsps": False if mode == "none" else "always",
          "contention": "heavy" if mode == "single" else None}
    plan = hist_prop.plan(r, kw, hist_prop.scaled(), (2, 10 if tier == "quick" else 24), abort_p=0.0,
                          lsps=mode != "none", update_p=0.3)
    # interleave aborted simulations
    ops = []
    p = r.choice([0.3, 0.6, 0.9])
    for op in plan["ops"]:
        while r.random() < p and len(ops) < 60:
            ops.append(G.aborted(r))
            if r.random() < 0.5:
                break
        ops.append(op)
    plan["ops"] = ops
    if mode in ("roomy", "single"):
        twin.determined(r, plan, mode)
    plan["mode"] = mode
    return plan


def execute(plan, log, stats):
    w = World(plan["spec"], log, stats)
    pending = []
    measured = [False]

    def audits(snap):
        if any(snap.demands.values()):
            stats.state(snap.text)
        audit.config(w)
        audit.demand_paths(w.ref, snap, stats)
        audit.loads(w.ref, snap, stats)
        audit.conservation(w.ref, snap, stats)
        audit.reservations(w.ref, snap, stats)
        audit.rsvp_serial(w.ref, snap, stats)
        if plan["mode"] != "free" and pending:
            _, s2 = twin.fresh(w, plan["salt"] + "/t")
            twin.compare(snap, s2, "after an aborted simulation, against a fresh build")
            stats.inc("probe:twin-compared")

    def completed():
        snap = audit.snapshot(w)
        log.add("snap", snap.text)
        stats.inc("updates")
        audits(snap)
        if "abort" in pending:
            stats.inc("probe:abort-then-update")
            if "edit" in pending[pending.index("abort"):]:
                stats.inc("probe:abort-edit-update")
        del pending[:]

    for op in plan["ops"]:
        if op[0] == "update_x":
            fault = dict(op[1])
            fault["lines"] = w.update_lines
            out = history.apply_interrupted(w, ["update"], fault, log, stats)
            if out == "aborted":
                if pending and pending[-1] == "abort":
                    stats.inc("probe:abort-abort")
                pending.append("abort")
                w.dirty = w.must_update = True
                audit.config(w)
                continue
            if out != "completed":
                raise Violation("refused:update", "update_simulation was refused: {}".format(str(out[1])[:300]))
            if w.fault_fired and not w.fault_in_nx:
                raise Violation("swallowed", "{} raised during the simulation did not reach the caller".format(
                    fault["exc"]))
            w.dirty = w.must_update = False
            w.simulated = True
            completed()
        elif op[0] == "update":
            if not measured[0]:
                history.update(w, log, stats, measure=True)
                measured[0] = True
            else:
                w.apply(op)
            completed()
        else:
            before = w.m
            res = w.apply(op)
            if res == "skip":
                stats.inc("skipped-op")
            else:
                pending.append("edit")
                if not w.must_update and w.simulated and "abort" in pending:
                    # the request made the world simulate first
                    del pending[:]
            assert before is w.m
    w.apply(["update"])
    completed()
    env.STDOUT.disarm()


shrink = hist_prop.shrink
