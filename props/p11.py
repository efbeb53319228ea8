from sim import audit, bad, hist_prop, history, reports
from sim.core import Violation
from sim.world import World

TITLE = "rejected changes leave no trace"
LEVEL = "exploration"
RUNS = 9000
RULE = ("seeded random histories with requests the model must reject (unknown or duplicate elements, half circuits, bad "
        "values, restorations of what something else holds down, partly good additions) at seeded points; after each "
        "rejection configuration, failure state, object sets, groups, circuits and simulation results are "
        "compared with what they were, and later requests and simulations with the reference.  A case counts "
        "when at least one demand is routed; distinct = distinct state snapshot")
NEED = ["probe:rejected", "probe:rejected-while-failed"] + ["op:bad:" + k for k in bad.KINDS]


def gen(r, i, tier):
    kw = {"lsps": r.random() < 0.6, "nmin": 3}
    plan = hist_prop.plan(r, kw, hist_prop.scaled(), (2, 10 if tier == "quick" else 30))
    ops = []
    kinds = r.sample(bad.KINDS, r.randint(4, len(bad.KINDS)))
    for op in plan["ops"]:
        ops.append(op)
        while r.random() < 0.6:
            ops.append(["bad", r.choice(kinds), r.randint(0, 10 ** 6)])
    plan["ops"] = ops
    return plan


def state(w):
    """Simulation results and object identities."""
    m = w.m
    snap = audit.snapshot(w)
    return (snap.text, sorted(map(id, m.interface_objects)), sorted(map(id, m.node_objects)),
            sorted(map(id, m.demand_objects)), sorted(map(id, m.rsvp_lsp_objects)),
            sorted(map(id, m.srlg_objects)),
            sorted(snap.detail.items()),
            [w.intf(i).circuit_id for i in sorted(w.ref.iids())] if w.ref.flex else None,
            sorted((n.name, n.lat, n.lon) for n in m.node_objects),
            {k: (w.lsp(k).setup_bandwidth, w.lsp(k).reserved_bandwidth) for k in w.ref.lsps})


def execute(plan, log, stats):
    w = World(plan["spec"], log, stats)

    def check(snap):
        if any(snap.demands.values()):
            stats.state(snap.text)
        audit.demand_paths(w.ref, snap, stats)
        audit.loads(w.ref, snap, stats)
        audit.reservations(w.ref, snap, stats)
        audit.failure_state(w.ref, snap, w.m)
        reports.circuits(w)

    for op in plan["ops"]:
        if op[0] == "bad":
            if w.must_update or not w.simulated:
                w.apply(["update"])
            before = state(w)
            if bad.issue(w, op[1], op[2], stats) == "skip":
                stats.inc("skipped-op")
                continue
            if any(x["failed"] for x in w.ref.links.values()):
                stats.inc("probe:rejected-while-failed")
            audit.config(w)
            reports.circuits(w)
            after = state(w)
            if before != after:
                bad_at = [k for k, (x, y) in enumerate(zip(before, after)) if x != y]
                raise Violation("trace:" + op[1], "rejected request {} changed the model (parts {}): {} -> {}".format(
                    op[1], bad_at, str(before[bad_at[0]])[:250], str(after[bad_at[0]])[:250]))
        elif op[0] == "update_x":
            fault = dict(op[1])
            fault["lines"] = w.update_lines
            if history.apply_interrupted(w, ["update"], fault, log, stats) == "completed":
                w.dirty = w.must_update = False
                w.simulated = True
            else:
                w.dirty = w.must_update = True
        else:
            res = w.apply(op)
            if res == "skip":
                stats.inc("skipped-op")
            elif op[0] == "update":
                stats.inc("updates")
                check(audit.snapshot(w))
            elif res == "raised":
                audit.config(w)


shrink = hist_prop.shrink
