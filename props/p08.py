from sim import audit, gen as G, hist_prop

TITLE = "failure state machine"
LEVEL = "exploration"
RUNS = 28000
RULE = ("seeded random networks and histories dense in failures and restorations of interfaces, nodes and "
        "shared-risk groups (overlapping causes, group membership changes, requests that must be refused, "
        "elements added to failed surroundings, simulations cut short in between); after every single request the "
        "failure state, group membership and failed/non-failed lists are compared with the reference state "
        "machine.  A case counts when at least one demand is routed at a simulation; distinct = distinct state "
        "snapshot, with the failure state of every element")
NEED = ["op:fail_int", "op:unfail_int", "op:fail_node", "op:unfail_node", "op:fail_srlg", "op:unfail_srlg",
        "op:srlg_rm_int", "op:srlg_rm_node", "probe:refused-restore", "probe:held-by-two", "op:add_circuit"]


def gen(r, i, tier):
    kw = {"lsps": r.random() < 0.4, "shortcuts": False, "demands": (0, 3)}
    mix = dict(G.FAILOPS)
    for k in mix:
        mix[k] *= 2
    mix.update({"add_circuit": 2, "add_node": 1, "rename_int": 1, "del_circuit": 1, "cost": 1, "traffic": 1})
    return hist_prop.plan(r, kw, mix, (4, 26 if tier == "quick" else 60), shortcuts=False,
                          update_p=r.choice([0.0, 0.1, 0.3]))


def execute(plan, log, stats):
    def after_op(w, op, res):
        snap = audit.FailSnap(w)
        audit.invariants(w.ref, snap, w.m)
        audit.failure_state(w.ref, snap, w.m)
        if res == "raised":
            stats.inc("probe:refused-restore")
        r = w.ref
        for ln in r.links.values():
            causes = sum(r.nodes[n]["failed"] for n in (ln["a"], ln["b"])) + sum(
                r.srlgs[s]["failed"] for s in ln["srlgs"])
            if causes > 1:
                stats.inc("probe:held-by-two")
                break
        stats.state(("f", sorted((i, ln["failed"]) for i, ln in r.links.items()),
                     sorted((n, x["failed"]) for n, x in r.nodes.items()),
                     sorted((s, x["failed"]) for s, x in r.srlgs.items())))

    def check(w, s):
        audit.invariants(w.ref, s, w.m)
        audit.failure_state(w.ref, s, w.m)
    hist_prop.execute(plan, log, stats, [check], after_op)


shrink = hist_prop.shrink
