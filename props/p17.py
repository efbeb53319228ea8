from sim import hist_prop, reports
from sim.core import Violation

TITLE = "lookups, groupings and reports"
LEVEL = "exploration"
RUNS = 14000
RULE = ("seeded random networks and histories; after every operation the answers that do not depend on simulation "
        "results (lookups, lists, membership, refusal of unknown names), and after every completed simulation the "
        "groupings, circuits, per-element reports, diagnostics and printed tables, are compared with the elements' own "
        "state and the reference.  A case counts when at least one demand is routed; distinct = distinct state snapshot")
NEED = ["audited:lookups", "audited:circuits", "audited:element-reports", "audited:lsp-reports", "audited:displays",
        "probe:loaded-lsp"]
ASSUME = ["groupings and reports of simulation results are asked for after a simulation"]


def gen(r, i, tier):
    kw = {"frac": r.random() < 0.15}
    if tier == "thorough" and r.random() < 0.3:
        kw["nmax"] = 10
    return hist_prop.plan(r, kw, hist_prop.scaled(), (2, 12))


def execute(plan, log, stats):
    def after_op(w, op, res):
        if op[0] == "rename_int" and w.answer is not w.intf((op[1], op[2])):
            raise Violation("rename-answer", "change_interface_name to {!r} returned {!r}, not the renamed "
                            "interface".format(op[3], w.answer))
        reports.lookups(w, stats)

    def check(w, s):
        reports.lookups(w, stats)
        reports.circuits(w, stats)
        reports.groups(w, stats)
        reports.on_elements(w, s, stats)
        reports.lsp_metrics(w, s, stats)
        reports.displays(w, stats)
    hist_prop.execute(plan, log, stats, [check], after_op)


shrink = hist_prop.shrink
