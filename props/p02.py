from sim import audit, hist_prop, reports
from sim.core import Violation

TITLE = "demand path sets"
LEVEL = "exploration"
RUNS = 30000
RULE = ("seeded random networks and histories; after each completed simulation every demand's path set is "
        "compared with all least-cost paths over up interfaces computed by the reference.  A case counts when "
        "at least one demand is routed; distinct = distinct state snapshot")
NEED = ["audited:demand-igp", "audited:demand-none", "probe:ecmp-demand", "op:fail_node", "op:srlg_rm_int"]


def gen(r, i, tier):
    kw = {"shortcuts": False, "wide": 0.12}
    if r.random() < 0.6:
        kw["lsps"] = False
    if tier == "thorough" and r.random() < 0.3:
        kw["nmax"] = 12
    return hist_prop.plan(r, kw, hist_prop.scaled(fail=2, load=0.7), shortcuts=False, length=(3, 18))


def check(w, s, stats):
    audit.demand_paths(w.ref, s, stats, kinds=("igp", "none"))
    down = {i for i in w.ref.iids() if not w.ref.up(i)}
    for key, paths in s.demands.items():
        for p in paths or ():
            if any(i in down for i in audit.items_of(p, s)):
                raise Violation("failed-in-path", "demand {} crosses a failed interface".format(key))
    reports.same("get_unrouted_demand_objects", reports.keys(w.m.get_unrouted_demand_objects(), reports.ckey),
                 sorted(k for k, v in s.demands.items() if v is None))


def execute(plan, log, stats):
    hist_prop.execute(plan, log, stats, [lambda w, s: check(w, s, stats)])


shrink = hist_prop.shrink
