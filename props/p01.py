from sim import audit, hist_prop

TITLE = "interface load is hop-by-hop ECMP routing of the demands"
LEVEL = "exploration"
RUNS = 30000
RULE = ("seeded random networks and histories of failures, restorations, configuration changes, aborted "
        "and completed simulations; after each completed simulation the traffic on every interface is "
        "compared with a hop-by-hop reference router.  A case counts when at least one demand is routed; "
        "distinct = distinct (traffic, reservations, LSP paths, demand paths) snapshot")
NEED = ["probe:loaded-network", "audited:loads", "op:fail_int", "op:unfail_srlg", "faults-fired"]


def gen(r, i, tier):
    kw = {}
    mode = r.random()
    if mode < 0.25:
        kw["lsps"] = False
    elif mode < 0.35:
        kw["frac"] = True
    kw["shortcuts"] = r.random() < 0.15
    if tier == "thorough" and r.random() < 0.3:
        kw["nmax"] = 12
    return hist_prop.plan(r, kw, hist_prop.scaled(fail=1.5), shortcuts=kw["shortcuts"])


def execute(plan, log, stats):
    hist_prop.execute(plan, log, stats, [lambda w, s: audit.loads(w.ref, s, stats)])


shrink = hist_prop.shrink
