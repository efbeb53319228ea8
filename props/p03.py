from sim import audit, hist_prop

TITLE = "conservation of traffic"
LEVEL = "exploration"
RUNS = 28000
RULE = ("seeded random networks (LSPs, shortcuts, parallel links, fractional traffic) and histories; after each "
        "completed simulation the traffic of each demand is followed path by path and the whole network is "
        "balanced.  A case counts when at least one demand is routed; distinct = distinct state snapshot")
NEED = ["audited:conservation", "op:fail_int", "faults-fired"]


def gen(r, i, tier):
    kw = {"frac": r.random() < 0.3, "lsps": r.choice([True, "always"]),
          "shortcuts": r.choice([True, "always"])}
    if tier == "thorough" and r.random() < 0.3:
        kw["nmax"] = 11
    return hist_prop.plan(r, kw)


def execute(plan, log, stats):
    hist_prop.execute(plan, log, stats, [lambda w, s: audit.conservation(w.ref, s, stats)])


shrink = hist_prop.shrink
