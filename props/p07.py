from sim import audit, hist_prop

TITLE = "IGP shortcuts"
LEVEL = "exploration"
RUNS = 16000
RULE = ("seeded random multipath networks with shortcut nodes and LSPs between transit nodes, and histories; "
        "after each completed simulation paths and loads are compared with the reference.  A case counts when at "
        "least one demand is routed; distinct = distinct state snapshot")
NEED = ["probe:shortcut-demand", "op:sc", "op:lsp_mm", "audited:loads"]


def gen(r, i, tier):
    kw = {"model": r.choice(["flex", "flex", "plm"]), "lsps": "always", "shortcuts": "always", "nmin": 3,
          "contention": r.choice(["none", "none", "some"]), "demands": (2, 7), "frac": r.random() < 0.15, "wide": r.choice([0, 0.8])}
    if tier == "thorough" and r.random() < 0.3:
        kw["nmax"] = 10
    return hist_prop.plan(r, kw, hist_prop.scaled(load=2))


def execute(plan, log, stats):
    def check(w, s):
        audit.demand_paths(w.ref, s, stats)
        audit.loads(w.ref, s, stats)
    hist_prop.execute(plan, log, stats, [check])


shrink = hist_prop.shrink
