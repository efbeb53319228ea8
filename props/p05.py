from sim import audit, hist_prop

TITLE = "serial signalling explains the LSPs"
LEVEL = "exploration"
RUNS = 26000
RULE = ("seeded random networks with contending LSPs and histories, each under its own hash seed and random "
        "stream (signalling order and path choice); after each completed simulation a search over signalling "
        "orders decides whether one explains the observed LSPs.  A case counts when at least one demand is "
        "routed; distinct = distinct state snapshot")
NEED = ["audited:rsvp-serial", "probe:partly-routed-group", "probe:resignaled-lsp", "op:lsp_bw"]
ASSUME = ["capacities, traffic and bandwidths are multiples for which one-decimal rounding is exact"]


def gen(r, i, tier):
    kw = {"lsps": "always", "contention": r.choice(["some", "heavy", "heavy"]), "shortcuts": False, "rare": 0.12}
    if tier == "thorough" and r.random() < 0.3:
        kw["nmax"] = 10
    return hist_prop.plan(r, kw, hist_prop.scaled(load=2), shortcuts=False)


def execute(plan, log, stats):
    hist_prop.execute(plan, log, stats, [lambda w, s: audit.rsvp_serial(w.ref, s, stats)])


shrink = hist_prop.shrink
