from sim import audit, hist_prop

TITLE = "reservation accounting"
LEVEL = "exploration"
RUNS = 28000
RULE = ("seeded random networks with contending LSPs and histories; after each completed simulation the "
        "reservations of the LSPs and of the interfaces are recomputed from each other.  A case counts when at "
        "least one demand is routed; distinct = distinct state snapshot")
NEED = ["probe:shared-interface", "probe:unrouted-lsp", "op:lsp_bw", "faults-fired"]


def gen(r, i, tier):
    kw = {"frac": r.random() < 0.3, "lsps": "always",
          "contention": r.choice(["some", "heavy", "heavy"]), "shortcuts": r.random() < 0.2}
    if tier == "thorough" and r.random() < 0.3:
        kw["nmax"] = 11
    return hist_prop.plan(r, kw, hist_prop.scaled(load=2))


def execute(plan, log, stats):
    def check(w, s):
        audit.reservations(w.ref, s, stats)
    hist_prop.execute(plan, log, stats, [check])


shrink = hist_prop.shrink
