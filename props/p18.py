from sim import hist_prop, reports

TITLE = "path queries"
LEVEL = "exploration"
RUNS = 24000
RULE = ("seeded random networks and histories; after every operation and every completed simulation a seeded set of "
        "shortest-path, all-paths and routed-LSP queries is compared with an independent search of the reference "
        "network in its present state.  A case counts when at least one demand is routed; distinct = distinct "
        "state snapshot")
NEED = ["audited:query-shortest", "audited:query-all", "audited:query-routed-lsp", "probe:empty-answer",
        "probe:multi-path-answer", "probe:bandwidth-excluded", "probe:query-between-simulations"]


def gen(r, i, tier):
    kw = {"lsps": r.choice([True, "always"]), "contention": r.choice(["some", "heavy"]), "frac": r.random() < 0.15}
    plan = hist_prop.plan(r, kw, hist_prop.scaled(), (2, 10 if tier == "quick" else 24))
    names = [n["name"] for n in plan["spec"]["nodes"]]
    qs = []
    for _ in range(r.randint(3, 7)):
        s, d = r.sample(names, 2)
        kind = r.choice(["shortest", "shortest", "all", "routed-lsp"])
        qs.append([kind, s, d, r.choice([0, 0, 1, 6, 12, 24, 48, 60, 120]), r.choice([1, 2, 3, 4, 10]),
                   r.random() < 0.5])
        if kind == "all" and r.random() < 0.25:
            qs[-1][3:] = [0, 10, True]          # the defaults
    plan["queries"] = qs
    return plan


def execute(plan, log, stats):
    def ask(w):
        for q in plan["queries"]:
            reports.path_query(w, q, stats)

    def after_op(w, op, res):
        # which interfaces have what bandwidth is settled by a simulation
        if w.simulated and not w.must_update:
            ask(w)
            if w.dirty:
                stats.inc("probe:query-between-simulations")

    hist_prop.execute(plan, log, stats, [lambda w, s: ask(w)], after_op)


shrink = hist_prop.shrink
