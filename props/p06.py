from sim import audit, hist_prop, reports

TITLE = "demands ride the best-metric LSPs between their endpoints"
LEVEL = "exploration"
RUNS = 18000
RULE = ("seeded random networks with parallel LSPs, manual metrics and odd node names, and histories; after each "
        "completed simulation every demand with routed LSPs between its endpoints, and what the LSPs report, is "
        "compared with the reference.  A case counts when at least one demand is routed; distinct = distinct "
        "state snapshot")
NEED = ["audited:demand-lsp", "probe:multi-lsp-demand", "op:lsp_mm", "op:del_lsp", "probe:loaded-lsp"]
ASSUME = ["node names for which 'source-dest' is ambiguous are a recorded finding and excluded here"]


def gen(r, i, tier):
    kw = {"lsps": "always", "demands": (2, 7), "frac": r.random() < 0.15,
          "shortcuts": r.random() < 0.3, "style": r.choice([None, None, "hyphen", "prefix", "words"])}
    if tier == "thorough" and r.random() < 0.3:
        kw["nmax"] = 10
    return hist_prop.plan(r, kw, hist_prop.scaled(load=3))


def execute(plan, log, stats):
    def check(w, s):
        plain = not any(n["sc"] for n in w.ref.nodes.values())
        audit.demand_paths(w.ref, s, stats, kinds=("lsp", "igp", "none") if plain else ("lsp",))
        if plain:
            audit.loads(w.ref, s, stats)
        reports.lsp_metrics(w, s, stats)
        reports.on_elements(w, s, stats)
    hist_prop.execute(plan, log, stats, [check])


shrink = hist_prop.shrink


def known_finding(line):
    """D16: two node pairs with the same 'source-dest' key share an LSP group."""
    from sim import probes
    return probes.hyphen_names()
