from sim import env, hist_prop, twin

TITLE = "simulations are memoryless"
LEVEL = "exploration"
RUNS = 18000
RULE = ("seeded random histories over networks whose simulation has a single outcome (no LSPs; or room for all and "
        "unique least-cost paths; or one LSP under contention); after completed simulations everything the model "
        "shows is compared with a model freshly built in the same configuration and failure state, and with "
        "itself simulated again.  A case counts when at least one demand is routed; distinct = distinct "
        "state snapshot")
NEED = ["probe:twin-compared", "probe:again-compared", "op:fail_srlg", "op:del_lsp", "op:cap", "faults-fired",
        "probe:lsps-in-twin"]


def gen(r, i, tier):
    mode = r.choice(["none", "none", "roomy", "roomy", "single"])
    kw = {"lsps": False if mode == "none" else "always", "frac": r.random() < 0.15,
          "contention": "heavy" if mode == "single" else None}
    lsp_ops = mode != "none"
    plan = hist_prop.plan(r, kw, hist_prop.scaled(), (3, 16 if tier == "quick" else 40), abort_p=0.15,
                          lsps=lsp_ops)
    if mode != "none":
        twin.determined(r, plan, mode)
    plan["mode"] = mode
    plan["frac"] = kw["frac"]
    plan["each"] = r.random() < 0.4
    return plan


def execute(plan, log, stats):
    last = sum(1 for op in plan["ops"] if op[0].startswith("update"))
    seen = [0]
    # sums of fractions, shown with one decimal, depend on the order of the terms
    rtol = 0.1001 if plan["frac"] else 1e-6

    def check(w, s):
        seen[0] += 1
        if not (plan["each"] or seen[0] >= last):
            return
        _, s2 = twin.fresh(w, plan["salt"] + "/t{}".format(seen[0]))
        twin.compare(s, s2, "after the history, against a fresh build", rtol=rtol)
        stats.inc("probe:twin-compared")
        if any(v is not None for v in s.lsps.values()):
            stats.inc("probe:lsps-in-twin")
        env.reseed(plan["salt"] + "/a{}".format(seen[0]))
        w.apply(["update"])
        s3 = hist_prop.audit.snapshot(w)
        twin.compare(s3, s, "simulated again without a change", rtol=rtol)
        stats.inc("probe:again-compared")
    hist_prop.execute(plan, log, stats, [check])


shrink = hist_prop.shrink
