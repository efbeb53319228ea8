import math

from sim import audit, gen as G, hist_prop, history
from sim.core import Violation
from sim.world import World

TITLE = "valid networks always simulate"
LEVEL = "exploration"
RUNS = 20000
RULE = ("seeded random networks with awkward numbers (fractions that do not add up in binary, values from 1e-6 to "
        "1e12, traffic of zero, percentages that leave nothing or fractions, LSP bandwidths exactly at, just above and "
        "just below what is left, long parallel LSP groups, costs up to a million), histories of all operations with "
        "simulations cut short, a validation or a validating operation after any simulation: no legal operation may "
        "be refused, and every number shown has to be finite and in range; runs that do not finish are decided by a "
        "line budget.  A case counts when at least one demand is routed; distinct = distinct state snapshot")
NEED = ["op:validate", "op:update", "op:add_demand", "op:add_lsp", "op:unfail_int", "op:unfail_node", "op:unfail_srlg",
        "op:add_circuit", "op:add_node", "faults-fired", "probe:huge", "probe:tiny", "probe:awkward",
        "probe:lsp-unrouted", "probe:lsp-routed"]
ASSUME = ["percentages of reservable bandwidth are within 0..100: a larger one lets reservations exceed the capacity, "
          "which the model's rules refuse"]


def number(r, style):
    if style == "awkward":
        return r.choice([0.1, 0.2, 0.3, 0.7, 1 / 3, 10 / 3, 0.05, 0.15, 0.25, 1.05, 2.675, 33.35, 99.95, 1e-3, 7,
                         round(r.uniform(0, 200), r.randint(0, 6))])
    if style == "huge":
        return r.choice([1e9, 1e12, 10 ** 9 + 1, 123456789.1, 1e6 / 3, r.uniform(1, 10) * 10 ** r.randint(3, 11)])
    if style == "tiny":
        return r.choice([1e-6, 1e-3, 0.049, 0.05, 0.051, 0.1, 0.04999999, r.uniform(0, 0.3)])
    return r.choice([number(r, x) for x in ("awkward", "huge", "tiny")] + [1, 10, 100])


def gen(r, i, tier):
    style = r.choice(["awkward", "awkward", "awkward", "huge", "tiny", "mixed"])
    kw = {"lsps": r.choice([False, "always", "always", "always"])}
    plan = hist_prop.plan(r, kw, hist_prop.scaled(), (2, 14 if tier == "quick" else 40), abort_p=0.15)
    spec, ops = plan["spec"], plan["ops"]
    if r.random() < 0.3 and spec["lsps"]:
        # a long parallel group
        x = spec["lsps"][0]
        for j in range(r.randint(2, 7)):
            spec["lsps"].append({"s": x["s"], "d": x["d"], "n": "par{}".format(j), "bw": None, "mm": None})

    def pct():
        return r.choice([0, 100, 50, 33.3, 99.9, 12.5, 0.1, round(r.uniform(0, 100), 3)])
    costs = r.choice([[1], [1, 2], [1, 10 ** 6], [10 ** 6], [1, 3, 7, 999983]])
    load = number(r, style)
    for d in spec["demands"]:
        d["t"] = r.choice([0, load, load, number(r, style), number(r, style)])
    for ln in spec["links"]:
        # capacities around the loads: contention decided by the last digit
        ln["cap"] = max(1e-6, r.choice([number(r, style), load, load * r.randint(1, 5), load / r.randint(1, 5),
                                        load + 0.1, abs(load - 0.1) or 1, load * 2 + 0.05]))
        for s in "ab":
            ln["c" + s] = r.choice(costs)
            if r.random() < 0.3:
                ln["p" + s] = pct()

    def bw():
        return r.choice([None, None, 0, number(r, style), load, load / 2, load / 3, load + 0.05])
    for x in spec["lsps"]:
        if r.random() < 0.5:
            x["bw"] = bw()
    if spec["build"] == "file":
        spec["build"] = "ctor"      # capacities of a file are whole numbers
    for op in ops:
        if op[0] == "traffic":
            op[2] = number(r, style)
        elif op[0] == "add_demand":
            op[3] = number(r, style)
        elif op[0] == "lsp_bw":
            op[2] = bw()
        elif op[0] == "add_lsp":
            op[4] = bw()
        elif op[0] == "cap":
            op[2] = max(1e-6, number(r, style))
        elif op[0] == "pct":
            op[3] = pct()
        elif op[0] == "add_circuit":
            op[1]["cap"] = max(1e-6, number(r, style))
    out = []
    for op in ops:
        out.append(op)
        if op[0] in ("update", "update_x") or r.random() < 0.1:
            if r.random() < 0.5:
                out.append(["validate"])
    plan["ops"] = out
    plan["style"] = style
    return plan


def ok(x, low=0.0):
    return isinstance(x, (int, float)) and not isinstance(x, bool) and math.isfinite(x) and x >= low


def check(w, s, stats):
    r = w.ref
    for i, v in s.ints.items():
        cap = r.links[i[0]]["cap"]
        if r.up(i):
            if not ok(v["traffic"]):
                raise Violation("number", "interface {} shows traffic {!r}".format(i, v["traffic"]))
            if abs(v["util"] - v["traffic"] / cap * 100) > 0.00501 + 1e-9 * abs(v["util"]):
                raise Violation("number", "interface {} shows utilization {!r} for {!r} of {!r}".format(
                    i, v["util"], v["traffic"], cap))
        if not ok(v["res"]) or v["res"] > cap + 0.1501 + 1e-9 * cap:
            raise Violation("number", "interface {} shows {!r} reserved of {!r}".format(i, v["res"], cap))
    for k, x in s.lsps.items():
        if x is None:
            stats.inc("probe:lsp-unrouted")
            continue
        stats.inc("probe:lsp-routed")
        if not ok(x["res"]) or not ok(x["setup"]):
            raise Violation("number", "LSP {} shows {!r} reserved, {!r} asked".format(k, x["res"], x["setup"]))
    total = sum(r.demands.values())
    for k, det in s.detail.items():
        if isinstance(det, str):
            continue
        got = sum(t for _, t, _ in det)
        if not all(ok(t, -1e-9) for _, t, _ in det):
            raise Violation("number", "demand {} shows path traffic {}".format(k, [t for _, t, _ in det]))
        if abs(got - r.demands[k]) > 0.051 * len(det) + 1e-9 * (total + 1):
            raise Violation("number", "the paths of demand {} carry {!r} of {!r}".format(k, got, r.demands[k]))


def execute(plan, log, stats):
    w = World(plan["spec"], log, stats)
    measured = False
    stats.inc("probe:" + plan["style"])
    for op in plan["ops"]:
        if op[0] == "update_x":
            out = history.apply_interrupted(w, ["update"], dict(op[1], lines=w.update_lines), log, stats)
            if isinstance(out, tuple):
                raise Violation("refused:update", "update_simulation was refused: {}".format(str(out[1])[:300]))
            if out == "aborted":
                w.dirty = w.must_update = True
                continue
            w.dirty = w.must_update = False
            w.simulated = True
        elif op[0] == "update":
            history.update(w, log, stats, measure=not measured)
            measured = True
        else:
            if w.apply(op) == "skip":
                stats.inc("skipped-op")
            continue
        stats.inc("updates")
        snap = audit.snapshot(w)
        log.add("snap", snap.text)
        if any(snap.demands.values()):
            stats.state(snap.text)
        check(w, snap, stats)


shrink = hist_prop.shrink
assert G
