from sim import audit, env, gen as G, hist_prop, twin
from sim.core import Violation, rng
from sim.world import World

TITLE = "independence from iteration order, clock, names and construction"
LEVEL = "exploration"
RUNS = 12000
RULE = ("each seeded network (with a single simulation outcome) is built several times in one run: other construction "
        "path and row order, other iteration order of object sets, other random stream, other clock behaviour (frozen, "
        "stepped back and forth), renamed nodes, interfaces, demands and LSPs (which changes every string hash), "
        "and as the other kind of model where both can express it; the same seeded history is applied to all, and "
        "results are compared after every simulation, and the first build with the reference.  A case counts when "
        "at least one demand is routed; distinct = distinct state snapshot")
NEED = ["probe:variant:order", "probe:variant:build", "probe:variant:clock", "probe:variant:names",
        "probe:variant:kind", "probe:lsps-in-variant"]


def simple(spec):
    """Expressible by both kinds of model?"""
    pairs = [frozenset((x["a"], x["b"])) for x in spec["links"]]
    return len(pairs) == len(set(pairs)) and not any(n["sc"] for n in spec["nodes"])


def gen(r, i, tier):
    mode = r.choice(["none", "roomy", "roomy", "single"])
    kw = {"lsps": False if mode == "none" else "always", "contention": "heavy" if mode == "single" else None}
    if r.random() < 0.5:
        kw["shortcuts"] = False
        if r.random() < 0.6:
            kw["model"] = "perf"
    plan = hist_prop.plan(r, kw, hist_prop.scaled(), (2, 10 if tier == "quick" else 30), abort_p=0.0,
                          lsps=mode != "none", shortcuts=kw.get("shortcuts", True))
    if mode != "none":
        twin.determined(r, plan, mode)
    kinds = ["order", "build", "clock", "names", "kind"]
    plan["variants"] = sorted(r.sample(kinds, r.randint(2, 5)))
    return plan


def rename_spec(spec, ops, salt):
    """A consistent renaming of everything (the construction and the history)."""
    r = rng("names", salt)
    names = {}

    def new(x, style):
        key = (style, x)
        if key not in names:
            while True:
                y = style + "".join(r.choice("bcdfghjkmnpqrstvwz") for _ in range(r.randint(3, 6)))
                if y not in names.values():
                    break
            names[key] = y
        return names[key]

    def node(x):
        return new(x, "N")

    def key(k):
        return [node(k[0]), node(k[1]), new(k[2], "L")]
    s = dict(spec)
    s["nodes"] = [dict(n, name=node(n["name"])) for n in spec["nodes"]]

    def link(x):
        return dict(x, a=node(x["a"]), b=node(x["b"]), an=new(x["an"], "i"), bn=new(x["bn"], "i"),
                    cid=new(x["cid"], "c"))
    s["links"] = [link(x) for x in spec["links"]]
    s["demands"] = [dict(d, s=node(d["s"]), d=node(d["d"]), n=new(d["n"], "L")) for d in spec["demands"]]
    s["lsps"] = [dict(d, s=node(d["s"]), d=node(d["d"]), n=new(d["n"], "L")) for d in spec["lsps"]]
    out = []
    for op in ops:
        op = list(op)
        k = op[0]
        if k in ("fail_node", "unfail_node", "sc", "add_node"):
            op[1] = node(op[1])
        elif k in ("srlg_add_node", "srlg_rm_node"):
            op[1], op[2] = node(op[1]), new(op[2], "g")
        elif k in ("add_srlg", "fail_srlg", "unfail_srlg"):
            op[1] = new(op[1], "g")
        elif k in ("srlg_add_int", "srlg_rm_int"):
            op[3] = new(op[3], "g")
        elif k == "rename_int":
            op[3] = new(op[3], "i")
        elif k == "add_demand":
            op[1], op[2], op[4] = node(op[1]), node(op[2]), new(op[4], "L")
        elif k == "add_lsp":
            op[1], op[2], op[3] = node(op[1]), node(op[2]), new(op[3], "L")
        elif k in ("del_demand", "traffic", "del_lsp", "lsp_bw", "lsp_mm"):
            op[1] = key(op[1])
        elif k == "add_circuit":
            op[1] = link(op[1])
        out.append(op)
    back = {new_: (style, old) for (style, old), new_ in names.items()}
    return s, out, back


def unrename(snap, back):
    """The snapshot with the original names."""
    def nm(x):
        return back[x][1]

    def key(k):
        return (nm(k[0]), nm(k[1]), nm(k[2]))

    def path(p):
        return tuple((t, key(x) if t == "L" else x) for t, x in p)
    snap.lsps = {key(k): v for k, v in snap.lsps.items()}
    snap.demands = {key(k): v and [path(p) for p in v] for k, v in snap.demands.items()}
    snap.detail = {
        key(k): v if isinstance(v, str) else [
            (path(p), t, {(a, key(b) if a == "L" else b): n for (a, b), n in s.items()}) for p, t, s in v]
        for k, v in snap.detail.items()}
    snap.nodes = {nm(n): v for n, v in snap.nodes.items()}
    return snap


def history(spec, ops, log, stats, first):
    """Snapshots after each simulation."""
    w = World(spec, log, stats)
    out = []
    res = []
    for op in ops:
        got = w.apply(op)
        res.append(got)
        if op[0] == "update":
            s = audit.snapshot(w)
            out.append(s)
            if first:
                log.add("snap", s.text)
                stats.inc("updates")
                if any(s.demands.values()):
                    stats.state(s.text)
                audit.demand_paths(w.ref, s, stats)
                audit.loads(w.ref, s, stats)
                audit.reservations(w.ref, s, stats)
    return out, res


def execute(plan, log, stats):
    spec, ops = plan["spec"], plan["ops"]
    if not any(op[0] == "update" for op in ops):
        ops = ops + [["update"]]
    base, res = history(spec, ops, log, stats, True)
    quiet = type(stats)()
    other = {"perf": "flex", "model": "plm", "flex": "perf", "plm": "model"}[spec["model"]]
    for v in plan["variants"]:
        r = rng("variant", plan["salt"], v)
        s2, ops2, back = spec, ops, None
        tol, detail = 1e-6, True
        env.reseed(plan["salt"] + "/" + v)
        if v == "build":
            how = r.choice([x for x in ("ctor", "file", "api", "list") if x != spec.get("build")])
            if how == "file" and any(isinstance(d["t"], float) for d in spec["demands"]):
                how = "ctor"
            order = list(range(2 * len(spec["links"])))
            r.shuffle(order)
            s2 = dict(spec, build=how, row_order=order)
        elif v == "clock":
            env.CLOCK.reset(plan["salt"] + "/c", r.choice(["frozen", "jumpy", "steady"]))
        elif v == "names":
            s2, ops2, back = rename_spec(spec, ops, plan["salt"])
        elif v == "kind":
            if not simple(spec) or any(op[0] == "sc" and op[2] for op in ops) or not kind_ok(spec, ops):
                continue
            s2 = dict(spec, model=other)
            tol, detail = 0.06 * max(1, len(spec["demands"]) + 8), False
        got, res2 = history(s2, ops2, log, quiet, False)
        if len(got) != len(base) or res2 != res:
            bad = [k for k in range(min(len(res), len(res2))) if res[k] != res2[k]]
            raise Violation("variant-history", "variant {}: operation {} gave {} instead of {}".format(
                v, [ops2[k] for k in bad[:1]], [res2[k] for k in bad[:1]], [res[k] for k in bad[:1]]))
        for k, (a, b) in enumerate(zip(got, base)):
            if back:
                unrename(a, back)
            twin.compare(a, b, "variant {} after simulation {}".format(v, k + 1), detail=detail, tol=tol)
        stats.inc("probe:variant:" + v)
        if any(x is not None for s in base for x in s.lsps.values()):
            stats.inc("probe:lsps-in-variant")


def kind_ok(spec, ops):
    """No step of the history makes a parallel circuit, and none sets shortcuts."""
    pairs = {frozenset((x["a"], x["b"])) for x in spec["links"]}
    for op in ops:
        if op[0] == "add_circuit":
            p = frozenset((op[1]["a"], op[1]["b"]))
            if p in pairs:
                return False
            pairs.add(p)
        if op[0] == "sc":
            return False
    return True


shrink = hist_prop.shrink
assert G
