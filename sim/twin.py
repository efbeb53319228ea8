"""Second builds of the same network, for differential checks.

Two builds can only be compared when the outcome is not a free choice: no LSPs; or room for all
of them and a single least-cost path for each; or one LSP only (with a single least-cost path)."""

from . import env
from .audit import snapshot
from .core import Violation
from .ref import Ref
from .world import World


def spec_of(ref, model, build="ctor"):
    """The present configuration, as a spec (failure state and groups not included)."""
    return {
        "model": model, "build": build,
        "nodes": [{"name": n, "sc": x["sc"]} for n, x in ref.nodes.items()],
        "links": [{"id": lid, "a": x["a"], "b": x["b"], "an": x["an"], "bn": x["bn"],
                   "ca": x["cost"]["a"], "cb": x["cost"]["b"], "cap": x["cap"], "cid": "y" + lid,
                   "pa": x["pct"]["a"], "pb": x["pct"]["b"], "ra": x["rsvp"]["a"], "rb": x["rsvp"]["b"]}
                  for lid, x in ref.links.items()],
        "demands": [{"s": k[0], "d": k[1], "n": k[2], "t": t} for k, t in ref.demands.items()],
        "lsps": [{"s": k[0], "d": k[1], "n": k[2], "bw": x["bw"], "mm": x["mm"]}
                 for k, x in ref.lsps.items()],
    }


def failures_of(ref):
    """Requests that bring a fresh build into the present failure state."""
    ops = [["fail_node", n] for n, x in ref.nodes.items() if x["failed"]]
    down = {n for n, x in ref.nodes.items() if x["failed"]}
    ops += [["fail_int", lid, "a", "model"] for lid, x in ref.links.items()
            if x["failed"] and not {x["a"], x["b"]} & down]
    return ops


def fresh(world, salt, build="ctor", model=None):
    """A simulated World in the present state of `world`, and its snapshot."""
    env.reseed(salt)
    spec = spec_of(world.ref, model or world.spec["model"], build)
    if build == "api":
        # the step-by-step builder cannot set these on the way
        pass
    w = World(spec, world.log, type(world.stats)())
    w.apply(["update"])
    for op in failures_of(world.ref):
        if w.apply(op) != "ok":
            raise Violation("twin-refused", "a fresh build refuses {}".format(op))
    w.apply(["update"])
    return w, snapshot(w)


def near(a, b, tol=1e-6):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    return abs(a - b) <= tol + 1e-9 * max(abs(a), abs(b))


def compare(a, b, what, detail=True, tol=1e-6, rtol=1e-6):
    """Snapshots a (under test) and b (twin) show the same results."""
    def bad(cls, fmt, *x):
        raise Violation("twin-" + cls, "{}: {}".format(what, fmt.format(*x)))
    for k in a.lsps:
        x, y = a.lsps[k], b.lsps[k]
        if (x is None) != (y is None):
            bad("lsp", "LSP {} is {} instead of {}", k, x, y)
        if x is not None and (x["path"] != y["path"] or not near(x["res"], y["res"])
                              or not near(x["setup"], y["setup"]) or not near(x["cost"], y["cost"])
                              # what is left on the path depends on the LSPs signalled before
                              or len(a.lsps) == 1 and not near(x["base"], y["base"], 1e-4)):
            bad("lsp", "LSP {} is {} instead of {}", k, x, y)
    for k in a.demands:
        x, y = a.demands[k], b.demands[k]
        if (x is None) != (y is None) or (x is not None and sorted(x) != sorted(y)):
            bad("path", "demand {} takes {} instead of {}", k, x, y)
        if not detail:
            continue
        x, y = a.detail[k], b.detail[k]
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                bad("detail", "demand {} shows detail {} instead of {}", k, x, y)
        else:
            dx, dy = {p: t for p, t, _ in x}, {p: t for p, t, _ in y}
            if set(dx) != set(dy) or any(not near(dx[p], dy[p], tol) for p in dx):
                bad("detail", "demand {} shows detail {} instead of {}", k, x, y)
            sx, sy = {p: s for p, _, s in x}, {p: s for p, _, s in y}
            if sx != sy:
                bad("detail", "demand {} shows splits {} instead of {}", k, sx, sy)
    for i in a.ints:
        x, y = a.ints[i], b.ints[i]
        for f in ("traffic", "res", "avail", "failed", "util"):
            t = max(tol, 0.0101) if f == "util" else max(tol, rtol) if f in ("res", "avail") else tol
            if not near(x[f], y[f], t):
                bad("int", "interface {} shows {} {} instead of {}", i, f, x[f], y[f])
    if a.nodes != b.nodes:
        bad("node", "nodes {} instead of {}", a.nodes, b.nodes)


# ------------------------------------------------------------------ plans with one outcome
def determined(r, plan, mode):
    """Rewrite a generated plan so that its simulations have a single outcome.

    'roomy': every LSP fits whatever the order, least-cost paths are unique.
    'single': one LSP at most, paths unique, capacity as generated."""
    spec, ops = plan["spec"], plan["ops"]

    def cost():
        return r.randint(1, 10 ** 6)
    for ln in spec["links"]:
        ln["ca"], ln["cb"] = cost(), cost()
        if mode == "roomy":
            ln["cap"] = ln["cap"] * 1000
    for op in ops:
        if op[0] == "cost":
            op[3] = cost()
        elif op[0] == "cap" and mode == "roomy":
            op[2] *= 1000
        elif op[0] == "add_circuit":
            op[1]["ca"], op[1]["cb"] = cost(), cost()
            if mode == "roomy":
                op[1]["cap"] *= 1000
    if mode == "single":
        spec["lsps"] = spec["lsps"][:1]
        keep = []
        for op in ops:
            if op[0] == "add_lsp":
                continue
            keep.append(op)
        plan["ops"] = keep
    return plan


def no_lsps(spec):
    return not spec["lsps"]


def rebuild_ref(spec):
    return Ref(spec)
