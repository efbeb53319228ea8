"""Requests a model must reject, leaving everything as it was."""

from pyNTM import Interface, Node  # noqa: F401

from . import env
from .core import Violation

REJECTED = (env.ModelException, ValueError)


def pick(seq, n):
    return seq[n % len(seq)] if seq else None


def ghost(ref):
    x = "ghost"
    while x in ref.nodes or x in ref.srlgs or any(x in ref.iname(i) for i in ref.iids()):
        x += "?"
    return x


def info(node, remote, name, cost=5, cap=120, cid="bad1"):
    return {"name": name, "cost": cost, "capacity": cap, "node": node, "remote_node": remote,
            "circuit_id": cid, "failed": False}


def free_pair(w, n):
    """Two nodes between which a new circuit would be legal."""
    ref = w.ref
    nodes = sorted(ref.nodes)
    pairs = [(a, b) for a in nodes for b in nodes if a < b]
    if not ref.flex:
        pairs = [p for p in pairs if not any({x["a"], x["b"]} == set(p) for x in ref.links.values())]
    return pick(pairs, n)


def attr(obj, name, value):
    def go():
        setattr(obj, name, value)
    return go


def make(w, kind, n):
    """A thunk that issues the request, or None when the present state offers no target."""
    m, ref = w.m, w.ref
    g = ghost(ref)
    nodes = sorted(ref.nodes)
    iids = sorted(ref.iids())
    iid = pick(iids, n)
    node = pick(nodes, n // 7)
    dem = pick(sorted(ref.demands), n)
    lsp = pick(sorted(ref.lsps), n)
    srlg = pick(sorted(ref.srlgs), n)
    if kind == "demand-ghost-source":
        return lambda: m.add_demand(g, node, 10, "b")
    if kind == "demand-ghost-dest":
        return lambda: m.add_demand(node, g, 10, "b")
    if kind == "demand-dup":
        return dem and (lambda: m.add_demand(dem[0], dem[1], 10, dem[2]))
    if kind == "demand-negative":
        return lambda: m.add_demand(nodes[0], nodes[-1], -1, "neg")
    if kind == "demand-text":
        return lambda: m.add_demand(nodes[0], nodes[-1], "10", "text")
    if kind == "lsp-ghost-source":
        return lambda: m.add_rsvp_lsp(g, node, "b")
    if kind == "lsp-ghost-dest":
        return lambda: m.add_rsvp_lsp(node, g, "b")
    if kind == "lsp-dup":
        return lsp and (lambda: m.add_rsvp_lsp(*lsp))
    if kind == "node-dup":
        return lambda: m.add_node(Node(node))
    if kind == "srlg-dup":
        return srlg and (lambda: m.add_srlg(srlg))
    if kind.startswith("circuit-"):
        return circuit(w, kind, n)
    if kind.startswith("list-"):
        return from_list(w, kind, n)
    if kind == "fail-int-ghost":
        return lambda: m.fail_interface(g, node)
    if kind == "fail-int-wrong-node":
        if iid is None:
            return None
        nd, name = ref.iname(iid)
        other = [x for x in nodes if (x, name) not in ref.by_name()]
        return (lambda: m.fail_interface(name, pick(other, n))) if other else None
    if kind == "unfail-int-ghost":
        return lambda: m.unfail_interface(g, node)
    if kind == "unfail-int-flag":
        return iid and (lambda: m.unfail_interface(*reversed(ref.iname(iid)), "yes"))
    if kind == "fail-node-ghost":
        return lambda: m.fail_node(g)
    if kind == "unfail-node-ghost":
        return lambda: m.unfail_node(g)
    if kind == "fail-srlg-ghost":
        return lambda: m.fail_srlg(g)
    if kind == "unfail-srlg-ghost":
        return lambda: m.unfail_srlg(g)
    if kind == "rename-ghost":
        return lambda: m.change_interface_name(node, g, "new")
    if kind == "int-join-ghost-srlg":
        return iid and (lambda: w.intf(iid).add_to_srlg(g, m))
    if kind == "node-join-ghost-srlg":
        return lambda: w.node(node).add_to_srlg(g, m)
    if kind == "int-leave-ghost-srlg":
        return iid and (lambda: w.intf(iid).remove_from_srlg(g, m))
    if kind == "node-leave-ghost-srlg":
        return lambda: w.node(node).remove_from_srlg(g, m)
    if kind == "unfail-int-failed-node":
        down = [i for i in iids if any(ref.nodes[x]["failed"] for x in ref.ends(i))]
        i = pick(down, n)
        if i is None:
            return None
        if n % 2:
            return lambda: w.intf(i).unfail_interface(m)
        return lambda: m.unfail_interface(*reversed(ref.iname(i)), True)
    if kind == "unfail-int-failed-srlg":
        down = [i for i in iids if ref.srlg_failed(ref.links[i[0]]["srlgs"])
                and not any(ref.nodes[x]["failed"] for x in ref.ends(i))]
        i = pick(down, n)
        if i is None:
            return None
        if n % 2:
            return lambda: w.intf(i).unfail_interface(m)
        return lambda: m.unfail_interface(*reversed(ref.iname(i)))
    if kind == "unfail-node-failed-srlg":
        down = [x for x in nodes if ref.srlg_failed(ref.nodes[x]["srlgs"])]
        x = pick(down, n)
        return x and (lambda: m.unfail_node(x))
    if kind == "set-int":
        if iid is None:
            return None
        name, value = pick([("cost", 0), ("cost", -3), ("cost", 1.5), ("cost", 2.0), ("capacity", 0),
                            ("capacity", -10), ("failed", "True"), ("failed", 1), ("failed", None),
                            ("reserved_bandwidth", "5"), ("reserved_bandwidth", None)], n)
        return attr(w.intf(iid), name, value)
    if kind == "set-node":
        name, value = pick([("failed", "down"), ("failed", 0), ("lat", "12"), ("lon", None),
                            ("igp_shortcuts_enabled", "maybe"), ("igp_shortcuts_enabled", 2)], n)
        return attr(w.node(node), name, value)
    if kind == "set-srlg":
        return srlg and attr(m.get_srlg_object(srlg), "failed", pick(["True", 1, None], n))
    if kind == "set-lsp":
        if lsp is None:
            return None
        name, value = pick([("manual_metric", 0), ("manual_metric", -2), ("manual_metric", "5"),
                            ("manual_metric", 2.5), ("setup_bandwidth", -1)], n)
        if name == "setup_bandwidth" and ref.lsps[lsp]["bw"]:
            return None
        return attr(w.lsp(lsp), name, value)
    raise AssertionError(kind)


def circuit(w, kind, n):
    m, ref = w.m, w.ref
    iids = sorted(ref.iids())
    p = free_pair(w, n)
    kw = {"circuit_id": "bad1"} if ref.flex else {}
    if kind == "circuit-parallel":
        if ref.flex or not ref.links:
            return None
        x = ref.links[pick(sorted(ref.links), n)]
        a, b = (x["a"], x["b"]) if n % 2 else (x["b"], x["a"])
        return lambda: m.add_circuit(w.node(a), w.node(b), "bad-a", "bad-b", 3, 3, 120)
    if p is None:
        return None
    a, b = p if n % 2 else (p[1], p[0])
    if kind in ("circuit-dup-a", "circuit-dup-b"):
        side = a if kind == "circuit-dup-a" else b
        mine = [i for i in iids if ref.ends(i)[0] == side]
        if not mine:
            return None
        name = ref.iname(pick(mine, n))[1]
        if kind == "circuit-dup-a":
            return lambda: m.add_circuit(w.node(a), w.node(b), name, "bad-b", 3, 3, 120, **kw)
        return lambda: m.add_circuit(w.node(a), w.node(b), "bad-a", name, 3, 3, 120, **kw)
    if kind == "circuit-cost":
        c = pick([(0, 3), (3, 0), (1.5, 3), (3, -1)], n)
        return lambda: m.add_circuit(w.node(a), w.node(b), "bad-a", "bad-b", c[0], c[1], 120, **kw)
    if kind == "circuit-capacity":
        return lambda: m.add_circuit(w.node(a), w.node(b), "bad-a", "bad-b", 3, 3, pick([0, -5], n), **kw)
    if kind == "circuit-id":
        if not ref.flex:
            return None
        cid = pick([None] + sorted((x["cid"] for x in ref.links.values()), key=str), n)
        return lambda: m.add_circuit(w.node(a), w.node(b), "bad-a", "bad-b", 3, 3, 120, circuit_id=cid)
    raise AssertionError(kind)


def from_list(w, kind, n):
    m, ref = w.m, w.ref
    p = free_pair(w, n)
    if p is None:
        return None
    a, b = p
    new = "newnode"
    while new in ref.nodes:
        new += "x"
    good = [info(a, new, "bad-a"), info(new, a, "bad-b")]
    if kind == "list-half":
        items = [info(a, b, "bad-a")]
    elif kind == "list-half-new-node":
        items = [info(a, new, "bad-a")]
    elif kind == "list-good-and-half":
        items = good + [info(b, new, "bad-c", cid="bad2")]
    elif kind == "list-capacity":
        items = [info(a, b, "bad-a", cap=120), info(b, a, "bad-b", cap=240)]
    elif kind == "list-dup":
        mine = [i for i in sorted(ref.iids()) if ref.ends(i)[0] == a]
        if not mine:
            return None
        items = [info(a, b, ref.iname(pick(mine, n))[1]), info(b, a, "bad-b")]
    elif kind == "list-good-and-bad-cost":
        items = good + [info(a, b, "bad-c", cost=0, cid="bad2"), info(b, a, "bad-d", cid="bad2")]
    elif kind == "list-missing-field":
        items = good + [info(b, new, "bad-c", cid="bad2")]
        del items[-1]["capacity"]
    elif kind == "list-parallel":
        if ref.flex or not ref.links:
            return None
        x = ref.links[pick(sorted(ref.links), n)]
        items = [info(x["a"], x["b"], "bad-a"), info(x["b"], x["a"], "bad-b")]
    else:
        raise AssertionError(kind)
    if n % 3 == 0:
        items.reverse()
    return lambda: m.add_network_interfaces_from_list(items)


KINDS = [
    "demand-ghost-source", "demand-ghost-dest", "demand-dup", "demand-negative", "demand-text",
    "lsp-ghost-source", "lsp-ghost-dest", "lsp-dup", "node-dup", "srlg-dup", "circuit-parallel", "circuit-dup-a",
    "circuit-dup-b", "circuit-cost", "circuit-capacity", "circuit-id", "list-half", "list-half-new-node",
    "list-good-and-half", "list-capacity", "list-dup", "list-good-and-bad-cost", "list-missing-field",
    "list-parallel", "fail-int-ghost", "fail-int-wrong-node", "unfail-int-ghost", "unfail-int-flag",
    "fail-node-ghost", "unfail-node-ghost", "fail-srlg-ghost", "unfail-srlg-ghost", "rename-ghost",
    "int-join-ghost-srlg", "node-join-ghost-srlg", "int-leave-ghost-srlg", "node-leave-ghost-srlg",
    "unfail-int-failed-node", "unfail-int-failed-srlg", "unfail-node-failed-srlg", "set-int", "set-node",
    "set-srlg", "set-lsp",
]


def issue(w, kind, n, stats):
    """Issue one such request.  Returns 'skip' or 'rejected'."""
    if w.must_update or not w.simulated:
        w.apply(["update"])
    go = make(w, kind, n)
    if not go:
        return "skip"
    expect = REJECTED + ((KeyError,) if kind == "list-missing-field" else ())
    try:
        with env.quiet_stdout():
            go()
    except expect as e:
        w.log.add("rejected", kind, type(e).__name__)
        stats.inc("probe:rejected")
        stats.inc("op:bad:" + kind)
        return "rejected"
    raise Violation("accepted:" + kind, "request {} ({}) was accepted".format(kind, n))
