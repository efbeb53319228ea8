"""Reproductions of the recorded (unrepaired) findings, run against the real code."""

from pyNTM import Demand, Interface, Node, PerformanceModel, RSVP_LSP

from . import env


def _net(names, links, demands, lsps):
    nodes = {n: Node(n) for n in names}
    ints = set()
    for j, (a, b) in enumerate(links):
        ints.add(Interface("{}:{}".format(a, b), 10, 100, nodes[a], nodes[b]))
        ints.add(Interface("{}:{}".format(b, a), 10, 100, nodes[b], nodes[a]))
    ds = {Demand(nodes[s], nodes[d], t, n) for s, d, t, n in demands}
    ls = {RSVP_LSP(nodes[s], nodes[d], n) for s, d, n in lsps}
    m = PerformanceModel(ints, set(nodes.values()), ds, ls)
    with env.quiet_stdout():
        m.update_simulation()
    return m


def hyphen_names():
    """Demand ('a-b' -> 'c') and LSP ('a' -> 'b-c') share the group key 'a-b-c': the demand
    is put on an LSP between other nodes.  True while that is so."""
    m = _net(["a", "b-c", "a-b", "c"], [("a", "b-c"), ("a-b", "c"), ("a", "a-b")],
             [("a-b", "c", 10, "d1")], [("a", "b-c", "t1")])
    d = m.get_demand_object("a-b", "c", "d1")
    return any(x.__class__.__name__ == "RSVP_LSP" for p in d.path for x in p)
