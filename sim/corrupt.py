"""Corruption of a model's data that its consistency rules cover, and its undoing."""

from pyNTM import Interface, Node

KINDS = ["unpaired", "retarget", "circuit-id", "capacity", "dup-name", "dup-node", "parallel", "shortcut-node",
         "res-int", "res-lsp", "too-high", "cap-low", "half-failed"]
# a simulation heals these (it computes reservations anew)
HEALED = {"res-int", "res-lsp", "too-high", "cap-low"}


def pick(seq, n):
    return seq[n % len(seq)] if seq else None


def make(w, kind, n):
    """(apply, undo), or None when the present state offers no target."""
    m, ref = w.m, w.ref
    iids = sorted(ref.iids())
    iid = pick(iids, n)
    if iid is None:
        return None
    i = w.intf(iid)
    lid, side = iid
    ln = ref.links[lid]
    if kind == "unpaired":
        old = m.interface_objects

        def go():
            m.interface_objects = {x for x in old if x is not i}

        def undo():
            m.interface_objects = old
        return go, undo
    if kind == "retarget":
        others = [x for x in sorted(ref.nodes) if x not in (ln["a"], ln["b"])]
        o = pick(others, n // 7)
        if o is None:
            return None
        node, was = w.node(o), i.remote_node_object

        def go():
            i.remote_node_object = node

        def undo():
            i.remote_node_object = was
        return go, undo
    if kind == "circuit-id":
        # PerformanceModel assigns these itself
        if not ref.flex:
            return None
        was = i.circuit_id
        return (lambda: setattr(i, "circuit_id", "elsewhere")), (lambda: setattr(i, "circuit_id", was))
    if kind == "capacity":
        was = i.capacity
        return (lambda: setattr(i, "capacity", was + 1 + n % 50)), (lambda: setattr(i, "capacity", was))
    if kind == "dup-name":
        node = ref.iname(iid)[0]
        mates = [x for x in iids if x != iid and ref.iname(x)[0] == node]
        o = pick(mates, n // 7)
        if o is None:
            return None
        was, new = i.name, ref.iname(o)[1]

        def rename(x):
            # an interface hashes by its name
            rest = [y for y in m.interface_objects if y is not i]
            i.name = x
            m.interface_objects = set(rest) | {i}
        return (lambda: rename(new)), (lambda: rename(was))
    if kind == "dup-node":
        node = pick(sorted(ref.nodes), n // 7)
        old = m.node_objects
        twin = Node(node, 89.5, -179.25)

        def go():
            m.node_objects = set(old) | {twin}

        def undo():
            m.node_objects = old
        return go, undo
    if kind == "parallel":
        if ref.flex:
            return None
        na, nb = w.node(ln["a"]), w.node(ln["b"])
        cost = pick([1, 10, 1000], n)
        new = {Interface("par-a", cost, 120, na, nb), Interface("par-b", cost, 120, nb, na)}
        old = m.interface_objects

        def go():
            m.interface_objects = set(old) | new

        def undo():
            m.interface_objects = old
        return go, undo
    if kind == "shortcut-node":
        if ref.flex:
            return None
        node = w.node(pick(sorted(ref.nodes), n // 7))
        return (lambda: setattr(node, "igp_shortcuts_enabled", True)), (
            lambda: setattr(node, "igp_shortcuts_enabled", False))
    if kind == "half-failed":
        if not ref.up(iid):
            return None

        def go():
            i.failed = True
        return go, None
    if kind == "cap-low":
        both = [w.intf((lid, s)) for s in "ab"]
        used = max(x.reserved_bandwidth for x in both)
        if used < 1:
            return None
        was = i.capacity

        def cap(c):
            for x in both:
                x.capacity = c
        return (lambda: cap(used - 0.5)), (lambda: cap(was))
    if kind == "res-int":
        was, delta = i.reserved_bandwidth, pick([0.2, 1, 7.5, 1000000], n // 7)
        return (lambda: setattr(i, "reserved_bandwidth", was + delta)), (
            lambda: setattr(i, "reserved_bandwidth", was))
    routed = sorted(k for k in ref.lsps if isinstance(w.lsp(k).path, dict))
    key = pick(routed, n)
    if key is None:
        return None
    lsp = w.lsp(key)
    was = lsp.reserved_bandwidth
    if kind == "res-lsp":
        delta = pick([0.2, 1, 7.5, 1000], n // 7)
        return (lambda: setattr(lsp, "reserved_bandwidth", was + delta)), (
            lambda: setattr(lsp, "reserved_bandwidth", was))
    if kind == "too-high":
        # the LSPs and the interface agree, and exceed the capacity
        hops = list(lsp.path["interfaces"])
        first = [x.reserved_bandwidth for x in hops]
        delta = max(x.capacity for x in hops) + 1

        def go():
            lsp.reserved_bandwidth = was + delta
            for x, r in zip(hops, first):
                x.reserved_bandwidth = r + delta

        def undo():
            lsp.reserved_bandwidth = was
            for x, r in zip(hops, first):
                x.reserved_bandwidth = r
        return go, undo
    raise AssertionError(kind)
