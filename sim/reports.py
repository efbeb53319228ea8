"""What the model's query methods answer, against the elements' state and the reference."""

from . import env
from . import ref as R
from .audit import items_of
from .core import Violation

ModelException = env.ModelException


def same(what, got, want):
    if got != want:
        raise Violation("report:" + what.split(" ")[0], "{}: {} instead of {}".format(what, got, want))


def refused(what, fn):
    try:
        got = fn()
    except ModelException:
        return
    raise Violation("report:accepted", "{} gave {!r} instead of being refused".format(what, got))


def ikey(i):
    return (i.node_object.name, i.name)


def ckey(i):
    return (i.source_node_object.name, i.dest_node_object.name,
            i.lsp_name if hasattr(i, "lsp_name") else i.name)


def keys(items, f=ikey):
    """Sorted list: duplicates show."""
    return sorted(f(x) for x in items)


def names(items):
    return sorted(x.name for x in items)


def unknown(ref, base):
    x = base
    while any(x == n for n in ref.nodes) or any(x in ref.iname(i) for i in ref.iids()):
        x += "?"
    return x


def lookups(world, stats=None):
    """Answers that do not depend on simulation results.  Valid whenever circuits are."""
    ref, m = world.ref, world.m
    ghost = unknown(ref, "ghost")
    for iid in ref.iids():
        node, name = ref.iname(iid)
        i = m.get_interface_object(name, node)
        same("get_interface_object", ikey(i), (node, name))
        u, v = ref.ends(iid)
        same("get_interface_object remote", i.remote_node_object.name, v)
        if i is not world.intf(iid):
            raise Violation("report:copy", "get_interface_object gives a copy of {}".format((node, name)))
        other = (iid[0], "b" if iid[1] == "a" else "a")
        same("get_remote_interface {}".format((node, name)), ikey(i.get_remote_interface(m)), ref.iname(other))
        refused("get_interface_object({!r}, {!r})".format(ghost, node),
                lambda: m.get_interface_object(ghost, node))
        refused("get_interface_object({!r}, {!r})".format(name, ghost),
                lambda: m.get_interface_object(name, ghost))
        same("srlgs {}".format((node, name)), names(i.srlgs), sorted(ref.links[iid[0]]["srlgs"]))
        found = m.get_interface_object_from_nodes(u, v)
        found = found if isinstance(found, list) else [found]
        same("get_interface_object_from_nodes", keys(found),
             sorted(ref.iname(x) for x in ref.iids() if ref.ends(x) == (u, v)))
    for n in ref.nodes:
        nd = m.get_node_object(n)
        if nd is not world.node(n):
            raise Violation("report:copy", "get_node_object gives a copy of {!r}".format(n))
        mine = [x for x in ref.iids() if ref.ends(x)[0] == n]
        same("interfaces of {}".format(n), keys(nd.interfaces(m)), sorted(ref.iname(x) for x in mine))
        same("get_node_interfaces {}".format(n), keys(m.get_node_interfaces(n)),
             sorted(ref.iname(x) for x in mine))
        same("adjacent_nodes of {}".format(n), names(nd.adjacent_nodes(m)),
             sorted({ref.ends(x)[1] for x in mine}))
        same("is_node_an_orphan {}".format(n), bool(m.is_node_an_orphan(nd)), not mine)
        same("srlgs of {}".format(n), names(nd.srlgs), sorted(ref.nodes[n]["srlgs"]))
        same("get_demand_objects_source_node {}".format(n), keys(m.get_demand_objects_source_node(n), ckey),
             sorted(k for k in ref.demands if k[0] == n))
        same("get_demand_objects_dest_node {}".format(n), keys(m.get_demand_objects_dest_node(n), ckey),
             sorted(k for k in ref.demands if k[1] == n))
    refused("get_node_object({!r})".format(ghost), lambda: m.get_node_object(ghost))
    same("get_orphan_node_objects", names(m.get_orphan_node_objects()),
         sorted(n for n in ref.nodes if not any(n in (x["a"], x["b"]) for x in ref.links.values())))
    for k in ref.demands:
        same("get_demand_object", ckey(m.get_demand_object(*k)), k)
        if k[2] == "none":
            same("get_demand_object default", ckey(m.get_demand_object(*k[:2])), k)
        refused("get_demand_object{}".format(k[:2] + (ghost,)), lambda: m.get_demand_object(k[0], k[1], ghost))
        rev = (k[1], k[0], k[2])
        if rev not in ref.demands:
            refused("get_demand_object{}".format(rev), lambda: m.get_demand_object(*rev))
    for k in ref.lsps:
        same("get_rsvp_lsp", ckey(m.get_rsvp_lsp(*k)), k)
        refused("get_rsvp_lsp{}".format(k[:2] + (ghost,)), lambda: m.get_rsvp_lsp(k[0], k[1], ghost))
        rev = (k[1], k[0], k[2])
        if rev not in ref.lsps:
            refused("get_rsvp_lsp{}".format(rev), lambda: m.get_rsvp_lsp(*rev))
    for s in ref.srlgs:
        g = m.get_srlg_object(s)
        same("get_srlg_object", g.name, s)
        same("SRLG failed {}".format(s), g.failed, ref.srlgs[s]["failed"])
        same("SRLG interfaces of {}".format(s), keys(g.interface_objects),
             sorted(ref.iname((lid, e)) for lid, ln in ref.links.items() if s in ln["srlgs"] for e in "ab"))
        same("SRLG nodes of {}".format(s), names(g.node_objects),
             sorted(n for n in ref.nodes if s in ref.nodes[n]["srlgs"]))
    refused("get_srlg_object({!r})".format(ghost), lambda: m.get_srlg_object(ghost))
    same("get_srlg_object quiet", m.get_srlg_object(ghost, raise_exception=False), None)
    same("SRLG set", names(m.srlg_objects), sorted(ref.srlgs))
    same("get_failed_interface_objects", keys(m.get_failed_interface_objects()),
         sorted(ref.iname(i) for i in ref.iids() if not ref.up(i)))
    same("get_unfailed_interface_objects", keys(m.get_unfailed_interface_objects()),
         sorted(ref.iname(i) for i in ref.iids() if ref.up(i)))
    same("get_failed_node_objects", names(m.get_failed_node_objects()),
         sorted(n for n in ref.nodes if ref.nodes[n]["failed"]))
    same("get_non_failed_node_objects", names(m.get_non_failed_node_objects()),
         sorted(n for n in ref.nodes if not ref.nodes[n]["failed"]))
    if stats is not None:
        stats.inc("audited:lookups")


def circuits(world, stats=None):
    """Circuit objects pair the right interfaces (after validation)."""
    ref, m = world.ref, world.m
    seen = []
    for c in m.circuit_objects:
        a, b = c.get_circuit_interfaces(m)
        seen.append(tuple(sorted((ikey(a), ikey(b)))))
        lid = ref.by_name()[ikey(a)][0]
        same("circuit failed {}".format(ikey(a)), bool(c.failed(m)), ref.links[lid]["failed"])
        same("circuit_id {}".format(ikey(a)), {c.circuit_id()}, {a.circuit_id, b.circuit_id})
    same("circuit pairs", sorted(seen), sorted(
        tuple(sorted((ref.iname((lid, "a")), ref.iname((lid, "b"))))) for lid in ref.links))
    for iid in ref.iids():
        node, name = ref.iname(iid)
        c = m.get_circuit_object_from_interface(name, node)
        got = tuple(sorted(ikey(x) for x in c.get_circuit_interfaces(m)))
        want = tuple(sorted(ref.iname((iid[0], s)) for s in "ab"))
        same("get_circuit_object_from_interface", got, want)
        got = tuple(sorted(ikey(x) for x in world.intf(iid).get_circuit_object(m).get_circuit_interfaces(m)))
        same("get_circuit_object", got, want)
    if ref.links:
        cids = {}
        for iid in ref.iids():
            cids.setdefault(world.intf(iid).circuit_id, set()).add(iid[0])
        if any(len(v) > 1 for v in cids.values()):
            raise Violation("report:circuit-id", "one circuit_id for several circuits: {}".format(cids))
        same("all_interface_circuit_ids", sorted(map(str, m.all_interface_circuit_ids)), sorted(map(str, cids)))
    ghost = unknown(ref, "ghost")
    if ref.links:
        node, name = ref.iname(next(iter(ref.iids())))
        refused("get_circuit_object_from_interface", lambda: m.get_circuit_object_from_interface(ghost, node))
    if stats is not None:
        stats.inc("audited:circuits")


def groups(world, stats=None):
    ref, m = world.ref, world.m
    for what, got, have in (("parallel_lsp_groups", m.parallel_lsp_groups(), ref.lsps),
                            ("parallel_demand_groups", m.parallel_demand_groups(), ref.demands)):
        want = {}
        for k in have:
            want.setdefault("{}-{}".format(k[0], k[1]), []).append(k)
        same(what, {g: keys(v, ckey) for g, v in sorted(got.items())}, {g: sorted(v) for g, v in want.items()})


def on_elements(world, snap, stats=None):
    """Per-interface and per-LSP lists against the demands' and LSPs' own paths."""
    ref, m = world.ref, world.m
    dem = {i: set() for i in ref.iids()}
    dol = {k: set() for k in ref.lsps}
    for key, paths in snap.demands.items():
        for p in paths or ():
            for i in items_of(p, snap):
                dem[i].add(key)
            for kind, x in p:
                if kind == "L":
                    dol[x].add(key)
    for i in ref.iids():
        o = world.intf(i)
        same("demands on interface {}".format(ref.iname(i)), keys(o.demands(m), ckey), sorted(dem[i]))
        same("lsps on interface {}".format(ref.iname(i)), keys(o.lsps(m), ckey),
             sorted(k for k, v in snap.lsps.items() if v is not None and i in v["path"]))
    for k in ref.lsps:
        o = world.lsp(k)
        same("demands_on_lsp {}".format(k), keys(o.demands_on_lsp(m), ckey), sorted(dol[k]))
    same("get_unrouted_demand_objects", keys(m.get_unrouted_demand_objects(), ckey),
         sorted(k for k, v in snap.demands.items() if v is None))
    diag = m.simulation_diagnostics()
    riding = sorted(k for k, v in snap.demands.items() if v and any(x[0] == "L" for p in v for x in p))
    routed = [k for k, v in snap.lsps.items() if v is not None]
    carrying = sorted(k for k in routed if dol[k])
    idle = sorted(k for k in routed if not dol[k])
    want = {
        "Number of routed LSPs carrying Demands": len(carrying),
        "Number of routed LSPs with no Demands": len(idle),
        "Number of Demands riding LSPs": len(riding),
        "Number of Demands not riding LSPs": len(ref.demands) - len(riding),
        "Number of unrouted LSPs": len(ref.lsps) - len(routed),
        "Number of unrouted Demands": sum(1 for v in snap.demands.values() if v is None),
        "routed LSPs with no demands generator": idle,
        "routed LSPs with demands generator": carrying,
        "demands riding LSPs generator": riding,
    }
    got = {k: keys(v, ckey) if "generator" in k else v for k, v in diag.items()}
    for k in want:
        same("diagnostics: {}".format(k), got.get(k), want[k])
    if stats is not None:
        stats.inc("audited:element-reports")


def lsp_metrics(world, snap, stats=None):
    """effective_metric, topology_metric and traffic_on_lsp."""
    ref, m = world.ref, world.m
    carried = {k: 0.0 for k in ref.lsps}
    n = {k: 0 for k in ref.lsps}
    for key, det in snap.detail.items():
        if isinstance(det, str):
            continue
        for p, x, _ in det:
            for kind, k in p:
                if kind == "L":
                    carried[k] += x
                    n[k] += 1
    for k in ref.lsps:
        o = world.lsp(k)
        mm = ref.lsps[k]["mm"]
        routed = snap.lsps[k] is not None
        want = mm if mm is not None else (R.igp_cost(ref, k[0], k[1]) if routed else "Unrouted")
        same("effective_metric {}".format(k), o.effective_metric(m), want)
        same("manual_metric {}".format(k), o.manual_metric, mm if mm is not None else "not set")
        same("topology_metric {}".format(k), o.topology_metric(m),
             snap.lsps[k]["cost"] if routed else "Unrouted")
        t = o.traffic_on_lsp(m)
        if not isinstance(t, (int, float)) or abs(t - carried[k]) > 1e-6 + 0.0001 * n[k]:
            raise Violation("report:traffic_on_lsp", "LSP {} reports {} on it; the demand paths say {}".format(
                k, t, carried[k]))
    if stats is not None and ref.lsps:
        stats.inc("audited:lsp-reports")
        if any(v > 0 for v in carried.values()):
            stats.inc("probe:loaded-lsp")


def path_query(world, q, stats=None):
    """q: [kind, source, dest, needed_bw, cutoff, include_failed]"""
    ref, m = world.ref, world.m
    kind, s, d, bw, cutoff, inc = q
    if s not in ref.nodes or d not in ref.nodes or s == d:
        return
    by = ref.by_name()
    avail = {i: world.intf(i).reservable_bandwidth for i in ref.iids()}

    own, extra = (), 0.0
    if kind == "routed-lsp":
        key = sorted(ref.lsps)[cutoff % len(ref.lsps)] if ref.lsps else None
        lsp = world.lsp(key) if key else None
        if lsp is None or not isinstance(lsp.path, dict) or bw <= 0:
            return
        own = [by.get(ikey(i)) for i in lsp.path["interfaces"]]
        extra = lsp.reserved_bandwidth

    def ok(i):
        if kind == "routed-lsp" and not ref.links[i[0]]["rsvp"][i[1]]:
            return False
        return (inc or ref.up(i)) and (bw == 0 or avail[i] + (extra if i in own else 0.0) >= bw)
    try:
        if kind == "shortest":
            inc = False
            got = m.get_shortest_path(s, d, needed_bw=bw) if bw else m.get_shortest_path(s, d)
            cost, want = R.shortest(ref.edges(ok), s, d)
        elif kind == "routed-lsp":
            inc = False
            got = m.get_shortest_path_for_routed_lsp(s, d, lsp, bw)
            cost, want = R.shortest(ref.edges(ok), s, d)
        else:
            args = (inc, cutoff, bw)
            got = m.get_all_paths_reservable_bw(s, d, *(() if args == (True, 10, 0) else args))
            want = R.simple_paths(ref.edges(ok), s, d, cutoff)
    except R.TooBig:
        if stats is not None:
            stats.inc("skipped:path-explosion")
        return
    have = sorted(tuple(by.get(ikey(i)) for i in p) for p in got["path"])
    if have != sorted(want):
        raise Violation("query:" + kind, "{} {}->{} bw={} cutoff={} failed={} gives {} instead of {}".format(
            kind, s, d, bw, cutoff, inc,
            [[ref.iname(i) if i else None for i in p] for p in have],
            [[ref.iname(i) for i in p] for p in sorted(want)]))
    if kind != "all" and got["cost"] != cost:
        raise Violation("query:cost", "shortest {}->{} costs {} instead of {}".format(s, d, got["cost"], cost))
    if stats is not None:
        stats.inc("audited:query-" + kind)
        if not want:
            stats.inc("probe:empty-answer")
        if len(want) > 1:
            stats.inc("probe:multi-path-answer")
        if bw and any(avail[i] < bw for i in ref.iids() if ref.up(i)):
            stats.inc("probe:bandwidth-excluded")


def displays(world, stats=None):
    """The printed tables show the elements' state."""
    ref, m = world.ref, world.m

    def table(fn):
        text = env.captured(fn)
        return sorted(" ".join(x.split()) for x in text.splitlines()[1:] if x.strip())

    def row(*cells):
        return " ".join(" ".join(str(c) for c in cells).split())
    ends = {i: (ref.iname(i)[0], ref.iname(i)[1], ref.ends(i)[1]) for i in ref.iids()}
    same("display_interface_status", table(m.display_interface_status),
         sorted(row(*ends[i], not ref.up(i)) for i in ends))
    same("display_interfaces_traffic", table(m.display_interfaces_traffic),
         sorted(row(*ends[i], repr(world.intf(i).traffic)) for i in ends))
    same("display_node_status", table(m.display_node_status),
         sorted(row(n, x["failed"]) for n, x in ref.nodes.items()))
    if stats is not None:
        stats.inc("audited:displays")
