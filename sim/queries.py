"""What can be asked of a simulated model, each question as plain data and each answer too.

A question is [name, k1, k2, ...] with numbers that pick elements (modulo how many there are), so
that it makes sense for any network."""

from . import env
from .reports import ckey, ikey


def canon(x):
    """An answer as plain data.  Sets, and lists of whole elements, lose their order."""
    kind = type(x).__name__
    if kind == "Interface":
        return ("I",) + ikey(x)
    if kind == "Demand":
        return ("D",) + ckey(x)
    if kind == "RSVP_LSP":
        return ("L",) + ckey(x)
    if kind == "Node":
        return ("N", x.name)
    if kind == "SRLG":
        return ("G", x.name)
    if kind == "Circuit":
        return ("C",) + tuple(sorted((ikey(x.interface_a), ikey(x.interface_b))))
    if isinstance(x, dict):
        return ("dict",) + tuple(sorted(((canon(k), canon(v)) for k, v in x.items()), key=repr))
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted((canon(v) for v in x), key=repr))
    if isinstance(x, (list, tuple)):
        return ("list",) + tuple(canon(v) for v in x)
    if hasattr(x, "__next__"):
        return ("list",) + tuple(sorted((canon(v) for v in x), key=repr))
    return x


def bag(x):
    """A list whose order means nothing."""
    if isinstance(x, (list, tuple, set)):
        return ("bag",) + tuple(sorted((canon(v) for v in x), key=repr))
    return canon(x)


def paths(x):
    """{'path': [...], ...} or a list of paths: the paths in any order, each in its own."""
    if isinstance(x, dict):
        return ("paths",) + tuple(sorted(((k, bag(v) if k == "path" else canon(v)) for k, v in x.items()), key=repr))
    return bag(x)


def detail(x):
    if isinstance(x, dict):
        return ("detail",) + tuple(sorted((canon(v) for v in x.values()), key=repr))
    return canon(x)


def groups(x):
    return ("groups",) + tuple(sorted((k, bag(v)) for k, v in x.items()))


def diagnostics(x):
    return tuple(sorted((k, canon(v) if hasattr(v, "__next__") else bag(v)) for k, v in x.items()))


class Ask:
    """Questions to one world.  The elements are looked up once, before anything runs."""

    def __init__(self, world, lenient=False):
        self.lenient = lenient      # of a model that was never simulated, which may raise anything
        self.w = world
        self.m = world.m
        ref = world.ref
        self.nodes = sorted(ref.nodes)
        self.iids = sorted(ref.iids())
        self.inames = [ref.iname(i) for i in self.iids]
        self.ends = [ref.ends(i) for i in self.iids]
        self.dkeys = sorted(ref.demands)
        self.lkeys = sorted(ref.lsps)
        self.gnames = sorted(ref.srlgs)
        self.N = [world.node(n) for n in self.nodes]
        self.I = [world.intf(i) for i in self.iids]  # noqa: E741
        self.D = [world.demand(k) for k in self.dkeys]
        self.L = [world.lsp(k) for k in self.lkeys]
        by = {g.name: g for g in self.m.srlg_objects}
        self.G = [by[g] for g in self.gnames]
        self.C = sorted(self.m.circuit_objects, key=canon)

    def ask(self, q):
        """The answer (or the documented refusal) as plain data; other exceptions go through."""
        fn = QUERIES[q[0]]
        try:
            return fn(self, *q[1:])
        except env.ModelException as e:
            return ("refused", type(e).__name__, e.args[0] if e.args and isinstance(e.args[0], str) else "")
        except (LookupError, AttributeError, TypeError, ArithmeticError) as e:
            if not self.lenient:
                raise
            return ("refused", type(e).__name__)


def pick(items, k):
    return items[k % len(items)] if items else None


def need(items):
    """Decorator: the question is about one of `items`."""
    def deco(fn):
        def ask(a, k=0, *rest):
            have = getattr(a, items)
            if not have:
                return "nothing to ask about"
            return fn(a, have[k % len(have)], *rest)
        return ask
    return deco


QUERIES = {}


def q(name, items=None):
    def deco(fn):
        QUERIES[name] = need(items)(fn) if items else fn
        return fn
    return deco


def two(a, i, j):
    s = pick(a.nodes, i)
    rest = [n for n in a.nodes if n != s]
    return s, (pick(rest, j) if rest else s)


# ---- of the model
@q("diagnostics")
def _(a, *k):
    return diagnostics(a.m.simulation_diagnostics())


@q("parallel_lsp_groups")
def _(a, *k):
    return groups(a.m.parallel_lsp_groups())


@q("parallel_demand_groups")
def _(a, *k):
    return groups(a.m.parallel_demand_groups())


@q("unrouted_demands")
def _(a, *k):
    return bag(a.m.get_unrouted_demand_objects())


@q("failed_lists")
def _(a, *k):
    m = a.m
    return (bag(m.get_failed_interface_objects()), bag(m.get_unfailed_interface_objects()),
            bag(m.get_failed_node_objects()), bag(m.get_non_failed_node_objects()))


@q("orphans")
def _(a, *k):
    return bag(a.m.get_orphan_node_objects())


@q("circuit_ids")
def _(a, *k):
    return canon(a.m.all_interface_circuit_ids)


@q("repr_model")
def _(a, *k):
    return repr(a.m)


@q("shortest")
def _(a, i=0, j=0, bw=0, *k):
    s, d = two(a, i, j)
    return paths(a.m.get_shortest_path(s, d, needed_bw=bw))


@q("all_paths")
def _(a, i=0, j=0, bw=0, inc=0, cutoff=4, *k):
    s, d = two(a, i, j)
    return paths(a.m.get_all_paths_reservable_bw(s, d, bool(inc % 2), 1 + cutoff % 5, bw))


@q("path_for_lsp", "L")
def _(a, lsp, i=0, j=0, bw=1, *k):
    if not isinstance(lsp.path, dict):
        return "unrouted"
    s, d = two(a, i, j)
    return paths(a.m.get_shortest_path_for_routed_lsp(s, d, lsp, bw or 1))


@q("interface_object", "inames")
def _(a, x, *k):
    return canon(a.m.get_interface_object(x[1], x[0]))


@q("interfaces_between", "ends")
def _(a, x, *k):
    return bag(a.m.get_interface_object_from_nodes(*x))


@q("circuit_of_interface", "inames")
def _(a, x, *k):
    return canon(a.m.get_circuit_object_from_interface(x[1], x[0]))


@q("node_object", "nodes")
def _(a, x, *k):
    return canon(a.m.get_node_object(x))


@q("node_interfaces", "nodes")
def _(a, x, *k):
    return bag(a.m.get_node_interfaces(x))


@q("demands_from_to", "nodes")
def _(a, x, *k):
    return bag(a.m.get_demand_objects_source_node(x)), bag(a.m.get_demand_objects_dest_node(x))


@q("demand_object", "dkeys")
def _(a, x, *k):
    return canon(a.m.get_demand_object(*x))


@q("lsp_object", "lkeys")
def _(a, x, *k):
    return canon(a.m.get_rsvp_lsp(*x))


@q("srlg_object", "gnames")
def _(a, x, *k):
    return canon(a.m.get_srlg_object(x))


@q("unknown")
def _(a, i=0, *k):
    m = a.m
    fns = [lambda: m.get_node_object("?ghost"), lambda: m.get_interface_object("?ghost", pick(a.nodes, i)),
           lambda: m.get_demand_object(pick(a.nodes, i), pick(a.nodes, i), "?ghost"),
           lambda: m.get_rsvp_lsp(pick(a.nodes, i), pick(a.nodes, i), "?ghost"),
           lambda: m.get_srlg_object("?ghost"),
           lambda: m.get_circuit_object_from_interface("?ghost", pick(a.nodes, i))]
    return canon(fns[i % len(fns)]())


# ---- of elements
@q("interface", "I")
def _(a, o, *k):
    return (o.traffic, o.utilization, o.reserved_bandwidth, o.reservable_bandwidth, o.failed, o.cost, o.capacity,
            bag(o.srlgs), repr(o))


@q("interface_demands", "I")
def _(a, o, *k):
    return bag(o.demands(a.m))


@q("interface_lsps", "I")
def _(a, o, *k):
    return bag(o.lsps(a.m))


@q("remote_interface", "I")
def _(a, o, *k):
    return canon(o.get_remote_interface(a.m)), canon(o.get_circuit_object(a.m))


@q("node", "N")
def _(a, o, *k):
    return (o.failed, o.lat, o.lon, o.igp_shortcuts_enabled, bag(o.interfaces(a.m)), bag(o.adjacent_nodes(a.m)),
            bool(a.m.is_node_an_orphan(o)), bag(o.srlgs), repr(o))


@q("demand", "D")
def _(a, o, *k):
    return o.traffic, bag(o.path) if not isinstance(o.path, str) else o.path, detail(o.path_detail), repr(o)


@q("lsp", "L")
def _(a, o, *k):
    return (canon(o.path), o.reserved_bandwidth, o.setup_bandwidth, o.manual_metric, repr(o))


@q("lsp_metric", "L")
def _(a, o, *k):
    return o.effective_metric(a.m), o.topology_metric(a.m)


@q("lsp_traffic", "L")
def _(a, o, *k):
    return o.traffic_on_lsp(a.m)


@q("lsp_demands", "L")
def _(a, o, *k):
    return bag(o.demands_on_lsp(a.m))


@q("srlg", "G")
def _(a, o, *k):
    return o.failed, bag(o.interface_objects), bag(o.node_objects), repr(o)


@q("circuit", "C")
def _(a, o, *k):
    return bag(o.get_circuit_interfaces(a.m)), o.failed(a.m), repr(o)


NAMES = sorted(QUERIES)
HEAVY = ["diagnostics", "parallel_lsp_groups", "parallel_demand_groups", "shortest", "all_paths", "path_for_lsp",
         "lsp_traffic", "lsp_metric", "interface_demands", "interface_lsps", "lsp_demands", "demand",
         "interfaces_between", "circuit_of_interface"]


def draw(r):
    name = r.choice(HEAVY) if r.random() < 0.6 else r.choice(NAMES)
    return [name, r.randint(0, 9), r.randint(0, 9), r.choice([0, 0, 1, 6, 12, 24, 60]), r.randint(0, 1),
            r.randint(1, 5)] if name == "path_for_lsp" else [
        name, r.randint(0, 9), r.randint(0, 9), r.choice([0, 0, 1, 6, 12, 24, 60]), r.randint(0, 1), r.randint(0, 4)]
