"""What the model shows after a simulation, and the checks of it against the reference.

Every audit takes (ref, snap) and raises Violation.  `snap` is plain data."""

from . import ref as R
from .core import Violation
from .ref import TooBig, ecmp, shortest


class Malformed(Exception):
    """The model shows something that is not a value of the documented kind."""


def snapshot(world):
    try:
        snap = Snap(world)
        snap.text = snap.summary()
        return snap
    except (Malformed, KeyError, TypeError, AttributeError, IndexError, ValueError,
            ZeroDivisionError) as e:
        raise Violation("malformed-state", "the model's state cannot be read: {}: {}".format(
            type(e).__name__, str(e)[:300])) from e


class Snap:
    """Observable state of the model, as plain data (identifiers as in ref)."""

    def __init__(self, world):
        ref, m = world.ref, world.m
        names = ref.by_name()
        self.ints = {}
        self.order = []
        for i in m.interface_objects:
            iid = names.get((i.node_object.name, i.name))
            if iid is None or iid in self.ints:
                raise Violation("int-set", "unexpected or duplicate interface {!r}".format(i))
            self.ints[iid] = {
                "traffic": i.traffic, "res": i.reserved_bandwidth,
                "avail": i.reservable_bandwidth, "failed": i.failed,
                "util": i.utilization, "cap": i.capacity, "cost": i.cost,
            }
        if len(self.ints) != len(names):
            missing = sorted(ref.iname(i) for i in set(names.values()) - set(self.ints))
            raise Violation("int-set", "interfaces lost from the model: {}".format(missing))
        self.lsps = {}
        for x in m.rsvp_lsp_objects:
            key = (x.source_node_object.name, x.dest_node_object.name, x.lsp_name)
            if key in self.lsps:
                raise Violation("lsp-set", "duplicate LSP {}".format(key))
            if isinstance(x.path, dict):
                self.lsps[key] = {
                    "path": tuple(self._iid(names, i) for i in x.path["interfaces"]),
                    "cost": x.path["path_cost"], "base": x.path["baseline_path_reservable_bw"],
                    "res": x.reserved_bandwidth, "setup": x.setup_bandwidth,
                }
            else:
                self.lsps[key] = None
        if set(self.lsps) != set(ref.lsps):
            raise Violation("lsp-set", "LSPs {} instead of {}".format(sorted(self.lsps), sorted(ref.lsps)))
        self.unrouted_res = {
            (x.source_node_object.name, x.dest_node_object.name, x.lsp_name): x.reserved_bandwidth
            for x in m.rsvp_lsp_objects if not isinstance(x.path, dict)
        }
        self.demands = {}
        self.detail = {}
        self.traffic = {}
        for d in m.demand_objects:
            key = (d.source_node_object.name, d.dest_node_object.name, d.name)
            if key in self.demands:
                raise Violation("demand-set", "duplicate demand {}".format(key))
            self.traffic[key] = d.traffic
            if isinstance(d.path, str):
                self.demands[key] = None
                self.detail[key] = d.path_detail if isinstance(d.path_detail, str) else "routed"
            else:
                self.demands[key] = [tuple(self._item(names, x) for x in p) for p in d.path]
                det = d.path_detail
                if isinstance(det, str):
                    self.detail[key] = det
                else:
                    self.detail[key] = [
                        (tuple(self._item(names, x)
                               for x in (info["items"] if "items" in info else info["interfaces"])),
                         info["path_traffic"],
                         {self._item(names, x): n for x, n in info.get("splits", {}).items()})
                        for info in det.values()
                    ]
        if set(self.demands) != set(ref.demands):
            raise Violation("demand-set", "demands {} instead of {}".format(
                sorted(self.demands), sorted(ref.demands)))
        self.nodes = {}
        for n in m.node_objects:
            if n.name in self.nodes:
                raise Violation("node-set", "duplicate node {!r}".format(n.name))
            self.nodes[n.name] = n.failed
        if set(self.nodes) != set(ref.nodes):
            raise Violation("node-set", "nodes {} instead of {}".format(
                sorted(self.nodes), sorted(ref.nodes)))

        self._check_types()

    def _check_types(self):
        def num(x):
            return isinstance(x, (int, float)) and not isinstance(x, bool) and x == x
        for iid, v in self.ints.items():
            if not (num(v["traffic"]) or v["traffic"] == "Down"):
                raise Malformed("interface {} shows traffic {!r}".format(iid, v["traffic"]))
            if not num(v["res"]) or not num(v["avail"]) or not num(v["cap"]):
                raise Malformed("interface {} shows {!r}".format(iid, v))
            if not (num(v["util"]) or isinstance(v["util"], str)):
                raise Malformed("interface {} shows utilization {!r}".format(iid, v["util"]))
            if num(v["traffic"]) and not num(v["util"]):
                raise Malformed("interface {} shows utilization {!r}".format(iid, v["util"]))
        for k, v in self.lsps.items():
            if v is not None and not (num(v["cost"]) and num(v["base"])):
                raise Malformed("LSP {} shows {!r}".format(k, v))
            if v is not None and not (num(v["res"]) and num(v["setup"])):
                raise Malformed("LSP {} shows {!r}".format(k, v))
        for k, det in self.detail.items():
            if not isinstance(det, str) and not all(num(x[1]) for x in det):
                raise Malformed("demand {} shows path detail {!r}".format(k, det))

    @staticmethod
    def _iid(names, i):
        iid = names.get((i.node_object.name, i.name))
        if iid is None:
            raise Violation("unknown-int", "a path uses {!r}, which is not in the model".format(i))
        return iid

    def _item(self, names, x):
        if hasattr(x, "lsp_name"):
            return ("L", (x.source_node_object.name, x.dest_node_object.name, x.lsp_name))
        return ("I", self._iid(names, x))

    def routed(self):
        return {k: v for k, v in self.lsps.items() if v is not None}

    def summary(self):
        """Compact, for the event log."""
        return repr((
            sorted((k, round(v["traffic"], 3) if not isinstance(v["traffic"], str) else v["traffic"],
                    v["res"]) for k, v in self.ints.items()),
            sorted((k, v and v["path"]) for k, v in self.lsps.items()),
            sorted((k, v and sorted(v)) for k, v in self.demands.items()),
        ))


def items_of(path, snap):
    """Interfaces a path of items crosses, in order."""
    out = []
    for kind, x in path:
        if kind == "I":
            out.append(x)
        else:
            lsp = snap.lsps.get(x)
            if lsp is None:
                raise Violation("path-lsp", "a demand rides LSP {}, which is not routed".format(x))
            out.extend(lsp["path"])
    return out


# ------------------------------------------------------------------ failure state
def failure_state(ref, snap, m):
    bad = {n: snap.nodes[n] for n in ref.nodes if snap.nodes[n] != ref.nodes[n]["failed"]}
    if bad:
        raise Violation("node-state", "node failed flags {} (reference says the opposite)".format(bad))
    bad = {
        ref.iname(i): snap.ints[i]["failed"] for i in ref.iids()
        if snap.ints[i]["failed"] != ref.links[i[0]]["failed"]
    }
    if bad:
        raise Violation("int-state", "interface failed flags {} (reference says the opposite)".format(bad))
    srlgs = {s.name: s for s in m.srlg_objects}
    if set(srlgs) != set(ref.srlgs) or len(m.srlg_objects) != len(srlgs):
        raise Violation("srlg-state", "SRLGs {} instead of {}".format(sorted(srlgs), sorted(ref.srlgs)))
    names = ref.by_name()
    for s, o in srlgs.items():
        if o.failed != ref.srlgs[s]["failed"]:
            raise Violation("srlg-state", "SRLG {} failed={}".format(s, o.failed))
        have = {names.get((i.node_object.name, i.name)) for i in o.interface_objects}
        want = {(lid, x) for lid, ln in ref.links.items() if s in ln["srlgs"] for x in "ab"}
        if have != want:
            raise Violation("srlg-members", "SRLG {} has interfaces {} instead of {}".format(
                s, have, want))
        have = {n.name for n in o.node_objects}
        want = {n for n in ref.nodes if s in ref.nodes[n]["srlgs"]}
        if have != want:
            raise Violation("srlg-members", "SRLG {} has nodes {} instead of {}".format(s, have, want))
    # the derived views
    have = {names.get((i.node_object.name, i.name)) for i in m.get_failed_interface_objects()}
    want = {i for i in ref.iids() if not ref.up(i)}
    if have != want:
        raise Violation("failed-view", "get_failed_interface_objects gives {}".format(have))
    have = {names.get((i.node_object.name, i.name)) for i in m.get_unfailed_interface_objects()}
    if have != set(ref.iids()) - want:
        raise Violation("failed-view", "get_unfailed_interface_objects gives {}".format(have))
    have = {n.name for n in m.get_failed_node_objects()}
    want = {n for n in ref.nodes if ref.nodes[n]["failed"]}
    if have != want:
        raise Violation("failed-view", "get_failed_node_objects gives {}".format(have))
    have = {n.name for n in m.get_non_failed_node_objects()}
    if have != set(ref.nodes) - want:
        raise Violation("failed-view", "get_non_failed_node_objects gives {}".format(have))


def invariants(ref, snap, m):
    """Consistency of the failure state that needs no reference history."""
    for lid, ln in ref.links.items():
        fa, fb = snap.ints[(lid, "a")]["failed"], snap.ints[(lid, "b")]["failed"]
        if fa != fb:
            raise Violation("half-failed", "the two ends of circuit {} differ: {} {}".format(
                (ln["a"], ln["an"]), fa, fb))
        for n in (ln["a"], ln["b"]):
            if snap.nodes[n] and not fa:
                raise Violation("up-on-failed-node", "circuit {}-{} is up while node {} is failed".format(
                    ln["a"], ln["b"], n))
        if ref.srlg_failed(ln["srlgs"]) and not fa:
            raise Violation("up-in-failed-srlg", "circuit {}-{} is up in a failed SRLG".format(
                ln["a"], ln["b"]))
    for n, nd in ref.nodes.items():
        if ref.srlg_failed(nd["srlgs"]) and not snap.nodes[n]:
            raise Violation("up-in-failed-srlg", "node {} is up in a failed SRLG".format(n))


# ------------------------------------------------------------------ demand paths
def expected_paths(ref, snap, key, cache):
    """('lsp', [[lsp]...]) | ('igp', [paths of items]) | ('none', None)"""
    s, d, _ = key
    lsps = R.best_lsps(ref, snap.lsps, s, d, cache)
    if lsps:
        return "lsp", [(("L", k),) for k in lsps]
    _, paths = shortest(ref.edges(), s, d)
    if not paths:
        return "none", None
    if ref.flex:
        return "igp", R.shortcut_paths(ref, snap.lsps, paths, cache)
    return "igp", [tuple(("I", i) for i in p) for p in paths]


def fmt(ref, path):
    return [ref.iname(x) if k == "I" else ("LSP",) + x for k, x in path]


def demand_paths(ref, snap, stats=None, kinds=("lsp", "igp", "none"), shortcuts=None):
    """Each demand takes exactly the paths the reference says."""
    cache = {}
    for key in sorted(ref.demands):
        try:
            kind, want = expected_paths(ref, snap, key, cache)
        except TooBig:
            if stats is not None:
                stats.inc("skipped:path-explosion")
            continue
        if kind not in kinds:
            continue
        if kind == "igp" and shortcuts is not None:
            has = any(x[0] == "L" for p in want for x in p)
            seen = bool(snap.demands[key]) and any(x[0] == "L" for p in snap.demands[key] for x in p)
            if (has or seen) != shortcuts:
                continue
        got = snap.demands[key]
        if stats is not None:
            stats.inc("audited:demand-" + kind)
            if kind == "igp" and len(want) > 1:
                stats.inc("probe:ecmp-demand")
            if kind == "igp" and any(x[0] == "L" for p in want for x in p):
                stats.inc("probe:shortcut-demand")
            if kind == "lsp" and len(want) > 1:
                stats.inc("probe:multi-lsp-demand")
        if kind == "none":
            if got is not None:
                raise Violation("path-none", "demand {} is routed {} with no path between its nodes".format(
                    key, [fmt(ref, p) for p in got]))
            continue
        if got is None:
            raise Violation("path-unrouted", "demand {} is unrouted; expected {}".format(
                key, [fmt(ref, p) for p in want]))
        if len(got) != len(set(got)):
            raise Violation("path-dup", "demand {} lists a path twice: {}".format(
                key, [fmt(ref, p) for p in got]))
        if set(got) != set(want):
            raise Violation("path-" + kind, "demand {} takes {} instead of {}".format(
                key, sorted(fmt(ref, p) for p in got), sorted(fmt(ref, p) for p in want)))


# ------------------------------------------------------------------ loads
def expected_loads(ref, snap, stats=None):
    """{iid: (traffic, tolerance)} given the observed LSP paths, or None (path explosion)."""
    load = {i: 0.0 for i in ref.iids() if ref.up(i)}
    tol = {i: 1e-6 for i in load}
    cache = {}
    edges = ref.edges()
    for key, t in sorted(ref.demands.items()):
        s, d, _ = key
        lsps = R.best_lsps(ref, snap.lsps, s, d, cache)
        if lsps:
            for k in lsps:
                for i in snap.lsps[k]["path"]:
                    if i in load:
                        load[i] += t / len(lsps)
            continue
        frac = ecmp(edges, s, d)
        if frac is None:
            continue
        if not (ref.flex and any(nd["sc"] for nd in ref.nodes.values())):
            for i, f in frac.items():
                load[i] += t * f
                tol[i] += 0.051 if not ref.flex else 1e-6
            continue
        _, paths = shortest(edges, s, d)
        paths = R.shortcut_paths(ref, snap.lsps, paths, cache)
        for p, f in zip(paths, R.split_over_paths(paths)):
            for kind, x in p:
                if kind == "I":
                    load[x] += t * f
                else:
                    for i in snap.lsps[x]["path"]:
                        if i in load:
                            load[i] += t * f
                            tol[i] += 0.051
    return load, tol


def loads(ref, snap, stats=None):
    try:
        load, tol = expected_loads(ref, snap, stats)
    except TooBig:
        if stats is not None:
            stats.inc("skipped:path-explosion")
        return
    if stats is not None:
        stats.inc("audited:loads")
        if any(v > 0 for v in load.values()):
            stats.inc("probe:loaded-network")
    for i in ref.iids():
        got = snap.ints[i]["traffic"]
        if not ref.up(i):
            if got != "Down":
                raise Violation("load-down", "failed interface {} shows traffic {!r}".format(ref.iname(i), got))
            if snap.ints[i]["util"] != "Int is down":
                raise Violation("load-down", "failed interface {} shows utilization {!r}".format(
                    ref.iname(i), snap.ints[i]["util"]))
            continue
        if isinstance(got, str) or abs(got - load[i]) > tol[i]:
            raise Violation("load", "interface {} carries {!r} instead of {:.4f} (tolerance {:.3f})".format(
                ref.iname(i), got, load[i], tol[i]))
        want = got / snap.ints[i]["cap"] * 100
        if abs(snap.ints[i]["util"] - want) > 0.0051:
            raise Violation("utilization", "interface {} shows utilization {} with traffic {} of {}".format(
                ref.iname(i), snap.ints[i]["util"], got, snap.ints[i]["cap"]))


# ------------------------------------------------------------------ conservation
def conservation(ref, snap, stats=None):
    """Holds for whatever paths were chosen: judged from what the model itself reports."""
    perf = not ref.flex
    load = {i: 0.0 for i in ref.iids()}
    tol = {i: 1e-6 for i in load}
    net = {n: 0.0 for n in ref.nodes}
    for key, t in sorted(ref.demands.items()):
        s, d, _ = key
        paths, det = snap.demands[key], snap.detail[key]
        if paths is None:
            if det != "Unrouted_detail":
                raise Violation("stale-detail", "unrouted demand {} still has a path detail".format(key))
            continue
        if isinstance(det, str):
            raise Violation("no-detail", "routed demand {} has path detail {!r}".format(key, det))
        if not paths:
            raise Violation("no-path", "demand {} is neither routed nor unrouted".format(key))
        if sorted(p for p, _, _ in det) != sorted(paths):
            raise Violation("detail-paths", "path detail of {} lists other paths than its path".format(key))
        total = sum(x for _, x, _ in det)
        if abs(total - t) > 1e-6 + (0.00006 * len(det) if perf else 0):
            raise Violation("detail-sum", "the paths of demand {} carry {} of {}".format(key, total, t))
        net[s] += t
        net[d] -= t
        for p, x, splits in det:
            crossed = items_of(p, snap)
            at = s
            for i in crossed:
                u, v = ref.ends(i)
                if u != at:
                    raise Violation("broken-path", "demand {} path {} is not contiguous".format(
                        key, fmt(ref, p)))
                if not ref.up(i):
                    raise Violation("failed-in-path", "demand {} rides failed interface {}".format(
                        key, ref.iname(i)))
                at = v
            if at != d:
                raise Violation("broken-path", "demand {} path {} does not end at its destination".format(
                    key, fmt(ref, p)))
            for i in crossed:
                load[i] += x
                if any(k == "L" for k, _ in p) and len(p) > 1 or perf:
                    tol[i] += 0.051
            if splits:
                last = splits.get(p[-1])
                if last and abs(t / last - x) > 1e-4 + 1e-6 * t:
                    raise Violation("detail-splits", "demand {} path {} carries {} with {} splits of {}".format(
                        key, fmt(ref, p), x, last, t))
    if stats is not None:
        stats.inc("audited:conservation")
    for i in ref.iids():
        got = snap.ints[i]["traffic"]
        if not ref.up(i):
            if got != "Down":
                raise Violation("load-down", "failed interface {} shows traffic {!r}".format(ref.iname(i), got))
            continue
        if isinstance(got, str) or abs(got - load[i]) > tol[i]:
            raise Violation("load-sum", "interface {} carries {!r}; the demand paths over it carry {:.4f}".format(
                ref.iname(i), got, load[i]))
    for n in ref.nodes:
        bal = 0.0
        slack = 1e-6
        for i in ref.iids():
            if not ref.up(i):
                continue
            u, v = ref.ends(i)
            if n == u:
                bal += snap.ints[i]["traffic"]
                slack += tol[i]
            elif n == v:
                bal -= snap.ints[i]["traffic"]
                slack += tol[i]
        if abs(bal - net[n]) > slack:
            raise Violation("node-balance", "node {} sends {:.4f} more than it receives; its demands say {:.4f}".format(
                n, bal, net[n]))


# ------------------------------------------------------------------ reservations
def reservations(ref, snap, stats=None, tol=0.051):
    held = {i: 0.0 for i in ref.iids()}
    users = {i: 0 for i in ref.iids()}
    groups = {}
    for k in ref.lsps:
        groups.setdefault((k[0], k[1]), []).append(k)
    for k in sorted(ref.lsps):
        o = snap.lsps[k]
        if o is None:
            if isinstance(snap.unrouted_res[k], (int, float)) and snap.unrouted_res[k] != 0:
                raise Violation("unrouted-holds", "unrouted LSP {} holds {}".format(k, snap.unrouted_res[k]))
            continue
        if not isinstance(o["res"], (int, float)) or o["res"] < 0:
            raise Violation("lsp-res", "routed LSP {} has reserved bandwidth {!r}".format(k, o["res"]))
        at = k[0]
        if not o["path"]:
            raise Violation("lsp-path", "routed LSP {} has an empty path".format(k))
        seen = {at}
        for i in o["path"]:
            u, v = ref.ends(i)
            if u != at or v in seen:
                raise Violation("lsp-path", "LSP {} path {} is not a simple chain".format(
                    k, [ref.iname(x) for x in o["path"]]))
            if not ref.up(i):
                raise Violation("lsp-failed-int", "LSP {} crosses failed interface {}".format(k, ref.iname(i)))
            if not ref.links[i[0]]["rsvp"][i[1]]:
                raise Violation("lsp-no-rsvp", "LSP {} crosses {}, which is not RSVP enabled".format(
                    k, ref.iname(i)))
            seen.add(v)
            at = v
            held[i] += o["res"]
            users[i] += 1
        if at != k[1]:
            raise Violation("lsp-path", "LSP {} path does not reach its destination".format(k))
        if o["cost"] != sum(ref.icost(i) for i in o["path"]):
            raise Violation("lsp-cost", "LSP {} has path cost {}".format(k, o["cost"]))
        group = groups[(k[0], k[1])]
        total = sum(t for dk, t in ref.demands.items() if dk[:2] == k[:2])
        routed = [x for x in group if snap.lsps[x] is not None]
        bw = ref.lsps[k]["bw"]
        allowed = [bw] if bw is not None else [total / len(group), total / len(routed)]
        if all(abs(o["res"] - x) > 1e-6 for x in allowed):
            raise Violation("lsp-bw", "LSP {} reserves {} instead of one of {}".format(k, o["res"], allowed))
    if stats is not None:
        stats.inc("audited:reservations")
        if any(v > 0 for v in held.values()):
            stats.inc("probe:bandwidth-reserved")
        if any(n > 1 for n in users.values()):
            stats.inc("probe:shared-interface")
        if any(v is None for v in snap.lsps.values()):
            stats.inc("probe:unrouted-lsp")
    for i in ref.iids():
        if abs(snap.ints[i]["res"] - held[i]) > tol:
            raise Violation("int-res", "interface {} shows {} reserved; the LSPs over it reserve {:.4f}".format(
                ref.iname(i), snap.ints[i]["res"], held[i]))
        m = ref.reservable_max(i)
        if m is None:
            if snap.ints[i]["avail"] != -1:
                raise Violation("int-avail", "interface {} is not RSVP enabled but shows {} reservable".format(
                    ref.iname(i), snap.ints[i]["avail"]))
            continue
        if held[i] > m + tol + 0.05 * users[i]:
            raise Violation("oversubscribed", "LSPs reserve {:.4f} on {}, which allows {}".format(
                held[i], ref.iname(i), m))
        if abs(snap.ints[i]["avail"] - (m - held[i])) > 2 * tol:
            raise Violation("int-avail", "interface {} shows {} reservable instead of {:.4f}".format(
                ref.iname(i), snap.ints[i]["avail"], m - held[i]))


def rsvp_serial(ref, snap, stats=None):
    judge = R.RsvpJudge(ref, snap.lsps)
    try:
        ok = judge.explain()
    except TooBig:
        if stats is not None:
            stats.inc("skipped:rsvp-search")
        return
    if stats is not None:
        stats.inc("audited:rsvp-serial")
        for g, keys in judge.groups.items():
            n = sum(1 for k in keys if snap.lsps[k] is not None)
            if 0 < n < len(keys):
                stats.inc("probe:partly-routed-group")
                if any(snap.lsps[k] is not None and ref.lsps[k]["bw"] is None
                       and abs(snap.lsps[k]["res"] - judge.traffic[g] / n) < 1e-6
                       and judge.traffic[g] > 0 for k in keys):
                    stats.inc("probe:resignaled-lsp")
    if not ok:
        show = {
            k: None if v is None else ([ref.iname(i) for i in v["path"]], v["res"], v["base"])
            for k, v in sorted(snap.lsps.items())
        }
        raise Violation("rsvp-serial", "no signalling order explains the LSPs: {}".format(show))


# ------------------------------------------------------------------ configuration
class FailSnap:
    """The failure state only: readable at any time, also before a simulation."""

    def __init__(self, world):
        ref, m = world.ref, world.m
        names = ref.by_name()
        self.ints = {}
        for i in m.interface_objects:
            iid = names.get((i.node_object.name, i.name))
            if iid is None or iid in self.ints:
                raise Violation("int-set", "unexpected or duplicate interface {!r}".format(i))
            self.ints[iid] = {"failed": i.failed}
        if len(self.ints) != len(names):
            raise Violation("int-set", "interfaces lost from the model: {}".format(
                sorted(ref.iname(i) for i in set(names.values()) - set(self.ints))))
        self.nodes = {n.name: n.failed for n in m.node_objects}
        if set(self.nodes) != set(ref.nodes) or len(m.node_objects) != len(ref.nodes):
            raise Violation("node-set", "nodes {} instead of {}".format(
                sorted(n.name for n in m.node_objects), sorted(ref.nodes)))


def diff(what, got, want):
    if got == want:
        return
    if isinstance(got, dict):
        bad = {k: (got.get(k, "missing"), want.get(k, "missing"))
               for k in sorted(set(got) | set(want), key=repr) if got.get(k, "?") != want.get(k, "?")}
        raise Violation("config-" + what, "{} differ (model, reference): {}".format(what, str(bad)[:600]))
    raise Violation("config-" + what, "{}: {} instead of {}".format(what, got, want))


def config(world):
    """Everything that is configured, compared with the reference."""
    ref, m = world.ref, world.m
    snap = FailSnap(world)
    failure_state(ref, snap, m)
    names = ref.by_name()
    diff("interfaces", {
        names[(i.node_object.name, i.name)]: (i.cost, i.capacity, i.percent_reservable_bandwidth,
                                              i.rsvp_enabled, i.remote_node_object.name)
        for i in m.interface_objects
    }, {
        i: (ref.icost(i), ref.links[i[0]]["cap"], ref.links[i[0]]["pct"][i[1]],
            ref.links[i[0]]["rsvp"][i[1]], ref.ends(i)[1])
        for i in ref.iids()
    })
    nodes = {id(n) for n in m.node_objects}
    for i in m.interface_objects:
        if id(i.node_object) not in nodes or id(i.remote_node_object) not in nodes:
            raise Violation("config-copy", "{!r} refers to a node object that is not the model's".format(i))
    if len(m.demand_objects) != len(ref.demands) or len(m.rsvp_lsp_objects) != len(ref.lsps):
        raise Violation("config-demands", "{} demands, {} LSPs instead of {}, {}".format(
            len(m.demand_objects), len(m.rsvp_lsp_objects), len(ref.demands), len(ref.lsps)))
    diff("demands", {
        (d.source_node_object.name, d.dest_node_object.name, d.name): d.traffic for d in m.demand_objects
    }, dict(ref.demands))
    diff("LSPs", {
        (x.source_node_object.name, x.dest_node_object.name, x.lsp_name):
        (x.configured_setup_bandwidth, x.manual_metric) for x in m.rsvp_lsp_objects
    }, {
        k: (x["bw"], "not set" if x["mm"] is None else x["mm"]) for k, x in ref.lsps.items()
    })
    for x in list(m.demand_objects) + list(m.rsvp_lsp_objects):
        if id(x.source_node_object) not in nodes or id(x.dest_node_object) not in nodes:
            raise Violation("config-copy", "{!r} refers to a node object that is not the model's".format(x))
    if ref.flex:
        diff("shortcuts", {n.name: n.igp_shortcuts_enabled for n in m.node_objects},
             {n: x["sc"] for n, x in ref.nodes.items()})
