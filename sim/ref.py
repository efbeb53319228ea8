"""Executable reference: the network as plain data, and what routing it must give.

Nothing in here uses pyNTM or networkx.  Interfaces are identified by (link id, side);
side 'a' egresses link['a'] towards link['b'].
"""

import heapq
import itertools

INF = float("inf")
PATH_LIMIT = 600


class TooBig(Exception):
    """The reference declines (path explosion): the audit is skipped and counted."""


class Ref:
    """The reference world: the configuration and failure state after a history."""

    def __init__(self, spec):
        self.flex = spec["model"] in ("flex", "plm")
        self.nodes = {}
        self.links = {}
        self.demands = {}
        self.lsps = {}
        self.srlgs = {}
        for n in spec["nodes"]:
            self.nodes[n["name"]] = {"failed": False, "srlgs": set(), "sc": bool(n.get("sc"))}
        for ln in spec["links"]:
            self.links[ln["id"]] = self._link(ln)
        for d in spec["demands"]:
            self.demands[(d["s"], d["d"], d["n"])] = d["t"]
        for x in spec["lsps"]:
            self.lsps[(x["s"], x["d"], x["n"])] = {"bw": x.get("bw"), "mm": x.get("mm")}

    @staticmethod
    def _link(ln):
        return {
            "a": ln["a"], "b": ln["b"], "an": ln["an"], "bn": ln["bn"],
            "cost": {"a": ln["ca"], "b": ln["cb"]},
            "cap": ln["cap"],
            "pct": {"a": ln.get("pa", 100), "b": ln.get("pb", 100)},
            "rsvp": {"a": ln.get("ra", True), "b": ln.get("rb", True)},
            "failed": False, "srlgs": set(), "cid": ln.get("cid"),
        }

    # ---- identification
    def iname(self, iid):
        lid, side = iid
        ln = self.links[lid]
        return (ln["a"], ln["an"]) if side == "a" else (ln["b"], ln["bn"])

    def by_name(self):
        return {self.iname((lid, s)): (lid, s) for lid in self.links for s in "ab"}

    def ends(self, iid):
        ln = self.links[iid[0]]
        return (ln["a"], ln["b"]) if iid[1] == "a" else (ln["b"], ln["a"])

    def iids(self):
        return [(lid, s) for lid in self.links for s in "ab"]

    def up(self, iid):
        return not self.links[iid[0]]["failed"]

    def icost(self, iid):
        return self.links[iid[0]]["cost"][iid[1]]

    def reservable_max(self, iid):
        ln = self.links[iid[0]]
        if not ln["rsvp"][iid[1]]:
            return None
        return ln["cap"] * ln["pct"][iid[1]] / 100.0

    # ---- failure state machine
    def srlg_failed(self, names):
        return any(self.srlgs[s]["failed"] for s in names)

    def try_up(self, lid):
        ln = self.links[lid]
        if self.nodes[ln["a"]]["failed"] or self.nodes[ln["b"]]["failed"]:
            return False
        if self.srlg_failed(ln["srlgs"]):
            return False
        ln["failed"] = False
        return True

    def fail_node(self, name):
        self.nodes[name]["failed"] = True
        for ln in self.links.values():
            if name in (ln["a"], ln["b"]):
                ln["failed"] = True

    def unfail_node(self, name):
        if self.srlg_failed(self.nodes[name]["srlgs"]):
            return False
        self.nodes[name]["failed"] = False
        for lid, ln in self.links.items():
            if name in (ln["a"], ln["b"]):
                self.try_up(lid)
        return True

    # ---- graphs
    def edges(self, ok=None):
        """[(u, v, cost, iid)] over interfaces that satisfy `ok` (default: up)."""
        out = []
        for lid in self.links:
            for s in "ab":
                iid = (lid, s)
                if self.up(iid) if ok is None else ok(iid):
                    u, v = self.ends(iid)
                    out.append((u, v, self.icost(iid), iid))
        return out


def dist_to(edges, dest):
    radj = {}
    for u, v, c, iid in edges:
        radj.setdefault(v, []).append((u, c))
    dist = {dest: 0}
    heap = [(0, 0, dest)]
    n = 0
    while heap:
        d, _, x = heapq.heappop(heap)
        if d > dist.get(x, INF):
            continue
        for u, c in radj.get(x, ()):
            nd = d + c
            if nd < dist.get(u, INF):
                dist[u] = nd
                n += 1
                heapq.heappush(heap, (nd, n, u))
    return dist


def dag(edges, dist):
    out = {}
    for u, v, c, iid in edges:
        if u in dist and v in dist and dist[u] == c + dist[v]:
            out.setdefault(u, []).append((v, iid))
    return out


def shortest(edges, s, d, limit=PATH_LIMIT):
    """(cost, [path]) with path a tuple of iids; (None, []) when there is none."""
    dist = dist_to(edges, d)
    if s not in dist:
        return None, []
    nxt = dag(edges, dist)
    paths = []

    def walk(x, acc):
        if x == d:
            paths.append(tuple(acc))
            if len(paths) > limit:
                raise TooBig()
            return
        for v, iid in nxt[x]:
            acc.append(iid)
            walk(v, acc)
            acc.pop()

    walk(s, [])
    return dist[s], paths


def simple_paths(edges, s, d, cutoff, limit=PATH_LIMIT):
    adj = {}
    for u, v, c, iid in edges:
        adj.setdefault(u, []).append((v, iid))
    out = []
    if s == d:
        return out

    def walk(x, seen, acc):
        if len(acc) >= cutoff:
            return
        for v, iid in adj.get(x, ()):
            if v in seen:
                continue
            acc.append(iid)
            if v == d:
                out.append(tuple(acc))
                if len(out) > limit:
                    raise TooBig()
            else:
                walk(v, seen | {v}, acc)
            acc.pop()

    walk(s, {s}, [])
    return out


def ecmp(edges, s, d):
    """{iid: fraction} of hop-by-hop ECMP from s to d; None when d is unreachable."""
    dist = dist_to(edges, d)
    if s not in dist:
        return None
    nxt = dag(edges, dist)
    share = {s: 1.0}
    frac = {}
    for x in sorted((n for n in dist if dist[n] <= dist[s]), key=lambda n: -dist[n]):
        if x == d or x not in share:
            continue
        hops = nxt[x]
        for v, iid in hops:
            f = share[x] / len(hops)
            frac[iid] = frac.get(iid, 0.0) + f
            share[v] = share.get(v, 0.0) + f
    return frac


# ------------------------------------------------------------------ LSP binding
def igp_cost(ref, s, d, cache=None):
    key = (s, d)
    if cache is not None and key in cache:
        return cache[key]
    c = dist_to(ref.edges(), d).get(s)
    if cache is not None:
        cache[key] = c
    return c


def effective_metric(ref, key, cache=None):
    mm = ref.lsps[key]["mm"]
    return mm if mm is not None else igp_cost(ref, key[0], key[1], cache)


def best_lsps(ref, routed, s, d, cache=None):
    """The routed LSPs from s to d that traffic uses: those with the least metric."""
    group = [k for k in ref.lsps if k[0] == s and k[1] == d and routed.get(k) is not None]
    if not group:
        return []
    best = min(effective_metric(ref, k, cache) for k in group)
    return [k for k in group if effective_metric(ref, k, cache) == best]


# ------------------------------------------------------------------ IGP shortcuts
def node_seq(ref, path):
    return [ref.ends(path[0])[0]] + [ref.ends(i)[1] for i in path]


def shortcut_paths(ref, routed, paths, cache=None):
    """Least-cost interface paths -> item paths, with LSPs substituted.

    Items are ('I', iid) and ('L', lsp key)."""
    plain = [tuple(("I", i) for i in p) for p in paths]
    if not any(ref.nodes[n]["sc"] for p in paths for n in node_seq(ref, p)):
        return plain
    out = []
    seen = set()
    for p in paths:
        names = node_seq(ref, p)
        slots = []
        i = 0
        while i < len(names) - 1:
            took = False
            if ref.nodes[names[i]]["sc"]:
                for j in range(len(names) - 1, i, -1):
                    lsps = best_lsps(ref, routed, names[i], names[j], cache)
                    if lsps:
                        slots.append([("L", k) for k in lsps])
                        i = j
                        took = True
                        break
            if not took:
                slots.append([("I", p[i])])
                i += 1
        for combo in itertools.product(*slots):
            if combo not in seen:
                seen.add(combo)
                out.append(combo)
                if len(out) > PATH_LIMIT:
                    raise TooBig()
    if len(out) > 1:
        def metric(path):
            return sum(
                ref.icost(x[1]) if x[0] == "I" else effective_metric(ref, x[1], cache)
                for x in path
            )
        best = min(metric(p) for p in out)
        out = [p for p in out if metric(p) == best]
    return out


def split_over_paths(paths):
    """Hop-by-hop equal split over a set of item paths: [fraction for each path]."""
    out = []
    for p in paths:
        f = 1.0
        for i in range(len(p)):
            nexts = {q[i] for q in paths if len(q) > i and q[:i] == p[:i]}
            f /= len(nexts)
        out.append(f)
    return out


# ------------------------------------------------------------------ RSVP
def r1(x):
    return round(x, 1)


class RsvpJudge:
    """Is the observed LSP state the outcome of some serial signalling order?

    Groups (LSPs with the same source and destination) signal one after the other, the
    LSPs of a group one after the other; each takes any of the least-cost, then
    fewest-hop paths over up, RSVP-enabled interfaces with enough reservable bandwidth.
    When only part of a group could signal, its auto-bandwidth LSPs then try, in turn,
    to re-signal for an equal share of the group's traffic over any least-cost path,
    counting what they hold themselves as available.

    `obs`: {key: None | {'path': (iid,...), 'res': float, 'setup': float, 'base': float}}
    """

    MAX_GROUP = 8

    def __init__(self, ref, obs, budget=60000):
        self.ref = ref
        self.obs = obs
        self.budget = budget
        self.steps = 0
        groups = {}
        for k in ref.lsps:
            groups.setdefault((k[0], k[1]), []).append(k)
        self.groups = groups
        self.traffic = {
            g: sum(t for dk, t in ref.demands.items() if (dk[0], dk[1]) == g) for g in groups
        }
        self.base = {}
        for iid in ref.iids():
            if ref.up(iid):
                m = ref.reservable_max(iid)
                if m is not None:
                    self.base[iid] = m

    def _tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise TooBig()

    def _shortest(self, resid, need, s, d, own=(), own_bw=0.0):
        def ok(iid):
            if iid not in resid:
                return False
            r = r1(resid[iid])
            if iid in own:
                r += own_bw
            return r >= need - 1e-9
        edges = self.ref.edges(ok)
        return shortest(edges, s, d, limit=200)[1]

    def setup_choices(self, resid, need, s, d):
        paths = self._shortest(resid, need, s, d)
        if not paths:
            return []
        hops = min(len(p) for p in paths)
        return [p for p in paths if len(p) == hops]

    @staticmethod
    def _take(resid, path, bw):
        out = dict(resid)
        for i in path:
            out[i] = out[i] - bw
        return out

    def _base(self, resid, path, own=(), own_bw=0.0):
        return min(r1(resid[i]) + (own_bw if i in own else 0.0) for i in path)

    def explain_group(self, g, resid):
        keys = self.groups[g]
        if len(keys) > self.MAX_GROUP:
            raise TooBig()
        total = self.traffic[g]
        routed = [k for k in keys if self.obs[k] is not None]
        auto_bw = total / len(keys)
        need = {
            k: (auto_bw if self.ref.lsps[k]["bw"] is None else self.ref.lsps[k]["bw"])
            for k in keys
        }
        like = {k: (self.ref.lsps[k]["bw"], repr(self.obs[k] and sorted(self.obs[k].items()))) for k in keys}
        partial = 0 < len(routed) < len(keys)
        opt = total / len(routed) if partial else None

        def opt_phase(order, i, state, resid):
            """state: {key: (path, bw, base)}"""
            self._tick()
            while i < len(order) and self.ref.lsps[order[i]]["bw"] is not None:
                i += 1
            if i == len(order):
                return all(self._matches(k, state[k]) for k in order)
            k = order[i]
            path, bw, base = state[k]
            cands = self._shortest(resid, opt, g[0], g[1], own=path, own_bw=bw)
            if not cands:
                return self._matches(k, state[k]) and opt_phase(order, i + 1, state, resid)
            want = self.obs[k]["path"]
            if want not in cands:
                return False
            if abs(opt - bw) < 1e-9:
                new, after = (want, opt, self._base(resid, want, path, bw)), resid
            else:
                new = (want, opt, self._base(resid, want, path, bw))
                after = self._take(self._take(resid, path, -bw), want, opt)
            state = dict(state)
            state[k] = new
            return self._matches(k, new) and opt_phase(order, i + 1, state, after)

        def phase1(left, order, state, resid):
            self._tick()
            if not left:
                if not partial:
                    return all(self._matches(k, state[k]) for k in order)
                return opt_phase(order, 0, state, resid)
            choices = {}
            tried = set()
            for k in sorted(left):
                # LSPs with the same settings and the same outcome are interchangeable
                if like[k] in tried:
                    continue
                tried.add(like[k])
                if need[k] not in choices:
                    choices[need[k]] = self.setup_choices(resid, need[k], g[0], g[1])
                if not choices[need[k]] and self.obs[k] is None:
                    # what is left only shrinks, so its turn may as well be now
                    return phase1(left - {k}, order, state, resid)
            tried = set()
            for k in sorted(left):
                if like[k] in tried:
                    continue
                tried.add(like[k])
                cands = choices[need[k]]
                rest = left - {k}
                if not cands or self.obs[k] is None:
                    continue
                may_move = partial and self.ref.lsps[k]["bw"] is None
                if not may_move:
                    cands = [p for p in cands if p == self.obs[k]["path"]]
                for p in cands:
                    new = (p, need[k], self._base(resid, p))
                    if not may_move and not self._matches(k, new):
                        continue
                    st = dict(state)
                    st[k] = new
                    if phase1(rest, order + [k], st, self._take(resid, p, need[k])):
                        return True
            return False

        return phase1(frozenset(keys), [], {}, resid)

    def _matches(self, k, st):
        o = self.obs[k]
        if o["path"] != st[0] or abs(o["res"] - st[1]) > 1e-6:
            return False
        if o.get("setup") is not None and abs(o["setup"] - st[1]) > 1e-6:
            return False
        return o.get("base") is None or abs(o["base"] - st[2]) < 0.051

    def explain(self):
        """True / False, or raises TooBig."""
        glist = sorted(self.groups)
        if len(glist) > 7:
            raise TooBig()
        held = {}
        for g in glist:
            h = {}
            for k in self.groups[g]:
                o = self.obs[k]
                if o is not None:
                    for i in o["path"]:
                        h[i] = h.get(i, 0.0) + o["res"]
            held[g] = h
        memo = {}
        full = frozenset(glist)

        def go(done):
            if done == full:
                return True
            if done in memo:
                return memo[done]
            memo[done] = False
            resid = dict(self.base)
            for g in done:
                for i, b in held[g].items():
                    if i not in resid:
                        return False
                    resid[i] -= b
            for g in glist:
                if g not in done and self.explain_group(g, resid) and go(done | {g}):
                    memo[done] = True
                    return True
            return memo[done]

        return go(frozenset())
