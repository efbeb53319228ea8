"""Seeded generation of networks and histories (swarm style: every run its own mix)."""

from .ref import Ref
from .world import World


class Shadow(World):
    """The reference half of World, used to generate mostly-legal histories."""

    def __init__(self, spec):
        self.ref = Ref(spec)
        self.mul = spec.get("mul", 1)
        self.crowd = bool(spec.get("crowd"))
        self.deco = spec.get("deco", "{}")
        self.gone = []      # removed circuits
        self.old = set()    # (node, interface name) no longer in use

    def step(self, op):
        if not self.valid(op):
            return None
        if op[0] == "rename_int":
            self.old.add(self.ref.iname((op[1], op[2])))
        elif op[0] == "del_circuit":
            ln = self.ref.links[op[1]]
            self.gone.append({"a": ln["a"], "b": ln["b"], "an": ln["an"], "bn": ln["bn"], "cid": ln["cid"]})
            self.old |= {(ln[x], ln[x + "n"]) for x in "ab"}
        return self._apply_ref(op)


NAME_STYLES = ["letters", "digits", "prefix", "hyphen", "words", "random"]
WORDS = ["New York", "Zürich", "São Paulo", "r1.pop", "edge_7", "Down", "Unrouted", "P|E", "core 1",
         "A", "a", "none", "x:y", "(b)"]


# what names of interfaces, demands, LSPs and groups may look like
DECOS = ["{} 1", "é{}", "a-{}", "{}-1", "'{}'", '"{}"', "{},x", "0{}", "{}_1", "{}: (x)", "{}|", "NONE{}", "{{{}}}", "<{}>", "{}%",
         "\\{}", "{}-to-A", "Unrouted {}", "x" * 60 + "{}"]


def node_names(r, n, style=None):
    style = style or r.choice(NAME_STYLES)
    if n > 12 and style not in ("letters", "digits"):
        style = "random"
    for _ in range(50):
        if style == "letters":
            names = r.sample("ABCDEFGHIJKLMNOPQRSTUVWXYZ", n)
        elif style == "digits":
            names = r.sample([str(i) for i in range(1, 30)], n)
        elif style == "prefix":
            names = r.sample(["r" + str(i) for i in (1, 2, 3, 10, 11, 12, 20, 21, 100, 101, 110, 111)], n)
        elif style == "hyphen":
            names = r.sample([a + "-" + b for a in ("nyc", "sfo", "lon") for b in ("p1", "p2", "pe", "1")], n)
        elif style == "words":
            names = r.sample(WORDS, n)
        else:
            names = set()
            while len(names) < n:
                names.add("".join(r.choice("abcxyz019") for _ in range(r.randint(1, 6))))
            names = sorted(names)
            r.shuffle(names)
        if separable(names):
            return names
    return r.sample("ABCDEFGHIJKLMNOPQRSTUVWXYZ", n)


def separable(names):
    """No two node pairs share a 'source-dest' key (see known finding D16)."""
    keys = [a + "-" + b for a in names for b in names if a != b]
    return len(keys) == len(set(keys))


def topology(r, n, shape):
    """Pairs of node indices; every node but possibly a few is connected."""
    pairs = []
    if shape == "ring":
        pairs = [(i, (i + 1) % n) for i in range(n)]
        if n == 2:
            pairs = [(0, 1)]
    elif shape == "line":
        pairs = [(i, i + 1) for i in range(n - 1)]
    elif shape == "ladder":
        w = (n + 1) // 2
        for i in range(n):
            if i + 2 < n:
                pairs.append((i, i + 2))
            if i % 2 == 0 and i + 1 < n:
                pairs.append((i, i + 1))
        if w < 2:
            pairs = [(0, 1)]
    elif shape == "layers":
        # ECMP heavy: 0 - {1,2} - {3,4} - 5 ...
        layers = [[0]]
        i = 1
        while i < n:
            k = min(n - i, r.choice([1, 2, 2, 3]))
            layers.append(list(range(i, i + k)))
            i += k
        for a, b in zip(layers, layers[1:]):
            for x in a:
                for y in b:
                    pairs.append((x, y))
    elif shape == "mesh":
        pairs = [(i, j) for i in range(n) for j in range(i)]
        r.shuffle(pairs)
        pairs = pairs[: max(n, 9)]
    else:
        pairs = [(i, r.randrange(i)) for i in range(1, n)]
    extra = r.choice([0, 0, 1, 2, 3])
    have = {frozenset(p) for p in pairs}
    for _ in range(extra):
        if n < 3:
            break
        a, b = r.sample(range(n), 2)
        if frozenset((a, b)) not in have:
            have.add(frozenset((a, b)))
            pairs.append((a, b))
    return pairs


def special(r, what):
    """Shapes that small random graphs hardly ever have: (node count, pairs, from, to)."""
    if what == "fan":
        k = r.randint(4, 10)
        return k + 2, [(0, i) for i in range(2, k + 2)] + [(i, 1) for i in range(2, k + 2)], 0, 1
    if what == "diamonds":
        k = r.randint(2, 3)
        pairs = []
        for j in range(k):
            b = 3 * j
            pairs += [(b, b + 1), (b, b + 2), (b + 1, b + 3), (b + 2, b + 3)]
        return 3 * k + 1, pairs, 0, 3 * k
    if what == "grid":
        w, h = r.choice([(3, 3), (3, 3), (4, 3)])
        at = [(x, y) for y in range(h) for x in range(w)]
        pairs = [(at.index((x, y)), at.index((x + 1, y))) for x, y in at if x + 1 < w]
        pairs += [(at.index((x, y)), at.index((x, y + 1))) for x, y in at if y + 1 < h]
        return w * h, pairs, 0, w * h - 1
    if what == "bundle":
        n = r.randint(2, 4)
        pairs = [(i, i + 1) for i in range(n - 1)]
        pairs += [r.choice(pairs)] * r.randint(3, 6)
        return n, pairs, 0, n - 1
    n = r.randint(5, 8)                                                    # chain
    pairs = [(i, i + 1) for i in range(n - 1)]
    if r.random() < 0.4:
        pairs.append(r.choice([(i, i + 2) for i in range(n - 2)]))
    return n, pairs, 0, n - 1


SHAPES = ["ring", "line", "ladder", "layers", "layers", "mesh", "tree"]


def detour(ln, links):
    """What the cheapest ways around a link cost, there and back."""
    def dist(s, d):
        best, todo = {s: 0}, [s]
        while todo:
            x = todo.pop()
            for y in links:
                if y is ln:
                    continue
                for u, v in (("a", "b"), ("b", "a")):
                    if y[u] == x and best[x] + y["c" + u] < best.get(y[v], 1e18):
                        best[y[v]] = best[x] + y["c" + u]
                        todo.append(y[v])
        return best.get(d)
    there, back = dist(ln["a"], ln["b"]), dist(ln["b"], ln["a"])
    return (there, back) if there and back else None


def make_spec(r, model=None, nmin=2, nmax=7, lsps=True, shortcuts=True, frac=False, big=False,
              demands=(1, 6), builds=("ctor", "ctor", "file", "api", "list"), style=None,
              contention=None, wide=0.06, rare=0.06):
    model = model or r.choice(["perf", "flex", "flex", "model", "plm"][: 3 if r.random() < 0.8 else 5])
    flex = model in ("flex", "plm")
    ends = None
    # now and then: sizes and numbers far from the usual ones
    odd = r.choice(["crowd", "scale", "large"]) if r.random() < rare else None
    if odd == "large":
        nmin, nmax = max(nmin, 9), 16
    mul = 1
    if odd == "scale" and not frac:
        mul = r.choice([10, 1000, 10 ** 6])
    if odd == "crowd" and not frac:
        mul = 70                                      # 840 divides by everything up to 8
    most = 8 if odd == "crowd" else 4
    if r.random() < wide and odd != "large":
        shape = r.choice(["fan", "diamonds", "grid", "chain", "chain"] + ["bundle"] * 2 * flex)
        n, pairs, x, y = special(r, shape)
        ends = [x, y]
        if shape == "chain" and not shortcuts:
            shape = "line"
    else:
        n = r.randint(nmin, nmax)
        shape = r.choice(SHAPES)
        pairs = topology(r, n, shape)
    names = node_names(r, n, style)
    costs = r.choice([[1], [10], [1, 2], [10, 20], [1, 2, 3, 4, 5], [1, 1, 1, 2]])
    if odd == "scale":
        costs = r.choice([[65535, 1], [100, 1000], [2 ** 24, 2 ** 24 - 1], [1000, 2000, 3000], [99, 100, 101]])
    asym = r.random() < 0.3
    if ends:
        if r.random() < 0.8:
            costs, asym = costs[:1], False
        if r.random() < 0.5:
            ends.reverse()
    unit = 12
    contention = contention or r.choice(["none", "some", "some", "heavy"])
    capmul = {"none": [20, 40], "some": [5, 10, 10, 15, 20], "heavy": [5, 5, 10]}[contention]
    links = []
    par = r.choice([0, 0, 1, 2]) if (flex and not ends) else 0
    todo = list(pairs)
    for _ in range(par):
        todo.append(r.choice(pairs))
    if par and r.random() < 0.3:
        todo.append(todo[-1])
    if flex and odd == "crowd" and not ends and r.random() < 0.5:
        todo += [r.choice(pairs)] * r.randint(2, 5)
    pcts = r.choice([[100], [100], [100, 50], [100, 80, 50], [100, 100, 62.5], [100, 100, 0]])
    norsvp = r.choice([0.0, 0.0, 0.0, 0.15])
    iname = r.choice(["to", "local", "cid"])
    deco = r.choice(DECOS) if r.random() < 0.15 else "{}"
    used = {}
    for j, (a, b) in enumerate(todo):
        if r.random() < 0.5:
            a, b = b, a
        lid = "l{}".format(j)
        ca = r.choice(costs)
        cb = r.choice(costs) if asym else ca
        cap = r.choice(capmul) * unit * mul
        if frac:
            cap = r.choice([cap, cap + 0.5, 100, 33, 10.3])
        ln = {"id": lid, "a": names[a], "b": names[b], "ca": ca, "cb": cb, "cap": cap}
        for s, x, y in (("a", a, b), ("b", b, a)):
            used[x] = used.get(x, 0) + 1
            if iname == "to":
                nm = "{}-to-{}".format(names[x], names[y])
                if any(q[t] == names[x] and q[t + "n"] == deco.format(nm) for q in links for t in "ab"):
                    nm += "_{}".format(j)
            elif iname == "local":
                nm = "ge{}".format(used[x])
            else:
                nm = "if{}{}".format(j, s)
            ln[s + "n"] = deco.format(nm)
            if r.random() < norsvp:
                ln["r" + s] = False
            p = r.choice(pcts)
            if p != 100:
                ln["p" + s] = p
        ln["cid"] = "c{}".format(j)
        links.append(ln)
    if r.random() < 0.3:
        # some links cost as much as a way around them
        for ln in r.sample(links, min(len(links), r.randint(1, 2))):
            way = detour(ln, links)
            if way:
                ln["ca"], ln["cb"] = way
    nodes = []
    sc_p = r.choice([0.0, 0.0, 0.3, 0.7, 1.0]) if (flex and shortcuts) else 0.0
    if shortcuts == "always":
        sc_p = r.choice([0.3, 0.6, 1.0])
    if shape == "chain" and flex:
        sc_p = r.choice([0.6, 1.0, 1.0])
    for x in names:
        nodes.append({"name": x, "lat": r.randint(-50, 50), "lon": r.randint(-50, 50),
                      "sc": flex and r.random() < sc_p})
    spec = {"model": model, "nodes": nodes, "links": links, "demands": [], "lsps": []}
    pairs2 = [(a, b) for a in names for b in names if a != b]
    focus = r.sample(pairs2, min(len(pairs2), r.randint(1, 4)))
    if ends:
        way = (names[ends[0]], names[ends[1]])
        focus = [way] * 6 + focus[:2]
    # names need not differ between different ends
    reuse = r.random() < 0.35
    taken = set()

    def name(kind, s, d, usual):
        usual = deco.format(usual)
        got = r.choice(["none", "x", kind + "0", "d0"]) if reuse and r.random() < 0.7 else usual
        if (kind, s, d, got) in taken:
            got = usual
        taken.add((kind, s, d, got))
        return got
    herd = odd == "crowd" and r.random() < 0.5
    if odd == "crowd":
        focus = focus[:1 if herd else 2]
        demands = (demands[1], demands[1] + 10)
    for j in range(r.randint(*demands)):
        s, d = r.choice(focus) if r.random() < 0.7 else r.choice(pairs2)
        spec["demands"].append({"s": s, "d": d, "n": name("d", s, d, "d{}".format(j)), "t": traffic(r, frac) * mul})
    if lsps:
        cnt = r.choice([0, 1, 2, 3, 4, 5]) if lsps != "always" else r.choice([1, 2, 3, 4, 5, 6])
        if lsps != "always" and contention == "heavy":
            cnt += 1
        if shape == "chain" and flex:
            cnt = r.randint(3, 7)
        if odd == "crowd":
            cnt = r.randint(4, 10)
        sizes = {}
        for j in range(cnt):
            s, d = r.choice(focus) if r.random() < (0.95 if herd else 0.75) else r.choice(pairs2)
            if shape == "chain" and r.random() < 0.9:
                # hops of the way from one end to the other
                a, b = sorted(r.sample(range(n), 2))
                s, d = (names[a], names[b]) if ends[0] == 0 else (names[b], names[a])
            if sizes.get((s, d), 0) >= most:
                continue
            sizes[(s, d)] = sizes.get((s, d), 0) + 1
            spec["lsps"].append({
                "s": s, "d": d, "n": name("t", s, d, "t{}".format(j)),
                "bw": None if r.random() < 0.7 else setup_bw(r, frac) * mul,
                "mm": None if r.random() < 0.75 else r.choice([1, 2, 5, 10, 20, 50] + [100000] * (odd == "scale")),
            })
    spec["build"] = r.choice(list(builds))
    if spec["build"] == "file" and frac:
        spec["build"] = "ctor"
    if deco != "{}":
        spec["deco"] = deco
    if spec["build"] != "file" and r.random() < 0.3:
        for j, ln in enumerate(links):
            ln["cid"] = j + 1
    if mul != 1:
        spec["mul"] = mul
    if odd == "crowd":
        spec["crowd"] = True
    if r.random() < 0.5:
        order = list(range(2 * len(links)))
        r.shuffle(order)
        spec["row_order"] = order
    # the incremental builders validate each step; circuit by circuit that is legal
    if spec["build"] in ("api", "list"):
        spec["defaults"] = r.random() < 0.4
    return spec


def traffic(r, frac):
    if frac:
        return r.choice([0.1, 10 / 3, 7.7, 33.3, 1, 100, 12, 0.001, 0.05 * r.randint(1, 999), r.randint(1, 99)])
    return 12 * r.choice([0, 1, 1, 2, 3, 4, 5, 5, 10, 10, 20]) if r.random() < 0.9 else 600


def setup_bw(r, frac):
    if frac:
        return r.choice([0.1, 3.3, 10 / 3, 5, 12.7])
    return r.choice([0, 6, 12, 24, 60, 120])


FAILOPS = {"fail_int": 5, "unfail_int": 5, "fail_node": 3, "unfail_node": 4, "srlg_add_int": 3,
           "srlg_add_node": 2, "fail_srlg": 4, "unfail_srlg": 4, "srlg_rm_int": 2, "srlg_rm_node": 1,
           "add_srlg": 1}
NETOPS = {"cost": 4, "cap": 2, "pct": 1, "rsvp": 1, "rename_int": 1, "add_circuit": 3, "add_node": 1,
          "del_circuit": 1, "sc": 2}
LOADOPS = {"add_demand": 3, "del_demand": 2, "traffic": 3, "add_lsp": 3, "del_lsp": 2, "lsp_bw": 2,
           "lsp_mm": 3}


def history(r, spec, length, mix, update_p=0.35, frac=False, max_links=14, abort_p=0.0, lsps=True,
            shortcuts=True, final_update=True):
    """A list of ops, legal in sequence (aborted updates included when abort_p > 0)."""
    sh = Shadow(spec)
    if length > 3 and r.random() < 0.03:
        length *= 4
        update_p *= 0.6
    ops = [["update"]] if r.random() < 0.85 else []
    # swarm: a random subset of op kinds, re-weighted
    kinds = {}
    for k, w in mix.items():
        if not lsps and k in ("add_lsp", "del_lsp", "lsp_bw", "lsp_mm"):
            continue
        if (not shortcuts or not sh.ref.flex) and k == "sc":
            continue
        if r.random() < 0.75:
            kinds[k] = w * r.choice([0.5, 1, 1, 3])
    if not kinds:
        kinds = {"fail_int": 1, "unfail_int": 1}
    fresh = [0]
    tries = 0
    while len(ops) < length and tries < length * 6:
        tries += 1
        k = r.choices(list(kinds), list(kinds.values()))[0]
        op = one(r, sh, k, frac, max_links, fresh)
        if op is None or sh.step(op) is None:
            continue
        ops.append(op)
        if k in ("del_circuit", "del_demand", "del_lsp") and r.random() < 0.25:
            # replaced on the spot: as many as before, but not the same
            op = one(r, sh, "add" + k[3:], frac, max_links, fresh)
            if op is not None and sh.step(op) is not None:
                ops.append(op)
        if r.random() < update_p:
            if abort_p and r.random() < abort_p:
                ops.append(aborted(r))
                if r.random() < 0.4:
                    continue
            ops.append(["update"])
    if final_update and (not ops or ops[-1] != ["update"]):
        ops.append(["update"])
    return ops


def aborted(r):
    if r.random() < 0.2:
        return ["update_x", {"kind": "stdout", "at": r.randint(1, 12),
                             "exc": r.choice(["BrokenPipeError", "OSError"])}]
    return ["update_x", {"kind": "line", "frac": round(r.random(), 4), "nx": r.random() < 0.3,
                         "exc": r.choice(["KeyboardInterrupt", "MemoryError", "TimeoutError",
                                          "KeyboardInterrupt", "SystemExit"])}]


def one(r, sh, k, frac, max_links, fresh):
    ref = sh.ref
    links, nodes = list(ref.links), list(ref.nodes)
    if k in ("fail_int", "unfail_int", "srlg_add_int", "srlg_rm_int", "cost", "cap", "pct", "rsvp",
             "rename_int", "del_circuit"):
        if not links:
            return None
        if k == "unfail_int":
            down = [x for x in links if ref.links[x]["failed"]]
            lid = r.choice(down or links)
        else:
            lid = r.choice(links)
        s = r.choice("ab")
        if k == "fail_int":
            return [k, lid, s, r.choice(["model", "model", "obj"])]
        if k == "unfail_int":
            return [k, lid, s, r.choice(["model", "model", "obj"]), r.random() < 0.5]
        if k == "srlg_add_int":
            return [k, lid, s, sh.deco.format("g{}".format(r.randint(1, 3)))]
        if k == "srlg_rm_int":
            have = sorted(ref.links[lid]["srlgs"])
            if not have:
                cand = sorted(x for x in links if ref.links[x]["srlgs"])
                if not cand:
                    return None
                lid = r.choice(cand)
                have = sorted(ref.links[lid]["srlgs"])
            return [k, lid, s, r.choice(have)]
        if k == "cost":
            return [k, lid, s, r.choice([1, 2, 3, 10, 20, 10 ** 5] if r.random() < 0.2 else [1, 2, 3, 10, 20])]
        if k == "cap":
            return [k, lid, (12 * sh.mul * r.choice([5, 10, 20, 40]))]
        if k == "pct":
            return [k, lid, s, r.choice([100, 80, 50, 62.5, 0])]
        if k == "rsvp":
            return [k, lid, s, r.random() < 0.6]
        if k == "rename_int":
            fresh[0] += 1
            if r.random() < 0.35:
                # a name that was in use on this node, or is in use elsewhere
                node = ref.links[lid][s]
                past = sorted(name for at, name in sh.old if at == node)
                name = r.choice(past or sorted({ref.iname(i)[1] for i in ref.iids()}))
                if all(ref.iname(i) != (node, name) for i in ref.iids()):
                    return [k, lid, s, name]
            return [k, lid, s, sh.deco.format("new{}".format(fresh[0]))]
        return [k, lid] if len(links) > 2 else None
    if k in ("fail_node", "unfail_node"):
        down = [x for x in nodes if ref.nodes[x]["failed"]]
        return [k, r.choice(down if (k == "unfail_node" and down) else nodes)]
    if k == "srlg_add_node":
        return [k, r.choice(nodes), sh.deco.format("g{}".format(r.randint(1, 3)))]
    if k == "srlg_rm_node":
        cand = [n for n in nodes if ref.nodes[n]["srlgs"]]
        if not cand:
            return None
        n = r.choice(cand)
        return [k, n, r.choice(sorted(ref.nodes[n]["srlgs"]))]
    if k == "add_srlg":
        return [k, sh.deco.format("g{}".format(r.randint(1, 3)))]
    if k in ("fail_srlg", "unfail_srlg"):
        want = k == "unfail_srlg"
        cand = [s for s in ref.srlgs if ref.srlgs[s]["failed"] == want] or list(ref.srlgs)
        return [k, r.choice(cand)] if cand else None
    if k == "sc":
        return [k, r.choice(nodes), r.random() < 0.6]
    if k == "add_demand":
        if len(ref.demands) >= (8, 18)[sh.crowd] or len(nodes) < 2:
            return None
        a, b = r.sample(nodes, 2)
        if ref.lsps and r.random() < 0.5:
            a, b = r.choice(sorted(ref.lsps))[:2]
        fresh[0] += 1
        if r.random() < 0.06 and (a, b, "none") not in ref.demands:
            return [k, a, b, r.choice([0, 0, 12]), "none"]
        name = r.choice(sorted({x[2] for x in ref.demands} | {"t0"})) if r.random() < 0.2 else "d"
        if name == "d" or (a, b, name) in ref.demands:
            name = sh.deco.format("n{}".format(fresh[0]))
        return [k, a, b, traffic(r, frac) * sh.mul, name]
    if k in ("del_demand", "traffic"):
        if not ref.demands:
            return None
        key = list(r.choice(sorted(ref.demands)))
        return [k, key] if k == "del_demand" else [k, key, traffic(r, frac) * sh.mul]
    if k == "add_lsp":
        if len(ref.lsps) >= (7, 11)[sh.crowd] or len(nodes) < 2:
            return None
        a, b = r.sample(nodes, 2)
        if ref.demands and r.random() < 0.7:
            a, b = r.choice(sorted(ref.demands))[:2]
        if sum(1 for x in ref.lsps if x[:2] == (a, b)) >= (4, 8)[sh.crowd]:
            return None
        fresh[0] += 1
        name = r.choice(sorted({x[2] for x in ref.lsps} | {"d0"})) if r.random() < 0.2 else "t"
        if name == "t" or (a, b, name) in ref.lsps:
            name = sh.deco.format("n{}".format(fresh[0]))
        return [k, a, b, name, None if r.random() < 0.7 else setup_bw(r, frac) * sh.mul,
                None if r.random() < 0.7 else r.choice([1, 5, 20])]
    if k in ("del_lsp", "lsp_bw", "lsp_mm"):
        if not ref.lsps:
            return None
        key = list(r.choice(sorted(ref.lsps)))
        if k == "del_lsp":
            return [k, key]
        if k == "lsp_bw":
            return [k, key, None if r.random() < 0.4 else setup_bw(r, frac) * sh.mul]
        return [k, key, r.choice([-1, -1, 1, 2, 10, 30])]
    if k == "add_node":
        fresh[0] += 1
        name = "N{}".format(fresh[0])
        if len(nodes) >= 9 or not separable(nodes + [name]):
            return None
        return [k, name]
    if k == "add_circuit":
        if len(links) >= max_links or len(nodes) < 2:
            return None
        a, b = r.sample(nodes, 2)
        if not ref.flex and any({x["a"], x["b"]} == {a, b} for x in ref.links.values()):
            return None
        fresh[0] += 1
        j = fresh[0]
        how, failed = r.choice(["api", "list"]), r.random() < 0.2
        if how == "list" and not failed and len(nodes) < 9 and r.random() < 0.3 and separable(nodes + ["M" + str(j)]):
            b = "M" + str(j)
        if how == "api" and r.random() < 0.2:
            return [k, {"id": "x{}".format(j), "a": a, "b": b, "an": "x{}a".format(j), "bn": "x{}b".format(j),
                        "ca": 1, "cb": 1, "cap": 1000, "cid": "x{}".format(j)}, False, how]
        c = r.choice([1, 2, 10])
        ln = {"id": "x{}".format(j), "a": a, "b": b, "an": "x{}a".format(j), "bn": "x{}b".format(j),
              "ca": c, "cb": r.choice([c, c, 3]), "cap": 12 * sh.mul * r.choice([5, 10, 20]),
              "cid": "x{}".format(j)}
        if sh.gone and r.random() < 0.5:
            # a removed circuit comes back, or parts of it do
            past = r.choice(sh.gone)
            keys = r.choice([["a", "b", "an", "bn", "cid"]] * 3 + [["a", "b", "an", "bn"], ["an"], ["cid"], ["a", "b", "cid"]])
            back = dict(ln, **{x: past[x] for x in keys if past[x] is not None})
            if back["a"] != back["b"] and sh.valid([k, back, failed, how]):
                ln = back
        return [k, ln, failed, how]
    raise AssertionError(k)
