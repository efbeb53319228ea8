"""One simulated network: a pyNTM model and the reference, driven by the same history."""

import pyNTM
from pyNTM import Circuit, Demand, Interface, Node, RSVP_LSP  # noqa: F401

from . import env
from .core import Violation
from .ref import Ref

ModelException = pyNTM.ModelException

CLASSES = {
    "perf": pyNTM.PerformanceModel,
    "flex": pyNTM.FlexModel,
    "model": pyNTM.Model,
    "plm": pyNTM.Parallel_Link_Model,
}

# ops after which the model has to be re-simulated before anything validates it again
FORCE_UPDATE = {"del_lsp", "cap", "del_circuit"}
# ops that validate the model on the way, which needs a simulation after one of those
VALIDATING = {"add_demand", "add_node", "add_lsp", "unfail_int", "unfail_node",
              "unfail_srlg", "add_circuit", "validate"}


def model_file_text(spec):
    flex = spec["model"] in ("flex", "plm")
    out = ["INTERFACES_TABLE"]
    head = ["node_object_name", "remote_node_object_name", "name", "cost", "capacity"]
    if flex:
        head.append("circuit_id")
    out.append("\t".join(head + ["rsvp_enabled", "percent_reservable_bandwidth"]))
    rows = []
    for ln in spec["links"]:
        for s, o in (("a", "b"), ("b", "a")):
            row = [ln[s], ln[o], ln[s + "n"], ln["c" + s], ln["cap"]]
            if flex:
                row.append(ln["cid"])
            rsvp, pct = ln.get("r" + s, True), ln.get("p" + s, 100)
            if not rsvp or pct != 100 or ln.get("longrow") or ln.get("rsvprow"):
                row.append(ln.get("yes", "True") if rsvp else ln.get("no", "False"))
                if pct != 100 or ln.get("longrow"):
                    row.append(pct)
            rows.append("\t".join(str(x) for x in row))
    for i in spec.get("row_order", range(len(rows))):
        if i < len(rows):
            out.append(rows[i])
    out.append("")
    out.append("NODES_TABLE")
    out.append("name\tlon\tlat\tigp_shortcuts_enabled")
    linked = {ln[s] for ln in spec["links"] for s in "ab"}
    for n in spec["nodes"]:
        row = [n["name"], str(n.get("lon", 0)), str(n.get("lat", 0))]
        if flex:
            row.append("True" if n.get("sc") else "False")
        if n.get("brief"):
            # what is left out has its default
            if row[-1] == "False":
                row.pop()
            while len(row) < 4 and row[-1] == "0" and len(row) > 1:
                row.pop()
            if len(row) == 1 and n["name"] in linked:
                continue
        out.append("\t".join(row))
    out.append("")
    out.append("DEMANDS_TABLE")
    out.append("source\tdest\ttraffic\tname")
    for d in spec["demands"]:
        out.append("\t".join([d["s"], d["d"], str(d["t"]), "" if d["n"] == "none" and d.get("brief") else d["n"]]))
    if spec["lsps"] or spec.get("lsp_table", True):
        out.append("")
        out.append("RSVP_LSP_TABLE")
        out.append("source\tdest\tname\tconfigured_setup_bw\tmanual_metric")
        for x in spec["lsps"]:
            row = [x["s"], x["d"], x["n"]]
            bw, mm = x.get("bw"), x.get("mm")
            if bw is not None or mm is not None or x.get("longrow"):
                row.append("" if bw is None else str(bw))
            if mm is not None:
                row.append(str(mm))
            out.append("\t".join(row))
    return "\n".join(out) + "\n"


def bare_model(cls, nodes, spec):
    if not spec.get("defaults"):
        return cls(set(), set(nodes.values()), set(), set())
    model = cls()
    for node in nodes.values():
        model.add_node(node)
    return model


def build_model(spec, how=None):
    """Build the pyNTM model that `spec` describes, the way spec['build'] says."""
    cls = CLASSES[spec["model"]]
    flex = spec["model"] in ("flex", "plm")
    how = how or spec.get("build", "ctor")
    if how == "file":
        path = env.VFS.new_path()
        env.VFS.files[path] = {"versions": [model_file_text(spec).encode("utf-8")]}
        env.VFS.install()
        try:
            return cls.load_model_file(path)
        finally:
            env.VFS.uninstall()
            del env.VFS.files[path]
    nodes = {}
    for n in spec["nodes"]:
        node = Node(n["name"], n.get("lat", 0), n.get("lon", 0))
        if flex and n.get("sc"):
            node.igp_shortcuts_enabled = True
        nodes[n["name"]] = node
    lsps = []
    for x in spec["lsps"]:
        lsps.append(
            RSVP_LSP(nodes[x["s"]], nodes[x["d"]], x["n"],
                     configured_setup_bandwidth=x.get("bw"),
                     configured_manual_metric=x.get("mm"))
        )
    if how == "api":
        model = bare_model(cls, nodes, spec)
        for ln in spec["links"]:
            kw = {} if not flex else {"circuit_id": ln["cid"]}
            model.add_circuit(nodes[ln["a"]], nodes[ln["b"]], ln["an"], ln["bn"],
                              ln["ca"], ln["cb"], ln["cap"], **kw)
        for ln in spec["links"]:
            for s in "ab":
                intf = model.get_interface_object(ln[s + "n"], ln[s])
                intf.rsvp_enabled = ln.get("r" + s, True)
                intf.percent_reservable_bandwidth = ln.get("p" + s, 100)
        for d in spec["demands"]:
            model.add_demand(d["s"], d["d"], d["t"], d["n"])
        for lsp in lsps:
            model.rsvp_lsp_objects.add(lsp)
        return model
    ints = []
    for ln in spec["links"]:
        for s, o in (("a", "b"), ("b", "a")):
            ints.append(
                Interface(ln[s + "n"], ln["c" + s], ln["cap"], nodes[ln[s]], nodes[ln[o]],
                          ln["cid"] if flex else None,
                          ln.get("r" + s, True), ln.get("p" + s, 100))
            )
    order = spec.get("row_order")
    if order:
        ints = [ints[i] for i in order if i < len(ints)]
    if how == "list":
        # every interface has to have its counterpart when the model validates
        model = bare_model(cls, nodes, spec)
        model.add_network_interfaces_from_list(
            [
                {"name": i.name, "cost": i.cost, "capacity": i.capacity,
                 "node": i.node_object.name, "remote_node": i.remote_node_object.name,
                 "circuit_id": i.circuit_id, "failed": False}
                for i in ints
            ]
        )
        for i in ints:
            real = model.get_interface_object(i.name, i.node_object.name)
            real.rsvp_enabled = i.rsvp_enabled
            real.percent_reservable_bandwidth = i.percent_reservable_bandwidth
        for lsp in lsps:
            model.rsvp_lsp_objects.add(lsp)
        for d in spec["demands"]:
            model.demand_objects.add(Demand(nodes[d["s"]], nodes[d["d"]], d["t"], d["n"]))
        return model
    demands = [Demand(nodes[d["s"]], nodes[d["d"]], d["t"], d["n"]) for d in spec["demands"]]
    return cls(set(ints), set(nodes.values()), set(demands), set(lsps))


class World:
    """The model under test (`m`), the reference (`ref`), and the history so far."""

    def __init__(self, spec, log, stats, how=None):
        self.spec = spec
        self.log = log
        self.stats = stats
        self.ref = Ref(spec)
        with env.quiet_stdout():
            self.m = build_model(spec, how)
        self.dirty = True          # changed since the last completed update_simulation
        # ... in a way that makes validation premature
        self.must_update = (how or spec.get("build", "ctor")) not in ("api", "list")
        self.simulated = False
        self.update_lines = 4000   # lines of the last measured update_simulation

    # ---- real objects, looked up by name without using the model's own lookups
    def node(self, name):
        for n in self.m.node_objects:
            if n.name == name:
                return n
        raise Violation("lost-object", "node {!r} is not in the model".format(name))

    def intf(self, iid):
        node, name = self.ref.iname(iid)
        for i in self.m.interface_objects:
            if i.name == name and i.node_object.name == node:
                return i
        raise Violation("lost-object", "interface {!r} on {!r} is not in the model".format(name, node))

    def demand(self, key):
        for d in self.m.demand_objects:
            if (d.source_node_object.name, d.dest_node_object.name, d.name) == key:
                return d
        raise Violation("lost-object", "demand {} is not in the model".format(key))

    def lsp(self, key):
        for x in self.m.rsvp_lsp_objects:
            if (x.source_node_object.name, x.dest_node_object.name, x.lsp_name) == key:
                return x
        raise Violation("lost-object", "LSP {} is not in the model".format(key))

    # ---- ops
    def valid(self, op):
        """Can `op` be applied in the present state (after minimisation it may not)?"""
        r, k = self.ref, op[0]
        link = {"fail_int", "unfail_int", "srlg_add_int", "srlg_rm_int", "cost", "cap", "pct",
                "rsvp", "rename_int", "del_circuit"}
        if k in link:
            lid = op[1]
            if lid not in r.links:
                return False
            ln = r.links[lid]
            if k == "srlg_add_int":
                s = op[3]
                if s in r.srlgs:
                    return not r.srlgs[s]["failed"]
                return True
            if k == "srlg_rm_int":
                s = op[3]
                return (s in r.srlgs and s in ln["srlgs"]
                        and (r.srlgs[s]["failed"] or not ln["failed"]))
            if k == "rename_int":
                node = ln[op[2]]
                return all(r.iname(i) != (node, op[3]) for i in r.iids())
            if k == "del_circuit":
                return True
            return True
        if k in ("fail_node", "unfail_node", "sc"):
            return op[1] in r.nodes and (k != "sc" or r.flex)
        if k == "srlg_add_node":
            return op[1] in r.nodes and not (op[2] in r.srlgs and r.srlgs[op[2]]["failed"])
        if k == "srlg_rm_node":
            if op[1] not in r.nodes or op[2] not in r.srlgs:
                return False
            nd = r.nodes[op[1]]
            return op[2] in nd["srlgs"] and (r.srlgs[op[2]]["failed"] or not nd["failed"])
        if k == "add_srlg":
            return op[1] not in r.srlgs
        if k in ("fail_srlg", "unfail_srlg"):
            return op[1] in r.srlgs
        if k == "add_demand":
            return (op[1] in r.nodes and op[2] in r.nodes and op[1] != op[2]
                    and (op[1], op[2], op[4]) not in r.demands)
        if k in ("del_demand", "traffic"):
            return tuple(op[1]) in r.demands
        if k == "add_lsp":
            return (op[1] in r.nodes and op[2] in r.nodes and op[1] != op[2]
                    and (op[1], op[2], op[3]) not in r.lsps)
        if k in ("del_lsp", "lsp_bw", "lsp_mm"):
            return tuple(op[1]) in r.lsps
        if k == "add_node":
            return op[1] not in r.nodes
        if k == "add_circuit":
            ln = op[1]
            # interfaces added from a list bring along the nodes that are missing
            if ln["id"] in r.links or ln["a"] not in r.nodes or (
                    ln["b"] not in r.nodes and (op[3] != "list" or op[2])):
                return False
            names = {r.iname(i) for i in r.iids()}
            if (ln["a"], ln["an"]) in names or (ln["b"], ln["bn"]) in names:
                return False
            if r.flex:
                return all(x["cid"] != ln["cid"] for x in r.links.values())
            return all({x["a"], x["b"]} != {ln["a"], ln["b"]} for x in r.links.values())
        return k in ("update", "validate", "noop")

    def apply(self, op, expect_raise=None):
        """Apply `op` to both sides.  Returns 'skip', 'ok' or 'raised'.

        Raises Violation when the model refuses a legal operation, or accepts one that
        the failure rules refuse."""
        if not self.valid(op):
            return "skip"
        if self.must_update and op[0] not in ("update",):
            if not self.simulated or op[0] in VALIDATING and (
                    op[0] != "add_circuit" or self.must_update != "del_circuit"
                    or self.ref.lsps or self.ref.demands):
                self.apply(["update"])
        self._before = None
        if op[0] == "rename_int":
            self._before = self.ref.iname((op[1], op[2]))
        elif op[0] == "del_circuit":
            self._before = {self.ref.iname((op[1], s)) for s in "ab"}
        want = self._apply_ref(op)
        self.log.add("op", op[0], want)
        try:
            with env.quiet_stdout():
                self._apply_real(op)
            got = "ok"
        except ModelException as e:
            got = "raised"
            if want != "raised":
                raise Violation("refused:" + op[0], "{} was refused: {}".format(op, str(e)[:300]))
        if want == "raised" and got != "raised":
            raise Violation("accepted:" + op[0], "{} should have been refused".format(op))
        self.stats.inc("op:" + op[0])
        if op[0] == "update":
            self.dirty = self.must_update = False
            self.simulated = True
        elif op[0] not in ("validate", "noop"):
            self.dirty = True
            if op[0] in FORCE_UPDATE:
                # which kind of edit, while it is the only kind
                self.must_update = op[0] if self.must_update in (False, op[0]) else True
        return got

    def _apply_ref(self, op):
        r, k = self.ref, op[0]
        if k in ("update", "validate", "noop"):
            return "ok"
        if k == "fail_int":
            r.links[op[1]]["failed"] = True
        elif k == "unfail_int":
            ln = r.links[op[1]]
            down = r.nodes[ln["a"]]["failed"] or r.nodes[ln["b"]]["failed"]
            if down:
                return "raised" if (op[4] or op[3] == "obj") else "ok"
            if not r.try_up(op[1]):
                return "raised"
        elif k == "fail_node":
            r.fail_node(op[1])
        elif k == "unfail_node":
            return "ok" if r.unfail_node(op[1]) else "raised"
        elif k == "add_srlg":
            r.srlgs[op[1]] = {"failed": False}
        elif k == "fail_srlg":
            s = op[1]
            for n in r.nodes:
                if s in r.nodes[n]["srlgs"]:
                    r.fail_node(n)
            for ln in r.links.values():
                if s in ln["srlgs"]:
                    ln["failed"] = True
            r.srlgs[s]["failed"] = True
        elif k == "unfail_srlg":
            s = op[1]
            r.srlgs[s]["failed"] = False
            members = [n for n in r.nodes if s in r.nodes[n]["srlgs"]]
            # whichever member comes first, the circuits between two members come up
            # with the second one
            for n in members:
                r.unfail_node(n)
            for lid, ln in r.links.items():
                if s in ln["srlgs"]:
                    r.try_up(lid)
        elif k == "srlg_add_int":
            r.srlgs.setdefault(op[3], {"failed": False})
            r.links[op[1]]["srlgs"].add(op[3])
        elif k == "srlg_add_node":
            r.srlgs.setdefault(op[2], {"failed": False})
            r.nodes[op[1]]["srlgs"].add(op[2])
        elif k == "srlg_rm_int":
            ln = r.links[op[1]]
            ln["srlgs"].discard(op[3])
            if r.srlg_failed(ln["srlgs"]):
                ln["failed"] = True
                return "raised"
            if r.nodes[ln["a"]]["failed"] or r.nodes[ln["b"]]["failed"]:
                ln["failed"] = True
            else:
                ln["failed"] = False
        elif k == "srlg_rm_node":
            nd = r.nodes[op[1]]
            nd["srlgs"].discard(op[2])
            if r.srlg_failed(nd["srlgs"]):
                nd["failed"] = True
                return "raised"
            nd["failed"] = False
        elif k == "cost":
            r.links[op[1]]["cost"][op[2]] = op[3]
        elif k == "cap":
            r.links[op[1]]["cap"] = op[2]
        elif k == "pct":
            r.links[op[1]]["pct"][op[2]] = op[3]
        elif k == "rsvp":
            r.links[op[1]]["rsvp"][op[2]] = op[3]
        elif k == "rename_int":
            r.links[op[1]][op[2] + "n"] = op[3]
        elif k == "del_circuit":
            del r.links[op[1]]
        elif k == "sc":
            r.nodes[op[1]]["sc"] = op[2]
        elif k == "add_demand":
            r.demands[(op[1], op[2], op[4])] = op[3]
        elif k == "del_demand":
            del r.demands[tuple(op[1])]
        elif k == "traffic":
            r.demands[tuple(op[1])] = op[2]
        elif k == "add_lsp":
            r.lsps[(op[1], op[2], op[3])] = {"bw": op[4], "mm": op[5]}
        elif k == "del_lsp":
            del r.lsps[tuple(op[1])]
        elif k == "lsp_bw":
            r.lsps[tuple(op[1])]["bw"] = op[2]
        elif k == "lsp_mm":
            r.lsps[tuple(op[1])]["mm"] = None if op[2] == -1 else op[2]
        elif k == "add_node":
            r.nodes[op[1]] = {"failed": False, "srlgs": set(), "sc": False}
        elif k == "add_circuit":
            ln = op[1]
            if ln["b"] not in r.nodes:
                r.nodes[ln["b"]] = {"failed": False, "srlgs": set(), "sc": False}
            r.links[ln["id"]] = r._link(ln)
            new = r.links[ln["id"]]
            new["failed"] = bool(op[2]) or r.nodes[ln["a"]]["failed"] or r.nodes[ln["b"]]["failed"]
            new["rsvp"] = {"a": True, "b": True}
            new["pct"] = {"a": 100, "b": 100}
        return "ok"

    def _iname(self, op):
        ln = self.ref.links[op[1]]
        return ln[op[2] + "n"], ln[op[2]]

    def _drop(self, kind, op, doomed):
        """Remove elements from one of the model's public sets, the way a user does: in
        place, or by assigning a new set.  (A renamed element cannot be found in its set.)"""
        have = getattr(self.m, kind)
        gone = [x for x in have if doomed(x)]
        if sum(map(ord, repr(op))) % 2 and all(x in have for x in gone):
            have.difference_update(gone)
        else:
            setattr(self.m, kind, {x for x in have if not doomed(x)})

    def _apply_real(self, op):
        m, k = self.m, op[0]
        if k == "update":
            m.update_simulation()
        elif k == "validate":
            m.validate_model()
        elif k == "fail_int":
            if op[3] == "obj":
                self.intf((op[1], op[2])).fail_interface(m)
            else:
                m.fail_interface(*self._iname(op))
        elif k == "unfail_int":
            if op[3] == "obj":
                self.intf((op[1], op[2])).unfail_interface(m)
            else:
                m.unfail_interface(*self._iname(op), op[4])
        elif k == "fail_node":
            m.fail_node(op[1])
        elif k == "unfail_node":
            m.unfail_node(op[1])
        elif k == "add_srlg":
            m.add_srlg(op[1])
        elif k == "fail_srlg":
            m.fail_srlg(op[1])
        elif k == "unfail_srlg":
            m.unfail_srlg(op[1])
        elif k == "srlg_add_int":
            self.intf((op[1], op[2])).add_to_srlg(op[3], m, create_if_not_present=True)
        elif k == "srlg_rm_int":
            self.intf((op[1], op[2])).remove_from_srlg(op[3], m)
        elif k == "srlg_add_node":
            self.node(op[1]).add_to_srlg(op[2], m, create_if_not_present=True)
        elif k == "srlg_rm_node":
            self.node(op[1]).remove_from_srlg(op[2], m)
        elif k == "cost":
            self.intf((op[1], op[2])).cost = op[3]
        elif k == "cap":
            for s in "ab":
                self.intf((op[1], s)).capacity = op[2]
        elif k == "pct":
            self.intf((op[1], op[2])).percent_reservable_bandwidth = op[3]
        elif k == "rsvp":
            self.intf((op[1], op[2])).rsvp_enabled = op[3]
        elif k == "rename_int":
            self.answer = m.change_interface_name(self._before[0], self._before[1], op[3])
        elif k == "del_circuit":
            self._drop("interface_objects", op,
                       lambda i: (i.node_object.name, i.name) in self._before)
        elif k == "sc":
            self.node(op[1]).igp_shortcuts_enabled = op[2]
        elif k == "add_demand":
            m.add_demand(op[1], op[2], *(() if op[3:5] == [0, "none"] else op[3:5]))
        elif k == "del_demand":
            d = self.demand(tuple(op[1]))
            self._drop("demand_objects", op, lambda x: x is d)
        elif k == "traffic":
            self.demand(tuple(op[1])).traffic = op[2]
        elif k == "add_lsp":
            m.add_rsvp_lsp(op[1], op[2], op[3])
            lsp = self.lsp((op[1], op[2], op[3]))
            if op[4] is not None:
                lsp.configured_setup_bandwidth = op[4]
            if op[5] is not None:
                lsp.manual_metric = op[5]
        elif k == "del_lsp":
            x = self.lsp(tuple(op[1]))
            self._drop("rsvp_lsp_objects", op, lambda y: y is x)
        elif k == "lsp_bw":
            self.lsp(tuple(op[1])).configured_setup_bandwidth = op[2]
        elif k == "lsp_mm":
            self.lsp(tuple(op[1])).manual_metric = op[2]
        elif k == "add_node":
            m.add_node(Node(op[1]))
        elif k == "add_circuit":
            ln = op[1]
            how = op[3]
            if how == "list":
                m.add_network_interfaces_from_list([
                    {"name": ln[s + "n"], "cost": ln["c" + s], "capacity": ln["cap"],
                     "node": ln[s], "remote_node": ln[o], "circuit_id": ln["cid"],
                     "failed": bool(op[2])}
                    for s, o in (("a", "b"), ("b", "a"))
                ])
            else:
                kw = {"circuit_id": ln["cid"]} if self.ref.flex else {}
                # the defaults are documented
                args = (ln["ca"], ln["cb"], ln["cap"], bool(op[2]))
                m.add_circuit(self.node(ln["a"]), self.node(ln["b"]), ln["an"], ln["bn"],
                              *(() if args == (1, 1, 1000, False) else args), **kw)
        else:
            raise AssertionError(op)
