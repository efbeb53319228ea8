"""The weather map server and its viewers, simulated.

The Dash application runs for real behind Flask's test client (no sockets); the browsers and the
network between are simulated: what the page shows, which callbacks a user's action triggers, and
when each request and response gets through.

The oracle computes each response from the request and from the model's state (`Facts`)."""

import functools
import json
import logging
import re
import sys

import dash

from . import env
from .core import HarnessError, Violation

from pyNTM import weathermap as WM  # noqa: E402  (after env, which finds pyNTM)

for _name in ("run", "run_server"):
    # the application is served by the simulator
    if _name in dir(dash.Dash):
        setattr(dash.Dash, _name, lambda self, *a, **k: None)


class Errors(logging.Handler):
    """What the application logs when a request fails."""

    def __init__(self):
        super().__init__()
        self.last = None

    def emit(self, record):
        if record.exc_info and record.exc_info[1] is not None:
            self.last = record.exc_info[1]


def watched(app):
    """Handlers are traced (for switching threads, for raising exceptions) from where they are
    entered: Dash's and Flask's own lines are no places to switch at, and tracing them is slow."""
    register = app.callback

    def callback(*args, **kw):
        deco = register(*args, **kw)

        def wrap(fn):
            @functools.wraps(fn)
            def traced(*a, **k):
                before = sys.gettrace()
                TRACE[0]()
                try:
                    return fn(*a, **k)
                finally:
                    sys.settrace(before)
            deco(traced)
            return fn
        return wrap
    app.callback = callback


TRACE = [lambda: None]      # what turns tracing on


class Server:
    """One process serving one model."""

    def __init__(self, world):
        self.map = WM.WeatherMap(world.m)
        watched(self.map.app)
        with env.quiet_stdout():
            self.app = self.map.create_weathermap()
        if self.app is None:
            raise HarnessError("create_weathermap returns no application")
        self.flask = self.app.server
        self.errors = Errors()
        self.flask.logger.handlers = [self.errors]
        self.flask.logger.propagate = False
        self.deps = self.get("/_dash-dependencies")

    def get(self, path):
        r = self.flask.test_client().get(path)
        if r.status_code != 200:
            raise Violation("server-error", "GET {} gives {}: {!r}".format(path, r.status_code, self.errors.last))
        return r.get_json()

    def layout(self):
        return self.get("/_dash-layout")

    def post(self, body):
        """(status, {(component, property): value})"""
        r = self.flask.test_client().post("/_dash-update-component", json=body)
        out = {}
        if r.status_code == 200:
            for cid, props in r.get_json()["response"].items():
                for prop, value in props.items():
                    out[(cid, prop)] = value
        return r.status_code, out


def outputs_of(dep):
    out = dep["output"]
    if out.startswith(".."):
        return [tuple(x.rsplit(".", 1)) for x in out[2:-2].split("...")]
    return [tuple(out.rsplit(".", 1))]


def walk(node, found):
    """Every component of a layout that has an id."""
    if isinstance(node, list):
        for x in node:
            walk(x, found)
    elif isinstance(node, dict):
        props = node.get("props", {})
        if "id" in props:
            found[props["id"]] = props
        walk(props.get("children"), found)
    return found


# ------------------------------------------------------------------ browsers
PICKS = {
    # what a user can click, and the list it is picked from
    "find-node": "dropdown", "demand-source-callback": "dropdown", "demand-destination-callback": "dropdown",
    "lsp-source-callback": "dropdown", "lsp-destination-callback": "dropdown",
    "interfaces-on-node": "radio", "find-demands-callback": "radio", "find-lsps-callback": "radio",
    "interface-demand-callback": "radio", "interface-lsp-callback": "radio", "lsp-demand-callback": "radio",
    "lsp-interface-callback": "radio", "demand-path-interfaces": "radio", "demand-path-lsps": "radio",
}
BUTTONS = ["clear-int-button", "clear-dmd-button", "clear-lsp-button"]
MAP = "cytoscape-prototypes"
UTIL = "utilization-dropdown-callback"


class Viewer:
    def __init__(self, num, server):
        self.num = num
        self.seq = 0
        self.latest = {}
        self.load(server)

    def load(self, server):
        """The page is (re)loaded."""
        comps = walk(server.layout(), {})
        self.props = {}
        for cid, props in comps.items():
            for k, v in props.items():
                if k not in ("children", "style", "id"):
                    self.props[(cid, k)] = v
        self.deps = server.deps
        self.latest = {}

    def first(self):
        """The requests a browser makes once the page is there."""
        return [self.request(dep, []) for dep in self.deps]

    def request(self, dep, changed):
        self.seq += 1
        outs = [{"id": a, "property": b} for a, b in outputs_of(dep)]
        body = {
            "output": dep["output"],
            "outputs": outs if dep["output"].startswith("..") else outs[0],
            "inputs": [dict(id=i["id"], property=i["property"], value=self.props[(i["id"], i["property"])])
                       if (i["id"], i["property"]) in self.props else
                       dict(id=i["id"], property=i["property"]) for i in dep["inputs"]],
            "changedPropIds": changed, "state": [],
        }
        self.latest[dep["output"]] = self.seq
        # what is sent is JSON
        return {"viewer": self.num, "seq": self.seq, "body": json.loads(json.dumps(body)), "tries": 0}

    def change(self, cid, prop, value):
        """A property changed in the page: the callbacks that depend on it are requested."""
        self.props[(cid, prop)] = value
        return [self.request(dep, ["{}.{}".format(cid, prop)]) for dep in self.deps
                if any(i["id"] == cid and i["property"] == prop for i in dep["inputs"])]

    def answered(self, req, out):
        """A response arrived; an older request's one is ignored."""
        if self.latest.get(req["body"]["output"]) != req["seq"]:
            return None
        reqs = []
        for (cid, prop), value in sorted(out.items()):
            reqs += self.change(cid, prop, value)
        return reqs

    def act(self, act):
        """A user's action: (what it was, requests), or None when there is nothing to click."""
        kind, a, b = act
        if kind == "pick":
            cid = sorted(PICKS)[a % len(PICKS)]
            return self.pick(cid, b)
        if kind in PICKS:
            return self.pick(kind, b)
        if kind == "clear":
            cid = BUTTONS[a % 3]
            n = self.props.get((cid, "n_clicks")) or 0
            return cid, self.change(cid, "n_clicks", n + 1)
        if kind == "edge":
            edges = [e["data"] for e in self.props.get((MAP, "elements"), []) if "source" in e.get("data", {})]
            if not edges:
                return None
            edges.sort(key=lambda e: json.dumps(e, sort_keys=True))
            sel = [edges[b % len(edges)]] if a % 8 else []
            return "edge", self.change(MAP, "selectedEdgeData", sel)
        if kind == "util":
            colors = [o["value"] for o in self.props.get((UTIL, "options"), [])]
            return "util", self.change(UTIL, "value", [c for j, c in enumerate(colors) if (a >> j) & 1])
        raise HarnessError("unknown action {}".format(kind))

    def pick(self, cid, b):
        options = self.props.get((cid, "options")) or []
        if PICKS[cid] == "dropdown" and b % 6 == 0:
            return cid + ":cleared", self.change(cid, "value", None)
        if not options:
            return None
        values = sorted({o["value"] for o in options})
        value = values[b % len(values)]
        if self.props.get((cid, "value")) == value:
            return None
        return cid, self.change(cid, "value", value)


# ------------------------------------------------------------------ oracle
class Facts:
    """The model's state as the oracle needs it."""

    def __init__(self, world, snap):
        self.ref, self.snap = world.ref, snap
        ref = world.ref
        self.by = ref.by_name()
        self.ints = {}
        for iid in ref.iids():
            node, name = ref.iname(iid)
            o = world.intf(iid)
            self.ints[(node, name)] = {
                "iid": iid, "source": node, "interface-name": name, "dest": ref.ends(iid)[1],
                "circuit_id": o.circuit_id, "cost": o.cost, "label": repr(o), "util": o.utilization,
                "capacity": o.capacity, "failed": not ref.up(iid),
            }
        self.of = {v["iid"]: v for v in self.ints.values()}
        self.labels = {("D", k): repr(world.demand(k)) for k in ref.demands}
        self.labels.update({("L", k): repr(world.lsp(k)) for k in ref.lsps})
        self.coords = {n.name: (n.lat, n.lon) for n in world.m.node_objects}
        self.unroutable = {k for k, v in snap.demands.items() if v is None}

    def demand_path(self, key):
        """(interfaces, LSPs) of a demand's paths."""
        ints, lsps = set(), set()
        for p in self.snap.demands[key] or ():
            for kind, x in p:
                if kind == "L":
                    lsps.add(x)
                    ints |= set(self.snap.lsps[x]["path"])
                else:
                    ints.add(x)
        return ints, lsps

    def demands_on(self, iid):
        return {k for k in self.snap.demands if iid in self.demand_path(k)[0]}

    def lsps_on(self, iid):
        return {k for k, v in self.snap.lsps.items() if v is not None and iid in v["path"]}

    def demands_on_lsp(self, key):
        return {k for k in self.snap.demands if key in self.demand_path(k)[1]}


class Unknown(Exception):
    """The request is about something the model does not have (any more)."""


ERROR = object()        # an error is as good as an empty answer
NOTHING = "no update"   # 204


class Oracle:
    def __init__(self, facts, wmap):
        self.f = facts
        self.no_int = wmap.no_selected_interface_text
        self.no_dmd = wmap.no_selected_demand_text
        self.no_lsp = wmap.no_selected_lsp_text
        self.w = wmap
        self.nobody = json.dumps([{"source": "", "dest": "", "name": ""}])

    # ---- pieces of answers
    def null(self, text):
        return {"label": text, "value": ""}

    def objects(self, kind, keys, text):
        """A list with the choice of none first, the others in any order."""
        if not keys:
            return ("options", [], [])
        return ("options", [self.null(text)], [
            {"label": self.f.labels[(kind, k)], "value": {"source": k[0], "dest": k[1], "name": k[2]}} for k in keys])

    def interfaces(self, iids):
        if not iids:
            return ("options", [], [])
        return ("options", [self.null(self.no_int)], [self.interface(i) for i in iids])

    def interface(self, iid):
        x = self.f.of[iid]
        return {"label": x["label"], "value": {k: x[k] for k in ("source", "interface-name", "dest", "circuit_id",
                                                                 "cost")}}

    def fixed(self, *options):
        return ("options", list(options), [])

    def the(self, kind, info):
        have = self.f.snap.demands if kind == "D" else self.f.snap.lsps
        key = (info["source"], info["dest"], info["name"])
        if key not in have:
            raise Unknown()
        return key

    def the_int(self, info):
        x = self.f.ints.get((info["source"], info["interface-name"]))
        if x is None:
            raise Unknown()
        return x

    # ---- requests
    def expected(self, body):
        """{output: expectation}, NOTHING, ERROR, or None when the request is not one the oracle knows."""
        known = {
            "interfaces-on-node.options": self.on_node,
            "cytoscape-prototypes.stylesheet": self.stylesheet,
            "..lsp-source-callback.options...lsp-destination-callback.options...find-lsps-callback.options..":
                lambda v, t: self.find(v, "L"),
            "..demand-source-callback.options...demand-destination-callback.options...find-demands-callback.options..":
                lambda v, t: self.find(v, "D"),
            "selected-lsp-output.children": lambda v, t: self.selected("L", t),
            "selected-demand-output.children": lambda v, t: self.selected("D", t),
            "selected-interface-output.children": self.selected_int,
            "interface-lsp-callback.options": lambda v, t: self.on_int(v, "L"),
            "interface-demand-callback.options": lambda v, t: self.on_int(v, "D"),
            "lsp-demand-callback.options": self.on_lsp,
            "..demand-path-interfaces.options...demand-path-lsps.options..": self.demand_path,
            "lsp-interface-callback.options": self.lsp_path,
        }
        fn = known.get(body["output"])
        if fn is None:
            return None
        values = {i["id"] + "." + i["property"]: i.get("value") for i in body["inputs"]}
        changed = body["changedPropIds"]
        trig = (changed[0], values.get(changed[0])) if changed else (".", None)
        try:
            return fn(values, trig)
        except Unknown:
            return ERROR

    def on_node(self, v, t):
        node = v["find-node.value"]
        if not node:
            return NOTHING
        if node not in self.f.ref.nodes:
            raise Unknown()
        return {"interfaces-on-node.options": self.interfaces(
            [x["iid"] for x in self.f.ints.values() if x["source"] == node])}

    def find(self, v, kind):
        name = "lsp" if kind == "L" else "demand"
        have = self.f.snap.lsps if kind == "L" else self.f.snap.demands
        text = self.no_lsp if kind == "L" else self.no_dmd
        s, d = v[name + "-source-callback.value"], v[name + "-destination-callback.value"]
        if s is None and d is None:
            objs = ("none",)
        else:
            objs = self.objects(kind, [k for k in have if s in (None, k[0]) and d in (None, k[1])], text)
        srcs = sorted({k[0] for k in have if d in (None, k[1])}) if s is None else [s]
        dsts = sorted({k[1] for k in have if s in (None, k[0])}) if d is None else [d]
        return {name + "-source-callback.options": ("exact", [{"label": x, "value": x} for x in srcs]),
                name + "-destination-callback.options": ("exact", [{"label": x, "value": x} for x in dsts]),
                "find-{}s-callback.options".format(name): objs}

    def selected(self, kind, t):
        name = "lsp" if kind == "L" else "demand"
        out = "selected-{}-output.children".format(name)
        text = self.no_lsp if kind == "L" else self.no_dmd
        none = {out: ("json", {"label": text, "value": ""})}
        if t[0] == "clear-{}-button.n_clicks".format("lsp" if kind == "L" else "dmd"):
            return none
        if t[1] in (None, "", self.no_int, self.no_dmd, self.no_lsp):
            return none
        if t[1] == self.nobody:
            return NOTHING
        info = json.loads(t[1])
        key = self.the(kind, info)
        have = self.f.snap.demands if kind == "D" else self.f.snap.lsps
        return {out: ("json", dict(info, routed=have[key] is not None))}

    def selected_int(self, v, t):
        out = "selected-interface-output.children"
        none = {out: ("json", {"label": self.no_int, "value": ""})}
        if t[0] in (".", "clear-int-button.n_clicks") or t[1] in ("", self.no_dmd, self.no_lsp):
            return none
        if t[1] == []:
            return NOTHING
        if t[1] is None:
            return None
        if t[0] == MAP + ".selectedEdgeData":
            d = t[1][0]
            x = self.the_int(d)
            return {out: ("json", {"source": d["source"], "interface-name": d["interface-name"], "dest": x["dest"],
                                   "circuit_id": d["circuit_id"], "utilization %": d["utilization"],
                                   "cost": d["cost"]})}
        d = json.loads(t[1])
        x = self.the_int(d)
        return {out: ("json", dict({k: d[k] for k in ("source", "interface-name", "dest", "circuit_id", "cost")},
                                   **{"utilization %": x["util"]}))}

    def on_int(self, v, kind):
        text = v["selected-interface-output.children"]
        out = "interface-{}-callback.options".format("lsp" if kind == "L" else "demand")
        if not text or self.no_int in text:
            return {out: self.fixed(self.null(self.no_int))}
        x = self.the_int(json.loads(text))
        keys = self.f.lsps_on(x["iid"]) if kind == "L" else self.f.demands_on(x["iid"])
        if not keys:
            what = "no lsps on interface" if kind == "L" else "no demands on interface"
            return {out: self.fixed({"label": what, "value": self.nobody})}
        return {out: self.objects(kind, keys, self.no_lsp if kind == "L" else self.no_dmd)}

    def on_lsp(self, v, t):
        text = v["selected-lsp-output.children"]
        out = "lsp-demand-callback.options"
        if not text or self.no_lsp in text or json.loads(text).get("routed") is False:
            return {out: self.fixed(self.null(self.no_lsp))}
        keys = self.f.demands_on_lsp(self.the("L", json.loads(text)))
        if not keys:
            return {out: self.fixed({"label": "no demands on lsp", "value": self.nobody})}
        return {out: self.objects("D", keys, self.no_dmd)}

    def demand_path(self, v, t):
        text = v["selected-demand-output.children"]
        outs = ["demand-path-interfaces.options", "demand-path-lsps.options"]
        if not text or self.no_dmd in text:
            return {o: self.fixed({"label": self.no_dmd, "value": self.no_dmd}) for o in outs}
        info = json.loads(text)
        if info.get("routed") is False:
            return NOTHING
        ints, lsps = self.f.demand_path(self.the("D", info))
        return {outs[0]: self.interfaces(ints),
                outs[1]: self.objects("L", lsps, self.no_lsp) if lsps else self.fixed(
                    {"label": "Demand does not take LSPs", "value": ""})}

    def lsp_path(self, v, t):
        text = v["selected-lsp-output.children"]
        out = "lsp-interface-callback.options"
        if not text or self.no_lsp in text:
            return {out: self.fixed({"label": self.no_lsp, "value": self.no_lsp})}
        info = json.loads(text)
        if info.get("routed") is False:
            return NOTHING
        lsp = self.f.snap.lsps[self.the("L", info)]
        return {out: self.interfaces(lsp["path"] if lsp else [])}

    def stylesheet(self, v, t):
        """Layers of style entries; the order within a layer means nothing."""
        w = self.w
        layers = [[{"selector": 'edge[group="{}"]'.format(c), "style": {"opacity": 1.0}}
                   for c in v["utilization-dropdown-callback.value"]]]
        text = v["selected-demand-output.children"]
        layer = []
        if text and self.no_dmd not in text and json.loads(text).get("routed") is not False:
            info = json.loads(text)
            ints = set()
            for k in self.f.snap.demands:
                if k[:2] == (info["source"], info["dest"]):
                    ints |= self.f.demand_path(k)[0]
            for i in ints:
                a, b = self.f.ref.ends(i)
                cid = self.f.of[i]["circuit_id"]
                layer += [("demand", cid, a, b), ("demand-back", cid, b, a), ("demand-node", a), ("demand-node", b)]
        layers.append(layer)
        text = v["selected-lsp-output.children"]
        layer = []
        if text and self.no_lsp not in text and json.loads(text).get("routed") is not False:
            lsp = self.f.snap.lsps[self.the("L", json.loads(text))]
            for i in lsp["path"] if lsp else []:
                a, b = self.f.ref.ends(i)
                cid = self.f.of[i]["circuit_id"]
                layer += [("lsp", cid, a, b), ("lsp-back", cid, b, a), ("lsp-node", a), ("lsp-node", b)]
        layers.append(layer)
        text = v["selected-interface-output.children"]
        layer = []
        if text and self.no_int not in text:
            info = json.loads(text)
            layer.append(("selected", info["circuit_id"], info["source"]))
        layers.append(layer)
        want = []
        for n, layer in enumerate(layers):
            for x in layer:
                want.append((n, self.style(x) if isinstance(x, tuple) else x))
        return {"cytoscape-prototypes.stylesheet": ("styles", w.default_stylesheet, want)}

    def style(self, x):
        w = self.w
        edge = 'edge[circuit_id="{}"][source="{}"]'
        node = 'node[id="{}"]'
        kind = x[0]
        if kind in ("demand", "demand-back"):
            head, tail = ("target", "source") if kind == "demand" else ("source", "target")
            return {"selector": edge.format(x[1], x[2]), "style": {
                "width": str(w.demand_interface_width), "line-style": "dashed",
                head + "-arrow-color": w.demand_color, head + "-arrow-shape": "triangle",
                "mid-" + head + "-arrow-color": w.demand_color, "mid-" + head + "-arrow-shape": "triangle",
                tail + "-arrow-color": w.demand_color, tail + "-arrow-shape": "square",
                "arrow-scale": ".9", "zIndex": 1000}}
        if kind == "demand-node":
            return {"selector": node.format(x[1]), "style": {"background-color": w.demand_color}}
        if kind == "lsp":
            return {"selector": edge.format(x[1], x[2]), "style": {
                "line-style": "dashed", "width": str(w.lsp_interface_width), "target-arrow-shape": "chevron",
                "arrow-scale": ".9", "target-arrow-color": w.lsp_color, "z-axis": 2000}}
        if kind == "lsp-back":
            return {"selector": edge.format(x[1], x[2]), "style": {
                "line-style": "dashed", "source-arrow-shape": "chevron", "arrow-scale": ".9",
                "source-arrow-color": w.lsp_color, "z-axis": 2000}}
        if kind == "lsp-node":
            return {"selector": node.format(x[1]), "style": {
                "border-color": w.lsp_color, "border-width": "5px", "width": "45px", "height": "30px"}}
        return {"selector": edge.format(x[1], x[2]), "style": {
            "line-style": "dotted", "width": str(w.selected_interface_width)}}

    # ---- judging
    def judge(self, body, status, out, last_error):
        want = self.expected(body)
        if want is None:
            return "unjudged"
        what = "{} {} with {}".format(body["output"], body["changedPropIds"],
                                      {i["id"]: i.get("value") for i in body["inputs"]})

        def bad(cls, msg):
            raise Violation(cls, "request {}: {}".format(what[:600], msg))
        if status not in (200, 204):
            if want is ERROR:
                return "refused"
            bad("server-error", "answered {} ({!r})".format(status, last_error))
        if want is ERROR:
            # a thing that is gone: nothing of another one may be shown
            for (cid, prop), got in out.items():
                if prop == "options" and any(o["value"] and o["value"] not in (
                        self.nobody, self.no_int, self.no_dmd, self.no_lsp) for o in got):
                    if not cid.endswith(("source-callback", "destination-callback")):
                        bad("answer-for-unknown", "shows {}".format(str(got)[:300]))
            return "answered-unknown"
        if want == NOTHING:
            if status != 204 and out:
                bad("answer:" + body["output"], "answered {} instead of no update".format(str(out)[:300]))
            return "no-update"
        if status == 204:
            bad("answer:" + body["output"], "answered with no update instead of {}".format(str(want)[:300]))
        for o, exp in want.items():
            key = tuple(o.rsplit(".", 1))
            if key not in out:
                bad("answer:" + o, "no value for {}".format(o))
            msg = self.differs(exp, out[key])
            if msg:
                bad("answer:" + o, msg)
        return "answered"

    def differs(self, exp, got):
        kind = exp[0]
        if kind == "exact":
            return None if got == exp[1] else "gives {} instead of {}".format(got, exp[1])
        if kind == "json":
            try:
                val = json.loads(got)
            except (TypeError, ValueError):
                return "gives {!r}".format(got)
            return None if val == exp[1] else "gives {} instead of {}".format(val, exp[1])
        if kind == "none":
            return None if not any(o["value"] for o in got) else "offers {}".format(got)
        if kind == "options":
            head, rest = exp[1], exp[2]
            if got[:len(head)] != head:
                return "offers {} where {} come first".format(str(got)[:400], head)
            a = sorted((o["label"], jsort(o["value"])) for o in got[len(head):])
            b = sorted((o["label"], json.dumps(o["value"], sort_keys=True)) for o in rest)
            return None if a == b else "offers {} instead of {}".format(a, b)
        if kind == "styles":
            base, want = exp[1], exp[2]
            if got[:len(base)] != base:
                return "the default styles are not the first of {}".format(str(got)[:300])
            have = []
            left = {canon(s) for _, s in want}
            pos = {}
            for s in got[len(base):]:
                c = canon(s)
                if c not in left:
                    return "has a style {} that belongs to nothing selected".format(s)
                pos.setdefault(c, []).append(len(have))
                have.append(c)
            for n, s in want:
                if canon(s) not in pos:
                    return "lacks the style {}".format(s)
            # a later layer overrides an earlier one
            last = -1
            for n in range(4):
                mine = [p for m, s in want if m == n for p in pos[canon(s)]]
                if mine and min(mine) < last:
                    return "styles are applied in another order"
                last = max([last] + mine)
            return None
        raise HarnessError(kind)

    def page(self, layout):
        """The page as loaded."""
        f = self.f
        comps = walk(layout, {})
        if MAP not in comps:
            return
        els = comps[MAP].get("elements", [])
        nodes = {}
        edges = []
        for e in els:
            d = e["data"]
            if "source" in d:
                edges.append(d)
            else:
                c = canon(e)
                if nodes.setdefault(d["id"], c) != c:
                    raise Violation("page:nodes", "two different nodes with id {!r}".format(d["id"]))
        at = {e["data"]["id"]: e for e in els if "source" not in e["data"]}
        sp = self.w.spacing_factor
        ends = {n for x in f.ints.values() for n in (x["source"], x["dest"])}
        for n in f.ref.nodes:
            if n in ends and n not in at:
                raise Violation("page:nodes", "node {!r} is not on the map".format(n))
            if n in at:
                lat, lon = f.coords[n]
                want = {"position": {"x": lon * sp, "y": -lat * sp}, "data": {
                    "id": n, "label": n, "group": "", "failed": str(f.ref.nodes[n]["failed"])}}
                if at[n] != want:
                    raise Violation("page:nodes", "node {!r} is shown as {} instead of {}".format(n, at[n], want))
        middles = set()
        seen = {}
        for d in edges:
            x = f.ints.get((d["source"], d["interface-name"]))
            if x is None:
                raise Violation("page:edges", "edge {} is no interface".format(d))
            if x["iid"] in seen:
                raise Violation("page:edges", "interface {} is on the map twice".format(x["iid"]))
            seen[x["iid"]] = d
            mid = at.get(d["target"])
            if mid is None or mid["data"]["group"] != "midpoint":
                raise Violation("page:edges", "edge {} leads to no midpoint".format(d))
            middles.add(d["target"])
            a, b = (f.coords[n] for n in (x["source"], x["dest"]))
            pos = mid["position"]
            if (abs(pos["x"] - (a[1] + b[1]) * sp / 2) > 1e-6 or abs(pos["y"] + (a[0] + b[0]) * sp / 2) > 1e-6
                    or sorted(mid["data"].get("neighbors", [])) != sorted([x["source"], x["dest"]])):
                raise Violation("page:edges", "midpoint {} of {} is misplaced".format(mid, d))
            want = {"source": x["source"], "target": d["target"], "group": self.color(x["util"]),
                    "circuit_id": str(x["circuit_id"]), "utilization": x["util"],
                    "interface-name": x["interface-name"], "capacity": x["capacity"], "cost": x["cost"]}
            if d != want:
                raise Violation("page:edges", "interface {} is shown as {} instead of {}".format(x["iid"], d, want))
        if set(seen) != set(f.of):
            raise Violation("page:edges", "interfaces {} are not on the map".format(sorted(set(f.of) - set(seen))))
        for lid in f.ref.links:
            if seen[(lid, "a")]["target"] != seen[(lid, "b")]["target"]:
                raise Violation("page:edges", "the two ends of {} do not meet".format(lid))
        extra = set(at) - middles - set(f.ref.nodes)
        if extra:
            raise Violation("page:nodes", "the map shows {}, which the model lacks".format(sorted(extra)))
        got = comps.get("find-node", {}).get("options")
        want = [{"label": n, "value": n} for n in sorted(f.ref.nodes)]
        if got != want:
            raise Violation("page:find-node", "the page offers nodes {} instead of {}".format(got, want))
        colors = [o["value"] for o in comps.get(UTIL, {}).get("options", [])]
        if colors != list(self.w.util_ranges.values()):
            raise Violation("page:util", "the page offers colors {}".format(colors))

    def color(self, util):
        ranges = self.w.util_ranges
        if isinstance(util, str):
            return ranges["failed"]
        for top, name in ((25, "0-24"), (50, "25-49"), (75, "50-74"), (90, "75-89"), (100, "90-99")):
            if util < top:
                return ranges[name]
        return ranges["100+"]


def canon(x):
    if "selector" in x:
        # edge[a="x"][b="y"] and edge[b="y"][a="x"] select the same
        sel = x["selector"]
        x = dict(x, selector=[sel.split("[")[0], sorted(re.findall(r'\[\w+="[^"]*"\]', sel))])
    return json.dumps(x, sort_keys=True)


def jsort(text):
    try:
        return json.dumps(json.loads(text), sort_keys=True)
    except (TypeError, ValueError):
        return text
