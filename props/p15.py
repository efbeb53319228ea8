import json
import sys

from sim import audit, env, gen as G, hist_prop, history, runner, threads, webmap
from sim.core import Violation, rng
from sim.world import World

TITLE = "the weather map shows each viewer the model's present state"
LEVEL = "exploration"
RUNS = 2600
COUNT = "schedules"
RULE = ("a seeded network is served by the real Dash application (behind Flask's test client) to one to four simulated "
        "browsers whose users click what their page offers; requests and responses travel through a simulated network "
        "that delays, reorders, loses, repeats and duplicates them, groups of requests run in threads switched at "
        "lines of pyNTM, exceptions are raised inside handlers, and between phases the operator changes and "
        "re-simulates the model or restarts the server under the open pages.  Every response and every page is compared "
        "with what the model's state says for that very request, and the model before serving with the model after.  A "
        "case counts when requests were answered; distinct = distinct order of requests and responses")
NEED = ["probe:page", "probe:viewers-2", "probe:concurrent", "probe:restarted", "probe:old-page", "net:reordered",
        "net:lost-request", "net:lost-response", "net:duplicated", "fault:handler", "judged:answered",
        "judged:no-update", "judged:refused", "act:edge", "act:util", "act:clear", "act:lsp-interface-callback",
        "act:find-demands-callback", "act:interface-demand-callback"]
ASSUME = ["the Dash renderer (what a page requests when something in it changes) is modelled: one request per callback "
          "that depends on the changed property, answers to superseded requests are ignored",
          "the model is simulated after it was changed and before requests are served again"]
REAL = ["pyNTM.weathermap", "dash and flask request handling", "pyNTM models", "networkx 2.4"]
STUB = ["browsers and the network (sim.webmap)", "Dash.run (nothing listens)",
        "thread scheduling (sim.threads: one baton, seeded hand-over)"]


def gen(r, i, tier):
    kw = {"lsps": r.choice([True, "always", "always"]), "nmax": r.choice([4, 6]), "frac": r.random() < 0.15,
          "wide": 0.04}
    spec = G.make_spec(r, **kw)
    ops = G.history(r, spec, r.randint(1, 8), hist_prop.scaled(), frac=kw["frac"], update_p=0.25)
    ops = [op for op in ops if op[0] != "update_x"]
    phases, cur = [], []
    for op in ops:
        cur.append(op)
        if op[0] == "update" and r.random() < 0.6:
            phases.append({"ops": cur})
            cur = []
    if cur or not phases:
        phases.append({"ops": cur})
    for ph in phases:
        ph["ops"] = [op for op in ph["ops"]] + [["update"]]
        ph["restart"] = r.random() < 0.22
        ph["acts"] = []
        ph["reload"] = r.random() < 0.4
    n = r.choice([1, 2, 2, 3, 4])
    likes = r.sample(sorted(webmap.PICKS) + ["clear", "edge", "edge", "util", "pick"], r.randint(3, 10))
    habit, past = r.random() < 0.6, []
    for ph in phases:
        for _ in range(r.randint(2, 12 if tier == "quick" else 25)):
            if habit and past and r.random() < 0.5:
                # somebody looks at the same thing again
                ph["acts"].append([r.randrange(n), list(r.choice(past))])
                continue
            ph["acts"].append([r.randrange(n), [r.choice(likes) if r.random() < 0.8 else r.choice(
                ["edge", "clear", "util", "pick"]), r.randint(0, 63), r.randint(0, 200)]])
            past.append(ph["acts"][-1][1])
    mode = r.choice(["fifo", "wild", "wild", "batch"])
    return {"spec": spec, "phases": phases, "viewers": n,
            "net": {"seed": r.getrandbits(32), "mode": mode,
                    "lossy": r.choice([0, 0, 0.1, 0.3]), "faulty": r.choice([0, 0, 0.1, 0.3])},
            "sched": {"mode": r.choice(["log", "fine", "long"]), "scale": r.choice([30, 300])}}


def execute(plan, log, stats):
    with env.quiet_stdout():
        Session(plan, log, stats).run()


class Session:
    def __init__(self, plan, log, stats):
        self.plan, self.log, self.stats = plan, log, stats
        self.r = rng("net", plan["net"]["seed"])
        self.w = World(plan["spec"], log, stats)
        self.viewers = []
        self.server = None
        self.order = []
        self.batches = 0

    def run(self):
        for n, ph in enumerate(self.plan["phases"]):
            for op in ph["ops"]:
                self.w.apply(op)
            self.w.apply(["update"])
            snap = audit.snapshot(self.w)
            self.oracle = None
            if self.server is None or ph["restart"]:
                if self.server is not None:
                    self.stats.inc("probe:restarted")
                self.server = webmap.Server(self.w)
            self.oracle = webmap.Oracle(webmap.Facts(self.w, snap), self.server.map)
            self.queue = []
            for v in range(self.plan["viewers"]):
                if v >= len(self.viewers):
                    self.viewers.append(webmap.Viewer(v, self.server))
                    self.queue += self.viewers[v].first()
                elif ph["reload"]:
                    self.viewers[v].load(self.server)
                    self.queue += self.viewers[v].first()
                else:
                    self.stats.inc("probe:old-page")
            self.stats.inc("probe:viewers-{}".format(min(2, len(self.viewers))))
            self.page()
            self.traffic(ph["acts"])
            self.page()
            after = audit.snapshot(self.w)
            if after.text != snap.text or after.detail != snap.detail:
                raise Violation("changed", "serving the weather map changed the model")
            self.stats.state((snap.text, ph["acts"]))
        audit.config(self.w)
        self.stats.schedule(self.order)

    def page(self):
        layout = self.server.layout()
        self.oracle.page(layout)
        self.stats.inc("probe:page")

    # ---- the network
    def traffic(self, acts):
        """Everybody clicks; requests and responses get through in seeded order."""
        net = self.plan["net"]
        acts = list(acts)
        reqs, resps = self.queue, []
        steps = 0
        while acts or reqs or resps:
            steps += 1
            if steps > 4000:
                raise Violation("no-progress", "requests keep causing requests")
            kinds = (["resp"] * 3 if resps else []) + (["req"] * 3 if reqs else [])
            if acts and (not kinds or (net["mode"] != "fifo" and self.r.random() < 0.15)):
                v, act = acts.pop(0)
                got = self.viewers[v].act(act)
                if got is None:
                    self.stats.inc("act:nothing-to-click")
                    continue
                self.stats.inc("act:" + (act[0] if act[0] in ("edge", "util", "clear") else got[0]))
                self.log.add("act", v, got[0])
                reqs += got[1]
                continue
            if net["mode"] == "fifo":
                kind = kinds[0]
            else:
                kind = self.r.choice(kinds)
            if kind == "resp":
                req, out = self.take(resps)
                if self.r.random() < net["lossy"] * 0.3:
                    self.stats.inc("net:lost-response")
                    self.retry(req, reqs)
                    continue
                more = self.viewers[req["viewer"]].answered(req, out)
                self.log.add("response", req["viewer"], req["seq"], more is not None)
                if more is None:
                    self.stats.inc("net:late-response")
                    continue
                reqs += more
                continue
            n = 1 if net["mode"] == "fifo" else self.r.choice([1, 1, 1, 2, 3] if net["mode"] == "wild" else [1, 2, 3, 4])
            batch = []
            while reqs and len(batch) < n:
                req = self.take(reqs)
                if self.r.random() < net["lossy"] * 0.3:
                    self.stats.inc("net:lost-request")
                    self.retry(req, reqs)
                    continue
                batch.append(req)
                if self.r.random() < net["lossy"] * 0.4:
                    self.stats.inc("net:duplicated")
                    batch.append(req)
            for req, status, out in self.handle(batch):
                if status == 200:
                    resps.append((req, out))
                elif status >= 500:
                    # the page shows an error; the user may try again
                    self.retry(req, reqs)

    def take(self, items):
        k = 0 if self.plan["net"]["mode"] == "fifo" else self.r.randrange(len(items))
        if k:
            self.stats.inc("net:reordered")
        return items.pop(k)

    def retry(self, req, reqs):
        if req["tries"] < 3 and self.r.random() < 0.7:
            req = dict(req, tries=req["tries"] + 1)
            self.stats.inc("net:repeated")
            reqs.append(req)

    # ---- the server
    def handle(self, batch):
        if not batch:
            return []
        self.batches += 1
        srv = self.server
        results = [None] * len(batch)
        fault = None
        if self.r.random() < self.plan["net"]["faulty"]:
            fault = [self.r.randrange(len(batch)), self.r.randint(1, 80), self.r.choice(["MemoryError", "TimeoutError"])]
        srv.errors.last = None
        fired = set()
        if len(batch) == 1:
            if fault:
                tracer = env.LineTracer(at=fault[1], exc=history.EXCS[fault[2]](), nx=False)
                webmap.TRACE[0] = lambda: None if tracer.fired else sys.settrace(tracer._global)
                try:
                    results[0] = srv.post(batch[0]["body"])
                finally:
                    webmap.TRACE[0] = lambda: None
                if tracer.fired:
                    fired.add(0)
            else:
                results[0] = srv.post(batch[0]["body"])
        else:
            def handler(k):
                def go():
                    results[k] = srv.post(batch[k]["body"])
                return go
            sched = threads.Scheduler([handler(k) for k in range(len(batch))],
                                      dict(self.plan["sched"], seed="{}:{}".format(self.plan["net"]["seed"],
                                                                                  self.batches)), tracing=False)
            webmap.TRACE[0] = sched.trace
            if fault:
                sched.faults = {fault[0]: [fault[1], history.EXCS[fault[2]]()]}
            try:
                sched.run()
            finally:
                webmap.TRACE[0] = lambda: None
                self.log.add("batch", [list(x) for x in sched.script])
                self.order.append(sched.script)
            self.stats.inc("probe:concurrent")
            self.stats.inc("switches", sched.switches)
            fired = set(sched.fired)
        out = []
        for k, req in enumerate(batch):
            status, data = results[k]
            self.log.add("request", req["viewer"], req["seq"], req["body"]["output"], req["body"]["changedPropIds"],
                         status, sorted((key, order_free(val)) for key, val in data.items()))
            self.order.append((req["viewer"], req["body"]["output"], req["body"]["changedPropIds"], status))
            if k in fired:
                self.stats.inc("fault:handler")
                self.stats.inc("fault:line:" + fault[2])
                if status == 200 or status == 204:
                    raise Violation("swallowed", "{} raised inside a handler, which answered {}".format(
                        fault[2], str(data)[:300]))
            else:
                how = self.oracle.judge(req["body"], status, data, srv.errors.last)
                self.stats.inc("judged:" + how)
            out.append((req, status, data))
        return out


def order_free(value):
    """For the log: lists whose order depends on set order are still the same in a replay."""
    return json.dumps(value, sort_keys=True)[:200]


def shrink(plan):
    for cand in runner.drop_each(plan["phases"]):
        if cand:
            yield dict(plan, phases=cand)
    net = plan["net"]
    if net["mode"] != "fifo":
        yield dict(plan, net=dict(net, mode="fifo"))
    for k in ("lossy", "faulty"):
        if net[k]:
            yield dict(plan, net=dict(net, **{k: 0}))
    if plan["viewers"] > 1:
        yield dict(plan, viewers=1, phases=[dict(ph, acts=[[0, a] for v, a in ph["acts"]]) for ph in plan["phases"]])
    for j, ph in enumerate(plan["phases"]):
        def put(new):
            return dict(plan, phases=[new if i == j else x for i, x in enumerate(plan["phases"])])
        for cand in runner.drop_each(ph["acts"]):
            yield put(dict(ph, acts=cand))
        for cand in runner.drop_each(ph["ops"]):
            yield put(dict(ph, ops=cand))
        if ph["restart"]:
            yield put(dict(ph, restart=False))
    for cand in runner.shrink_history({"spec": plan["spec"], "ops": [], "clock": plan.get("clock", "steady")}):
        yield dict(plan, spec=cand["spec"])
