from sim import audit, env, forked, gen as G, hist_prop, queries, runner, threads
from sim.core import Log, Violation
from sim.world import World

TITLE = "independence of models in one process"
LEVEL = "exploration"
RUNS = 2400
COUNT = "schedules"
RULE = ("two to four models, each with its own seeded network (often the very same names), way of building, history "
        "and questions, are driven by real threads of which the simulator lets one run at a time, switched by the "
        "seeded scheduler between operations or at lines of pyNTM; each party has its own random stream and iteration "
        "order.  Everything each party observes is compared with what it observes when it runs alone in a fresh process, which is "
        "audited against the reference, and again after all have ended.  A case counts when a switch took place; "
        "distinct = distinct executed schedule")
NEED = ["probe:same-names", "probe:same-spec", "probe:mixed-classes", "probe:by-line", "probe:by-operation",
        "probe:built-file", "probe:built-api", "probe:built-list", "probe:built-ctor", "probe:refused-request",
        "probe:empty-model", "probe:asked-unsimulated", "probe:asked-any-time"]
ASSUME = ["switches happen between lines of pyNTM; inside networkx and other libraries a thread runs on",
          "the models share no element objects: sharing them is the caller's doing"]
STUB = runner.STUB + ["thread scheduling (sim.threads: one baton, seeded hand-over)", "the file system (VFS)"]


def gen(r, i, tier):
    k = r.choice([2, 2, 3, 4])
    parties = []
    kw = {"lsps": r.choice([True, True, "always"]), "nmax": r.choice([3, 4, 5]), "style": None}
    if r.random() < 0.7:
        kw["style"] = r.choice(["letters", "digits", "prefix"])
    same = r.random() < 0.3
    for j in range(k):
        if same and parties:
            spec = dict(parties[0]["spec"], build=r.choice(["ctor", "file", "api", "list"]))
        else:
            spec = G.make_spec(r, **kw)
            if r.random() < 0.08:
                spec = dict(spec, links=[], demands=[], lsps=[], build="ctor")
                spec.pop("row_order", None)
        ops = G.history(r, spec, r.randint(1, 6 if tier == "quick" else 12), hist_prop.ALL, abort_p=0.0)
        out = []
        early = r.random() < 0.4
        while early and r.random() < 0.7:
            out.append(["ask!", queries.draw(r)])
        if early and r.random() < 0.3:
            ops = [op for op in ops if op[0] != "update"]
        for op in ops:
            out.append(op)
            while r.random() < 0.35:
                out.append(["ask", queries.draw(r)])
            if early:
                out.append(["ask!", queries.draw(r)])
            if r.random() < 0.08:
                out.append(["bad", r.randint(0, 4)])
        parties.append({"spec": spec, "ops": out})
    return {"parties": parties, "lines": r.random() < 0.6,
            "sched": {"seed": r.getrandbits(32), "mode": r.choice(["log", "log", "fine", "long", "round"]),
                      "scale": r.choice([100, 2000, 20000])}}


BAD = [lambda m: m.get_node_object("?ghost"), lambda m: m.add_demand("?ghost", "?ghost2", 1, "x"),
       lambda m: m.fail_interface("?ghost", "?ghost"), lambda m: m.fail_srlg("?ghost"),
       lambda m: m.add_rsvp_lsp("?ghost", "?ghost2", "x")]


def party(p, log, stats, point):
    """Drive one model; everything it shows goes to `log`."""
    w = World(p["spec"], log, stats)
    stats.inc("probe:built-" + p["spec"].get("build", "ctor"))
    if not p["spec"]["links"]:
        stats.inc("probe:empty-model")
    ask = None
    for op in p["ops"]:
        point()
        if op[0] == "ask":
            if w.simulated and not w.must_update and not w.dirty:
                ask = ask or queries.Ask(w)
                log.add("answer", op[1][0], ask.ask(op[1]))
        elif op[0] == "ask!":
            # asked of a model that has not been simulated, or not since it was changed
            stats.inc("probe:asked-unsimulated" if not w.simulated else "probe:asked-any-time")
            try:
                got = queries.Ask(w).ask(op[1])
            except Exception as e:
                got = type(e).__name__
            log.add("early", op[1][0], got)
        elif op[0] == "bad":
            try:
                with env.quiet_stdout():
                    BAD[op[1]](w.m)
                got = "accepted"
            except env.ModelException as e:
                got = str(e)[:80]
                stats.inc("probe:refused-request")
            log.add("bad", op[1], got)
        elif op[0] != "update_x":
            ask = None
            w.apply(op)
            if op[0] == "update":
                audits(w, log, stats)
    return w


def audits(w, log, stats):
    snap = audit.snapshot(w)
    log.add("snap", snap.text)
    stats.inc("updates")
    audit.config(w)
    audit.demand_paths(w.ref, snap, stats)
    audit.loads(w.ref, snap, stats)
    audit.reservations(w.ref, snap, stats)
    return snap


def execute(plan, log, stats):
    with env.quiet_stdout():
        run(plan, log, stats)


def run(plan, log, stats):
    def solo(j):
        def go(st):
            env.Ctx("{}/{}".format(plan["salt"], j)).activate()
            lg = Log()
            party(plan["parties"][j], lg, st, lambda: None)
            return lg.events
        return go

    # each party alone, in a process that has seen no other model
    alone = [forked.call(solo(j), stats) for j in range(len(plan["parties"]))]
    events, v = forked.call(lambda st: together(plan, alone, st), stats)
    for e in events:
        log.add(*e)
    if v is not None:
        raise Violation(*v)


def together(plan, alone, stats):
    log = Log()
    try:
        among(plan, alone, log, stats)
    except Violation as e:
        return log.events, (e.cls, e.msg)
    return log.events, None


def among(plan, alone, log, stats):
    logs = [Log() for _ in plan["parties"]]
    ctxs = [env.Ctx("{}/{}".format(plan["salt"], j)) for j in range(len(logs))]

    def point():
        if not plan["lines"]:
            sched.point()

    def body(j):
        return lambda: party(plan["parties"][j], logs[j], stats, point)

    sched = threads.Scheduler([body(j) for j in range(len(logs))], plan["sched"], ctxs, lines=plan["lines"])
    try:
        worlds = sched.run()
    finally:
        log.add("schedule", [list(x) for x in sched.script])
    stats.inc("switches", sched.switches)
    stats.inc("points", sched.steps)
    stats.inc("probe:by-line" if plan["lines"] else "probe:by-operation")
    names = [{n["name"] for n in p["spec"]["nodes"]} for p in plan["parties"]]
    if any(a & b for x, a in enumerate(names) for b in names[:x]):
        stats.inc("probe:same-names")
    if any(a["spec"]["links"] == b["spec"]["links"] for x, a in enumerate(plan["parties"])
           for b in plan["parties"][:x]):
        stats.inc("probe:same-spec")
    if len({p["spec"]["model"] for p in plan["parties"]}) > 1:
        stats.inc("probe:mixed-classes")
    if sched.switches > len(logs):
        stats.schedule((sched.script, [p["ops"] for p in plan["parties"]]))
    for j, lg in enumerate(logs):
        log.add("party", j, len(lg.events), lg.digest())
        for x, y in zip(alone[j] + [None], lg.events + [None]):
            if x != y:
                raise Violation("differs", "party {} sees {} among {} and {} alone".format(
                    j, str(y)[:500], len(logs), str(x)[:500]))
    # and afterwards
    for j, w in enumerate(worlds):
        env.Ctx.current = None
        ctxs[j].activate()
        w.apply(["update"])
        snap = audits(w, log, stats)
        stats.state(snap.text)
    elements = {}
    for j, w in enumerate(worlds):
        for o in list(w.m.node_objects) + list(w.m.interface_objects) + list(w.m.demand_objects) + \
                list(w.m.rsvp_lsp_objects) + list(w.m.srlg_objects):
            if elements.setdefault(id(o), j) != j:
                raise Violation("shared", "two models hold the same object {!r}".format(o))


def shrink(plan):
    for cand in runner.drop_each(plan["parties"]):
        if cand:
            yield dict(plan, parties=cand)
    if plan["lines"]:
        yield dict(plan, lines=False)
    for j, p in enumerate(plan["parties"]):
        for small in runner.shrink_history(dict(p, clock="steady")):
            small.pop("clock", None)
            yield dict(plan, parties=[small if i == j else x for i, x in enumerate(plan["parties"])])
    from props.p13 import shrink_schedule
    yield from shrink_schedule(plan, "props.p12")


