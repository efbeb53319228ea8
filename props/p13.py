import importlib

from sim import audit, env, hist_prop, history, queries, reports, runner, threads
from sim.core import Violation
from sim.world import World

TITLE = "reading a simulated model from many threads"
LEVEL = "exploration"
RUNS = 12000
COUNT = "schedules"
RULE = ("seeded networks and histories, mostly ending in a completed simulation; then one to four real threads, of which the "
        "simulator lets one run at a time, ask seeded questions (queries, reports, diagnostics, derived values) of "
        "one model; the seeded scheduler switches them at lines of pyNTM, and "
        "exceptions are raised inside some questions.  Every answer is compared with the one an identical model "
        "gives when asked alone, and the model's state before with the state after, which is audited against the "
        "reference.  A case counts when several threads ran or a question was interrupted; distinct = distinct "
        "executed schedule (thread and length of every segment, place of every fault)")
NEED = ["probe:threads-2", "probe:threads-3", "probe:interrupted", "probe:switched",
        "fault:line:KeyboardInterrupt", "fault:line:MemoryError", "fault:line:TimeoutError", "fault:line:SystemExit",
        "probe:lsps-read", "probe:single-reader", "probe:cold-never", "probe:cold-lsps"]
ASSUME = ["switches happen between lines of pyNTM (tracing bytecodes from several threads crashes CPython "
          "3.12); inside networkx and other libraries a thread runs on", "printing is not asked for from several threads: standard output is one"]
STUB = runner.STUB + ["thread scheduling (sim.threads: one baton, seeded hand-over)"]


def gen(r, i, tier):
    kw = {"lsps": r.choice([True, "always", "always"]), "nmax": r.choice([4, 6]), "frac": r.random() < 0.1}
    plan = hist_prop.plan(r, kw, hist_prop.scaled(), (1, 6), abort_p=0.0)
    plan["cold"] = r.choice([None, None, None, None, "never", "lsps"])
    n = r.choice([1, 2, 2, 3, 3, 4])
    if r.random() < 0.4:
        # everybody asks much the same
        pool = [queries.draw(r) for _ in range(r.randint(1, 3))]
        plan["threads"] = [[r.choice(pool) for _ in range(r.randint(1, 4))] for _ in range(n)]
    else:
        plan["threads"] = [[queries.draw(r) for _ in range(r.randint(1, 5 if tier == "quick" else 10))]
                           for _ in range(n)]
    plan["sched"] = {"seed": r.getrandbits(32), "mode": r.choice(["log", "log", "fine", "long", "round"]),
                     "scale": r.choice([30, 300, 2000])}
    plan["faults"] = []
    if n == 1 or r.random() < 0.35:
        for t in range(n):
            if r.random() < 0.6:
                plan["faults"].append([t, round(r.random(), 4), r.choice(
                    ["KeyboardInterrupt", "MemoryError", "TimeoutError", "SystemExit"])])
    return plan


def build(plan, log, stats):
    env.Ctx(plan["salt"]).activate()
    spec, ops, cold = plan["spec"], [op for op in plan["ops"] if op[0] != "update_x"], plan.get("cold")
    if cold == "never":
        # nobody has simulated this model (since its latest changes)
        ops = [op for op in ops if op[0] not in ("update", "del_circuit", "del_lsp", "del_demand", "rename_int")]
    elif cold == "lsps":
        # the LSPs came after the simulation
        spec = dict(spec, lsps=[])
        ops = [op for op in ops if op[0] not in ("add_lsp", "del_lsp", "lsp_bw", "lsp_mm")]
    w = World(spec, log, stats)
    for op in ops:
        w.apply(op)
    if cold != "never":
        w.apply(["update"])
    if cold == "lsps":
        for x in plan["spec"]["lsps"]:
            w.apply(["add_lsp", x["s"], x["d"], x["n"], x.get("bw"), x.get("mm")])
    return w, queries.Ask(w, lenient=cold == "never")


def execute(plan, log, stats):
    with env.quiet_stdout():
        run(plan, log, stats)


def run(plan, log, stats):
    # alone
    w, a = build(plan, log, stats)
    before = audit.snapshot(w)
    alone, lines = [], []
    for qs in plan["threads"]:
        tracer = env.LineTracer(nx=False)
        with tracer:
            alone.append([a.ask(q) for q in qs])
        lines.append(tracer.n)
    snap = audit.snapshot(w)
    same_state(before, snap, "asked alone")
    if plan.get("cold") != "never":
        audit.config(w)

    # together
    w2, b = build(plan, log, stats)
    faults = {}
    for t, frac, exc in plan["faults"]:
        if t < len(lines):
            faults[t] = [1 + int(frac * lines[t]), history.EXCS[exc]()]
    answers = [[] for _ in plan["threads"]]

    def reader(tid):
        def go():
            for k, q in enumerate(plan["threads"][tid]):
                had = tid in sched.fired
                try:
                    got = b.ask(q)
                except BaseException as e:
                    if had or e is not sched.fired.get(tid):
                        raise
                    sched.trace()
                    stats.inc("probe:interrupted")
                    stats.inc("fault:line:" + type(e).__name__)
                    # asked once more
                    got = b.ask(q)
                else:
                    if not had and tid in sched.fired:
                        raise Violation("swallowed", "{} raised inside {} did not reach the caller, which got {}".format(
                            type(sched.fired[tid]).__name__, q, str(got)[:200]))
                answers[tid].append(got)
        return go

    sched = threads.Scheduler([reader(t) for t in range(len(plan["threads"]))], plan["sched"])
    sched.faults = faults
    env.Ctx.current = None
    try:
        sched.run()
    finally:
        log.add("schedule", [list(x) for x in sched.script], sorted(sched.fired))
    n = len(plan["threads"])
    stats.inc("switches", sched.switches)
    stats.inc("points", sched.steps)
    if n > 1 or sched.fired:
        stats.schedule((sched.script, sorted((t, x[0]) for t, x in faults.items())))
    stats.state((plan["threads"], before.text))
    stats.inc("probe:single-reader" if n == 1 else "probe:threads-{}".format(min(n, 3)))
    if sched.switches > n:
        stats.inc("probe:switched")
    if any(q[0] in ("lsp_traffic", "lsp_metric", "lsp_demands", "parallel_lsp_groups") for qs in plan["threads"]
           for q in qs) and w.ref.lsps:
        stats.inc("probe:lsps-read")
    for t, qs in enumerate(plan["threads"]):
        for q, x, y in zip(qs, alone[t], answers[t]):
            log.add("answer", t, q[0], repr(y)[:200])
            if x != y:
                raise Violation("answer:" + q[0], "{} gives {} among {} threads and {} alone".format(
                    q, str(y)[:400], n, str(x)[:400]))
    after = audit.snapshot(w2)
    same_state(before, after, "asked by {} threads".format(n))
    if plan.get("cold") != "never":
        audit.config(w2)
        reports.lookups(w2)
        reports.circuits(w2)
    again = [[b.ask(q) for q in qs] for qs in plan["threads"]]
    if again != alone:
        raise Violation("answer:later", "asked again afterwards, the model answers differently")
    if plan.get("cold"):
        stats.inc("probe:cold-" + plan["cold"])
        return
    reports.groups(w2)
    reports.on_elements(w2, after)
    reports.lsp_metrics(w2, after)


def same_state(a, b, what):
    if a.text != b.text or a.ints != b.ints or a.lsps != b.lsps or a.detail != b.detail or a.nodes != b.nodes:
        raise Violation("changed", "the model shows another state after being {}".format(what))


def shrink(plan):
    for cand in runner.drop_each(plan["threads"]):
        if cand:
            yield dict(plan, threads=cand, faults=[])
    for cand in runner.drop_each(plan["faults"]):
        yield dict(plan, faults=cand)
    for t, qs in enumerate(plan["threads"]):
        for cand in runner.drop_each(qs):
            if cand:
                yield dict(plan, threads=[cand if i == t else x for i, x in enumerate(plan["threads"])])
    yield from hist_prop.shrink(plan)
    yield from shrink_schedule(plan)


def shrink_schedule(plan, mod="props.p13"):
    if "script" not in plan["sched"]:
        for seed in range(12):
            yield dict(plan, sched={"seed": seed, "mode": "long", "scale": 300})
        try:
            log, _ = runner.run_plan(importlib.import_module(mod), plan, runner.Stats())
        except Exception:
            return
        for e in log.events:
            if e[0] == "schedule":
                yield dict(plan, sched={"script": [list(x) for x in e[1]]})
        return
    for cand in runner.drop_each(plan["sched"]["script"]):
        yield dict(plan, sched={"script": cand})
    script = plan["sched"]["script"]
    for j, (t, n) in enumerate(script):
        for m in (threads.STEP_BUDGET, n // 2, n - 1):
            if m > 0 and m != n and (m < n or n < threads.STEP_BUDGET):
                yield dict(plan, sched={"script": script[:j] + [[t, m]] + script[j + 1:]})


