import copy

from sim import audit, env, gen as G, hist_prop, history
from sim.core import Violation
from sim.world import VALIDATING, World

TITLE = "interrupted failure and restore requests"
LEVEL = "exploration"
RUNS = 11000
RULE = ("seeded random histories of failures and restorations (interfaces from either end and either API, nodes, "
        "shared-risk groups, overlapping causes) in which requests are cut short by an exception raised at a seeded "
        "executed line, once or several times; after each interruption everything outside the request's scope is "
        "compared with what it was, then the request is repeated (or, where the outcome is determined, withdrawn by "
        "its opposite), possibly after a validation or simulation, and the failure state compared with the reference; "
        "simulations afterwards are audited.  A case counts when at least one demand is routed at a simulation; "
        "distinct = distinct state snapshot and distinct failure state after an interruption")
OPS = ["fail_int", "unfail_int", "fail_node", "unfail_node", "fail_srlg", "unfail_srlg"]
NEED = ["probe:interrupted:" + k for k in OPS] + [
    "probe:repeated", "probe:withdrawn", "probe:interrupted-twice", "probe:half-done", "probe:simulated-between",
    "probe:repeat-refused", "fault:line:KeyboardInterrupt", "fault:line:MemoryError", "fault:line:SystemExit",
    "fault:line:TimeoutError"]
OPPOSITE = {"fail_node": "unfail_node", "unfail_node": "fail_node", "fail_srlg": "unfail_srlg",
            "unfail_srlg": "fail_srlg", "fail_int": "unfail_int", "unfail_int": "fail_int"}


def gen(r, i, tier):
    kw = {"lsps": r.random() < 0.4, "demands": (0, 3), "nmin": 3}
    mix = {k: 2 * w for k, w in G.FAILOPS.items()}
    mix.update({"add_circuit": 1, "cost": 1, "traffic": 1})
    plan = hist_prop.plan(r, kw, mix, (4, 20 if tier == "quick" else 50), update_p=r.choice([0.0, 0.1, 0.3]),
                          abort_p=0.0)
    p = r.choice([0.3, 0.6, 0.9])
    for j, op in enumerate(plan["ops"]):
        if op[0] in OPS and r.random() < p:
            faults = [dict(G.aborted(r)[1]) for _ in range(r.choice([1, 1, 1, 2, 3]))]
            for f in faults:
                f.update(kind="line", frac=round(r.random(), 4), nx=False)
                f["exc"] = r.choice(["KeyboardInterrupt", "MemoryError", "TimeoutError", "SystemExit"])
            plan["ops"][j] = ["cut", op, faults, r.choice(["repeat", "repeat", "repeat", "withdraw"]),
                              r.choice([None, None, None, "update", "validate"])]
    return plan


def flags(w):
    s = audit.FailSnap(w)
    out = {("int",) + i: v["failed"] for i, v in s.ints.items()}
    out.update({("node", n): v for n, v in s.nodes.items()})
    out.update({("srlg", x.name): x.failed for x in w.m.srlg_objects})
    return out


def ref_flags(ref):
    out = {("int", lid, s): ln["failed"] for lid, ln in ref.links.items() for s in "ab"}
    out.update({("node", n): x["failed"] for n, x in ref.nodes.items()})
    out.update({("srlg", s): x["failed"] for s, x in ref.srlgs.items()})
    return out


def execute(plan, log, stats):
    w = World(plan["spec"], log, stats)
    lines = {}

    def check_update():
        snap = audit.snapshot(w)
        log.add("snap", snap.text)
        stats.inc("updates")
        if any(snap.demands.values()):
            stats.state(snap.text)
        audit.failure_state(w.ref, snap, w.m)
        audit.demand_paths(w.ref, snap, stats)
        audit.loads(w.ref, snap, stats)
        audit.reservations(w.ref, snap, stats)

    def check():
        s = audit.FailSnap(w)
        audit.invariants(w.ref, s, w.m)
        audit.failure_state(w.ref, s, w.m)

    def cut(op, faults, then, between):
        if not w.valid(op):
            return "skip"
        if w.must_update and (op[0] in VALIDATING or not w.simulated):
            w.apply(["update"])
        before = ref_flags(w.ref)
        done = World.__new__(World)
        done.ref = copy.deepcopy(w.ref)
        want = done._apply_ref(op)
        after = ref_flags(done.ref)
        scope = {k for k in before if before[k] != after[k]}
        cuts = 0
        for f in faults:
            f = dict(f, lines=lines.get(op[0], 150))
            got = history.apply_interrupted(w, op, f, log, stats)
            if got != "aborted":
                if w.fault_fired:
                    raise Violation("swallowed", "{} raised during {} did not reach the caller".format(f["exc"], op))
                break
            cuts += 1
            now = flags(w)
            stats.state(("cut", sorted(now.items(), key=repr)))
            bad = {k: now.get(k) for k in before if k not in scope and now.get(k) != before[k]}
            if bad or set(now) != set(before):
                raise Violation("out-of-scope", "{} cut short changed {}".format(op, bad or set(now) ^ set(before)))
            if any(now[k] != before[k] for k in scope) and any(now[k] == before[k] for k in scope):
                stats.inc("probe:half-done")
        w.dirty = True
        if cuts:
            stats.inc("probe:interrupted:" + op[0])
            if cuts > 1:
                stats.inc("probe:interrupted-twice")
            if between == "update" or (between == "validate" and not w.must_update and w.simulated):
                # half-failed circuits are taken down on both ends, nothing else may change
                prior = flags(w)
                with env.quiet_stdout():
                    w._apply_real([between])
                now = flags(w)
                bad = {k: now[k] for k in prior if prior[k] != now[k] and (k not in scope or not now[k])}
                if bad:
                    raise Violation("out-of-scope", "{} after {} was cut short changed {}".format(between, op, bad))
                if between == "update":
                    w.must_update = False
                    w.simulated = True
                    stats.inc("probe:simulated-between")
        elif got == "completed" or isinstance(got, tuple):
            raised = isinstance(got, tuple)
            if raised != (want == "raised"):
                raise Violation("refused:" + op[0] if raised else "accepted:" + op[0], "{}: {}".format(op, got))
            w.ref = done.ref
            stats.inc("op:" + op[0])
            return "ok"
        if cuts and then == "withdraw":
            back = [OPPOSITE[op[0]]] + op[1:]
            if op[0] == "fail_int":
                back.append(False)
            elif op[0] == "unfail_int":
                back = back[:4]
            one, two = copy.deepcopy(w.ref), copy.deepcopy(done.ref)
            outs = []
            for r in (one, two):
                t = World.__new__(World)
                t.ref = r
                outs.append(t._apply_ref(back))
            if outs[0] == outs[1] == "ok" and ref_flags(one) == ref_flags(two):
                w.apply(back)
                stats.inc("probe:withdrawn")
                return "ok"
        res = w.apply(op)
        stats.inc("probe:repeated" if res == "ok" else "probe:repeat-refused")
        return res

    for op in plan["ops"]:
        if op[0] == "cut":
            if cut(*op[1:]) == "skip":
                stats.inc("skipped-op")
            else:
                check()
        elif op[0] == "update_x":
            continue
        elif op[0] in OPS:
            if not w.valid(op):
                stats.inc("skipped-op")
                continue
            if w.must_update and (op[0] in VALIDATING or not w.simulated):
                w.apply(["update"])
            t = history.LineTracer(nx=False)
            with t:
                w.apply(op)
            lines[op[0]] = max(10, t.n)
            check()
        else:
            res = w.apply(op)
            if res == "skip":
                stats.inc("skipped-op")
            elif op[0] == "update":
                check_update()
            else:
                check()


shrink = hist_prop.shrink
