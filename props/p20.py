from sim import audit, corrupt, env, gen as G, hist_prop, history
from sim.core import HarnessError, Violation
from sim.env import ModelException
from sim.world import World

TITLE = "detection of corrupted state"
LEVEL = "exploration"
RUNS = 15000
RULE = ("seeded random histories; at seeded points the model's data is corrupted in a way its consistency rules cover "
        "(13 kinds, some two at a time, also next to failed elements), then validations, simulations, additions and "
        "simulations cut short are tried in a seeded order: each has to raise; "
        "then the corruption is undone and validation, simulation and the full audits have to pass.  A case counts "
        "when at least one demand is routed; distinct = distinct state snapshot")
NEED = ["probe:corrupt:" + k for k in corrupt.KINDS] + [
    "probe:corrupt-while-failed", "probe:detected-by-validate", "probe:detected-by-update", "probe:refused-addition",
    "probe:corrupt-abort"]
ASSUME = ["reservation rules are checked on the numbers shown, with one decimal: a mismatch of less than 0.2 is not "
          "planted", "circuit ids identify circuits (two circuits with one id are not generated)"]


def gen(r, i, tier):
    kw = {"lsps": r.choice([True, "always"]), "nmin": 3}
    plan = hist_prop.plan(r, kw, hist_prop.scaled(), (2, 10 if tier == "quick" else 30))
    ops = []
    kinds = r.sample(corrupt.KINDS, r.randint(3, len(corrupt.KINDS)))
    for op in plan["ops"]:
        ops.append(op)
        while r.random() < 0.4:
            n = 2 if r.random() < 0.15 else 1
            tries = [r.choice(["validate", "update", "update", "add_demand", "add_lsp", "add_node", "abort",
                               "cost", "traffic"]) for _ in range(r.randint(0, 4))]
            ops.append(["corrupt", [[r.choice(kinds), r.randint(0, 10 ** 6)] for _ in range(n)],
                        tries, r.randint(0, 10 ** 6), G.aborted(r)[1]])
    plan["ops"] = ops
    return plan


def execute(plan, log, stats):
    w = World(plan["spec"], log, stats)

    aborted = []

    def check():
        snap = audit.snapshot(w)
        log.add("snap", snap.text)
        if any(snap.demands.values()):
            stats.state(snap.text)
        audit.config(w)
        audit.demand_paths(w.ref, snap, stats)
        audit.loads(w.ref, snap, stats)
        audit.conservation(w.ref, snap, stats)
        audit.reservations(w.ref, snap, stats)
        audit.failure_state(w.ref, snap, w.m)

    def must_raise(what, fn, why):
        try:
            with env.quiet_stdout():
                fn()
        except ModelException:
            return
        except Exception as e:
            # a simulation may trip over the corruption before it gets to validate, and a validation over
            # what an aborted simulation left
            if (what == "update_simulation" or aborted) and not isinstance(e, (Violation, HarnessError)):
                stats.inc("probe:tripped")
                return
            raise
        raise Violation("undetected:" + what, "{} was accepted although the model's data is corrupted: {}".format(
            what, why))

    def attempt(what, n, fault, why, heals):
        m, nodes = w.m, sorted(w.ref.nodes)
        if what == "validate":
            must_raise("validate_model", m.validate_model, why)
            stats.inc("probe:detected-by-validate")
        elif what == "update":
            must_raise("update_simulation", m.update_simulation, why)
            stats.inc("probe:detected-by-update")
        elif what == "abort":
            f = dict(fault, lines=w.update_lines)
            try:
                out = history.apply_interrupted(w, ["update"], f, log, stats)
            except (Violation, HarnessError):
                raise
            except Exception:
                out = "tripped"
            if out == "completed":
                raise Violation("undetected:update_simulation",
                                "update_simulation was accepted although the model's data is corrupted: {}".format(why))
            aborted.append(1)
            stats.inc("probe:corrupt-abort")
        elif what in ("add_demand", "add_lsp", "add_node"):
            copies = [set(x) for x in (m.demand_objects, m.rsvp_lsp_objects, m.node_objects)]
            a, b = nodes[n % len(nodes)], nodes[(n // 7) % len(nodes)]
            if a == b:
                return
            if what == "add_demand":
                must_raise(what, lambda: m.add_demand(a, b, 12, "corrupt"), why)
            elif what == "add_lsp":
                must_raise(what, lambda: m.add_rsvp_lsp(a, b, "corrupt"), why)
            else:
                must_raise(what, lambda: m.add_node(env.pyNTM.Node("corrupt")), why)
            # the model was invalid before; what the request itself added may stay, so take it away
            m.demand_objects, m.rsvp_lsp_objects, m.node_objects = copies
            stats.inc("probe:refused-addition")
        elif what == "cost" and not {"dup-name", "unpaired"} & set(why):
            lids = sorted(w.ref.links)
            w.apply(["cost", lids[n % len(lids)], "ab"[n % 2], 1 + n % 9])
        elif what == "traffic" and "dup-node" not in why and w.ref.demands:
            keys = sorted(w.ref.demands)
            w.apply(["traffic", list(keys[n % len(keys)]), 12 * (n % 11)])

    def one(op):
        _, picks, tries, n, fault = op
        if w.dirty:
            w.apply(["update"])
        made, names = [], []
        del aborted[:]
        for kind, k in picks:
            if kind == "half-failed" and len(picks) > 1:
                continue
            if made and (kind in corrupt.HEALED or names[0] in corrupt.HEALED):
                continue
            if kind in names:
                continue
            if made and not {kind, names[0]} <= {"capacity", "unpaired", "dup-node", "shortcut-node"}:
                continue
            got = corrupt.make(w, kind, k)
            if got is None:
                stats.inc("skipped-op")
                continue
            if kind == "half-failed":
                half_failed(got[0], kind, k)
                return
            made.append(got)
            names.append(kind)
            stats.inc("probe:corrupt:" + kind)
        if not made:
            return
        for go, _ in made:
            go()
        log.add("corrupt", names)
        if any(x["failed"] for x in w.ref.links.values()):
            stats.inc("probe:corrupt-while-failed")
        if names[0] in corrupt.HEALED:
            attempt("validate", n, fault, names, True)
            if n % 2:
                for j, what in enumerate(tries):
                    if what in ("validate", "add_demand", "add_lsp", "add_node"):
                        attempt(what, n + j, fault, names, True)
                made[0][1]()
                w.apply(["validate"])
            elif names[0] == "cap-low":
                made[0][1]()
            w.dirty = True
            w.apply(["update"])
        else:
            for j, what in enumerate(tries or ["update"]):
                attempt(what, n + 31 * j, fault, names, False)
            if n % 3 == 0:
                attempt("validate", n, fault, names, False)
            for _, undo in reversed(made):
                undo()
            w.dirty = w.must_update = True
            w.apply(["update"])
        w.apply(["validate"])
        check()

    def half_failed(go, kind, k):
        """Validation takes the other end down too."""
        iids = sorted(w.ref.iids())
        lid = iids[k % len(iids)][0]
        go()
        w.apply(["validate"])
        w.ref.links[lid]["failed"] = True
        stats.inc("probe:corrupt:" + kind)
        audit.config(w)
        w.dirty = True
        w.apply(["update"])
        check()

    for op in plan["ops"]:
        if op[0] == "corrupt":
            one(op)
        elif op[0] == "update_x":
            fault = dict(op[1], lines=w.update_lines)
            if history.apply_interrupted(w, ["update"], fault, log, stats) == "completed":
                w.dirty = w.must_update = False
                w.simulated = True
            else:
                w.dirty = w.must_update = True
        else:
            res = w.apply(op)
            if res == "skip":
                stats.inc("skipped-op")
            elif op[0] == "update":
                stats.inc("updates")
                check()


shrink = hist_prop.shrink
