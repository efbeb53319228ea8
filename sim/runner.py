"""Runs, workers, minimisation, replay files, evidence.

One run = one plan (JSON) drawn from rng(VERIF_SEED, property, run number); executing a plan is
a pure function of the plan and of PYTHONHASHSEED, which is itself derived from the seed and
recorded in the replay file."""

import hashlib
import importlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from .core import Counters, HarnessError, Log, SimAbort, Violation, jdump, rng

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WATCHDOG_S = 40
BUDGET_LINES = 25_000_000
CHUNKS = 24


class Stats(Counters):
    """Counters of one worker, plus the set of distinct states seen."""

    def __init__(self):
        super().__init__()
        self.states = set()
        self.schedules = set()
        self.sim_s = 0.0
        self.state_extra = None

    def state(self, obj):
        h = hashlib.blake2b(repr(obj).encode("utf-8", "replace"), digest_size=8).hexdigest()
        self.states.add(h)

    def schedule(self, obj):
        h = hashlib.blake2b(repr(obj).encode("utf-8", "replace"), digest_size=8).hexdigest()
        self.schedules.add(h)


class WatchdogFired(BaseException):
    pass


def load(prop):
    return importlib.import_module("props." + prop.lower())


def hashseed(seed, prop, chunk):
    return rng("hashseed", seed, prop, chunk).randrange(1, 2 ** 32 - 1)


def chunks_of(runs):
    k = min(CHUNKS, max(1, runs))
    return [(c, c * runs // k, (c + 1) * runs // k) for c in range(k)]


def make_plan(mod, prop, seed, i, tier):
    r = rng(seed, prop, i)
    plan = mod.gen(r, i, tier)
    plan.setdefault("salt", "{}:{}:{}".format(seed, prop, i))
    plan.setdefault("clock", r.choice(["steady", "frozen", "jumpy"]))
    # what is executed is what a replay file would hold
    return json.loads(json.dumps(plan))


def sut_frame(tb, env):
    """Innermost-first: did the exception come from code under test (or what it called)?"""
    frames = traceback.extract_tb(tb)
    for f in reversed(frames):
        name = os.path.realpath(f.filename)
        if name.startswith(env.PKG):
            return "{}:{}".format(os.path.basename(name), f.name)
        if name.startswith(VERIF + os.sep):
            if os.path.basename(name) in ("env.py", "threads.py"):
                continue        # the seams run underneath the code under test
            return None
    return None


# modules that read what the code under test hands out
READERS = {"world.py", "reports.py", "audit.py", "queries.py", "webmap.py", "twin.py", "corrupt.py", "bad.py"}


def misread(e):
    """The model (not the harness) handed out something that is not of the documented kind."""
    if not isinstance(e, (AttributeError, TypeError, KeyError, IndexError, ValueError, ZeroDivisionError)):
        return None
    last = traceback.extract_tb(e.__traceback__)[-1]
    where = os.path.basename(last.filename)
    if where not in READERS and os.path.basename(os.path.dirname(last.filename)) != "props":
        return None
    return Violation("malformed:{}".format(type(e).__name__), "what the model shows cannot be read in {}:{}: {}".format(
        where, last.name, str(e)[:300]))


def run_plan(mod, plan, stats, budget=None):
    """Execute one plan.  Returns (log, violation or None).  HarnessError propagates."""
    from . import env
    log = Log()
    env.begin_run(plan)
    try:
        if budget is not None:
            with env.LineTracer(budget=budget, nx=True):
                mod.execute(plan, log, stats)
        else:
            mod.execute(plan, log, stats)
        v = None
    except Violation as e:
        v = e
    except env.LineBudgetExceeded:
        v = Violation("no-progress", "not finished after {} executed lines".format(BUDGET_LINES))
    except (WatchdogFired, HarnessError, SimAbort):
        raise
    except RecursionError as e:
        where = sut_frame(e.__traceback__, env)
        if where is None:
            raise HarnessError("RecursionError in the harness") from e
        v = Violation("exception:RecursionError", "in {}".format(where))
    except Exception as e:
        where = sut_frame(e.__traceback__, env)
        if where is None:
            v = misread(e)
            if v is None:
                raise HarnessError(traceback.format_exc()) from e
        else:
            v = Violation("exception:{}".format(type(e).__name__), "unexpected {} from {}: {}".format(
                type(e).__name__, where, str(e)[:300]))
    finally:
        env.VFS.uninstall(force=True)
        env.VFS.clear()
        stats.sim_s += env.CLOCK.covered
        stats.inc("clock-reads", env.CLOCK.reads)
        if env.CLOCK.jumps_back:
            stats.inc("fault:clock-stepped-back", env.CLOCK.jumps_back)
    if v is not None:
        log.add("violation", v.cls, v.msg)
    return log, v


def _alarm(signum, frame):
    raise WatchdogFired()


def guarded(mod, plan, stats):
    """run_plan under a wall-clock watchdog; a run that trips it is decided by a
    deterministic line budget instead."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(WATCHDOG_S)
    try:
        return run_plan(mod, plan, stats)
    except WatchdogFired:
        pass
    finally:
        signal.alarm(0)
    stats.inc("watchdog-rerun")
    return run_plan(mod, plan, Stats(), budget=BUDGET_LINES)


# ------------------------------------------------------------------ worker process
def worker(argv):
    """prop tier seed start end out"""
    prop, tier, seed, start, end, out = argv
    seed, start, end = int(seed), int(start), int(end)
    mod = load(prop)
    stats = Stats()
    res = {"violations": [], "error": None, "runs": 0, "digests": [], "samples": []}
    t0 = time.time()
    chain = hashlib.sha256()
    try:
        for i in range(start, end):
            plan = make_plan(mod, prop, seed, i, tier)
            log, v = guarded(mod, plan, stats)
            res["runs"] += 1
            d = log.digest()
            chain.update(d.encode())
            if os.environ.get("SIM_DIGESTS"):
                res["digests"].append(d)
            if i == start or (start == 0 and i < 2):
                res["samples"].append({"run": i, "plan": plan, "events": len(log.events), "digest": d})
            if v is not None:
                res["violations"].append({"run": i, "cls": v.cls, "msg": v.msg, "plan": plan})
                break
    except HarnessError as e:
        res["error"] = "run {}: {}".format(res["runs"] + start, e)
    except Exception:
        res["error"] = "run {}: {}".format(res["runs"] + start, traceback.format_exc())
    res["wall"] = time.time() - t0
    res["chain"] = chain.hexdigest()[:24]
    res["stats"] = dict(stats)
    res["states"] = sorted(stats.states)
    res["schedules"] = sorted(stats.schedules)
    res["sim_s"] = stats.sim_s
    with open(out, "w") as f:
        json.dump(res, f)
    os._exit(0)


def replay_worker(path):
    """Execute a replay file once, in this process; report on stdout."""
    with open(path) as f:
        rep = json.load(f)
    out = _replay(rep)
    sys.stdout.write(json.dumps(out) + "\n")
    sys.stdout.flush()
    os._exit(0)


def _replay(rep):
    mod = load(rep["property"])
    try:
        for i in rep.get("prefix", []):
            guarded(mod, make_plan(mod, rep["property"], rep["seed"], i, rep["tier"]), Stats())
        log, v = guarded(mod, rep["plan"], Stats())
    except HarnessError as e:
        return {"error": str(e)}
    return {"cls": v.cls if v else None, "msg": v.msg if v else None, "digest": log.digest(),
            "events": [repr(e)[:300] for e in log.events]}


def env_for(hs):
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = str(hs)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = VERIF
    return e


def fresh(args, hs, timeout):
    return subprocess.run([sys.executable, "-m", "sim.cli"] + args, env=env_for(hs), cwd=VERIF,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)


def replay_fresh(rep, timeout=300):
    """Run a replay dict in a fresh interpreter."""
    fd, path = tempfile.mkstemp(suffix=".json")
    try:
        with os.fdopen(fd, "w") as f:
            json.dump(rep, f)
        try:
            p = fresh(["replay-worker", path], rep["hashseed"], timeout)
        except subprocess.TimeoutExpired:
            return {"error": "timeout"}
        try:
            return json.loads(p.stdout.decode().strip().splitlines()[-1])
        except Exception:
            return {"error": p.stderr.decode()[-2000:]}
    finally:
        os.unlink(path)


# ------------------------------------------------------------------ minimisation
def minimise_worker(path, out, seconds):
    """Shrink the plan in `path` (same process, same hash seed)."""
    with open(path) as f:
        rep = json.load(f)
    mod = load(rep["property"])
    shrink = getattr(mod, "shrink", None)
    end = time.time() + float(seconds)
    best = rep["plan"]
    tried = 0

    def fails(plan):
        try:
            _, v = guarded(mod, json.loads(json.dumps(plan)), Stats())
        except HarnessError:
            return False
        return v is not None and v.cls == rep["cls"]

    progress = shrink is not None
    while progress and time.time() < end:
        progress = False
        for cand in shrink(best):
            if time.time() >= end:
                break
            tried += 1
            if fails(cand):
                best = cand
                progress = True
                break
    with open(out, "w") as f:
        json.dump({"plan": best, "tried": tried}, f)
    os._exit(0)


def report(prop, seed, tier, viol, hs, start):
    """Confirm in a fresh process, minimise, write the replay file.  Returns (path, msg)."""
    base = {"property": prop, "seed": seed, "tier": tier, "run": viol["run"], "hashseed": hs,
            "cls": viol["cls"], "msg": viol["msg"], "plan": viol["plan"], "prefix": []}
    got = replay_fresh(base)
    note = ""
    if got.get("cls") != viol["cls"]:
        # the failure needs what earlier runs left behind in the process
        n, i = 1, viol["run"]
        while True:
            lo = max(start, i - n)
            cand = dict(base, prefix=list(range(lo, i)))
            got = replay_fresh(cand, 600)
            if got.get("cls") == viol["cls"]:
                base = cand
                note = "needs the state left by the runs before it"
                break
            if lo == start:
                note = "NOT REPRODUCED: " + str(got)[:500]
                break
            n *= 4
        if base["prefix"]:
            keep = list(base["prefix"])
            for x in list(keep)[:24]:
                cand = dict(base, prefix=[y for y in keep if y != x])
                if replay_fresh(cand, 600).get("cls") == viol["cls"]:
                    keep.remove(x)
                    base = cand
    else:
        fd, path = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        fd, out = tempfile.mkstemp(suffix=".json")
        os.close(fd)
        try:
            with open(path, "w") as f:
                json.dump(base, f)
            try:
                fresh(["minimise-worker", path, out, "60"], hs, 240)
                with open(out) as f:
                    small = json.load(f)
                cand = dict(base, plan=small["plan"])
                got2 = replay_fresh(cand)
                if got2.get("cls") == viol["cls"]:
                    base, got = cand, got2
                    base["original_plan"] = viol["plan"]
            except (subprocess.TimeoutExpired, ValueError):
                pass
        finally:
            os.unlink(path)
            os.unlink(out)
    base["msg"] = got.get("msg") or base["msg"]
    base["digest"] = got.get("digest")
    base["events"] = got.get("events")
    base["note"] = note
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    dest = os.path.join(VERIF, "replays", "{}-{}-{}.json".format(prop, seed, viol["run"]))
    with open(dest, "w") as f:
        json.dump(base, f, indent=1)
    return dest, base


# ------------------------------------------------------------------ the check
def known_lines(prop):
    """`finding:` lines of known_findings.txt for this property."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith("finding: property={} ".format(prop)):
                    out.append(line.strip())
    return out


def check(prop, tier, seed, runs=None, workers=None, seconds=None):
    t0 = time.time()
    mod = load(prop)
    runs = runs or (mod.RUNS if tier == "quick" else mod.RUNS * getattr(mod, "THOROUGH", 12))
    workers = workers or int(os.environ.get("SIM_WORKERS", os.cpu_count() or 1))
    print("check {} tier={} seed={} runs={} ({})".format(prop, tier, seed, runs, mod.TITLE), flush=True)
    tmp = tempfile.mkdtemp(prefix="simcheck")
    todo = chunks_of(runs)
    running, done, errors = {}, {}, []
    limit = 840 if tier == "quick" else 24 * 3600
    try:
        while todo or running:
            while todo and len(running) < workers:
                c, a, b = todo.pop(0)
                hs = hashseed(seed, prop, c)
                out = os.path.join(tmp, "c{}.json".format(c))
                err = open(os.path.join(tmp, "c{}.err".format(c)), "wb")
                p = subprocess.Popen(
                    [sys.executable, "-m", "sim.cli", "worker", prop, tier, str(seed), str(a), str(b), out],
                    env=env_for(hs), cwd=VERIF, stdout=subprocess.DEVNULL, stderr=err)
                running[c] = (p, out, err, hs, a)
            time.sleep(0.02)
            for c in list(running):
                p, out, err, hs, a = running[c]
                if p.poll() is None:
                    continue
                err.close()
                del running[c]
                try:
                    with open(out) as f:
                        done[c] = dict(json.load(f), hashseed=hs, start=a)
                except Exception:
                    with open(err.name, "rb") as f:
                        errors.append("worker {} died ({}): {}".format(
                            c, p.returncode, f.read().decode("utf-8", "replace")[-1500:]))
                if c in done and done[c]["error"]:
                    errors.append(done[c]["error"])
            if time.time() - t0 > limit:
                errors.append("time limit of {} s".format(limit))
                todo = []
                for p, *_ in running.values():
                    p.kill()
                break
    finally:
        for p, *_ in running.values():
            p.kill()
        for name in os.listdir(tmp):
            os.unlink(os.path.join(tmp, name))
        os.rmdir(tmp)

    total = Counters()
    states, scheds, sim_s, n = set(), set(), 0.0, 0
    viols, samples, chain = [], [], hashlib.sha256()
    digests = []
    for c in sorted(done):
        d = done[c]
        total.merge(d["stats"])
        states.update(d["states"])
        scheds.update(d["schedules"])
        sim_s += d["sim_s"]
        n += d["runs"]
        chain.update(d["chain"].encode())
        digests += d["digests"]
        samples += d["samples"]
        for v in d["violations"]:
            viols.append((v["run"], v, d["hashseed"], d["start"]))
    viols.sort(key=lambda x: x[0])
    wall = time.time() - t0
    print("runs={} wall={:.1f}s event-log={} distinct-states={} schedules={}".format(
        n, wall, chain.hexdigest()[:16], len(states), len(scheds)), flush=True)
    starved = []
    if not viols and not errors and runs >= mod.RUNS:
        starved = [k for k in getattr(mod, "NEED", []) if not total.get(k)]
    code = 0
    if viols:
        _, v, hs, start = viols[0]
        path, rep = report(prop, seed, tier, v, hs, start)
        print("  {}: {}".format(rep["cls"], rep["msg"]))
        if rep["note"]:
            print("  note: " + rep["note"])
        print("  reproduce: python /verif/check.py --replay {}".format(path))
        print("VIOLATION property={} replay={}".format(prop, path), flush=True)
        code = 1
    elif errors:
        for e in errors[:3]:
            print("HARNESS ERROR: " + e, file=sys.stderr)
        code = 2
    elif starved:
        # a rare condition the check relies on was never reached
        print("HARNESS ERROR: probes at zero: {}".format(starved), file=sys.stderr)
        code = 2
    else:
        for line in known_lines(prop):
            probe = getattr(mod, "known_finding", None)
            if probe is not None and probe(line):
                print("KNOWN-FINDING: " + line[len("finding: "):], flush=True)
    write_evidence(mod, prop, tier, seed, n, wall, total, states, scheds, sim_s, samples,
                   chain.hexdigest()[:16], len(viols), workers)
    if os.environ.get("SIM_DIGESTS"):
        with open(os.environ["SIM_DIGESTS"], "w") as f:
            f.write("\n".join(digests))
    return code


def write_evidence(mod, prop, tier, seed, n, wall, total, states, scheds, sim_s, samples, chain, viols,
                   workers):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    faults = {k[6:]: v for k, v in sorted(total.items()) if k.startswith("fault:")}
    netfaults = {k[3:]: v for k, v in sorted(total.items())
                 if k in ("op:fail_int", "op:fail_node", "op:fail_srlg", "op:unfail_int", "op:unfail_node",
                          "op:unfail_srlg")}
    probes = {k: v for k, v in sorted(total.items()) if k.startswith(("probe:", "audited:", "skipped"))}
    ops = {k[3:]: v for k, v in sorted(total.items()) if k.startswith("op:")}
    rest = {k: v for k, v in sorted(total.items())
            if not k.startswith(("fault:", "probe:", "audited:", "op:", "skipped"))}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "wall_s": round(wall, 2),
        "violations": viols,
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len(scheds) if getattr(mod, "COUNT", "states") == "schedules" else len(states),
            "rule": mod.RULE,
            "samples": samples[:3],
            "runs_per_hour": int(n / wall * 3600) if wall else 0,
            "seeds": "VERIF_SEED={}, run numbers 0..{}; one derived seed per run".format(seed, n - 1),
            "simulated_time_s": round(sim_s, 1),
            "faults_fired": faults,
            "network_faults_applied": netfaults,
            "operations": ops,
            "probes": probes,
            "other_counters": rest,
            "distinct_states": len(states),
            "distinct_schedules": len(scheds),
            "event_log_digest": chain,
            "workers": workers,
            "components": {
                "real": mod.REAL if hasattr(mod, "REAL") else REAL,
                "simulated": mod.STUB if hasattr(mod, "STUB") else STUB,
            },
        },
        "assumptions": getattr(mod, "ASSUME", []) + ASSUME,
    }
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")


REAL = ["all of pyNTM from /repo's working tree", "networkx"]
STUB = ["wall clock (SimClock)", "stdout (SimStdout)", "set/dict iteration order (PYTHONHASHSEED per worker "
        "and seeded identity hashes)", "the random module's generator (seeded)"]
ASSUME = ["sampling: a clean batch is evidence within the generated sizes, not a proof",
          "the reference model in /verif/sim/ref.py states the intended routing rules"]


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    got = replay_fresh(rep, 900)
    if got.get("error"):
        print("HARNESS ERROR: " + got["error"], file=sys.stderr)
        return 2
    for e in got["events"]:
        print("  " + e)
    if got["cls"] is None:
        print("replay of {}: the property holds".format(path))
        return 0
    same = got["digest"] == rep.get("digest")
    print("{}: {}".format(got["cls"], got["msg"]))
    print("event log {} the recorded one".format("equals" if same else "differs from"))
    print("VIOLATION property={} replay={}".format(rep["property"], path))
    return 1


# ------------------------------------------------------------------ shrinking helpers
def drop_each(items, keep=lambda x: False):
    """Candidates with a slice or an element removed, larger removals first."""
    n = len(items)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            piece = items[i:i + size]
            if any(keep(x) for x in piece):
                continue
            cand = items[:i] + items[i + size:]
            if len(cand) < n:
                yield cand
        size //= 2


def shrink_spec(spec):
    for key in ("demands", "lsps"):
        for cand in drop_each(spec[key]):
            yield dict(spec, **{key: cand})
    for cand in drop_each(spec["links"]):
        s = dict(spec, links=cand)
        s.pop("row_order", None)
        yield s
    used = {ln[k] for ln in spec["links"] for k in "ab"}
    used |= {d[k] for x in ("demands", "lsps") for d in spec[x] for k in "sd"}
    for n in spec["nodes"]:
        if n["name"] not in used:
            yield dict(spec, nodes=[x for x in spec["nodes"] if x is not n])
    if "row_order" in spec:
        s = dict(spec)
        s.pop("row_order")
        yield s
    if spec.get("build") not in (None, "ctor"):
        yield dict(spec, build="ctor")
    for j, n in enumerate(spec["nodes"]):
        if n.get("sc"):
            yield dict(spec, nodes=[dict(x, sc=False) if i == j else x for i, x in enumerate(spec["nodes"])])
    for j, ln in enumerate(spec["links"]):
        for k, dflt in (("ra", True), ("rb", True), ("pa", 100), ("pb", 100)):
            if ln.get(k, dflt) != dflt:
                new = dict(ln)
                new.pop(k)
                yield dict(spec, links=[new if i == j else x for i, x in enumerate(spec["links"])])


def shrink_history(plan, ops_key="ops", spec_key="spec"):
    if plan.get("clock") != "steady":
        yield dict(plan, clock="steady")
    for cand in drop_each(plan[ops_key]):
        yield dict(plan, **{ops_key: cand})
    for s in shrink_spec(plan[spec_key]):
        yield dict(plan, **{spec_key: s})
    for j, op in enumerate(plan[ops_key]):
        if op[0] == "update_x":
            yield dict(plan, **{ops_key: plan[ops_key][:j] + [["update"]] + plan[ops_key][j + 1:]})
