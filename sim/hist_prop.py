"""What the history-driven properties share: generation of worlds and plans, execution with
a list of audits, the state measure."""

from . import audit, gen, history, runner
from .core import Counters  # noqa: F401

ALL = {**gen.FAILOPS, **gen.NETOPS, **gen.LOADOPS}


def scaled(fail=1.0, net=1.0, load=1.0):
    out = {}
    for src, f in ((gen.FAILOPS, fail), (gen.NETOPS, net), (gen.LOADOPS, load)):
        for k, w in src.items():
            if f:
                out[k] = w * f
    return out


def plan(r, spec_kw=None, mix=None, length=(2, 14), abort_p=0.08, **hist_kw):
    spec = gen.make_spec(r, **(spec_kw or {}))
    ops = gen.history(r, spec, r.randint(*length), mix or ALL, abort_p=abort_p,
                      frac=bool((spec_kw or {}).get("frac")), **hist_kw)
    return {"spec": spec, "ops": ops}


def execute(plan, log, stats, audits, after_op=None):
    def run_audits(world, snap):
        if any(snap.demands.values()):
            stats.state(snap.text)
        for a in audits:
            a(world, snap)
    return history.run(plan, log, stats, [run_audits], after_op)


shrink = runner.shrink_history
