#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--workers N]
   check.py --replay FILE"""

import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and sys.prefix != "/opt/venv" and not os.environ.get("SIM_PY"):
    os.environ["SIM_PY"] = "1"
    os.execv(VENV, [VENV] + sys.argv)

from sim import runner  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return runner.replay(a.replay)
    try:
        return runner.check(a.prop.upper(), a.tier, a.seed, a.runs, a.workers)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
