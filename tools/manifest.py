#!/opt/venv/bin/python
"""Regenerates MANIFEST.json from the property list and the modules in props/."""

import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)

NOT_APPLICABLE = {
    "P22": "pure functions of one value: no concurrency, time, I/O, schedule, history or fault for the result to "
           "depend on, so there is nothing for a simulator to decide; exhaustive or property-based unit testing fits",
}
PENDING = "check not built yet"


def main():
    checks, missing = [], []
    with open(os.path.join(VERIF, "properties.jsonl")) as f:
        ids = [json.loads(line)["id"] for line in f if line.strip()]
    for pid in ids:
        if not os.path.exists(os.path.join(VERIF, "props", pid.lower() + ".py")):
            missing.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, PENDING)})
            continue
        mod = importlib.import_module("props." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "python3 check.py {}".format(pid),
            "thorough_cmd": "python3 check.py {} --tier thorough".format(pid),
            "technique": "deterministic simulation with fault injection: " + mod.TITLE,
            "level": mod.LEVEL,
            "level_note": "seeded search over simulated histories, schedules and fault points ({} runs quick, {} "
                          "thorough); a clean batch is evidence within the generated sizes, not a proof".format(
                              mod.RUNS, mod.RUNS * getattr(mod, "THOROUGH", 12)),
        })
    out = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": missing}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
