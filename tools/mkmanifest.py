#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C25": "pure functions of their input: no schedule, clock, I/O, randomness or second party for a simulator to "
           "control (the native kernels cannot even be built offline); loss and monotonicity consequences are "
           "checked as invariants of simulated runs in C02 and C17",
    "C26": "plots are pure functions of finished objects, with no concurrency, time, I/O or fault to simulate",
}
TODO = "check not built yet"
BUILT = json.load(open(os.path.join(HERE, "tools", "built.json")))
NOTE = json.load(open(os.path.join(HERE, "tools", "notes.json"))) if os.path.exists(os.path.join(HERE, "tools", "notes.json")) else {}
D = ("seeded search over schedules and faults, no exhaustiveness; trusts the simulator's model of pools, queues, clock "
     "and disk, and the Python stand-in for the native kernel")
checks, na = [], []
for ln in open(os.path.join(HERE, "properties.jsonl")):
    i = json.loads(ln)["id"]
    if i in BUILT:
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i} --tier quick",
                       "thorough_cmd": f"python3 run.py {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection (seeded search over schedules and faults)",
                       "level": "exploration", "level_note": NOTE.get(i, D)})
    else:
        na.append({"property": i, "reason": NA.get(i, TODO)})
json.dump({"version": 1, "setup_cmd": "python3 run.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every nondeterministic service is reached through the standard library, which "
                    "run.py replaces before esat is imported. See DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
