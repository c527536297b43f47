#!/usr/bin/env python3
"""Rewrites the fixed entries of known_findings.json from the table below (commit found by its subject in /repo)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = [l.split("|") for l in open(os.path.join(HERE, "tools", "fixed.txt")).read().splitlines() if l.strip()]
log = dict(reversed(l.split(" ", 1)) for l in subprocess.check_output(
    ["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines())
p = os.path.join(HERE, "known_findings.json")
cur = [e for e in json.load(open(p)) if e["status"] != "fixed"]
for prop, subj, what in T:
    h = next(v for k, v in log.items() if k.startswith("fix: " + subj.strip().removeprefix("fix: ")))
    cur.append({"status": "fixed", "property": prop, "commit": h,
                "entry": f"fixed: property={prop} {h} {what.strip()}"})
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(e) for e in cur) + "\n]\n")
subj = ["fix: " + s.strip().removeprefix("fix: ") for _, s, _ in T]
for s in log:
    if s.startswith("fix:") and not any(s.startswith(x) for x in subj):
        print("not listed:", s)
