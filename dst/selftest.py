"""Determinism self-test: the same seeds, run in two processes with different hash seeds, in opposite order and beside
other load, must give bit-identical executions (decisions, schedules, faults, verdicts)."""
import json
import os
import random
import subprocess
import sys
import tempfile
import shutil

from . import runner


def digests(prop, n, back):
    from . import registry
    check = runner.load_check(registry.CHECKS[prop])
    got = {}
    idx = list(range(n))
    for i in (reversed(idx) if back else idx):
        seed = runner.seed_of("selftest", prop, i)
        case = check.gen(random.Random(seed), "quick", i)
        out, ch = runner.run_once(check, case, seed=seed)
        again, ch2 = runner.run_once(check, case, trace=ch.trace)
        got[i] = [runner.digest(out, ch), runner.digest(again, ch2)]
    return got


def main(argv):
    strict = "--strict" in argv
    n = int(os.environ.get("DST_RUNS", "12"))
    man = json.load(open(os.path.join(runner.HERE, "MANIFEST.json")))
    props = [c["property"] for c in man["checks"]]
    only = [a for a in argv if not a.startswith("-")]
    props = only or props
    shm = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="dst-", dir=shm)
    cli = os.path.join(runner.HERE, "run.py")
    bad = 0
    try:
        jobs = []
        for p in props:
            for back, hs in ((0, "0"), (1, "4242")):
                jobs.append((p, back, hs))
        done = {}
        running = []
        while jobs or running:
            while jobs and len(running) < runner.WORKERS:
                p, back, hs = jobs.pop(0)
                path = os.path.join(scratch, f"{p}-{back}.json")
                e = runner.env(scratch)
                e["PYTHONHASHSEED"] = hs
                running.append((p, back, path, subprocess.Popen(
                    [sys.executable, cli, "--digests", p, str(n), str(back), path], env=e, cwd=runner.HERE,
                    stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
            p, back, path, proc = running.pop(0)
            proc.wait()
            done[p, back] = json.load(open(path)) if os.path.exists(path) else None
        for p in props:
            a, b = done[p, 0], done[p, 1]
            if a is None or b is None:
                print(f"selftest {p}: could not run")
                bad += 1
            else:
                d = [i for i in a if a[i] != b[i] or a[i][0] != a[i][1]]
                print(f"selftest {p}: {len(a)} seeds" + (f", NOT REPRODUCIBLE: {d}" if d else ", identical executions"))
                bad += bool(d)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return 1 if bad and strict else 0
