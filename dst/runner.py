"""Search driver: shards seeds over worker processes, minimises failures, writes replay files and evidence."""
import collections
import hashlib
import importlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("DST_WORKERS", "0")) or min(8, os.cpu_count() or 1)


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig = sig


class Out:
    """What one run reports."""

    def __init__(self):
        self.violations = []      # (signature, message)
        self.faults = collections.Counter()
        self.sim_time = 0.0
        self.digests = []
        self.steps = 0
        self.switches = 0
        self.edges = set()
        self.nontrivial = False
        self.notes = []
        self.counts = collections.Counter()
        self.events = []
        self.sims = 0
        self.fires = []

    def bad(self, sig, msg):
        self.violations.append((sig, msg))

    def take(self, sim):
        self.sims += 1
        self.faults.update(sim.fault_counts)
        if sim.fs is not None:
            self.faults.update({("fs-" + k if not k.startswith("fs-") else k): v for k, v in sim.fs.counts.items()
                                if ("fs-" + k) not in sim.fault_counts})
        self.sim_time += sim.now
        self.digests.append(sim.digest)
        self.steps += sim.steps
        self.switches += sim.switches
        self.edges |= {hash_edge(e) for e in sim.edges}
        if len(self.events) < 600:
            self.events.extend(sim.events[:600])


def hash_edge(e):
    return hashlib.md5(repr(e).encode()).hexdigest()[:10]


def load_check(name):
    from . import registry
    return registry.get(name)


def seed_of(base, prop, i):
    return int.from_bytes(hashlib.sha256(f"{base}:{prop}:{i}".encode()).digest()[:7], "big")


def repo_frame(tb):
    from . import core
    hit = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(core.REPO + os.sep):
            hit = f"{os.path.relpath(f.filename, core.REPO)}:{f.name}"
    return hit


def check_frame(tb):
    hit = None
    for f in traceback.extract_tb(tb):
        if f.filename.startswith(os.path.join(HERE, "checks") + os.sep):
            hit = f"{os.path.relpath(f.filename, HERE)}:{f.name}"
    return hit


def run_once(check, case, seed=None, trace=None):
    """One simulated execution, fully determined by (case, seed) or (case, trace)."""
    from .choose import Chooser
    from . import core, kernel
    ch = Chooser(seed=seed, trace=trace)
    out = Out()
    kernel.reset()
    random.seed(12345)
    import numpy as np
    np.random.seed(12345)
    core.RUNS[0] = 0
    scratch = tempfile.mkdtemp(prefix="run-", dir=os.environ["DST_SCRATCH"])
    os.rename(scratch, os.path.join(os.environ["DST_SCRATCH"], f"w{os.getpid():010d}"))
    scratch = os.path.join(os.environ["DST_SCRATCH"], f"w{os.getpid():010d}")
    try:
        check.run(case, ch, out, scratch)
    except Violation as v:
        out.bad(v.sig, str(v))
    except core.SimHang as h:
        out.bad("hang", f"no progress: {h.report}")
    except (Exception, core.SimKilled) as ex:
        where = repo_frame(ex.__traceback__)
        if where is None:
            where = check_frame(ex.__traceback__)       # a result no oracle could read
            if where is None or isinstance(ex, (MemoryError, OSError)):
                raise
        out.bad(f"unexpected:{type(ex).__name__}:{where}",
                f"unexpected {type(ex).__name__} from {where}: {ex}")
    finally:
        core._ACTIVE = None
        shutil.rmtree(scratch, ignore_errors=True)
    return out, ch


def digest(out, ch):
    return hashlib.sha256(repr((out.digests, ch.crc, [s for s, _ in out.violations])).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ worker
def worker(argv):
    name, prop, tier, base, shard, nshard, total, deadline, path = argv
    shard, nshard, total, deadline = int(shard), int(nshard), int(total), float(deadline)
    check = load_check(name)
    t0 = time.time()
    res = collections.Counter()
    faults = collections.Counter()
    counts = collections.Counter()
    digests, edges, trivial = set(), set(), 0
    samples = []
    viol = []
    sim_time = 0.0
    err = None
    known = check.known_signatures()
    for i in range(shard, total, nshard):
        if time.time() - t0 > deadline:
            res["stopped_early"] = 1
            break
        seed = seed_of(base, prop, i)
        case = check.gen(random.Random(seed), tier, i)
        try:
            out, ch = run_once(check, case, seed=seed)
        except BaseException:
            err = f"seed index {i} case {json.dumps(case)[:2000]}\n" + traceback.format_exc()
            break
        res["runs"] += 1
        res["sims"] += out.sims
        res["steps"] += out.steps
        res["switches"] += out.switches
        sim_time += out.sim_time
        faults.update(out.faults)
        counts.update(out.counts)
        edges |= out.edges
        d = digest(out, ch)
        if out.nontrivial or out.switches or sum(out.faults.values()):
            digests.add((d, json.dumps(case, sort_keys=True)[:4000].__hash__()))
        else:
            trivial += 1
        if len(samples) < 2 and i < 16:
            samples.append({"index": i, "case": case, "faults": dict(out.faults), "notes": out.notes[:6],
                            "sim_seconds": round(out.sim_time, 4), "switches": out.switches,
                            "decisions": len(ch.trace)})
        mine = [(s, m) for s, m in out.violations if check.mine(s)]
        for s, m in out.violations:
            if not check.mine(s):
                counts["other-property-observation:" + s.split(":")[0]] += 1
        new = [(s, m) for s, m in mine if not check.is_known(s, known)]
        for s, m in mine:
            if check.is_known(s, known):
                res["known:" + check.is_known(s, known)] += 1
        if new:
            viol.append({"index": i, "seed": seed, "case": case, "sig": new[0][0], "msg": new[0][1],
                         "trace": ch.trace, "digest": d})
            if len(viol) >= 3:
                break
    with open(path, "w") as f:
        json.dump({"res": res, "faults": faults, "counts": counts, "digests": [repr(x) for x in digests],
                   "edges": sorted(edges), "trivial": trivial, "samples": samples, "viol": viol,
                   "sim_time": sim_time, "err": err}, f)


# ------------------------------------------------------------------ minimise / replay
def same(check, case, trace, sig):
    try:
        out, ch = run_once(check, case, trace=trace)
    except BaseException:
        return None
    for s, m in out.violations:
        if s == sig:
            return out, ch, m
    return None


def minimise(argv):
    name, src, dst, budget = argv
    check = load_check(name)
    v = json.load(open(src))
    t_end = time.time() + float(budget)
    case, trace, sig = v["case"], v["trace"], v["sig"]
    tries = 0

    def ok(c, t):
        nonlocal tries
        tries += 1
        return time.time() < t_end and same(check, c, t, sig) is not None
    if ok(case, trace):
        progress = True
        while progress and time.time() < t_end:
            progress = False
            for c in check.shrink(case):
                if ok(c, trace):
                    case, progress = c, True
                    break
                if ok(c, []):
                    case, trace, progress = c, [], True
                    break
            # shorten the tail
            lo, hi = 0, len(trace)
            while lo < hi and time.time() < t_end:
                mid = (lo + hi) // 2
                if ok(case, trace[:mid]):
                    hi = mid
                else:
                    lo = mid + 1
            if hi < len(trace) and ok(case, trace[:hi]):
                trace, progress = trace[:hi], True
            n = max(1, len(trace) // 2)
            while n >= 1 and time.time() < t_end:
                i = 0
                while i < len(trace) and time.time() < t_end:
                    if any(trace[i:i + n]):
                        t2 = trace[:i] + [0] * len(trace[i:i + n]) + trace[i + n:]
                        if ok(case, t2):
                            trace, progress = t2, True
                    i += n
                n //= 2
            while trace and trace[-1] == 0:
                trace = trace[:-1]
    r = same(check, case, trace, sig)
    if r is None:
        case, trace = v["case"], v["trace"]
        r = same(check, case, trace, sig)
    rep = {"property": v["property"], "check": name, "signature": sig, "message": r[2] if r else v["msg"],
           "seed": v["seed"], "verif_seed": v["base"], "index": v["index"], "case": case, "trace": trace,
           "digest": digest(r[0], r[1]) if r else None, "reproduced_in_minimiser": bool(r), "minimiser_runs": tries,
           "original_decisions": len(v["trace"]), "decisions": len(trace),
           "events": r[0].events[:400] if r else []}
    with open(dst, "w") as f:
        json.dump(rep, f, indent=1)


def replay(path, quiet=False):
    rep = json.load(open(path))
    check = load_check(rep["check"])
    out, ch = run_once(check, rep["case"], trace=rep["trace"])
    hit = [(s, m) for s, m in out.violations if s == rep["signature"]]
    d = digest(out, ch)
    return {"hit": bool(hit), "digest": d, "same_digest": d == rep["digest"],
            "message": hit[0][1] if hit else None, "violations": out.violations}


# ------------------------------------------------------------------ main
def env(scratch):
    e = dict(os.environ)
    e.update({"OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "DST_SCRATCH": scratch,
              "PYTHONDONTWRITEBYTECODE": "1", "TQDM_DISABLE": ""})
    e.setdefault("PYTHONHASHSEED", "0")
    if e["PYTHONHASHSEED"] == "random":
        e["PYTHONHASHSEED"] = "0"
    return e


def main(prop, tier=None):
    """The quick/thorough command of one property."""
    from . import registry
    name = registry.CHECKS[prop]
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    base = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = registry.load(prop)
    total = spec["runs"][tier]
    total = int(os.environ.get("DST_RUNS", total))
    limit = 480 if tier == "quick" else 3 * 3600
    limit = float(os.environ.get("DST_LIMIT", limit))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    shm = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="dst-", dir=shm)
    e = env(scratch)
    py = sys.executable
    cli = os.path.join(HERE, "run.py")
    code = 0
    try:
        n = max(1, min(WORKERS, total))
        procs = []
        for k in range(n):
            path = os.path.join(scratch, f"out{k}.json")
            log = open(os.path.join(scratch, f"err{k}.txt"), "w")
            procs.append((k, path, subprocess.Popen(
                [py, cli, "--worker", name, prop, tier, str(base), str(k), str(n), str(total), str(limit), path],
                env=e, stdout=log, stderr=log, cwd=HERE)))
        parts = []
        errors = []
        for k, path, p in procs:
            try:
                rc = p.wait(timeout=limit + 240)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = "timeout"
            if not os.path.exists(path):
                tail = open(os.path.join(scratch, f"err{k}.txt")).read()[-3000:]
                errors.append(f"worker {k} ended with {rc} and no result:\n{tail}")
                continue
            part = json.load(open(path))
            parts.append(part)
            if part["err"]:
                errors.append(part["err"])
        res, faults, counts = collections.Counter(), collections.Counter(), collections.Counter()
        digests, edges = set(), set()
        samples, viol, sim_time = [], [], 0.0
        for part in parts:
            res.update(part["res"])
            faults.update(part["faults"])
            counts.update(part["counts"])
            digests |= set(part["digests"])
            edges |= set(part["edges"])
            samples += part["samples"]
            viol += part["viol"]
            sim_time += part["sim_time"]
        viol.sort(key=lambda v: (len(v["trace"]), v["index"]))
        samples.sort(key=lambda s: s["index"])
        reported = []
        seen = set()
        for v in viol:
            if v["sig"] in seen or len(reported) >= 2:
                continue
            seen.add(v["sig"])
            v["property"], v["base"] = prop, base
            src = os.path.join(scratch, "v.json")
            json.dump(v, open(src, "w"))
            dst = os.path.join(rdir, f"{prop}-{v['seed']}.json")
            budget = os.environ.get("DST_MINIMISE", "40" if tier == "quick" else "120")
            subprocess.run([py, cli, "--minimise", name, src, dst, budget], env=e, cwd=HERE,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
            if not os.path.exists(dst):
                json.dump({"property": prop, "check": name, "signature": v["sig"], "message": v["msg"],
                           "seed": v["seed"], "case": v["case"], "trace": v["trace"], "digest": v["digest"]},
                          open(dst, "w"), indent=1)
            p = subprocess.run([py, cli, "--replay-json", dst], env=e, cwd=HERE, capture_output=True, text=True)
            try:
                rr = json.loads(p.stdout.strip().splitlines()[-1])
            except Exception:
                rr = {"hit": False, "same_digest": False}
            msg = json.load(open(dst))["message"]
            print(f"{prop}: {v['sig']}: {msg}")
            print(f"{prop}: replay in a fresh process: reproduced={rr['hit']} identical={rr['same_digest']}")
            print(f"VIOLATION property={prop} replay={dst}")
            reported.append(v["sig"])
            code = 1
        known_hit = {k[6:]: v for k, v in res.items() if k.startswith("known:")}
        for kf in registry.known_findings():
            if kf["property"] == prop and kf["status"] == "known":
                print(f"KNOWN-FINDING: property={prop} {kf['what']} (seen in {known_hit.get(kf['id'], 0)} runs)")
        wall = time.time() - t0
        ev = {
            "property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": base,
            "level": "exploration",
            "coverage": {
                "evaluations": int(res["runs"]),
                "distinct_nontrivial": len(digests),
                "rule": spec["rule"],
                "samples": samples[:3],
                "simulated_executions": int(res["sims"]),
                "runs_per_hour": round(res["runs"] / max(wall, 1e-9) * 3600),
                "seeds_per_hour": round(res["runs"] / max(wall, 1e-9) * 3600),
                "simulated_seconds": round(sim_time, 3),
                "scheduler_steps": int(res["steps"]),
                "context_switches": int(res["switches"]),
                "distinct_switch_edges": len(edges),
                "distinct_interleavings_measure": "distinct (schedule digest, case) pairs are distinct_nontrivial; "
                                                  "distinct_switch_edges counts distinct (leave point, task, resume "
                                                  "point) triples",
                "faults_injected": dict(sorted(faults.items())),
                "observations": dict(sorted(counts.items())),
                "stopped_early": bool(res["stopped_early"]),
                "components_real": spec["real"],
                "components_stub": spec["stub"],
                "known_findings_seen": known_hit,
                "worker_processes": n,
            },
            "assumptions": spec["assumptions"],
            "wall_s": round(wall, 2),
            "violations": len(reported),
        }
        with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        print(f"{prop}: {res['runs']} runs, {len(digests)} distinct non-trivial, {res['switches']} switches, "
              f"{sum(faults.values())} faults, {sim_time:.1f} simulated s, {wall:.1f} s wall")
        if errors and code == 0:
            print("HARNESS ERROR\n" + "\n".join(errors[:2]))
            code = 2
        if res["runs"] == 0 and code == 0:
            code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code
