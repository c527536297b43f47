"""Base class of the checks and small shared tools."""
import json
import os
import re

import numpy as np

from . import core

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

REAL = ["esat Python code of /repo (unmodified, current working tree)", "numpy/scipy/pandas",
        "pickle, logging, QueueHandler/QueueListener, text and buffered I/O layers"]
STUB = ["process pools, manager, queues, threads (simulated scheduler)", "clock", "CPU count and memory size"]
KSTUB = "native kernel esat_rust (Python stand-in with the same call protocol; not compilable offline)"


class Check:
    prop = None
    rule = ""
    runs = {"quick": 200, "thorough": 4000}
    real = REAL
    stub = STUB
    assumptions = []
    owns_unexpected = True

    def spec(self):
        return {"rule": self.rule, "runs": self.runs, "real": self.real, "stub": self.stub,
                "assumptions": self.assumptions}

    def mine(self, sig):
        m = re.match(r"(C\d\d):", sig)
        return m.group(1) == self.prop if m else self.owns_unexpected

    def known_signatures(self):
        path = os.path.join(HERE, "known_findings.json")
        if not os.path.exists(path):
            return []
        return [k for k in json.load(open(path)) if k["property"] == self.prop and k["status"] == "known"]

    def is_known(self, sig, known):
        for k in known:
            if sig == k["signature"]:
                return k["id"]
        return None

    def shrink(self, case):
        """Smaller variants of a case: defaults for each field that differs."""
        for k, v in self.simple.items():
            if k in case and case[k] != v:
                c = dict(case)
                c[k] = v
                yield c
        for k in self.shrink_ints:
            if k in case and isinstance(case[k], int) and case[k] > self.shrink_ints[k]:
                c = dict(case)
                c[k] = max(self.shrink_ints[k], case[k] // 2)
                yield c
                c = dict(case)
                c[k] -= 1
                yield c

    simple = {}
    shrink_ints = {}


def sim_params(r, p_line=True, jumps=False, slow=True):
    """Scheduler settings of one run."""
    return {
        "p_switch": r.choice([0.0, 0.1, 0.3, 0.6, 0.9]),
        "p_stall": r.choice([0.0, 0.0, 0.02, 0.1]),
        "p_line": r.choice([0.0, 0.3, 0.8]) if p_line else 0.0,
        "line_mean": r.choice([3, 20, 100]),
        "slow": r.choice([0.0, 0.3, 0.8]) if slow else 0.0,
        "cpu_count": r.choice([1, 2, 3, 4, 8, 16]),
        "mem_gb": r.choice([0.01, 0.5, 8.0, 64.0]),
        "p_jump": r.choice([0.0, 0.2, 0.6]) if jumps else 0.0,
        "jumps": [3600.0, -3600.0, 86400.0 * 3, -86400.0 * 3, 30.0, -0.5] if jumps else [],
    }


SIMPLE_SIM = {"p_stall": 0.0, "p_line": 0.0, "slow": 0.0, "p_jump": 0.0}


def make_sim(ch, sp, **kw):
    d = dict(sp)
    d.update(kw)
    return core.Sim(ch, **d)


def data(seed, m, n, neg=False, zeros=False, scale=5.0):
    """A small dataset built from a hidden factor model, with its uncertainty."""
    rng = np.random.default_rng(seed)
    k = max(2, min(3, n - 1))
    W = rng.gamma(2.0, 1.0, (m, k))
    H = rng.gamma(1.0, 1.0, (k, n)) + 0.05
    V = W @ H * (scale / 5.0) * rng.lognormal(0, 0.1, (m, n)) + 0.01
    if neg:
        V[rng.random((m, n)) < 0.05] *= -0.02
    if zeros:
        V[rng.random((m, n)) < 0.05] = 0.0
    U = np.abs(V) * rng.uniform(0.05, 0.3, (m, n)) + 0.05
    return V, U


def q_true(V, U, W, H):
    V, U, W, H = (np.asarray(a, dtype=np.float64) for a in (V, U, W, H))
    return float(np.sum(((V - W @ H) / U) ** 2))


def q_robust(V, U, W, H, alpha=4.0):
    V, U, W, H = (np.asarray(a, dtype=np.float64) for a in (V, U, W, H))
    r = (V - W @ H)
    s = np.abs(r / U)
    Ur = np.where(s > alpha, np.sqrt(s / alpha) * U, U)
    return float(np.sum((r / Ur) ** 2))


def close(a, b, rel=1e-3, abs_=1e-4):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    if a.shape != b.shape:
        return False
    with np.errstate(all="ignore"):
        ok = (np.abs(a - b) <= abs_ + rel * np.maximum(np.abs(a), np.abs(b))) | (np.isnan(a) & np.isnan(b)) | (a == b)
    return bool(np.all(ok))


def eq(a, b):
    """Exact equality (NaN equals NaN) of arrays, scalars, strings, containers."""
    if a is None or b is None:
        return a is b
    if isinstance(a, dict) and isinstance(b, dict):
        return list(map(str, sorted(a, key=str))) == list(map(str, sorted(b, key=str))) and \
            all(eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(eq(x, y) for x, y in zip(a, b))
    if hasattr(a, "to_numpy") and hasattr(b, "to_numpy"):
        return list(a.shape) == list(b.shape) and eq(a.to_numpy().tolist(), b.to_numpy().tolist()) and \
            (not hasattr(a, "columns") or list(map(str, a.columns)) == list(map(str, b.columns)))
    if isinstance(a, (np.ndarray, np.generic)) or isinstance(b, (np.ndarray, np.generic)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype == object or b.dtype == object:
            return all(eq(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        if a.dtype.kind in "fc":
            return bool(np.array_equal(a, b, equal_nan=True))
        return bool(np.array_equal(a, b))
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False
