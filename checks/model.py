"""C17-C19: one model's training, its continuation after crashes, and many analyses side by side in one process."""
import copy
import os
import pickle
import threading

import numpy as np

from dst import core, fs as simfs, kernel, patches
from dst.check import Check, KSTUB, STUB, SIMPLE_SIM, close, data, eq, make_sim, q_robust, q_true, sim_params
from .store import fingerprint

RESULT = ("W", "H", "WH", "Qtrue", "Qrobust", "q_list", "converged", "converge_steps", "seed", "method", "factors",
          "model_i", "init_method")
MSGS = []


def note_progress(*a):
    MSGS.append(tuple(a))


def raise_progress(*a):
    MSGS.append(tuple(a))
    raise ValueError("injected: the user's callback fails")


def differ(a, b, fields=RESULT):
    for f in fields:
        if not eq(getattr(a, f), getattr(b, f)):
            return f"{f}: {str(getattr(a, f))[:70]} vs {str(getattr(b, f))[:70]}"
    return None


def given(case, op, what, sa_shape):
    """A user's own H or W."""
    rng = np.random.default_rng(op["hseed"])
    m, n, k = sa_shape
    if what == "H":
        H = rng.random((k if op["H"] == "given" else max(1, k - 1), n)) + 0.1
        if op.get("hzero"):
            H[rng.random(H.shape) < 0.2] = 0.0
        return H
    return rng.random((m, k)) + 0.1


class ModelBase(Check):
    stub = STUB + [KSTUB]
    assumptions = ["small matrices (up to 16x6, 4 factors), up to 60 iterations per training"]
    simple = {"method": "ls-nmf", "kernel": "python", "neg": False, "zeros": False, "scale": 5.0, "verbose": False}
    shrink_ints = {"m": 6, "n": 3, "k": 2}

    def shrink(self, case):
        yield from super().shrink(case)
        ops = case.get("ops")
        if ops and len(ops) > 1:
            for i in range(len(ops)):
                yield dict(case, ops=ops[:i] + ops[i + 1:])
        for k, v in SIMPLE_SIM.items():
            if case["sim"].get(k):
                yield dict(case, sim=dict(case["sim"], **{k: v}))

    def common(self, r):
        n = r.randint(3, 6)
        case = {"kernel": r.choice(["python", "sim"]), "dseed": r.randrange(1 << 20), "seed": r.randrange(1 << 16),
                "m": r.randint(6, 16), "n": n, "k": min(n, r.randint(2, 4)), "neg": False, "zeros": r.random() < 0.2,
                "method": r.choice(["ls-nmf"] * 3 + ["ws-nmf"] * 2), "scale": r.choice([5.0, 5.0, 0.05, 500.0]),
                "sim": sim_params(r)}
        if case["method"] == "ws-nmf" and r.random() < 0.4:
            case["neg"] = True
        return case

    def op(self, r, case):
        if r.random() < 0.4:
            o = {"do": "init", "H": r.choice(["none", "none", "given", "partial"]), "W": r.choice(["none", "none", "given"]),
                 "init": r.choice(["column_mean"] * 4 + ["kmeans"]), "norm": r.random() < 0.6,
                 "hseed": r.randrange(1 << 16), "hzero": r.random() < 0.3}
            if o["init"] == "kmeans" and (case["m"] < 2 * case["n"] + 2 or case["k"] > 3):
                o["init"] = "column_mean"
            if case["neg"] or case.get("bad"):
                o["init"] = "column_mean"
            return o
        return {"do": "train", "max_iter": r.choice([1, 2, 3, 5, 8, 15, 30, 60]),
                "cdelta": r.choice([1e-9, 1e-3, 0.1, 1.0, 50.0, 1e9]), "cn": r.choice([1, 2, 3, 5, 10, 40]),
                "hold": r.random() < 0.25, "delay": r.choice([-1, -1, -1, 0, 1, 3, 7]), "model_i": r.choice([1, 2, 7]),
                "alpha": r.choice([4, 4, 1.0, 0.5]), "fault": r.choice([None] * 8 + ["runtime", "nan"]),
                "cb": r.choice([None, None, "note", "raise"]), "robust": r.random() < 0.1}

    def dataset(self, case):
        V, U = data(case["dseed"], case["m"], case["n"], neg=case["neg"], zeros=case["zeros"], scale=case["scale"])
        if case.get("bad"):
            kind, i, j = case["bad"]
            i, j = i % V.shape[0], j % V.shape[1]
            if kind == "nanV":
                V[i, j] = np.nan
            elif kind == "nanU":
                U[i, j] = np.nan
            elif kind == "zeroU":
                U[i, j] = 0.0
            elif kind == "zerocol":
                V[:, j] = 0.0
            elif kind == "zerorow":
                V[i] = 0.0
        return V, U

    def model(self, case, V, U):
        from esat.model.sa import SA
        return SA(V=V, U=U, factors=case["k"], method=case["method"], seed=case["seed"], verbose=case.get("verbose", False))

    def init(self, case, sa, op):
        shape = (case["m"], case["n"], case["k"])
        H = given(case, op, "H", shape) if op["H"] != "none" else None
        W = given(case, op, "W", shape) if op["W"] != "none" else None
        keep = copy.deepcopy((H, W))
        sa.initialize(H=H, W=W, init_method=op["init"], init_norm=op["norm"])
        return H, W, keep

    def train(self, sa, op, cb=True):
        f = {"note": note_progress, "raise": raise_progress}.get(op.get("cb")) if cb else None
        return sa.train(max_iter=op["max_iter"], converge_delta=op["cdelta"], converge_n=op["cn"],
                        model_i=op["model_i"], hold_h=op["hold"], delay_h=op["delay"], robust_alpha=op["alpha"],
                        robust_mode=op["robust"], progress_callback=f)


# ------------------------------------------------------------------ C17
class C17(ModelBase):
    prop = "C17"
    rule = ("a run is a history of up to 6 initialise and train calls on one model, with native-kernel failures, failing "
            "callbacks and NaN losses; every training is compared with an independent step-by-step model; non-trivial "
            "when at least one training ran")
    runs = {"quick": 6000, "thorough": 120000}

    def gen(self, r, tier, i):
        case = self.common(r)
        case["verbose"] = r.random() < 0.1
        case["bad"] = None
        if r.random() < 0.08:
            case["bad"] = [r.choice(["nanV", "nanU", "zeroU", "zerocol", "zerorow"]), r.randrange(16), r.randrange(6)]
        case["ops"] = [self.op(r, case) for _ in range(r.randint(1, 6))]
        case["ops"].append(dict(self.op(r, dict(case)), do="train")
                           if case["ops"][-1]["do"] == "train" else
                           {"do": "train", "max_iter": r.choice([5, 20, 50]), "cdelta": r.choice([1e-6, 0.1, 5.0]),
                            "cn": r.choice([2, 5, 10]), "hold": False, "delay": -1, "model_i": 1, "alpha": 4,
                            "fault": None, "cb": None, "robust": False})
        if "max_iter" not in case["ops"][-1]:
            case["ops"].pop()
        return case

    simple = dict(ModelBase.simple, bad=None)

    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        V, U = self.dataset(case)
        V0, U0 = V.copy(), U.copy()
        sim = make_sim(ch, case["sim"])

        def body():
            sa = self.model(case, V, U)
            twin = self.model(case, V.copy(), U.copy())
            inited = False
            mine = []
            for k, op in enumerate(case["ops"]):
                where = f"step {k} ({op['do']})"
                if op["do"] == "init":
                    try:
                        H, W, keep = self.init(case, sa, op)
                        mine.append((H, W, keep))
                    except (ValueError, np.linalg.LinAlgError):
                        if op["init"] != "kmeans" and not (case["bad"] and case["bad"][0] == "nanV"):
                            raise
                        out.counts["kmeans-without-solution"] += 1     # scipy finds no clusters in such data
                        return
                    self.init(case, twin, op)
                    inited = True
                    if not eq(keep, (H, W)):
                        out.bad("C17:caller", f"{where}: initialize changed the caller's H or W")
                    if not self.after_init(out, case, op, sa, keep, where):
                        return
                    if not eq((sa.H, sa.W), (twin.H, twin.W)):
                        out.bad("C17:seed", f"{where}: the same seed initialised two models differently")
                        return
                    continue
                if not inited:
                    op = dict(op)
                try:
                    if not self.one_train(out, case, op, sa, twin, V, U, where, inited):
                        return
                except ValueError:
                    if not (case["bad"] and case["bad"][0] == "nanV" and not inited):
                        raise
                    out.counts["invalid-inputs"] += 1       # refused while initialising by itself
                    return
                inited = True
            if not eq([x[:2] for x in mine], [x[2] for x in mine]):
                out.bad("C17:caller", "training changed the H or W the caller gave to initialize")
            if not eq(V, V0) or not eq(U, U0):
                out.bad("C17:caller", "training changed the caller's data or uncertainty")
        sim.run(body)
        out.take(sim)
        kernel.NANQ.clear()
        kernel.RUNTIME_FAIL.clear()

    def after_init(self, out, case, op, sa, keep, where):
        m, n, k = case["m"], case["n"], case["k"]
        if case["bad"] or case["neg"]:
            return True
        if np.shape(sa.H) != (k, n) or np.shape(sa.W) != (m, k):
            out.bad("C17:shape", f"{where}: H {np.shape(sa.H)}, W {np.shape(sa.W)} for {m}x{n} with {k} factors")
            return False
        if not (np.asarray(sa.H) > 0).all():
            out.bad("C17:init", f"{where}: the initial profiles are not positive")
            return False
        if op["init"] != "kmeans":
            if op["H"] == "given" and not eq(np.asarray(sa.H, dtype=float), np.where(keep[0] <= 0, 1e-12, keep[0])):
                out.bad("C17:init", f"{where}: the given H is not used")
                return False
            if op["W"] == "given" and not eq(np.asarray(sa.W, dtype=float), keep[1]):
                out.bad("C17:init", f"{where}: the given W is not used")
                return False
        if case["method"] == "ls-nmf" and not (np.asarray(sa.W) >= 0).all():
            out.bad("C17:init", f"{where}: the initial contributions are negative under ls-nmf")
            return False
        return True

    def one_train(self, out, case, op, sa, twin, V, U, where, inited):
        from esat.model.sa import SA
        native = case["kernel"] == "sim"
        fault = op["fault"]
        MSGS.clear()
        if native and fault == "runtime":
            kernel.RUNTIME_FAIL.add(op["model_i"])
        if native and fault == "nan":
            kernel.NANQ.add(op["model_i"])
        if not inited:                      # train initialises by itself, with the defaults
            twin.initialize()
        before = {f: copy.deepcopy(getattr(sa, f)) for f in ("W", "H", "WH", "Qtrue", "Qrobust", "q_list", "V", "U",
                                                             "We")}
        H0, W0 = copy.deepcopy(twin.H), copy.deepcopy(twin.W)
        mark = len(kernel.EMITTED)
        ret = self.train(sa, op)
        try:
            got_t = self.train(twin, op, cb=False)
        finally:
            kernel.RUNTIME_FAIL.clear()
            kernel.NANQ.clear()
        if ret != got_t:
            out.bad("C17:seed", f"{where}: two models with the same history returned {ret!r} and {got_t!r}")
            return False
        if case["bad"] and case["bad"][0] in ("nanV", "nanU"):
            out.counts["invalid-inputs"] += 1
            if ret != -1:
                out.bad("C17:invalid", f"{where}: training on {case['bad'][0]} returned {ret!r}")
                return False
            if sa.Qtrue is not None or sa.WH is not None:
                out.bad("C17:invalid", f"{where}: training on invalid data left a result")
            return not out.violations
        if ret == -1:
            # refused: the initial matrices were not valid (NaN from a negative column mean, or a zero column)
            if np.isfinite(np.asarray(H0, dtype=float)).all() and np.isfinite(np.asarray(W0, dtype=float)).all() \
                    and np.asarray(H0).min() >= 0:
                out.bad("C17:refused", f"{where}: training refused valid inputs")
            out.counts["refused-trainings"] += 1
            return False
        if native and fault == "runtime":
            out.counts["native-kernel-failures"] += 1
            if ret is not False:
                out.bad("C17:swallowed", f"{where}: the native kernel failed and train returned {ret!r}")
                return False
            same = [f for f in before if f not in ("W", "H") and not eq(before[f], getattr(sa, f))]
            if inited and (not eq(before["W"], sa.W) or not eq(before["H"], sa.H) or same):
                out.bad("C17:failed-train", f"{where}: a failed training changed {same or 'W/H'}")
                return False
            return True
        if ret not in (None, True, 0):
            out.bad("C17:failed", f"{where}: training without a fault returned {ret!r}")
            return False
        out.nontrivial = True
        out.counts["trainings"] += 1
        d = differ(sa, twin)
        if d:
            out.bad("C17:seed", f"{where}: two models with the same seed and history differ in {d}")
            return False
        for f in ("V", "U", "We"):
            if not eq(before[f], getattr(sa, f)):
                out.bad("C17:inputs", f"{where}: training changed the model's {f}")
                return False
        m, n, k = case["m"], case["n"], case["k"]
        for f, s in (("W", (m, k)), ("H", (k, n)), ("WH", (m, n))):
            if np.shape(getattr(sa, f)) != s:
                out.bad("C17:shape", f"{where}: {f} has shape {np.shape(getattr(sa, f))}, not {s}")
                return False
        nan = any(x != x for x in map(float, sa.q_list)) or not np.isfinite(float(sa.Qtrue)) or \
            not np.isfinite(float(sa.Qrobust))
        ls = case["method"] == "ls-nmf" and bool((sa.V >= 0).all())
        if not nan:
            if not (np.asarray(sa.H) >= 0).all():
                out.bad("C17:sign", f"{where}: negative profiles")
                return False
            if ls and not (np.asarray(sa.W) >= 0).all():
                out.bad("C17:sign", f"{where}: negative contributions under ls-nmf")
                return False
            if not close(sa.WH, np.asarray(sa.W, dtype=float) @ np.asarray(sa.H, dtype=float), 1e-3, 1e-3):
                out.bad("C17:loss", f"{where}: WH is not W times H")
                return False
            Ux = np.maximum(U.astype(np.float32), np.float32(1e-12))
            if case["bad"] is None:
                for f, w in (("Qtrue", q_true(sa.V, Ux, sa.W, sa.H)),
                             ("Qrobust", q_robust(sa.V, Ux, sa.W, sa.H, op["alpha"]))):
                    if not close(float(getattr(sa, f)), w, 2e-3, 1e-2):
                        out.bad("C17:loss", f"{where}: {f} is {getattr(sa, f)}, the matrices give {w}")
                        return False
                if not close(float(sa.q_list[-1]), float(sa.Qtrue), 1e-3, 1e-2):
                    out.bad("C17:history", f"{where}: the last loss is {sa.q_list[-1]}, Q(true) is {sa.Qtrue}")
                    return False
        it = len(sa.q_list)
        if not 1 <= it <= op["max_iter"]:
            out.bad("C17:history", f"{where}: {it} losses for at most {op['max_iter']} iterations")
            return False
        if not self.stop_rule(out, case, op, sa, where, native):
            return False
        if ls and not nan and case["bad"] is None:
            q = np.array([float(x) for x in sa.q_list])
            up = q[1:] - q[:-1] * (1 + 1e-4)
            if len(q) > 1 and up.max() > 1e-2:
                out.bad("C17:monotone", f"{where}: the loss rose from {q[up.argmax()]} to {q[up.argmax() + 1]} under ls-nmf")
                return False
        Hs = np.asarray(H0, dtype=np.float32 if native else None)
        if op["hold"] and (op["delay"] <= 0 or it <= op["delay"] + 1) and \
                not eq(np.asarray(sa.H, dtype=float), np.asarray(Hs, dtype=float)):
            out.bad("C17:hold", f"{where}: the held profiles changed (delay {op['delay']}, {it} iterations)")
            return False
        if not self.reference(out, case, op, sa, W0, H0, where, ls):
            return False
        md = sa.metadata
        for f, w in (("max_iterations", op["max_iter"]), ("converge_n", op["cn"]), ("model_i", op["model_i"]),
                     ("converge_delta", op["cdelta"])):
            if md.get(f) != w:
                out.bad("C17:metadata", f"{where}: metadata {f} is {md.get(f)!r}, trained with {w}")
                return False
        if sa.model_i != op["model_i"]:
            out.bad("C17:metadata", f"{where}: model_i is {sa.model_i}")
        # trained again from these matrices, a fresh model does the same: nothing of an earlier training remains
        fresh = self.model(case, V, U)
        fresh.initialize(H=np.ones((k, n)), W=np.ones((m, k)), init_norm=False)
        fresh.W, fresh.H = copy.deepcopy(W0), copy.deepcopy(H0)
        if native and fault == "nan":
            kernel.NANQ.add(op["model_i"])
        self.train(fresh, op, cb=False)
        kernel.NANQ.clear()
        d = differ(fresh, sa, [f for f in RESULT if f != "init_method"])
        if d:
            out.bad("C17:history-leak", f"{where}: a fresh model trained from the same matrices differs in {d}")
            return False
        if native and op["cb"]:
            sent = kernel.EMITTED[mark:]
            mine = MSGS[:]
            if not mine or not mine[-1][-1]:
                out.bad("C17:progress", f"{where}: the callback got {len(mine)} messages, none of them final")
                return False
            if mine != sent[:len(mine)] or any(x[0] != op["model_i"] for x in mine):
                out.bad("C17:progress", f"{where}: the callback got other messages than the kernel sent")
                return False
        return True

    def stop_rule(self, out, case, op, sa, where, native):
        q = list(sa.q_list)
        if native:
            q = [np.float32(x) for x in q]
        cn, it = op["cn"], len(q)
        nan = any(x != x for x in q) or not np.isfinite(float(sa.Qrobust))
        D = [None if i + 1 < cn else q[i + 1 - cn] - q[i] for i in range(it)]

        def below(i):
            return D[i] is not None and bool(D[i] < op["cdelta"])

        def near(i):
            return D[i] is not None and abs(float(D[i]) - op["cdelta"]) <= 1e-6 * max(1.0, abs(float(q[i])))
        steps = sa.converge_steps
        if sa.converged:
            if not below(it - 1) and not near(it - 1):
                out.bad("C17:stop", f"{where}: converged after {it} iterations although the loss changed by {D[-1]} over "
                                    f"{cn} (limit {op['cdelta']})")
                return False
            first = [i for i in range(cn, it - 1) if below(i) and not near(i)]
            if first:
                out.bad("C17:stop", f"{where}: converged after {it} iterations, the rule already held after {first[0] + 1}")
                return False
            if steps not in (it, it - 1):
                out.bad("C17:steps", f"{where}: converged after {it} iterations, reports {steps} steps")
                return False
        else:
            hit = [i for i in range(cn, it) if below(i) and not near(i)]
            if hit and not nan:
                out.bad("C17:stop", f"{where}: not reported converged although the loss changed by {D[hit[0]]} over {cn} "
                                    f"iterations at {hit[0] + 1} of {it}")
                return False
            if it != op["max_iter"] and not nan:
                out.bad("C17:stop", f"{where}: stopped after {it} of {op['max_iter']} iterations without converging")
                return False
            if steps not in (it, it - 1):
                out.bad("C17:steps", f"{where}: {it} iterations, reports {steps} steps")
                return False
        return True

    def reference(self, out, case, op, sa, W, H, where, ls):
        """The first iterations, step by step, by an independent implementation."""
        if case["bad"] or op["fault"] == "nan" or not (sa.V >= 0).all():
            return True
        step = kernel._ls_step if ls else kernel._ws_step
        Vf, We = sa.V, sa.We
        W, H = np.asarray(W, dtype=np.float64), np.asarray(H, dtype=np.float64)
        for i in range(min(len(sa.q_list), 10 if ls else 3)):
            if not ls:
                G = [(H * We[j].astype(np.float64)) @ H.T for j in range(Vf.shape[0])]
                if not np.isfinite(G).all() or not max(np.linalg.cond(g) for g in G) < 1e2:
                    return True
            hold = op["hold"] and not (op["delay"] > 0 and i > op["delay"])
            W, H = step(Vf.astype(np.float64), We.astype(np.float64), W, H, hold)
            want = q_true(Vf, sa.U, W, H)
            if not np.isfinite(want):
                return True
            if not close(float(sa.q_list[i]), want, 5e-3 if ls else 0.15, 5e-2):
                out.bad("C17:update", f"{where}: iteration {i + 1} gives a loss of {sa.q_list[i]}, the update rule gives "
                                      f"{want} (hold={op['hold']}, delay={op['delay']})")
                return False
        return True


# ------------------------------------------------------------------ C18
class C18(ModelBase):
    prop = "C18"
    rule = ("a run is a chain of up to 5 process lifetimes on one simulated disk: load the newest model, continue it, save "
            "it, with crashes, power cuts and disk errors at chosen operations or source lines; each loaded model is "
            "continued beside the never-saved original; non-trivial when a model was continued from disk")
    runs = {"quick": 2000, "thorough": 40000}
    stub = STUB + [KSTUB, "raw disk under the scratch directory"]
    assumptions = ModelBase.assumptions + ["a rename within a directory is atomic and ordered after an fsync of the "
                                           "renamed file"]
    simple = dict(ModelBase.simple, kind="sa", p_short=0.0, buffer=0)

    def gen(self, r, tier, i):
        case = self.common(r)
        case["kind"] = r.choice(["sa"] * 4 + ["batch"])
        case["buffer"], case["p_short"] = r.choice([0, 0, 64, 512]), r.choice([0.0, 0.0, 0.2])
        lives = []
        for _ in range(r.randint(2, 5)):
            o = self.op(r, case)
            while o["do"] != "train":
                o = self.op(r, case)
            o["fault"] = None
            o["max_iter"] = r.choice([1, 3, 8, 20])
            o["reinit"] = r.choice([None, None, None, "column_mean", "given", "given", "kmeans"])
            o["hseed"], o["H"] = r.randrange(1 << 16), "given"
            if o["reinit"] == "kmeans" and (case["m"] < 2 * case["n"] + 2 or case["k"] > 3 or case["neg"]):
                o["reinit"] = "column_mean"
            o["then"] = r.choice([None, None, None, "bootstrap", "displacement"])
            o["disk"] = None
            if r.random() < 0.6:
                o["disk"] = {"kind": r.choice(["crash", "crash", "power", "power", "line", "linepower", "disk-full", "eio"]),
                             "op": r.randrange(r.choice([4, 20, 120]))}
            lives.append(o)
        case["ops"] = lives
        return case

    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        V, U = self.dataset(case)
        d = os.path.join(scratch, "out")
        os.makedirs(d)
        fs = simfs.SimFS(scratch, ch, buffer=case["buffer"], p_short=case["p_short"])
        cands = [None]              # never-saved originals of what a load may find
        from .store import Store
        life = Store().life
        path = os.path.join(d, "model.pkl")
        for k, op in enumerate(case["ops"] + [dict(case["ops"][-1], disk=None, last=True)]):
            got = {}

            def work():
                obj = self.load(case, path)
                got["print"] = None if obj is None else fingerprint(obj)
                got["loaded"] = obj is not None
                pick = [c for c in cands if (c is None) == (obj is None) and (c is None or fingerprint(c) == got["print"])]
                if not pick:
                    got["bad"] = True
                    return
                ref = copy.deepcopy(pick[0]) if pick[0] is not None else None
                got["pick"] = pick[0]
                if obj is None:
                    obj = self.start(case, V, U)
                    if obj is None:
                        got["skip"] = True
                        return
                    ref = self.start(case, V.copy(), U.copy())
                self.go_on(case, op, obj)
                self.go_on(case, op, ref)
                got["diff"] = self.compare(case, obj, ref)
                got["cont"] = got["loaded"]
                if not got["diff"] and op["then"] and case["kind"] == "sa":
                    got["diff"] = self.then(case, op["then"], obj, ref)
                got["ref"] = ref
                if got["diff"]:
                    return
                got["saving"] = True
                if case["kind"] == "sa":
                    got["ret"] = obj.save(model_name="model", output_directory=d, pickle_model=True)
                else:
                    got["ret"] = obj.save(batch_name="model", output_directory=d, pickle_batch=True)
            f = op["disk"]
            line = None
            fs.arm(None)
            if f and f["kind"].startswith("line"):
                line = f["op"]
            elif f:
                fs.arm({"op": f["op"], "kind": f["kind"]})
            how, ret = life(case, ch, out, fs, work, line, bool(f) and f["kind"] in ("power", "linepower"))
            where = f"lifetime {k} ({f['kind'] + '@' + str(f['op']) if f else 'no fault'})"
            if got.get("skip"):
                out.counts["untrainable-data"] += 1
                return
            if got.get("bad"):
                out.bad("C18:loaded", f"{where}: the loaded model is not one that was saved or has been lost")
                return
            if got.get("diff"):
                out.bad("C18:differs", f"{where}: the model continued from disk differs from the one that never left "
                                       f"memory: {got['diff']}")
                return
            if got.get("cont"):
                out.nontrivial = True
                out.counts["continued-models"] += 1
            if how == "err" and not (f and got.get("saving") and isinstance(ret, OSError)):
                if f and isinstance(ret, OSError):
                    out.counts["faulted-loads"] += 1
                else:
                    raise ret
            if op.get("last"):
                break
            if "pick" in got:
                # a load that saw one candidate settles what is on disk
                cands = [got["pick"]]
            if got.get("saving"):
                new = got["ref"]
                if how == "ok" and got.get("ret"):
                    cands = [new]
                else:
                    cands = cands + [new]

    def load(self, case, path):
        from esat.model.sa import SA
        from esat.model.batch_sa import BatchSA
        return (SA if case["kind"] == "sa" else BatchSA).load(path)

    def start(self, case, V, U):
        if case["kind"] == "sa":
            sa = self.model(case, V, U)
            sa.initialize()
            if not np.isfinite(np.asarray(sa.W, dtype=float)).all() or not np.isfinite(np.asarray(sa.H, dtype=float)).all():
                return None
            return sa
        from esat.model.batch_sa import BatchSA
        return BatchSA(V=V, U=U, factors=case["k"], models=2, method=case["method"], seed=case["seed"],
                       max_iter=6, parallel=bool(case["seed"] % 2), cores=2, verbose=False)

    def go_on(self, case, op, obj):
        if case["kind"] == "sa":
            if op["reinit"] == "given":
                obj.initialize(H=given(case, op, "H", (case["m"], case["n"], case["k"])))
            elif op["reinit"] == "kmeans":
                try:
                    obj.initialize(init_method="kmeans", init_norm=False)
                except (ValueError, np.linalg.LinAlgError):
                    pass
            elif op["reinit"]:
                obj.initialize()
            self.train(obj, op, cb=False)
            for x in ("creation_date", "completion_date"):
                obj.metadata[x] = "-"
        else:
            obj.max_iter = op["max_iter"]
            obj.train()
            obj.runtime = 0
            for sa in (x for x in obj.results if x is not None):
                for x in ("creation_date", "completion_date"):
                    sa.metadata[x] = "-"

    def compare(self, case, a, b):
        if case["kind"] == "sa":
            d = differ(a, b, RESULT + ("metadata",))
            if not d and not eq(a.rng.bit_generator.state, b.rng.bit_generator.state):
                d = "random state"
            return d
        if a.best_model != b.best_model or len(a.results) != len(b.results):
            return f"best model {a.best_model} vs {b.best_model}"
        for x, y in zip(a.results, b.results):
            if x is None or y is None:
                d = None if x is y else "a missing model"
            else:
                d = differ(x, y)
            if d:
                return d
        return None

    def then(self, case, what, a, b):
        got = []
        if not np.isfinite(float(a.Qtrue)):
            return None
        for sa in (a, b):
            sa = copy.deepcopy(sa)
            sa.metadata["max_iterations"] = 3
            lab = [f"f{j}" for j in range(case["n"])]
            if what == "bootstrap":
                from esat.error.bootstrap import Bootstrap
                x = Bootstrap(sa=sa, feature_labels=lab, model_selected=0, bootstrap_n=2, block_size=2, parallel=False,
                              seed=3)
                x.run()
                got.append([x.mapping_df, x.q_results, x.factor_tables])
            else:
                from esat.error.displacement import Displacement
                x = Displacement(sa=sa, feature_labels=lab, model_selected=0, max_search=3, parallel=False, features=[0])
                x.run()
                got.append([x.compiled_results, x.swap_table])
        return None if eq(*got) else f"a {what} of the continued model"


# ------------------------------------------------------------------ C19
class C19(ModelBase):
    prop = "C19"
    rule = ("a run carries out two to four analyses first one after another and then in concurrent threads of one process "
            "that share arrays and base models, preempted at source lines; non-trivial when threads interleaved")
    runs = {"quick": 600, "thorough": 15000}
    assumptions = ModelBase.assumptions + ["threads are preempted between source lines, not inside numpy calls"]

    simple = dict(ModelBase.simple, share="one")

    def gen(self, r, tier, i):
        case = self.common(r)
        case["neg"] = False
        case["scale"] = 5.0
        case["zeros"] = False
        kinds = ["sa", "sa", "batch", "boot", "disp", "bsdisp", "constrained", "simulator"]
        if case["method"] == "ws-nmf":
            kinds.remove("constrained")
        inits = ["column_mean", "column_mean", "kmeans"]
        if case["m"] < 2 * case["n"] + 2 or case["k"] > 3:
            inits.pop()
        case["ops"] = [{"do": r.choice(kinds), "init": r.choice(inits), "seed": r.choice([case["seed"], r.randrange(1 << 16)]),
                        "par": r.random() < 0.3, "it": r.choice([1, 3, 8]), "same": r.random() < 0.5,
                        "given": r.random() < 0.3, "givenw": r.random() < 0.3} for _ in range(r.randint(2, 4))]
        case["sim"]["p_line"] = r.choice([0.1, 0.5, 0.9])
        case["sim"]["p_switch"] = r.choice([0.3, 0.6, 0.9])
        return case

    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        V, U = self.dataset(case)
        H = np.random.default_rng(case["dseed"]).random((case["k"], case["n"])) + 0.1
        H[0, 0] = 0.0
        W = np.random.default_rng(case["dseed"] + 1).random((case["m"], case["k"])) + 0.1
        W[0, 0] = W[-1, -1] = 0.0
        arrays = (V, U, H, W)
        keep = copy.deepcopy(arrays)
        want = []
        from dst.choose import Chooser
        quiet = core.Sim(Chooser(trace=[]))
        base = quiet.run(lambda: self.base(case, V, U))
        if base.Qtrue is None or not np.isfinite(float(base.Qtrue)):
            out.counts["untrainable-data"] += 1
            return
        bp = self.state(base)

        def serial():
            for op in case["ops"]:
                want.append(self.job(case, op, V, U, H, W, base))
        core.Sim(Chooser(trace=[])).run(serial)
        if not eq(keep, arrays):
            out.bad("C19:caller", "an analysis changed the caller's arrays")
            return
        if self.state(base) != bp:
            out.bad("C19:base", "an analysis changed the base model")
            return
        sim = make_sim(ch, case["sim"])
        got = [None] * len(case["ops"])
        errs = [None] * len(case["ops"])

        def body():
            def one(i):
                try:
                    got[i] = self.job(case, case["ops"][i], V, U, H, W, base)
                except Exception as ex:
                    errs[i] = ex
            ts = [threading.Thread(target=one, args=(i,)) for i in range(len(case["ops"]))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
        sim.run(body)
        out.take(sim)
        out.nontrivial = sim.switches > 2
        kinds = "+".join(o["do"] for o in case["ops"])
        for i, op in enumerate(case["ops"]):
            out.counts["concurrent-" + op["do"]] += 1
            if errs[i] is not None:
                out.bad("C19:failed", f"{op['do']} (of {kinds}) failed when run beside the others: "
                                      f"{type(errs[i]).__name__}: {errs[i]}")
                return
            if not eq(got[i], want[i]):
                bad = [k for k in want[i] if not eq(want[i][k], got[i].get(k))] if isinstance(want[i], dict) else ""
                out.bad("C19:differs", f"{op['do']} (of {kinds}) gives another result when run beside the others: {bad}")
                return
        if not eq(keep, arrays):
            out.bad("C19:caller", f"{kinds} run side by side changed the caller's arrays")
        if self.state(base) != bp:
            out.bad("C19:base", f"{kinds} run side by side changed the base model")

    def state(self, sa):
        return fingerprint({k: v for k, v in sa.__dict__.items()})

    def base(self, case, V, U):
        sa = self.model(case, V, U)
        sa.initialize()
        sa.train(max_iter=10, converge_delta=1e-6, converge_n=5)
        sa.metadata["max_iterations"] = 3
        return sa

    def job(self, case, op, V, U, H, W, base):
        from esat.model.sa import SA
        from esat.model.batch_sa import BatchSA
        k, lab = case["k"], [f"f{j}" for j in range(case["n"])]
        do = op["do"]
        if do == "sa":
            sa = SA(V=V, U=U, factors=k, method=case["method"], seed=op["seed"])
            try:
                sa.initialize(H=H if op["given"] else None, W=W if op["givenw"] else None, init_method=op["init"])
            except (ValueError, np.linalg.LinAlgError):
                if op["init"] != "kmeans":
                    raise
                return {"no clusters": True}        # scipy finds none in such data
            sa.train(max_iter=op["it"] * 3, converge_delta=1e-6, converge_n=5)
            return {f: copy.deepcopy(getattr(sa, f)) for f in RESULT}
        if do == "batch":
            b = BatchSA(V=V, U=U, factors=k, models=3, init_method=op["init"], method=case["method"], seed=op["seed"], max_iter=op["it"],
                        H=H if op["given"] else None, W=W if op["givenw"] else None, parallel=op["par"], cores=2, verbose=False)
            r = b.train()
            return {"ret": r, "best": b.best_model,
                    "models": [None if sa is None else {f: getattr(sa, f) for f in RESULT} for sa in b.results]}
        sa = base
        if do == "boot":
            from esat.error.bootstrap import Bootstrap
            b = Bootstrap(sa=sa, feature_labels=lab, model_selected=0, bootstrap_n=2, block_size=3, parallel=op["par"],
                          cpus=2, seed=op["seed"])
            b.run()
            return {"map": b.mapping_df, "q": b.q_results, "tables": b.factor_tables,
                    "index": [list(map(int, x["index"])) for x in b.bs_results.values()]}
        if do == "disp":
            from esat.error.displacement import Displacement
            d = Displacement(sa=sa, feature_labels=lab, model_selected=0, max_search=3, parallel=op["par"], features=[0, 1])
            d.run()
            return {"c": d.compiled_results, "s": d.swap_table, "n": d.count_table}
        if do == "bsdisp":
            from esat.error.bs_disp import BSDISP
            d = BSDISP(sa=sa, feature_labels=lab, model_selected=0, max_search=2, bootstrap_n=2, block_size=3,
                       features=[0], cores=2 if op["par"] else 1, seed=op["seed"])
            d.run()
            return {"c": d.compiled_results, "s": d.swap_table, "n": d.count_table}
        if do == "constrained":
            import pandas as pd
            from esat.data.datahandler import DataHandler
            from esat.rotational.constrained import ConstrainedModel
            idx = pd.date_range("2020-01-01", periods=V.shape[0], freq="D", name="Date")
            dh = DataHandler.load_dataframe(input_df=pd.DataFrame(sa.V, columns=lab, index=idx),
                                            uncertainty_df=pd.DataFrame(sa.U, columns=lab, index=idx))
            dh.get_data()
            c = ConstrainedModel(base_model=sa, data_handler=dh, softness=1.0)
            c.add_constraint(constraint_type="set to zero", index=(0, 0), target="feature")
            c.train(max_iterations=op["it"], converge_delta=1e-6, converge_n=3)
            m = c.constrained_model
            return {f: copy.deepcopy(getattr(m, f)) for f in ("W", "H", "Qtrue", "Qrobust")}
        from esat_eval.simulator import Simulator
        s = Simulator(seed=op["seed"], factors_n=k, features_n=case["n"], samples_n=case["m"], verbose=False)
        a, b = s.get_data()
        return {"d": a, "u": b, "H": np.array(s.syn_profiles), "W": np.array(s.syn_contributions)}


CHECKS = {"C17": C17(), "C18": C18(), "C19": C19()}
