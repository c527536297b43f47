"""C01-C05: the batch of models, sequential and in a pool, under every schedule, fault and clock."""
import collections

import numpy as np

from dst import core, kernel, patches
from dst.check import Check, KSTUB, STUB, SIMPLE_SIM, close, data, eq, make_sim, q_robust, q_true, sim_params

DELIVERED = []


def record_progress(*args):
    """The user's progress callback (module level, so that it can travel to worker processes)."""
    DELIVERED.append(tuple(args))


def _hw(case):
    """Optional predefined H / W: none, shared (2D), one per model (3D), or fewer profiles than factors."""
    rng = np.random.default_rng(case["dseed"] + 1)
    m, n, k, N = case["m"], case["n"], case["k"], case["models"]
    H = W = None
    if case["H"] == "shared":
        H = rng.random((k, n)) + 0.1
    elif case["H"] == "each":
        H = rng.random((N, k, n)) + 0.1
    elif case["H"] == "partial":
        H = rng.random((max(1, k - 1), n)) + 0.1
    if H is not None and case.get("hzero"):
        H[rng.random(H.shape) < 0.3] = 0.0
    if case["W"] == "shared":
        W = rng.random((m, k)) + 0.1
    elif case["W"] == "each":
        W = rng.random((N, m, k)) + 0.1
    if W is not None and case.get("hzero"):
        W[rng.random(W.shape) < 0.2] = 0.0
    return H, W


def reference(case, V, U, H, W, rng, stop_after=None):
    """The batch as its documentation defines it: model i is one SA with the i-th seed drawn from the batch seed."""
    from esat.model.sa import SA
    out = []
    for i in range(1, case["models"] + 1):
        seed = rng.integers(low=0, high=1e5)
        sa = SA(V=V.copy(), U=U.copy(), factors=case["k"], method=case["method"], seed=seed, verbose=False)
        h = H[i - 1] if H is not None and H.ndim == 3 else H
        w = W[i - 1] if W is not None and W.ndim == 3 else W
        sa.initialize(H=None if h is None else h.copy(), W=None if w is None else w.copy(),
                      init_method=case["init"], init_norm=case["norm"])
        sa.train(max_iter=case["max_iter"], converge_delta=case["cdelta"], converge_n=case["cn"], model_i=i,
                 hold_h=case["hold_h"], delay_h=case["delay_h"])
        out.append(sa)
    return out


def loss(case, sa):
    q = None if sa is None else sa.Qrobust if case["best_robust"] else sa.Qtrue
    return float("nan") if q is None else float(q)


def hopeless(case, sas):
    """None of the models ends with a loss, though nothing went wrong: zeros or negative values can do that."""
    return not any(np.isfinite(loss(case, x)) for x in sas)


class BatchBase(Check):
    runs = {"quick": 1600, "thorough": 40000}
    stub = STUB + [KSTUB]
    assumptions = ["simulated multiprocessing.Pool/Manager behave as CPython's (chunking, pickling per chunk, "
                   "result-handler thread, EOF after manager shutdown)",
                   "matrices are small (up to 14x6, 4 factors); training lengths up to 25 iterations"]
    simple = {"verbose": False, "H": "none", "W": "none", "hold_h": False, "delay_h": -1, "init": "column_mean",
              "method": "ls-nmf", "twice": False, "callback": False, "neg": False, "hzero": False}
    shrink_ints = {"models": 1, "max_iter": 1, "m": 6, "n": 3, "k": 2, "cores": 1}

    def gen(self, r, tier, i):
        kern = r.choice(["python", "sim"])
        case = {
            "kind": "plain", "kernel": kern, "dseed": r.randrange(1 << 20), "seed": r.randrange(1 << 16),
            "m": r.randint(6, 14), "n": r.randint(3, 6), "k": r.randint(2, 4), "models": r.randint(1, 6),
            "method": r.choice(["ls-nmf", "ls-nmf", "ws-nmf"]), "parallel": r.random() < 0.75,
            "cores": r.choice([None, 1, 2, 3, 4, 8]), "H": r.choice(["none", "none", "shared", "each", "partial"]),
            "W": r.choice(["none", "none", "none", "shared", "each"]), "hold_h": r.random() < 0.25,
            "delay_h": r.choice([-1, -1, 2, 5]), "best_robust": r.random() < 0.5,
            "max_iter": r.choice([1, 2, 5, 10, 25]), "cdelta": r.choice([1e-6, 0.1, 5.0, 1e9]),
            "cn": r.choice([2, 3, 10]), "verbose": r.random() < 0.3, "init": r.choice(["column_mean"] * 2 + ["kmeans"]),
            "callback": r.random() < 0.4, "neg": False, "twice": r.random() < 0.2, "pmsg": r.choice([0.0, 0.3, 1.0]),
            "wild": r.random() < 0.3,
        }
        case["k"] = min(case["k"], case["n"])
        case["hzero"] = r.random() < 0.3
        case["norm"] = r.random() < 0.6
        if r.random() < 0.006:
            case.update(models=r.randint(128, 140), max_iter=1, m=6, n=3, k=2, H="none", W="none", init="column_mean",
                        twice=False, kernel="sim")
        if case["method"] == "ws-nmf" and r.random() < 0.5:
            case["neg"] = True
        if case["init"] == "kmeans":
            case["m"] = max(case["m"], 2 * case["n"] + 2)
        case["sim"] = sim_params(r)
        return case

    def shrink(self, case):
        yield from super().shrink(case)
        for k, v in SIMPLE_SIM.items():
            if case["sim"].get(k):
                c = dict(case)
                c["sim"] = dict(case["sim"], **{k: v})
                yield c

    def build(self, case, V, U, H, W):
        from esat.model.batch_sa import BatchSA
        return BatchSA(V=V, U=U, factors=case["k"], models=case["models"], method=case["method"], seed=case["seed"],
                       H=H, W=W, init_method=case["init"], init_norm=case["norm"], max_iter=case["max_iter"],
                       converge_delta=case["cdelta"], converge_n=case["cn"], best_robust=case["best_robust"],
                       parallel=case["parallel"], cores=case["cores"], hold_h=case["hold_h"],
                       delay_h=case["delay_h"], verbose=case["verbose"],
                       progress_callback=record_progress if case["callback"] else None)

    # ---- oracles
    def check_results(self, out, case, b, ref, V, U):
        res = b.results
        if len(res) != case["models"]:
            out.bad("C01:count", f"{len(res)} results for {case['models']} models")
            return
        for i, (x, y) in enumerate(zip(res, ref)):
            if x is None:
                out.bad("C01:missing", f"result {i} is None after a successful train")
                return
            if x.model_i != i + 1:
                out.bad("C01:order", f"results[{i}] is model {x.model_i}")
            for f in ("seed", "W", "H", "WH", "Qtrue", "Qrobust", "converged", "converge_steps", "q_list", "factors",
                      "method", "init_method"):
                if not eq(getattr(x, f), getattr(y, f)):
                    out.bad("C01:differs", f"model {i + 1}: {f} differs from the model trained alone "
                                           f"({case['kernel']}, parallel={case['parallel']}): "
                                           f"{str(getattr(x, f))[:80]} vs {str(getattr(y, f))[:80]}")
                    return

    def check_best(self, out, case, b, V, U):
        res = b.results
        qs = []
        for x in res:
            if x is None or x.Qtrue is None:
                qs.append(float("nan"))
                continue
            Vf, Uf = V.astype(np.float32), U.astype(np.float32)
            qt, qr = q_true(Vf, Uf, x.W, x.H), q_robust(Vf, Uf, x.W, x.H)
            if not close(float(x.Qtrue), qt, 2e-3, 1e-2) or not close(float(x.Qrobust), qr, 2e-3, 1e-2):
                out.bad("C02:loss", f"model {x.model_i} reports Q {x.Qtrue}/{x.Qrobust}, its matrices give {qt}/{qr}")
            qs.append(float(x.Qrobust if case["best_robust"] else x.Qtrue))
        bm = b.best_model
        finite = [q for q in qs if q == q]
        if not finite:
            out.bad("C02:no-valid-best", f"train reported success with best model {bm} although no model has a loss")
            return
        if bm is None or not 0 <= int(bm) < len(qs):
            out.bad("C02:range", f"best model index {bm} with {len(qs)} models")
        elif not qs[int(bm)] <= min(finite):
            out.bad("C02:not-best", f"best model {int(bm) + 1} has loss {qs[int(bm)]}, the smallest is {min(finite)} "
                                    f"(robust={case['best_robust']})")

    def check_quiet(self, out, sim, where):
        """Called inside the run, right after train returned: nothing of it may still be running."""
        for p in sim.pools:
            if not p.released():
                out.bad("C03:pool-leak", f"{where}: worker pool still open")
        left = [t.name for t in sim.tasks[1:] if not t.done and not t.proc.dead]
        if left:
            # let everything that can finish do so
            sim.block(lambda: all(t.done or t.proc.dead for t in sim.tasks[1:]), "settle", timeout=3600.0)
            left = [t.name for t in sim.tasks[1:] if not t.done and not t.proc.dead]
        if left:
            out.bad("C03:thread-leak", f"{where}: still running after train returned: {sorted(set(left))}")

    def check_logs(self, out, sim, where):
        if sim.log_put > sim.log_handled:
            out.bad("C04:log-lost", f"{where}: {sim.log_put - sim.log_handled} of {sim.log_put} log records of the "
                                    f"workers never reached the parent")

    def check_inputs(self, out, before, V, U, H, W):
        for name, a, b in zip("VUHW", before, (V, U, H, W)):
            if a is not None and not eq(a, b):
                out.bad("C01:input-mutated", f"the caller's {name} was modified")

    def check_progress(self, out, case, emitted, ret):
        # a NaN loss equals itself here
        got, emitted = ([tuple("nan" if isinstance(x, float) and x != x else x for x in t) for t in z]
                        for z in (DELIVERED, emitted))
        if not case["callback"]:
            if got:
                out.bad("C04:uninvited", "progress delivered without a callback")
            return
        if ret[0] is not True:
            return
        if collections.Counter(got) != collections.Counter(emitted):
            lost = collections.Counter(emitted) - collections.Counter(got)
            dup = collections.Counter(got) - collections.Counter(emitted)
            out.bad("C04:lost" if lost else "C04:duplicate",
                    f"{sum(lost.values())} progress messages lost, {sum(dup.values())} duplicated or invented "
                    f"(of {len(emitted)})")
            return
        for i in range(1, case["models"] + 1):
            a = [g for g in got if g[0] == i]
            e = [g for g in emitted if g[0] == i]
            if a != e:
                out.bad("C04:reordered", f"model {i}: progress out of order")
                return
            if case["kernel"] == "sim" and (not a or a[-1][6] is not True):
                out.bad("C04:no-final", f"model {i}: no completion message before train returned")

    # ---- one execution
    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        kernel.P_MSG = case["pmsg"]
        V, U = data(case["dseed"], case["m"], case["n"], neg=case["neg"], scale=200.0 if case["wild"] else 5.0)
        if case["wild"]:
            U = U * 0.02
        H, W = _hw(case)
        before = [None if a is None else a.copy() for a in (V, U, H, W)]
        DELIVERED.clear()
        rng = np.random.default_rng(case["seed"])
        refs = [reference(case, V, U, H, W, rng) for _ in range(2 if case["twice"] else 1)]
        kernel.CALLS.clear()
        sim = make_sim(ch, case["sim"])
        def body():
            b = self.build(case, V, U, H, W)
            for t, ref in enumerate(refs):
                DELIVERED.clear()
                kernel.EMITTED.clear()
                ret = b.train()
                self.check_quiet(out, sim, "train")
                if hopeless(case, ref) and ret[0] is False and ret[1]:
                    out.counts["batches-without-any-loss"] += 1
                    return
                if not (isinstance(ret, tuple) and len(ret) == 2 and ret[0] is True):
                    out.bad("C03:failed-without-fault", f"train returned {ret} although nothing went wrong")
                    return
                self.check_results(out, case, b, ref, V, U)
                self.check_best(out, case, b, V, U)
                self.check_progress(out, case, list(kernel.EMITTED), ret)
                self.check_logs(out, sim, "train")
                self.check_inputs(out, before, V, U, H, W)
        try:
            sim.run(body)
        finally:
            out.take(sim)
            out.counts["parallel" if case["parallel"] else "sequential"] += 1
            out.counts["kernel-" + case["kernel"]] += 1
            out.counts["progress-messages"] += len(DELIVERED)
        for name, ex in sim.thread_errors:
            out.bad(f"C03:thread-error", f"{name} died with {type(ex).__name__}: {ex}")


class C01(BatchBase):
    prop = "C01"
    rule = ("each case: a small dataset, batch configuration (sequential or pool of 1-16 workers, predefined H/W, "
            "method, kernel) and a seeded schedule; a run is non-trivial if the scheduler switched tasks or a fault "
            "was injected; distinct = distinct (schedule digest, case)")


class C02(BatchBase):
    prop = "C02"
    rule = ("as C01, with models whose loss is NaN and models that compete closely; non-trivial as C01; the best "
            "index is recomputed from the result matrices")

    def gen(self, r, tier, i):
        case = super().gen(r, tier, i)
        case["models"] = r.randint(1, 7)
        case["max_iter"] = r.choice([1, 2, 3, 8])
        case["wild"] = r.random() < 0.6
        case["nan"] = []
        if r.random() < 0.4:
            case["kernel"] = "sim"
            case["nan"] = sorted({r.randint(1, case["models"]) for _ in range(r.randint(1, case["models"]))})
            if r.random() < 0.15:
                case["nan"] = list(range(1, case["models"] + 1))
            case["twice"] = False
        return case

    def run(self, case, ch, out, scratch):
        if not case.get("nan"):
            return super().run(case, ch, out, scratch)
        patches.set_kernel("sim")
        V, U = data(case["dseed"], case["m"], case["n"], scale=200.0 if case["wild"] else 5.0)
        H, W = _hw(case)
        sim = make_sim(ch, case["sim"])
        refs = reference(case, V, U, H, W, np.random.default_rng(case["seed"]))
        valid = [i for i, x in enumerate(refs, 1) if i not in case["nan"] and np.isfinite(loss(case, x))]
        kernel.NANQ.update(case["nan"])

        def body():
            b = self.build(case, V, U, H, W)
            ret = b.train()
            if ret[0] is True:
                self.check_best(out, case, b, V, U)
                if len(case["nan"]) < case["models"] and len(b.results) != case["models"]:
                    out.bad("C01:count", f"{len(b.results)} results for {case['models']} models")
            elif valid:
                out.bad("C02:refused", f"train failed ({ret}) although model losses exist")
            elif not str(ret[1]).strip():
                out.bad("C03:no-reason", f"train returned {ret}")
        try:
            sim.run(body)
        finally:
            out.take(sim)
            out.counts["models-with-nan-loss"] += len(case["nan"])


class C03(BatchBase):
    prop = "C03"
    runs = {"quick": 1600, "thorough": 40000}
    rule = ("as C01 plus one fault class per run: worker exception (allocation failure at a random source line, "
            "OSError, MemoryError at task start), native kernel RuntimeError or ValueError, unpicklable callback, "
            "invalid data, death of a worker process; followed by a fault-free train on the same object")
    FAULTS = ["worker-oom", "worker-oserror", "line-oom", "kernel-runtime", "kernel-value", "bad-callback", "nan-data",
              "worker-death", "none"]

    def gen(self, r, tier, i):
        case = super().gen(r, tier, i)
        case["fault"] = r.choice(self.FAULTS[:-2] * 3 + self.FAULTS)
        case["twice"] = False
        if case["fault"] in ("worker-oom", "worker-oserror", "worker-death", "line-oom"):
            case["parallel"] = True
        if case["fault"].startswith("kernel"):
            case["kernel"] = "sim"
            case["bad_models"] = sorted({r.randint(1, case["models"]) for _ in range(2)})
        if case["fault"] == "bad-callback":
            case["parallel"] = True
            case["callback"] = True
        case["p"] = r.choice([0.2, 0.5, 1.0])
        case["line"] = r.randint(1, 400)
        case["before"] = r.random() < 0.3           # the object has trained well before
        return case

    def run(self, case, ch, out, scratch):
        if case["fault"] == "none":
            return super().run(case, ch, out, scratch)
        patches.set_kernel(case["kernel"])
        kernel.P_MSG = case["pmsg"]
        V, U = data(case["dseed"], case["m"], case["n"], neg=case["neg"])
        H, W = _hw(case)
        DELIVERED.clear()
        f = case["fault"]
        sim = make_sim(ch, case["sim"])
        state = {"armed": False, "n": 0, "hit": 0}
        if f == "line-oom":
            def hook(s, frame):
                t = s.current
                if not state["armed"] or t.proc is s.procs[0] or t.noyield:
                    return
                state["n"] += 1
                if state["n"] == case["line"]:
                    s.fault("allocation-failure-at-line")
                    state["hit"] += 1
                    raise MemoryError("injected: allocation failed")
            sim.line_hooks = hook

        def arm():
            state["armed"] = True
            if f in ("worker-oom", "worker-oserror", "worker-death"):
                sim.p_fault = {f: case["p"]}
            if f == "kernel-runtime":
                kernel.RUNTIME_FAIL.update(case["bad_models"])
            if f == "kernel-value":
                for i in case["bad_models"]:
                    kernel.FAIL[i] = ValueError("injected: kernel rejected its input")
        if f == "nan-data":
            V = V.copy()
            V[0, 0] = np.nan

        def body():
            from esat.model.batch_sa import BatchSA
            b = self.build(case, V, U, H, W)
            if case["before"] and f != "nan-data":
                b.train()
                self.check_quiet(out, sim, "first train")
            arm()
            DELIVERED.clear()
            kernel.EMITTED.clear()
            if f == "bad-callback":
                b.progress_callback = lambda *a: DELIVERED.append(a)
            ret = b.train()
            injected = sum(v for k, v in sim.fault_counts.items() if k.startswith(("worker-", "allocation"))) or \
                f in ("kernel-runtime", "kernel-value", "nan-data")
            if f.startswith("kernel"):
                sim.fault(f)
            elif f in ("nan-data", "bad-callback"):
                sim.fault(f)
            self.judge(out, case, b, ret, injected)
            self.check_quiet(out, sim, f"train with {f}")
            if f != "worker-death":
                self.check_logs(out, sim, f"train with {f}")
                self.check_partial(out, case, f)
            # the same object must work again once the fault is gone
            state["armed"] = False
            sim.p_fault = {}
            kernel.reset()
            if f != "nan-data":
                b.progress_callback = record_progress if case["callback"] and f != "bad-callback" else None
                ret = b.train()
                if ret[0] is False and ((len(b.results) >= case["models"] and hopeless(case, b.results)) or hopeless(
                        case, reference(case, V, U, H, W, np.random.default_rng(case["seed"])))):
                    out.counts["batches-without-any-loss"] += 1
                elif ret[0] is not True:
                    out.bad("C03:no-recovery", f"after {f}, a fault-free train returned {ret}")
                elif len(b.results) != case["models"] or any(x is None or x.WH is None for x in b.results):
                    out.bad("C03:recovery-incomplete", "train after recovery reported success with missing models")
                self.check_quiet(out, sim, "train after recovery")
        try:
            sim.run(body)
        except core.SimHang as h:
            if sim.fault_counts.get("worker-death"):
                out.bad("C03:hang-after-worker-death", f"train never returns after a worker process died: {h.report}")
            else:
                out.bad("C03:hang", f"train never returns: {h.report}")
        except Exception as ex:
            out.bad("C03:raised", f"train raised {type(ex).__name__}: {ex} instead of returning a failure")
        else:
            for name, ex in sim.thread_errors:
                out.bad("C03:thread-error", f"{name} died with {type(ex).__name__}: {ex}")
        finally:
            out.take(sim)
            out.counts["fault-class-" + f] += 1

    def check_partial(self, out, case, f):
        """Of a failed batch: nothing delivered twice, out of order or that no model sent."""
        got, sent = ([tuple("nan" if isinstance(x, float) and x != x else x for x in t) for t in z]
                     for z in (DELIVERED, kernel.EMITTED))
        if not case["callback"] or f == "bad-callback":
            return
        for i in range(1, case["models"] + 1):
            a = [g for g in got if g[0] == i]
            e = [g for g in sent if g[0] == i]
            if f == "line-oom":                 # the injected failure may hit the sending of a message itself
                rest = iter(e)
                e = a if all(x in rest for x in a) else e
            if a != (e[:len(a)] if case["parallel"] else e):
                out.bad("C04:failed-batch", f"train with {f}: model {i} sent {len(e)} progress messages, the callback "
                                            f"got {len(a)}, not the first ones of them in order")
                return

    def judge(self, out, case, b, ret, injected):
        if not (isinstance(ret, tuple) and len(ret) == 2 and isinstance(ret[0], bool)):
            out.bad("C03:result-form", f"train returned {ret!r}")
            return
        if ret[0]:
            bad = [i for i, x in enumerate(b.results) if x is None or x.W is None or x.WH is None or x.Qtrue is None]
            if len(b.results) != case["models"] or bad:
                out.bad("C03:partial-success", f"train reported success with {len(b.results)} of {case['models']} "
                                               f"models, untrained: {bad}")
            if b.best_model is None or not 0 <= b.best_model < max(1, len(b.results)):
                out.bad("C03:partial-success", f"success with best model {b.best_model}")
        elif not str(ret[1]).strip():
            out.bad("C03:no-reason", "train failed without a reason")


class C04(C03):
    prop = "C04"
    rule = ("as C01 with a recording progress callback and the native-kernel stand-in emitting progress at seeded "
            "points; delivered messages are compared with emitted ones (multiset, per-model order, before return); in a "
            "quarter of the runs workers fail, and what arrived before the failure is judged")

    def gen(self, r, tier, i):
        case = super().gen(r, tier, i)
        case["callback"] = True
        case["kernel"] = "sim" if r.random() < 0.95 else "python"
        case["parallel"] = r.random() < 0.85
        case["twice"] = r.random() < 0.2
        if case["fault"] not in ("worker-oom", "worker-oserror", "line-oom", "kernel-runtime", "kernel-value") or \
                r.random() < 0.6:
            case["fault"] = "none"
        elif case["fault"].startswith("kernel"):
            case["kernel"] = "sim"
        else:
            case["parallel"] = True
        return case


class C05(BatchBase):
    prop = "C05"
    runs = {"quick": 1600, "thorough": 40000}
    rule = ("each case: models with simulated training durations from seconds to days, a time limit, and wall-clock "
            "jumps forward and backward at seeded clock reads; non-trivial if a jump happened or the limit was crossed")

    def gen(self, r, tier, i):
        case = super().gen(r, tier, i)
        case["kernel"] = "sim"
        case["parallel"] = r.random() < 0.15
        case["twice"] = False
        case["limit"] = r.choice([None, 1, 5, 60, 1440])
        lim = (case["limit"] or 5) * 60
        case["durations"] = [r.choice([0.3, 0.9, 1.1, 2.0, 30.0] + [1.0 + 86400.0 / lim, 0.5 + 86400.0 / lim]) * lim
                             if r.random() < 0.5 else r.choice([0.01, 1.0, 20.0])
                             for _ in range(case["models"])]
        case["sim"] = sim_params(r, jumps=True, slow=False)
        case["sim"]["p_stall"] = 0.0
        case["sim"]["slow"] = 0.0
        return case

    def shrink(self, case):
        for c in super().shrink(case):
            c["durations"] = c["durations"][:c["models"]]
            yield c

    def run(self, case, ch, out, scratch):
        patches.set_kernel("sim")
        kernel.P_MSG = 0.0
        V, U = data(case["dseed"], case["m"], case["n"], neg=case["neg"])
        H, W = _hw(case)
        refs = reference(case, V, U, H, W, np.random.default_rng(case["seed"]))
        if hopeless(case, refs):
            out.counts["batches-without-any-loss"] += 1
            return
        lim = case["limit"]
        for i, d in enumerate(case["durations"]):
            kernel.DURATION[i + 1] = d
        sim = make_sim(ch, case["sim"])
        over = [i + 1 for i, d in enumerate(case["durations"]) if lim and d > lim * 60]

        def body():
            b = self.build(case, V, U, H, W)
            kernel.CALLS.clear()
            t0 = sim.now
            ret = b.train(min_limit=lim)
            took = sim.now - t0
            if over:
                out.nontrivial = True
                if ret[0] is not False or not ret[1]:
                    out.bad("C05:parallel-limit-ignored" if case["parallel"] else "C05:limit-ignored",
                            f"limit {lim} min, model durations {[round(d) for d in case['durations']]} s: "
                            f"train returned {ret}")
                elif not case["parallel"] and kernel.CALLS != list(range(1, over[0] + 1)):
                    out.bad("C05:kept-going", f"limit exceeded by model {over[0]}, models trained: {kernel.CALLS}")
            else:
                if ret[0] is not True:
                    out.bad("C05:false-alarm", f"limit {lim} min, model durations "
                                               f"{[round(d) for d in case['durations']]} s, clock jumps "
                                               f"{dict(sim.fault_counts)}: train returned {ret}")
                elif b.runtime is None or abs(float(b.runtime) - took) > 0.05 + 0.01 * took:
                    out.bad("C05:runtime", f"runtime {b.runtime} s reported, {took:.2f} s elapsed "
                                           f"(jumps {dict(sim.fault_counts)})")
        try:
            sim.run(body)
        finally:
            out.take(sim)
            out.counts["runs-over-limit"] += bool(over)


CHECKS = {c.prop: c() for c in (C01, C02, C03, C04, C05)}
