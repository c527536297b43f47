"""C14, C15, C16, C20, C24: factor estimation, perturbation, factor comparison, the simulator, and worker failures."""
import copy
import datetime
import itertools
import logging
import os
import re

import numpy as np

from dst import core, kernel, patches
from dst.check import Check, KSTUB, STUB, SIMPLE_SIM, close, data, eq, make_sim, q_robust, q_true, sim_params
from dst.choose import Chooser

POOL = ["simulated multiprocessing.Pool behaves as CPython's"]


def quiet(**kw):
    return core.Sim(Chooser(trace=[]), **kw)


def r2(a, b):
    a, b = np.asarray(a, dtype=np.float64).ravel(), np.asarray(b, dtype=np.float64).ravel()
    a, b = a - a.mean(), b - b.mean()
    d = (a @ a) * (b @ b)
    return float((a @ b) ** 2 / d) if d > 0 else float("nan")


class EvalBase(Check):
    stub = STUB + [KSTUB]
    assumptions = POOL + ["small matrices (up to 24x6, 5 factors) and short trainings"]
    simple = {"kernel": "python", "method": "ls-nmf", "scale": 5.0, "twice": False}

    def shrink(self, case):
        yield from super().shrink(case)
        for k, v in SIMPLE_SIM.items():
            if case["sim"].get(k):
                yield dict(case, sim=dict(case["sim"], **{k: v}))
        ops = case.get("ops")
        if ops and len(ops) > 1:
            for i in range(len(ops)):
                yield dict(case, ops=ops[:i] + ops[i + 1:])

    def leaks(self, out, sim, what):
        for p in sim.pools:
            if not p.released():
                out.bad(f"{self.prop}:pool-leak", f"{what}: a worker pool is still open")
                return


class recorded:
    """Notes every SA that finishes a training while the block runs (simulated workers share this process)."""
    def __enter__(self):
        from esat.model.sa import SA
        self.SA, self.real, self.got = SA, SA.train, []
        got, real = self.got, self.real

        def train(sa, *a, **k):
            r = real(sa, *a, **k)
            got.append({f: copy.deepcopy(getattr(sa, f)) for f in ("factors", "V", "U", "W", "H", "WH", "Qtrue",
                                                                    "Qrobust", "seed", "metadata")})
            return r
        SA.train = train
        return self.got

    def __exit__(self, *a):
        self.SA.train = self.real


# ------------------------------------------------------------------ C14
class C14(EvalBase):
    prop = "C14"
    rule = ("a run is a factor search on a simulated pool, compared with a second search under a quiet schedule and with "
            "averages recomputed from every model trained; non-trivial when two or more models were trained")
    runs = {"quick": 1500, "thorough": 30000}
    shrink_ints = {"samples": 1, "m": 8, "max_iter": 1}

    def gen(self, r, tier, i):
        n = r.randint(3, 6)
        lo = r.randint(2, n - 1)
        if r.random() < 0.04:       # enough models that every factor count of the range must come up
            return {"kernel": "python", "dseed": r.randrange(1 << 20), "m": 8, "n": n, "scale": 5.0, "full": True,
                    "seed": r.randrange(1 << 16), "lo": lo, "hi": lo + 1, "samples": 48, "test": 0.1, "coef": 1.0,
                    "max_iter": 1, "twice": False, "cdelta": 1e-6, "sim": sim_params(r, p_line=False)}
        return {"kernel": r.choice(["python", "sim"]), "dseed": r.randrange(1 << 20), "m": r.randint(8, 24), "n": n,
                "scale": r.choice([5.0, 5.0, 500.0]), "seed": r.randrange(1 << 16), "lo": lo,
                "hi": r.randint(lo + 1, n), "samples": r.randint(1, 12), "test": r.choice([0.05, 0.1, 0.1, 0.3, 0.5]),
                "coef": r.choice([1.0, 1.0, 0.5, 2.0]), "max_iter": r.choice([1, 3, 8]), "twice": r.random() < 0.2,
                "cdelta": r.choice([1e-6, 1.0]), "sim": sim_params(r)}

    def search(self, case, V, U, times=1):
        from esat.estimator import FactorEstimator
        e = FactorEstimator(V=V, U=U, seed=case["seed"], test_percent=case["test"], k_coef=case["coef"])
        for _ in range(times):
            with recorded() as rec:
                df = e.run(samples=case["samples"], min_factors=case["lo"], max_factors=case["hi"],
                           max_iterations=case["max_iter"], converge_delta=case["cdelta"], converge_n=3)
        return e, df, rec

    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        V, U = data(case["dseed"], case["m"], case["n"], scale=case["scale"])
        V0, U0 = V.copy(), U.copy()
        times = 2 if case["twice"] else 1
        sim = make_sim(ch, case["sim"])
        e, df, rec = sim.run(lambda: self.search(case, V, U, times))
        out.take(sim)
        out.nontrivial = case["samples"] > 1
        self.leaks(out, sim, "run")
        if not eq(V, V0) or not eq(U, U0):
            out.bad("C14:caller", "the search changed the caller's data")
            return
        _, df2, rec2 = quiet().run(lambda: self.search(case, V, U, times))
        if not self.same(df, df2):
            out.bad("C14:schedule", f"the same seed gives another result under another schedule:\n{df}\n{df2}")
            return
        self.judge(out, case, e, df, rec, V, U)

    def same(self, a, b):
        return list(a.columns) == list(b.columns) and close(a.to_numpy(float), b.to_numpy(float), 1e-5, 1e-9)

    def judge(self, out, case, e, df, rec, V, U):
        ks = list(range(case["lo"], case["hi"] + 1))
        if len(rec) != case["samples"]:
            out.bad("C14:models", f"{len(rec)} models trained instead of {case['samples']}")
            return
        if e.pbar.n != case["samples"]:
            out.bad("C14:models", f"progress counts {e.pbar.n} of {case['samples']} models")
        if list(df["Factors"]) != ks:
            out.bad("C14:rows", f"rows for factor counts {list(df['Factors'])}, searched {ks}")
            return
        U32 = np.asarray(U, dtype=np.float32)
        acc = {k: [] for k in ks}
        hid = tot = 0
        for r in rec:
            k = int(r["factors"])
            if k not in acc:
                out.bad("C14:range", f"a model with {k} factors was trained, the range is {ks[0]}..{ks[-1]}")
                return
            meta = {c: r["metadata"].get(c) for c in ("max_iterations", "converge_delta", "converge_n")}
            if meta != {"max_iterations": case["max_iter"], "converge_delta": case["cdelta"], "converge_n": 3}:
                out.bad("C14:settings", f"a model was trained with {meta}, configured are {case['max_iter']}, "
                                        f"{case['cdelta']} and 3")
                return
            if not np.allclose(np.asarray(r["V"], float), V, rtol=1e-5, atol=1e-7):
                out.bad("C14:data", "a model was trained on other data than the caller's")
                return
            with np.errstate(all="ignore"):
                w = (np.asarray(U32, float) / np.asarray(r["U"], float)) ** 2
            test = w <= 1e-3
            if not np.allclose(w[~test], 1.0, rtol=1e-4):
                out.bad("C14:data", "a model was trained with other uncertainties than the caller's")
                return
            hid += int(test.sum())
            tot += test.size
            s = (V - np.asarray(r["WH"], float)) ** 2
            acc[k].append((s[~test].mean() if (~test).any() else np.nan, s[test].mean() if test.any() else np.nan,
                           float(r["Qtrue"]), float(r["Qrobust"])))
        if case.get("full") and case["samples"] > 40 and not all(acc.values()):
            out.bad("C14:range", f"{case['samples']} models, and none of them with "
                                 f"{[k for k in ks if not acc[k]]} factors; the range is {ks[0]}..{ks[-1]}")
            return
        p = case["test"]
        if abs(hid / tot - p) > 6 * np.sqrt(p * (1 - p) / tot) + 1.0 / tot:
            out.bad("C14:hidden", f"{hid} of {tot} cells were hidden from training, test_percent is {p}")
            return
        want = {c: [] for c in ("Train MSE", "Test MSE", "Q(True)", "Q(Robust)")}
        for k in ks:
            a = np.array(acc[k]).reshape(-1, 4)
            for j, c in enumerate(want):
                x = a[:, j]
                x = x[~np.isnan(x)] if c == "Test MSE" else x
                want[c].append(np.mean(x) if len(x) else np.nan)
        for c, x in want.items():
            if not close(df[c], x, 2e-4, 2e-5):
                out.bad("C14:average", f"{c} is {list(df[c])}; the models trained with each factor count average {x} "
                                       f"({[len(acc[k]) for k in ks]} models)")
                return
        t = np.array(df["Test MSE"], dtype=float)
        with np.errstate(all="ignore"):
            d = t[:-1] - t[1:]
            kest = np.nanmin(t) / (t * np.power(np.array(ks, dtype=float), case["coef"]))
            ratio = np.concatenate([[np.nan], 1.01 * (np.nanmax(d) if not np.isnan(d).all() else np.nan) *
                                    (d[:-1] / d[1:]), [np.nan]])
        for c, x in (("Delta MSE", np.concatenate([[np.nan], d])), ("K Estimate", kest), ("Delta Ratio", ratio)):
            if not close(df[c], x, 1e-5, 1e-9):
                out.bad("C14:derived", f"{c} is {list(df[c])}, from the table's Test MSE it is {list(x)}")
                return
        est = e.estimated_factor
        if np.isnan(kest).all():
            ok = est == -1
        else:
            ok = est in ks and kest[est - ks[0]] >= np.nanmax(kest) * (1 - 1e-9)
        if not ok:
            out.bad("C14:estimate", f"estimated factor count {est}; K estimates {dict(zip(ks, kest))}")


# ------------------------------------------------------------------ C15
class C15(EvalBase):
    prop = "C15"
    rule = ("a run is a perturbation analysis on a simulated pool; every perturbed model is trained again alone from its "
            "recorded perturbation and the whole is compared with a quiet run; non-trivial with two or more models")
    runs = {"quick": 1200, "thorough": 25000}
    shrink_ints = {"models": 1, "m": 8, "max_iter": 1}

    def gen(self, r, tier, i):
        n = r.randint(3, 5)
        lst = r.random() < 0.3
        return {"kernel": r.choice(["python", "sim"]), "dseed": r.randrange(1 << 20), "m": r.randint(8, 20), "n": n,
                "k": r.randint(2, min(4, n)), "method": r.choice(["ls-nmf", "ls-nmf", "ws-nmf"]), "scale": 5.0,
                "seed": r.randrange(1 << 16), "models": r.randint(1, 7), "base": r.random() < 0.6,
                "p": [r.choice([0.0, 0.3, 0.7, 1.0]) for _ in range(n)] if lst else r.choice([0.0, 0.3, 0.5, 1.0, 1.0]),
                "sigma": [r.choice([0.05, 0.33, 1.0]) for _ in range(n)] if lst else r.choice([0.05, 0.33, 1.0]),
                "max_iter": r.choice([1, 4, 12]), "cdelta": r.choice([1e-6, 0.1]), "twice": r.random() < 0.2,
                "compare": r.choice([None, "raae", "emc", "corr"]), "shuffle": r.random() < 0.4, "sim": sim_params(r)}

    def make(self, case, V, U):
        from esat.model.sa import SA
        from esat_eval.perturbation import Perturbation
        base = None
        if case["base"]:
            base = SA(V=V, U=U, factors=case["k"], method=case["method"], seed=case["seed"], verbose=False)
            base.initialize()
            base.train(max_iter=10, converge_delta=1e-6, converge_n=5)
        p = Perturbation(V, U, case["k"], base_model=base, method=case["method"], random_seed=case["seed"],
                         perturb_percent=case["p"], sigma=case["sigma"], models=case["models"],
                         max_iterations=case["max_iter"], converge_n=3, converge_delta=case["cdelta"])
        return base, p

    F = ("V", "U", "W", "H", "WH", "Qtrue", "Qrobust", "q_list", "converged", "converge_steps", "seed", "model_i")

    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        V, U = data(case["dseed"], case["m"], case["n"], scale=case["scale"])
        if case["dseed"] % 3 == 0:
            U[0, 0] = 0.0 if case["dseed"] % 2 else U[0, 0]
        V0, U0 = V.copy(), U.copy()
        sim = make_sim(ch, case["sim"])
        base, p = quiet().run(lambda: self.make(case, V, U))
        if base is not None and (base.Qtrue is None or not np.isfinite(float(base.Qtrue))):
            out.counts["untrainable-data"] += 1
            return
        snap = {f: copy.deepcopy(getattr(base, f)) for f in self.F} if base is not None else None
        sim.run(p.run)
        out.take(sim)
        out.nontrivial = case["models"] > 1
        self.leaks(out, sim, "run")
        _, q = quiet().run(lambda: self.make(case, V0.copy(), U0.copy()))
        quiet().run(q.run)
        if not eq(V, V0) or not eq(U, U0):
            out.bad("C15:caller", "the analysis changed the caller's data")
            return
        if snap is not None and not all(eq(snap[f], getattr(base, f)) for f in self.F):
            out.bad("C15:base", "the analysis changed the base model")
            return
        if len(p.perturbed_models) != case["models"] or len(p.perturbed_multipliers) != case["models"]:
            out.bad("C15:count", f"{len(p.perturbed_models)} models for {case['models']} perturbations")
            return
        for i, (a, b) in enumerate(zip(p.perturbed_models, q.perturbed_models)):
            for f in self.F:
                if not eq(getattr(a, f), getattr(b, f)):
                    out.bad("C15:schedule", f"model {i}: {f} differs from a run with the same seed under another "
                                            f"schedule")
                    return
        quiet().run(lambda: self.judge(out, case, p, V, U))
        if out.violations or not all(np.isfinite(m.H).all() and np.isfinite(m.W).all() for m in
                                     p.perturbed_models + [p.base_model]):
            return
        if case["shuffle"]:         # perturbed models whose factors come in another order
            rng = np.random.default_rng(case["dseed"])
            for m in p.perturbed_models:
                o = rng.permutation(case["k"])
                m.H, m.W = m.H[o], m.W[:, o]
        quiet().run(lambda: p.compare(case["compare"]))
        self.mapping(out, case, p)
        if not case["twice"] or out.violations:
            return
        # the same object once more: nothing of the first analysis may show in the second
        old = [int(m.seed) for m in p.perturbed_models]
        quiet().run(p.run)
        self.leaks(out, sim, "run")
        if len(p.perturbed_models) != case["models"] or len(p.perturbed_multipliers) != case["models"]:
            out.bad("C15:count", f"{len(p.perturbed_models)} models for {case['models']} perturbations in a second run")
            return
        if case["models"] > 2 and old == [int(m.seed) for m in p.perturbed_models]:
            out.counts["second-run-repeats-the-first"] += 1
        quiet().run(lambda: self.judge(out, case, p, V, U))
        if out.violations or not all(np.isfinite(m.H).all() and np.isfinite(m.W).all() for m in p.perturbed_models):
            return
        quiet().run(lambda: p.compare(case["compare"]))
        self.mapping(out, case, p)

    def judge(self, out, case, p, V, U):
        from esat.model.sa import SA
        n, N = case["n"], case["models"]
        base = p.base_model
        seeds = [int(m.seed) for m in p.perturbed_models]
        if len(set(seeds)) < N - 1:
            out.bad("C15:seeds", f"perturbation seeds {seeds}")
            return
        for i, m in enumerate(p.perturbed_models):
            u, mult = p.perturb(m.seed)
            if not eq(mult, p.perturbed_multipliers[i]):
                out.bad("C15:multiplier", f"the multipliers listed for model {i} are not those of its perturbation")
                return
            if not eq(np.asarray(m.U), np.asarray(u, dtype=np.asarray(m.U).dtype)):
                out.bad("C15:uncertainty", f"model {i} was not trained with its own perturbed uncertainty")
                return
            want = np.where(U * mult <= 0.0, 1e-12, U * mult)
            if not np.allclose(u, want, rtol=1e-12, atol=0):
                out.bad("C15:product", f"model {i}: the perturbed uncertainty is not the uncertainty times its "
                                       f"multipliers")
                return
            ref = SA(V=V.copy(), U=u, factors=case["k"], method=base.method, seed=m.seed, verbose=False)
            ref.initialize(H=np.array(base.H), W=np.array(base.W))
            ref.train(max_iter=case["max_iter"], converge_delta=case["cdelta"], converge_n=3, model_i=i)
            for f in ("W", "H", "WH", "Qtrue", "Qrobust", "q_list"):
                if not eq(getattr(ref, f), getattr(m, f)):
                    out.bad("C15:model", f"model {i}: {f} differs from the model trained alone with its perturbation")
                    return
        # the perturbation as configured
        mult = np.concatenate([p.perturb(s)[1] for s in range(1000, 1040)])
        M = mult.shape[0]
        for j in range(n):
            pj = case["p"][j] if isinstance(case["p"], list) else case["p"]
            sj = case["sigma"][j] if isinstance(case["sigma"], list) else case["sigma"]
            x = mult[:, j]
            frac = np.mean(x != 1.0)
            if abs(frac - pj) > 6 * np.sqrt(pj * (1 - pj) / M) + (1.0 / M if 0 < pj < 1 else 0):
                out.bad("C15:percent", f"feature {j}: {frac:.3f} of the cells are perturbed, configured {pj}")
                return
            z = np.log(x[x != 1.0]) / sj
            if len(z) >= 30:
                if abs(z.mean()) > 6 / np.sqrt(len(z)) or abs(z.std() - 1) > 6 / np.sqrt(2 * len(z)):
                    out.bad("C15:sigma", f"feature {j}: log multipliers have mean {z.mean() * sj:.3f} and deviation "
                                         f"{z.std() * sj:.3f}, configured sigma {sj}")
                    return
        if N > 1 and 0 < np.min(case["p"]) and len({m.tobytes() for m in p.perturbed_multipliers}) < N - 1:
            out.bad("C15:seeds", "several models share one perturbation")

    def mapping(self, out, case, p):
        how = (case["compare"] or "raae")
        k = case["k"]
        W0, H0 = np.asarray(p.base_model.W, float), np.asarray(p.base_model.H, float)
        for i, m in enumerate(p.perturbed_models):
            W, H = np.asarray(m.W, float), np.asarray(m.H, float)
            if how == "raae":
                M = np.array([[np.abs(W[:, b] - W0[:, a]).sum() / W0[:, a].sum() for b in range(k)] for a in range(k)])
            elif how == "corr":
                M = np.array([[r2(W0[:, a], W[:, b]) for b in range(k)] for a in range(k)])
            else:
                M = np.array([[r2(H0[a], H[b]) for b in range(k)] for a in range(k)])
            if np.isnan(M).any():
                return
            mp = [int(x) for x in p.perturb_mapping[i]]
            if sorted(mp) != list(range(k)):
                out.bad("C15:mapping", f"model {i} ({how}): mapping {mp} is not one-to-one")
                return
            got = sum(M[a, mp[a]] for a in range(k))
            tots = [sum(M[a, s[a]] for a in range(k)) for s in itertools.permutations(range(k))]
            best = min(tots) if how == "raae" else max(tots)
            if abs(got - best) > 1e-3 * max(1.0, abs(best)):
                out.bad("C15:mapping", f"model {i} ({how}): mapping {mp} has total {got:.5f}, the best has {best:.5f}")
                return
            vals = [float(x) for x in p.perturb_correlations[i]]
            if not close(vals, [M[a, mp[a]] for a in range(k)], 1e-3, 2e-4):
                out.bad("C15:values", f"model {i} ({how}): the values {vals} are not those of its mapping {mp}")
                return
            with np.errstate(all="ignore"):
                Hn, Wn = H / H.sum(axis=0), (W.T / W.T.sum(axis=0)).T
            if not close(p.perturb_H[:, :, i], Hn[mp], 1e-4, 1e-6) or not close(p.perturb_W[:, :, i], Wn[:, mp].T,
                                                                               1e-4, 1e-6):
                out.bad("C15:tables", f"model {i}: the collected profiles and contributions do not follow its mapping")
                return
        h = p.perturb_H[1]
        if not close(p.perturbed_H_df["Mean Perturb"], h.mean(axis=1), 1e-5, 1e-6) or \
                not close(p.perturbed_H_df["Max Perturb"], h.max(axis=1), 1e-5, 1e-6) or \
                not close(p.perturbed_H_df["Min Perturb"], h.min(axis=1), 1e-5, 1e-6):
            out.bad("C15:tables", "the summary of the perturbed profiles is not that of the collected profiles")
        q = np.mean([np.percentile(m, [1, 25, 50, 75, 99]) for m in p.perturbed_multipliers], axis=0)
        if not close([p.multiplier_stats[c] for c in ("first", "25th", "50th", "75th", "99th")], q, 1e-9, 1e-12):
            out.bad("C15:tables", "the multiplier statistics are not those of the multipliers")


# ------------------------------------------------------------------ C16
class C16(EvalBase):
    prop = "C16"
    rule = ("a run compares a batch of models (some missing, some with permuted factors) with a known base on a simulated "
            "pool and against a brute-force reference over all permutations; non-trivial with two or more models")
    runs = {"quick": 1200, "thorough": 25000}
    shrink_ints = {"models": 1, "m": 6, "bk": 2, "sk": 2}

    def gen(self, r, tier, i):
        n = r.randint(3, 6)
        bk, sk, models = r.randint(2, 4), r.randint(2, 4), r.randint(1, 5)
        if r.random() < 0.06:       # many permutations: whatever is done in blocks is done in several
            bk, sk, models = r.choice([(6, 6), (5, 6), (6, 5), (5, 5), (6, 4)]) + (r.randint(1, 2),)
        return {"kernel": "python", "method": "ls-nmf", "scale": 5.0, "dseed": r.randrange(1 << 20),
                "m": r.randint(6, 20), "n": n, "bk": bk, "sk": sk, "models": models,
                "how": r.choice(["all", "all", "H", "W", "WH", "other"]), "missing": r.random() < 0.3,
                "perfect": r.random() < 0.3, "close": r.random() < 0.3, "source": r.choice(["frames"] * 4 + ["pmf", "file"]),
                "verbose": r.random() < 0.5, "twice": False, "sim": sim_params(r)}

    def models(self, case, V, U):
        from esat.model.sa import SA
        from esat.model.batch_sa import BatchSA
        rng = np.random.default_rng(case["dseed"] + 7)
        bk, sk, m, n = case["bk"], case["sk"], case["m"], case["n"]
        W0, H0 = rng.gamma(2.0, 1.0, (m, bk)), rng.gamma(1.0, 1.0, (bk, n)) + 0.01
        b = BatchSA(V=V, U=U, factors=sk, models=case["models"], seed=3, verbose=False)
        b.results = []
        for i in range(case["models"]):
            sa = SA(V=V, U=U, factors=sk, seed=i + 1, verbose=False)
            W, H = rng.gamma(2.0, 1.0, (m, sk)), rng.gamma(1.0, 1.0, (sk, n)) + 0.01
            o = rng.permutation(bk)[:sk]
            s = 0.0 if case["perfect"] and i == case["models"] // 2 else rng.choice([0.05, 0.5, 3.0])
            if case["close"]:
                s = 0.02 * (1 + rng.random())
            for a, j in enumerate(o):
                W[:, a] = W0[:, j] * rng.lognormal(0, s, m)
                H[a] = H0[j] * rng.lognormal(0, s, n)
            sa.W, sa.H = W, H
            sa.WH = W @ H
            sa.Qtrue = q_true(V, U, W, H)
            b.results.append(sa)
        if case["missing"] and case["models"] > 1:
            b.results[int(rng.integers(0, case["models"]))] = None
        b.best_model = next(i for i, x in enumerate(b.results) if x is not None)
        return W0, H0, b

    def make(self, case, V, U, W0, H0, b, scratch):
        import pandas as pd
        from esat_eval.factor_comparison import FactorCompare
        feats = [f"Feature {j + 1}" for j in range(case["n"])]
        fac = [f"Factor {j + 1}" for j in range(case["bk"])]
        idf, udf = pd.DataFrame(V, columns=feats), pd.DataFrame(U, columns=feats)
        if case["source"] == "pmf":
            p1, p2 = os.path.join(scratch, "profiles.txt"), os.path.join(scratch, "contributions.txt")
            with open(p1, "w") as f:
                f.write("Factor Profiles (conc.) from Base Run #1\n")
                f.write("\t".join(["", ""] + fac) + "\n")
                for t in range(3):
                    for j, name in enumerate(feats):
                        f.write("\t".join(["1", name] + [repr(float(x) * (1, 10, 100)[t]) for x in H0[:, j]]) + "\n")
                    f.write("\n")
            with open(p2, "w") as f:
                f.write("Factor Contributions\n\nBase Run #1\n")
                f.write("\t".join(["", ""] + fac) + "\n")
                for i in range(case["m"]):
                    f.write("\t".join(["1", f"01/{i + 1:02d}/20"] + [repr(float(x)) for x in W0[i]]) + "\n")
            c = FactorCompare.load_pmf_output(case["bk"], idf, udf, p1, p2, b)
            if case["how"] in ("H", "W", "WH"):
                c.method = case["how"]
            return c
        hdf, wdf = pd.DataFrame(H0.T, columns=fac), pd.DataFrame(W0, columns=fac)
        if case["source"] == "file":
            path = b.save(batch_name="b", output_directory=scratch)
            return FactorCompare(idf, udf, hdf, wdf, batch_sa=None, sa_output_file=path, method=case["how"])
        return FactorCompare(idf, udf, hdf, wdf, batch_sa=b, method=case["how"])

    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        V, U = data(case["dseed"], case["m"], case["n"])
        W0, H0, b = quiet().run(lambda: self.models(case, V, U))
        keep = copy.deepcopy((V, U, W0, H0))
        prints = [None if s is None else (s.W.copy(), s.H.copy(), s.WH.copy()) for s in b.results]
        sim = make_sim(ch, case["sim"])
        lines = []

        class H(logging.Handler):
            def emit(self, rec):
                lines.append(rec.getMessage())
        lg = logging.getLogger("esat_eval.factor_comparison")
        h = H()
        off, lvl = logging.root.manager.disable, lg.level
        logging.disable(logging.NOTSET)
        lg.setLevel(logging.INFO)
        lg.addHandler(h)
        try:
            def body():
                c = self.make(case, V, U, W0, H0, b, scratch)
                c.compare(verbose=case["verbose"])
                return c
            c = sim.run(body)
        finally:
            lg.removeHandler(h)
            lg.setLevel(lvl)
            logging.disable(off)
        out.take(sim)
        out.nontrivial = case["models"] > 1
        self.leaks(out, sim, "compare")
        q = quiet().run(lambda: self.make(case, V, U, W0, H0, b, scratch))
        quiet().run(lambda: q.compare(verbose=False))
        for f in ("best_model", "factor_map", "best_avg_r", "best_factor_r", "best_contribution_r", "best_wh_r",
                  "model_results"):
            if not eq(getattr(c, f), getattr(q, f)):
                out.bad("C16:schedule", f"{f} depends on the schedule: {getattr(c, f)} vs {getattr(q, f)}")
                return
        if not eq(keep, (V, U, W0, H0)) or any(p is not None and not eq(p, (s.W, s.H, s.WH))
                                               for p, s in zip(prints, b.results)):
            out.bad("C16:inputs", "the comparison changed the data or the models")
            return
        self.judge(out, case, c, W0, H0, b)
        if case["verbose"] and not out.violations:
            base_q = [float(x) for ln in lines for x in re.findall(r"Base Q\(true\): ([-\d.einfa+]+)", ln)]
            want = q_true(V, U, W0, H0)
            if not base_q or not close(base_q[0], want, 1e-4):
                out.bad("C16:report", f"the report shows Q(true) {base_q} for the base, it is {want}")

    def judge(self, out, case, c, W0, H0, b):
        bk, sk = case["bk"], case["sk"]
        how = case["how"] if case["how"] in ("H", "W", "WH") else "all"
        n = min(bk, sk)
        best = {}
        for i, sa in enumerate(b.results):
            if sa is None:
                if i in c.model_results:
                    out.bad("C16:missing", f"a result is reported for model {i}, which failed")
                    return
                continue
            RH = np.array([[r2(H0[a], sa.H[x]) for x in range(sk)] for a in range(bk)])
            RW = np.array([[r2(W0[:, a], sa.W[:, x]) for x in range(sk)] for a in range(bk)])
            RP = np.array([[r2(np.outer(W0[:, a], H0[a]), np.outer(sa.W[:, x], sa.H[x])) for x in range(sk)]
                           for a in range(bk)])
            score = {"H": RH, "W": RW, "WH": RP, "all": (RH + RW + RP) / 3}[how]
            pairs = [[(p[x], x) for x in range(n)] for p in itertools.permutations(range(bk), n)] if bk >= sk else \
                    [[(x, p[x]) for x in range(n)] for p in itertools.permutations(range(sk), n)]
            top = max(np.mean([score[a, x] for a, x in pr]) for pr in pairs)
            best[i] = top
            r = c.model_results.get(i)
            if r is None:
                out.bad("C16:missing", f"no result is reported for model {i}")
                return
            names = list(r["factor_map"])
            if len(set(names)) != n or len(names) != n:
                out.bad("C16:mapping", f"model {i}: the mapping {names} is not one-to-one")
                return
            mp = [int(s.split()[-1]) - 1 for s in names]
            pr = [(mp[x], x) if bk >= sk else (x, mp[x]) for x in range(n)]
            for what, R, lst, avg in (("profile", RH, "best_factor_r", "best_factor_r_avg"),
                                      ("contribution", RW, "best_contribution_r", "best_contribution_r_avg"),
                                      ("product", RP, "best_wh_r", "best_wh_r_avg")):
                want = [R[a, x] for a, x in pr]
                if not close(r[lst], want, 1e-6, 1e-9) or not close(r[avg], np.mean(want), 1e-6, 1e-9):
                    out.bad("C16:values", f"model {i}: the {what} correlations {r[lst]} (average {r[avg]}) are not those "
                                          f"of its mapping {names}: {want}")
                    return
            if not close(r["best_avg_r"], np.mean([score[a, x] for a, x in pr]), 1e-6, 1e-9) or \
                    r["best_avg_r"] < top - 1e-9:
                out.bad("C16:best-mapping", f"model {i}: mapping {names} has average {r['best_avg_r']}, the best "
                                            f"mapping has {top}")
                return
            d = c.sa_model_dfs[i]
            if not close(d["WH"].to_numpy(), sa.WH, 1e-9) or not close(d["W"].to_numpy(), sa.W, 1e-9) or \
                    not close(d["H"].to_numpy(), sa.H, 1e-9):
                out.bad("C16:tables", f"model {i}: the W, H and WH tables are not those of the model")
                return
            if c.sa_Q[i] != sa.Qtrue:
                out.bad("C16:tables", f"model {i}: Q {c.sa_Q[i]} instead of {sa.Qtrue}")
                return
        top = max(best.values())
        if c.best_model not in best or best[c.best_model] < top - 1e-9 or abs(c.best_avg_r - top) > 1e-9:
            out.bad("C16:best-model", f"model {c.best_model} is reported best with {c.best_avg_r}; averages are {best}")
            return
        r = c.model_results[c.best_model]
        if not eq(list(c.factor_map), list(r["factor_map"])) or not eq(list(c.best_factor_r), list(r["best_factor_r"])) \
                or not eq(list(c.best_contribution_r), list(r["best_contribution_r"])) or \
                not eq(list(c.best_wh_r), list(r["best_wh_r"])):
            out.bad("C16:best-model", "the best mapping and correlations are not those of the best model")
        if not close([c.best_factor_r_avg, c.best_contribution_r_avg, c.best_wh_r_avg],
                     [r["best_factor_r_avg"], r["best_contribution_r_avg"], r["best_wh_r_avg"]], 1e-9):
            out.bad("C16:best-model", "the best averages are not those of the best model")
        bwh = np.asarray(c.base_V_estimate, float)
        if not close(bwh, W0 @ H0, 1e-6):
            out.bad("C16:tables", "the base estimate is not the product of the base factors")


# ------------------------------------------------------------------ C20
CURVES = ["uniform", "increasing", "decreasing", "logistic", "periodic"]


class C20(EvalBase):
    prop = "C20"
    rule = ("a run carries out one sequence of simulator calls twice, under two different clocks with jumps; non-trivial "
            "when the sequence has two or more calls")
    runs = {"quick": 3000, "thorough": 60000}
    assumptions = ["a dataset is a function of the seed, the parameters and the sequence of calls made; the dates in its "
                   "index follow the clock", "two to six factors, up to 300 samples, curve frequency at most 1"]
    shrink_ints = {"m": 2, "n": 2, "k": 2}

    def gen(self, r, tier, i):
        k = r.randint(2, 5)
        ops = []
        for _ in range(r.randint(1, 5)):
            o = r.random()
            if o < 0.5:
                ops.append({"do": "get"})
            elif o < 0.8:
                lo, hi = sorted((r.choice([0.1, 0.5, 1.0, 3.0]), r.choice([0.5, 1.0, 5.0])))
                ops.append({"do": "curve", "factor": r.randrange(k), "curve": r.choice(CURVES), "scale":
                            r.choice([0.01, 0.1, 1.0]), "freq": r.choice([1.0, 0.5, 0.3, 0.1, 0.05]), "lo": lo, "hi": hi,
                            "swap": r.random() < 0.2})
            elif o < 0.9:
                ops.append({"do": "profiles", "custom": r.choice([None, "all", "all", "part"])})
            else:
                ops.append({"do": "save"})
        ops.append({"do": "get"})
        nounc = r.random() < 0.1
        return {"kernel": "python", "method": "ls-nmf", "scale": 5.0, "twice": False, "seed": r.randrange(1 << 20),
                "m": r.choice([2, 5, 12, 30, 100, 300]), "n": r.randint(2, 8), "k": k, "outliers": r.random() < 0.5,
                "outlier_p": r.choice([0.0, 0.1, 0.5, 1.0]), "mag": r.choice([2.0, 5.0]), "cmax": r.choice([1, 10, 50]),
                "noise": sorted([r.choice([0.0, 0.1, 0.2]), r.choice([0.1, 0.12, 0.3])]),
                "nscale": r.choice([0.0, 0.02, 0.1]), "unc": [0.0, 0.0] if nounc else
                sorted([r.choice([0.05, 0.1]), r.choice([0.05, 0.2])]),
                "uscale": 0.0 if nounc else r.choice([0.0, 0.01]), "ops": ops,
                "start": [r.choice([1_700_000_000.0, 1_709_164_790.0, 1_709_251_199.5, 1_735_689_599.999, 951_782_399.0])
                          + r.choice([0.0, r.random() * 86400]) for _ in range(2)],
                "verbose": r.random() < 0.1, "sim": sim_params(r, jumps=True)}

    def work(self, case, scratch, tag):
        from esat_eval.simulator import Simulator
        s = Simulator(seed=case["seed"], factors_n=case["k"], features_n=case["n"], samples_n=case["m"],
                      outliers=case["outliers"], outlier_p=case["outlier_p"], outlier_mag=case["mag"],
                      contribution_max=case["cmax"], noise_mean_min=case["noise"][0], noise_mean_max=case["noise"][1],
                      noise_scale=case["nscale"], uncertainty_mean_min=case["unc"][0],
                      uncertainty_mean_max=case["unc"][1], uncertainty_scale=case["uscale"], verbose=case["verbose"])
        t0 = core.active().now_wall() if hasattr(core.active(), "now_wall") else None
        log, bad = [], []
        first = (s.syn_profiles.copy(), s.syn_contributions.copy())
        log.append(first)
        if first[0].shape != (case["k"], case["n"]) or first[1].shape != (case["m"], case["k"]):
            bad.append(("shape", f"profiles {first[0].shape}, contributions {first[1].shape}"))
        elif (first[0] < 1e-12).any() or (first[0] >= 1.0).any() or ((first[0] > 1e-9).sum(axis=0) < 1).any():
            bad.append(("profiles", "a feature without a contributing factor, or profile values outside (0, 1)"))
        elif (first[1] < 0).any() or (first[1] > case["cmax"]).any():
            bad.append(("contributions", f"contributions outside 0..{case['cmax']}"))
        rng = np.random.default_rng(case["seed"] + 1)
        for i, op in enumerate(case["ops"]):
            W, H = s.syn_contributions.copy(), s.syn_profiles.copy()
            if op["do"] == "get":
                d, u = s.get_data()
                log.append((d.to_numpy(), u.to_numpy(), list(d.columns), list(u.columns)))
                bad += self.dataset(case, s, d, u, W, H)
            elif op["do"] == "curve":
                a, b = (op["hi"], op["lo"]) if op["swap"] else (op["lo"], op["hi"])
                s.update_contribution(op["factor"], op["curve"], scale=op["scale"], frequency=op["freq"], maximum=b,
                                      minimum=a)
                bad += self.curve(case, s, op, W)
                if not eq(s.syn_profiles, H):
                    bad.append(("update", "updating a contribution changed the profiles"))
            elif op["do"] == "profiles":
                P = None
                if op["custom"]:
                    rows = case["k"] if op["custom"] == "all" else max(1, case["k"] - 1)
                    P = rng.random((rows, case["n"]))
                    P[rng.random(P.shape) < 0.2] = 0.0
                keep = copy.deepcopy(P)
                s.generate_profiles(P)
                if P is not None:
                    if not eq(P, keep):
                        bad.append(("caller", "generate_profiles changed the caller's profiles"))
                    elif not eq(s.syn_profiles[:len(P)], np.where(keep <= 0, 1e-12, keep)):
                        bad.append(("custom", "the custom profiles are not used"))
                    elif s.syn_profiles is P:
                        bad.append(("caller", "the simulator keeps the caller's array"))
                if not eq(s.syn_contributions, W):
                    bad.append(("update", "generating profiles changed the contributions"))
            else:
                d = os.path.join(scratch, tag)
                os.makedirs(d, exist_ok=True)
                had = s.syn_data is not None
                before = (s.syn_data, s.syn_uncertainty)
                if s.save("syn", d) is not True:
                    bad.append(("save", "save did not report success"))
                elif had and not (s.syn_data is before[0] or eq(s.syn_data, before[0])):
                    bad.append(("save", "saving generated another dataset"))
                else:
                    t = Simulator.load(os.path.join(d, "esat_simulator.pkl"))
                    if t is None or not eq((t.syn_data, t.syn_uncertainty, t.syn_profiles, t.syn_contributions),
                                           (s.syn_data, s.syn_uncertainty, s.syn_profiles, s.syn_contributions)):
                        bad.append(("save", "the saved simulator does not load back with the same data"))
                    else:
                        s = t               # go on with the loaded one: the rest of the history must not differ
            log.append((s.syn_profiles.copy(), s.syn_contributions.copy()))
        return log, bad

    def curve(self, case, s, op, W):
        y = s.syn_contributions[:, op["factor"]]
        if np.shape(s.syn_contributions) != W.shape:
            return [("shape", f"contributions {np.shape(s.syn_contributions)} after an update")]
        o = np.delete(s.syn_contributions, op["factor"], axis=1)
        if not eq(o, np.delete(W, op["factor"], axis=1)):
            return [("update", f"updating factor {op['factor']} changed another factor's contributions")]
        if not (y > 0).all():
            return [("positive", "a contribution is not positive")]
        lo, hi = min(op["lo"], op["hi"]), max(op["lo"], op["hi"])
        if lo == hi:
            hi = 2 * hi
        m, sc = case["m"], op["scale"]
        if op["curve"] == "uniform":
            want = None
        elif op["curve"] == "increasing":
            want = np.linspace(lo, hi, m)
        elif op["curve"] == "decreasing":
            want = np.linspace(hi, lo, m)
        else:
            want = None
        if want is not None and np.abs(np.maximum(y, 0) - np.maximum(want, 0)).max() > 7 * sc + 1e-9 and \
                (np.abs(y - want) > 7 * sc + 1e-9)[want - 7 * sc > 0].any():
            return [("curve", f"the {op['curve']} curve is not followed within its scale")]
        if want is None:
            low = 0.0 if op["curve"] == "uniform" else lo
            if y.max() > hi + 7 * sc or y.min() < low - 7 * sc - 1e-9:
                return [("curve", f"{op['curve']} contributions {y.min():.3f}..{y.max():.3f} for a range of {low}..{hi} "
                                  f"and scale {sc}")]
        return []

    def dataset(self, case, s, d, u, W, H):
        m, n = case["m"], case["n"]
        bad = []
        if d.shape != (m, n) or u.shape != (m, n):
            return [("shape", f"data {d.shape}, uncertainty {u.shape} for {m} samples of {n} features")]
        D, E = d.to_numpy(), u.to_numpy()
        if not (D > 0).all() or not (E > 0).all():
            return [("positive", "a value of the data or uncertainty is not positive")]
        if not eq(s.syn_contributions, W) or not eq(s.syn_profiles, H):
            return [("update", "generating the data changed the factors")]
        ix = d.index
        if len(ix) != m or not (ix == u.index).all() or (m > 1 and not
                                                         (np.diff(ix.to_numpy()) == np.timedelta64(60, "s")).all()):
            return [("index", "the samples are not one minute apart, or data and uncertainty have other times")]
        WH = W @ H
        big = WH > 1e-9
        ratio = D[big] / WH[big]
        tol = case["noise"][1] + 7 * case["nscale"]
        lev = [1.0]
        if case["outliers"] and case["outlier_p"] > 0:
            lev += [case["mag"], 1.0 / case["mag"]]
        ok = np.zeros(ratio.shape, dtype=bool)
        for x in lev:
            ok |= np.abs(ratio / x - 1) <= tol + 1e-9
        if tol < 0.9 and not ok.all():
            return [("noise", f"data deviates from the product of its factors by a factor {ratio[~ok][0]:.3f}; noise up "
                              f"to {tol:.2f}, outliers {lev[1:]}")]
        if case["outliers"] and tol < 0.3 and ratio.size >= 200:
            frac = np.mean(np.abs(ratio - 1) > tol + 1e-9)
            p = case["outlier_p"]
            if abs(frac - p) > 6 * np.sqrt(p * (1 - p) / ratio.size) + 1e-6:
                return [("outliers", f"{frac:.3f} of the data are outliers, requested {p}")]
        e = E[big] / D[big]
        lo, hi = case["unc"][0] - 7 * case["uscale"], case["unc"][1] + 7 * case["uscale"]
        if lo > 0 and ((e < lo - 1e-9) | (e > hi + 1e-9)).any():
            return [("uncertainty", f"uncertainty is {e.min():.3f}..{e.max():.3f} of the data, requested {case['unc']}")]
        sa = s.syn_sa
        if not eq(np.asarray(sa.W), W) or not eq(np.asarray(sa.H), H) or not close(sa.WH, WH, 1e-9) or \
                not close(sa.V, D, 1e-5, 1e-9) or not close(sa.U, E, 1e-5, 1e-9):
            return [("sa", "the synthetic model does not hold the synthetic factors and data")]
        V32, U32 = np.asarray(sa.V, float), np.asarray(sa.U, float)
        if not close(float(np.asarray(sa.Qtrue)), q_true(V32, U32, W, H), 1e-3, 1e-3):
            return [("sa", f"the synthetic model's Q(true) is {sa.Qtrue}, it is {q_true(V32, U32, W, H)}")]
        if np.ndim(sa.Qrobust) != 0 or not close(float(sa.Qrobust), q_robust(V32, U32, W, H), 1e-3, 1e-3):
            return [("sa", f"the synthetic model's Q(robust) is {str(sa.Qrobust)[:60]}")]
        if not close(s.syn_profiles_df.to_numpy(), H.T, 1e-12) or not close(s.syn_contributions_df.to_numpy(), W, 1e-12):
            return [("frames", "the factor tables do not hold the factors")]
        return bad

    def run(self, case, ch, out, scratch):
        patches.set_kernel("python")
        logs = []
        for t in (0, 1):
            if t == 0:
                sim = make_sim(ch, case["sim"], start_wall=case["start"][0])
            else:
                sim = core.Sim(Chooser(trace=[]), start_wall=case["start"][1])
            np.random.seed(t)
            log, bad = sim.run(lambda: self.work(case, scratch, f"d{t}"))
            if t == 0:
                out.take(sim)
            for sig, msg in bad[:1]:
                out.bad("C20:" + sig, msg)
                return
            logs.append(log)
        out.nontrivial = len(case["ops"]) > 1
        for i, (a, b) in enumerate(zip(*logs)):
            if not eq(a, b):
                out.bad("C20:clock", f"entry {i} of the history differs between two runs with the same seed and another "
                                     f"clock")
                return


# ------------------------------------------------------------------ C24
class C24(EvalBase):
    prop = "C24"
    rule = ("a run carries out one of six parallel analyses on a simulated machine with 1 to 64 CPUs, with or without "
            "failing workers, and then again on the same object without faults; non-trivial when a fault fired or the "
            "pool had more than one worker")
    runs = {"quick": 1500, "thorough": 30000}
    KINDS = ["bootstrap", "displacement", "bsdisp", "estimator", "perturbation", "compare"]
    shrink_ints = {"m": 8, "size": 1}
    simple = dict(EvalBase.simple, fault=None)

    def gen(self, r, tier, i):
        c = {"kind": self.KINDS[i % 6], "kernel": r.choice(["python", "sim"]), "dseed": r.randrange(1 << 20),
             "m": r.randint(8, 14), "n": r.randint(3, 4), "k": 2, "method": r.choice(["ls-nmf", "ws-nmf"]), "scale": 5.0,
             "twice": False, "size": r.randint(1, 5), "cores": r.choice([-1, -1, 1, 2, 3, 100]),
             "fault": r.choice([None, None, "worker-oom", "worker-oserror", "worker-oom", "line-oom"]),
             "p": r.choice([0.1, 0.3, 1.0]), "line": r.randrange(1, 300), "sim": sim_params(r)}
        c["sim"]["cpu_count"] = r.choice([1, 1, 2, 3, 4, 8, 64])
        if r.random() < 0.02:
            c["fault"] = "worker-death"
        return c

    def make(self, case):
        from esat.model.sa import SA
        V, U = data(case["dseed"], case["m"], case["n"])
        k = case["kind"]
        lab = [f"f{j}" for j in range(case["n"])]
        sa = SA(V=V, U=U, factors=2, method=case["method"], seed=1, verbose=False)
        sa.initialize()
        sa.train(max_iter=15, converge_delta=1e-6, converge_n=5)
        sa.metadata["max_iterations"] = 3
        if k in ("bootstrap", "bsdisp"):
            from esat.error.bootstrap import Bootstrap
            b = Bootstrap(sa=sa, feature_labels=lab, model_selected=0, bootstrap_n=case["size"], block_size=2, seed=5,
                          parallel=k == "bootstrap", cpus=case["cores"])
            if k == "bootstrap":
                return b, b.run, lambda: (b.bs_results is not None and len(b.bs_results), b.mapping_df), sa
            b.run()
            from esat.error.bs_disp import BSDISP
            d = BSDISP(sa=sa, feature_labels=lab, model_selected=0, bootstrap=b, max_search=3, features=[0],
                       cores=case["cores"])
            return d, lambda: d.run(parallel=True), lambda: (len(d.disp_results), d.compiled_results), sa
        if k == "displacement":
            from esat.error.displacement import Displacement
            d = Displacement(sa=sa, feature_labels=lab, model_selected=0, max_search=4, parallel=True,
                             cores=case["cores"], features=list(range(min(case["size"], case["n"]))))
            return d, d.run, lambda: (d.swap_table, d.compiled_results), sa
        if k == "estimator":
            from esat.estimator import FactorEstimator
            e = FactorEstimator(V=V, U=U, seed=2)
            return e, lambda: e.run(samples=case["size"] * 2, min_factors=2, max_factors=3, max_iterations=3), \
                lambda: e.results_df, sa
        if k == "perturbation":
            from esat_eval.perturbation import Perturbation
            p = Perturbation(V, U, 2, base_model=sa, random_seed=3, models=case["size"], max_iterations=3, converge_n=2)
            return p, p.run, lambda: p.perturbed_models and [m.H for m in p.perturbed_models], sa
        import pandas as pd
        from esat.model.batch_sa import BatchSA
        from esat_eval.factor_comparison import FactorCompare
        rng = np.random.default_rng(case["dseed"])
        b = BatchSA(V=V, U=U, factors=2, models=case["size"], seed=3, max_iter=3, parallel=False, verbose=False)
        b.train()
        f = ["Factor 1", "Factor 2"]
        c = FactorCompare(pd.DataFrame(V, columns=lab), pd.DataFrame(U, columns=lab),
                          pd.DataFrame(rng.random((case["n"], 2)), columns=f),
                          pd.DataFrame(rng.random((case["m"], 2)), columns=f), batch_sa=b)
        return c, lambda: c.compare(verbose=False), lambda: (c.best_model, c.best_avg_r, c.factor_map), sa

    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        # the object is made on the machine it runs on: constructors size their pools
        obj, go, res, sa = quiet(cpu_count=case["sim"]["cpu_count"]).run(lambda: self.make(case))
        if not np.isfinite(float(sa.Qtrue)):
            out.counts["untrainable-data"] += 1
            return
        f = case["fault"]
        sim = make_sim(ch, case["sim"])
        hit = []
        if f and f.startswith("worker"):
            sim.p_fault = {f: case["p"]}
        elif f:
            st = {"n": 0}

            def hook(s, frame):
                t = s.current
                if t is None or t.proc is s.procs[0] or t.noyield or hit:
                    return
                st["n"] += 1
                if st["n"] == case["line"]:
                    s.fault("allocation-failure-at-line")
                    hit.append(1)
                    raise MemoryError("injected: allocation failed")
            sim.line_hooks = hook
        what = f"{case['kind']} on {case['sim']['cpu_count']} CPUs (cores={case['cores']}, {f})"
        before = copy.deepcopy(quiet().run(res))
        err = None
        try:
            sim.run(go)
        except core.SimHang as h:
            if sim.fault_counts.get("worker-death"):
                out.bad(f"C24:hang-after-worker-death:{case['kind']}",
                        f"{what} never returns after a worker process died: {h.report}")
            else:
                out.bad("C24:hang", f"{what} never returns: {h.report}")
            out.take(sim)
            return
        except (Exception, MemoryError) as ex:
            err = ex
        out.take(sim)
        fired = bool(hit) or any(v for k, v in sim.fault_counts.items() if k.startswith("worker-"))
        out.counts["analyses-" + case["kind"]] += 1
        out.nontrivial = fired or case["sim"]["cpu_count"] > 2
        if any(not p.released() for p in sim.pools):
            out.bad("C24:pool-leak", f"{what}: a worker pool is left open after {'a failure' if err else 'the run'}")
            return
        if not fired:
            if err is not None:
                out.bad("C24:failed", f"{what} failed without any fault: {type(err).__name__}: {err}")
                return
            want, go2, res2, _ = quiet().run(lambda: self.make(case))
            quiet().run(go2)
            if not self.same(res(), res2()):
                out.bad("C24:result", f"{what}: the result differs from that of a machine with 4 CPUs")
            return
        if err is None:
            if f == "worker-death":
                return
            out.bad("C24:swallowed", f"{what}: a worker failed and the call returned as if all went well")
            return
        if not isinstance(err, (MemoryError, OSError)):
            out.bad("C24:masked", f"{what}: a worker failed and the caller got {type(err).__name__}: {err}")
            return
        got = quiet().run(res)
        if not self.same(got, before) and self.complete(case, got):
            out.bad("C24:looks-complete", f"{what}: after the failure the object holds a result that looks complete")
            return
        # once the faults stop, the same object works
        try:
            quiet().run(go)
        except (Exception, MemoryError) as ex:
            out.bad("C24:not-usable", f"{what}: after the failure a second run raises {type(ex).__name__}: {ex}")
            return
        if case["kind"] not in ("estimator", "perturbation", "bootstrap", "bsdisp", "displacement"):
            return
        if not self.complete(case, quiet().run(res)):
            out.bad("C24:not-usable", f"{what}: after the failure a second run gives no complete result")

    def complete(self, case, got):
        k = case["kind"]
        if k == "bootstrap":
            return got[0] == case["size"] and got[1] is not None
        if k == "bsdisp":
            return got[0] == case["size"] and got[1] is not None and len(got[1]) > 0
        if k == "displacement":
            return got[1] is not None and len(got[1]) > 0
        if k == "estimator":
            return got is not None
        if k == "perturbation":
            return bool(got) and len(got) == case["size"]
        return got[0] is not None

    def same(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if hasattr(a, "to_numpy") and hasattr(b, "to_numpy"):
            return a.shape == b.shape and all(
                close(a[c], b[c], 1e-5, 1e-9) if a[c].dtype.kind in "fiu" else list(a[c]) == list(b[c]) for c in a)
        return eq(a, b)


CHECKS = {"C14": C14(), "C15": C15(), "C16": C16(), "C20": C20(), "C24": C24()}
