"""C08-C13: bootstrap, displacement and bootstrap-displacement under every schedule, pool size and worker fault."""
import collections
import copy
import math

import numpy as np

from dst import core, kernel, patches
from dst.check import Check, KSTUB, STUB, SIMPLE_SIM, close, data, eq, make_sim, q_true, sim_params

EPS = 1e-12


# ------------------------------------------------------------------ shared
def base_model(case, V=None, U=None):
    from esat.model.sa import SA
    if V is None:
        V, U = data(case["dseed"], case["m"], case["n"])
    sa = SA(V=V, U=U, factors=case["k"], method=case["method"], seed=case["seed"], verbose=False)
    sa.initialize()
    sa.train(max_iter=case["base_iter"], converge_delta=case["cdelta"], converge_n=case["cn"], model_i=1)
    # the error runs use the base model's settings; keep them cheap
    sa.metadata["max_iterations"] = case["max_iter"]
    return sa


def snapshot(sa):
    return {k: copy.deepcopy(getattr(sa, k)) for k in ("V", "U", "We", "W", "H", "WH", "Qtrue", "Qrobust", "q_list",
                                                       "seed", "factors", "metadata", "converged",
                                                       "converge_steps", "model_i")}


def changed(snap, sa):
    return [k for k, v in snap.items() if not eq(v, getattr(sa, k))]


def r2(a, b):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    a, b = a - a.mean(), b - b.mean()
    d = (a @ a) * (b @ b)
    return float((a @ b) ** 2 / d) if d > 0 else float("nan")


def flat(c):
    """(Nearly) equal contributions to every feature have no r2 in single precision."""
    return c.std() < 1e-3 * np.abs(c).max()


def floor0(x):
    """The contribution tables list sums below 1e-8 as zero."""
    return np.where(x < 1e-8, 0.0, x)


def clamp(H):
    H = np.array(H, copy=True)
    H[H < 1e-8] = 0.0
    return H


def faulty(r, case, share):
    case["fault"] = r.choice(["worker-oom", "worker-oserror"]) if r.random() < share else None
    case["p"] = r.choice([0.15, 0.5, 1.0])
    if case["fault"]:
        case["cpus"] = case.get("cpus", -1)


class ErrBase(Check):
    stub = STUB + [KSTUB, "plot windows (plotly Figure.show records the call)"]
    assumptions = ["simulated multiprocessing.Pool behaves as CPython's", "small matrices (up to 20x5, 3 factors) and "
                   "short trainings (up to 8 iterations per model)"]
    simple = {"method": "ls-nmf", "kernel": "python", "twice": False, "show": False, "fault": None,
              "overlapping": False}
    shrink_ints = {"bootstrap_n": 1, "max_iter": 1, "k": 2, "m": 6, "n": 3, "base_iter": 1}

    def shrink(self, case):
        yield from super().shrink(case)
        for k, v in SIMPLE_SIM.items():
            if case["sim"].get(k):
                yield dict(case, sim=dict(case["sim"], **{k: v}))

    def common(self, r):
        n = r.randint(3, 5)
        return {"kernel": r.choice(["python", "sim"]), "dseed": r.randrange(1 << 20), "seed": r.randrange(1 << 16),
                "m": r.randint(6, 20), "n": n, "k": r.randint(2, 3), "method": r.choice(["ls-nmf"] * 3 + ["ws-nmf"]),
                "base_iter": r.choice([3, 20, 60]), "max_iter": r.choice([1, 2, 4, 8]),
                "cdelta": r.choice([1e-6, 0.1]), "cn": r.choice([3, 10]), "sim": sim_params(r)}

    def quiet(self, out, sim, where):
        for p in sim.pools:
            if not p.released():
                out.bad(f"{self.prop}:pool-leak", f"{where}: worker pool still open")
                return

    def fault_free(self, sim):
        return not any(k.startswith("worker-") for k, v in sim.fault_counts.items() if v)


# ------------------------------------------------------------------ bootstrap
class BootBase(ErrBase):
    def gen(self, r, tier, i):
        case = self.common(r)
        m = case["m"]
        case.update(bootstrap_n=r.randint(1, 7), block_size=r.choice([1, 2, 3, 4, 5, m // 2, m // 2 + 1, m]),
                    threshold=r.choice([0.0, 0.3, 0.6, 0.9, 0.99, 1.0, 1.01]), cpus=r.choice([-1, 1, 2, 3, 8]),
                    bs_seed=r.choice([None, 1, r.randrange(1 << 30)]), keep_H=r.random() < 0.7,
                    reuse_seed=r.random() < 0.7, block=r.random() < 0.75, overlapping=r.random() < 0.3,
                    twice=r.random() < 0.2, show=False, parallel=True, fault=None, p=0.0)
        if r.random() < 0.02 and tier != "replay":
            case["bootstrap_n"], case["max_iter"] = 130, 1
        return case

    def build(self, case, sa, parallel, cpus=None):
        from esat.error.bootstrap import Bootstrap
        return Bootstrap(sa=sa, feature_labels=[f"f{j}" for j in range(case["n"])], model_selected=0,
                         bootstrap_n=case["bootstrap_n"], block_size=case["block_size"], threshold=case["threshold"],
                         parallel=parallel, cpus=case["cpus"] if cpus is None else cpus, seed=case["bs_seed"])

    def go(self, case, b):
        b.run(keep_H=case["keep_H"], reuse_seed=case["reuse_seed"], block=case["block"],
              overlapping=case["overlapping"])

    # ---- C08
    def check_same(self, out, a, b, what):
        if list(a.bs_results) != list(b.bs_results):
            out.bad("C08:order", f"{what}: runs {list(a.bs_results)} vs {list(b.bs_results)}")
            return
        for k in a.bs_results:
            x, y = a.bs_results[k], b.bs_results[k]
            if list(x["index"]) != list(y["index"]):
                out.bad("C08:index", f"{what}: run {k} resampled differently")
                return
            if not eq({i: (v["match"], float(v["r2"]), bool(v["mapped"])) for i, v in x["mapping"].items()},
                      {i: (v["match"], float(v["r2"]), bool(v["mapped"])) for i, v in y["mapping"].items()}):
                out.bad("C08:mapping", f"{what}: run {k} maps differently")
                return
            for f in ("V", "U", "W", "H", "WH", "Qtrue", "Qrobust", "q_list", "converged", "converge_steps", "seed"):
                if not eq(getattr(x["model"], f), getattr(y["model"], f)):
                    out.bad("C08:model", f"{what}: run {k}: {f} differs")
                    return
        for f in ("mapping_df", "q_results", "factor_tables", "bs_profiles", "bs_factor_contributions"):
            if not eq(getattr(a, f), getattr(b, f)):
                out.bad("C08:" + f, f"{what}: {f} differs")
                return

    def check_alone(self, out, case, b, sa):
        from esat.model.sa import SA
        for k, x in b.bs_results.items():
            if k > 12:
                break
            m = x["model"]
            idx = [int(i) for i in x["index"]]
            if len(idx) != case["m"]:
                return          # judged by C09
            seed = sa.seed if case["reuse_seed"] else m.seed
            ref = SA(V=np.array(sa.V[idx]), U=np.array(sa.U[idx]), factors=case["k"], method=case["method"],
                     seed=seed, verbose=False)
            ref.initialize(H=np.array(sa.H) if case["keep_H"] else None)
            ref.train(max_iter=case["max_iter"], converge_delta=case["cdelta"], converge_n=case["cn"], model_i=int(k))
            for f in ("W", "H", "WH", "Qtrue", "Qrobust", "q_list"):
                if not eq(getattr(ref, f), getattr(m, f)):
                    out.bad("C08:alone", f"run {k}: {f} differs from the model trained alone on the same resample "
                                         f"(keep_H={case['keep_H']}, reuse_seed={case['reuse_seed']})")
                    return
        if not case["reuse_seed"] and len(b.bs_results) > 1:
            seeds = {str(x["model"].seed) for x in b.bs_results.values()}
            if len(seeds) == 1:
                out.bad("C08:seeds", "every run used the same seed although seeds are not reused")

    # ---- C09
    def check_index(self, out, case, b, sa):
        N, bs = case["m"], case["block_size"]
        if bs > N / 2:
            bs = max(1, N // 2)
        for k, x in b.bs_results.items():
            idx = [int(i) for i in x["index"]]
            if len(idx) != N:
                out.bad("C09:length", f"run {k}: {len(idx)} samples instead of {N} (block size {case['block_size']}, "
                                      f"overlapping={case['overlapping']})")
                return
            if min(idx) < 0 or max(idx) >= N:
                out.bad("C09:range", f"run {k}: sample index outside the data")
                return
            m = x["model"]
            if not eq(m.V, sa.V[idx]) or not eq(m.U, sa.U[idx]):
                out.bad("C09:rows", f"run {k}: the rows trained on are not the rows listed with their uncertainty")
                return
            if case["block"]:
                pos = 0
                while pos < N:
                    s = idx[pos]
                    if not case["overlapping"] and s % bs:
                        out.bad("C09:block-start", f"run {k}: a block starts at sample {s}, block size {bs}: {idx}")
                        return
                    want = min(bs, N - pos, N - s)
                    if case["overlapping"] and s + bs > N and want < N - pos:
                        out.bad("C09:block-cut", f"run {k}: overlapping block starts at {s} of {N}: {idx}")
                        return
                    if idx[pos:pos + want] != list(range(s, s + want)):
                        out.bad("C09:block-torn", f"run {k}: block at {s} is not {want} consecutive samples: {idx}")
                        return
                    pos += want

    def check_distinct(self, out, case, b):
        N, bs = case["m"], case["block_size"]
        if bs > N / 2:
            bs = max(1, N // 2)
        if not case["block"]:
            states = N ** N
        elif case["overlapping"]:
            states = (N - bs + 1) ** (N // bs)
        else:
            states = (N // bs) ** (N // bs)
        idx = [tuple(int(i) for i in x["index"]) for x in b.bs_results.values()]
        if len(idx) > 1 and len(set(idx)) == 1 and states ** (len(idx) - 1) > 1e10:
            out.bad("C09:same-resample", f"all {len(idx)} runs drew the same resample")
        elif len(set(idx)) < len(idx) and states > 1e12:
            out.bad("C09:same-resample", "two runs drew the same resample")

    # ---- C10
    def check_tallies(self, out, case, b, sa):
        n, k = case["bootstrap_n"], case["k"]
        df = b.mapping_df
        base = [(sa.W[:, [j]].astype(float) @ sa.H[[j]].astype(float)).sum(axis=0) for j in range(k)]
        want = np.zeros((k, k))
        unm = np.zeros(k)
        slack = np.zeros(k)
        for key, x in b.bs_results.items():
            m = x["model"]
            for i in range(k):
                c = (m.W[:, [i]].astype(float) @ m.H[[i]].astype(float)).sum(axis=0)
                rs = np.array([r2(c, base[j]) for j in range(k)])
                got = x["mapping"][i]
                if np.isnan(rs).any() or any(flat(v) for v in [c] + base):
                    slack[i] += 1
                    continue
                best = float(rs.max())
                if rs[got["match"]] < best - 1e-5:
                    out.bad("C10:match", f"run {key} factor {i}: matched base factor {got['match']} with r2 "
                                         f"{rs[got['match']]:.6f}, the best is {int(rs.argmax())} with {best:.6f}")
                    return
                if abs(float(got["r2"]) - best) > 2e-5:
                    out.bad("C10:r2", f"run {key} factor {i}: reports r2 {got['r2']}, it is {best}")
                    return
                near = abs(best - case["threshold"]) < 2e-5
                if bool(got["mapped"]) != (best >= case["threshold"]) and not near:
                    out.bad("C10:threshold", f"run {key} factor {i}: r2 {best:.6f}, threshold {case['threshold']}, "
                                             f"mapped={got['mapped']}")
                    return
                amb = np.sum(rs > best - 1e-5) > 1 or near
                if amb:
                    slack[i] += 1
                elif got["mapped"]:
                    want[i, int(rs.argmax())] += 1
                else:
                    unm[i] += 1
        tab = df.iloc[:, 1:k + 1].to_numpy(dtype=float)
        un = df["Unmapped"].to_numpy(dtype=float)
        if tab.shape != (k, k) or len(b.bs_results) != n:
            out.bad("C10:size", f"mapping table {tab.shape}, {len(b.bs_results)} of {n} runs")
            return
        for i in range(k):
            if tab[i].sum() + un[i] != n:
                out.bad("C10:total", f"factor {i}: {tab[i].sum()} mapped and {un[i]} unmapped of {n} runs")
                return
            if slack[i] == 0 and (not np.array_equal(tab[i], want[i]) or un[i] != unm[i]):
                out.bad("C10:counts", f"factor {i}: table {tab[i].tolist()}+{un[i]}, runs give "
                                      f"{want[i].tolist()}+{unm[i]}")
                return
        q = b.q_results.to_numpy(dtype=float).ravel()
        if not eq(q, np.array([float(x["model"].Qrobust) for x in b.bs_results.values()])):
            out.bad("C10:q", "the listed losses are not those of the runs")
        for i in range(k):
            for name, table, f in (("factor table", b.factor_tables, lambda m: clamp(m.H[i])),
                                   ("profile", b.bs_profiles, lambda m: m.H[i] / m.H.sum(axis=0)),
                                   ("contribution", b.bs_factor_contributions,
                                    lambda m: floor0((m.W[:, [i]].astype(float) @ m.H[[i]].astype(float)).sum(axis=0)))):
                rows = np.array(table[i], dtype=float)
                ref = np.array([f(x["model"]) for x in b.bs_results.values()], dtype=float)
                if not close(rows, ref, 1e-5, 1.1e-4):
                    out.bad("C10:" + name.replace(" ", "-"), f"factor {i}: {name} rows are not those of the runs")
                    return

    def check_maps(self, out, case, b, sa, ch):
        """The mapping functions at other thresholds."""
        for t in (0.0, 0.25, 0.5, 0.75, 0.95):
            x = list(b.bs_results.values())[0]["model"]
            for name, got, A, B in (
                    ("profiles", b.map_factors(H1=x.H, H2=sa.H, threshold=t), x.H, sa.H),
                    ("contributions", b.map_contributions(W1=x.W, H1=x.H, W2=sa.W, H2=sa.H, threshold=t),
                     [(x.W[:, [i]].astype(float) @ x.H[[i]].astype(float)).sum(axis=0) for i in range(case["k"])],
                     [(sa.W[:, [i]].astype(float) @ sa.H[[i]].astype(float)).sum(axis=0) for i in range(case["k"])])):
                for i in range(case["k"]):
                    rs = np.array([r2(A[i], c) for c in B])
                    if np.isnan(rs).any() or flat(A[i]) or any(flat(c) for c in B):
                        continue
                    g = got[i]
                    if rs[g["match"]] < rs.max() - 1e-5 or (bool(g["mapped"]) != (rs.max() >= t)
                                                            and abs(rs.max() - t) > 2e-5):
                        out.bad("C10:map-by-" + name, f"factor {i}, threshold {t}: {g}, correlations {rs.tolist()}")
                        return

    # ---- one execution
    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        sa = base_model(case)
        if not np.isfinite(sa.Qtrue):
            out.counts["base-model-without-loss"] += 1
            return
        snap = snapshot(sa)
        sim = make_sim(ch, case["sim"])

        def body():
            if case["fault"]:
                return self.faulted(case, out, sim, sa, snap)
            par = self.build(case, sa, True)
            ser = self.build(case, sa, False)
            for _ in range(2 if case["twice"] else 1):
                self.go(case, par)
                self.quiet(out, sim, "run")
                self.go(case, ser)
                self.check_same(out, par, ser, "parallel and serial")
                self.check_alone(out, case, par, sa)
                for b in (par, ser):
                    self.check_index(out, case, b, sa)
                    self.check_distinct(out, case, b)
                    self.check_tallies(out, case, b, sa)
            self.check_maps(out, case, par, sa, ch)
            if case["show"]:
                par.summary()
                par.plot_results(1)
            ch_ = changed(snap, sa)
            if ch_:
                out.bad("C09:base-mutated", f"the base model's {ch_} changed (show={case['show']})")
        try:
            sim.run(body)
        finally:
            out.take(sim)
            out.counts["kernel-" + case["kernel"]] += 1
        if not eq(snap["V"], sa.V):
            out.bad("C09:base-mutated", "the base model's data changed")

    def faulted(self, case, out, sim, sa, snap):
        b = self.build(case, sa, True)
        sim.p_fault = {case["fault"]: case["p"]}
        err = None
        try:
            self.go(case, b)
        except (MemoryError, OSError) as ex:
            err = ex
        hit = not self.fault_free(sim)
        sim.p_fault = {}
        self.quiet(out, sim, f"run with {case['fault']}")
        if hit and err is None:
            out.bad("C08:fault-swallowed", f"a worker failed ({case['fault']}) and run returned normally with "
                                           f"{len(b.bs_results)} of {case['bootstrap_n']} runs")
        if hit and b.mapping_df is not None:
            out.bad("C08:partial-compiled", "a failed bootstrap compiled its tables")
        if err is not None and not hit:
            raise err
        self.go(case, b)
        if len(b.bs_results) != case["bootstrap_n"]:
            out.bad("C08:no-recovery", f"after a failed run, a fault-free one has {len(b.bs_results)} results")
        self.check_index(out, case, b, sa)
        self.check_tallies(out, case, b, sa)
        self.check_alone(out, case, b, sa)


class C08(BootBase):
    prop = "C08"
    runs = {"quick": 960, "thorough": 16000}
    rule = ("each case: a base model and bootstrap configuration run in a simulated pool under a seeded schedule and "
            "serially, compared run by run and with models trained alone; a share of cases injects worker faults; "
            "non-trivial if tasks were switched or a fault injected; distinct = distinct (schedule digest, case)")

    def gen(self, r, tier, i):
        case = super().gen(r, tier, i)
        faulty(r, case, 0.2)
        return case


class C09(BootBase):
    prop = "C09"
    runs = {"quick": 960, "thorough": 16000}
    rule = ("as C08 with every block size from 1 to the data length, both block styles and single-sample resampling; "
            "a share of cases draws enough resamples that a sample which can be drawn is drawn with probability above "
            "1-1e-9; every resample is checked")

    def gen(self, r, tier, i):
        case = super().gen(r, tier, i)
        case["block_size"] = r.randint(1, case["m"])
        case["show"] = r.random() < 0.2
        case["cover"] = r.random() < 0.25
        if case["cover"]:
            case.update(max_iter=1, base_iter=3, twice=False, show=False, bootstrap_n=40,
                        m=r.randint(6, 12), threshold=0.6)
            case["block_size"] = r.randint(1, max(1, case["m"] // 2))
        return case

    def check_distinct(self, out, case, b):
        super().check_distinct(out, case, b)
        if not case.get("cover"):
            return
        N, bs, n = case["m"], case["block_size"], len(b.bs_results)
        if bs > N / 2:
            bs = max(1, N // 2)
        seen = collections.Counter(int(i) for x in b.bs_results.values() for i in x["index"])
        if not case["block"]:
            expect = [n] * N
        elif case["overlapping"]:
            starts = N - bs + 1
            expect = [n * (N // bs) * sum(1 for s in range(starts) if s <= i < s + bs) / starts for i in range(N)]
        else:
            expect = [n * (N // bs) / math.ceil(N / bs)] * N
        never = [i for i in range(N) if expect[i] > 25 and not seen[i]]
        if never:
            out.bad("C09:never-drawn", f"samples {never} of {N} are in none of {n} resamples (block size {bs}, "
                                       f"block={case['block']}, overlapping={case['overlapping']})")


class C10(BootBase):
    prop = "C10"
    runs = {"quick": 1120, "thorough": 20000}
    rule = ("as C08, with thresholds from 0 to above 1 and repeated runs of one object; tables are recomputed from "
            "the runs' own matrices")

    def gen(self, r, tier, i):
        case = super().gen(r, tier, i)
        case["twice"] = r.random() < 0.4
        case["threshold"] = r.choice([0.0, 0.3, 0.6, 0.9, 0.99, 0.999, 1.01, round(r.random(), 3)])
        return case


# ------------------------------------------------------------------ displacement
class DispBase(ErrBase):
    simple = dict(ErrBase.simple)
    shrink_ints = {"max_iter": 1, "k": 2, "m": 6, "n": 3, "base_iter": 1}
    DQ = [32, 16, 8, 4]

    def gen(self, r, tier, i):
        case = self.common(r)
        case["max_iter"] = r.choice([1, 1, 2, 4])
        case["base_iter"] = r.choice([3, 30, 150, 400])
        feats = sorted(r.sample(range(case["n"]), r.choice([1, 1, 2, 2, case["n"]])))
        if r.random() < 0.15:
            r.shuffle(feats)
        case.update(features=feats, cores=r.choice([-1, 1, 2, 3, 8]), thr=r.choice([0.02, 0.1, 0.1, 0.5]),
                    max_search=r.choice([50, 50, 50, 50, 1, 2, 5, 12, 100]), twice=r.random() < 0.2, fault=None, p=0.0,
                    zero=r.random() < 0.25)
        return case

    def base(self, case):
        V, U = data(case["dseed"], case["m"], case["n"])
        rng = np.random.default_rng(case["dseed"] + 7)
        if case.get("zero"):
            # a factor without some feature
            V[:, rng.integers(case["n"])] *= 0.001
        return base_model(case, V, U)

    def build(self, case, sa, parallel):
        from esat.error.displacement import Displacement
        return Displacement(sa=sa, feature_labels=[f"f{j}" for j in range(case["n"])], model_selected=0,
                            max_search=case["max_search"], threshold_dQ=case["thr"], features=list(case["features"]),
                            cores=case["cores"], parallel=parallel)

    FIELDS = ("dQ", "value", "percent", "search steps", "swap", "conc", "Q_drop")

    def flat(self, res):
        return {(f, j, q): tuple(res[f][j][q][x] for x in self.FIELDS)
                for f in res for j in res[f] for q in res[f][j]}

    def check_same(self, out, a, b, what):
        for name in ("increase_results", "decrease_results"):
            x, y = self.flat(getattr(a, name)), self.flat(getattr(b, name))
            if set(x) != set(y):
                out.bad("C11:entries", f"{what}: {name} cover different entries")
                return
            for k in x:
                if not eq(x[k], y[k]):
                    d = [(f, p, q) for f, p, q in zip(self.FIELDS, x[k], y[k]) if not eq(p, q)]
                    out.bad("C11:" + name, f"{what}: {k}: {d[:2]}")
                    return
        for f in ("compiled_results", "swap_table", "count_table"):
            if not eq(getattr(a, f), getattr(b, f)):
                out.bad("C11:" + f, f"{what}: {f} differs: {getattr(a, f)} vs {getattr(b, f)}"[:400])
                return

    def check_counts(self, out, case, d, DQ, tag="C11"):
        k, feats = case["k"], case["features"]
        want = np.zeros((len(DQ), k))
        for res in (d.increase_results, d.decrease_results):
            if sorted(res) != sorted(f"factor-{f + 1}" for f in range(k)):
                out.bad(f"{tag}:entries", f"displaced factors {sorted(res)}")
                return
            for f in range(k):
                per = res[f"factor-{f + 1}"]
                if sorted(per) != sorted(f"feature-{j}" for j in feats):
                    out.bad(f"{tag}:entries", f"factor {f}: displaced features {sorted(per)}, asked {feats}")
                    return
                for j in feats:
                    for qi, q in enumerate(DQ):
                        want[qi, f] += bool(per[f"feature-{j}"][q]["swap"])
        if not np.array_equal(d.count_table, np.full((len(DQ), k), 2.0 * len(feats))):
            out.bad(f"{tag}:count", f"displacement counts {d.count_table.tolist()}, every cell should be "
                                    f"{2 * len(feats)}")
        elif not np.array_equal(d.swap_table, want):
            out.bad(f"{tag}:swap", f"swap table {d.swap_table.tolist()}, the displacements give {want.tolist()}")

    def check_alone(self, out, case, d, sa, ch_idx, DQ, tag="C12", limit=10):
        """A sample of entries is recomputed and retrained independently."""
        from esat.model.sa import SA
        H0 = np.asarray(np.asarray(sa.H) + EPS, dtype=np.float64)
        V, U, W = (np.asarray(a, dtype=np.float64) for a in (sa.V, sa.U, sa.W))
        baseq = float(sa.Qtrue)
        mag = (np.abs(W) @ np.abs(H0) + np.abs(V)) / U           # float32 rounding of the products
        noise = (2e-5 * max(1.0, abs(baseq)) + 1e-6
                 + 1e-6 * float(np.sum(2 * np.abs((V - W @ H0) / U) * mag)) + 1e-12 * float(np.sum(mag ** 2)))
        # factor elements are displaced from H + 1e-12; where that alone moves the loss no target can be expected
        faithful = abs(q_true(V, U, W, H0) - baseq) <= noise
        n = 0
        for up, res in ((True, d.increase_results), (False, d.decrease_results)):
            for f in range(case["k"]):
                for j in case["features"]:
                    entry = res[f"factor-{f + 1}"][f"feature-{j}"]
                    A = float(np.sum((W[:, f] / U[:, j]) ** 2))
                    B = float(np.sum(-2.0 * W[:, f] * (V[:, j] - W @ H0[:, j]) / U[:, j] ** 2))
                    prev = None
                    for qi, q in enumerate(DQ):
                        e = entry[q]
                        v, h = float(e["value"]), float(H0[f, j])
                        where = f"factor {f} feature {j} dQ {q} {'increase' if up else 'decrease'}"
                        if not np.isfinite(v) or (up and v < h * (1 - 1e-6)) or (not up and not
                                                                                 0 <= v <= h * (1 + 1e-6)):
                            out.bad(f"{tag}:bounds", f"{where}: value {v}, base {h}")
                            return
                        nH = H0.copy()
                        nH[f, j] = v
                        dq = q_true(V, U, W, nH) - baseq
                        tol = noise + 1e-5 * abs(dq)
                        if abs((dq if up else abs(dq)) - float(e["dQ"])) > tol:
                            out.bad(f"{tag}:dQ", f"{where}: value {v} changes the loss by {dq}, reported {e['dQ']}")
                            return
                        if not close(e["percent"], nH[f, j] / nH[:, j].sum(), 1e-5, 1e-5) or \
                                not close(e["conc"], W[:, f].sum() * v, 1e-4, 1e-5 * (1 + np.abs(W[:, f]).sum() * v)):
                            out.bad(f"{tag}:share", f"{where}: percent {e['percent']}, conc {e['conc']}; the value "
                                                    f"gives {nH[f, j] / nH[:, j].sum()}, {W[:, f].sum() * v}")
                            return
                        steps = int(e["search steps"])
                        if steps > case["max_search"]:
                            out.bad(f"{tag}:steps", f"{where}: {steps} search steps, the limit is "
                                                    f"{case['max_search']}")
                            return
                        if faithful:
                            self.check_target(out, case, where, up, A, B, h, v, float(e["dQ"]), q, steps, noise, tag)
                        n += 1
                        if n % 7 == ch_idx % 7 and limit > 0:
                            limit -= 1
                            ref = self.retrain(case, sa, d, f, j, e["value"])
                            if ref is None:
                                continue
                            sw, sure = self.swapped(ref.H, d.H)
                            if sure and bool(e["swap"]) != sw:
                                out.bad(f"{tag}:swap", f"{where}: swap {e['swap']}, retraining gives {sw}")
                                return
                            if not close(e["Q_drop"], baseq - float(ref.Qtrue), 1e-6, noise):
                                out.bad(f"{tag}:drop", f"{where}: loss change after retraining {e['Q_drop']}, "
                                                       f"it is {baseq - float(ref.Qtrue)}")
                                return

    def retrain(self, case, sa, d, f, j, value):
        """The displaced model trained again; None when rounding alone decides its outcome."""
        from esat.model.sa import SA
        got = []
        for v, order in ((value, "C"), (value * (1 + 2e-7), "F")):
            ref = SA(V=np.array(sa.V), U=np.array(sa.U), factors=case["k"], method=case["method"], seed=sa.seed,
                     verbose=False)
            sH = np.array(d.H, order=order)
            sH[f, j] = v
            ref.initialize(H=sH)
            ref.train(max_iter=sa.metadata["max_iterations"], converge_delta=sa.metadata["converge_delta"],
                      converge_n=sa.metadata["converge_n"], model_i=1, robust_mode=False)
            got.append(ref)
        q = [float(x.Qtrue) for x in got]
        if not close(q[0], q[1], 1e-5, 1e-5) or not close(got[0].H, got[1].H, 1e-3, 1e-6):
            return None
        return got[0]

    @staticmethod
    def swapped(A, B):
        k = A.shape[0]
        sw, sure = False, True
        for i in range(k):
            own = r2(A[i], B[i])
            for j in range(k):
                o = r2(A[i], B[j])
                if np.isnan(own) or np.isnan(o):
                    sure = False
                elif j != i:
                    if abs(o - own) < 1e-5:
                        sure = False
                    sw = sw or o > own
        return sw, sure

    def check_target(self, out, case, where, up, A, B, h, v, dq, q, steps, noise, tag):
        thr = case["thr"]
        if q - thr - noise <= dq <= q + noise:
            return
        if A <= 0 or thr < 4 * noise or steps < 1:
            return
        root = lambda t: (-B + math.sqrt(B * B + 4 * A * t)) / (2 * A)
        if up:
            # the loss is a parabola in the element: one crossing above the base value
            lo, hi = root(q - thr), root(q)
            top = root(self.top) / h + 1.0
            bracket = 2.0 * max(top, 2.0)
            if math.log2(bracket) + 2 >= case["max_search"]:
                return                                   # the bracket itself may be out of reach
            width = (hi - lo) / h
            need = math.log2(bracket / max(width, 1e-300)) + 2
            if steps < case["max_search"] or need < case["max_search"]:
                out.bad(f"{tag}:target", f"{where}: loss change {dq} after {steps} steps, target {q - thr}..{q} "
                                         f"(limit {case['max_search']})")
            return
        # decrease: delta = v - h in [-h, 0], loss change A d^2 + B d
        at0 = A * h * h - B * h
        if B > 0 and B * B / (4 * A) > self.bottom - thr - noise:
            return                                       # the change is not monotone: no promise
        if at0 < q - thr - noise:
            if v > h * 1e-6 and steps < min(case["max_search"], 18):
                out.bad(f"{tag}:not-exhausted", f"{where}: loss change {dq} below target {q} at value {v} of {h}, "
                                                f"after {steps} steps")
            elif v > 4 * h * 2.0 ** -min(steps, 40):
                out.bad(f"{tag}:not-lowered", f"{where}: value {v} after {steps} steps from {h}")
            return
        if at0 < q - thr + 4 * noise:
            return
        neg = lambda t: (-B - math.sqrt(B * B + 4 * A * t)) / (2 * A)
        width = abs(max(neg(q), -h) - neg(q - thr)) / h
        need = math.log2(1.0 / max(width, 1e-300)) + 2
        if width > 2e-5 and need < case["max_search"]:
            out.bad(f"{tag}:target", f"{where}: loss change {dq} after {steps} steps, target {q - thr}..{q} "
                                     f"(limit {case['max_search']})")

    top, bottom = 32, 4

    def check_compiled(self, out, case, d, sa, DQ, tag="C12"):
        H0 = np.asarray(np.asarray(sa.H) + EPS, dtype=np.float64)
        W = np.asarray(sa.W, dtype=np.float64)
        df = d.compiled_results
        n, k = case["n"], case["k"]
        if len(df) != len(DQ) * n * k:
            out.bad(f"{tag}:rows", f"{len(df)} result rows, expected {len(DQ) * n * k}")
            return
        seen = set()
        for row in df.to_dict("records"):
            q, f, lab = row["dQ"], int(row["factor"]), row["feature"]
            j = int(lab[1:])
            seen.add((q, f, j))
            prof = H0[f, j] / H0[:, j].sum()
            conc = W[:, f].sum() * H0[f, j]
            if j in case["features"]:
                i_ = d.increase_results[f"factor-{f + 1}"][f"feature-{j}"][q]
                d_ = d.decrease_results[f"factor-{f + 1}"][f"feature-{j}"][q]
                w = {"profile": prof, "profile_max": i_["percent"], "profile_min": d_["percent"], "conc": conc,
                     "conc_max": max(i_["conc"], 1e-4), "conc_min": max(d_["conc"], 1e-4),
                     "dQ_drop": min(i_["Q_drop"], d_["Q_drop"], 0.0)}
            else:
                w = {"profile": prof, "profile_max": prof, "profile_min": prof, "conc": conc,
                     "conc_max": max(conc, 1e-4), "conc_min": max(conc, 1e-4), "dQ_drop": 0.0}
            for x, y in w.items():
                if not close(row[x], y, 1e-4, 1e-6 + (1e-5 * np.abs(W[:, f]).sum() * H0[f, j]
                                                      if "conc" in x else 0)):
                    out.bad(f"{tag}:compiled", f"dQ {q} factor {f} feature {j}: {x} is {row[x]}, expected {y}")
                    return
            if not row["profile_min"] <= row["profile"] * (1 + 1e-6) + 1e-9 or \
                    not row["profile"] <= row["profile_max"] * (1 + 1e-6) + 1e-9:
                out.bad(f"{tag}:disorder", f"dQ {q} factor {f} feature {j}: min/profile/max "
                                           f"{row['profile_min']}/{row['profile']}/{row['profile_max']}")
                return
        if len(seen) != len(df):
            out.bad(f"{tag}:rows", "result rows repeat")

    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        sa = self.base(case)
        if not np.isfinite(sa.Qtrue):
            out.counts["base-model-without-loss"] += 1
            return
        snap = snapshot(sa)
        sim = make_sim(ch, case["sim"])

        def body():
            if case["fault"]:
                return self.faulted(case, out, sim, sa)
            self.examine(case, out, sim, sa)
            c = changed(snap, sa)
            if c:
                out.bad("C11:base-mutated", f"the base model's {c} changed")
        try:
            sim.run(body)
        finally:
            out.take(sim)
            out.counts["kernel-" + case["kernel"]] += 1

    def faulted(self, case, out, sim, sa):
        d = self.build(case, sa, True)
        sim.p_fault = {case["fault"]: case["p"]}
        err = None
        try:
            d.run(batch=1)
        except (MemoryError, OSError) as ex:
            err = ex
        hit = not self.fault_free(sim)
        sim.p_fault = {}
        self.quiet(out, sim, f"run with {case['fault']}")
        if hit and err is None:
            out.bad("C11:fault-swallowed", f"a worker failed ({case['fault']}) and run returned normally")
        if hit and d.compiled_results is not None:
            out.bad("C11:partial-compiled", "a failed displacement compiled its results")
        if err is not None and not hit:
            raise err
        d.run(batch=1)
        self.check_counts(out, case, d, self.DQ)
        self.check_compiled(out, case, d, sa, self.DQ)


class C11(DispBase):
    prop = "C11"
    runs = {"quick": 560, "thorough": 8000}
    rule = ("each case: a displacement analysis in a simulated pool under a seeded schedule and serially, compared "
            "entry by entry; tables recounted from the entries; repeated runs; worker faults in a share of cases; "
            "non-trivial if tasks were switched or a fault injected")

    def gen(self, r, tier, i):
        case = super().gen(r, tier, i)
        faulty(r, case, 0.15)
        if r.random() < 0.01:
            case.update(n=22, k=3, m=8, features=list(range(22)), max_iter=1, base_iter=3, twice=False, fault=None)
            case.update(m=30)
        return case

    def examine(self, case, out, sim, sa):
        par, ser = self.build(case, sa, True), self.build(case, sa, False)
        for _ in range(2 if case["twice"] else 1):
            par.run(batch=3)
            self.quiet(out, sim, "run")
            ser.run(batch=3)
            self.check_same(out, par, ser, "parallel and serial")
            self.check_counts(out, case, par, self.DQ)
            self.check_counts(out, case, ser, self.DQ)


class C12(DispBase):
    prop = "C12"
    runs = {"quick": 880, "thorough": 12000}
    rule = ("each case: a displacement analysis, serial or in a simulated pool; every entry's loss change is "
            "recomputed from its value, compared with the exact parabola of the loss in that element, and a sample is "
            "retrained independently; non-trivial if tasks were switched")

    def gen(self, r, tier, i):
        case = super().gen(r, tier, i)
        case["parallel"] = r.random() < 0.6
        case["twice"] = False
        return case

    def examine(self, case, out, sim, sa):
        d = self.build(case, sa, case["parallel"])
        d.run(batch=1)
        out.nontrivial = True
        self.check_alone(out, case, d, sa, case["dseed"], self.DQ)
        self.check_compiled(out, case, d, sa, self.DQ)


# ------------------------------------------------------------------ bootstrap displacement
class C13(DispBase):
    prop = "C13"
    runs = {"quick": 480, "thorough": 6000}
    rule = ("each case: 1-5 bootstrap runs, displacement of each in a simulated pool and serially (nested pools), "
            "compared; envelopes and counts recomputed over all runs; worker faults in a share of cases; non-trivial "
            "if tasks were switched or a fault injected")
    DQ = [4, 2, 1, 0.5]
    top, bottom = 4, 0.5

    def gen(self, r, tier, i):
        case = super().gen(r, tier, i)
        case.update(bootstrap_n=r.randint(1, 5), block_size=r.choice([1, 2, 3]), bs_seed=r.choice([None, 5]),
                    threshold=r.choice([0.3, 0.6, 0.95]), own=r.random() < 0.5, cores=r.choice([0, 1, 2, 3, 8]),
                    k=2, m=r.randint(8, 12), n=3, max_iter=1, keep_H=r.random() < 0.7, max_search=50, twice=False)
        case["features"] = sorted(r.sample(range(3), r.choice([1, 1, 2]))) if r.random() < 0.9 else None
        case["twice"] = r.random() < 0.1
        case["sim"]["p_line"] = case["sim"]["p_line"] if r.random() < 0.3 else 0.0
        faulty(r, case, 0.15)
        return case

    def build(self, case, sa, boot):
        from esat.error.bs_disp import BSDISP
        return BSDISP(sa=sa, feature_labels=[f"f{j}" for j in range(case["n"])], model_selected=0, bootstrap=boot,
                      bootstrap_n=case["bootstrap_n"], block_size=case["block_size"], threshold=case["threshold"],
                      max_search=case["max_search"], threshold_dQ=case["thr"], features=case["features"],
                      seed=case["bs_seed"], cores=case["cores"])

    def boot(self, case, sa):
        from esat.error.bootstrap import Bootstrap
        b = Bootstrap(sa=sa, feature_labels=[f"f{j}" for j in range(case["n"])], bootstrap_n=case["bootstrap_n"],
                      block_size=case["block_size"], threshold=case["threshold"], parallel=False,
                      seed=case["bs_seed"])
        b.run(keep_H=case["keep_H"])
        return b

    def check_all(self, out, case, x, sa, what):
        n, runs = case["bootstrap_n"], x.disp_results
        if sorted(runs) != sorted(x.bootstrap.bs_results) or len(runs) != n:
            out.bad("C13:runs", f"{what}: displacement of runs {sorted(runs)}, bootstrap has "
                                f"{sorted(x.bootstrap.bs_results)}")
            return
        ds = [runs[k] for k in sorted(runs)]
        full = dict(case, features=case["features"] if case["features"] is not None else list(range(case["n"])))
        for k in sorted(runs):
            self.check_counts(out, full, runs[k], self.DQ, "C13")
            m = x.bootstrap.bs_results[k]["model"]
            if not eq(np.asarray(runs[k].W), np.asarray(m.W)):
                out.bad("C13:wrong-model", f"{what}: run {k} displaced another run's model")
                return
        cs = [d.compiled_results for d in ds]
        got = x.compiled_results
        for f, col, fn in (("profile_max", "profile_max", np.max), ("profile_min", "profile_min", np.min),
                           ("conc_max", "conc_max", np.max), ("conc_min", "conc_min", np.min),
                           ("dQ_drop", "dQ_drop", np.min), ("profiles", "profile", np.mean),
                           ("conc", "conc", np.mean)):
            if f not in got:
                out.bad("C13:column", f"{what}: no column {f}")
                return
            w = fn([c[col].to_numpy(dtype=float) for c in cs], axis=0)
            g = got[f].to_numpy(dtype=float)
            if not close(g, w, 1e-5, 1e-7):
                i = int(np.argmax(np.abs(g - w)))
                out.bad("C13:envelope", f"{what}: {f} of row {i} is {g[i]}, over all {n} runs it is {w[i]}")
                return
        for f in ("dQ", "factor", "feature"):
            if got[f].tolist() != cs[0][f].tolist():
                out.bad("C13:labels", f"{what}: column {f} differs from the runs'")
                return
        for name, tot in (("swap_table", sum(d.swap_table for d in ds)), ("count_table", sum(d.count_table for d in ds))):
            if not np.array_equal(getattr(x, name), tot):
                out.bad("C13:" + name, f"{what}: {getattr(x, name).tolist()}, the runs add up to {tot.tolist()}")
                return
        drops = sum(bool((c["dQ_drop"] < 0.0).any()) for c in cs)
        swaps = sum(bool(np.count_nonzero(d.swap_table)) for d in ds)
        tab = x.bootstrap.mapping_df.iloc[:, 1:case["k"] + 1].to_numpy()
        fit = sum(tab[i, i] < n for i in range(case["k"]))
        for name, a, b in (("n_drops", x.n_drops, drops), ("disp_swap", x.disp_swap, swaps),
                           ("fit_swaps", x.fit_swaps, fit)):
            if a != b:
                out.bad("C13:" + name, f"{what}: {name} is {a}, over all {n} runs it is {b}")
                return

    def examine(self, case, out, sim, sa):
        if case["own"]:
            a, b = self.build(case, sa, None), self.build(case, sa, None)
        else:
            a, b = self.build(case, sa, self.boot(case, sa)), self.build(case, sa, self.boot(case, sa))
        for _ in range(2 if case["twice"] else 1):
            a.run(parallel=True, keep_H=case["keep_H"])
            self.quiet(out, sim, "parallel run")
            self.check_all(out, case, a, sa, "parallel")
            b.run(parallel=False, keep_H=case["keep_H"])
            self.quiet(out, sim, "serial run")
            self.check_all(out, case, b, sa, "serial")
        for k in a.disp_results:
            if k not in b.disp_results:
                return
            x, y = a.disp_results[k], b.disp_results[k]
            for name in ("increase_results", "decrease_results"):
                if not eq(self.flat(getattr(x, name)), self.flat(getattr(y, name))):
                    out.bad("C13:differs", f"run {k}: {name} differ between parallel and serial")
                    return
        for f in ("compiled_results", "swap_table", "count_table", "n_drops", "disp_swap", "fit_swaps"):
            if not eq(getattr(a, f), getattr(b, f)):
                out.bad("C13:differs", f"{f} differs between parallel and serial")
                return

    def faulted(self, case, out, sim, sa):
        x = self.build(case, sa, self.boot(case, sa))
        sim.p_fault = {case["fault"]: case["p"]}
        err = None
        try:
            x.run(parallel=bool(case["seed"] % 2), keep_H=case["keep_H"])
        except (MemoryError, OSError) as ex:
            err = ex
        hit = not self.fault_free(sim)
        sim.p_fault = {}
        self.quiet(out, sim, f"run with {case['fault']}")
        if hit and err is None:
            out.bad("C13:fault-swallowed", f"a worker failed ({case['fault']}) and run returned normally")
        if hit and x.compiled_results is not None:
            out.bad("C13:partial-compiled", "a failed analysis compiled its results")
        if err is not None and not hit:
            raise err
        x.run(parallel=True, keep_H=case["keep_H"])
        self.check_all(out, case, x, sa, "after a failed run")


CHECKS = {c.prop: c() for c in (C08, C09, C10, C11, C12, C13)}
