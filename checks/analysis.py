"""C26: the statistics and plots of models, batches, data and error analyses after any history of training and looking."""
import contextlib
import copy
import io
import re

import numpy as np
import pandas as pd

from dst import patches
from dst.check import SIMPLE_SIM, close, eq, make_sim
from .handler import HandlerBase, Ref, frames

FILES = ("analysis.py", "datahandler.py", "bootstrap.py", "displacement.py", "bs_disp.py", "error.py", "utils.py")
MODEL = ["features_metrics", "statistics", "residual_histogram", "estimated_observed", "estimated_timeseries",
         "factor_profile", "all_factors", "all_factors_3d", "fingerprints", "g_space", "contributions", "composition",
         "surface"]
BATCH = ["loss", "loss_distribution", "temporal_residuals"]
DATA = ["data_uncertainty", "feature_data", "feature_timeseries", "heatmap", "histograms", "histogram_2d", "ridgeline"]
ERROR = ["bs_factor", "bs_contribution", "bs_table", "bs_mapping", "disp_profile", "disp_contribution", "summary"]
ARRAYS = ("V", "U", "W", "H", "WH", "Qtrue", "Qrobust", "q_list", "converged", "factors", "seed")
FRAMES = ("input_data", "uncertainty_data", "input_data_df", "uncertainty_data_df", "metrics", "input_data_plot",
          "uncertainty_data_plot")


class Bad(Exception):
    pass


def arr(x):
    if x is None:
        raise Bad("a trace has no values")
    return np.array([np.nan if v is None else v for v in x], dtype=np.float64)


def need(ok, msg):
    if not ok:
        raise Bad(msg)


def same(what, have, want, rel=1e-4):
    have, want = arr(have), np.asarray(want, dtype=np.float64)
    need(have.shape == want.shape, f"{what}: {have.shape[0] if have.ndim else 0} values, expected {want.shape[0]}")
    fin = np.abs(want[np.isfinite(want)])
    if not close(have, want, rel=rel, abs_=1e-6 * (fin.max() if len(fin) else 0.0) + 1e-9):
        with np.errstate(all="ignore"):
            i = int(np.argmax(np.nan_to_num(np.abs(have - want) / (np.abs(want) + 1e-12), nan=1e300)))
        raise Bad(f"{what}: value {i} is {have[i]!r}, expected {want[i]!r}")


def labels(what, have, want):
    have = [str(x) for x in have]
    need(have == [str(x) for x in want], f"{what}: {have[:8]}, expected {[str(x) for x in want][:8]}")


def names(fig, want):
    have = [t.name for t in fig.data]
    need(have == want, f"the traces are {have}, expected {want}")


def title(fig, *parts):
    t = fig.layout.title.text or ""
    for p in parts:
        need(re.search(rf"(?<!\w){re.escape(str(p))}(?!\w)", t), f"the title is {t!r}, expected it to name {p!r}")


def over_time(what, x, y, index, values):
    """The points (x, y) show these values, averaged over the samples of each step of time."""
    t = pd.to_datetime(pd.Index(index)).to_numpy().astype("datetime64[ns]").astype(np.int64)
    x = pd.to_datetime(pd.Index(list(x))).to_numpy().astype("datetime64[ns]").astype(np.int64)
    y, values = arr(y), np.asarray(values, dtype=np.float64)
    need(len(x) == len(y) and len(x), f"{what}: {len(x)} times, {len(y)} values")
    need((np.diff(x) > 0).all(), f"{what}: the times are not in order")
    bins = np.searchsorted(x, t, side="right") - 1
    need((bins >= 0).all(), f"{what}: begins after the first sample")
    step = x[1] - x[0] if len(x) > 1 else None
    if step is not None:
        need((t < x[-1] + step).all(), f"{what}: ends before the last sample")
    want = np.full(len(x), np.nan)
    last = np.sort(np.unique(t))[-2:]
    for b in np.unique(bins):
        want[b] = values[bins == b].mean()
        held = np.unique(t[bins == b])
        need(len(held) == 1 or set(held) == set(last), f"{what}: samples of different times are lumped together")
    same(what, y, want)


def conc(W, H):
    c = np.array([(np.outer(W[:, k], H[k])).sum(axis=0) for k in range(H.shape[0])], dtype=np.float64)
    c[c == 0.0] = 1e-12
    return c


class C26(HandlerBase):
    prop = "C26"
    rule = ("a run trains a batch on the data of a handler, leaves out failed models, and then looks at models, batch, "
            "data and error analyses up to 9 times, between retrainings, data edits and interrupted looks; each look is "
            "compared with an independent reading of exactly the models and samples it is labelled with, and all models, "
            "tables and results with what they were before it; non-trivial when a retraining, a failed model, an edit "
            "or an interrupted look came before a look")
    runs = {"quick": 1600, "thorough": 40000}
    assumptions = ["complete samples (samples with a missing value are dropped), at least 5 of them and 2 features",
                   "features and residuals are not constant"]
    simple = dict(HandlerBase.simple, failed=[], errors=None, label=True, method="ls-nmf")
    shrink_ints = {"models": 1, "iter": 1}

    def gen(self, r, tier, i):
        case = self.table(r)
        case.update(m=r.choice([6, 8, 12, 20, 40]), n=r.randint(2, 5), drop_nans=True, source="frames", ties=False,
                    k=r.randint(2, 4), models=r.randint(1, 4), iter=r.choice([1, 3, 10, 40]),
                    method=r.choice(["ls-nmf", "ls-nmf", "ws-nmf"]), seed=r.randrange(1 << 16), label=r.random() < 0.85,
                    parallel=r.random() < 0.4, cats=[[r.randrange(8), r.choice(["weak", "bad"])] for _ in range(r.choice([0, 0, 1, 2]))],
                    failed=[r.randrange(4) for _ in range(r.choice([0, 0, 1, 2]))], errors=None)
        if r.random() < 0.2:
            case["m"], case["k"], case["method"] = r.choice([6, 8, 12]), 2, "ls-nmf"
            case["errors"] = {"n": r.randint(1, 4), "bs": r.random() < 0.75, "disp": r.random() < 0.75,
                              "bsdisp": r.random() < 0.3, "order": r.random() < 0.5}
        ops = []
        for _ in range(r.randint(2, 9)):
            o = r.random()
            if o < 0.14:
                ops.append({"do": "retrain", "model": r.randrange(4), "iter": r.choice([1, 5, 30])})
            elif o < 0.20:
                ops.append({"do": "edit", "f": r.randrange(8), "cat": r.choice(["weak", "strong", "bad"])})
            else:
                kinds = [MODEL] * 6 + [BATCH] * 3 + [DATA] * 2 + ([ERROR] * 6 if case["errors"] else [])
                op = {"do": "look", "what": r.choice(r.choice(kinds)), "model": r.randrange(4), "a": r.randrange(64),
                      "b": r.randrange(64), "own": r.random() < 0.3, "show": r.random() < 0.5, "again": r.random() < 0.25,
                      "cut": None}
                if r.random() < 0.2:
                    op["cut"] = {"line": r.randint(1, 60), "error": r.choice(["MemoryError", "KeyboardInterrupt"])}
                ops.append(op)
        case["ops"] = ops
        return case

    def shrink(self, case):
        for i, o in enumerate(case["ops"]):
            if o.get("cut") or o.get("again") or o.get("own"):
                yield dict(case, ops=case["ops"][:i] + [dict(o, cut=None, again=False, own=False)] + case["ops"][i + 1:])
        yield from super().shrink(case)

    # ------------------------------------------------------------ one run
    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        sim = make_sim(ch, case["sim"])
        st = {"line": None, "n": 0, "error": None, "hit": False}

        def hook(s, frame):
            if st["line"] is None or not frame.f_code.co_filename.endswith(FILES):
                return
            st["n"] += 1
            if st["n"] >= st["line"]:
                st["line"], st["hit"] = None, True
                s.fault("allocation-failure-at-line" if st["error"] is MemoryError else "interrupt-at-line")
                raise st["error"]("injected")
        sim.line_hooks = hook

        def body():
            with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore"):
                self.story(case, st, out)
        sim.run(body)
        out.take(sim)

    def train(self, case, w):
        """A new batch on the data of the handler as it is now, with its analyses."""
        from esat.data.analysis import BatchAnalysis, ModelAnalysis
        from esat.model.batch_sa import BatchSA
        dh = w["dh"]
        V, U = dh.get_data()
        w["fs"], w["V"], w["U"], w["idx"] = w["ref"].dataset()
        if len(V) < 5 or V.shape[1] < 2 or (V.max(axis=0) - V.min(axis=0) < 1e-3).any():
            return False
        w["batch"] = b = BatchSA(V=V, U=U, factors=min(case["k"], V.shape[1]), models=case["models"], method=case["method"],
                                 seed=case["seed"], max_iter=case["iter"], converge_delta=1e-9, converge_n=5,
                                 parallel=case["parallel"], cores=2, verbose=False)
        b.train()
        if b.best_model is None or not np.isfinite(b.results[b.best_model].Qtrue):
            return False
        for i in case["failed"]:
            if i < len(b.results) and i != b.best_model:
                b.results[i] = None
        w["models"] = [i for i, s in enumerate(b.results) if s is not None]
        w["ma"] = {i: ModelAnalysis(dh, b.results[i], selected_model=i) if case["label"] else
                   ModelAnalysis(dh, b.results[i]) for i in w["models"]}
        w["ba"] = [BatchAnalysis(b), BatchAnalysis(b, data_handler=dh)]
        w["err"] = {}
        return True

    def story(self, case, st, out):
        from esat.data.datahandler import DataHandler
        I, U = frames(case["dseed"], case["m"], case["n"], case)
        w = {"ref": Ref(I, U, case)}
        if not len(w["ref"].I):
            out.counts["no-data"] += 1
            return
        w["dh"] = DataHandler.load_dataframe(I.copy(), U.copy(), **self.options(case))
        for f, c in case["cats"]:
            f = w["ref"].feats[f % len(w["ref"].feats)]
            w["dh"].set_category(f, c)
            w["ref"].cats[f] = c
        if not self.train(case, w):
            out.counts["no-data"] += 1
            return
        seen = len(w["models"]) < case["models"]
        if case["errors"]:
            self.estimate(case, w)
        for n, op in enumerate(case["ops"]):
            if op["do"] == "retrain":
                m = w["batch"].results[w["models"][op["model"] % len(w["models"])]]
                m.train(max_iter=op["iter"], converge_delta=1e-9, converge_n=5)
                if not np.isfinite(m.WH).all():
                    return
                out.counts["retrain"] += 1
                seen = True
            elif op["do"] == "edit":
                f = w["ref"].feats[op["f"] % len(w["ref"].feats)]
                w["dh"].set_category(f, op["cat"])
                w["ref"].cats[f] = op["cat"]
                if not self.train(case, w):
                    return
                out.counts["edit"] += 1
                seen = True
            else:
                if not self.one(case, w, op, st, out, f"look {n + 1} ({op['what']})"):
                    return
                if seen or op["cut"]:
                    out.nontrivial = True

    def state(self, w):
        s = {}
        for i, m in enumerate(w["batch"].results):
            for a in ARRAYS if m is not None else ():
                s[f"{a} of model {i + 1}"] = copy.deepcopy(getattr(m, a))
        for a in ("best_model", "V", "U"):
            s[f"{a} of the batch"] = copy.deepcopy(getattr(w["batch"], a))
        s["the models of the batch"] = [id(m) for m in w["batch"].results]
        for a in FRAMES:
            f = getattr(w["dh"], a)
            s[f"{a} of the data handler"] = (f.copy(), list(map(str, f.index)))
        s["the features"] = list(w["dh"].features)
        for k, e in w["err"].items():
            for a in ("bs_profiles", "bs_factor_contributions", "factor_tables", "base_H", "base_W", "mapping_df",
                      "q_results", "compiled_results", "H", "W", "swap_table"):
                if hasattr(e, a):
                    s[f"{a} of {k}"] = copy.deepcopy(getattr(e, a))
        return s

    def one(self, case, w, op, st, out, where):
        sig = f"C26:{op['what']}"
        if op["what"] in DATA and case["max_plot"] < len(w["ref"].I):
            out.counts["above-plotting-limit"] += 1
        call, check = getattr(self, "look_" + op["what"])(case, w, op)
        if call is None:
            return True
        before = self.state(w)
        figs = None
        for turn in ("interrupted", "look", "again"):
            if turn == "interrupted" and not op["cut"] or turn == "again" and not op["again"]:
                continue
            del patches.SHOWN[:]
            err, val = None, None
            if turn == "interrupted":
                st.update(line=op["cut"]["line"], n=0, hit=False,
                          error={"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}[op["cut"]["error"]])
            try:
                val = call()
            except (Exception, KeyboardInterrupt) as ex:
                err = ex
            st["line"] = None
            got = list(patches.SHOWN)
            after = self.state(w)
            d = [k for k in before if not eq(before[k], after[k])]
            if d:
                return out.bad("C26:changed", f"{where}, {turn}: changed {d[:3]}")
            if turn == "interrupted" and st["hit"]:
                out.counts["interrupted"] += 1
                continue
            if err is not None:
                return out.bad(sig, f"{where}: {err!r}")
            out.counts[op["what"]] += 1
            try:
                shown = check(got, val)
            except Bad as ex:
                return out.bad(sig, f"{where}: {ex}")
            if turn == "again" and figs is not None and shown is not None:
                if len(figs) != len(shown) or any(a != b for a, b in zip(figs, shown)):
                    return out.bad("C26:again", f"{where}: looking again shows something else")
            figs = shown
        return True

    # ------------------------------------------------------------ helpers of the looks
    def figures(self, op, got, val, n=1):
        """The n figures that the look showed or returned."""
        if op["show"]:
            need(len(got) == n, f"{len(got)} figures were shown, expected {n}")
            return got
        need(not got or op["what"] == "contributions", f"{len(got)} figures were shown though not asked for")
        figs = list(val) if isinstance(val, tuple) else [val]
        need(len(figs) == n and all(f is not None for f in figs), f"{len(figs)} figures were returned, expected {n}")
        return figs

    def plain(self, figs):
        return [f.to_json() for f in figs]

    def pick(self, w, op):
        i = w["models"][op["model"] % len(w["models"])]
        m, ma = w["batch"].results[i], w["ma"][i]
        W, H = np.array(m.W, dtype=np.float64), np.array(m.H, dtype=np.float64)
        return i, m, ma, W, H

    def given(self, op, W, H):
        """Matrices given in place of the model's: (keyword arguments, W, H to expect)."""
        if not op["own"]:
            return {}, W, H
        rng = np.random.default_rng(op["a"])
        kw = {}
        if op["b"] % 3 != 1:
            kw["W"] = W = rng.gamma(1.0, 1.0, W.shape)
        if op["b"] % 3 != 0:
            kw["H"] = H = rng.gamma(1.0, 1.0, H.shape)
        return kw, W, H

    def label(self, case, i):
        return f"Model {i + 1}" if case["label"] else "Model 1"

    def feature(self, w, op, key="a"):
        j = op[key] % len(w["fs"])
        return j, w["fs"][j], {"feature_name": w["fs"][j]} if op["b"] % 2 else {"feature_idx": j}

    # ------------------------------------------------------------ one model
    def look_features_metrics(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)
        V, est = w["V"].astype(np.float64), W @ H
        kw = {}
        if op["own"]:
            kw["est_V"] = est = est * 1.25 + 0.5

        def check(got, df):
            labels("Feature", df["Feature"], w["fs"])
            for c, x in (("Input Mean", V.mean(0)), ("Input Var", V.var(0)), ("Est Mean", est.mean(0)),
                         ("Est Var", est.var(0)), ("RMSE", np.sqrt(((V - est) ** 2).mean(0)))):
                if not close(df[c], x, rel=1e-3, abs_=2e-4):
                    raise Bad(f"{c} is {df[c].tolist()}, expected {x.tolist()}")
            need(ma.residual_metrics is df, "the metrics kept are not those returned")
            return [df.to_json()]
        return lambda: ma.features_metrics(**kw), check

    def look_statistics(self, case, w, op):
        from scipy import stats
        i, m, ma, W, H = self.pick(w, op)
        V, U, est = w["V"].astype(np.float64), w["U"].astype(np.float64), W @ H
        kw = {}
        if op["own"]:
            est = est + np.random.default_rng(op["a"]).normal(0, 0.3, est.shape)
            kw["results"] = est.copy()

        def check(got, val):
            s = ma.statistics
            labels("Features", s["Features"], w["fs"])
            labels("Category", s["Category"], [w["ref"].cats[f] for f in w["fs"]])
            for j, f in enumerate(w["fs"]):
                x, y = V[:, j], est[:, j]
                res = x - y
                # residuals of an (almost) exact fit are noise of single precision
                if y.std() < 1e-3 * np.abs(y).max() or res.std() < 1e-3 * np.abs(x).max():
                    continue
                sr = res / U[:, j]
                if sr.std() < 1e-3 * np.abs(sr).max():
                    continue
                sl, ic = np.polyfit(x, y, 1)
                r2 = np.corrcoef(x, y)[0, 1] ** 2
                want = {"r2": r2, "Slope": sl, "Intercept": ic, "SE": res.std() / np.sqrt(len(res)),
                        "Shapiro PValue": stats.shapiro(sr)[1]}
                ks = stats.ks_1samp(sr, stats.norm(sr.mean(), sr.std(ddof=1)).cdf)
                ad = stats.anderson(sr, dist="norm")
                want.update({"KS PValue": ks.pvalue, "KS Statistic": ks.statistic, "Anderson Statistic": ad.statistic})
                scale = np.abs(y).max() + np.abs(x).max()
                for c, v in want.items():
                    if not close([s[c][j]], [v], rel=5e-3, abs_=1e-3 * (scale if c in ("Intercept", "SE") else 1.0)):
                        raise Bad(f"{c} of {f} is {s[c][j]}, expected {v}")
                seg = np.sqrt(max(1 - r2, 0.0)) * y.std()
                if not close([s["SE Regression"][j]], [seg], rel=5e-3, abs_=3e-3 * scale):
                    raise Bad(f"SE Regression of {f} is {s['SE Regression'][j]}, expected {seg}")
                for c, p in (("Shapiro Normal Residuals", "Shapiro PValue"), ("KS Normal Residuals", "KS PValue")):
                    need(s[c][j] == ("Yes" if s[p][j] >= 0.05 else "No"), f"{c} of {f} is {s[c][j]} for p={s[p][j]}")
                lv = [str(l) for c, l in zip(ad.critical_values, ad.significance_level) if s["Anderson Statistic"][j] < c]
                need(s["Anderson Normal Residual"][j] == (lv[0] if lv else "No"),
                     f"Anderson Normal Residual of {f} is {s['Anderson Normal Residual'][j]}, expected {lv[:1]}")
            return [s.to_json()]
        return lambda: ma.calculate_statistics(**kw), check

    def look_residual_histogram(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)
        j, f, sel = self.feature(w, op)
        est, kw = W @ H, dict(sel)
        if op["own"]:
            kw["est_V"] = est = est + np.random.default_rng(op["a"]).normal(0, 0.3, est.shape)
        res = (w["V"][:, j].astype(np.float64) - est[:, j]) / w["U"][:, j].astype(np.float64)
        noise = 1e-5 * np.abs(w["V"][:, j] / w["U"][:, j]).max()
        if res.std() < 100 * noise or len(set(np.round(res, 6))) < 4:
            return None, None

        def values(what, have):
            if not close(arr(have), res, rel=1e-3, abs_=noise):
                raise Bad(f"{what}: {list(have)[:5]}, expected {res.tolist()[:5]}")
        thr = [3.0, 0.5, 1.0, -1, 0.0][op["b"] % 5]

        def check(got, val):
            figs = self.figures(op, got, val if op["show"] else val[0])
            title(figs[0], f)
            d = {t.name: t for t in figs[0].data}
            need(set(d) == {"Histogram", "Dist", "Normal", "KDE"}, f"the traces are {sorted(d)}")
            values("Histogram", d["Histogram"].x)
            values("Dist", d["Dist"].x)
            # the curve of a normal distribution with the mean and deviation of the residuals
            x, y = arr(d["Normal"].x), arr(d["Normal"].y)
            pdf = np.exp(-0.5 * ((x - res.mean()) / res.std()) ** 2) / (res.std() * np.sqrt(2 * np.pi))
            same("Normal", y, pdf, rel=1e-2)
            if not op["show"]:
                df = val[1]
                keep = [q for q in range(len(res)) if thr == -1 or abs(res[q]) > thr]
                near = thr != -1 and (np.abs(np.abs(res) - thr) < 1e-3 * (1 + abs(thr)) + noise).any()
                if not near:
                    labels("the samples above the threshold", df.index, [w["idx"][q] for q in keep])
                    labels("the feature", df.columns, [f])
                    need(close(df[f].tolist(), res[keep], rel=1e-3, abs_=noise),
                         f"the residuals above the threshold are {df[f].tolist()[:5]}, expected {res[keep].tolist()[:5]}")
            return self.plain(figs)
        return lambda: ma.plot_residual_histogram(abs_threshold=thr, show=op["show"], **kw), check

    def look_estimated_observed(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)
        j, f, sel = self.feature(w, op)
        V, est = w["V"][:, j].astype(np.float64), (W @ H)[:, j]

        def check(got, val):
            figs = self.figures(op, got, val)
            names(figs[0], ["Data", "Regression", "One-to-One"])
            title(figs[0], f)
            sl, ic = np.polyfit(V, est, 1)
            for q, y in enumerate((est, sl * V + ic, V)):
                same(f"observed of trace {q}", figs[0].data[q].x, V)
                if not close(figs[0].data[q].y, y, rel=1e-3, abs_=1e-3 * np.abs(y).max()):
                    raise Bad(f"{figs[0].data[q].name}: {list(figs[0].data[q].y)[:6]}, expected {list(y)[:6]}")
            return self.plain(figs)
        return lambda: ma.plot_estimated_observed(show=op["show"], **sel), check

    def look_estimated_timeseries(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)
        j, f, sel = self.feature(w, op)
        V, est = w["V"][:, j].astype(np.float64), (W @ H)[:, j]

        def check(got, val):
            figs = self.figures(op, got, val)
            names(figs[0], ["Observed Concentrations", "Predicted Concentrations", "Residuals"])
            title(figs[0], f, self.label(case, i))
            d = figs[0].data
            over_time("observed", d[0].x, d[0].y, w["idx"], V)
            over_time("predicted", d[1].x, d[1].y, w["idx"], est)
            need(list(d[2].x) == list(d[0].x), "residuals: other times than the observations")
            r = arr(d[0].y) - arr(d[1].y)
            if not close(d[2].y, r, rel=1e-3, abs_=1e-4 * np.nanmax(np.abs(arr(d[0].y)))):
                raise Bad(f"residuals: {list(d[2].y)[:6]}, expected {list(r)[:6]}")
            return self.plain(figs)
        return lambda: ma.plot_estimated_timeseries(show=op["show"], **sel), check

    def look_factor_profile(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)
        k = op["a"] % H.shape[0]
        kw, W, H = self.given(op, W, H)

        def check(got, val):
            p, c = figs = self.figures(op, got, val, 2)
            names(p, ["% of Features", "Conc. of Features"])
            for q in (0, 1):
                labels("features", p.data[q].x, w["fs"])
            same("% of Features", p.data[0].y, 100 * H[k] / H.sum(axis=0))
            same("Conc. of Features", p.data[1].y, conc(W, H)[k])
            names(c, ["Normalized Contributions"])
            if W[:, k].mean() > 0:
                over_time("Normalized Contributions", c.data[0].x, c.data[0].y, w["idx"], W[:, k] / W[:, k].mean())
            for g in figs:
                title(g, self.label(case, i), f"Factor {k + 1}")
            return self.plain(figs)
        return lambda: ma.plot_factor_profile(k + 1, show=op["show"], **kw), check

    def look_all_factors(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)
        kw, W, H = self.given(op, W, H)
        ks = list(range(H.shape[0]))
        if op["b"] % 3 == 2:
            ks = [k for k in ks if op["a"] >> k & 1]
            kw["factor_list"] = list(ks)

        def check(got, val):
            figs = self.figures(op, got, val)
            title(figs[0], self.label(case, i))
            d = figs[0].data
            need(len(d) == 2 * len(ks), f"{len(d)} traces for {len(ks)} factors")
            C = conc(W, H)
            for q, k in enumerate(ks):
                need((d[2 * q].name, d[2 * q + 1].name) == ("Conc. of Features", "% of Features"), "the traces are mislabelled")
                # the subplot of the factor
                labels(f"axes of factor {k + 1}", [d[2 * q].yaxis, d[2 * q + 1].yaxis],
                       ["y" if not 2 * k else f"y{2 * k + 1}", f"y{2 * k + 2}"])
                labels("features", d[2 * q].x, w["fs"])
                labels("features", d[2 * q + 1].x, w["fs"])
                same(f"concentrations of factor {k + 1}", d[2 * q].y, C[k])
                same(f"percentages of factor {k + 1}", d[2 * q + 1].y, 100 * H[k] / H.sum(axis=0))
            return self.plain(figs)
        return lambda: ma.plot_all_factors(show=op["show"], **kw), check

    def look_all_factors_3d(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)
        kw, W, H = self.given(op, W, H)
        kind = ["profile", "conc", "both"][op["a"] % 3]

        def check(got, val):
            figs = self.figures(op, got, val)
            Z = {"conc": np.log10(conc(W, H) + 1), "profile": 100 * H / H.sum(axis=0)}
            want = {"profile": ["profile"], "conc": ["conc"], "both": ["conc", "profile"]}[kind]
            d = figs[0].data
            need(len(d) == len(want), f"{len(d)} traces for {kind}")
            for t, z in zip(d, want):
                x, y, h, text = arr(t.x), arr(t.y), arr(t.z), t.text
                need(len(x) == 8 * H.size, f"{len(x)} corners for {H.size} bars")
                for q in range(H.size):
                    s = slice(8 * q, 8 * q + 8)
                    k, j = int(np.rint(y[s].mean())), int(np.rint(x[s].mean()))
                    need(0 <= k < H.shape[0] and 0 <= j < H.shape[1], "a bar lies outside the plot")
                    need(f"Factor: {k + 1}<br>Feature: {w['fs'][j]}<br>" in text[8 * q], f"the bar at {k, j} is labelled {text[8 * q]}")
                    top = h[s][np.argmax(np.abs(h[s]))]
                    if not close([top], [Z[z][k, j]], rel=1e-4, abs_=1e-6):
                        raise Bad(f"{z} of factor {k + 1}, {w['fs'][j]} is {top}, expected {Z[z][k, j]}")
            return self.plain(figs)
        return lambda: ma.plot_all_factors_3d(plot_type=kind, show=op["show"], **kw), check

    def look_fingerprints(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)

        def check(got, val):
            figs = self.figures(op, got, val)
            title(figs[0], self.label(case, i))
            need(sorted(t.name for t in figs[0].data) == sorted(f"Factor {k + 1}" for k in range(H.shape[0])),
                 f"the traces are {[t.name for t in figs[0].data]}")
            for t in figs[0].data:
                k = int(t.name.split()[1]) - 1
                labels("features", t.x, w["fs"])
                same(t.name, t.y, 100 * H[k] / H.sum(axis=0))
            need(figs[0].layout.barmode == ("group" if op["a"] % 2 else "stack"), f"the bars are shown as {figs[0].layout.barmode}")
            return self.plain(figs)
        return lambda: ma.plot_factor_fingerprints(grouped=bool(op["a"] % 2), show=op["show"]), check

    def look_g_space(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)
        a, b = op["a"] % W.shape[1], op["b"] % W.shape[1]

        def check(got, val):
            figs = self.figures(op, got, val)
            title(figs[0], self.label(case, i))
            G = W / W.sum(axis=0)
            same(f"contributions of factor {a + 1}", figs[0].data[0].x, G[:, a])
            same(f"contributions of factor {b + 1}", figs[0].data[0].y, G[:, b])
            for ax, k in ((figs[0].layout.xaxis, a), (figs[0].layout.yaxis, b)):
                need(f"Factor {k + 1} " in ax.title.text, f"an axis is labelled {ax.title.text}")
            return self.plain(figs)
        return lambda: ma.plot_g_space(a + 1, b + 1, show=op["show"]), check

    def look_contributions(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)
        j = op["a"] % len(w["fs"])
        thr = [0.05, 0.05, 0.0, 20.0, 49.0][op["b"] % 5]

        def check(got, val):
            pie, c = figs = self.figures(op, got, val, 2)
            pct = 100 * H[:, j] / H[:, j].sum()
            if not (np.abs(pct - thr) < 1e-3).any():
                want = {f"Factor {k + 1}": pct[k] for k in range(H.shape[0]) if pct[k] > thr}
                have = dict(zip(pie.data[0].labels or [], arr(pie.data[0].values if pie.data[0].values is not None else [])))
                need(set(want) == set(have), f"factors {sorted(have)} contribute more than {thr}%, expected {sorted(want)}")
                same("shares of the factors", [have[q] for q in want], list(want.values()))
            title(pie, w["fs"][j], self.label(case, i))
            names(c, [f"Factor {k + 1}" for k in range(H.shape[0])])
            for k, t in enumerate(c.data):
                if W[:, k].sum() > 0:
                    over_time(t.name, t.x, t.y, w["idx"], 100 * W[:, k] / W[:, k].sum())
            title(c, f"Base Model #{(i if case['label'] else 0) + 1}", "Converged Model" if m.converged else "Unconverged Model")
            return self.plain(figs)
        return lambda: ma.plot_factor_contributions(feature_idx=j, contribution_threshold=thr, show=op["show"]), check

    def look_composition(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)

        def check(got, val):
            figs = self.figures(dict(op, show=True), got, val)
            names(figs[0], [f"Factor {k + 1}" for k in range(H.shape[0])])
            for k, t in enumerate(figs[0].data):
                labels("features", t.theta, w["fs"])
                same(t.name, t.r, H[k] / H.sum(axis=0))
            return self.plain(figs)
        return lambda: ma.plot_factor_composition(), check

    def look_surface(self, case, w, op):
        i, m, ma, W, H = self.pick(w, op)
        pct = bool(op["b"] & 1)
        V = w["V"].astype(np.float64)
        by_feature = op["b"] % 3 == 0
        k, j = op["a"] % H.shape[0], op["a"] % len(w["fs"])

        def check(got, val):
            figs = self.figures(dict(op, show=True), got, val)
            t = figs[0].data[0]
            Z = np.array([np.outer(W[:, q], H[q]) / (V if pct else 1.0) for q in range(H.shape[0])])
            labels("samples", t.y, w["idx"])
            if by_feature:
                labels("factors", t.x, [f"Factor {q + 1}" for q in range(H.shape[0])])
                title(figs[0], w["fs"][j])
                z = Z[:, :, j].T
            else:
                labels("features", t.x, w["fs"])
                title(figs[0], f"Factor {k + 1}")
                z = Z[k]
            have = np.array([[np.nan if v is None else v for v in r] for r in t.z], dtype=np.float64)
            need(have.shape == z.shape, f"a surface of {have.shape} for {z.shape}")
            if not by_feature:
                edge = np.abs(z - 1e-4) < 1e-7
                z = np.where(z < 1e-4, np.nan, z)
                have, z = np.where(edge, 0.0, have), np.where(edge, 0.0, z)
            if pct:                             # a share of nothing is not defined
                none = V[:, [j] * z.shape[1]] == 0 if by_feature else V == 0
                have, z = np.where(none, 0.0, have), np.where(none, 0.0, z)
            same("surface", have.ravel(), z.ravel(), rel=1e-3)
            return self.plain(figs)
        if by_feature:
            return lambda: ma.plot_factor_surface(factor_idx=None, feature_idx=j + 1, percentage=pct), check
        return lambda: ma.plot_factor_surface(factor_idx=k + 1, percentage=pct), check

    # ------------------------------------------------------------ the batch
    def look_loss(self, case, w, op):
        b, ba = w["batch"], w["ba"][op["a"] % 2]

        def check(got, val):
            figs = self.figures(op, got, val)
            names(figs[0], [f"Model {i + 1}" for i in w["models"]])
            for t, i in zip(figs[0].data, w["models"]):
                q = [float(x) for x in b.results[i].q_list]
                same(f"iterations of {t.name}", t.x, np.arange(len(q)))
                same(f"loss of {t.name}", t.y, q)
            return self.plain(figs)
        return lambda: ba.plot_loss(show=op["show"]), check

    def look_loss_distribution(self, case, w, op):
        b, ba = w["batch"], w["ba"][op["a"] % 2]

        def check(got, val):
            figs = self.figures(op, got, val)
            names(figs[0], ["Q(True)", "Q(Robust)"])
            for t, a in zip(figs[0].data, ("Qtrue", "Qrobust")):
                same(t.name, t.y, [float(getattr(b.results[i], a)) for i in w["models"]])
                labels("models", t.text, w["models"])
            return self.plain(figs)
        return lambda: ba.plot_loss_distribution(show=op["show"]), check

    def look_temporal_residuals(self, case, w, op):
        b, h = w["batch"], op["a"] % 2
        ba, j = w["ba"][h], op["b"] % len(w["fs"])

        def check(got, val):
            figs = self.figures(op, got, val)
            names(figs[0], ["Input"] + [f"Model {i + 1}" for i in w["models"]])
            title(figs[0], w["fs"][j] if h else f"Feature {j + 1}")
            m = len(w["V"])
            n = min(m, case["max_plot"]) if h else m
            g = np.arange(m) * n // m
            V = w["V"][:, j].astype(np.float64)
            mean = lambda x: np.array([x[g == q].mean() for q in range(n)])
            first = [int(np.argmax(g == q)) for q in range(n)]
            for t in figs[0].data:
                labels(f"samples of {t.name}", t.x, [w["idx"][q] for q in first] if h else range(1, m + 1))
            same("Input", figs[0].data[0].y, mean(V))
            for t, i in zip(figs[0].data[1:], w["models"]):
                s = b.results[i]
                want = mean(V - (np.asarray(s.W, dtype=np.float64) @ np.asarray(s.H, dtype=np.float64))[:, j])
                if not close(t.y, want, rel=1e-3, abs_=1e-4 * np.abs(V).max()):
                    raise Bad(f"residuals of {t.name}: {list(t.y)[:5]}, expected {list(want)[:5]}")
                need(t.visible == (True if i == b.best_model else "legendonly"), f"{t.name} is shown as {t.visible}, the best "
                                                                                f"model is {b.best_model + 1}")
            return self.plain(figs)
        return lambda: ba.plot_temporal_residuals(j, show=op["show"]), check

    # ------------------------------------------------------------ the data
    def successive(self, case, w):
        """(features, index) of the samples shown: averaged over successive samples above the plotting limit."""
        I, idx = self.raw(w)[0], list(w["ref"].I.index)
        m, n = len(idx), min(len(idx), case["max_plot"])
        g = np.arange(m) * n // m
        mean = lambda x: x[~np.isnan(x)].mean() if (~np.isnan(x)).any() else np.nan
        return ({f: np.array([mean(x[g == q]) for q in range(n)]) for f, x in I.items()},
                [idx[int(np.argmax(g == q))] for q in range(n)])

    def grouped(self, what, limit, x, y, data, other=None):
        """The points are means of groups of samples with neighbouring data, which hold every sample once."""
        x = arr(x)
        x = x[~np.isnan(x)]
        y = None if y is None else arr(y)[:len(x)]
        order = np.argsort(data, kind="stable")
        order = order[~np.isnan(data[order])]
        d, o = data[order], None if other is None else other[order]
        need(len(x) <= limit, f"{what}: {len(x)} points, the limit is {limit}")
        tol = lambda a, b: abs(a - b) <= 1e-9 + 1e-6 * max(abs(a), abs(b)) or (np.isnan(a) and np.isnan(b))

        def fits(q, a, b):
            if not tol(x[q], d[a:b].mean()):
                return False
            if o is None:
                return True
            v = o[a:b][~np.isnan(o[a:b])]
            return tol(y[q], v.mean() if len(v) else np.nan)
        ends = {0}
        for q in range(len(x)):
            ends = {b for a in ends for b in range(a + 1, len(d) + 1) if fits(q, a, b)}
        need(len(d) in ends, f"{what}: the points {x.tolist()[:6]} are not means of the samples {d.tolist()[:12]}")

    def raw(self, w):
        return {f: w["ref"].I[f].to_numpy(float) for f in w["ref"].feats}, {f: w["ref"].U[f].to_numpy(float) for f in w["ref"].feats}

    def look_data_uncertainty(self, case, w, op):
        I, U = self.raw(w)
        fs = w["ref"].feats
        kw = {}
        if op["a"] % 3 == 0:
            j = op["b"] % len(fs)
            kw, fs = {"include_menu": False, "feature_idx": j}, [fs[j]]

        def check(got, val):
            figs = self.figures(op, got, val)
            names(figs[0], fs)
            for t in figs[0].data:
                if len(w["ref"].I) > case["max_plot"]:
                    self.grouped(t.name, case["max_plot"], t.x, t.y, I[t.name], U[t.name])
                    continue
                same(f"data of {t.name}", t.x, I[t.name])
                same(f"uncertainty of {t.name}", t.y, U[t.name])
            title(figs[0], fs[0])
            if not kw:
                for q, btn in enumerate(figs[0].layout.updatemenus[0].buttons):
                    need(btn.label == fs[q] and list(btn.args[0]["visible"]) == [p == q for p in range(len(fs))],
                         f"the button {btn.label} shows other features")
            return self.plain(figs)
        return lambda: w["dh"].plot_data_uncertainty(show=op["show"], **kw), check

    def look_feature_data(self, case, w, op):
        I, index = self.successive(case, w)
        fs = w["ref"].feats
        a, b = op["a"] % len(fs), op["b"] % len(fs)
        x, y = I[fs[a]], I[fs[b]]
        ok = np.isfinite(x) & np.isfinite(y)
        x, y = x[ok], y[ok]
        if len(x) < 3 or np.ptp(x) < 1e-3:
            return None, None

        def check(got, val):
            figs = self.figures(op, got, val)
            names(figs[0], ["Data", "Regression", "One-to-One"])
            sl, ic = np.polyfit(x, y, 1)
            for t, q in zip(figs[0].data, (y, sl * x + ic, x)):
                same(f"x of {t.name}", t.x, x)
                if not close(t.y, q, rel=1e-3, abs_=1e-3 * np.abs(q).max()):
                    raise Bad(f"y of {t.name}: {list(t.y)[:6]}, expected {list(q)[:6]}")
            labels("samples", [q[0] for q in figs[0].data[0].customdata], np.asarray(index, dtype=object)[ok])
            return self.plain(figs)
        return lambda: w["dh"].plot_feature_data(a, b, show=op["show"]), check

    def look_feature_timeseries(self, case, w, op):
        I, index = self.successive(case, w)
        fs = w["ref"].feats
        sel = [q for q in range(len(fs)) if op["a"] >> q & 1] or [op["b"] % len(fs)]
        what = [fs[q] for q in sel]
        arg = list(sel)
        if op["own"]:
            arg, what = (sel[0], what[:1]) if op["b"] % 2 else (what[0], what[:1])
        ok = ~np.isnan(np.array([I[f] for f in fs])).any(axis=0)
        idx = np.asarray(index, dtype=object)[ok]
        if len(set(idx)) < 3:
            return None, None

        def check(got, val):
            figs = self.figures(op, got, val)
            names(figs[0], what)
            for t in figs[0].data:
                over_time(t.name, t.x, t.y, list(idx), I[t.name][ok])
            return self.plain(figs)
        return lambda: w["dh"].plot_feature_timeseries(arg, show=op["show"]), check

    def look_heatmap(self, case, w, op):
        I, _ = self.raw(w)
        fs = w["ref"].feats
        how = ["pearson", "spearman", "kendall"][op["a"] % 3]
        want = pd.DataFrame(I)[fs].corr(method=how).to_numpy()

        def check(got, val):
            figs = self.figures(op, got, val)
            t = figs[0].data[0]
            labels("features", t.x, fs)
            labels("features", t.y, fs)
            same("correlations", np.array(t.z, dtype=float).ravel(), want.ravel())
            title(figs[0], how.title())
            return self.plain(figs)
        return lambda: w["dh"].plot_feature_correlation_heatmap(method=how, show=op["show"]), check

    def look_histograms(self, case, w, op):
        I, _ = self.raw(w)
        fs = w["ref"].feats

        def check(got, val):
            figs = self.figures(op, got, val)
            names(figs[0], fs)
            for t in figs[0].data:
                if len(w["ref"].I) > case["max_plot"]:
                    self.grouped(t.name, case["max_plot"], t.x, None, I[t.name])
                else:
                    same(t.name, t.x, I[t.name])
            return self.plain(figs)
        return lambda: w["dh"].plot_superimposed_histograms(show=op["show"]), check

    def look_histogram_2d(self, case, w, op):
        I, _ = self.successive(case, w)
        fs = w["ref"].feats
        a, b = fs[op["a"] % len(fs)], fs[op["b"] % len(fs)]

        def check(got, val):
            figs = self.figures(op, got, val)
            same(a, figs[0].data[0].x, I[a])
            same(b, figs[0].data[0].y, I[b])
            title(figs[0], a, b)
            return self.plain(figs)
        return lambda: w["dh"].plot_2d_histogram(a, b, show=op["show"]), check

    def look_ridgeline(self, case, w, op):
        from scipy.stats import gaussian_kde
        I, _ = self.raw(w)
        fs = w["ref"].feats
        log = bool(op["a"] % 2)
        if case["max_plot"] < len(w["ref"].I) or case["zeros"] or any(np.nanstd(np.log10(x[x > 0])) < 1e-3 or (x > 0).sum() < 5
                                                                      for x in I.values()):
            return None, None

        def check(got, val):
            figs = self.figures(op, got, val)
            names(figs[0], fs)
            offs = list(figs[0].layout.yaxis.tickvals)
            labels("features", figs[0].layout.yaxis.ticktext, fs)
            for f, t, off in zip(fs, figs[0].data, offs):
                x = I[f][~np.isnan(I[f])]
                x = np.log10(x[x > 0]) if log else x
                same(f"range of {f}", [t.x[0], t.x[-1]], [x.min(), x.max()])
                y = gaussian_kde(x)(arr(t.x))
                if not close(arr(t.y) - off, y, rel=1e-3, abs_=1e-4 * y.max()):
                    raise Bad(f"the density of {f} is not that of its data")
            need(list(offs) == sorted(set(offs)), "features are drawn over each other")
            return self.plain(figs)
        return lambda: w["dh"].plot_ridgeline(log_x=log, nbins=20, show=op["show"]), check

    # ------------------------------------------------------------ error analyses
    def estimate(self, case, w):
        from esat.error.bootstrap import Bootstrap
        from esat.error.bs_disp import BSDISP
        from esat.error.displacement import Displacement
        e = case["errors"]
        i = w["models"][case["seed"] % len(w["models"])]
        m = w["batch"].results[i]
        m.metadata["max_iterations"] = 2
        w["base"] = (i, np.array(m.W, dtype=np.float64), np.array(m.H, dtype=np.float64))
        fs = list(w["fs"])
        boot = dict(bootstrap_n=e["n"], block_size=2, threshold=0.6, seed=case["seed"])
        if e["bs"]:
            w["err"]["bs"] = b = Bootstrap(sa=m, feature_labels=fs, model_selected=i, parallel=False, **boot)
            b.run()
        if e["disp"]:
            w["err"]["disp"] = d = Displacement(sa=m, feature_labels=fs, model_selected=i, max_search=20, parallel=False)
            d.run()
        if e["bsdisp"]:
            w["err"]["bsdisp"] = d = BSDISP(sa=m, feature_labels=fs, model_selected=i, max_search=20, **boot)
            d.run(parallel=False)

    def boots(self, w):
        return [r["model"] for r in w["err"]["bs"].bs_results.values()]

    def base_conc(self, w, k, have):
        """Have is what factor k of the base model holds (a factor of nearly nothing is rounded up by 1e-12)."""
        c, d = (np.maximum(conc(w["base"][1], w["base"][2] + e)[k], 1e-4) for e in (0.0, 1e-12))
        have = arr(have)
        tiny = np.abs(c - d) > 1e-4 * np.abs(c)
        need(have.shape == c.shape, f"Base: {len(have)} values, expected {len(c)}")
        same("Base", np.where(tiny, 0.0, have), np.where(tiny, 0.0, c), rel=1e-3)

    def look_bs_factor(self, case, w, op):
        if "bs" not in w["err"]:
            return None, None
        bs, (i, W, H) = w["err"]["bs"], w["base"]
        k = op["a"] % H.shape[0]

        def check(got, val):
            figs = self.figures(dict(op, show=True), got, val)
            names(figs[0], w["fs"] + ["Base"])
            title(figs[0], f"Model {i}", f"Factor {k + 1}")
            X = np.array([100 * np.asarray(m.H, dtype=float)[k] / np.asarray(m.H, dtype=float).sum(axis=0) for m in self.boots(w)])
            for j, t in enumerate(figs[0].data[:-1]):
                if not close(t.y, X[:, j], rel=1e-3, abs_=0.011):
                    raise Bad(f"percentages of {t.name}: {list(t.y)}, expected {X[:, j].tolist()}")
            labels("features", figs[0].data[-1].x, w["fs"])
            same("Base", figs[0].data[-1].y, 100 * H[k] / H.sum(axis=0))
            return self.plain(figs)
        return lambda: bs.plot_factor(k + 1), check

    def look_bs_contribution(self, case, w, op):
        if "bs" not in w["err"]:
            return None, None
        bs, (i, W, H) = w["err"]["bs"], w["base"]
        k = op["a"] % H.shape[0]

        def check(got, val):
            figs = self.figures(dict(op, show=True), got, val)
            names(figs[0], w["fs"] + ["Base"])
            title(figs[0], f"Model {i}", f"Factor {k + 1}")
            X = np.array([conc(np.asarray(m.W, dtype=float), np.asarray(m.H, dtype=float))[k] for m in self.boots(w)])
            for j, t in enumerate(figs[0].data[:-1]):
                if not close(t.y, np.maximum(X[:, j], 1e-4), rel=1e-3, abs_=2.1e-4):
                    raise Bad(f"concentrations of {t.name}: {list(t.y)}, expected {X[:, j].tolist()}")
            labels("features", figs[0].data[-1].x, w["fs"])
            self.base_conc(w, k, figs[0].data[-1].y)
            return self.plain(figs)
        return lambda: bs.plot_contribution(k + 1), check

    def look_bs_table(self, case, w, op):
        if "bs" not in w["err"]:
            return None, None
        bs, (i, W, H) = w["err"]["bs"], w["base"]
        k = op["a"] % H.shape[0]

        def check(got, val):
            figs = self.figures(dict(op, show=True), got, val)
            title(figs[0], f"Factor {k + 1}")
            t = figs[0].data[0]
            d = dict(zip(t.header["values"], t.cells["values"]))
            X = np.array([np.asarray(m.H, dtype=float)[k] for m in self.boots(w)])
            labels("features", d["features"], w["fs"])
            want = {"Base Run Profile": H[k], "BS Mean": X.mean(0)}
            want.update({f"BS {n}": np.percentile(X, p, axis=0) for n, p in
                         (("5th", 5), ("25th", 25), ("Median", 50), ("75th", 75), ("95th", 95))})
            if len(X) > 1:
                want["BS Std. Dev."] = X.std(axis=0, ddof=1)
            for c, x in want.items():
                if not close(d[c], x, rel=1e-3, abs_=2e-4):
                    raise Bad(f"{c} is {list(d[c])}, expected {x.tolist()}")
            for j in range(len(w["fs"])):
                q1, q3 = np.percentile(X[:, j], 25), np.percentile(X[:, j], 75)
                if min(abs(H[k, j] - q1), abs(H[k, j] - q3)) > 2e-4 + 1e-3 * abs(H[k, j]):
                    need(bool(d["Within IQR"][j]) == (q1 <= H[k, j] <= q3), f"Within IQR of {w['fs'][j]} is {d['Within IQR'][j]}")
            return self.plain(figs)
        return lambda: bs.show_factor_results(k + 1), check

    def look_bs_mapping(self, case, w, op):
        if "bs" not in w["err"]:
            return None, None
        bs = w["err"]["bs"]

        def check(got, val):
            figs = self.figures(dict(op, show=True), got, val)
            K = w["base"][2].shape[0]
            T = np.zeros((K, K + 1))
            for r in bs.bs_results.values():
                for f, v in r["mapping"].items():
                    T[f, v["match"] if v["mapped"] else K] += 1
            t = figs[0].data[0]
            labels("columns", t.header["values"], ["Boot Factors"] + [f"Base Factor {k + 1}" for k in range(K)] + ["Unmapped"])
            labels("rows", t.cells["values"][0], [f"Boot Factor {k + 1}" for k in range(K)])
            for c in range(K + 1):
                same(t.header["values"][c + 1], t.cells["values"][c + 1], T[:, c])
            return self.plain(figs)
        return lambda: bs.show_mapping_table(), check

    def ranges(self, w, op):
        kinds = [q for q in ("disp", "bsdisp") if q in w["err"]]
        if not kinds:
            return None
        e = w["err"][kinds[op["b"] % len(kinds)]]
        k = op["a"] % w["base"][2].shape[0]
        dQ = list(e.dQmax)[op["a"] // 8 % len(e.dQmax)]
        c = e.compiled_results
        sel = c[(c["factor"] == k) & (c["dQ"] == dQ)]
        return e, k, dQ, sel

    def look_disp_profile(self, case, w, op):
        got = self.ranges(w, op)
        if got is None:
            return None, None
        e, k, dQ, sel = got

        def check(got, val):
            figs = self.figures(dict(op, show=True), got, val)
            title(figs[0], f"Model {w['base'][0]}", f"Factor {k + 1}", f"dQ {dQ}")
            names(figs[0], ["Base Run", figs[0].data[1].name])
            for t in figs[0].data:
                labels("features", t.x, w["fs"])
            lo, hi = 100 * sel["profile_min"].to_numpy(float), 100 * sel["profile_max"].to_numpy(float)
            if "disp" in w["err"] and e is w["err"]["disp"]:
                H = w["base"][2]
                if not close(figs[0].data[0].y, 100 * H[k] / H.sum(axis=0), rel=1e-3, abs_=1e-3):
                    raise Bad(f"Base Run: {list(figs[0].data[0].y)}, expected {list(100 * H[k] / H.sum(axis=0))}")
            same("least percentages", figs[0].data[1].base, lo)
            same("most percentages", arr(figs[0].data[1].base) + arr(figs[0].data[1].y), hi)
            return self.plain(figs)
        return lambda: e.plot_profile(factor=k + 1, dQ=dQ), check

    def look_disp_contribution(self, case, w, op):
        got = self.ranges(w, op)
        if got is None:
            return None, None
        e, k, dQ, sel = got

        def check(got, val):
            figs = self.figures(dict(op, show=True), got, val)
            title(figs[0], f"Model {w['base'][0]}", f"Factor {k + 1}", f"dQ {dQ}")
            for t in figs[0].data:
                labels("features", t.x, w["fs"])
            if "disp" in w["err"] and e is w["err"]["disp"]:
                self.base_conc(w, k, figs[0].data[0].y)
            same("least concentrations", figs[0].data[1].base, sel["conc_min"].to_numpy(float))
            same("most concentrations", arr(figs[0].data[1].base) + arr(figs[0].data[1].y), sel["conc_max"].to_numpy(float))
            return self.plain(figs)
        return lambda: e.plot_contribution(factor=k + 1, dQ=dQ), check

    def look_summary(self, case, w, op):
        if "bs" not in w["err"] and "disp" not in w["err"]:
            return None, None
        from esat.error.error import Error
        s = Error(bs=w["err"].get("bs"), disp=w["err"].get("disp"), bsdisp=w["err"].get("bsdisp"))
        i, W, H = w["base"]
        k = op["a"] % H.shape[0]

        def check(got, val):
            figs = self.figures(dict(op, show=True), got, val)
            want = [n for n, q in (("BS", "bs"), ("Disp", "disp"), ("BS-Disp", "bsdisp")) if q in w["err"]] + ["Base"]
            names(figs[0], want)
            title(figs[0], f"Model {i}", f"Factor {k + 1}")
            for t in figs[0].data:
                labels("features", t.x, w["fs"])
                if t.name == "Base":
                    self.base_conc(w, k, t.y)
                    continue
                lo, top = arr(t.base), arr(t.base) + arr(t.y)
                if t.name == "BS":
                    X = np.array([conc(np.asarray(m.W, dtype=float), np.asarray(m.H, dtype=float))[k] for m in self.boots(w)])
                    X = np.maximum(X, 1e-4)
                    a, b = X.min(axis=0), X.max(axis=0)
                else:
                    c = w["err"]["disp" if t.name == "Disp" else "bsdisp"].compiled_results
                    c = c[(c["factor"] == k) & (c["dQ"] == 4)]
                    a, b = c["conc_min"].to_numpy(float), c["conc_max"].to_numpy(float)
                if not close(lo, a, rel=1e-3, abs_=2.1e-4) or not close(top, b, rel=1e-3, abs_=2.1e-4):
                    raise Bad(f"{t.name}: from {lo.tolist()} to {top.tolist()}, expected {a.tolist()} to {b.tolist()}")
            return self.plain(figs)
        return lambda: s.plot_summary(k + 1), check


CHECKS = {"C26": C26()}
