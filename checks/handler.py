"""C23, C27: what a data handler, the statistics made with it and the imputer return after any history of edits."""
import contextlib
import copy
import io
import math
import os
import pickle

import numpy as np
import pandas as pd

from dst import core, fs as simfs, kernel, patches
from dst.check import KSTUB, STUB, SIMPLE_SIM, close, data, make_sim, sim_params
from dst.choose import Chooser
from .store import Store

NAMES = ["Al", "NO3 (ug)", "Zn", "s.4", "élé", "0"]


def frames(seed, m, n, case):
    """(input, uncertainty) as the user holds them: features, location columns, columns to drop, in any column order."""
    rng = np.random.default_rng(seed)
    V, U = data(seed, m, n, zeros=case["zeros"])
    V, U = np.round(V, 4), np.round(U, 4)
    if case["ties"]:
        V = np.round(V, 0) + (0.0 if case["zeros"] else 0.5)
    if case["below"]:
        V[:, 0] = np.minimum(V[:, 0], U[:, 0])
    for f, i, j in case["gaps"]:
        (V if f == "con" else U)[i % m, j % n] = np.nan
    for f, i in case["empty"]:
        (V if f == "con" else U)[i % m] = np.nan
    cols, ucols = {NAMES[j]: V[:, j] for j in range(n)}, {NAMES[j]: U[:, j] for j in range(n)}
    where = rng.integers(0, case["places"], m)
    extra = {}
    loc = case["loc"]
    if loc == "site":
        extra["site"] = np.array(["north", "south", "é st", "x"], dtype=object)[where]
    elif loc == "latlon":
        jitter = lambda: rng.uniform(-3e-7, 3e-7, m)
        extra["latitude"] = np.array([35.123, 35.124, -12.5, 0.001])[where] + jitter()
        extra["longitude"] = np.array([-78.5, -78.5, 130.25, 0.002])[where] + jitter()
    elif loc == "zone":
        extra["zone"] = np.array([3, 5, 8, 13])[where]
        extra["region"] = np.array(["a", "b", "a", "b"], dtype=object)[where]
    for i, j in case.get("noloc", []):          # samples whose place is not known
        c = LOCS[loc][j % len(LOCS[loc])] if loc else None
        if c is not None:
            x = extra[c] if extra[c].dtype.kind in "Of" else extra[c].astype(float)
            x[i % m] = None if x.dtype.kind == "O" else np.nan
            extra[c] = x
    for d in case["drop"]:
        extra[d] = np.array(["q", "r"], dtype=object)[rng.integers(0, 2, m)] if d == "note" else np.round(rng.random(m), 3)
    order = list(cols) + list(extra)
    pos = np.random.default_rng(case["order"])
    order = [order[q] for q in pos.permutation(len(order))]
    if case["index"] == "range":
        index = pd.RangeIndex(m)
    elif case["index"] == "dates":
        index = pd.Index(pd.date_range("2020-01-01", periods=m, freq="6h").astype(str), name="Date")
    else:                       # several places sampled at the same times
        index = pd.Index(pd.Series(pd.date_range("2020-01-01", periods=m, freq="D").astype(str))[np.arange(m) // 2], name="Date")
    I = pd.DataFrame({c: cols.get(c, extra.get(c)) for c in order}, index=index)
    W = pd.DataFrame({c: ucols.get(c, extra.get(c)) for c in order}, index=index)
    return I, W


LOCS = {None: [], "site": ["site"], "latlon": ["latitude", "longitude"], "zone": ["zone", "region"]}


def block(x):
    """The optimal block length of these samples, the mean over the features."""
    from esat.model.recombinator import optimal_block_length
    try:
        with np.errstate(all="ignore"):
            return max(math.floor(np.mean([o.b_star_cb for o in optimal_block_length(x)])), 1)
    except ValueError:
        return max(int(x.shape[1] / 5), 1)


class Ref:
    """What a handler stands for: the rows it was given and the edits made since."""

    def __init__(self, I, U, case, cats=None):
        self.case = case
        self.cols = list(I.columns)
        out = set(LOCS[case["loc"]]) | set(case["drop"]) | {"source_label"}
        self.feats = [c for c in self.cols if c not in out]
        keep = [i for i in range(len(I)) if not (I[self.feats].iloc[i].isna().all() or U[self.feats].iloc[i].isna().all())]
        self.I, self.U = I.iloc[keep], U.iloc[keep]
        self.cats = dict.fromkeys(self.feats, "strong") if cats is None else dict(cats)

    def dataset(self):
        fs = [f for f in self.feats if self.cats[f] != "bad"]
        V = np.array([[np.float32(x) for x in self.I[f]] for f in fs], dtype=np.float32).reshape(len(fs), len(self.I)).T
        U = np.array([[np.float32(x) for x in self.U[f]] for f in fs], dtype=np.float32).reshape(len(fs), len(self.I)).T
        for j, f in enumerate(fs):
            if self.cats[f] == "weak":
                U[:, j] = U[:, j] * 3
        idx = list(self.I.index)
        if self.case["drop_nans"]:
            ok = [i for i in range(len(V)) if not (np.isnan(V[i]).any() or np.isnan(U[i]).any())]
            V, U, idx = V[ok], U[ok], [idx[i] for i in ok]
        return fs, V, U, idx

    def metrics(self):
        rows = {}
        for f in self.feats:
            c, u = self.I[f].to_numpy(float), self.U[f].to_numpy(float)
            sn = 0.0
            for x, y in zip(c, u):
                if x > y:
                    sn += (x - y) / y
            x = c[~np.isnan(c)]
            q = [np.nan] * 5 if not len(x) else [x.min(), *np.percentile(x, [25, 50, 75]), x.max()]
            rows[f] = [self.cats[f], sn / max(len(c), 1)] + q
        return rows

    def places(self):
        """Row numbers per place, places in order of first appearance."""
        L = LOCS[self.case["loc"]]
        out = {}
        for i in range(len(self.I)):
            k = tuple(None if pd.isna(x) else round(float(x), 5) if self.case["loc"] == "latlon" else x
                      for x in (self.I[c].iloc[i] for c in L))
            out.setdefault(k, []).append(i)
        return out


class HandlerBase(Store):
    stub = STUB + [KSTUB, "raw disk under the scratch directory (Python's and pandas' own reading runs for real)"]
    assumptions = ["input and uncertainty have the same columns and rows in the same order", "uncertainties are positive",
                   "small tables (up to 40 rows, 6 features)"]
    simple = {"kernel": "python", "zeros": False, "ties": False, "below": False, "gaps": [], "empty": [], "noloc": [], "drop": [],
              "loc": None, "index": "range", "order": 0, "places": 1, "source": "frames", "max_plot": 10000, "p_short": 0.0,
              "buffer": 0}
    shrink_ints = {}

    def table(self, r):
        loc = r.choice([None, None, None, "site", "latlon", "zone"])
        n = r.randint(1, 6)
        case = {"kernel": r.choice(["python", "sim"]), "m": r.choice([5, 8, 12, 20, 40]), "n": n,
                "dseed": r.randrange(1 << 16), "zeros": r.random() < 0.3, "ties": r.random() < 0.25,
                "below": r.random() < 0.25, "loc": loc, "places": r.randint(1, 4), "order": r.randrange(100),
                "gaps": [[r.choice(["con", "unc"]), r.randrange(40), r.randrange(6)] for _ in range(r.choice([0, 0, 1, 2, 5]))],
                "empty": [[r.choice(["con", "unc"]), r.randrange(40)] for _ in range(r.choice([0, 0, 0, 1, 2]))],
                "noloc": [[r.randrange(40), r.randrange(2)] for _ in range(r.choice([0, 0, 1, 3]))] if loc else [],
                "drop": r.choice([[], [], ["PM"], ["note"], ["note", "PM"]]),
                "index": r.choice(["range", "dates", "dates", "same"]),
                "drop_nans": r.random() < 0.8, "max_plot": r.choice([10000, 10000, 3, 7]),
                "source": r.choice(["frames", "csv", "csv", "txt"]), "p_short": r.choice([0.0, 0.0, 0.3]),
                "buffer": r.choice([0, 0, 64]), "sim": sim_params(r, p_line=False)}
        if n == 1 and case["index"] == "range":
            case["source"] = "frames"           # a file of one column has nothing that separates columns
        return case

    def options(self, case):
        L, d = LOCS[case["loc"]], list(case["drop"])
        return {"drop_col": d or None, "drop_nans": case["drop_nans"],
                "loc_cols": None if not L else L[0] if len(L) == 1 and case["order"] % 2 else list(L),
                "max_plotting_n": case["max_plot"]}

    def write(self, case, I, U, scratch):
        """The files of the user; returns (paths, index_col, frames as these files hold them)."""
        ext, sep = ("csv", ",") if case["source"] == "csv" else ("txt", "\t")
        ps = [os.path.join(scratch, f"{n}.{ext}") for n in ("con", "unc")]
        named = I.index.name is not None
        for p, f in zip(ps, (I, U)):
            with simfs.R_open(p, "w", encoding="utf-8", newline="") as fh:
                f.to_csv(fh, sep=sep, index=named)
        return ps, ("Date" if named and case["order"] % 3 else 0 if named else None)

    # ------------------------------------------------------------ comparisons
    def look(self, out, dh, ref, where, which=("data", "metrics")):
        P = self.prop
        if "metrics" in which:
            want = ref.metrics()
            have = dh.metrics
            if list(have.index) != ref.feats:
                return out.bad(f"{P}:metrics", f"{where}: metrics describe {list(have.index)} instead of {ref.feats}")
            for f in ref.feats:
                row = have.loc[f, ["Category", "S/N", "Min", "25th", "50th", "75th", "Max"]].tolist()
                if row[0] != want[f][0]:
                    return out.bad(f"{P}:metrics", f"{where}: category of {f} is {row[0]}, set to {want[f][0]}")
                if not close([float(x) for x in row[1:]], want[f][1:], rel=1e-6, abs_=1e-9):
                    return out.bad(f"{P}:metrics", f"{where}: metrics of {f} are {row[1:]}, the data give {want[f][1:]}")
            for nm, i in (("min_values", 2), ("max_values", 6)):
                a = getattr(dh, nm)
                if list(a.index) != ref.feats or not close(a.to_numpy(float), [want[f][i] for f in ref.feats], rel=1e-9):
                    return out.bad(f"{P}:metrics", f"{where}: {nm} is {a.to_dict()}")
        if "data" in which:
            fs, V, U, idx = ref.dataset()
            hv, hu = dh.get_data()
            if hv.dtype != np.float32 or hu.dtype != np.float32:
                return out.bad(f"{P}:data", f"{where}: types {hv.dtype}, {hu.dtype}")
            if list(dh.features) != fs:
                return out.bad(f"{P}:features", f"{where}: features {list(dh.features)}, expected {fs}")
            for nm, a, b in (("data", hv, V), ("uncertainty", hu, U)):
                if a.shape != b.shape:
                    return out.bad(f"{P}:{nm}", f"{where}: {nm} has shape {a.shape}, expected {b.shape}")
                if not close(a, b, rel=1e-6, abs_=1e-11):
                    d = np.argwhere(~((np.abs(a - b) <= 1e-11 + 1e-6 * np.abs(b)) | (np.isnan(a) & np.isnan(b))))[0]
                    return out.bad(f"{P}:{nm}", f"{where}: {nm}[{d[0]}, {fs[d[1]]}] is {a[tuple(d)]}, expected {b[tuple(d)]}")
            for nm, df, b in (("input_data_df", dh.input_data_df, V), ("uncertainty_data_df", dh.uncertainty_data_df, U)):
                if list(df.columns) != fs or list(map(str, df.index)) != list(map(str, idx)) \
                        or not close(df.to_numpy(), b, rel=1e-6, abs_=1e-11):
                    return out.bad(f"{P}:frames", f"{where}: {nm} does not hold the returned data")
            if "source_label" in ref.I:
                for nm, df in (("data", dh.input_data), ("uncertainty", dh.uncertainty_data)):
                    if "source_label" not in df or df["source_label"].tolist() != ref.I["source_label"].tolist():
                        return out.bad(f"{P}:labels", f"{where}: the {nm} of the merged handlers are not labelled with where "
                                                      f"they come from")
            if not (isinstance(dh.optimal_block, (int, np.integer)) and dh.optimal_block >= 1):
                return out.bad(f"{P}:block", f"{where}: optimal block {dh.optimal_block!r}")
            if dh.optimal_block != block(np.array(hv)):
                return out.bad(f"{P}:block", f"{where}: the optimal block is {dh.optimal_block}, of the returned data it is "
                                             f"{block(np.array(hv))}")
        return True

    def others(self, case, DataHandler, op, n):
        hs, fr = [], []
        for q in range(n):
            c = dict(case)
            if op.get("differ") and q == n - 1:
                c["drop"] = [] if case["drop"] else ["PM"]
            i, u = frames(op["seed"] + q, 6 + 2 * q, case["n"], dict(c, gaps=[], empty=[]))
            h = DataHandler.load_dataframe(i.copy(), u.copy(), **self.options(c))
            if q == 0:
                h.set_category(h.features[0], "bad")
            hs.append(h)
            fr.append((i, u))
        return hs, fr

    def merged(self, ref, fr, labels, case):
        ins, us = [], []
        for (i, u), l in zip(fr, labels):
            ins.append(i.assign(source_label=l))
            us.append(u.assign(source_label=l))
        old = "source_label" in ref.I
        ins.append(ref.I if old else ref.I.assign(source_label="self"))
        us.append(ref.U if old else ref.U.assign(source_label="self"))
        return Ref(pd.concat(ins, ignore_index=True), pd.concat(us, ignore_index=True), case, ref.cats)


class C23(HandlerBase):
    prop = "C23"
    rule = ("a run is a history of up to 10 categorisations, reads, merges, splits, statistics, saves, failed operations and "
            "changes to returned or passed tables on one data handler, compared with an independent table model after "
            "every step; non-trivial when an edit or a fault came before a comparison")
    runs = {"quick": 1500, "thorough": 30000}

    def gen(self, r, tier, i):
        case = self.table(r)
        ops = []
        for _ in range(r.randint(2, 8)):
            o = r.random()
            if o < 0.35:
                ops.append({"do": "cat", "f": r.randrange(8), "cat": r.choice(["bad", "weak", "weak", "strong", "Bad", "", None]),
                            "what": r.choice(["feature"] * 6 + ["unknown", "none", "extra"])})
            elif o < 0.50:
                ops.append({"do": "get"})
            elif o < 0.60:
                ops.append({"do": "merge", "others": r.randint(0, 2), "labels": r.choice([0, 0, 0, 0, 1, -1]),
                            "differ": r.random() < 0.25, "seed": r.randrange(1 << 16)})
            elif o < 0.69:
                ops.append({"do": "split"})
            elif o < 0.77:
                ops.append({"do": "spoil", "what": r.choice(["returned", "given", "frames"])})
            elif o < 0.83:
                ops.append({"do": "pickle"})
            elif o < 0.92:
                ops.append({"do": "fail", "op": r.choice(["get", "merge", "split", "cat"]), "line": r.randint(1, 60),
                            "seed": r.randrange(1 << 16), "error": r.choice(["MemoryError", "KeyboardInterrupt"])})
            else:
                ops.append({"do": "stats", "k": r.randint(1, 2), "seed": r.randrange(1000)})
        case["ops"] = ops
        case["fault"] = {"kind": "eio-read", "op": r.randrange(12)} if r.random() < 0.35 else None
        return case

    def shrink(self, case):
        if case["fault"]:
            yield dict(case, fault=None)
        yield from super().shrink(case)

    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        from esat.data.datahandler import DataHandler
        fs = simfs.SimFS(scratch, ch, buffer=case["buffer"], p_short=case["p_short"])
        I, U = frames(case["dseed"], case["m"], case["n"], case)
        if not Ref(I, U, case).I.shape[0]:
            out.counts["no-data"] += 1
            return
        sim = make_sim(ch, case["sim"])
        sim.fs = fs
        st = {"line": None, "n": 0, "error": None, "hit": False}

        def hook(s, frame):
            if st["line"] is None or not frame.f_code.co_filename.endswith("datahandler.py"):
                return
            st["n"] += 1
            if st["n"] >= st["line"]:
                st["line"], st["hit"] = None, True
                s.fault("allocation-failure-at-line" if st["error"] is MemoryError else "interrupt-at-line")
                raise st["error"]("injected")
        sim.line_hooks = hook

        def body():
            with contextlib.redirect_stdout(io.StringIO()):
                self.story(case, DataHandler, fs, I, U, st, out, scratch)
        sim.run(body)
        out.take(sim)

    def opened(self, case, DataHandler, fs, I, U, out, scratch):
        """(handler, its reference, frames passed to it)"""
        if case["source"] == "frames":
            given = (I.copy(), U.copy())
            return DataHandler.load_dataframe(*given, **self.options(case)), Ref(I, U, case), given
        ps, index_col = self.write(case, I, U, scratch)
        before = [simfs.R_open(p, "rb").read() for p in ps]
        for plan in [case["fault"], None] if case["fault"] else [None]:
            fs.arm(plan)
            try:
                dh = DataHandler(ps[0], ps[1], index_col=index_col, **self.options(case))
                err = None
            except OSError as ex:
                dh, err = None, ex
            fired = fs.fired
            fs.arm(None)
            if err is not None and not fired:
                out.bad("C23:read", f"the files cannot be read: {err!r}")
                return None
            if err is None:
                break
        if [simfs.R_open(p, "rb").read() for p in ps] != before or sorted(os.listdir(scratch)) != sorted(map(os.path.basename, ps)):
            out.bad("C23:files", "reading the input files changed the files on disk")
            return None
        if I.index.name is None and index_col is None:
            I, U = I.reset_index(drop=True), U.reset_index(drop=True)
        return dh, Ref(I, U, case), None

    def story(self, case, DataHandler, fs, I, U, st, out, scratch):
        got = self.opened(case, DataHandler, fs, I, U, out, scratch)
        if got is None:
            return
        dh, ref, given = got
        if not self.look(out, dh, ref, f"after reading {case['source']}", ("metrics", "data")):
            return
        if not self.plots(out, dh, ref, case):
            return
        edited = bool(case["fault"])
        for q, op in enumerate(case["ops"]):
            where = f"step {q} ({op['do']})"
            if op["do"] == "fail":
                if not self.failing(case, DataHandler, dh, ref, op, st, out, where):
                    return
                edited = True
            elif op["do"] == "cat":
                if not self.categorise(case, dh, ref, op, out, where):
                    return
                edited = True
            elif op["do"] == "merge":
                ref = self.merging(case, DataHandler, dh, ref, op, out, where)
                if ref is None:
                    return
                edited = True
            elif op["do"] == "split":
                if not self.splitting(case, dh, ref, out, where):
                    return
            elif op["do"] == "spoil":
                self.spoil(dh, given, op)
                edited = True
            elif op["do"] == "pickle":
                dh = pickle.loads(pickle.dumps(dh))
            elif op["do"] == "stats":
                if not self.statistics(case, dh, ref, op, out, where):
                    return
            if not self.look(out, dh, ref, f"after {where}", ("data", "metrics") if q % 2 else ("metrics", "data")):
                return
            out.counts["step-" + op["do"]] += 1
        if given is not None and not any(o["do"] == "spoil" and o["what"] == "given" for o in case["ops"]):
            if not (given[0].equals(I) and given[1].equals(U)):
                out.bad("C23:caller", "the caller's data frames were changed")
                return
        out.nontrivial = edited

    def plots(self, out, dh, ref, case):
        a, b = dh.input_data_plot, dh.uncertainty_data_plot
        if a is None or b is None:
            return out.bad("C23:plot-data", "there are no data to plot")
        if list(a.columns) != ref.feats or list(b.columns) != ref.feats:
            return out.bad("C23:plot-data", f"the data to plot have the columns {list(a.columns)}")
        if len(ref.I) <= case["max_plot"]:
            if not close(a.to_numpy(float), ref.I[ref.feats].to_numpy(float)) or \
                    not close(b.to_numpy(float), ref.U[ref.feats].to_numpy(float)):
                return out.bad("C23:plot-data", "the data to plot are not the data")
        elif len(a) > case["max_plot"] or len(b) > case["max_plot"]:
            return out.bad("C23:plot-data", f"{len(a)} samples to plot, at most {case['max_plot']} were asked for")
        else:
            for f in ref.feats:
                for nm, x, y in (("data", a[f], ref.I[f]), ("uncertainty", b[f], ref.U[f])):
                    x, y = x.dropna(), y.dropna()
                    if len(x) and (x.min() < y.min() - 1e-9 or x.max() > y.max() + 1e-9):
                        return out.bad("C23:plot-data", f"{nm} to plot of {f} lie outside of its range")
                if ref.I[f].nunique() > 1 and a[f].dropna().empty:
                    return out.bad("C23:plot-data", f"nothing to plot of {f}")
        return True

    def categorise(self, case, dh, ref, op, out, where):
        if op["what"] == "feature":
            f = ref.feats[op["f"] % len(ref.feats)]
        else:
            f = {"unknown": "no such feature", "none": None,
                 "extra": (LOCS[case["loc"]] + list(case["drop"]) + ["no such feature"])[0]}[op["what"]]
        ok = op["what"] == "feature" and op["cat"] in ("strong", "weak", "bad")
        got = dh.set_category(f, op["cat"])
        if got is not ok:
            return out.bad("C23:set-category", f"{where}: set_category({f!r}, {op['cat']!r}) returned {got!r}")
        if ok:
            ref.cats[f] = op["cat"]
        return True

    def merging(self, case, DataHandler, dh, ref, op, out, where):
        hs, fr = self.others(case, DataHandler, op, op["others"])
        labels = [f"s{q}" for q in range(len(hs) + (op["labels"] if len(hs) + op["labels"] >= 0 else 0))]
        ok = len(hs) > 0 and len(labels) == len(hs) and not op["differ"]
        mine = [h.input_data.copy() for h in hs]
        got = dh.merge(hs, labels)
        if got is not ok:
            out.bad("C23:merge", f"{where}: merge of {len(hs)} handlers with {len(labels)} labels "
                                 f"(other columns: {op['differ']}) returned {got!r}")
            return None
        if any(not a.equals(h.input_data) for a, h in zip(mine, hs)):
            out.bad("C23:merge", f"{where}: a merged handler was changed")
            return None
        return self.merged(ref, fr, labels, case) if ok else ref

    def splitting(self, case, dh, ref, out, where):
        before = pickle.dumps((dh.input_data, dh.uncertainty_data, dh.metrics))
        parts = dh.split_locations()
        if pickle.dumps((dh.input_data, dh.uncertainty_data, dh.metrics)) != before:
            return out.bad("C23:split", f"{where}: the handler that was split was changed")
        if not LOCS[case["loc"]]:
            return parts == [] or out.bad("C23:split", f"{where}: {len(parts)} parts without location columns")
        want = ref.places()
        if len(parts) != len(want):
            return out.bad("C23:split", f"{where}: {len(parts)} parts of {len(want)} places {list(want)}")
        for h, (key, rows) in zip(parts, want.items()):
            loc = h.metadata.get("location", {})
            if sorted(loc) != sorted(LOCS[case["loc"]]) or any(
                    (not pd.isna(loc[c]) if v is None else abs(loc[c] - v) > 1e-9 if isinstance(v, float) else loc[c] != v)
                    for c, v in zip(LOCS[case["loc"]], key)):
                return out.bad("C23:split", f"{where}: part of {key} is labelled {loc}")
            sub = Ref(ref.I.iloc[rows], ref.U.iloc[rows], case)
            if not self.look(out, h, sub, f"{where}, part {key}"):
                return False
        out.counts["split-parts"] += len(parts)
        return True

    def spoil(self, dh, given, op):
        """A caller changes a table it was given or gave."""
        if op["what"] == "given" and given is not None:
            for g in given:
                for c in g.columns:
                    if g[c].dtype.kind == "f":
                        g[c] = -7.0
        elif op["what"] == "frames":
            dh.get_data()
            for g in (dh.input_data_df, dh.uncertainty_data_df):
                if g.shape[1]:
                    g.iloc[:, 0] = -9.0
        else:
            a, b = dh.get_data()
            a[:] = -5.0
            b[:] = -5.0

    def failing(self, case, DataHandler, dh, ref, op, st, out, where):
        """An operation during which an allocation fails (or the user interrupts), followed by a retry of reads."""
        hs, fr = self.others(case, DataHandler, op, 1)
        cols = list(dh.input_data.columns)
        state = (dh.input_data, dh.uncertainty_data, dh.metrics.copy(), cols)
        f = ref.feats[op["line"] % len(ref.feats)]
        st.update(line=op["line"], n=0, hit=False, error={"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt}[op["error"]])
        call = {"get": dh.get_data, "merge": lambda: dh.merge(hs, ["x"]), "split": dh.split_locations,
                "cat": lambda: dh.set_category(f, "weak")}[op["op"]]
        done = False
        try:
            call()
            done = True
        except (MemoryError, KeyboardInterrupt):
            if not st["hit"]:
                raise
        finally:
            st["line"] = None
        out.counts["failed-" + op["op"] if st["hit"] else "unfailed-" + op["op"]] += 1
        if op["op"] == "cat":
            now = dh.metrics.loc[f, "Category"]
            if done and now != "weak" or not done and now not in ("weak", ref.cats[f]):
                return out.bad("C23:failed-step", f"{where}: the category of {f} is {now}")
            ref.cats[f] = now
        elif op["op"] == "merge" and (done or len(dh.input_data) != len(state[0])):
            # it completed, or the failure came after its effect
            new = self.merged(ref, fr, ["x"], case)
            ref.__dict__.update(new.__dict__)
        elif dh.input_data is not state[0] or dh.uncertainty_data is not state[1] or list(dh.input_data.columns) != cols \
                or not dh.metrics.equals(state[2]):
            return out.bad("C23:failed-step", f"{where}: a failed {op['op']} changed the data handler")
        return True

    def statistics(self, case, dh, ref, op, out, where):
        from esat.data.analysis import ModelAnalysis
        from esat.model.sa import SA
        fs, V, U, idx = ref.dataset()
        if len(fs) < 2 or len(V) < 5 or np.isnan(V).any() or np.isnan(U).any() or len(set(idx)) != len(idx) \
                or any(len(set(V[:, j])) < 3 for j in range(len(fs))):
            return True
        hv, hu = dh.get_data()
        sa = SA(V=hv, U=hu, factors=op["k"], seed=op["seed"], verbose=False)
        sa.initialize()
        sa.train(max_iter=5, converge_delta=1e-9, converge_n=2)
        if not np.isfinite(sa.WH).all():
            return True
        from scipy import stats
        ma = ModelAnalysis(datahandler=dh, model=sa, selected_model=0)
        ma.calculate_statistics()
        s = ma.statistics
        if list(s["Features"]) != fs or list(s["Category"]) != [ref.cats[f] for f in fs]:
            return out.bad("C23:statistics", f"{where}: statistics of {list(zip(s['Features'], s['Category']))}")
        X, E, u = V.astype(float), sa.WH.astype(float), U.astype(float)
        for j, f in enumerate(fs):
            x, e = X[:, j], E[:, j]
            if e.std() < 1e-6 * abs(e.mean()):
                continue                # nothing to correlate with
            r = np.sum((x - x.mean()) * (e - e.mean())) / np.sqrt(np.sum((x - x.mean()) ** 2) * np.sum((e - e.mean()) ** 2))
            slope = np.sum((x - x.mean()) * (e - e.mean())) / np.sum((x - x.mean()) ** 2)
            z = (x - e) / np.maximum(u[:, j], 1e-12)
            ks = stats.ks_1samp(z, stats.norm(z.mean(), z.std(ddof=1)).cdf).statistic
            want = {"r2": r * r, "Slope": slope, "Intercept": e.mean() - slope * x.mean(), "SE": (x - e).std() / np.sqrt(len(x)),
                    "KS Statistic": ks}
            for k, v in want.items():
                if not close(float(s[k].iloc[j]), v, rel=2e-3, abs_=1e-4):
                    return out.bad("C23:statistics", f"{where}: {k} of {f} ({ref.cats[f]}) is {s[k].iloc[j]}, the model and its "
                                                     f"data give {v}")
        m = ma.features_metrics()
        if list(m["Feature"]) != fs:
            return out.bad("C23:statistics", f"{where}: feature metrics of {list(m['Feature'])}")
        for k, v in (("Input Mean", X.mean(axis=0)), ("Input Var", X.var(axis=0)), ("Est Mean", E.mean(axis=0)),
                     ("Est Var", E.var(axis=0)), ("RMSE", np.sqrt(((X - E) ** 2).mean(axis=0)))):
            if not close(m[k].to_numpy(float), v, rel=1e-4, abs_=1.1e-4):
                return out.bad("C23:statistics", f"{where}: {k} of the features is {m[k].tolist()}, the model and its data give "
                                                 f"{v.tolist()}")
        out.counts["statistics-compared"] += 1
        return True


# ------------------------------------------------------------------ C27
SIMPLE = ("mean", "median", "most_frequent")


class C27(HandlerBase):
    prop = "C27"
    rule = ("a run is up to 5 imputations of one data handler's data, alone, interrupted by a failing allocation or next to "
            "another thread's imputation; non-trivial when a value was missing and two imputations are compared")
    runs = {"quick": 500, "thorough": 10000}
    shrink_ints = {}

    def gen(self, r, tier, i):
        case = self.table(r)
        case.update(source="frames", m=r.choice([8, 12, 20]), empty=[], below=False, drop_nans=True,
                    gaps=[[r.choice(["con", "unc"]), r.randrange(40), r.randrange(6)] for _ in range(r.choice([0, 1, 2, 4]))])
        case["sim"] = sim_params(r, p_line=True)
        case["mark"] = r.choice([None, None, -999.0, 0.0])
        ops = []
        for _ in range(r.randint(2, 4)):
            ops.append({"how": r.choice(["mean", "median", "most_frequent", "knn", "knn", "iterative", "iterative", "best"]),
                        "args": r.choice([None, None, {"n_neighbors": 2, "weights": "distance", "max_iter": 3},
                                          {"n_neighbors": 3}, {"weights": "distance"}, {"n_neighbors": 1, "tol": 0.2},
                                          {"max_iter": 2, "tol": 0.05}, {"max_iter": 30}]),
                        "merge": r.random() < 0.2,
                        "seed": r.choice([42, 42, 7]), "cat": r.random() < 0.3, "noise": r.random() < 0.5,
                        "with": r.choice([None, None, "knn", "mean", "iterative"]),
                        "line": r.randint(1, 40) if r.random() < 0.25 else None})
        case["ops"] = ops
        return case

    def shrink(self, case):
        for i, op in enumerate(case["ops"]):
            for k, v in {"with": None, "line": None, "args": None, "cat": False, "noise": False, "merge": False}.items():
                if op[k] != v:
                    yield dict(case, ops=case["ops"][:i] + [dict(op, **{k: v})] + case["ops"][i + 1:])
        yield from super().shrink(case)

    def run(self, case, ch, out, scratch):
        import threading
        patches.set_kernel(case["kernel"])
        from esat.data.datahandler import DataHandler
        from esat.data.impute import DataImputer
        I, U = frames(case["dseed"], case["m"], case["n"], case)
        ref = Ref(I, U, case)
        fs, mark = ref.feats, case["mark"]
        V0, U0 = self.values(ref)
        if not len(V0) or np.isnan(V0).all(axis=0).any() or np.isnan(U0).all(axis=0).any():
            out.counts["no-data"] += 1
            return
        gi, gu = I.copy(), U.copy()
        if mark is not None:
            gi, gu = ref.I.copy(), ref.U.copy()     # rows without any value have no mark to be recognised by
            for g in (gi, gu):
                g[fs] = g[fs].fillna(mark)
        sim = make_sim(ch, case["sim"])
        st = {"line": None, "n": 0, "hit": False}

        def hook(s, frame):
            if st["line"] is None or not frame.f_code.co_filename.endswith("impute.py") or s.current is not s.tasks[0]:
                return
            st["n"] += 1
            if st["n"] >= st["line"]:
                st["line"], st["hit"] = None, True
                s.fault("allocation-failure-at-line")
                raise MemoryError("injected")
        if any(o["line"] for o in case["ops"]):
            sim.line_hooks = hook
        seen = {}

        def imputer(dh, op):
            return DataImputer(dh, random_seed=op["seed"], **({} if mark is None else {"missing_value": mark}))

        def body():
            dh = DataHandler.load_dataframe(gi.copy(), gu.copy(), **self.options(case))
            held = pickle.dumps((dh.input_data, dh.uncertainty_data))
            kept = {}
            for q, op in enumerate(case["ops"]):
                where = f"imputation {q} ({op['how']}, {op['args']}, seed {op['seed']})"
                if op["noise"]:
                    np.random.seed(q)           # the caller's own random numbers are nobody else's business
                    np.random.rand(3)
                if op["cat"]:
                    dh.set_category(fs[q % len(fs)], "weak")
                if op["merge"]:
                    hs, fr = self.others(case, DataHandler, {"seed": q}, 1)
                    dh.merge(hs, ["x"])
                    ref.__dict__.update(self.merged(ref, fr, ["x"], case).__dict__)
                    held = pickle.dumps((dh.input_data, dh.uncertainty_data))
                    seen.clear()
                im = kept.setdefault(op["seed"], imputer(dh, op))
                th, side = None, {}
                if op["with"]:
                    other = imputer(dh, dict(op, how=op["with"]))

                    def work():
                        try:
                            side["r"] = other.impute(strategy=op["with"])
                        except Exception as ex:
                            side["e"] = ex
                    th = threading.Thread(target=work)
                    th.start()
                st.update(line=op["line"], n=0, hit=False)
                try:
                    r, err = im.impute(strategy=op["how"], args=copy.deepcopy(op["args"])), None
                except (Exception, MemoryError) as ex:
                    r, err = None, ex
                st["line"] = None
                if th:
                    th.join()
                    if "e" in side:
                        return out.bad("C27:failed", f"{where}: the imputation beside it failed: {side['e']!r}")
                    if not self.judge(out, side["r"], ref, other, dict(op, how=op["with"], args=None), seen, f"{where}, beside it {op['with']}"):
                        return
                if pickle.dumps((dh.input_data, dh.uncertainty_data)) != held:
                    return out.bad("C27:handler", f"{where}: changed the data of the data handler")
                if op["how"] == "best":
                    if not isinstance(err, (ValueError, MemoryError)):
                        return out.bad("C27:strategy", f"{where}: an unknown strategy gave {err!r}")
                    continue
                if err is not None and st["hit"]:
                    r, err = imputer(dh, op).impute(strategy=op["how"], args=copy.deepcopy(op["args"])), None
                if err is not None:
                    return out.bad("C27:failed", f"{where}: {err!r}")
                if not self.judge(out, r, ref, im if not st["hit"] else None, op, seen, where):
                    return
                out.counts["imputed-" + op["how"]] += 1
            # once more, after everything else
            for (how, seed, args), want in list(seen.items()):
                op = {"how": how, "seed": seed, "args": None if args is None else dict(args)}
                if not self.judge(out, imputer(dh, op).impute(strategy=how, args=op["args"]), ref, None, op, seen,
                                  f"{how} again at the end"):
                    return
            out.nontrivial = bool(np.isnan(V0).any() or np.isnan(U0).any()) and bool(seen)
        sim.run(body)
        out.take(sim)

    def values(self, ref):
        """The values as the user sees them: those of the mark are missing."""
        VU = [f[ref.feats].to_numpy(float).copy() for f in (ref.I, ref.U)]
        if ref.case["mark"] is not None:
            for x in VU:
                x[x == ref.case["mark"]] = np.nan
        return VU

    def reference(self, op, x):
        from sklearn.experimental import enable_iterative_imputer  # noqa: F401
        from sklearn.impute import IterativeImputer, KNNImputer
        a = op["args"] or {}
        if op["how"] == "knn":
            return KNNImputer(n_neighbors=a.get("n_neighbors", 5), weights=a.get("weights", "uniform")).fit_transform(x)
        return IterativeImputer(max_iter=a.get("max_iter", 10), tol=a.get("tol", 1e-3), random_state=op["seed"]).fit_transform(x)

    def judge(self, out, r, ref, im, op, seen, where):
        if not (isinstance(r, tuple) and len(r) == 2):
            return out.bad("C27:result", f"{where}: returns {type(r).__name__}")
        fs = ref.feats
        V0, U0 = self.values(ref)
        for nm, df, x in (("data", r[0], V0), ("uncertainty", r[1], U0)):
            if list(df.columns) != fs or list(map(str, df.index)) != list(map(str, ref.I.index)):
                return out.bad("C27:labels", f"{where}: the imputed {nm} are labelled {list(df.columns)}, {len(df)} samples")
            y = df.to_numpy(float)
            if np.isnan(y).any():
                return out.bad("C27:incomplete", f"{where}: {nm} are still missing after the imputation")
            if not np.array_equal(y[~np.isnan(x)], x[~np.isnan(x)]):
                return out.bad("C27:observed", f"{where}: observed {nm} were changed")
            if op["how"] in ("knn", "iterative") and np.isnan(x).any():
                w = self.reference(op, x)
                if not close(y, w, rel=1e-6, abs_=1e-9):
                    i, j = np.argwhere(~np.isclose(y, w, rtol=1e-6, atol=1e-9))[0]
                    return out.bad("C27:value", f"{where}: {nm} of {fs[j]} in sample {i} imputed with {y[i, j]}, this strategy "
                                                f"gives {w[i, j]}")
                out.counts["reference-" + op["how"]] += 1
            for j in range(len(fs)):
                gap = np.isnan(x[:, j])
                if not gap.any():
                    continue
                o = x[~gap, j]
                if op["how"] in SIMPLE:
                    if op["how"] == "most_frequent":
                        v, c = np.unique(o, return_counts=True)
                        w = v[np.argmax(c)]
                    else:
                        w = o.mean() if op["how"] == "mean" else np.median(o)
                    if not close(y[gap, j], np.full(gap.sum(), w), rel=1e-9):
                        return out.bad("C27:value", f"{where}: {nm} of {fs[j]} imputed with {y[gap, j][0]}, its {op['how']} is {w}")
                elif op["how"] == "knn" and (y[gap, j].min() < o.min() - 1e-9 or y[gap, j].max() > o.max() + 1e-9):
                    return out.bad("C27:value", f"{where}: {nm} of {fs[j]} imputed with {y[gap, j]} from {o.min()} to {o.max()}")
        if im is not None and not np.array_equal(np.asarray(im.imputation_mask), np.isnan(V0) | np.isnan(U0)):
            return out.bad("C27:mask", f"{where}: the mask does not show the missing values")
        if im is not None and not (im.imputed_data.equals(r[0]) and im.imputed_uncertainty.equals(r[1])):
            return out.bad("C27:result", f"{where}: the imputer holds other data than it returned")
        a = op["args"]
        key = (op["how"], op["seed"] if op["how"] == "iterative" else 0,
               None if a is None or op["how"] in SIMPLE else tuple(sorted(a.items())))
        if key in seen:
            if not (seen[key][0].equals(r[0]) and seen[key][1].equals(r[1])):
                return out.bad("C27:reproducible", f"{where}: differs from an earlier imputation of the same data")
            out.counts["repeated"] += 1
        seen[key] = (r[0].copy(), r[1].copy())
        return True


CHECKS = {"C23": C23(), "C27": C27()}
