"""C22: command-line workflows: every command is one simulated process on one simulated disk, with faults in between."""
import configparser
import contextlib
import copy
import hashlib
import io
import json
import logging
import os
import re
import shutil
import tempfile

import numpy as np
import pandas as pd

from dst import core, fs as simfs, patches
from dst.choose import Chooser
from dst.check import data, eq, sim_params
from checks.store import Store, load_class, numeric_rows, same_numbers
from checks.errors import DispBase

DISP_FIELDS = BSD_FIELDS = DispBase.FIELDS
PRISTINE = {}
CONFIGS = ("run_config", "sim_config", "error_config", "constrained_config")
SIM_TEXTS = ["synthetic_data.csv", "synthetic_uncertainty.csv", "synthetic_profiles.csv", "synthetic_contributions.csv"]


# logged as errors, but followed by the documented fallback
NOT_A_FAILURE = ("optimal block size", "reverting to python code")


def quiet(fn):
    return core.Sim(Chooser(trace=[])).run(fn)


def cli():
    import esat.cli.esat_cli as c
    if not PRISTINE:
        for k in CONFIGS:
            PRISTINE[k] = copy.deepcopy(getattr(c, k))
    return c


class Captured(logging.Handler):
    """Everything logged while it is active."""

    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, rec):
        try:
            self.lines.append((rec.levelno, rec.name, rec.getMessage()))
        except Exception as ex:
            self.lines.append((logging.ERROR, rec.name, f"log record cannot be formatted: {ex}"))

    def __enter__(self):
        self.off, self.lvl = logging.root.manager.disable, logging.root.level
        logging.disable(logging.NOTSET)
        logging.root.setLevel(logging.INFO)
        logging.root.addHandler(self)
        self.nshown = len(patches.SHOWN)
        return self

    def __exit__(self, *a):
        logging.root.removeHandler(self)
        logging.root.setLevel(self.lvl)
        logging.disable(self.off)
        self.shown = patches.SHOWN[self.nshown:]
        del patches.SHOWN[self.nshown:]

    def errors(self):
        return [m for lv, _, m in self.lines if lv >= logging.ERROR and not any(x in m for x in NOT_A_FAILURE)]

    def texts(self):
        return [m for _, _, m in self.lines]


def figures(shown):
    return [f.to_json() for f in shown]


# ------------------------------------------------------------------ what a stored result says
def essence(key, o):
    if o is None:
        return None
    if key == "batch":
        return {"factors": o.factors, "models": o.models, "method": o.method, "seed": o.seed, "max_iter": o.max_iter,
                "converge_delta": o.converge_delta, "converge_n": o.converge_n, "init_method": o.init_method,
                "init_norm": o.init_norm, "best": o.best_model, "V": o.V, "U": o.U,
                "results": [None if s is None else (s.W, s.H, s.WH, s.Qtrue, s.Qrobust, s.converge_steps,
                                                    s.converged, s.seed, s.V, s.U) for s in o.results]}
    if key == "disp":
        return {"incr": flat(o.increase_results, DISP_FIELDS), "decr": flat(o.decrease_results, DISP_FIELDS),
                "compiled": o.compiled_results, "swap": o.swap_table, "count": o.count_table,
                "model": o.selected_model, "labels": list(o.feature_labels), "features": o.features,
                "H": o.sa.H, "W": o.sa.W}
    if key == "bs":
        return {"map": o.mapping_df, "q": o.q_results, "tables": o.factor_tables, "profiles": o.bs_profiles,
                "contrib": o.bs_factor_contributions, "model": o.model_selected, "labels": list(o.feature_labels),
                "n": o.bootstrap_n, "block": o.block_size, "thr": o.threshold, "H": o.base_H, "seed": str(o.bs_seed),
                "runs": {k: (x["model"].W, x["model"].H, x["index"]) for k, x in o.bs_results.items()}}
    if key == "bsdisp":
        return {"runs": {k: (flat(d.increase_results, BSD_FIELDS), flat(d.decrease_results, BSD_FIELDS))
                         for k, d in o.disp_results.items()}, "compiled": o.compiled_results, "swap": o.swap_table,
                "count": o.count_table, "drops": o.n_drops, "dswap": o.disp_swap, "fswap": o.fit_swaps,
                "bs": essence("bs", o.bootstrap), "labels": list(o.feature_labels), "model": o.model_selected}
    if key == "con":
        c = o.constrained_model
        return {"constraints": sorted(o.constraints), "expressions": [str(x) for x in o.expressions],
                "soft": o.softness, "base": (o.base_model.W, o.base_model.H),
                "model": None if c is None else (c.W, c.H, c.WH, c.Qtrue, c.Qrobust, c.converge_steps, c.converged)}
    if key == "sim":
        f = o.factor_compare
        return {"data": o.syn_data, "unc": o.syn_uncertainty, "H": o.syn_profiles, "W": o.syn_contributions,
                "df": None if o.syn_data_df is None else o.syn_data_df.to_numpy(),
                "compare": None if f is None else (f.best_model, f.factor_map, f.best_avg_r, f.best_factor_r,
                                                   f.model_results)}
    raise KeyError(key)


def flat(res, fields):
    return {(f, j, q): tuple(res[f][j][q][x] for x in fields) for f in res for j in res[f] for q in res[f][j]}


def deep_diff(a, b, path=""):
    """Where two essences differ, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(map(str, a)) != sorted(map(str, b)):
            return f"{path}: {sorted(map(str, a))[:4]} / {sorted(map(str, b))[:4]}"
        for k in a:
            r = deep_diff(a[k], b[k], f"{path}/{k}")
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return f"{path}: {len(a)} / {len(b)} entries"
        for i, (x, y) in enumerate(zip(a, b)):
            r = deep_diff(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if eq(a, b):
        return None
    return f"{path}: {str(a)[:80]} / {str(b)[:80]}"


def plain(d):
    """The text files in a directory, without the times and directories in them."""
    t = {}
    for f in sorted(os.listdir(d)):
        if not f.endswith(".pkl"):
            with simfs.R_open(os.path.join(d, f), encoding="utf-8") as fh:
                t[f] = re.sub(r"\d\d/\d\d/\d{4}, \d\d:\d\d:\d\d[^\"]*|Metadata File: .*", "-", fh.read())
    return t


KEYS = {"batch": "BatchSA", "disp": "Displacement", "bs": "Bootstrap", "bsdisp": "BSDISP", "con": "ConstrainedModel",
        "sim": "Simulator"}


class C22(Store):
    prop = "C22"
    rule = ("a run is one project: up to 10 command-line steps, each a process of its own on one shared disk, with faults "
            "during steps; non-trivial when at least two steps worked on stored results or a fault fired")
    runs = {"quick": 400, "thorough": 5000}
    assumptions = Store.assumptions + ["one command of a project runs at a time", "the user edits the configuration files "
                                       "between commands and repeats a setup command that failed",
                                       "what a command wrote before it ended has reached the disk when the next one is cut off",
                                       "samples and features of the two input files are in the same order"]
    simple = {"p_short": 0.0, "buffer": 0, "kernel": "python", "dirname": "p", "name": "p", "rel": False, "freq": "D", "gaps": []}
    shrink_ints = {}

    # -------------------------------------------------------------- cases
    def gen(self, r, tier, i):
        kind = "sim" if r.random() < 0.3 else "data"
        n, k = r.randint(3, 5), 2
        case = {"kind": kind, "kernel": r.choice(["python", "sim"]), "n": n, "k": k, "m": r.randint(9, 15),
                "dseed": r.randrange(1 << 16), "name": r.choice(["p", "my project", "v1.2"]),
                "dirname": r.choice(["p", "a b", "x.y", "50% off"]), "rel": r.random() < 0.4,
                "index": r.choice(["0", "Date"]), "freq": r.choice(["D", "D", "h", "30min", "3D", "6h"]),
                "gaps": [[r.choice(["con", "unc"]), r.randrange(15), r.randrange(5)] for _ in range(r.choice([0, 0, 1, 2]))], "p_short": r.choice([0.0, 0.0, 0.2]),
                "buffer": r.choice([0, 0, 64, 512]),
                "sim": dict(sim_params(r, p_line=False), mem_gb=8.0)}
        p = {"factors": k, "models": r.randint(1, 4), "seed": r.randrange(1 << 20), "max_iter": r.choice([6, 12, 25]),
             "method": r.choice(["ls-nmf", "ls-nmf", "ws-nmf"]),
             "converge_delta": r.choice([0.0001, 0.1, 5.0]), "converge_n": r.choice([2, 4]),
             "init_norm": r.random() < 0.5, "init_method": "col_means", "parallel": r.random() < 0.5,
             "verbose": r.random() < 0.3}
        case["run"] = p
        case["pos"] = r.choice([0, 0, 1, n]) if kind == "data" else 0
        if case["index"] == "0":
            case["index"] = str(case["pos"])
        case["shape"] = {"seed": r.randrange(1 << 16), "factors_n": k + r.randint(0, 1), "features_n": n,
                         "samples_n": case["m"], "outliers": r.random() < 0.5,
                         "curves": r.sample(["uniform", "increasing", "decreasing", "periodic"], 2)}
        steps = []
        faulty = r.random() < 0.6

        def add(cmd, **kw):
            st = dict({"cmd": cmd, "fault": None}, **kw)
            if faulty and r.random() < 0.45:
                st["fault"] = {"kind": r.choice(["crash", "crash", "power", "power", "disk-full", "eio", "enospc", "eacces",
                                                 "eio-read"]), "op": r.randrange(r.choice([3, 10, 40, 120])),
                               "again": r.random() < 0.7}
            steps.append(st)

        add("setup")
        if kind == "sim" and r.random() < 0.7:
            add("generate")
        if kind == "sim" and r.random() < 0.3:
            add("setting", what={"sim": {"seed": r.randrange(1 << 16)}})
            if r.random() < 0.6:
                add("generate")
        if r.random() < 0.15:
            add(r.choice(["run-error", "run-constrained", "look", "compare"]), opts=self.opts(r, case))
        if r.random() < 0.2:
            add("estimate", samples=2, min_k=1 + r.randint(0, 1), max_k=3)
        add("run")
        for _ in range(r.randint(1, 5)):
            o = r.random()
            if o < 0.1:
                add("setting", what={"run": {"seed": r.randrange(1 << 20), "models": r.randint(1, 3)}})
                if r.random() < 0.8:
                    add("run")
            elif o < 0.35:
                add("run-error", opts=self.opts(r, case))
            elif o < 0.55:
                add("run-constrained", opts=self.opts(r, case))
            elif o < 0.75 and kind == "sim":
                add("compare", opts=self.opts(r, case))
            else:
                add("look", opts=self.opts(r, case))
        add("look", opts=self.opts(r, case))
        case["steps"] = steps
        return case

    def opts(self, r, case):
        n, k = case["n"], case["k"]
        ms = r.choice([["disp"], ["bs"], ["bs"], ["bs", "disp"]] + [["bsdisp"], ["bs", "bsdisp"]] * (n <= 4))
        feats = lambda: sorted(r.sample(range(n), r.randint(1, 2)))
        return {"methods": ms, "model": r.choice([-1, -1, 0, 1]), "features": feats() if r.random() < 0.8 else [],
                "bfeatures": feats() if n == 5 or r.random() < 0.85 else [],
                "bn": r.choice([2, 3]), "bbn": 2, "block": r.choice([-1, 2, 3]), "bblock": r.choice([-1, 3]),
                "bseed": r.choice([-1, 7, 99]), "bbseed": r.choice([-1, 5]), "thr": r.choice([0.3, 0.6]),
                "search": r.choice([2, 4]), "dQ": r.choice([0.1, 1.0]), "bsout": r.choice(["", "", "saved", "missing"]),
                "con": r.random() < 0.3, "soft": r.choice([1.0, 0.5]), "citer": r.choice([-1, 3, 6]),
                "cdelta": r.choice([-1.0, 0.1, 0.001]), "cn": r.choice([-1, 2]),
                "constraints": r.sample(["set to zero", "define limits", "pull up", "pull down", "set to base value",
                                         "pull to value"], r.randint(1, 3)),
                "cell": [[r.randrange(k), r.randrange(n)] for _ in range(3)],
                "expr": r.random() < 0.4, "what": r.randrange(1 << 16), "i": r.randrange(k), "j": r.randrange(n),
                "which": r.choice([["disp"], ["bs"], ["bsdisp"], ["bs"], ["disp"], ["bs", "disp"], []])}

    def shrink(self, case):
        st = case["steps"]
        for i in reversed(range(1, len(st))):
            yield dict(case, steps=st[:i] + st[i + 1:])
        for i in range(len(st)):
            if st[i]["fault"]:
                yield dict(case, steps=st[:i] + [dict(st[i], fault=None)] + st[i + 1:])
        for c in super().shrink(case):
            yield c
        for k, v in {"models": 1, "max_iter": 6, "parallel": False, "verbose": False, "method": "ls-nmf"}.items():
            if case["run"][k] != v:
                yield dict(case, run=dict(case["run"], **{k: v}))

    # -------------------------------------------------------------- one project
    def run(self, case, ch, out, scratch):
        cli()
        patches.set_kernel(case["kernel"])
        cwd = os.getcwd()
        self_ = Project(self, case, ch, out, scratch)
        try:
            os.makedirs(self_.cwd)
            os.chdir(self_.cwd)
            self_.go()
        finally:
            os.chdir(cwd)


class Project:
    def __init__(self, check, case, ch, out, scratch):
        self.check, self.case, self.ch, self.out = check, case, ch, out
        self.root = os.path.realpath(scratch)
        self.cwd = os.path.join(self.root, "home")
        self.dir = os.path.join(self.root, "home", "work", case["dirname"])
        self.fs = simfs.SimFS(self.root, ch, buffer=case["buffer"], p_short=case["p_short"])
        self.settings = {"run": dict(case["run"]), "sim": dict(case["shape"])}
        self.worked = 0
        self.inputs = {}
        self.refs = set()       # messages the same calculations log without the command line

    def calc(self, fn):
        """The same calculation through the Python interface, without faults."""
        with Captured() as c, contextlib.redirect_stdout(io.StringIO()):
            try:
                return quiet(fn)
            finally:
                self.refs.update(c.errors())

    # ---------- files
    def path(self, key):
        nm = self.case["name"]
        return os.path.join(self.dir, {
            "batch": f"output/{nm}.pkl", "disp": f"error/disp-{nm}.pkl", "bs": f"error/bs-{nm}.pkl",
            "bsdisp": f"error/bsdisp-{nm}.pkl", "con": f"constrained/constrained_model-{nm}.pkl",
            "sim": "esat_simulator.pkl"}[key])

    def tree(self):
        t = {}
        for d, _, fs in os.walk(self.root):
            for f in fs:
                p = os.path.join(d, f)
                with simfs.R_open(p, "rb") as fh:
                    t[os.path.relpath(p, self.dir)] = hashlib.sha1(fh.read()).hexdigest()[:12]
        return t

    def load(self, key):
        p = self.path(key)
        if not os.path.exists(p):
            return None
        o = quiet(lambda: load_class(KEYS[key]).load(p))
        if o is None:
            self.out.bad("C22:destroyed", f"{os.path.relpath(p, self.dir)} can no longer be loaded")
        return o

    def write_inputs(self):
        c = self.case
        os.makedirs(os.path.dirname(self.dir))
        V, U = data(c["dseed"], c["m"], c["n"])
        idx = pd.date_range("2021-03-01", periods=c["m"], freq=c["freq"], name="Date")
        for nm, a in (("con.csv", V), ("unc.csv", U)):
            p = os.path.join(self.cwd, nm)
            a = np.round(a, 4)
            for f, i, j in c["gaps"]:
                if f == nm[:3]:
                    a[i % len(a), j % c["n"]] = np.nan
            df = pd.DataFrame(a, columns=["Al", "NO3 (ug)", "Zn", "s.4", "Ca 2+"][:c["n"]], index=idx)
            with simfs.R_open(p, "w") as f:
                df = df.reset_index()
                df.insert(c["pos"], "Date", df.pop("Date"))
                f.write(df.to_csv(index=False))
            self.inputs[nm] = p
        self.inputs["sim"] = None

    def config(self, name):
        cp = configparser.ConfigParser(interpolation=None)
        with simfs.R_open(os.path.join(self.dir, name + ".toml")) as f:
            cp.read_file(f)
        return cp

    def edit(self, name, what):
        """The user edits a configuration file."""
        cp = self.config(name)
        for sec, kv in what.items():
            if kv is None:
                cp.remove_section(sec)
                continue
            if sec == "constraints" or sec == "expressions" or sec == "contributions":
                cp.remove_section(sec)
                cp.add_section(sec)
            for k, v in kv.items():
                cp[sec][k] = str(v)
        with simfs.R_open(os.path.join(self.dir, name + ".toml"), "w") as f:
            cp.write(f)

    # ---------- commands
    def invoke(self, args, fault=None):
        """One command in one process. Returns how it ended, what it logged and showed, and whether it reported failure."""
        c = cli()
        for k in CONFIGS:
            setattr(c, k, copy.deepcopy(PRISTINE[k]))
        if fault:
            self.fs.arm({"op": fault["op"], "kind": fault["kind"]})
        else:
            self.fs.arm(None)

        def body():
            try:
                c.esat_cli.main(args=list(args), prog_name="esat", standalone_mode=False)
            except SystemExit as ex:
                return ("exit", ex.code)
            return ("done", 0)
        err = []
        self.fs.track.clear()           # what earlier commands wrote has reached the disk by now
        self.fs.synced.clear()
        with Captured() as cap, contextlib.redirect_stdout(io.StringIO()):
            before = dict(self.fs.counts)
            how, v = self.check.life(self.case, self.ch, self.out, self.fs, body,
                                     power=bool(fault) and fault["kind"] == "power")
            if how == "err":
                err.append(f"{type(v).__name__}: {v}")
            elif how == "ok" and v[0] == "exit" and v[1] not in (0, None):
                err.append(f"exit {v[1]}")
            fired = bool(fault) and self.fs.counts.get(fault["kind"], 0) > before.get(fault["kind"], 0)
        err += [e for e in cap.errors() if e not in self.refs]
        self.how, self.cap, self.err, self.exc = how, cap, err, v if how == "err" else None
        self.fired = fired
        return how

    def step_args(self, *args):
        d = os.path.relpath(self.dir) if self.case["rel"] else self.dir
        return [*args, d]

    # ---------- the history
    def go(self):
        self.write_inputs()
        steps = list(self.case["steps"])
        for i, st in enumerate(steps):
            where = f"step {i} {st['cmd']}"
            f = st["fault"]
            if f:
                where += f" ({f['kind']}@{f['op']})"
            if not self.step(st, f, where):
                return
            again = f and self.fired and (f["again"] or st["cmd"] in ("setup", "generate", "compare"))
            if again and not self.step(st, None, where + " repeated"):
                return
        self.out.counts["projects-" + self.case["kind"]] += 1
        self.out.nontrivial = self.worked >= 2 or bool(self.out.faults)

    def step(self, st, fault, where):
        return getattr(self, "do_" + st["cmd"].replace("-", "_"))(st, fault, where)

    def bad(self, sig, msg):
        self.out.bad("C22:" + sig, msg)
        return False

    def untouched(self, before, may, where):
        now = self.tree()
        for f in sorted(set(before) | set(now)):
            if before.get(f) != now.get(f) and not may(f):
                what = "is gone" if f not in now else "was created" if f not in before else "was changed"
                return self.bad("side-effect", f"{where}: {f} {what}")
        return True

    def reported(self, where, expect_ok=True):
        """A command without a fault must do its work; with one it must finish or say that it did not."""
        if not self.fired and expect_ok and (self.how != "ok" or self.err):
            if self.exc is not None:
                raise AssertionError(f"{where}: {self.err[0]}") from self.exc
            return self.bad("failed", f"{where} failed without any fault: {self.err[:2]}")
        return True

    def carry(self, args, fault, where, changes, may):
        """Run a command which turns the stored results into `changes` = {key: essence}."""
        before = self.tree()
        old = {k: before.get(os.path.relpath(self.path(k), self.dir)) for k in changes}
        self.invoke(args, fault)
        self.fs.arm(None)
        if not self.reported(where) or not self.untouched(before, may, where):
            return False
        now = self.tree()
        for k, want in changes.items():
            h = now.get(os.path.relpath(self.path(k), self.dir))
            if h == old[k] and (self.how == "crash" or self.err):
                self.worked += 1
                continue
            if h is None:
                return self.bad("not-stored", f"{where} ended without a report but {os.path.relpath(self.path(k), self.dir)} "
                                              f"does not exist")
            o = self.load(k)
            if o is None:
                return False
            d = deep_diff(essence(k, o), want)
            if d:
                return self.bad("result-" + k, f"{where}: the stored result is not the one of this step's inputs (stored / "
                                               f"expected): {d}")
            self.worked += 1
        return True

    def refuse(self, args, fault, where, may=lambda f: False):
        """A command whose input is missing has to say so and leave everything as it was."""
        before = self.tree()
        self.invoke(args, fault)
        self.fs.arm(None)
        if self.how == "ok" and not self.err:
            return self.bad("silent", f"{where}: what this step needs does not exist, but it reports no failure")
        self.out.counts["refused"] += 1
        return self.untouched(before, may, where)

    # ---------- setup
    def do_setup(self, st, fault, where):
        sim = self.case["kind"] == "sim"
        before = self.tree()
        self.invoke(self.step_args("simulator", "setup") if sim else self.step_args("setup"), fault)
        self.fs.arm(None)
        if not self.reported(where) or not self.untouched(
                before, lambda f: f == "run_config.toml" or sim and f == "sim_config.toml", where):
            return False
        if self.how == "crash" or self.err:
            return True
        for nm in ("run_config",) + (("sim_config",) if sim else ()):
            got, want = self.config(nm), PRISTINE[nm]
            for sec in want.sections():
                for k in want[sec]:
                    w = want[sec][k]
                    if (sec, k) == ("project", "directory"):
                        w = self.dir
                    if sim and nm == "run_config" and k in ("input_path", "uncertainty_path"):
                        w = os.path.join(self.dir, PRISTINE["sim_config"]["data"][k])
                    g = got.get(sec, k, fallback=None)
                    if g is None or (os.path.realpath(g) != os.path.realpath(w) if k in (
                            "directory", "input_path", "uncertainty_path") and w else g != str(w)):
                        return self.bad("setup", f"{where}: {nm}.toml has [{sec}] {k} = {g!r}, expected {w!r}")
        self.apply()
        return True

    def apply(self):
        r = dict(self.settings["run"])
        what = {"project": {"name": self.case["name"]}, "data": {"index_col": self.case["index"]}, "parameters": r}
        if self.case["kind"] == "data":
            what["data"].update(input_path=self.inputs["con.csv"], uncertainty_path=self.inputs["unc.csv"])
        else:
            s = dict(self.settings["sim"])
            cur = s.pop("curves")
            self.edit("sim_config", {"parameters": s, "contributions": {
                str(j): json.dumps({"curve_type": c, "minimum": 0.2, "maximum": 2.0, "scale": 0.1})
                for j, c in enumerate(cur)}})
        self.edit("run_config", what)

    def do_setting(self, st, fault, where):
        self.fired = False
        for k, v in st["what"].items():
            self.settings[k].update(v)
        self.apply()
        return True

    # ---------- what the steps work on
    def sim_expected(self):
        """The simulator `generate` has to store for the current settings."""
        from esat_eval.simulator import Simulator
        s = dict(self.settings["sim"])
        cur = s.pop("curves")
        d = PRISTINE["sim_config"]["parameters"]
        num = {k: float(d[k]) for k in d if k not in ("seed", "factors_n", "features_n", "samples_n", "outliers")}

        def make():
            o = Simulator(**num, **s)
            for j, c in enumerate(cur):
                o.update_contribution(factor_i=j, curve_type=c, minimum=0.2, maximum=2.0, scale=0.1)
            o.get_data()
            return o
        return self.calc(make)

    def dh(self, sim=None):
        from esat.data.datahandler import DataHandler
        if sim is not None:
            df, u = sim.syn_data_df.copy(), sim.syn_uncertainty_df.copy()
        else:
            a, b = ((self.inputs["con.csv"], self.inputs["unc.csv"]) if self.case["kind"] == "data" else
                    (os.path.join(self.dir, SIM_TEXTS[0]), os.path.join(self.dir, SIM_TEXTS[1])))
            if not os.path.exists(a) or not os.path.exists(b):
                return None
            with simfs.R_open(a) as f, simfs.R_open(b) as g:
                df, u = (pd.read_csv(x, index_col="Date", sep=None, engine="python") for x in (f, g))
            if df.shape != u.shape or list(df.index) != list(u.index):
                return None             # texts left by a crash; generate has to be repeated

        def make():
            h = DataHandler.load_dataframe(input_df=df, uncertainty_df=u)
            h.get_data()
            return h
        return self.calc(make)

    def sim_may(self, f):
        return self.case["kind"] == "sim" and (f in SIM_TEXTS or f.startswith("esat_simulator.pkl"))

    def sim_now(self):
        """(stored simulator or the one a step creates on the way, whether it is created)"""
        if self.case["kind"] != "sim":
            return None, False
        if os.path.exists(self.path("sim")):
            return self.load("sim"), False
        return self.sim_expected(), True

    def made_texts(self, s, fault, where):
        """A step generated the synthetic data on its way: a stored simulator promises complete datasets."""
        if not os.path.exists(self.path("sim")):
            return True
        if fault and fault["kind"] == "power":
            return self.do_generate({}, None, where + ", generate again")
        return self.sim_texts(where, s)

    def do_generate(self, st, fault, where):
        s = self.sim_expected()
        if not self.carry(self.step_args("simulator", "generate"), fault, where, {"sim": essence("sim", s)},
                          self.sim_may):
            return False
        return self.how == "crash" or bool(self.err) or self.sim_texts(where, s)

    def sim_texts(self, where, s):
        for f, m in zip(SIM_TEXTS, (s.syn_data, s.syn_uncertainty)):
            try:
                with simfs.R_open(os.path.join(self.dir, f)) as fh:
                    df = pd.read_csv(fh, index_col=0)
            except (OSError, ValueError) as ex:
                return self.bad("sim-text", f"{where}: a simulator is stored, but {f} cannot be read: {ex}")
            if list(df.columns) != s.syn_columns or not same_numbers(df.to_numpy(), m, 1e-9):
                return self.bad("sim-text", f"{where}: {f} does not hold the generated data")
        return True

    def batch_expected(self, dh):
        from esat.model.batch_sa import BatchSA
        p = dict(self.settings["run"])

        def make():
            V, U = dh.get_data()
            b = BatchSA(V=V, U=U, **dict(p, parallel=False, verbose=False))
            b.train()
            return b
        return self.calc(make)

    def do_run(self, st, fault, where):
        s, made = self.sim_now()
        if self.case["kind"] == "sim" and s is None:
            return False
        dh = self.dh(s)
        b = self.batch_expected(dh)
        want = {"batch": essence("batch", b)}
        if made:
            want["sim"] = essence("sim", s)
        if not self.carry(self.step_args("run"), fault, where, want,
                          lambda f: f.startswith("output" + os.sep) or made and self.sim_may(f)):
            return False
        how, err, fired = self.how, self.err, self.fired
        if made and not self.made_texts(s, fault if fired else None, where):
            return False
        self.how, self.err, self.fired = how, err, fired
        if self.how == "crash" or self.err:
            return True
        for i, m in enumerate(b.results):
            if m is None:
                continue
            for part, a in (("profile", m.H), ("contribution", m.W), ("vprime", m.WH), ("residuals", m.V - m.WH)):
                p = os.path.join(self.dir, "output", f"{self.case['name']}-model-{i}-{part}.csv")
                if not os.path.exists(p):
                    return self.bad("text", f"{where}: no {os.path.basename(p)}")
                head, rows = numeric_rows(p)
                if not same_numbers(rows, a):
                    return self.bad("text", f"{where}: {os.path.basename(p)} does not hold model {i}'s numbers")
                if part != "contribution" and ",".join(dh.features) not in head:
                    return self.bad("text", f"{where}: {os.path.basename(p)} does not name the features")
        return True

    def do_estimate(self, st, fault, where):
        from esat.estimator import FactorEstimator
        s, made = self.sim_now()
        if self.case["kind"] == "sim" and s is None:
            return False
        self.edit("run_config", {"estimator": {"samples": st["samples"], "min_k": st["min_k"], "max_k": st["max_k"]}})
        dh = self.dh(s)

        def make():
            V, U = dh.get_data()
            return str(FactorEstimator(V=V, U=U).run(samples=st["samples"], min_factors=st["min_k"],
                                                     max_factors=st["max_k"]))
        want = self.calc(make)
        if not self.carry(self.step_args("estimate"), fault, where, {"sim": essence("sim", s)} if made else {},
                          lambda f: made and self.sim_may(f)):
            return False
        how, err, fired, texts = self.how, self.err, self.fired, self.cap.texts()
        if made and not self.made_texts(s, fault if fired else None, where):
            return False
        self.how, self.err, self.fired = how, err, fired
        if how == "ok" and not err and want not in texts:
            return self.bad("estimate", f"{where}: the estimate shown is not the one of the stored data: "
                                        f"{[t for t in texts if 'Factors' in t][-1:]} for {want}")
        return True

    def do_compare(self, st, fault, where):
        if self.case["kind"] != "sim":
            self.fired = False
            return True
        s, made = self.sim_now()
        b = self.load("batch")
        args = self.step_args("simulator", "compare")
        if s is None or b is None:
            return self.refuse(args, fault, where, lambda f: made and self.sim_may(f))
        if b.best_model is None or b.factors != s.factors_n:
            self.fired = False
            return True             # nothing to compare
        s = copy.deepcopy(s)
        try:
            self.calc(lambda: s.compare(batch_sa=b))
        except TypeError:               # no correlation is defined, e.g. for constant profiles
            return self.refuse(args, fault, where, lambda f: made and self.sim_may(f))
        if not self.carry(args, fault, where, {"sim": essence("sim", s)} if not (made and fault) else {},
                          self.sim_may):
            return False
        return self.how == "crash" or bool(self.err) or self.sim_texts(where, s)

    # ---------- error estimation
    def error_config(self, o):
        self.invoke(self.step_args("setup-error"))
        if self.err or self.how != "ok":
            return self.bad("setup", f"setup-error failed: {self.err[:1]}")
        got = self.config("error_config")
        want = PRISTINE["error_config"]
        for sec in want.sections():
            for k in want[sec]:
                w = os.path.join(self.dir, "run_config.toml") if k == "project_config" else want[sec][k]
                if got.get(sec, k, fallback=None) != str(w):
                    return self.bad("setup", f"error_config.toml: [{sec}] {k} = {got.get(sec, k, fallback=None)!r}, "
                                             f"expected {w!r}")
        bsout = {"": "", "saved": self.path("bs"), "missing": os.path.join(self.dir, "error", "nothing.pkl")}[o["bsout"]]
        self.edit("error_config", {
            "project": {"selected_model": o["model"], "constrained_config": os.path.join(
                self.dir, "constrained_config.toml") if o["con"] else ""},
            "disp": {"features": json.dumps(o["features"])},
            "bs": {"bootstrap_n": o["bn"], "block_size": o["block"], "threshold": o["thr"], "seed": o["bseed"]},
            "bsdisp": {"bootstrap_output": bsout, "bootstrap_n": o["bbn"], "block_size": o["bblock"],
                       "threshold": o["thr"], "seed": o["bbseed"], "threshold_dQ": o["dQ"], "max_search": o["search"],
                       "features": json.dumps(o["bfeatures"])}})
        return True

    def select(self, b, model):
        """The model a selection means, or None where there is none."""
        i = b.best_model if model == -1 else model
        if i is None or i >= len(b.results) or b.results[i] is None:
            return None, i
        return b.results[i], i

    def do_run_error(self, st, fault, where):
        from esat.error.displacement import Displacement
        from esat.error.bootstrap import Bootstrap
        from esat.error.bs_disp import BSDISP
        o = st["opts"]
        where += " " + "+".join(o["methods"])
        if not self.error_config(o):
            return False
        args = self.step_args("run-error", *["--" + m for m in o["methods"]])
        b, dh = self.load("batch"), self.dh()
        may = lambda f: any(f.startswith(os.path.join("error", m + "-")) for m in o["methods"])
        if b is None or dh is None:
            return self.refuse(args, fault, where)
        if o["con"]:
            c = self.load("con")
            sa, i = (None if c is None else c.constrained_model), -1
        else:
            sa, i = self.select(b, o["model"])
        if sa is None:
            return self.refuse(args, fault, where)
        want, bs, made = {}, None, []
        for m in ("disp", "bs", "bsdisp"):
            if m not in o["methods"]:
                continue
            x = copy.deepcopy(sa)
            if m == "disp":
                e = Displacement(sa=x, feature_labels=list(dh.features), model_selected=i, features=list(o["features"]) or None,
                                 parallel=False)
                self.calc(e.run)
            elif m == "bs":
                e = bs = Bootstrap(sa=x, feature_labels=list(dh.features), model_selected=i, bootstrap_n=o["bn"],
                                   block_size=dh.optimal_block if o["block"] == -1 else o["block"], threshold=o["thr"],
                                   seed=x.seed if o["bseed"] == -1 else o["bseed"], parallel=False)
                self.calc(e.run)
            else:
                use = copy.deepcopy(bs)
                if o["bsout"] == "saved":
                    use = copy.deepcopy(bs) if bs is not None else self.load("bs")
                    if use is not None and not (eq(use.base_H, x.H) and eq(use.base_W, x.W)):
                        self.fired = False
                        return True         # a bootstrap of another model: the user's mistake
                if use is None and o["bsout"] or o["bsout"] == "missing":
                    # a bootstrap that does not exist: the methods before it are stored
                    return self.refuse(args, fault, where, lambda f: may(f) and not os.path.basename(f).startswith("bsdisp-"))
                e = BSDISP(sa=x, bootstrap=use, feature_labels=list(dh.features), model_selected=i, bootstrap_n=o["bbn"],
                           block_size=dh.optimal_block if o["bblock"] == -1 else o["bblock"], threshold=o["thr"],
                           seed=x.seed if o["bbseed"] == -1 else o["bbseed"], features=list(o["bfeatures"]) or None,
                           max_search=o["search"], threshold_dQ=o["dQ"])
                self.calc(lambda: e.run(parallel=False))
            want[m] = essence(m, e)
            made.append((f"{m}-{self.case['name']}", e))
        return self.carry(args, fault, where, want, may) and self.exported(where, "error", made)

    def exported(self, where, sub, made):
        """The text files beside the stored results are those of the same results."""
        if self.how == "crash" or self.err:
            return True
        for name, e in made:
            tmp = tempfile.mkdtemp(prefix="ref-", dir=os.path.dirname(self.root))
            try:
                self.calc(lambda: e.save(name, tmp, False))
                want, have = plain(tmp), plain(os.path.join(self.dir, sub))
            finally:
                shutil.rmtree(tmp)
            for f in want:
                if f not in have:
                    return self.bad("text", f"{where}: there is no {sub}/{f}")
                if f.endswith("metadata.json"):
                    continue            # also tells how the calculation was carried out
                if want[f] != have[f] if not f.endswith(".json") else deep_diff(json.loads(want[f]), json.loads(have[f])):
                    return self.bad("text", f"{where}: {sub}/{f} does not hold the stored result")
            self.out.counts["texts-compared"] += len(want)
        return True

    # ---------- constrained model
    def do_run_constrained(self, st, fault, where):
        from esat.rotational.constrained import ConstrainedModel
        o = st["opts"]
        self.invoke(self.step_args("setup-constrained"))
        if self.err or self.how != "ok":
            return self.bad("setup", f"setup-constrained failed: {self.err[:1]}")
        got, w0 = self.config("constrained_config"), PRISTINE["constrained_config"]
        for sec in w0.sections():
            for k in w0[sec]:
                w = os.path.join(self.dir, "run_config.toml") if k == "project_config" else w0[sec][k]
                if got.get(sec, k, fallback=None) != str(w):
                    return self.bad("setup", f"constrained_config.toml: [{sec}] {k} = "
                                             f"{got.get(sec, k, fallback=None)!r}, expected {w!r}")
        cons = []
        for t, cell in zip(o["constraints"], o["cell"]):
            d = {"constraint_type": t, "index": cell, "target": "feature"}
            if t == "define limits":
                d.update(min_value=0.05, max_value=0.4)
            if t in ("pull up", "pull down", "pull to value"):
                d.update(dQ=50)
            if t == "pull to value":
                d.update(target_value=0.3)
            if not any(x["index"] == cell for x in cons):
                cons.append(d)
        ex = [f"(0.66*[factor:0|feature:1])-(4.2*[factor:1|feature:0])=0,250"] if o["expr"] else []
        self.edit("constrained_config", {
            "parameters": {"selected_model": o["model"], "softness": o["soft"], "max_iter": o["citer"],
                           "converge_delta": o["cdelta"], "converge_n": o["cn"]},
            "constraints": dict({f"c{q}": json.dumps(d) for q, d in enumerate(cons)},
                                unused='{"constraint_type":"set to zero","index":[-1,-1],"target":"feature"}'),
            "expressions": dict({f"e{q}": e for q, e in enumerate(ex)},
                                unused="(0.66*[factor:-1|feature:-1])-(4.2*[factor:-1|feature:-1])=0,250")})
        args = self.step_args("run-constrained")
        b, dh = self.load("batch"), self.dh()
        if b is None or dh is None:
            return self.refuse(args, fault, where)
        sa, i = self.select(b, o["model"])
        if sa is None:
            return self.refuse(args, fault, where)

        def make():
            c = ConstrainedModel(base_model=copy.deepcopy(sa), data_handler=dh, softness=o["soft"])
            for d in cons:
                c.add_constraint(**dict(d, index=tuple(d["index"])))
            for e in ex:
                c.add_expression(e)
            c.train(max_iterations=o["citer"] if o["citer"] != -1 else b.max_iter,
                    converge_delta=o["cdelta"] if o["cdelta"] > 0 else b.converge_delta,
                    converge_n=o["cn"] if o["cn"] != -1 else b.converge_n)
            return c
        c = self.calc(make)
        may = lambda f: f.startswith("constrained" + os.sep)
        if c.constrained_model is None:
            return self.refuse(args, fault, where)
        return self.carry(args, fault, where, {"con": essence("con", c)}, may) and self.exported(
            where, "constrained", [(self.case["name"], c)])

    # ---------- analysis
    def do_look(self, st, fault, where):
        """A command that shows something: it has to show what the stored results say, and change nothing."""
        from esat.data.analysis import BatchAnalysis, ModelAnalysis
        o = st["opts"]
        i, j, m = o["i"], o["j"], o["model"]
        S, B, C = "analysis-solution", "analysis-batch", "analysis-constrained"
        sol = lambda f: ("sol", f)
        table = [
            ((B, "plot-loss"), ("batch", lambda x: BatchAnalysis(batch_sa=x).plot_loss())),
            ((B, "plot-distribution"), ("batch", lambda x: BatchAnalysis(batch_sa=x).plot_loss_distribution())),
            (("analysis-input", "metrics"), ("dh", lambda h: logging.info(h.metrics))),
            (("analysis-input", "plot-feature", "-i", j), ("dh", lambda h: h.plot_data_uncertainty(feature_idx=j, include_menu=False))),
            (("analysis-input", "plot-data", "-x", j, "-y", 0), ("dh", lambda h: h.plot_feature_data(x_idx=j, y_idx=0))),
            (("analysis-input", "plot-timeseries", "-i", 0, "-i", j),
             ("dh", lambda h: h.plot_feature_timeseries(feature_selection=[0, j]))),
            ((S, "plot-residuals", "-m", m, "-i", j), sol(lambda a: a.plot_residual_histogram(feature_idx=j))),
            ((S, "statistics", "-m", m), sol(lambda a: (a.calculate_statistics(), logging.info(a.statistics)))),
            ((S, "plot-estimated", "-m", m, "-i", j), sol(lambda a: a.plot_estimated_observed(feature_idx=j))),
            ((S, "plot-timeseries", "-m", m, "-i", j), sol(lambda a: a.plot_estimated_timeseries(feature_idx=j))),
            ((S, "plot-profile", "-m", m, "-i", i), sol(lambda a: a.plot_factor_profile(factor_idx=i))),
            ((S, "plot-fingerprints", "-m", m), sol(lambda a: a.plot_factor_fingerprints())),
            ((S, "plot-gspace", "-m", m, "-x", 1, "-y", 0), sol(lambda a: a.plot_g_space(factor_1=1, factor_2=0))),
            ((S, "plot-contributions", "-m", m, "-i", j), sol(lambda a: a.plot_factor_contributions(feature_idx=j))),
            ((S, "plot-composition", "-m", m), sol(lambda a: a.plot_factor_composition())),
            ((S, "plot-surface", "-m", m, "-i", i + 1), sol(lambda a: a.plot_factor_surface(factor_idx=i + 1))),
            ((C, "summary"), ("con", lambda c: c.display_results())),
            ((C, "plot-q"), ("con", lambda c: c.plot_Q(Qtype="Aux"))),
            ((C, "plot-q", "-q", "True"), ("con", lambda c: c.plot_Q(Qtype="True"))),
            ((C, "eval-constraints"), ("con", lambda c: c.evaluate_constraints())),
            ((C, "eval-expressions"), ("con", lambda c: c.evaluate_expressions())),
            ((C, "plot-profile-contributions", "-i", i + 1), ("con", lambda c: c.plot_profile_contributions(factor_idx=i + 1))),
            ((C, "plot-fingerprints"), ("con", lambda c: c.plot_factor_fingerprints())),
            ((C, "plot-gspace", "-x", 2, "-y", 1), ("con", lambda c: c.plot_g_space(factor_idx1=2, factor_idx2=1, show_base=True, show_delta=True))),
            ((C, "plot-contributions", "-i", j + 1), ("con", lambda c: c.plot_factor_contributions(feature_idx=j + 1))),
            (("analysis-error", "summary"), ("err", lambda e: e.summary())),
            (("analysis-error", "summary"), ("err", lambda e: e.summary())),
            (("analysis-error", "error-results", "--factor_idx", i), ("err", lambda e: e.plot_results(factor=i))),
            (("analysis-error", "error-results", "--factor_idx", i), ("err", lambda e: e.plot_results(factor=i))),
        ]
        if self.case["kind"] == "sim":
            table += 4 * [(("simulator", "plot"), ("sim", lambda s: s.plot_comparison()))]
        pick = o["what"]
        # prefer a command whose input exists, and what was stored last
        have = [t for t in table if self.exists(t[1][0], o)]
        late = [t for t in have if t[1][0] in ("con", "err", "sim")]
        if late and pick % 8 > 3:
            have = late
        args, (src, fn) = (have if have and pick % 8 else table)[pick // 8 % len(have if have and pick % 8 else table)]
        where += " " + " ".join(map(str, args))
        full = self.step_args(*map(str, args))
        if src == "err":
            full += ["--" + w for w in o["which"]]
            where += " " + "+".join(o["which"])
        x = self.source(src, o)
        before = self.tree()
        if src == "err" and len(o["which"]) != 1:
            self.invoke(full, fault)
            self.fs.arm(None)
            if not self.fired and not any("One error estimation method must be selected" in t for t in self.cap.texts()):
                return self.bad("options", f"{where}: not exactly one method selected, but this is not said")
            if self.cap.shown:
                return self.bad("options", f"{where}: shows a figure although {len(o['which'])} methods are selected")
            return self.untouched(before, lambda f: False, where)
        made = src == "sim" and not os.path.exists(self.path("sim"))
        if x is None or src == "sim" and x.factor_compare is None:
            return self.refuse(full, fault, where, lambda f: made and self.sim_may(f)) if x is None else True
        with Captured() as ref, contextlib.redirect_stdout(io.StringIO()):
            try:
                quiet(lambda: fn(x))
            except Exception as ex:
                ref_err = ex
            else:
                ref_err = None
        if ref_err is not None or ref.errors():
            self.fired = False
            return self.bad("shown", f"{where}: the stored results cannot be shown: {ref_err!r} {ref.errors()[:1]}")
        self.invoke(full, fault)
        self.fs.arm(None)
        if not self.reported(where) or not self.untouched(before, lambda f: False, where):
            return False
        if self.how == "crash" or self.err:
            return True
        if figures(self.cap.shown) != figures(ref.shown):
            return self.bad("shown", f"{where}: shows {len(self.cap.shown)} figures, which are not the {len(ref.shown)} of "
                                     f"the stored results")
        have = self.cap.texts()
        for t in [t for t in ref.texts() if t.strip() and not t.startswith("DataHandler") and "optimal block" not in t]:
            if t not in have:
                return self.bad("shown", f"{where}: does not say {t[:120]!r}")
        self.out.counts["look: " + " ".join(map(str, args[:2]))] += 1
        self.worked += 1
        return True

    def exists(self, src, o):
        if src == "dh":
            return self.case["kind"] == "data" or os.path.exists(os.path.join(self.dir, SIM_TEXTS[1]))
        if src == "err":
            return any(os.path.exists(self.path(w)) for w in o["which"])
        return os.path.exists(self.path({"sol": "batch"}.get(src, src)))

    def source(self, src, o):
        from esat.data.analysis import ModelAnalysis
        if src == "dh":
            return self.dh()
        if src == "err":
            return self.load(o["which"][0]) if len(o["which"]) == 1 else None
        if src == "sol":
            b, dh = self.load("batch"), self.dh()
            if b is None or dh is None:
                return None
            sa, i = self.select(b, o["model"])
            if sa is None:
                return None
            return self.calc(lambda: ModelAnalysis(datahandler=dh, model=sa, selected_model=i))
        return self.load(src)


CHECKS = {"C22": C22()}
