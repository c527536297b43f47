"""C06, C07: what is on disk after saves, exports, crashes, power cuts and disk faults, for every class that persists."""
import builtins
import collections
import csv
import glob
import hashlib
import io
import json
import os
import pickle

import numpy as np

from dst import core, fs as simfs, kernel, patches
from dst.choose import Chooser
from dst.check import Check, KSTUB, STUB, SIMPLE_SIM, close, data, eq, make_sim, sim_params

CLASSES = ["SA", "BatchSA", "Bootstrap", "Displacement", "BSDISP", "ConstrainedModel", "Simulator"]


# ------------------------------------------------------------------ content of an object, independent of its layout
def fingerprint(o):
    h = hashlib.sha256()
    seen = {}

    def put(*a):
        h.update(repr(a).encode())

    def walk(x, d):
        if d > 14:
            return
        if x is None or isinstance(x, (bool, int, str, bytes, complex)):
            put(type(x).__name__, x)
            return
        if isinstance(x, float):
            put("f", "nan" if x != x else x)
            return
        if isinstance(x, np.generic):
            walk(np.asarray(x), d)
            return
        if isinstance(x, np.ndarray):
            put("a", str(x.dtype), x.shape)
            if x.dtype == object:
                for y in x.ravel():
                    walk(y, d + 1)
            else:
                h.update(np.ascontiguousarray(x).tobytes())
            return
        if id(x) in seen:
            put("cycle")
            return
        seen[id(x)] = x
        try:
            inner(x, d)
        finally:
            del seen[id(x)]

    def inner(x, d):
        if isinstance(x, dict):
            put("d", len(x))
            for k, v in x.items():
                walk(k, d + 1)
                walk(v, d + 1)
            return
        if isinstance(x, (list, tuple)):
            put(type(x).__name__, len(x))
            for y in x:
                walk(y, d + 1)
            return
        if isinstance(x, (set, frozenset)):
            put("set", sorted(map(repr, x)))
            return
        if hasattr(x, "to_csv") and hasattr(x, "index"):
            put(type(x).__name__, x.to_csv())
            return
        if isinstance(x, np.random.Generator):
            walk(x.bit_generator.state, d + 1)
            return
        if callable(x) and hasattr(x, "__qualname__"):
            put("fn", x.__qualname__)
            return
        st = getattr(x, "__dict__", None)
        put("o", type(x).__name__)
        if st:
            for k in sorted(st):
                put(k)
                walk(st[k], d + 1)
    walk(o, 0)
    return h.hexdigest()[:20]


# ------------------------------------------------------------------ objects to save
_cache = {}


def build(cls, kern, size, variant):
    """An analysis object.  Variants of one class differ in content (and in pickle size): 0 and 1 are finished, 2 has
    been configured but not run, 3 holds negative numbers where the class allows them."""
    key = (cls, kern, size, variant)
    if key not in _cache:
        patches.set_kernel("python" if kern == "python" else "sim")
        sim = core.Sim(Chooser(trace=[]))
        o = sim.run(lambda: _build(cls, size, variant))
        _cache[key] = (pickle.dumps(o), fingerprint(o))
    patches.set_kernel("python" if kern == "python" else "sim")
    return pickle.loads(_cache[key][0])


def original(cls, kern, size, variant):
    """The fingerprint of the object before it was ever pickled."""
    return _cache[(cls, kern, size, variant)][1]


LABELS = ["a", "Zn", "NO3 (ug)", "b,c", "élé", "f", "g", "h"]


def labels(n, size):
    return [f"f{j}" for j in range(n)] if size % 2 == 0 else [s for s in LABELS if "," not in s][:n]


def _build(cls, size, variant):
    from esat.model.sa import SA
    from esat.model.batch_sa import BatchSA
    m, n, k = [(8, 3, 2), (12, 4, 2), (14, 5, 3), (30, 6, 3)][size]
    fresh, signed = variant == 2, variant == 3
    variant %= 2
    V, U = data(100 * size + variant, m + variant, n, neg=signed)
    sa = SA(V=V, U=U, factors=k, seed=variant + 3, method="ws-nmf" if signed else "ls-nmf")
    if fresh and cls == "SA":
        return sa
    sa.initialize()
    if signed and cls == "SA":          # a model with estimates below zero, as ws-nmf may give
        sa.W[::3] = -np.abs(sa.W[::3]) - 0.1
        sa.WH = np.matmul(sa.W, sa.H)
        return sa
    sa.train(max_iter=20 + 5 * variant, converge_delta=1e-6, converge_n=5, model_i=3 + variant)
    sa.metadata["max_iterations"] = 3
    if cls == "SA":
        return sa
    if cls == "BatchSA":
        b = BatchSA(V=V, U=U, factors=k, models=2 + variant, seed=variant, max_iter=5, parallel=False, verbose=False)
        if fresh:
            return b
        b.train()
        return b
    if cls == "Bootstrap":
        return _boot(sa, n, size, variant, fresh)
    if cls == "Displacement":
        from esat.error.displacement import Displacement
        d = Displacement(sa=sa, feature_labels=labels(n, size), model_selected=variant, max_search=6, parallel=False,
                         features=[0, n - 1] if size % 2 == 0 else None)
        if not fresh:
            d.run()
        return d
    if cls == "BSDISP":
        from esat.error.bs_disp import BSDISP
        d = BSDISP(sa=sa, feature_labels=labels(n, size), model_selected=variant, max_search=4,
                   bootstrap=_boot(sa, n, size, variant, fresh), features=[1] if size % 2 == 0 else None, cores=1)
        if not fresh:
            d.run()
        return d
    if cls == "ConstrainedModel":
        return _constrained(sa, V, U, size, fresh)
    if cls == "Simulator":
        from esat_eval.simulator import Simulator
        s = Simulator(seed=variant + 5 + 10 * fresh, factors_n=max(k, 2), features_n=n, samples_n=m, verbose=False)
        if not fresh:
            s.get_data()
        return s
    raise KeyError(cls)


def _boot(sa, n, size, variant, fresh=False):
    from esat.error.bootstrap import Bootstrap
    b = Bootstrap(sa=sa, feature_labels=labels(n, size), model_selected=0, bootstrap_n=2 + variant, block_size=2,
                  parallel=False, seed=7)
    if not fresh:
        b.run()
    return b


def _constrained(sa, V, U, size, fresh=False):
    import pandas as pd
    from esat.data.datahandler import DataHandler
    from esat.rotational.constrained import ConstrainedModel
    idx = pd.date_range("2020-01-01", periods=V.shape[0], freq="D", name="Date")
    cols = labels(V.shape[1], size)
    dh = DataHandler.load_dataframe(input_df=pd.DataFrame(sa.V, columns=cols, index=idx),
                                    uncertainty_df=pd.DataFrame(sa.U, columns=cols, index=idx))
    dh.get_data()
    c = ConstrainedModel(base_model=sa, data_handler=dh, softness=1.0)
    c.add_constraint(constraint_type="set to zero", index=(0, 0), target="feature")
    c.add_constraint(constraint_type="define limits", index=(1, 1), target="feature", min_value=0.1, max_value=0.5)
    if size % 2:
        c.add_expression("(0.66*[factor:0|feature:1])-(4.2*[factor:1|feature:0])=0,250")
    if not fresh:
        c.train(max_iterations=4, converge_delta=1e-6, converge_n=3)
    return c


def do_save(cls, obj, name, d, binary=True, header=None, each=False):
    if cls == "SA":
        return obj.save(model_name=name, output_directory=d, pickle_model=binary, header=header)
    if cls == "BatchSA":
        return obj.save(batch_name=name, output_directory=d, pickle_batch=binary, pickle_model=each, header=header)
    if cls == "Bootstrap":
        return obj.save(bs_name=name, output_directory=d, pickle_result=binary)
    if cls == "Displacement":
        return obj.save(disp_name=name, output_directory=d, pickle_result=binary)
    if cls == "BSDISP":
        return obj.save(bsdisp_name=name, output_directory=d, pickle_result=binary)
    if cls == "ConstrainedModel":
        return obj.save(model_name=name, output_directory=d, pickle_model=binary)
    return obj.save(sim_name=name, output_directory=d)


def load_class(cls):
    from esat.model.sa import SA
    from esat.model.batch_sa import BatchSA
    from esat.error.bootstrap import Bootstrap
    from esat.error.displacement import Displacement
    from esat.error.bs_disp import BSDISP
    from esat.rotational.constrained import ConstrainedModel
    from esat_eval.simulator import Simulator
    return {"SA": SA, "BatchSA": BatchSA, "Bootstrap": Bootstrap, "Displacement": Displacement, "BSDISP": BSDISP,
            "ConstrainedModel": ConstrainedModel, "Simulator": Simulator}[cls]


def success(ret):
    return ret is not None and ret is not False


class Store(Check):
    stub = STUB + [KSTUB, "raw disk under the scratch directory (Python's own buffering and text layers run for real)"]
    assumptions = ["a rename within a directory is atomic and ordered after an fsync of the renamed file; writes not "
                   "fsynced before a power cut may be lost, torn or zero-filled",
                   "one process or thread writes a given file name at a time unless the case says otherwise"]
    simple = {"p_short": 0.0, "buffer": 0, "size": 0, "kernel": "python"}

    def shrink(self, case):
        yield from super().shrink(case)
        ops = case.get("ops")
        if ops:
            for i in range(len(ops)):
                if len(ops) > 1:
                    yield dict(case, ops=ops[:i] + ops[i + 1:])
                if ops[i].get("fault"):
                    yield dict(case, ops=ops[:i] + [dict(ops[i], fault=None)] + ops[i + 1:])
        for k, v in SIMPLE_SIM.items():
            if case["sim"].get(k):
                yield dict(case, sim=dict(case["sim"], **{k: v}))

    def life(self, case, ch, out, fs, fn, line=None, power=False):
        """One process lifetime on the shared disk: ('ok', value), ('err', exception) or ('crash', None)."""
        sim = make_sim(ch, case["sim"])
        sim.fs = fs
        if line is not None:
            sim.crash_at_line = line
            real = sim.crash

            def crash():
                fs.dead = True
                real()
            sim.crash = crash
        try:
            r = ("ok", sim.run(fn))
        except core.SimKilled:
            if not sim.crashed:
                raise
            r = ("crash", None)
        except (Exception, MemoryError) as ex:
            r = ("err", ex)
        if sim.crashed and r[0] != "crash":
            r = ("crash", None)          # a dying process does not get to answer
        out.take(sim)
        if r[0] == "crash":
            fs.settle(power)
        fs.arm(None)
        return r


# ------------------------------------------------------------------ C06
class C06(Store):
    prop = "C06"
    rule = ("a run is a history of up to 7 saves, faulty saves, concurrent saves and loads of one class; non-trivial "
            "when a fault fired or the history holds at least two completed operations")
    runs = {"quick": 3600, "thorough": 40000}

    def gen(self, r, tier, i):
        cls = CLASSES[i % len(CLASSES)]
        ops = []
        for _ in range(r.randint(2, 7)):
            o = r.random()
            name = r.choice(["x", "x", "x", "my model.v2"])
            if o < 0.55:
                op = {"do": "save", "obj": r.randrange(3), "name": name, "fault": None}
                if r.random() < 0.7:
                    kind = r.choice(["crash", "crash", "power", "power", "line", "linepower", "disk-full", "eio",
                                     "enospc", "eacces"])
                    far = r.choice([4, 12, 60, 400])
                    op["fault"] = {"kind": kind, "op": r.randrange(far)}
                ops.append(op)
            elif o < 0.65:
                ops.append({"do": "save2", "name": name, "fault": None})
            elif o < 0.72:
                ops.append({"do": "saveload", "obj": r.randrange(3), "name": name, "fault": None})
            else:
                op = {"do": "load", "name": name, "fault": None}
                if r.random() < 0.2:
                    op["fault"] = {"kind": r.choice(["eio-read", "eio-read", "crash"]), "op": r.randrange(8)}
                ops.append(op)
        ops.append({"do": "load", "name": "x", "fault": None})
        return {"cls": cls, "kernel": r.choice(["python", "sim"]), "size": r.choice([0, 1, 2, 3]), "ops": ops,
                "junk": r.choice([None, None, None, "empty", "text", "json", "truncated", "zeros", "tail", "dir"]),
                "p_short": r.choice([0.0, 0.0, 0.2]), "buffer": r.choice([0, 0, 64, 512]),
                "sim": sim_params(r, p_line=True)}

    simple = dict(Store.simple, junk=None)

    def run(self, case, ch, out, scratch):
        cls = case["cls"]
        objs = [build(cls, case["kernel"], case["size"], v) for v in (0, 1, 2)]
        if cls == "Simulator":
            core.Sim(Chooser(trace=[])).run(objs[2].get_data)      # it generates its data when first saved, with dates from the clock
        d = os.path.join(scratch, "out dir")
        os.makedirs(d)
        probe = os.path.join(scratch, "probe")
        os.makedirs(probe)
        # where does this class put its file?
        paths = {}
        for name in ("x", "my model.v2"):
            for f in glob.glob(probe + "/*"):
                os.remove(f)
            ret = do_save(cls, objs[0], name, probe)
            got = [os.path.basename(f) for f in sorted(glob.glob(probe + "/*.pkl"))]
            if len(got) != 1:
                out.bad("C06:no-file", f"{cls}.save(name={name!r}) wrote {len(got)} .pkl files and returned {ret!r}")
                return
            if cls != "Simulator" and (not isinstance(ret, (str, os.PathLike)) or
                                       os.path.realpath(ret) != os.path.realpath(os.path.join(probe, got[0]))):
                out.bad("C06:path", f"{cls}.save returned {ret!r} for the file {got[0]}")
                return
            if cls == "Simulator" and ret is not True:
                out.bad("C06:path", f"Simulator.save returned {ret!r} although it wrote its files")
                return
            paths[name] = os.path.join(d, got[0])
        prints = [fingerprint(objs[v]) if cls == "Simulator" and v == 2 else original(cls, case["kernel"], case["size"], v)
                  for v in (0, 1, 2)]
        if len(set(prints)) < 3:
            raise RuntimeError("variants do not differ")
        C = load_class(cls)
        fs = simfs.SimFS(scratch, ch, buffer=case["buffer"], p_short=case["p_short"])
        state = {p: {None} for p in paths.values()}     # what a load may find: None or the index of a version
        done = 0
        if case["junk"]:
            self.junk(case, ch, out, fs, C, cls, os.path.join(d, "junk.pkl"), objs[0])
        for k, op in enumerate(case["ops"]):
            p = paths[op["name"]]
            f = op["fault"]
            line = None
            power = False
            if f:
                power = f["kind"] in ("power", "linepower")
                if f["kind"].startswith("line"):
                    line = f["op"]
                else:
                    fs.arm({"op": f["op"], "kind": f["kind"]})
            else:
                fs.arm(None)
            where = f"op {k} {op['do']} {f['kind'] + '@' + str(f['op']) if f else ''}".strip()
            if op["do"] == "save":
                v = op["obj"]
                how, ret = self.life(case, ch, out, fs, lambda: do_save(cls, objs[v], op["name"], d), line, power)
                self.after_save(out, cls, state, p, {v}, how, ret, where, f, fs)
            elif op["do"] == "save2":
                rets = {}

                def both():
                    s = core.active()
                    ts = []
                    for v in (0, 1):
                        def one(v=v):
                            rets[v] = do_save(cls, objs[v], op["name"], d)
                        ts.append(s.spawn(one, f"saver{v}", s.new_proc(f"saver{v}")))
                    s.block(lambda: all(t.done for t in ts), "savers")
                    return [t.exc for t in ts]
                how, ret = self.life(case, ch, out, fs, both)
                if how == "ok" and not any(ret) and all(success(x) for x in rets.values()):
                    state[p] = {0, 1}
                else:
                    bad = [x for x in (ret if how == "ok" else [ret]) if x is not None]
                    out.bad("C06:concurrent", f"{cls}: {where}: two processes saving at the same time: {bad[:1]!r} "
                                              f"{rets}")
                    return
            elif op["do"] == "saveload":
                v = op["obj"]
                got = {}

                def pair():
                    s = core.active()

                    def w():
                        got["ret"] = do_save(cls, objs[v], op["name"], d)

                    def rd():
                        got["load"] = fingerprint_of(C, p)
                    ts = [s.spawn(w, "saver", s.new_proc("saver")), s.spawn(rd, "loader", s.new_proc("loader"))]
                    s.block(lambda: all(t.done for t in ts), "both")
                    return [t.exc for t in ts]
                how, ret = self.life(case, ch, out, fs, pair)
                if how != "ok" or any(ret):
                    out.bad("C06:load-raised", f"{cls}: {where}: {ret!r}")
                    return
                allowed = {None if x is None else prints[x] for x in state[p] | {v}}
                if got["load"] not in allowed:
                    out.bad("C06:mixed", f"{cls}: {where}: a load during a save gives neither the old nor the new object")
                    return
                state[p] = {v}
            else:
                how, ret = self.life(case, ch, out, fs, lambda: fingerprint_of(C, p), line, power)
                if how == "crash":
                    continue
                if how == "err":
                    out.bad("C06:load-raised", f"{cls}.load after {where}: {type(ret).__name__}: {ret}")
                    return
                if f and f["kind"] == "eio-read":
                    if ret is not None and ret not in {prints[x] for x in state[p] if x is not None}:
                        out.bad("C06:mixed", f"{cls}.load with a read error gives an object that was never saved")
                    continue
                ok = {None if x is None else prints[x]: x for x in state[p]}
                if ret not in ok:
                    if ret is None:
                        out.bad("C06:lost", f"{cls}: after {self.hist(case, k)} the previous object is no longer loadable")
                    else:
                        out.bad("C06:mixed", f"{cls}: after {self.hist(case, k)} a load gives an object that was never "
                                             f"saved under this name (or of another kind)")
                    return
                state[p] = {ok[ret]}
            done += 1
        # every file ends up loadable or absent, in a fresh process
        for p, st in state.items():
            how, ret = self.life(case, ch, out, fs, lambda: fingerprint_of(C, p))
            ok = {None if x is None else prints[x] for x in st}
            if how != "ok":
                out.bad("C06:load-raised", f"{cls}.load raised {type(ret).__name__}: {ret}")
            elif ret not in ok:
                out.bad("C06:lost" if ret is None else "C06:mixed",
                        f"{cls}: after {self.hist(case, len(case['ops']))} a load gives "
                        f"{'nothing' if ret is None else 'an object that was never saved'}")
        out.counts["histories-" + cls] += 1
        out.nontrivial = bool(out.faults) or done >= 2

    def hist(self, case, k):
        return "; ".join(o["do"] + (f"({o['fault']['kind']}@{o['fault']['op']})" if o["fault"] else "")
                         for o in case["ops"][:k])

    def after_save(self, out, cls, state, p, new, how, ret, where, f, fs):
        if how == "ok" and success(ret):
            state[p] = set(new)
        else:
            if f is None:
                out.bad("C06:save-failed", f"{cls}.save without any fault: {how} {ret!r}")
            state[p] = state[p] | set(new)

    def junk(self, case, ch, out, fs, C, cls, path, obj):
        blob = pickle.dumps(obj)
        kind = case["junk"]
        body = {"empty": b"", "text": b"Factor Profile (H) Matrix\n1.0,2.0\n", "json": b'{"seed": 42}',
                "truncated": blob[:ch.pick(len(blob), "junk")], "zeros": b"\0" * 512,
                "tail": blob[:ch.pick(len(blob), "junk2")] + b"\0" * 100, "dir": None}[kind]
        if body is None:
            os.makedirs(path)
        else:
            with simfs.R_open(path, "wb") as f:
                f.write(body)
        how, ret = self.life(case, ch, out, fs, lambda: C.load(path))
        if how != "ok":
            out.bad("C06:load-raised", f"{cls}.load of a damaged file ({kind}, {0 if body is None else len(body)} of "
                                       f"{len(blob)} bytes) raised {type(ret).__name__}: {ret}")
        elif ret is not None:
            out.bad("C06:mixed", f"{cls}.load of a damaged file ({kind}) returned {type(ret).__name__}")
        out.counts["damaged-files"] += 1


def fingerprint_of(C, path):
    o = C.load(path)
    return None if o is None else fingerprint(o)


# ------------------------------------------------------------------ C07
def numeric_rows(path):
    """(lines before the numbers, matrix) of a csv written for people."""
    with simfs.R_open(path, encoding="utf-8") as f:
        lines = f.read().split("\n")
    head, rows = [], []
    for ln in lines:
        try:
            rows.append([float(x) for x in ln.split(",")])
        except ValueError:
            if rows and ln.strip():
                raise AssertionError(f"text {ln[:40]!r} after the numbers in {os.path.basename(path)}")
            if not rows:
                head.append(ln)
    return head, rows


def same_numbers(a, b, tol=1e-5, floor=1e-9):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * np.abs(b) + floor) | (a == b) |
                                              (np.isnan(a) & np.isnan(b))))


def same_json(got, want, path=""):
    """The place where a JSON document differs from the object it was written from, or None."""
    if hasattr(want, "tolist"):
        want = want.tolist()
    if isinstance(want, (set, frozenset)):
        want = sorted(want)
        got = sorted(got) if isinstance(got, list) else got
    if isinstance(want, dict):
        if not isinstance(got, dict) or len(got) != len(want):
            return f"{path or '/'}: {str(got)[:60]} for {len(want)} entries"
        for k, v in want.items():
            if str(k) not in got and json.dumps(k if not hasattr(k, "item") else k.item()) not in got:
                return f"{path}/{k} is missing"
            r = same_json(got.get(str(k), got.get(json.dumps(k if not hasattr(k, "item") else k.item()))), v,
                          f"{path}/{k}")
            if r:
                return r
        return None
    if isinstance(want, (list, tuple)):
        if not isinstance(got, list) or len(got) != len(want):
            return f"{path}: {str(got)[:60]} for {len(want)} entries"
        for j, (g, w) in enumerate(zip(got, want)):
            r = same_json(g, w, f"{path}/{j}")
            if r:
                return r
        return None
    if want is None or isinstance(want, (bool, str)):
        return None if got == want or str(got) == str(want) else f"{path}: {got!r} instead of {want!r}"
    if isinstance(want, (int, float)):
        if isinstance(got, (int, float)) and same_numbers(got, want):
            return None
        return f"{path}: {got!r} instead of {want!r}"
    return None                     # an object without a text form (a model)


def table(path):
    import pandas as pd
    return pd.read_csv(io.StringIO(simfs.R_open(path, encoding="utf-8", newline="").read()))


class C07(Store):
    prop = "C07"
    rule = ("a run exports one finished object as text, with at most one disk fault at a chosen disk operation, short "
            "writes and small buffers, reads the files back and compares them with the object; non-trivial always "
            "(every file of the export is parsed)")
    runs = {"quick": 2000, "thorough": 30000}
    simple = dict(Store.simple, fault=None, header=False, each=False, again=False)

    def gen(self, r, tier, i):
        f = None
        if r.random() < 0.6:
            f = {"kind": r.choice(["disk-full", "eio", "enospc", "eacces", "edquot"]),
                 "op": r.randrange(r.choice([6, 20, 60, 200]))}
        cls = CLASSES[i % len(CLASSES)]
        return {"cls": cls, "kernel": r.choice(["python", "sim"]), "size": r.choice([0, 1, 2, 3]),
                "tiny": r.random() < 0.4, "variant": r.randrange(2) if i % 4 or cls not in ("SA",) else 3, "name": r.choice(["x", "my model.v2"]), "header": r.random() < 0.5,
                "each": r.random() < 0.3, "fault": f, "again": r.random() < 0.2, "where": r.choice(["ok"] * 9 + ["missing", "relative"]),
                "p_short": r.choice([0.0, 0.0, 0.3]), "buffer": r.choice([0, 0, 64, 512]), "sim": sim_params(r)}

    def run(self, case, ch, out, scratch):
        cls, name = case["cls"], case["name"]
        obj = build(cls, case["kernel"], case["size"], case["variant"])
        if case["tiny"] and cls in ("SA", "BatchSA"):       # in units in which the numbers are small
            for sa in [obj] if cls == "SA" else obj.results:
                sa.V, sa.W, sa.WH = (None if a is None else a * np.float32(1e-5) for a in (sa.V, sa.W, sa.WH))
        d = os.path.join(scratch, "out dir")
        os.makedirs(d)
        fs = simfs.SimFS(scratch, ch, buffer=case["buffer"], p_short=case["p_short"])
        n = getattr(obj, "n", None) or len(getattr(obj, "feature_labels", [])) or 0
        if cls == "BatchSA":
            n = obj.results[0].n
        header = labels(n, case["size"]) if case["header"] and cls in ("SA", "BatchSA") else None
        before = fingerprint(obj)
        if case["where"] != "ok":
            tgt = os.path.join(scratch, "nowhere") if case["where"] == "missing" else "relative dir"
            how, ret = self.life(case, ch, out, fs, lambda: do_save(cls, obj, name, tgt, False, header, case["each"]))
            if how == "ok" and success(ret):
                out.bad("C07:fake-success", f"{cls}.save to a {case['where']} directory returned {ret!r}")
            if os.path.exists(tgt):
                out.bad("C07:place", f"{cls}.save created {tgt}")
            out.nontrivial = True
            return
        if case["again"]:           # an older export of another object under the same name is overwritten
            old = build(cls, case["kernel"], case["size"], 1 - case["variant"] % 2)
            self.life(case, ch, out, fs, lambda: do_save(cls, old, name, d, False, header, case["each"]))
        fs.arm(case["fault"])
        told = []

        def go():
            try:
                return do_save(cls, obj, name, d, False, header, case["each"])
            finally:
                told.append((fs.write_errors, fs.fired))
        how, ret = self.life(case, ch, out, fs, go)
        errors, fired = told[0]
        out.nontrivial = True
        out.counts["exports-" + cls] += 1
        if how == "err":
            if not errors and not fired:
                out.bad("C07:failed", f"{cls} text export without a fault raised {type(ret).__name__}: {ret} "
                                      f"(header={header})")
            else:
                out.counts["reported-failures"] += 1
            return
        if not success(ret):
            if not errors and not fired:
                out.bad("C07:failed", f"{cls} text export without a fault returned {ret!r}")
            return
        what = f"{cls} text export (name {name!r}, header={header is not None}, {errors} write errors)"
        if cls != "Simulator":
            if not isinstance(ret, (str, os.PathLike)) or not os.path.exists(ret) or \
                    os.path.realpath(ret) != os.path.realpath(d):
                out.bad("C07:place", f"{what} returned {ret!r}; the files are in {d}")
                return
        try:
            bad = getattr(self, "see_" + cls)(obj, d, name, header, case)
        except FileNotFoundError as ex:
            bad = f"file missing: {os.path.basename(str(ex.filename))}"
        except (AssertionError, ValueError, KeyError, IndexError, UnicodeDecodeError) as ex:
            bad = f"unreadable: {type(ex).__name__}: {ex}"
        if bad:
            out.bad("C07:fake-success" if errors else "C07:content", f"{what} reported success, but {bad}")
            return
        if fingerprint(obj) != before:
            out.bad("C07:mutated", f"{what} changed the object")
        if cls in ("Displacement", "BSDISP", "Bootstrap"):
            self.summary(case, ch, out, fs, cls, obj)

    # ---- one reader per class: what is wrong, or None
    def see_SA(self, sa, d, name, header, case, meta=None):
        p = os.path.join(d, name)
        r = same_json(json.load(simfs.R_open(p + "-metadata.json")), sa.metadata) if meta is None else None
        if r:
            return f"metadata.json {r}"
        fl = [f"Factor {i + 1}" for i in range(sa.factors)]
        for kind, want, lab in (("profile", sa.H, header), ("contribution", sa.W, fl if header else None),
                                ("vprime", sa.WH, header), ("residuals", sa.V - sa.WH, header)):
            head, rows = numeric_rows(f"{p}-{kind}.csv")
            if not same_numbers(rows, want):
                return f"{kind}.csv does not hold the model's {np.shape(want)} numbers ({np.shape(rows)})"
            if lab:
                row = [ln for ln in head if ln.strip()][-1].lstrip("# ")
                if [x.strip() for x in row.split(",")] != lab:
                    return f"{kind}.csv has the column labels {row!r}"
        return None

    def see_BatchSA(self, b, d, name, header, case):
        from esat.model.sa import SA
        for i, sa in enumerate(b.results):
            if case["each"]:
                with simfs.R_open(os.path.join(d, f"{name}-model-{i}.pkl"), "rb") as f:
                    if fingerprint(pickle.load(f)) != fingerprint(sa):
                        return f"model {i}'s pickle holds something else"
                continue
            r = self.see_SA(sa, d, f"{name}-model-{i}", header, case)
            if r:
                return f"model {i}: {r}"
        return None

    def see_Bootstrap(self, b, d, name, header, case):
        p = os.path.join(d, name)
        for kind, want in (("metadata", b.metadata), ("ftables", b.factor_tables), ("profiles", b.bs_profiles),
                           ("contributions", b.bs_factor_contributions), ("results", b.bs_results)):
            r = same_json(json.load(simfs.R_open(f"{p}-{kind}.json")), want)
            if r:
                return f"{kind}.json {r}"
        t = table(p + "-mapping.csv")
        if list(t.columns) != list(b.mapping_df.columns) or not eq(t.iloc[:, 1:].to_numpy(dtype=float),
                                                                   b.mapping_df.iloc[:, 1:].to_numpy(dtype=float)) or \
                list(t.iloc[:, 0]) != list(b.mapping_df.iloc[:, 0]):
            return "mapping.csv is not the mapping table"
        q = table(p + "-qtable.csv")
        if not same_numbers(q["Q(robust)"], b.q_results["Q(robust)"]):
            return "qtable.csv is not the table of losses"
        return None

    def see_Displacement(self, x, d, name, header, case):
        p = os.path.join(d, name)
        for kind, want in (("metadata", x.metadata), ("increase-disp", x.increase_results),
                           ("decrease-disp", x.decrease_results)):
            r = same_json(json.load(simfs.R_open(f"{p}-{kind}.json")), want)
            if r:
                return f"{kind}.json {r}"
        head, rows = numeric_rows(p + "-swaptable.csv")
        r = self.swap_rows(x, rows)
        if r:
            return "swaptable.csv: " + r
        return self.results_csv(p, x)

    def swap_rows(self, x, rows):
        with np.errstate(all="ignore"):
            want = {float(q): np.round(100 * x.swap_table[i] / x.count_table[i], 2) for i, q in enumerate(x.dQmax)}
        if sorted(float(r[0]) for r in rows) != sorted(want):
            return f"dQ rows {[r[0] for r in rows]} for {x.dQmax}"
        for row in rows:
            if not same_numbers([float(v) for v in row[1:]], want[float(row[0])], 0.0, 0.006):
                return f"the row of dQ {row[0]} holds {list(row[1:])}, its swaps are {list(want[float(row[0])])}"
        return None

    def results_csv(self, p, x):
        t = table(p + "-results.csv")
        w = x.compiled_results
        if list(t.columns) != list(w.columns) or len(t) != len(w):
            return "results.csv has other columns or rows"
        for c in w.columns:
            if c == "feature":
                if [str(v) for v in t[c]] != [str(v) for v in w[c]]:
                    return "results.csv: feature labels differ"
            elif not same_numbers(t[c], w[c]):
                return f"results.csv: column {c} differs"
        return None

    def see_BSDISP(self, x, d, name, header, case):
        p = os.path.join(d, name)
        r = same_json(json.load(simfs.R_open(p + "-metadata.json")), x.metadata)
        if r:
            return f"metadata.json {r}"
        for kind, want in (("ftables", x.bootstrap.factor_tables), ("profiles", x.bootstrap.bs_profiles),
                           ("contributions", x.bootstrap.bs_factor_contributions)):
            r = same_json(json.load(simfs.R_open(f"{p}-{kind}.json")), want)
            if r:
                return f"{kind}.json {r}"
        for k, disp in x.disp_results.items():
            r = self.see_Displacement(disp, d, f"{name}-{k}", header, case)
            if r:
                return f"run {k}: {r}"
        return self.results_csv(p, x)

    def see_ConstrainedModel(self, c, d, name, header, case):
        name = f"constrained_model-{name}"
        r = self.see_SA(c.constrained_model, d, name, list(map(str, c.dh.features)), case, meta=False)
        if r:
            return r
        m = json.load(simfs.R_open(os.path.join(d, name + "-metadata.json")))
        want = {"constraints": [x.tostring(label=k) for k, x in c.constraints.items()], "expressions": c.expressions,
                "softness": c.softness}
        for k, v in want.items():
            if m.get(k) != v:
                return f"metadata.json: {k} is {m.get(k)!r}"
        return None

    def see_Simulator(self, s, d, name, header, case):
        p = os.path.join(d, name)
        for kind, df in (("data", s.syn_data_df), ("uncertainty", s.syn_uncertainty_df), ("profiles", s.syn_profiles_df),
                         ("contributions", s.syn_contributions_df)):
            t = table(f"{p}_{kind}.csv")
            if list(t.columns[1:]) != list(df.columns) or not same_numbers(t.iloc[:, 1:].to_numpy(float),
                                                                           df.to_numpy(float)):
                return f"{kind}.csv does not hold the simulator's numbers"
            if kind in ("data", "uncertainty") and [str(v)[:16] for v in t.iloc[:, 0]] != \
                    [str(v)[:16] for v in df.index]:
                return f"{kind}.csv has other dates"
        return None

    def summary(self, case, ch, out, fs, cls, x):
        """The summary table shows each threshold's own numbers."""
        patches.SHOWN.clear()
        how, ret = self.life(case, ch, out, fs, lambda: x.summary())
        if how != "ok":
            out.bad("C07:summary", f"{cls}.summary raised {type(ret).__name__}: {ret}")
            return
        if cls == "Bootstrap" or not patches.SHOWN:
            return
        cells = [list(col) for col in patches.SHOWN[-1].data[0]["cells"]["values"]]
        rows = [[float(col[i]) for col in cells] for i in range(len(cells[0]))]
        r = self.swap_rows(x, rows)
        if r:
            out.bad("C07:summary", f"{cls}.summary: {r}")


CHECKS = {"C06": C06(), "C07": C07()}
