"""C21: the edit history of a constrained model and what its training makes of it."""
import copy
import os
import threading

import numpy as np
from scipy import optimize

from dst import core, fs as simfs, patches
from dst.check import Check, KSTUB, STUB, close, data, eq, make_sim, q_robust, q_true
from dst.choose import Chooser
from .model import ModelBase
from .store import fingerprint

TYPES = ["pull down", "pull up", "pull to value", "set to zero", "set to base value", "define limits"]
BASE = ("W", "H", "WH", "V", "U", "We", "Qtrue", "Qrobust", "factors", "method", "seed", "converged", "q_list")
RESULT = ("W", "H", "WH", "Qtrue", "Qrobust", "converged", "factors", "method")


class Spy:
    """The update rule, noting what it was given and what it returned; fails at one call when told to."""

    def __init__(self, real, calls, rule, fail=None, error=None):
        self.real, self.calls, self.rule, self.fail, self.error = real, calls, rule, fail, error

    def __call__(self, V, We, W, H, *a, **k):
        given = (np.array(W, dtype=float), np.array(H, dtype=float))
        if self.fail is not None and len(self.calls) >= self.fail:
            raise self.error("injected")
        want = self.rule(V=V.copy(), We=We.copy(), W=np.array(W), H=np.array(H))
        w, h = self.real(V=V, We=We, W=W, H=H, *a, **k)
        self.calls.append((given, (np.array(w, dtype=float), np.array(h, dtype=float)),
                           eq(np.asarray(w), np.asarray(want[0])) and eq(np.asarray(h), np.asarray(want[1]))))
        return w, h


def term(t):
    return f"({t[0]}*[factor:{t[1]}|{t[2]}:{t[3]}])"


def text(terms, dQ):
    s = ("-" if terms[0][4] == "-" else "") + term(terms[0])
    for t in terms[1:]:
        s += t[4] + term(t)
    return f"{s}=0,{dQ}"


class C21(ModelBase):
    prop = "C21"
    rule = ("a run is a history of up to 12 additions, removals, saves, loads, failing, concurrent and completed trainings "
            "of a constrained model, compared with an ordered list of constraints and expressions and with a model of what "
            "each update step must start from; non-trivial when a training with constraints or expressions completed")
    runs = {"quick": 4000, "thorough": 50000}
    assumptions = ["small matrices (up to 16x6, 4 factors), up to 25 iterations per training",
                   "the right-hand side of the expressions' least squares problem is taken as implemented; where rounding decides "
                   "where SciPy's solver stops, the elements of the expressions are not compared"]
    simple = dict(ModelBase.simple, softness=1.0)
    shrink_ints = {}        # the edits name elements of this size

    # ---------------------------------------------------------------- generation
    def gen(self, r, tier, i):
        case = self.common(r)
        case.update(neg=False, scale=r.choice([5.0, 5.0, 50.0]), zeros=False, softness=r.choice([1.0, 1.0, 0.5, 3.0]))
        if case["method"] == "ws-nmf" and r.random() < 0.5:
            case["method"] = "ls-nmf"
        case["ops"] = [self.edit(r, case) for _ in range(r.randint(2, 9))] + [self.do_train(r)]
        if r.random() < 0.03:           # the same expression twice, and one of the two taken away again
            es = [dict(self.expression(r, case, False), again=a) for a in (False, False, True)]
            case["ops"] = es + [{"do": "unexpr", "at": r.choice([0, 2, 2])}] + case["ops"]
        if r.random() < 0.5:
            case["ops"] += [self.edit(r, case) for _ in range(r.randint(1, 3))] + [self.do_train(r)]
        return case

    def do_train(self, r):
        return {"do": "train", "it": r.choice([1, 1, 2, 5, 12, 25]), "cdelta": r.choice([1e-9, 0.01, 1.0, 50.0]),
                "cn": r.choice([1, 2, 5, 10])}

    def element(self, r, case, target, bad):
        first, second = (case["k"], case["n"]) if target == "feature" else (case["m"], case["k"])
        i, j = r.randrange(first), r.randrange(second)
        if bad:
            which = r.choice(["first", "second", "neg1", "neg2"])
            i, j = {"first": (first + r.choice([0, 1, 5]), j), "second": (i, second + r.choice([0, 1, 3])),
                    "neg1": (-1, j), "neg2": (i, -1)}[which]
        return i, j

    def expression(self, r, case, bad):
        terms = []
        for _ in range(r.randint(2, 4)):
            target = r.choice(["feature", "feature", "sample"])
            terms.append([r.choice([0.5, 1.0, 2.0, 0.66, 10.7]), r.randrange(case["k"]), target,
                          r.randrange(case["n"] if target == "feature" else case["m"]),
                          r.choice("+-") if terms or r.random() < 0.3 else "+"])
        return {"do": "expr", "terms": terms, "dQ": r.choice([1.0, 50.0, 250.0, 1e4]), "again": r.random() < 0.3,
                "bad": r.choice(["factor", "element", "noeq", "nodQ", "coef", "empty", "bracket", "kind"]) if bad else None}

    def edit(self, r, case):
        o = r.random()
        if o < 0.42:
            bad = r.random() < 0.3
            why = r.choice(["index", "index", "type", "target", "values"]) if bad else None
            target = r.choice(["feature", "sample"])
            typ = r.choice(TYPES)
            if why == "values":
                typ = r.choice(["pull down", "pull up", "pull to value", "define limits"])
            i, j = self.element(r, case, target, why == "index")
            lo = r.choice([0.0, 0.05, 0.3, 2.0])
            op = {"do": "add", "type": typ, "index": [i, j], "target": target, "bad": why, "lo": lo,
                  "hi": lo + r.choice([0.0, 0.1, 1.0]), "dQ": r.choice([0.01, 0.05, 0.2, 1.0]),
                  "value": r.choice([0.0, 0.1, 1.0, 8.0]), "list": r.random() < 0.2,
                  "again": r.random() < 0.2}
            if why == "type":
                op["type"] = r.choice(["pull", "set to one", "", "limits"])
            if why == "target":
                op["target"] = r.choice(["factor", "", "H", "W"])
            if why == "values":
                op["missing"] = r.choice({"pull down": ["dQ"], "pull up": ["dQ"], "pull to value": ["dQ", "value"],
                                          "define limits": ["lo", "hi"]}[typ])
            return op
        if o < 0.57:
            return self.expression(r, case, r.random() < 0.3)
        if o < 0.66:
            return {"do": "remove", "at": r.randrange(6), "unknown": r.random() < 0.3}
        if o < 0.72:
            return {"do": "unexpr", "at": r.choice([-1, 0, 1, 2, 2, 3, 5])}
        if o < 0.77:
            return {"do": "list"}
        if o < 0.85:
            return {"do": "reload"}
        if o < 0.93:
            return {"do": "failtrain", "at": r.randrange(4), "error": r.choice(["MemoryError", "KeyboardInterrupt",
                                                                               "ValueError"]), "it": 6}
        return {"do": "side", "it": r.choice([2, 5]), "other": r.randrange(1 << 16)}

    # ---------------------------------------------------------------- one run
    def state(self, base):
        return {f: copy.deepcopy(getattr(base, f)) for f in BASE}

    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        V, U = self.dataset(case)
        sim = make_sim(ch, case["sim"])

        def body():
            base = self.model(case, V, U)
            base.initialize()
            base.train(max_iter=20, converge_delta=1e-6, converge_n=5)
            if base.Qtrue is None or not np.isfinite(float(base.Qtrue)):
                out.counts["untrainable-data"] += 1
                return
            self.history(case, out, base, sim, scratch)
        sim.run(body)
        out.take(sim)
        patches.SHOWN.clear()

    def history(self, case, out, base, sim, scratch):
        from esat.rotational.constrained import ConstrainedModel
        cm = ConstrainedModel(base_model=base, data_handler=None, softness=case["softness"])
        cons, exprs = {}, []            # the reference: label -> (type, index, target, values); [(terms, dQ, text)]
        before = self.state(base)
        for step, op in enumerate(case["ops"]):
            where = f"step {step} ({op['do']})"
            last = self.outcome(cm)
            if op["do"] == "add":
                self.add(out, case, cm, cons, op, where)
                if op["again"] and not op["bad"]:
                    self.add(out, case, cm, cons, op, where + " repeated")
            elif op["do"] == "expr":
                if op["again"] and exprs and not op["bad"]:     # the first expression a second time
                    op = dict(op, terms=exprs[0][0], dQ=exprs[0][1])
                self.expr(out, case, cm, exprs, op, where)
            elif op["do"] == "remove":
                self.remove(out, cm, cons, op)
            elif op["do"] == "unexpr":
                cm.remove_expression(op["at"])
                if 0 <= op["at"] < len(exprs):
                    del exprs[op["at"]]
            elif op["do"] == "list":
                cm.list_constraints()
                cm.list_expressions()
            elif op["do"] == "reload":
                cm = self.reload(out, cm, scratch, where)
                if cm is None:
                    return
                if not eq(before, self.state(cm.base_model)):
                    out.bad("C21:reload", f"{where}: the loaded model's base model differs from the saved one")
                    return
                base = cm.base_model
            elif op["do"] == "failtrain":
                if not self.failing(out, case, cm, cons, exprs, op, where, last):
                    return
            elif op["do"] == "side":
                if not self.side(out, case, cm, cons, exprs, op, where, base):
                    return
            elif op["do"] == "train":
                if not self.train_step(out, case, cm, cons, exprs, op, where):
                    return
            if op["do"] not in ("train", "side") and not eq(last, self.outcome(cm)):
                out.bad("C21:result", f"{where} changed the result of the last completed training")
                return
            if not self.holds(out, cm, cons, exprs, where):
                return
            if not eq(before, self.state(base)):
                out.bad("C21:base", f"{where} changed the base model")
                return

    def outcome(self, cm):
        s = cm.constrained_model
        return None if s is None else [copy.deepcopy(getattr(s, f)) for f in RESULT] + [copy.deepcopy(cm.Qaux)]

    def holds(self, out, cm, cons, exprs, where):
        if list(cm.constraints) != list(cons):
            out.bad("C21:constraints", f"{where}: the constraints are {list(cm.constraints)}, the history says {list(cons)}")
            return False
        for label, (typ, index, target, values) in cons.items():
            c = cm.constraints[label]
            if (c.constraint_type, tuple(c.index), c.target) != (typ, tuple(index), target) or not eq(
                    None if c.target_values is None else list(np.atleast_1d(c.target_values)),
                    None if values is None else list(np.atleast_1d(values))):
                out.bad("C21:constraints", f"{where}: {label} is {c.tostring()}, it was added as {typ} {index} {target} {values}")
                return False
        if list(cm.expressions) != [e[2] for e in exprs]:
            out.bad("C21:expressions", f"{where}: the expressions are {cm.expressions}, the history says "
                                       f"{[e[2] for e in exprs]}")
            return False
        return True

    def add(self, out, case, cm, cons, op, where):
        kw = {"target_value": op["value"], "min_value": op["lo"], "max_value": op["hi"], "dQ": op["dQ"] * self.qscale(cm)}
        miss = {"dQ": "dQ", "value": "target_value", "lo": "min_value", "hi": "max_value"}.get(op.get("missing"))
        if miss:
            kw[miss] = None
        index = list(op["index"]) if op["list"] else tuple(op["index"])
        ok = cm.add_constraint(constraint_type=op["type"], index=index, target=op["target"], **kw)
        i, j = op["index"]
        label = f"factor:{i}|feature:{j}" if op["target"] == "feature" else f"factor:{j}|sample:{i}"
        want = op["bad"] is None and label not in cons
        if bool(ok) != want:
            out.bad("C21:accept", f"{where}: add_constraint({op['type']!r}, {op['index']}, {op['target']!r}) answered {ok}"
                                  f"{'' if op['bad'] is None else ' (invalid ' + op['bad'] + ')'}")
        if want:
            values = None
            if op["type"] in ("pull down", "pull up"):
                values = kw["dQ"]
            elif op["type"] == "pull to value":
                values = (kw["target_value"], kw["dQ"])
            elif op["type"] == "define limits":
                values = (kw["min_value"], kw["max_value"])
            cons[label] = (op["type"], (i, j), op["target"], values)

    def qscale(self, cm):
        return float(cm.base_model.Qtrue)

    def expr(self, out, case, cm, exprs, op, where):
        terms, dQ = op["terms"], op["dQ"]
        s = text(terms, dQ)
        bad = op["bad"]
        if bad == "factor":
            s = text([[1.0, case["k"], "feature", 0, "+"]] + terms[1:], dQ)
        elif bad == "element":
            s = text([[1.0, 0, "feature", case["n"], "+"], [1.0, 0, "sample", case["m"] + 2, "+"]], dQ)
        elif bad == "noeq":
            s = s.replace("=", "")
        elif bad == "nodQ":
            s = s.split(",")[0]
        elif bad == "coef":
            s = s.replace("(" + str(terms[0][0]), "(x", 1)
        elif bad == "empty":
            s = ""
        elif bad == "bracket":
            s = s.replace("[", "").replace("]", "")
        elif bad == "kind":
            s = s.replace("|" + terms[0][2], "|profile", 1)
        ok = cm.add_expression(s)
        if bool(ok) != (bad is None):
            out.bad("C21:accept", f"{where}: add_expression({s!r}) answered {ok}")
        if bad is None:
            exprs.append((terms, dQ, s))

    def remove(self, out, cm, cons, op):
        labels = list(cons)
        if op["unknown"] or not labels:
            try:
                cm.remove_constraint("factor:77|feature:99")
            except KeyError:
                pass
            return
        label = labels[op["at"] % len(labels)]
        cm.remove_constraint(label)
        del cons[label]

    def reload(self, out, cm, scratch, where):
        path = cm.save("c21", scratch, pickle_model=True)
        if not path or not os.path.exists(path):
            out.bad("C21:reload", f"{where}: nothing was saved")
            return None
        want = fingerprint(cm)
        new = type(cm).load(path)
        if new is None or fingerprint(new) != want:
            out.bad("C21:reload", f"{where}: the saved history does not load as it was")
            return None
        return new

    # ---------------------------------------------------------------- training
    def train(self, cm, op, fail=None, error=None):
        from esat.model.sa import SA
        b = cm.base_model
        rule = SA(V=np.array(b.V), U=np.array(b.U), factors=b.factors, method=b.method, seed=1, verbose=False).update_step
        calls = []
        kept = [(o, a, vars(o).get(a, self)) for o, a in ((b, "update_step"), (cm, "update"))]
        for o, a, _ in kept:
            if hasattr(o, a):
                setattr(o, a, Spy(getattr(o, a), calls, rule, fail, error))
        try:
            cm.train(max_iterations=op["it"], converge_delta=op.get("cdelta", 1e-9), converge_n=op.get("cn", 5))
        finally:
            for o, a, v in kept:
                if v is not self:
                    setattr(o, a, v)
                elif a in vars(o):
                    delattr(o, a)
        return calls

    def twin(self, case, cm, cons, exprs):
        """A new model with the constraints and expressions that the history left."""
        new = type(cm)(base_model=cm.base_model, data_handler=None, softness=case["softness"])
        for label, (typ, index, target, values) in cons.items():
            kw = {}
            if typ in ("pull down", "pull up"):
                kw = {"dQ": values}
            elif typ == "pull to value":
                kw = {"target_value": values[0], "dQ": values[1]}
            elif typ == "define limits":
                kw = {"min_value": values[0], "max_value": values[1]}
            new.add_constraint(constraint_type=typ, index=index, target=target, **kw)
        for e in exprs:
            new.add_expression(e[2])
        return new

    def failing(self, out, case, cm, cons, exprs, op, where, last):
        error = {"MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError}[op["error"]]
        if not cons and not exprs:
            return True
        try:
            self.train(cm, op, fail=op["at"], error=error)
        except (error, np.linalg.LinAlgError):
            out.faults["failing-update"] = out.faults.get("failing-update", 0) + 1
            return True
        except BaseException as ex:
            out.bad("C21:failure", f"{where}: a failing update surfaced as {type(ex).__name__}: {ex}")
            return False
        if eq(last, self.outcome(cm)):
            out.bad("C21:failure", f"{where}: a failing update was swallowed")
            return False
        return False            # converged before the failing call: nothing more to say about this run

    def side(self, out, case, cm, cons, exprs, op, where, base):
        """Two constrained models of one base model trained at the same time."""
        if not cons and not exprs:
            return True
        other_cons = {"factor:0|feature:0": ("set to zero", (0, 0), "feature", None),
                      "factor:1|sample:1": ("define limits", (1, 1), "sample", (0.1, 0.4))}
        models = [cm, self.twin(case, cm, other_cons, [])]
        want = []
        for c, e in ((cons, exprs), (other_cons, [])):
            t = self.twin(case, cm, c, e)
            try:
                t.train(max_iterations=op["it"], converge_delta=1e-9, converge_n=5)
            except np.linalg.LinAlgError:
                return False
            want.append(self.outcome(t))
        if op["other"] % 2:         # one more, for a base model of the other method
            from esat.model.sa import SA
            alt = SA(V=np.array(base.V), U=np.array(base.U), factors=base.factors, seed=2, verbose=False,
                     method="ws-nmf" if base.method == "ls-nmf" else "ls-nmf")
            alt.initialize(H=np.array(base.H), W=np.array(base.W))
            type(cm)(base_model=alt, data_handler=None, softness=9.0)
        errs = []

        def work(m):
            try:
                m.train(max_iterations=op["it"], converge_delta=1e-9, converge_n=5)
            except Exception as ex:
                errs.append(ex)
        ts = [threading.Thread(target=work, args=(m,)) for m in models]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        for m, w in zip(models, want):
            if not eq(self.outcome(m), w):
                out.bad("C21:side", f"{where}: two constrained models trained at the same time influence each other")
                return False
        out.counts["side-by-side-trainings"] += 1
        return True

    def train_step(self, out, case, cm, cons, exprs, op, where):
        if not cons and not exprs:
            last = self.outcome(cm)
            cm.train(max_iterations=op["it"], converge_delta=op["cdelta"], converge_n=op["cn"])
            if not eq(last, self.outcome(cm)):
                out.bad("C21:result", f"{where}: training without constraints changed the result")
            return True
        try:
            with np.errstate(all="ignore"):
                calls = self.train(cm, op)
        except np.linalg.LinAlgError:
            out.counts["unsolvable"] += 1
            return False
        s = cm.constrained_model
        if s is None:
            out.bad("C21:result", f"{where}: no constrained model after the training")
            return False
        if not calls:
            out.counts["update-not-observed"] += 1
        if calls and not all(np.all(np.isfinite(x)) for c in calls for p in c[:2] for x in p):
            out.counts["nan-solution"] += 1
            return False
        out.nontrivial = True
        if not all(c[2] for c in calls):
            out.bad("C21:rule", f"{where}: the updates are not those of the base model's method, {cm.base_model.method}")
            return False
        out.counts["trainings"] += 1
        out.counts["update-steps"] += len(calls)
        base = cm.base_model
        V, U = np.asarray(base.V, float), np.asarray(base.U, float)
        if calls and not self.steps(out, case, cm, cons, exprs, op, calls, V, U, where):
            return False
        # the result
        W, H = np.asarray(s.W, float), np.asarray(s.H, float)
        if calls:
            lw, lh = calls[-1][1]
            if not close(W, lw, 1e-5, 1e-9) or not close(H, lh, 1e-5, 1e-9):
                out.bad("C21:solution", f"{where}: the constrained model is not the last update's solution")
                return False
            if not close(s.Qtrue, q_true(V, U, lw, lh)) or not close(s.Qrobust, q_robust(V, U, lw, lh)):
                out.bad("C21:Q", f"{where}: Q(true) {s.Qtrue} and Q(robust) {s.Qrobust} are not those of the solution, "
                                 f"{q_true(V, U, lw, lh)} and {q_robust(V, U, lw, lh)}")
                return False
            if not close(s.WH, lw @ lh, 1e-4, 1e-6):
                out.bad("C21:solution", f"{where}: WH is not W times H")
                return False
        if (s.method, s.factors, s.seed) != (base.method, base.factors, base.seed) or not eq(s.V, base.V) or \
                not eq(s.U, base.U):
            out.bad("C21:solution", f"{where}: the constrained model is not one of the base model's method, factors, seed "
                                    f"and data")
            return False
        for label, (typ, index, target, values) in cons.items():
            if typ == "set to zero" and case["method"] == "ls-nmf":
                v = (H if target == "feature" else W)[index]
                if abs(v) > 1e-9:
                    out.bad("C21:zero", f"{where}: {label} is set to zero and has the value {v}")
                    return False
        # the same history gives the same result
        t = self.twin(case, cm, cons, exprs)
        with np.errstate(all="ignore"):
            t.train(max_iterations=op["it"], converge_delta=op["cdelta"], converge_n=op["cn"])
        if not eq(self.outcome(t), self.outcome(cm)):
            out.bad("C21:history", f"{where}: a new model with the same constraints and expressions trains to another result")
            return False
        return self.tables(out, cm, cons, exprs, where)

    def steps(self, out, case, cm, cons, exprs, op, calls, V, U, where):
        base = cm.base_model
        W, H = np.asarray(base.W, float), np.asarray(base.H, float)
        soft = case["softness"]
        mains = []
        for k, ((gw, gh), (nw, nh), _) in enumerate(calls):
            at = f"{where}, update {k}"
            ew, eh = self.expressed(exprs, base, W, H, V, U, soft)
            for label, (typ, index, target, values) in cons.items():
                cur, exp, got = (H, eh, gh) if target == "feature" else (W, ew, gw)
                c, g = cur[index], got[index]
                if typ == "set to zero":
                    exp[index] = 0.0
                elif typ == "set to base value":
                    exp[index] = np.asarray(base.H if target == "feature" else base.W, float)[index]
                elif typ == "define limits":
                    exp[index] = min(max(c, values[0]), values[1])
                else:
                    exp[index] = g
                    if c >= 0 and not self.pulled(out, typ, values, c, g, target, index, W, H, V, U, label, at):
                        return False
            other = None
            for nm, got, exp in (("W", gw, ew), ("H", gh, np.abs(eh))):
                tol = 1e-6 * (1 + max(np.abs(exp).max(), np.abs(W if nm == "W" else H).max()))
                if exprs and not close(got, exp, 1e-3, tol):
                    # another solution of the same least squares problem
                    if other is None:
                        other = self.another(exprs, cons, base, W, H, V, U, soft, gw, gh)
                    for (t, ix) in other or ():
                        if t == ("feature" if nm == "H" else "sample"):
                            exp[ix] = got[ix]
                if not close(got, exp, 1e-3, tol):
                    d = np.argwhere(~(np.abs(got - exp) <= tol + 1e-3 * np.abs(exp)))[0]
                    out.bad("C21:applied", f"{at} starts from {nm}{d.tolist()}={got[tuple(d)]:.6g}; the constraints "
                                           f"{dict((a, b[0]) for a, b in cons.items())} and {len(exprs)} expressions make it "
                                           f"{exp[tuple(d)]:.6g} (it was {(W if nm == 'W' else H)[tuple(d)]:.6g})")
                    return False
            W0, H0 = np.asarray(base.W, float), np.asarray(base.H, float)
            aux = (((W0 + gw - W - nw) ** 2).sum() + ((H0 + gh - H - nh) ** 2).sum()) / soft ** 2
            mains.append((q_true(V, U, nw, nh), q_robust(V, U, nw, nh), aux))
            W, H = nw, nh
        # the recorded losses and the stop
        for j, nm in ((0, "true"), (1, "robust"), (2, "aux")):
            if not close(cm.Q_list[j], [m[j] for m in mains], 2e-3, 1e-4 * (1 + abs(mains[-1][0]))):
                out.bad("C21:Q", f"{where}: the recorded Q({nm}) {np.asarray(cm.Q_list[j])[-3:]} is not that of the "
                                 f"{len(mains)} updates, {[m[j] for m in mains][-3:]}")
                return False
        if not close(cm.Qaux, cm.Q_list[2][-1], 1e-9, 1e-12):
            out.bad("C21:Q", f"{where}: Q(aux) {cm.Qaux} is not that of the last update")
            return False
        main = [a + c for a, c in zip(cm.Q_list[0], cm.Q_list[2])]
        stop = None
        for k in range(len(main)):
            if k + 1 > op["cn"]:
                w = main[k + 1 - op["cn"]:k + 1]
                if max(w) - min(w) <= op["cdelta"]:
                    stop = k + 1
                    break
        n = stop if stop is not None else op["it"]
        if len(calls) != n or bool(cm.constrained_model.converged) != (stop is not None):
            out.bad("C21:stop", f"{where}: {len(calls)} updates, converged {cm.constrained_model.converged}; by its own losses "
                                f"it should {'converge' if stop is not None else 'stop'} after {n}")
            return False
        return True

    def pulled(self, out, typ, values, c, g, target, index, W, H, V, U, label, at):
        dQ = values[1] if typ == "pull to value" else values
        tgt = values[0] if typ == "pull to value" else None

        def change(v):
            w, h = W.copy(), H.copy()
            (h if target == "feature" else w)[index] = v
            return abs(q_true(V, U, w, h) - q_true(V, U, W, H))
        noise = 1e-5 * (1 + q_true(V, U, W, H))
        eps = 1e-6 * (1 + c)
        if typ == "pull down":
            bad = g > c + eps or g < -eps
        elif typ == "pull up":
            bad = g < c - eps
        else:
            bad = not (min(c, tgt) - eps <= g <= max(c, tgt) + eps)
        if not bad and c < 1e-6 and typ != "pull to value":
            return True                 # nothing to pull: changes are multiples of the value
        if bad:
            out.bad("C21:pull", f"{at}: {typ} moved {label} from {c:.6g} to {g:.6g}"
                                + ("" if tgt is None else f", its target is {tgt}"))
            return False
        if change(g) > dQ * 1.001 + noise:
            out.bad("C21:pull", f"{at}: {typ} of {label} from {c:.6g} to {g:.6g} changes Q by {change(g):.6g}, its limit is {dQ:.6g}")
            return False
        # as far as the limit allows
        if typ == "pull to value" and change(tgt) < dQ * 0.999 - noise and abs(g - tgt) > eps:
            out.bad("C21:pull", f"{at}: the target {tgt} of {label} is within the limit and the value is {g:.6g}")
            return False
        if typ == "pull down" and all(change(c * x) < dQ * 0.5 - noise for x in np.linspace(0, 1, 9)) and g > 1e-4 + 0.02 * c:
            out.bad("C21:pull", f"{at}: {label} could be pulled from {c:.6g} to zero and is {g:.6g}")
            return False
        if c > 1e-6 and change(g) < dQ * 0.5 - noise:
            end = {"pull down": g <= 1e-4 + 0.02 * c, "pull up": g > 1e6 * c,
                   "pull to value": tgt is not None and abs(g - tgt) <= 1e-4 + 0.02 * abs(c - tgt)}[typ]
            if not end:
                out.bad("C21:pull", f"{at}: {typ} of {label} from {c:.6g} stopped at {g:.6g} where Q changes by "
                                    f"{change(g):.6g} of the allowed {dQ:.6g}")
                return False
        return True

    def another(self, exprs, cons, base, W, H, V, U, soft, gw, gh):
        """The elements of the expressions if the update starts from some best solution of them, within the limit."""
        A, b, names, hi = self.problem(exprs, W, H)
        fixed = [k for k, (t, ix) in enumerate(names)
                 if any(c[2] == t and tuple(c[1]) == ix for c in cons.values())]
        free = [k for k in range(len(names)) if k not in fixed]
        cur = np.array([(H if t == "feature" else W)[ix] for t, ix in names])
        got = np.array([(gh if t == "feature" else gw)[ix] for t, ix in names])
        best = optimize.lsq_linear(A, b, bounds=(1e-8, hi))
        rng = np.random.default_rng(0)
        near = [b * (1 + 1e-7 * rng.normal(size=len(b))) for _ in range(16)]
        costs = [optimize.lsq_linear(A, y, bounds=(1e-8, max(y.max(), 1e-6))).cost for y in near] + [best.cost]
        if max(costs) > 1.01 * min(costs) + 1e-6 * hi ** 2:
            return names                # rounding decides where the solver stops
        limit = sum(e[1] for e in exprs)
        tol = 1e-3 * (1 + abs(hi))
        for k in range(101):
            x = cur + (got - cur) / 0.98 ** k
            x[fixed] = best.x[fixed]
            if np.any(x[free] < -tol) or np.any(x[free] > hi + tol):
                continue
            if not fixed and np.linalg.norm(A @ x - b) > np.linalg.norm(A @ best.x - b) + tol * (1 + np.abs(A).sum()):
                continue
            w, h = W.copy(), H.copy()
            for q, (t, ix) in enumerate(names):
                (h if t == "feature" else w)[ix] = cur[q] + (x[q] - cur[q]) * 0.98 ** k
            if fixed or self.expr_dq(base, W, H, w, h, V, U, soft) < limit * 1.01 + 1e-3:
                return names
        return None

    def expr_dq(self, base, W, H, w, h, V, U, soft):
        W0, H0 = np.asarray(base.W, float), np.asarray(base.H, float)
        qa = (((W0 - W) ** 2).sum() + ((H0 - H) ** 2).sum()) / soft ** 2
        return q_true(V, U, w, h) + qa - float(base.Qtrue)

    def problem(self, exprs, W, H):
        names = []
        rows = []
        for terms, dQ, _ in exprs:
            row = {}
            for k, (coef, f, target, j, sign) in enumerate(terms):
                el = (target, (f, j) if target == "feature" else (j, f))
                if el not in names:
                    names.append(el)
                row[el] = row.get(el, 0.0) + (-coef if sign == "-" else coef)
            rows.append(row)
        A = np.zeros((len(rows), len(names)))
        b = np.zeros(len(rows))
        for i, row in enumerate(rows):
            for el, coef in row.items():
                A[i, names.index(el)] = coef
                b[i] += (H if el[0] == "feature" else W)[el[1]]
        return A, b, names, max(b.max(), 1e-6)

    def expressed(self, exprs, base, W, H, V, U, soft):
        if not exprs:
            return W.copy(), H.copy()
        A, b, names, hi = self.problem(exprs, W, H)
        x = optimize.lsq_linear(A, b, bounds=(1e-8, hi)).x
        dw, dh = np.zeros_like(W), np.zeros_like(H)
        for el, v in zip(names, x):
            if el[0] == "feature":
                dh[el[1]] = v - H[el[1]]
            else:
                dw[el[1]] = v - W[el[1]]
        limit = sum(e[1] for e in exprs)
        for _ in range(101):
            w, h = W + dw, H + dh
            if self.expr_dq(base, W, H, w, h, V, U, soft) < limit:
                return w, h
            dw, dh = dw * 0.98, dh * 0.98
        return W.copy(), H.copy()

    def tables(self, out, cm, cons, exprs, where):
        """The two evaluation tables show the model's own elements."""
        s = cm.constrained_model
        patches.SHOWN.clear()
        if cons:
            cm.evaluate_constraints()
            rows = list(zip(*patches.SHOWN[-1].data[0].cells.values)) if patches.SHOWN else []
            if len(rows) != len(cons):
                out.bad("C21:table", f"{where}: {len(rows)} rows for {len(cons)} constraints")
                return False
            for row, (label, (typ, index, target, values)) in zip(rows, cons.items()):
                b, v = ((cm.base_model.H, s.H) if target == "feature" else (cm.base_model.W, s.W))
                if not close(float(row[3]), float(b[index]), 1e-3, 1e-4) or not close(float(row[5]), float(v[index]), 1e-3, 1e-4):
                    out.bad("C21:table", f"{where}: the evaluation of {label} shows base {row[3]} and solution {row[5]}, they are "
                                         f"{b[index]} and {v[index]}")
                    return False
        patches.SHOWN.clear()
        if exprs:
            cm.evaluate_expressions()
            if len(patches.SHOWN) < 2:
                return True
            rows = list(zip(*patches.SHOWN[-1].data[0].cells.values))
            for row, (terms, dQ, _) in zip(rows, exprs):
                tot = [0.0, 0.0]
                for k, (coef, f, target, j, sign) in enumerate(terms):
                    co = -coef if sign == "-" else coef
                    for q, m in enumerate((cm.base_model, s)):
                        tot[q] += co * float(m.H[f, j] if target == "feature" else m.W[j, f])
                if len({(t[1], t[2], t[3]) for t in terms}) == len(terms) and \
                        not close([float(row[-2]), float(row[-1])], tot, 1e-3, 1e-3):
                    out.bad("C21:table", f"{where}: the evaluation of {terms} shows {row[-2]} and {row[-1]}, they are {tot}")
                    return False
        return True


CHECKS = {"C21": C21()}
