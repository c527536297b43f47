"""C28: what a factor catalogue holds after any history of additions, looks, saves and interruptions."""
import contextlib
import copy
import io
import pickle
import threading

import numpy as np

from dst import patches
from dst.check import Check, KSTUB, STUB, close, data, eq, make_sim, sim_params

TOL = 1e-9


def r2(a, b):
    a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
    a, b = a - a.mean(), b - b.mean()
    d = np.sum(a * a) * np.sum(b * b)
    return float(np.sum(a * b) ** 2 / d) if d > 0 else float("nan")


def noise(*xs):
    """How far rounding to single precision may move the agreement of these (nearly equal values have none left)."""
    e = 0.0
    for x in xs:
        x = np.asarray(x, float)
        sd = x.std()
        e += 1e-6 * np.abs(x).max() / sd if sd > 0 else 0.0
    return e


class Ref:
    """Groups of members (H, W, model, agreement when it joined)."""

    def __init__(self, method, threshold):
        self.method, self.threshold = method, threshold
        self.groups, self.models = [], 0
        self.tol = TOL                  # of the agreements calculated for the last question

    def agree(self, g, H, W, profile_only):
        out = []
        for h, w, _, _ in g:
            if profile_only:
                out.append(r2(h, H))
            elif self.method == "raae":
                out.append(float(np.abs(np.asarray(w, float) - W).sum() / np.asarray(w, float).sum()))
                self.tol = max(self.tol, 1e-6 * out[-1])
            elif self.method == "emc":
                out.append(r2(np.asarray(h, float) * np.mean(w), np.asarray(H, float) * np.mean(W)))
                self.tol = max(self.tol, noise(h, H))
            else:
                out.append(r2(w, W))
        return float(np.mean(out))

    def better(self, a, b):
        return a < b if self.method == "raae" else a > b

    def best(self, score):
        """(best value, the groups which have it)"""
        self.tol = TOL
        s = [score(g) for g in self.groups]
        start = float("inf") if self.method == "raae" else 0.0
        ok = [x for x in s if x == x and (self.better(x, start) or abs(x - start) < self.tol)]
        if not ok:
            return start, []
        b = min(ok) if self.method == "raae" else max(ok)
        return b, [i for i, x in enumerate(s) if x == x and abs(x - b) < self.tol]


class C28(Check):
    prop = "C28"
    rule = ("a run is a history of up to 8 additions of models and batches, looks, comparisons, saves and interrupted additions "
            "on one catalogue, beside a second one built in another thread from the same models; non-trivial when a factor "
            "joined an existing group")
    runs = {"quick": 6000, "thorough": 120000}
    stub = STUB + [KSTUB, "notebook progress bars (plain iteration)"]
    assumptions = ["profiles-only comparison is not claimed for the method 'raae'", "no factor is constant",
                   "up to 5 models of 4 factors in a batch"]
    simple = {"second": False, "verbose": False}
    shrink_ints = {}

    def gen(self, r, tier, i):
        method = r.choice(["raae", "raae", "corr", "emc"])
        ops = []
        for _ in range(r.randint(2, 6)):
            o = r.random()
            if o < 0.35:
                ops.append({"do": "model", "i": r.randrange(7), "seed": r.randrange(1 << 16), "k": r.randint(1, 4)})
            elif o < 0.65:
                ops.append({"do": "batch", "seed": r.randrange(1 << 16), "k": r.randint(1, 4), "models": r.randint(1, 5),
                            "missing": r.choice([[], [], [0], [1], [0, 2]]), "bad": r.choice([[], [1], [0], [2]]),
                            "nan": r.choice([[], [], [], [1], [0]]),
                            "line": r.randint(1, 400) if r.random() < 0.2 else None})
            elif o < 0.72:
                ops.append({"do": "factor", "i": r.randrange(7), "seed": r.randrange(1 << 16)})
            elif o < 0.82:
                ops.append({"do": "check", "seed": r.randrange(1 << 16)})
            elif o < 0.9:
                ops.append({"do": "matrix", "seed": r.randrange(1 << 16)})
            elif o < 0.96:
                ops.append({"do": "compare", "seed": r.randrange(1 << 16), "members": r.randint(1, 3), "m": r.choice([0, 0, 2])})
            else:
                ops.append({"do": "pickle"})
        po = method != "raae" and r.random() < 0.4
        return {"method": method, "threshold": r.choice([0.05, 0.2, 0.5, 0.9, 1.3] if method == "raae" else [0.0, 0.3, 0.6, 0.9, 0.97]),
                "profile_only": po, "vary": po and r.random() < 0.5, "exclude": r.random() < 0.4, "limit": r.choice([1.1, 1.5, 3.0]),
                "n": r.randint(3, 7), "m": r.randint(4, 12), "pool": r.randrange(1 << 16), "noise": r.choice([0.0, 0.02, 0.1, 0.4]),
                "verbose": r.random() < 0.3, "second": r.random() < 0.3, "kernel": "python",
                "sim": sim_params(r, p_line=True), "ops": ops}

    def shrink(self, case):
        ops = case["ops"]
        for i in range(len(ops)):
            yield dict(case, ops=ops[:i] + ops[i + 1:])
            if ops[i]["do"] == "batch":
                for k, v in {"line": None, "missing": [], "bad": [], "nan": [], "models": 1, "k": 1}.items():
                    if ops[i][k] != v:
                        yield dict(case, ops=ops[:i] + [dict(ops[i], **{k: v})] + ops[i + 1:])
        yield from super().shrink(case)

    # ---------------------------------------------------------- models made of a few hidden sources
    def factors(self, case, seed, k, dm=0):
        p = np.random.default_rng(case["pool"])
        m = case["m"] + dm
        P, C = p.gamma(1.0, 1.0, (5, case["n"])) + 0.05, p.gamma(2.0, 1.0, (5, 40)) + 0.05
        r = np.random.default_rng(seed)
        which = r.permutation(5)[:k]
        noise = lambda s: np.exp(r.normal(0, case["noise"], s)) if case["noise"] else np.ones(s)
        return (P[which] * noise((k, case["n"]))).astype(np.float32), (C[which, :m].T * noise((m, k))).astype(np.float32)

    def model(self, case, seed, k, q, dm=0):
        from esat.model.sa import SA
        H, W = self.factors(case, seed, k, dm)
        V, U = data(seed, len(W), case["n"])
        sa = SA(V=V, U=U, factors=k, seed=seed, verbose=False)
        sa.H, sa.W, sa.WH, sa.Qtrue, sa.Qrobust = H, W, W @ H, q, q
        return sa

    def batch(self, case, op):
        from esat.model.batch_sa import BatchSA
        V, U = data(op["seed"], case["m"], case["n"])
        b = BatchSA(V=V, U=U, factors=op["k"], models=op["models"], seed=1, verbose=False)
        r = np.random.default_rng(op["seed"])
        dm = int(r.integers(0, 4)) if case["vary"] else 0
        b.results = []
        for i in range(op["models"]):
            q = float(100 * r.uniform(1.0, 1.6)) * (4.0 if i in op["bad"] else 1.0)
            b.results.append(None if i in op["missing"] else
                             self.model(case, op["seed"] + i, op["k"], float("nan") if i in op["nan"] else q, dm))
        return b

    def sources(self, case, op):
        """[(H, W, model index)] an operation adds."""
        if op["do"] == "factor":
            H, W = self.factors(case, op["seed"], 1)
            return [(H[0], W[:, 0], op["i"])]
        if op["do"] == "model":
            s = op["made"]
            return [(s.H[f].copy(), s.W[:, f].copy(), op["i"]) for f in range(s.factors)]
        qs = [s.Qtrue for s in op["made"].results if s is not None and s.Qtrue == s.Qtrue]
        out = []
        for i, s in enumerate(op["made"].results):
            if s is None or case["exclude"] and qs and s.Qtrue > min(qs) * case["limit"]:
                continue
            out += [(s.H[f].copy(), s.W[:, f].copy(), i) for f in range(s.factors)]
        return out

    def apply(self, case, c, op):
        a = {"profile_only": case["profile_only"], "verbose": case["verbose"]}
        if op["do"] == "factor":
            H, W = self.factors(case, op["seed"], 1)
            return int(c.add_factor(H[0], W[:, 0], op["i"], **a))
        if op["do"] == "model":
            return c.add_model(op["i"], op["made"], **a)
        return c.add_batch(op["made"], **a)

    # ---------------------------------------------------------- one run
    def run(self, case, ch, out, scratch):
        patches.set_kernel(case["kernel"])
        import tqdm.notebook as nb
        import esat_eval.factor_catalog as fc
        plain = lambda it, *a, **k: it
        for mod in (nb, fc):                    # no notebook here
            for nm, f in (("tqdm", plain), ("tnrange", lambda n, *a, **k: range(n)), ("trange", lambda n, *a, **k: range(n))):
                if hasattr(mod, nm):
                    setattr(mod, nm, f)
        sim = make_sim(ch, case["sim"])
        st = {"line": None, "n": 0, "hit": False}

        def hook(s, frame):
            if st["line"] is None or not frame.f_code.co_filename.endswith("factor_catalog.py") or s.current is not s.tasks[0]:
                return
            st["n"] += 1
            if st["n"] >= st["line"]:
                st["line"], st["hit"] = None, True
                s.fault("interrupt-at-line")
                raise KeyboardInterrupt("injected")
        if any(o.get("line") for o in case["ops"]):
            sim.line_hooks = hook

        def body():
            with contextlib.redirect_stdout(io.StringIO()):
                self.story(case, fc, st, out)
        sim.run(body)
        out.take(sim)

    def new(self, case, fc):
        return fc.FactorCatalog(method=case["method"], threshold=case["threshold"], exclude_outliers=case["exclude"],
                                outlier_threshold=case["limit"])

    def story(self, case, fc, st, out):
        ops = [dict(o) for o in case["ops"]]
        for o in ops:
            if o["do"] == "batch":
                o["made"] = self.batch(case, o)
            elif o["do"] == "model":
                o["made"] = self.model(case, o["seed"], o["k"], 1.0)
        adds = [o for o in ops if o["do"] in ("batch", "model", "factor") and not o.get("line")]
        before = [self.content(o) for o in ops if "made" in o]
        c, ref = self.new(case, fc), Ref(case["method"], case["threshold"])
        th, side = None, {}
        if case["second"]:
            def work():
                try:
                    side["c"] = self.new(case, fc)
                    side["n"] = [self.apply(case, side["c"], o) for o in adds]
                except Exception as ex:
                    side["e"] = ex
            th = threading.Thread(target=work)
            th.start()
        whole = True
        for q, op in enumerate(ops):
            where = f"step {q} ({op['do']})"
            if op["do"] == "pickle":
                c = pickle.loads(pickle.dumps(c))
            elif op["do"] in ("batch", "model", "factor"):
                if op.get("line"):
                    st.update(line=op["line"], n=0, hit=False)
                    try:
                        self.apply(case, c, op)
                    except KeyboardInterrupt:
                        if not st["hit"]:
                            raise
                    st["line"] = None
                    whole = False
                    if not self.partly(case, c, ref, op, out, where, st["hit"]):
                        break
                else:
                    n = len(ref.groups)
                    got = self.apply(case, c, op)
                    if not self.follow(case, c, ref, self.sources(case, op), out, where):
                        break
                    if got != len(ref.groups) - n:
                        out.bad("C28:new", f"{where}: says {got} new factors, there are {len(ref.groups) - n}")
                        break
            elif not getattr(self, "do_" + op["do"])(case, fc, c, ref, op, out, where):
                break
            if not self.look(case, c, ref, out, where):
                break
        if th:
            th.join()
            if "e" in side:
                raise side["e"]
            if whole and not out.violations and not eq(self.state(c), self.state(side["c"])):
                out.bad("C28:reproducible", "another catalogue given the same models at the same time holds something else")
            out.counts["second"] += 1
        if before != [self.content(o) for o in ops if "made" in o]:
            out.bad("C28:caller", "the models that were added have changed")
        out.nontrivial = any(len(g) > 1 for g in ref.groups)

    def content(self, op):
        b = op["made"]
        return pickle.dumps([None if s is None else (s.H, s.W, s.Qtrue) for s in getattr(b, "results", [b])])

    def state(self, c):
        return [([(h, w) for h, w in f.factor], list(f.model), list(f.correlation)) for f in c.factors.values()]

    def follow(self, case, c, ref, adds, out, where):
        """The groups after these additions, one after another; where two groups agree equally well either will do."""
        have = self.state(c)
        pos = [len(g) for g in ref.groups]
        for H, W, m in adds:
            b, who = ref.best(lambda g: ref.agree(g, H, W, case["profile_only"]))
            near = abs(b - case["threshold"]) < ref.tol
            joins = bool(who) and (ref.better(b, case["threshold"]) or near)
            fresh = not joins or near
            took = None
            for i in (who if joins else []) + ([len(ref.groups)] if fresh else []):
                p = pos[i] if i < len(pos) else 0
                if i < len(have) and p < len(have[i][0]) and eq(have[i][0][p][0], H) and eq(have[i][0][p][1], W) and \
                        p < len(have[i][1]) and have[i][1][p] == m:
                    took = i
                    break
            if took is None:
                return out.bad("C28:group", f"{where}: a factor of model {m} is not where it belongs: "
                                            f"{'new group' if not joins else f'group {who}'} (best agreement {b}, threshold "
                                            f"{case['threshold']})")
            new = took == len(ref.groups)
            want = (0.0 if case["method"] == "raae" else 1.0) if new else b
            cor = have[took][2]
            p = 0 if new else pos[took]
            if p >= len(cor) or not close(cor[p], want, rel=1e-6, abs_=1e-6 + ref.tol):
                return out.bad("C28:agreement", f"{where}: a factor of model {m} is listed with agreement {cor[p:p + 1]}, it is {want}")
            if new:
                ref.groups.append([])
                pos.append(0)
            ref.groups[took].append((H, W, m, float(np.ravel(cor[p])[0])))
            pos[took] += 1
            ref.models = max(ref.models, m + 1)
        return True

    def partly(self, case, c, ref, op, out, where, hit):
        """An interrupted addition: what was there is there, and what came is the beginning of what was to come."""
        adds = self.sources(case, op)
        n = sum(len(f.factor) for f in c.factors.values()) - sum(len(g) for g in ref.groups)
        if not 0 <= n <= len(adds) or not hit and n != len(adds):
            return out.bad("C28:interrupted", f"{where}: {n} factors came of {len(adds)}")
        for f in c.factors.values():
            if not len(f.factor) == len(f.model) == len(f.correlation):
                out.counts["cut-within-an-entry"] += 1
                return False            # the records of the one factor that was being written; nothing more is claimed
        keep = ref.models
        if not self.follow(case, c, ref, adds[:n], out, where):
            return False
        if hit and n < len(adds):       # the next factor may have been counted already
            ref.models = max(keep, min(max(c.model_count, ref.models), adds[n][2] + 1))
        out.counts["interrupted"] += 1
        return True

    def look(self, case, c, ref, out, where):
        have = self.state(c)
        if len(have) != len(ref.groups):
            return out.bad("C28:groups", f"{where}: {len(have)} groups for {len(ref.groups)}")
        for i, (g, (hw, ms, cs)) in enumerate(zip(ref.groups, have)):
            if len(hw) != len(g) or not all(eq(a[0], x[0]) and eq(a[1], x[1]) for a, x in zip(hw, g)) or \
                    list(ms) != [x[2] for x in g] or not close(cs, [x[3] for x in g], rel=1e-6, abs_=1e-6):
                return out.bad("C28:members", f"{where}: group {i} lists models {list(ms)} with {np.round(cs, 4)}, it was given "
                                              f"{[x[2] for x in g]} with {[round(x[3], 4) for x in g]}")
        if not ref.groups:
            return True
        df = c.to_df().reset_index(drop=True)
        if sorted(df["factor"]) != sorted(c.factors):
            return out.bad("C28:table", f"{where}: the table lists {list(df['factor'])}")
        for _, row in df.iterrows():
            g = ref.groups[list(c.factors).index(row["factor"])]
            want = [len(g), round(100 * len(g) / ref.models, 2), float(np.mean([x[3] for x in g]))]
            got = [row["count"], row["% occurrence"], row["mean corr"]]
            if not close(got, want, rel=1e-4, abs_=1.1e-4):
                return out.bad("C28:table", f"{where}: factor {row['factor']} has (count, %, agreement) {got}, of {ref.models} models "
                                            f"it is {want}")
        if list(df["% occurrence"]) != sorted(df["% occurrence"], reverse=True):
            return out.bad("C28:table", f"{where}: the table is not in order of occurrence")
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            c.summary()
        lines = [ln for ln in buf.getvalue().splitlines() if ln.strip()]
        if len(lines) != len(ref.groups) or any(f"Count: {len(g)}," not in ln for g, ln in zip(ref.groups, lines)):
            return out.bad("C28:table", f"{where}: the summary says {lines}")
        return True

    def answer(self, c, ref, got, score, out, where, what):
        """`got` has to be the best group and its agreement."""
        b, who = ref.best(score)
        label, value = got
        names = [list(c.factors)[i] for i in who]
        if (label not in names if who else label is not None) and not (label is None and abs(b - (ref.method == "raae")) < ref.tol):
            return out.bad("C28:" + what, f"{where}: group {label} ({value}) is called the best, it is {names} ({b})")
        if not close(value, b, rel=1e-6, abs_=1e-6 + ref.tol):
            return out.bad("C28:" + what, f"{where}: the agreement of the best group is {b}, not {value}")
        out.counts["asked-" + what] += 1
        return True

    def do_check(self, case, fc, c, ref, op, out, where):
        H, W = self.factors(case, op["seed"], 1)
        got = c.check_factor(H[0], W[:, 0], profile_only=case["profile_only"])
        return self.answer(c, ref, got, lambda g: ref.agree(g, H[0], W[:, 0], case["profile_only"]), out, where, "check")

    def do_matrix(self, case, fc, c, ref, op, out, where):
        if case["vary"]:
            return True
        H, W = self.factors(case, op["seed"], 1)
        wh = W @ H
        mref = Ref("corr", 0)
        mref.groups = ref.groups
        return self.answer(c, mref, c.check_matrix(wh),
                           lambda g: float(np.mean([r2(np.outer(w, h), wh) for h, w, _, _ in g])), out, where, "matrix")

    def do_compare(self, case, fc, c, ref, op, out, where):
        dm = op["m"] if case["method"] != "raae" else 0
        made = [self.factors(case, op["seed"] + i, 1, dm) for i in range(op["members"])]
        f = fc.Factor(name="x", profile=made[0][0][0], contribution=made[0][1][:, 0], model_idx=0, method=case["method"],
                      threshold=case["threshold"])
        for H, W in made[1:]:
            f.add(H[0], W[:, 0], 1, 1.0)
        if case["vary"]:
            return True

        def score(g):
            return float(np.mean([ref.agree(g, H[0], W[:, 0], dm != 0) for H, W in made]))
        return self.answer(c, ref, c.compare_factor(f), score, out, where, "compare")


CHECKS = {"C28": C28()}
