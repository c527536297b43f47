ID = "C14-model-without-test-cells"
PROP = "C14"
EDITS = [("esat/estimator.py", """        self.train_mse[list_i].append(results[0])
""", """        if np.isnan(results[1]):
            # no test cells were drawn
            self.pbar.update(1)
            return
        self.train_mse[list_i].append(results[0])
""")]
NEEDS = "a small table or test percentage, so that the mask of one of several models of a factor count has no test cell"
BREAKS = "the train error and the losses of that model are missing from the averages of its factor count"
DEMO = '''
from esat.estimator import FactorEstimator
import contextlib
V, U = data(5, 4, 2)
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    e = FactorEstimator(V, U, seed=3, test_percent=0.05)
    seen = []
    real = FactorEstimator._update_pbar

    def update(self, r):
        seen.append(r)
        return real(self, r)
    FactorEstimator._update_pbar = update
    df = e.run(samples=24, min_factors=2, max_factors=4, max_iterations=20)
expect(any(np.isnan(r[1]) for r in seen) and not all(np.isnan(r[1]) for r in seen), "the demonstration needs both kinds")
for k in (2, 3, 4):
    want = [r[3] for r in seen if r[2] == k]
    got = float(df.loc[df["Factors"] == k, "Q(True)"].iloc[0])
    expect(not want or abs(got - np.mean(want)) < 1e-6 * (1 + abs(got)), f"Q(True) of {k} factors is {got}, of its models {want}")
'''
