ID = "C13-single-swap-not-counted"
PROP = "C13"
EDITS = [("esat/error/bs_disp.py", """            if np.count_nonzero(self.disp_results[result_i].swap_table) > 0:
                self.disp_swap += 1
""", """            if self.disp_results[result_i].swap_table.max() > 1:
                self.disp_swap += 1
""")]
NEEDS = "a bootstrap run whose displacements swap factors at most once in every level"
BREAKS = "the number of runs with a swap misses runs with single swaps"
DEMO = '''
from esat.model.sa import SA
from esat.error.bootstrap import Bootstrap
from esat.error.bs_disp import BSDISP
n = 0
for s in range(40):
    V, U = data(m=10, n=3, k=2, seed=s)
    sa = SA(V=V, U=U, factors=2, seed=s, verbose=False)
    sa.initialize()
    sa.train(max_iter=20)
    sa.metadata["max_iterations"] = 1
    boot = Bootstrap(sa=sa, feature_labels=list("abc"), bootstrap_n=2, block_size=2, parallel=False)
    boot.run()
    import contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        x = BSDISP(sa=sa, feature_labels=list("abc"), bootstrap=boot, features=[s % 3], cores=2)
        x.run(parallel=True)
    want = sum(bool(d.swap_table.any()) for d in x.disp_results.values())
    expect(x.disp_swap == want, f"{x.disp_swap} runs with swaps reported, {want} had one")
'''
