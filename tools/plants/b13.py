ID = "C16-last-block-of-permutations"
PROP = "C16"
EDITS = [("eval/factor_comparison.py", """                if factor_i == permutations_n - 1:
""", """                if len(factor_permutations) == min(permutations_n, 500):
""")]
NEEDS = "more than 500 permutations, so 6 or more factors, with the matching permutation among the last ones"
BREAKS = "the permutations are handed to the pool in blocks, the last incomplete block never is: the mapping is not the best"
DEMO = '''
import pandas as pd
import multiprocessing as mp


class Pool:
    def __init__(self, *a, **k):
        pass

    def starmap(self, f, args):
        return [f(*a) for a in args]

    def close(self):
        pass

    terminate = join = close


mp.Pool = Pool
import importlib.util
spec = importlib.util.spec_from_file_location("fcomp", os.path.join(os.getcwd(), "eval", "factor_comparison.py"))
fc = importlib.util.module_from_spec(spec)
spec.loader.exec_module(fc)
rng = np.random.default_rng(3)
k, n, m = 6, 8, 20
H, W = rng.gamma(1.0, 1.0, (k, n)), rng.gamma(1.0, 1.0, (m, k))
order = list(range(k))[::-1]


class M:
    pass


one = M()
one.H, one.W, one.Qtrue = H[order], W[:, order], 1.0
one.WH = one.W @ one.H
batch = M()
batch.factors, batch.results = k, [one]
f = [f"Factor {i + 1}" for i in range(k)]
cols = [f"x{i}" for i in range(n)]
V = pd.DataFrame(W @ H, columns=cols)
c = fc.FactorCompare(input_df=V, uncertainty_df=V * 0.1 + 0.1, base_profile_df=pd.DataFrame(H.T, columns=f),
                     base_contribution_df=pd.DataFrame(W, columns=f), batch_sa=batch)
c.compare(verbose=False)
expect(c.factor_map == f[::-1], f"the models are the same up to the order of the factors, the mapping is {c.factor_map}")
'''
