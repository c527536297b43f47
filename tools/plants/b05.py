ID = "C10-match-skips-earlier-factors"
PROP = "C10"
EDITS = [("esat/error/bootstrap.py", """            m1_i = matrices1[i]
            best_i = i
            best_r = self._calculate_factor_correlation(m1_i, matrices2[i])
            for j in range(H2.shape[0]):
""", """            m1_i = matrices1[i]
            best_i = i
            best_r = self._calculate_factor_correlation(m1_i, matrices2[i])
            for j in range(i, H2.shape[0]):
""")]
NEEDS = "a bootstrap factor that correlates best with a base factor of a lower index"
BREAKS = "bootstrap factors that swapped places are counted as mapped to themselves or unmapped"
DEMO = '''
from esat.model.sa import SA
from esat.error.bootstrap import Bootstrap
V, U = data()
sa = SA(V=V, U=U, factors=3, seed=1, verbose=False)
sa.initialize()
sa.train(max_iter=50)
b = Bootstrap(sa=sa, feature_labels=list("abcde"), bootstrap_n=1, block_size=3, parallel=False)
p = [2, 0, 1]
m = b.map_contributions(W1=sa.W[:, p], H1=sa.H[p], W2=sa.W, H2=sa.H)
expect([m[i]["match"] for i in range(3)] == p, f"permuted factors map to {m}")
'''
