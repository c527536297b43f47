ID = "C11-parallel-decrease-level"
PROP = "C11"
EDITS = [("esat/error/displacement.py", """        model_i = factor_i*len(self.features) + feature_j + 1
        i_results = {}
        for i in range(len(self.dQmax)):
            high_mod = 1.0
            low_mod = 0.0
            modifier""", """        model_i = factor_i*len(self.features) + feature_j + 1
        i_results = {}
        low_mod = 0.0
        for i in range(len(self.dQmax)):
            high_mod = 1.0
            modifier""")]
NEEDS = "a displacement in a worker pool, in an element whose larger dQ levels bound the search from below"
BREAKS = "parallel displacement ends the smaller dQ searches elsewhere than serial displacement does"
DEMO = '''
from esat.model.sa import SA
from esat.error.displacement import Displacement
V, U = data(m=16, n=4, k=2, seed=5)
sa = SA(V=V, U=U, factors=2, seed=1, verbose=False)
sa.initialize()
sa.train(max_iter=60)
sa.metadata["max_iterations"] = 1
out = []
for parallel in (True, False):
    d = Displacement(sa=sa, feature_labels=list("abcd"), max_search=50, parallel=parallel, cores=2)
    d.run()
    out.append(d)
a, b = out
for f in b.decrease_results:
    for j in b.decrease_results[f]:
        for q, v in b.decrease_results[f][j].items():
            w = a.decrease_results[f][j][q]
            expect(abs(v["dQ"] - w["dQ"]) < 1e-6, f"{f} {j} dQ {q}: serial {v['dQ']} parallel {w['dQ']}")
'''
