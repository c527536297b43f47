ID = "C02-robust-best"
PROP = "C02"
EDITS = [("esat/model/batch_sa.py", """                        _nmf_q = _sa.Qrobust if self.best_robust else _sa.Qtrue
                        if _nmf_q < best_q:
                            best_q = _nmf_q
""", """                        _nmf_q = _sa.Qrobust if self.best_robust else _sa.Qtrue
                        if _nmf_q < best_q:
                            best_q = _sa.Qtrue
""")]
NEEDS = "a parallel batch selecting by robust loss, where a later model is worse than the best by robust loss but its " \
        "robust loss is below the best one's true loss (outliers in the data)"
BREAKS = "the reported best model is not the model with the smallest robust loss"
DEMO = '''
from esat.model.batch_sa import BatchSA
for s in range(6):
    V, U = data(seed=s)
    V[2, 3] *= 30.0
    V[7, 1] *= 20.0
    b = BatchSA(V=V, U=U, factors=3, models=6, seed=s, max_iter=4, parallel=True, cores=2, verbose=False)
    ok, why = b.train()
    expect(ok, why)
    q = [m.Qrobust for m in b.results]
    expect(q[b.best_model] == min(q), f"best model {b.best_model}, robust losses {q}")
'''
