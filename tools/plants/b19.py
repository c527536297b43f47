ID = "C08-parallel-default-threshold"
PROP = "C08"
EDITS = [("esat/error/bootstrap.py", """        bs_i_mapping = self.map_contributions(W1=bs_i_sa.W, H1=bs_i_sa.H, W2=self.base_W, H2=self.base_H,
                                              threshold=self.threshold)
        bs_i_results = {
            "model": bs_i_sa,
            "index": bs_index,
            "mapping": bs_i_mapping
        }
        return i, bs_i_results
""", """        bs_i_mapping = self.map_contributions(W1=bs_i_sa.W, H1=bs_i_sa.H, W2=self.base_W, H2=self.base_H)
        bs_i_results = {
            "model": bs_i_sa,
            "index": bs_index,
            "mapping": bs_i_mapping
        }
        return i, bs_i_results
""")]
NEEDS = "a parallel bootstrap with a threshold other than the default, and a correlation between the two"
BREAKS = "the parallel run maps factors by the default threshold"
DEMO = '''
import contextlib
from esat.model.sa import SA
from esat.error.bootstrap import Bootstrap
V, U = data(14, 6, 3, seed=5)
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    sa = SA(V=V, U=U, factors=3, seed=2, verbose=False)
    sa.initialize()
    sa.train(max_iter=50, converge_delta=0.001, converge_n=20)
    out = []
    for par in (False, True):
        b = Bootstrap(sa=sa, feature_labels=[f"f{i}" for i in range(6)], block_size=2, bootstrap_n=4, threshold=0.99999,
                      seed=3, parallel=par, cpus=2)
        b.run()
        out.append(b.mapping_df["Unmapped"].tolist())
expect(out[0] == out[1], f"unmapped serially {out[0]}, in parallel {out[1]}")
'''
