ID = "C26-uncertainty-of-bootstraps-rescaled"
PROP = "C26"
EDITS = [("esat/error/bootstrap.py", """        base_ndata = base_data / base_data.sum(axis=0)
        f_data = np.array(self.bs_profiles[factor])
""", """        base_data /= base_data.sum(axis=0)
        base_ndata = base_data
        f_data = np.array(self.bs_profiles[factor])
""")]
NEEDS = "two looks: the percentages of a factor, then its concentrations or its table"
BREAKS = "looking at the percentages rescales the base profile, which later plots and tables show as concentrations"
DEMO = '''
import plotly.graph_objects as go
go.Figure.show = lambda self, *a, **k: None
from esat.model.sa import SA
from esat.error.bootstrap import Bootstrap
rng = np.random.default_rng(1)
V = rng.gamma(2.0, 1.0, (20, 3)) @ rng.gamma(1.0, 1.0, (3, 5)) + 0.1
sa = SA(V=V, U=V * 0.1 + 0.05, factors=2, seed=1, verbose=False)
sa.initialize()
sa.train(max_iter=30)
sa.metadata["max_iterations"] = 5
bs = Bootstrap(sa=sa, feature_labels=list("abcde"), model_selected=0, bootstrap_n=2, block_size=3, parallel=False)
bs.run()
before = np.array(bs.base_H)
bs.plot_factor(1)
expect(np.array_equal(before, bs.base_H), "looking at a factor changed the base profiles")
'''
