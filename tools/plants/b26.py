ID = "C26-residuals-without-weak-uncertainty"
PROP = "C26"
EDITS = [("esat/data/analysis.py", """        U = self.model.U

        # Determine feature index
""", """        # the uncertainty as it was measured
        U = self.dh.uncertainty_data.loc[self.dh.input_data_df.index, self.dh.features].to_numpy()

        # Determine feature index
""")]
NEEDS = "a feature of the category weak, whose uncertainty is three times the one in the table"
BREAKS = "the residuals of a weak feature are scaled by another uncertainty than the model was trained with"
DEMO = '''
import pandas as pd
from esat.data.datahandler import DataHandler
from esat.model.sa import SA
from esat.data.analysis import ModelAnalysis
rng = np.random.default_rng(1)
V = rng.gamma(2.0, 1.0, (20, 3)) @ rng.gamma(1.0, 1.0, (3, 5)) + 0.1
idx = pd.Index(pd.date_range("2020-01-01", periods=20).astype(str))
I = pd.DataFrame(V, columns=list("abcde"), index=idx)
U = I * 0.1 + 0.05
dh = DataHandler.load_dataframe(I, U)
dh.set_category("b", "weak")
V, U = dh.get_data()
sa = SA(V=V, U=U, factors=2, seed=1, verbose=False)
sa.initialize()
sa.train(max_iter=30)
fig, df = ModelAnalysis(dh, sa, selected_model=0).plot_residual_histogram(feature_name="b", abs_threshold=-1, show=False)
want = ((V - sa.W @ sa.H) / U)[:, 1]
expect(np.allclose(df["b"], want, atol=1e-3), "the residuals of a weak feature are not scaled by its uncertainty")
'''
