ID = "C15-comparison-of-the-first-run"
PROP = "C15"
EDITS = [("eval/perturbation.py", """        self.comparison = FactorCompareV2(self.base_model, self.perturbed_models, in_notebook=self.in_notebook)
""", """        if getattr(self, "comparison", None) is None or len(self.comparison.models) != len(self.perturbed_models):
            self.comparison = FactorCompareV2(self.base_model, self.perturbed_models, in_notebook=self.in_notebook)
""")]
NEEDS = "run and compare, and run and compare once more on the same object"
BREAKS = "the second comparison reports the mappings and correlations of the models of the first run"
DEMO = '''
import importlib.util
spec = importlib.util.spec_from_file_location("eval", os.path.join(os.getcwd(), "eval", "__init__.py"),
                                              submodule_search_locations=[os.path.join(os.getcwd(), "eval")])
sys.modules["eval"] = importlib.util.module_from_spec(spec)
from eval.perturbation import Perturbation
from eval.factor_comparison import FactorCompareV2
import contextlib
V, U = data()
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    p = Perturbation(V, U, factors=3, models=2, sigma=1.5, max_iterations=30, converge_n=5, converge_delta=0.1)
    p.run()
    p.compare("corr")
    p.run()
    p.compare("corr")
    maps, vals = FactorCompareV2(p.base_model, p.perturbed_models).determine_map("corr")
ok = all(np.allclose(vals[i], p.perturb_correlations[i]) for i in vals)
expect(ok, f"the correlations of the models are {vals}, reported are {p.perturb_correlations}")
'''
