ID = "C28-first-member-decides"
PROP = "C28"
EDITS = [("eval/factor_catalog.py", """            corr_list.append(corr)
        mean_corr = np.mean(corr_list)
        return mean_corr

    def add(""", """            corr_list.append(corr)
            # a single poor match rules this factor out
            if corr < 0.3 and self.method != "raae":
                return corr
        mean_corr = np.mean(corr_list)
        return mean_corr

    def add(""")]
NEEDS = "a group whose members agree on average although one of them agrees poorly"
BREAKS = "the factor starts a new group instead of joining the one it agrees with"
DEMO = '''
import importlib.util
spec = importlib.util.spec_from_file_location("eval", os.path.join(os.getcwd(), "eval", "__init__.py"),
                                              submodule_search_locations=[os.path.join(os.getcwd(), "eval")])
sys.modules["eval"] = importlib.util.module_from_spec(spec)
from eval.factor_catalog import Factor
from eval.factor_comparison import FactorCompare
rng = np.random.default_rng(1)
a = rng.random(12)
f = Factor(name="0", profile=np.ones(4), contribution=a, model_idx=0, method="corr", threshold=0.6)
odd = rng.random(12)
f.add(np.ones(4), odd, 1, 0.7)
want = np.mean([FactorCompare.calculate_correlation(a, a), FactorCompare.calculate_correlation(odd, a)])
got = f.check(np.ones(4), a)
expect(abs(got - want) < 1e-9, f"the agreement is {got}, the mean over the members is {want}")
'''
