ID = "C20-stale-synthetic-data"
PROP = "C20"
EDITS = [("eval/simulator.py", """        self.syn_contributions[:, factor_i] = y_data
""", """        self.syn_contributions[:, factor_i] = y_data
        self.syn_data = None
"""), ("eval/simulator.py", """        self._generate_data()
        self._generate_dfs()
""", """        if self.syn_data is None:
            self._generate_data()
        self._generate_dfs()
""")]
NEEDS = "custom profiles set after the data had been taken once"
BREAKS = "the data stay those of the earlier profiles"
DEMO = '''
import importlib.util
spec = importlib.util.spec_from_file_location("eval", os.path.join(os.getcwd(), "eval", "__init__.py"),
                                              submodule_search_locations=[os.path.join(os.getcwd(), "eval")])
sys.modules["eval"] = importlib.util.module_from_spec(spec)
from eval.simulator import Simulator
s = Simulator(seed=4, factors_n=3, features_n=5, samples_n=30, outliers=False, verbose=False)
s.get_data()
s.generate_profiles(np.full((3, 5), 100.0))
d, _ = s.get_data()
expect(float(d.to_numpy().mean()) > 40, f"profiles of 100 and contributions around 1 give data around {float(d.to_numpy().mean())}")
'''
