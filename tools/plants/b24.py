ID = "C27-zero-is-not-a-mark"
PROP = "C27"
EDITS = [("esat/data/impute.py", """        if self.missing_value is not None:
""", """        if self.missing_value:
""")]
NEEDS = "0 as the mark of missing values"
BREAKS = "the marked values are taken as observed"
DEMO = '''
import types as T
import pandas as pd
try:
    import sklearn
except ImportError:
    sys.exit(0)
from esat.data.datahandler import DataHandler
from esat.data.impute import DataImputer
V, U = data(8, 3, 2)
V[2, 1] = 0.0
h = DataHandler.load_dataframe(pd.DataFrame(V, columns=list("abc")), pd.DataFrame(U, columns=list("abc")))
out = DataImputer(h, missing_value=0.0).impute("mean")
x = float(out[0].to_numpy()[2, 1])
expect(x > 0, f"the marked value is still {x}")
'''
