ID = "C23-places-sampled-at-the-same-time"
PROP = "C23"
EDITS = [("esat/data/datahandler.py", """(loc_data.isna() & pd.isna(loc.values))).all(axis=1)
                input_data_loc = self.input_data[loc_filter]
                uncertainty_data_loc = self.uncertainty_data[loc_filter]
""", """(loc_data.isna() & pd.isna(loc.values))).all(axis=1)
                input_data_loc = self.input_data[loc_filter]
                uncertainty_data_loc = self.uncertainty_data.loc[input_data_loc.index.unique()]
""")]
NEEDS = "places sampled at the same times, so that an index label belongs to several rows"
BREAKS = "the part of a place holds the uncertainties of the other places too: its rows and uncertainties do not belong together"
DEMO = '''
import pandas as pd
from esat.data.datahandler import DataHandler
V, U = data(6, 3, 2)
t = pd.Index(["1 May", "1 May", "2 May", "2 May", "3 May", "3 May"], name="Date")
I, J = pd.DataFrame(V, columns=list("abc"), index=t), pd.DataFrame(U, columns=list("abc"), index=t)
I["site"] = J["site"] = ["x", "y"] * 3
h = DataHandler.load_dataframe(I, J, loc_cols=["site"])
for k, p in enumerate(h.split_locations()):
    ok = p.uncertainty_data[["a", "b", "c"]].shape == (3, 3) and np.allclose(p.uncertainty_data[["a", "b", "c"]], U[k::2])
    expect(ok, f"part {k} has {len(p.input_data)} samples and {len(p.uncertainty_data)} uncertainties")
'''
