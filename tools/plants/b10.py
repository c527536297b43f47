ID = "C07-clipped-residuals"
PROP = "C07"
EDITS = [("esat/model/sa.py", """                    residuals = self.V - self.WH
                    np.savetxt(rfile, residuals, delimiter=',', header=header, comments=residual_comment)
""", """                    residuals = self.V - np.matmul(self.W, self.H).clip(min=0.0)
                    np.savetxt(rfile, residuals, delimiter=',', header=header, comments=residual_comment)
""")]
NEEDS = "exporting a ws-nmf model that estimates a negative value"
BREAKS = "the exported residuals are not those of the exported estimate"
DEMO = '''
import tempfile
from esat.model.sa import SA
V, U = data()
V[3] *= -0.5
sa = SA(V=V, U=U, factors=3, method="ws-nmf", seed=1, verbose=False)
sa.initialize()
sa.WH = None
sa.W = np.abs(V[:, :3]) + 0.1
sa.W[3] *= -1
sa.H = np.abs(sa.H) + 0.1
sa.WH = sa.W @ sa.H
with tempfile.TemporaryDirectory() as d:
    sa.save("m", d, header=list("abcde"), pickle_model=False)
    rows = []
    for ln in open(os.path.join(d, "m-residuals.csv")):
        try:
            rows.append([float(x) for x in ln.split(",")])
        except ValueError:
            pass
    r = np.array(rows)
    expect(np.allclose(r, V - sa.WH), "exported residuals are not V - WH")
'''
