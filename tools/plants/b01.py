ID = "C01-predefined-profile-order"
PROP = "C01"
EDITS = [("esat/model/batch_sa.py", """                            if len(self.H.shape) == 3:
                                i_H = self.H[i - 1]
                            elif len(self.H.shape) == 2:
                                i_H = self.H
                        i_W = self.W
""", """                            if len(self.H.shape) == 3:
                                i_H = self.H[len(input_parameters) - 1]
                            elif len(self.H.shape) == 2:
                                i_H = self.H
                        i_W = self.W
""")]
NEEDS = "a parallel batch of several models with a three-dimensional H (one predefined profile matrix per model)"
BREAKS = "each model starts from the previous model's predefined profile matrix (the first from the last one's)"
DEMO = '''
from esat.model.batch_sa import BatchSA
V, U = data()
H = np.random.default_rng(3).uniform(0.1, 2.0, (3, 3, 5))
kw = dict(V=V, U=U, factors=3, models=3, seed=4, H=H, hold_h=True, max_iter=3, verbose=False)
b = BatchSA(parallel=True, cores=2, **kw)
ok, why = b.train()
expect(ok, why)
for i in range(3):
    expect(np.allclose(b.results[i].H, H[i]), f"model {i} was trained with another model's held profiles")
'''
