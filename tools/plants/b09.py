ID = "C19-in-place-update"
PROP = "C19"
EDITS = [("esat/model/ls_nmf.py", """        W = np.multiply(W, np.divide(W_num, W_den))
""", """        W = np.multiply(W, np.divide(W_num, W_den), out=W)
""")]
NEEDS = "two models, or a model and its caller, that share one predefined contribution matrix"
BREAKS = "training a model overwrites the caller's contribution matrix, and with it the start of other models"
DEMO = '''
from esat.model.sa import SA
V, U = data()
rng = np.random.default_rng(0)
W, H = rng.uniform(0.1, 1, (12, 3)), rng.uniform(0.1, 1, (3, 5))
keep = W.copy()
sa = SA(V=V, U=U, factors=3, seed=1, verbose=False)
sa.initialize(H=H, W=W)
sa.train(max_iter=3)
expect(np.array_equal(W, keep), "training changed the caller's contribution matrix")
'''
