ID = "C18-zero-lost-on-load"
PROP = "C18"
EDITS = [("esat/model/sa.py", """                    sa = pickle.load(pfile)
                    return sa
""", """                    sa = pickle.load(pfile)
                    if sa.H is not None:
                        sa.H[sa.H <= 0.0] = 1e-12
                    return sa
""")]
NEEDS = "a saved model in which an element of a profile has become exactly zero"
BREAKS = "the loaded model differs from the saved one, and so does what its training continues to"
DEMO = '''
import contextlib, tempfile, shutil
from esat.model.sa import SA
V, U = data()
d = tempfile.mkdtemp()
try:
    sa = SA(V=V, U=U, factors=3, seed=2, verbose=False)
    sa.initialize()
    sa.train(max_iter=20, converge_delta=0.0001, converge_n=10)
    sa.H[1, 2] = 0.0
    p = sa.save("m", d, pickle_model=True)
    two = SA.load(p)
    same = np.array_equal(np.asarray(two.H), np.asarray(sa.H))
    for m in (sa, two):
        m.train(max_iter=2000, converge_delta=1e-9, converge_n=1000)
    after = np.array_equal(np.asarray(two.H), np.asarray(sa.H))
finally:
    shutil.rmtree(d)
expect(same, "the loaded profiles are not the saved ones")
expect(after, "the loaded model does not continue as the saved one")
'''
