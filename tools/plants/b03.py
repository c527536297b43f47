ID = "C06-unrun-not-loadable"
PROP = "C06"
EDITS = [("esat/error/bootstrap.py", """                with open(file_path, "rb") as pfile:
                    bs = pickle.load(pfile)
                    return bs
""", """                with open(file_path, "rb") as pfile:
                    bs = pickle.load(pfile)
                    return bs if len(bs.bs_results) == bs.bootstrap_n else None
""")]
NEEDS = "saving a bootstrap that has not been run yet, or whose run was interrupted, and loading it back"
BREAKS = "a completely saved object loads as nothing"
DEMO = '''
import tempfile
from esat.model.sa import SA
from esat.error.bootstrap import Bootstrap
V, U = data()
sa = SA(V=V, U=U, factors=3, seed=1, verbose=False)
sa.initialize()
sa.train(max_iter=3)
with tempfile.TemporaryDirectory() as d:
    b = Bootstrap(sa=sa, feature_labels=list("abcde"), bootstrap_n=2, block_size=3, parallel=False)
    path = b.save(bs_name="bs", output_directory=d)
    x = Bootstrap.load(path)
    expect(x is not None and x.bootstrap_n == 2, "a saved bootstrap does not load")
'''
