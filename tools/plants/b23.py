ID = "C24-requested-cores-on-one-cpu"
PROP = "C24"
EDITS = [("esat/error/bs_disp.py", """        self.cores = min(cores, max_cores) if cores > 0 else max_cores
""", """        self.cores = min(cores, os.cpu_count() - 1) if cores > 0 else max_cores
""")]
NEEDS = "a machine with a single CPU and an explicit number of cores"
BREAKS = "the pool is made with no process at all and the bootstrap-displacement raises"
DEMO = '''
import types as T
import esat.error.bs_disp as b
os.cpu_count = lambda: 1
V, U = data()
from esat.model.sa import SA
sa = SA(V=V, U=U, factors=3, seed=2, verbose=False)
x = b.BSDISP(sa=sa, feature_labels=list("abcde"), cores=2)
expect(x.cores >= 1, f"{x.cores} processes")
'''
