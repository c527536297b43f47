ID = "C05-runtime-over-a-day"
PROP = "C05"
EDITS = [("esat/model/batch_sa.py", """                self.runtime = round(t1 - t0, 2)
""", """                self.runtime = datetime.timedelta(seconds=round(t1 - t0, 2)).seconds
""")]
NEEDS = "a batch that takes longer than a day"
BREAKS = "the reported runtime loses its days"
DEMO = '''
import time
skew = [0.0]
real = time.monotonic
time.monotonic = lambda: real() + skew[0]
from esat.model.sa import SA
from esat.model.batch_sa import BatchSA
train = SA.train


def slow(self, *a, **k):
    skew[0] += 100000.0
    return train(self, *a, **k)


SA.train = slow
V, U = data()
b = BatchSA(V=V, U=U, factors=3, models=1, seed=4, max_iter=2, parallel=False, verbose=False)
ok, why = b.train()
expect(ok, why)
expect(b.runtime >= 100000.0, f"runtime {b.runtime} of a batch that took 100000 s")
'''
