ID = "C09-last-sample-never-drawn"
PROP = "C09"
EDITS = [("esat/error/bootstrap.py", """                while index_count + len(block_i) > N:
                    block_i.pop()
""", """                while block_i[-1] >= N - 1 and len(block_i) > 1:
                    block_i.pop()
""")]
NEEDS = "block resampling without overlap: the last sample of the data belongs to the last block"
BREAKS = "the last sample is never part of any resample, so the bootstrap never sees it"
DEMO = '''
from esat.model.sa import SA
from esat.error.bootstrap import Bootstrap
V, U = data(m=12)
sa = SA(V=V, U=U, factors=2, seed=1, verbose=False)
sa.initialize()
sa.train(max_iter=2)
for bs in (1, 3, 4, 5):
    b = Bootstrap(sa=sa, feature_labels=list("abcde"), bootstrap_n=60, block_size=bs, parallel=False)
    b.run()
    seen = {int(i) for r in b.bs_results.values() for i in r["index"]}
    expect(seen == set(range(12)), f"block size {bs}: samples {set(range(12)) - seen} are never drawn")
'''
