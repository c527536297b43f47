ID = "C26-models-renumbered-after-a-failure"
PROP = "C26"
EDITS = [("esat/data/analysis.py", """        for i, result in enumerate(self.batch_sa.results):
            if result is not None:
                model.append(i)
                qt_list.append(result.Qtrue)
                qr_list.append(result.Qrobust)
""", """        results = [result for result in self.batch_sa.results if result is not None]
        for i, result in enumerate(results):
            model.append(i)
            qt_list.append(result.Qtrue)
            qr_list.append(result.Qrobust)
""")]
NEEDS = "a batch in which a model other than the last failed"
BREAKS = "the losses of the models after a failed one are labelled with the numbers of other models"
DEMO = '''
from esat.model.batch_sa import BatchSA
from esat.data.analysis import BatchAnalysis
rng = np.random.default_rng(1)
V = rng.gamma(2.0, 1.0, (20, 3)) @ rng.gamma(1.0, 1.0, (3, 5)) + 0.1
b = BatchSA(V=V, U=V * 0.1 + 0.05, factors=2, models=3, seed=1, max_iter=20, parallel=False, verbose=False)
b.train()
b.results[1] = None
fig = BatchAnalysis(b).plot_loss_distribution(show=False)
expect([str(x) for x in fig.data[0].text] == ["0", "2"], f"the models are numbered {list(fig.data[0].text)}")
'''
