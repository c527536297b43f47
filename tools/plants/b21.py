ID = "C22-first-model-not-selectable"
PROP = "C22"
EDITS = [("esat/cli/esat_cli.py", """    selected_i = sa_models.best_model if selected_model == -1 else selected_model
    i_model = sa_models.results[selected_i]
    ma =""", """    selected_i = selected_model if selected_model > 0 else sa_models.best_model
    i_model = sa_models.results[selected_i]
    ma =""")]
NEEDS = "an analysis command for model 0 of a batch whose best model is another one"
BREAKS = "the analysis shows the best model instead of the first"
DEMO = '''
import types as T
import esat.cli.esat_cli as cli
batch = T.SimpleNamespace(best_model=2, results=["m0", "m1", "m2"])
cli.get_config = lambda **k: {"data": {}}
cli.get_dh = lambda *a, **k: T.SimpleNamespace(get_data=lambda: None)
cli.get_batchsa = lambda **k: batch
cli.ModelAnalysis = lambda datahandler, model, selected_model: (model, selected_model)
for want, ask in ((2, -1), (0, 0), (1, 1), (2, 2)):
    ma, i = cli.get_model_analysis("/nowhere", ask)
    expect(i == want and ma == (f"m{want}", want), f"model {ask} shows {ma}")
'''
