ID = "C03-log-listener-left-running"
PROP = "C03"
EDITS = [("esat/model/batch_sa.py", """                return True, ""
            except Exception as e:
""", """                listener.stop()
                return True, ""
            except Exception as e:
"""), ("esat/model/batch_sa.py", """                listener.stop()

    def _train_task(""", """
    def _train_task(""")]
NEEDS = "a training that fails"
BREAKS = "the log listener of the failed call keeps running"
DEMO = '''
import contextlib, threading
from esat.model.batch_sa import BatchSA
V, U = data()
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    b = BatchSA(V=V, U=U, factors=3, models=2, max_iter=10, parallel=False, verbose=False)
    ok, msg = b.train()
    before = {t.name for t in threading.enumerate()}
    b.update_step = "def update(self, *a, **k):\\n    raise ValueError('injected')\\n"
    bad, msg = b.train()
    left = [t for t in threading.enumerate() if t.name not in before and t.is_alive() and "_monitor" in t.name + repr(t)]
expect(ok, "the healthy training works")
expect(not bad, "the failing training fails")
expect(not left, f"threads left running: {left}")
'''
