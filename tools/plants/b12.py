ID = "C04-progress-stops-on-last-model"
PROP = "C04"
EDITS = [("esat/model/batch_sa.py", """        msg = queue.get()
        if msg == "DONE":
            break
        callback(*msg)
""", """        msg = queue.get()
        if msg == "DONE":
            break
        while not queue.empty() and msg[-1] is False:
            newer = queue.get()
            if newer == "DONE" or newer[0] != msg[0]:
                callback(*msg)
                msg = newer
                if msg == "DONE":
                    return
            else:
                msg = newer
        callback(*msg)
""")]
NEEDS = "a callback slower than the workers, so that several progress messages of one model wait in the queue"
BREAKS = "progress messages that waited together are dropped, all but the latest"
DEMO = '''
import queue, time
from esat.model.batch_sa import _progress_listener
q, got = queue.Queue(), []
for i in range(5):
    q.put((1, i, 5, 1.0, 1.0, 1.0, i == 4))
q.put("DONE")
_progress_listener(q, lambda *a: got.append(a[1]))
expect(got == [0, 1, 2, 3, 4], f"messages handed on: {got}")
'''
