ID = "C17-long-delay-never-ends"
PROP = "C17"
EDITS = [("esat/model/sa.py", """                    self.We.astype(np.float32),
                    self.W.astype(np.float32),
                    self.H.astype(np.float32),
                    max_iter,
""", """                    self.We.astype(np.float32),
                    self.W.astype(np.float32, copy=False),
                    self.H.astype(np.float32),
                    max_iter if delay_h < 0 else max(max_iter, delay_h),
""")]
NEEDS = "the native kernel, with a delay before the profiles are updated that is longer than the iteration limit"
BREAKS = "training runs more iterations than the maximum asked for"
DEMO = '''
seen = []


class K(types.ModuleType):
    @staticmethod
    def clear_screen():
        pass

    @staticmethod
    def ls_nmf(V, U, We, W, H, max_iter, *a):
        seen.append(max_iter)
        return {"w": W, "h": H, "q": 1.0, "converged": False, "converge_i": max_iter - 1, "q_list": [1.0] * max_iter}

    ws_nmf = ls_nmf


sys.modules["esat_rust"] = K("esat_rust")
from esat.model.sa import SA
V, U = data()
sa = SA(V=V, U=U, factors=3, seed=1, verbose=False)
sa.initialize()
sa.train(max_iter=4, hold_h=True, delay_h=10)
expect(len(sa.q_list) == 4, f"{len(sa.q_list)} iterations, at most 4 were asked for")
'''
