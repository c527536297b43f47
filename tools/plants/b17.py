ID = "C12-shared-search-budget"
PROP = "C12"
EDITS = [("esat/error/displacement.py", """                        if dQ > max_dQ:
                            max_dQ = dQ
                        if search_i >= max_high_search:
                            value_found = True
                    disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                                   seed=self.sa.seed, verbose=False)
                    disp_i_sa.initialize(H=new_H)
                    disp_i_sa.train(max_iter=self.sa.metadata["max_iterations"],
                                    converge_delta=self.sa.metadata["converge_delta"],
                                    converge_n=self.sa.metadata["converge_n"],
                                    model_i=batch,
                                    robust_mode=False)
""", """                        if dQ > max_dQ:
                            max_dQ = dQ
                        if search_i >= max_high_search - high_search_i:
                            value_found = True
                    disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                                   seed=self.sa.seed, verbose=False)
                    disp_i_sa.initialize(H=new_H)
                    disp_i_sa.train(max_iter=self.sa.metadata["max_iterations"],
                                    converge_delta=self.sa.metadata["converge_delta"],
                                    converge_n=self.sa.metadata["converge_n"],
                                    model_i=batch,
                                    robust_mode=False)
"""), ("esat/error/displacement.py", """                if dQ > max_dQ:
                    max_dQ = dQ
                if search_i >= max_high_search:
                    value_found = True
            disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                           seed=self.sa.seed, verbose=False)
            disp_i_sa.initialize(H=new_H)
            disp_i_sa.train(max_iter=self.sa.metadata["max_iterations"],
                            converge_delta=self.sa.metadata["converge_delta"],
                            converge_n=self.sa.metadata["converge_n"],
                            model_i=model_i)
            factor_swap = compare_all_factors(disp_i_sa.H, self.H)
            scaled_profiles = new_H / new_H.sum(axis=0)
            percent = scaled_profiles[factor_i, feature_j]
            factor_W = self.W[:, factor_i]
            factor_matrix = np.matmul(factor_W.reshape(len(factor_W), 1), [new_H[factor_i]])
            factor_conc_sum = factor_matrix.sum(axis=0)
            factor_conc_i = factor_conc_sum[feature_j]
            i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                        "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
                                        "Q_drop": self.base_Q - disp_i_sa.Qtrue}
        return factor_i, feature_j, i_results

    def _decrease_disp(""", """                if dQ > max_dQ:
                    max_dQ = dQ
                if search_i >= max_high_search - high_search_i:
                    value_found = True
            disp_i_sa = SA(V=self.V, U=self.U, factors=self.sa.factors, method=self.sa.method,
                           seed=self.sa.seed, verbose=False)
            disp_i_sa.initialize(H=new_H)
            disp_i_sa.train(max_iter=self.sa.metadata["max_iterations"],
                            converge_delta=self.sa.metadata["converge_delta"],
                            converge_n=self.sa.metadata["converge_n"],
                            model_i=model_i)
            factor_swap = compare_all_factors(disp_i_sa.H, self.H)
            scaled_profiles = new_H / new_H.sum(axis=0)
            percent = scaled_profiles[factor_i, feature_j]
            factor_W = self.W[:, factor_i]
            factor_matrix = np.matmul(factor_W.reshape(len(factor_W), 1), [new_H[factor_i]])
            factor_conc_sum = factor_matrix.sum(axis=0)
            factor_conc_i = factor_conc_sum[feature_j]
            i_results[self.dQmax[i]] = {"dQ": dQ, "value": new_value, "percent": percent,
                                        "search steps": search_i, "swap": factor_swap, "conc": factor_conc_i,
                                        "Q_drop": self.base_Q - disp_i_sa.Qtrue}
        return factor_i, feature_j, i_results

    def _decrease_disp(""")]
NEEDS = "an element that needs many doublings before its upper bound is found, and a small search limit"
BREAKS = "the increase search stops at a value that misses its dQ target with steps left"
DEMO = '''
import contextlib
from esat.model.sa import SA
from esat.error.displacement import Displacement
V, U = data(20, 5, 3, seed=5)
with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
    sa = SA(V=V, U=U, factors=3, seed=2, verbose=False)
    sa.initialize()
    sa.train(max_iter=300, converge_delta=0.001, converge_n=20)
    missed = 0
    for limit in (10, 12, 14, 17, 20):
        d = Displacement(sa=sa, feature_labels=[f"f{i}" for i in range(5)], max_search=limit, threshold_dQ=0.5, parallel=False)
        d._increase_disp()
        for f in d.increase_results.values():
            for el in f.values():
                for target, r in el.items():
                    inside = target - 0.5 - 1e-3 <= r["dQ"] <= target + 1e-3
                    missed += (not inside) and r["search steps"] < limit
expect(missed == 0, f"{missed} searches missed their target with steps left")
'''
