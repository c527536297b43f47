From 6444708891af7bea280152ecbcd4ffd95c2ab6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 01/94] fix: WSNMF.update accepts hold_h, so ws-nmf models
 train without the Rust module

---
 esat/model/ws_nmf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/esat/model/ws_nmf.py b/esat/model/ws_nmf.py
index 1949617..5c09388 100644
--- a/esat/model/ws_nmf.py
+++ b/esat/model/ws_nmf.py
@@ -10,7 +10,8 @@ class WSNMF:
             V: np.ndarray,
             We: np.ndarray,
             W: np.ndarray,
-            H: np.ndarray
+            H: np.ndarray,
+            hold_h: bool = False,
     ):
         """
         Weighted Semi-NMF algorithm.
@@ -33,6 +34,8 @@ class WSNMF:
            The factor contribution matrix, prior W is not used by this algorithm but provided here for testing.
         H : np.ndarray
            The factor profile matrix.
+        hold_h : bool
+            If True, the H matrix is not updated.
 
         Returns
         -------
@@ -64,6 +67,8 @@ class WSNMF:
             _w = np.matmul(_w_n, _w_di)
             _W.append(_w)
         W = np.array(_W)
+        if hold_h:
+            return W, H
 
         W_n = (np.abs(W) - W) / 2.0
         W_p = (np.abs(W) + W) / 2.0
-- 
2.43.0


From 6f5a3d2c840b4c14f7dced892f0b03a38a48496c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 02/94] fix: sequential batch training uses per-model H/W and
 delay_h as parallel training does

---
 esat/model/batch_sa.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index c916821..3a977ab 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -292,13 +292,24 @@ class BatchSA:
                             verbose=self.verbose,
                             use_gpu=self.use_gpu
                         )
-                        _sa.initialize(H=self.H, W=self.W,
+                        i_H = self.H
+                        if self.H is not None:
+                            self.H = np.array(self.H)
+                            if len(self.H.shape) == 3:
+                                i_H = self.H[model_i - 1]
+                        i_W = self.W
+                        if self.W is not None:
+                            self.W = np.array(self.W)
+                            if len(self.W.shape) == 3:
+                                i_W = self.W[model_i - 1]
+                        _sa.initialize(H=i_H, W=i_W,
                                        init_method=self.init_method,
                                        init_norm=self.init_norm)
                         logger.info(f"Training model {model_i} with seed {_seed}.")
                         run = _sa.train(max_iter=self.max_iter, converge_delta=self.converge_delta,
                                         converge_n=self.converge_n,
                                         model_i=model_i, update_step=self.update_step, hold_h=self.hold_h,
+                                        delay_h=self.delay_h,
                                         progress_callback=self.progress_callback)
                         t4 = time.time()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
@@ -545,4 +556,4 @@ def is_picklable(obj):
         pickle.dumps(obj)
         return True
     except Exception:
-        return False
\ No newline at end of file
+        return False
\ No newline at end of file
-- 
2.43.0


From 270d26a2751997b58936c35b3ce8fbebd4ce1fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 03/94] fix: batch time limit and runtime use the monotonic
 clock and the full elapsed time

---
 esat/model/batch_sa.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 3a977ab..f1f92c8 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -184,7 +184,7 @@ class BatchSA:
             True and "" if the model train is successful, if training fails then the function will return False with
             an error message explaining the reason training ended.
         """
-        t0 = time.time()
+        t0 = time.monotonic()
 
         with mp.Manager() as manager:  # Use Manager to create shared objects
             log_queue = manager.Queue()
@@ -281,7 +281,7 @@ class BatchSA:
                     best_Q = float("inf")
                     best_model = -1
                     for model_i in range(1, self.models + 1):
-                        t3 = time.time()
+                        t3 = time.monotonic()
                         _seed = self.rng.integers(low=0, high=1e5)
                         _sa = SA(
                             factors=self.factors,
@@ -311,10 +311,10 @@ class BatchSA:
                                         model_i=model_i, update_step=self.update_step, hold_h=self.hold_h,
                                         delay_h=self.delay_h,
                                         progress_callback=self.progress_callback)
-                        t4 = time.time()
+                        t4 = time.monotonic()
                         t_delta = datetime.timedelta(seconds=t4 - t3)
                         logger.info(f"Model {model_i} training completed in {t_delta}.")
-                        if min_limit and t_delta.seconds / 60 > min_limit:
+                        if min_limit and t_delta.total_seconds() / 60 > min_limit:
                             logger.warning(f"SA model training time exceeded specified runtime limit.")
                             return False, f"Error: Model train time: {t_delta} exceeded runtime limit: {min_limit} min(s)"
                         if run == -1:
@@ -326,7 +326,7 @@ class BatchSA:
                             best_model = model_i
                         self.results.append(_sa)
 
-                t1 = time.time()
+                t1 = time.monotonic()
                 self.runtime = round(t1 - t0, 2)
                 logger.info(f"Batch training completed in {self.runtime} seconds.")
 
-- 
2.43.0


From 85ef1128c9bc1785c33bda155e1481f1fabcf01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:47 +0000
Subject: [PATCH 04/94] fix: a batch that fails releases its worker pool and
 progress listener, and one without a valid loss is not a success

---
 esat/model/batch_sa.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index f1f92c8..c85fda5 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -191,6 +191,8 @@ class BatchSA:
             progress_queue = manager.Queue() if self.progress_callback else None
 
             listener = logging_listener(log_queue)  # Start the logging listener in the main process
+            pool = None
+            progress_listener = None
 
             try:
                 logger.info("Starting batch training of SA models.")
@@ -206,7 +208,6 @@ class BatchSA:
 
                 if self.parallel:
                     logger.info("Initializing multiprocessing setup.")
-                    progress_listener = None
                     if self.progress_callback:
                         progress_listener = threading.Thread(
                             target=_progress_listener,
@@ -330,6 +331,8 @@ class BatchSA:
                 self.runtime = round(t1 - t0, 2)
                 logger.info(f"Batch training completed in {self.runtime} seconds.")
 
+                if best_model == -1:
+                    return False, "None of the models in the batch has a valid loss value."
                 best_model = best_model - 1
                 if self.verbose:
                     logger.info(
@@ -360,6 +363,12 @@ class BatchSA:
                 logger.error(f"An error occurred during training: {e}")
                 return False, str(e)
             finally:
+                if pool is not None:
+                    pool.terminate()
+                    pool.join()
+                if progress_listener is not None and progress_listener.is_alive():
+                    progress_queue.put("DONE")
+                    progress_listener.join()
                 listener.stop()
 
     def _train_task(self, sa, model_i, progress_queue, log_queue):
-- 
2.43.0


From 77bc0bae11bbf76a30445007eee019bae1b8e51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 05/94] fix: worker pools have at least one process on machines
 with one CPU

---
 esat/error/bootstrap.py   | 2 +-
 esat/error/bs_disp.py     | 6 +++---
 esat/estimator.py         | 2 +-
 eval/factor_comparison.py | 2 +-
 eval/perturbation.py      | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index c61d18d..5e70c85 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -92,7 +92,7 @@ class Bootstrap:
         self.base_seed = self.sa.seed
         self.bs_seed = seed if seed is not None else self.base_seed
         self.parallel = parallel if isinstance(parallel, bool) else str(parallel).lower() == "true"
-        self.cpus = cpus if cpus > 0 else mp.cpu_count() - 1
+        self.cpus = cpus if cpus > 0 else max(mp.cpu_count() - 1, 1)
 
         self.bs_results = {}
         self.rng = np.random.default_rng(seed=self.bs_seed)
diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 6a4c9f7..e5fe35c 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -91,7 +91,8 @@ class BSDISP:
         self.threshold_dQ = threshold_dQ
         self.features = features
         self.seed = seed if bootstrap is None else bootstrap.bs_seed
-        self.cores = min(cores, int(os.cpu_count() * 0.75)) if cores > 0 else max(int(os.cpu_count() * 0.75), 1)
+        max_cores = max(int(os.cpu_count() * 0.75), 1)
+        self.cores = min(cores, max_cores) if cores > 0 else max_cores
 
         self.disp_results = {}
         self.compiled_results = None
@@ -162,7 +163,6 @@ class BSDISP:
         sys.stdout.flush()
 
         if parallel:
-            cpus = int(mp.cpu_count() * 0.75)
             p_args = []
             for i, bs_key in enumerate(bs_keys):
                 i_model = self.bootstrap.bs_results[bs_key]["model"]
@@ -170,7 +170,7 @@ class BSDISP:
                           self.max_search, self.features, self.dQmax)
                 p_args.append(i_args)
 
-            with mp.Pool(processes=cpus) as pool:
+            with mp.Pool(processes=self.cores) as pool:
                 results = []
                 with tqdm(total=len(p_args), desc="BS-DISP - Displacement Stage", position=0, leave=False) as pbar:
                     for i in pool.imap_unordered(BSDISP._parallel_disp, p_args):
diff --git a/esat/estimator.py b/esat/estimator.py
index 68bb68e..ff79b52 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -134,7 +134,7 @@ class FactorEstimator:
             mask = self._get_mask(threshold=self.test_percent)
             pool_parameters.append((self.V, self.U, mask, seed_i, factor_i, max_iterations, converge_delta, converge_n))
 
-        pool = mp.Pool(os.cpu_count()-1)
+        pool = mp.Pool(max(os.cpu_count() - 1, 1))
         results = []
         for p_parameter in pool_parameters:
             r = pool.apply_async(self._random_sample, p_parameter, callback=self._update_pbar)
diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index e37b8af..3a72193 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -297,7 +297,7 @@ class FactorCompare:
         best_wh_r = None
         best_wh_r_avg = None
 
-        pool = mp.Pool(processes=os.cpu_count()-1)
+        pool = mp.Pool(processes=max(os.cpu_count() - 1, 1))
 
         if len(self.base_factors) >= len(self.sa_factors):
             prime_list = self.base_factors
diff --git a/eval/perturbation.py b/eval/perturbation.py
index 6471db8..38d1df7 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -118,7 +118,7 @@ class Perturbation:
             sa_model.initialize()
             sa_model.train(max_iter=self.max_iterations, converge_delta=self.converge_delta, converge_n=self.converge_n)
             self.base_model = sa_model
-        cores = int(mp.cpu_count() * 0.75)
+        cores = max(int(mp.cpu_count() * 0.75), 1)
         pool = mp.Pool(processes=cores)
         parallel_args = [(i, self.rng.integers(0, 1e5)) for i in range(self.models)]
 
-- 
2.43.0


From 78f461c05556d730d7b92c37c0746f66f06fb7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 06/94] fix: block bootstrap draws from every block and always
 fills the resample, for any block size

---
 esat/error/bootstrap.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 5e70c85..91078be 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -147,31 +147,32 @@ class Bootstrap:
 
         """
         N = self.data.shape[0]
-        if self.block_size > N/2:
-            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {N/2}")
-            self.block_size = N/2
+        block_size = self.block_size
+        if block_size > N/2:
+            block_size = max(N // 2, 1)
+            logging.warning(f"Block size is greater than half the samples of the data. N: {N}. Setting block size to {block_size}")
         rng = np.random.default_rng(seed=seed)
         index_blocks = []
-        M = math.ceil(N / self.block_size)
+        M = math.ceil(N / block_size)
         index_count = 0
         if not overlapping:
             for i in range(M):
-                block_i = list(range(index_count, index_count + self.block_size))
+                block_i = list(range(index_count, index_count + block_size))
                 while index_count + len(block_i) > N:
                     block_i.pop()
-                index_count += self.block_size
+                index_count += block_size
                 index_blocks.append(block_i)
         index_matrix = []
         row_count = 0
-        for i in range(M):
+        # the last block may be shorter than block_size, so more than M blocks can be needed to reach N samples
+        while row_count < N:
             if not overlapping:
-                rng_i = int(rng.integers(low=0, high=int(M) - 1, size=1)[0])
+                rng_i = int(rng.integers(low=0, high=M, size=1)[0])
                 index_i = index_blocks[rng_i]
             else:
-                i_start = int(rng.integers(low=0, high=N - self.block_size - 1, size=1)[0])
-                index_i = list(range(i_start, i_start + self.block_size))
-            while row_count + len(index_i) > N:
-                index_i.pop()
+                i_start = int(rng.integers(low=0, high=N - block_size + 1, size=1)[0])
+                index_i = list(range(i_start, i_start + block_size))
+            index_i = index_i[:N - row_count]
             row_count += len(index_i)
             index_matrix.extend(index_i)
         _data = data[index_matrix]
-- 
2.43.0


From f3802171694a2f913dde2210bfd406a2ccfcff67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 07/94] fix: parallel bootstrap lists its runs in run order,
 not in completion order

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 91078be..98436a5 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -415,7 +415,7 @@ class Bootstrap:
                     for i in pool.imap_unordered(self._p_train, p_args):
                         pbar.update(1)
                         results.append(i)
-            for r in results:
+            for r in sorted(results, key=lambda x: x[0]):
                 self.bs_results[r[0]] = r[1]
         else:
             for i in tqdm(range(1, self.bootstrap_n+1), desc="Bootstrap resampling, training and mapping"):
-- 
2.43.0


From 552ea45c15890ad8b18d8c2604157b39a8766978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 08/94] fix: showing bootstrap factor results does not modify
 the base model

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 98436a5..0f7bf14 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -626,7 +626,7 @@ class Bootstrap:
         factor_results = self.factor_tables[factor]
         factor_df = pd.DataFrame(factor_results, columns=self.feature_labels)
         factor_df[factor_df < 1e-5] = 0.0
-        base_factor = self.base_H[factor]
+        base_factor = self.base_H[factor].copy()
         base_factor[base_factor < 1e-5] = 0.0
         base_df = pd.DataFrame(base_factor.reshape(1, len(base_factor)), columns=self.feature_labels)
         round_value = 6
-- 
2.43.0


From b43c16b4d6caa52c2e03f8c6b70f01c003f65952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:36 +0000
Subject: [PATCH 09/94] fix: native kernels accept model indices above 127

---
 rust/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/lib.rs b/rust/lib.rs
index 9412944..3e661a9 100644
--- a/rust/lib.rs
+++ b/rust/lib.rs
@@ -203,7 +203,7 @@ fn ls_nmf<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -306,7 +306,7 @@ fn ls_nmf_update_cpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -417,7 +417,7 @@ fn ls_nmf_update_gpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -537,7 +537,7 @@ fn ws_nmf<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -638,7 +638,7 @@ fn ws_nmf_update_cpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
@@ -788,7 +788,7 @@ fn ws_nmf_update_gpu<'py>(
     converge_delta: f32,
     converge_n: i32,
     robust_alpha: f32,
-    model_i: i8,
+    model_i: i32,
     static_h: Option<bool>,
     delay_h: Option<i32>,
     progress_callback: Option<PyObject>,
-- 
2.43.0


From e87fecc006951e429ae3526a64eb6b28dc809030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 10/94] fix: displacement swap table counts each factor's own
 displacements, in any completion order and on reruns

---
 esat/error/displacement.py | 29 +++++++++--------------------
 1 file changed, 9 insertions(+), 20 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index b6801ed..6c5cadf 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -605,26 +605,15 @@ class Displacement:
                     compiled_data["feature"].append(self.feature_labels[feature_j])
         self.compiled_results = pd.DataFrame(data=compiled_data)
 
-        factor_i = 0
-        for factor, factor_results in self.increase_results.items():
-            for feature, feature_results in factor_results.items():
-                dQ_i = 0
-                for dQ, dQ_results in feature_results.items():
-                    self.count_table[dQ_i, factor_i] += 1
-                    if dQ_results["swap"]:
-                        self.swap_table[dQ_i, factor_i] += 1
-                    dQ_i += 1
-            factor_i += 1
-        factor_i = 0
-        for factor, factor_results in self.decrease_results.items():
-            for feature, feature_results in factor_results.items():
-                dQ_i = 0
-                for dQ, dQ_results in feature_results.items():
-                    self.count_table[dQ_i, factor_i] += 1
-                    if dQ_results["swap"]:
-                        self.swap_table[dQ_i, factor_i] += 1
-                    dQ_i += 1
-            factor_i += 1
+        self.swap_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.count_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        for disp_results in (self.increase_results, self.decrease_results):
+            for factor_i in range(self.factors):
+                for feature_results in disp_results[f"factor-{factor_i+1}"].values():
+                    for dQ_i, dQ in enumerate(self.dQmax):
+                        self.count_table[dQ_i, factor_i] += 1
+                        if feature_results[dQ]["swap"]:
+                            self.swap_table[dQ_i, factor_i] += 1
 
     def save(self, disp_name: str,
              output_directory: str,
-- 
2.43.0


From 87af5e56d44d2eb960fae22c308274147ccbcabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:12 +0000
Subject: [PATCH 11/94] fix: displacement honours max_search

---
 esat/error/displacement.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 6c5cadf..503ee8a 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -264,7 +264,7 @@ class Displacement:
                 i_results = {}
                 high_search_i = 0
                 max_dQ = 0
-                max_high_search = 100
+                max_high_search = self.max_search
 
                 while not high_found:
                     new_value = self.H[factor_i, feature_j] * high_modifier
@@ -358,7 +358,7 @@ class Displacement:
         i_results = {}
         high_search_i = 0
         max_dQ = 0
-        max_high_search = 100
+        max_high_search = self.max_search
         while not high_found:
             new_value = self.H[factor_i, feature_j] * high_modifier
             new_H[factor_i, feature_j] = new_value
@@ -442,7 +442,7 @@ class Displacement:
                     max_dQ = 0
                     search_i = 0
                     p_mod = 0.0
-                    max_search_i = 50
+                    max_search_i = self.max_search
                     while not value_found:
                         new_H =  copy.copy(self.H)
                         new_value = self.H[factor_i, feature_j] * modifier
@@ -518,7 +518,7 @@ class Displacement:
             max_dQ = 0
             search_i = 0
             p_mod = 0.0
-            max_search_i = 50
+            max_search_i = self.max_search
             while not value_found:
                 new_H = copy.copy(self.H)
                 new_value = self.H[factor_i, feature_j] * modifier
-- 
2.43.0


From a6108bf32a4a6de0d0b3d44d858b78ce0ebcb12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 12/94] fix: BS-DISP runs its displacement stage in parallel,
 listing runs in bootstrap order

---
 esat/error/bs_disp.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index e5fe35c..76be37e 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -177,9 +177,9 @@ class BSDISP:
                         pbar.update(1)
                         results.append(i)
 
-            for result in results:
-                i, i_disp = result
-                self.disp_results[i] = i_disp
+            results = dict(results)
+            for bs_key in bs_keys:
+                self.disp_results[bs_key] = results[bs_key]
         else:
             for bs_key in tqdm(bs_keys, desc="BS-DISP - Displacement Stage", position=0, leave=False):
                 bs_result = self.bootstrap.bs_results[bs_key]
@@ -201,7 +201,8 @@ class BSDISP:
         self.__compile_results()
 
     @staticmethod
-    def _parallel_disp(bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax):
+    def _parallel_disp(args):
+        bs_key, bs_model, feature_labels, model_selected, threshold_dQ, max_search, features, dQmax = args
         t0 = time.time()
         logger.info(f"Starting Displacement Stage for BS run {bs_key}.")
         i_disp = Displacement(sa=bs_model, feature_labels=feature_labels, model_selected=model_selected,
-- 
2.43.0


From 82a109fd03ebd749eb7b6b610f107eb149122d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 13/94] fix: BS-DISP results cover every bootstrap run, and
 reruns do not add to earlier counts

---
 esat/error/bs_disp.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 76be37e..609ffc1 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -217,7 +217,8 @@ class BSDISP:
         """
         Calculate the merging statistics and metrics for the bs-disp results.
         """
-        key0 = list(self.disp_results.keys())[0]
+        disp_keys = list(self.disp_results.keys())
+        key0 = disp_keys[0]
         disp_result = self.disp_results[key0].compiled_results
         profiles = disp_result["profile"]
         profiles_max = disp_result["profile_max"]
@@ -228,11 +229,12 @@ class BSDISP:
         dQ_drop = disp_result["dQ_drop"]
         disp_profiles = [profiles]
         disp_conc = [conc]
-        for result_i in range(1, len(self.disp_results.keys())):
+        self.n_drops = 1 if any(dQ_drop < 0.0) else 0
+        for result_i in disp_keys[1:]:
             disp_result_i = self.disp_results[result_i].compiled_results
             profile_i = disp_result_i["profile"]
             profile_max_i = disp_result_i["profile_max"]
-            profile_min_i = disp_result_i["profile"]
+            profile_min_i = disp_result_i["profile_min"]
             conc_i = disp_result_i["conc"]
             conc_max_i = disp_result_i["conc_max"]
             conc_min_i = disp_result_i["conc_min"]
@@ -255,6 +257,9 @@ class BSDISP:
         self.compiled_results["conc_min"] = conc_min
         self.compiled_results["dQ_drop"] = dQ_drop
 
+        self.swap_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.count_table = np.zeros(shape=(len(self.dQmax), self.factors))
+        self.disp_swap = 0
         for result_i in self.disp_results.keys():
             self.swap_table = self.swap_table + self.disp_results[result_i].swap_table
             self.count_table = self.count_table + self.disp_results[result_i].count_table
-- 
2.43.0


From 84b542b81e9f62096f6cb7803f68000ef1f1c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:46 +0000
Subject: [PATCH 14/94] fix: initializing a model does not modify the caller's
 H

---
 esat/model/sa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index ff5629d..526d981 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -298,6 +298,7 @@ class SA:
             for i in range(prior_H.shape[0]):
                 H[i] = prior_H[i]
             H = H / H.sum(axis=0)
+        H = H.copy()    # H may be the caller's array
         H[H <= 0.0] = 1e-12
         self.H = H
         self.W = W
-- 
2.43.0


From 7263eea3128d3052e4acf8fd5f81fbb4706b38ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:39 +0000
Subject: [PATCH 15/94] fix: a saved object is replaced atomically, and loading
 a damaged or unreadable file returns None

---
 esat/error/bootstrap.py        |  9 ++++-----
 esat/error/bs_disp.py          |  9 ++++-----
 esat/error/displacement.py     |  9 ++++-----
 esat/model/batch_sa.py         |  9 ++++-----
 esat/model/sa.py               |  9 ++++-----
 esat/rotational/constrained.py |  2 +-
 esat/utils.py                  | 28 ++++++++++++++++++++++++++++
 eval/simulator.py              |  8 ++++----
 8 files changed, 53 insertions(+), 30 deletions(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 0f7bf14..a23357b 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -10,7 +10,7 @@ import multiprocessing as mp
 from tqdm import tqdm
 import plotly.graph_objects as go
 from esat.model.sa import SA
-from esat.utils import np_encoder
+from esat.utils import np_encoder, pickle_save
 from pathlib import Path
 
 
@@ -760,9 +760,8 @@ class Bootstrap:
         if os.path.exists(output_directory):
             file_path = os.path.join(output_directory, f"{bs_name}.pkl")
             if pickle_result:
-                with open(file_path, "wb") as save_file:
-                    pickle.dump(self, save_file)
-                    logger.info(f"BS SA output saved to pickle file: {file_path}")
+                pickle_save(self, file_path)
+                logger.info(f"BS SA output saved to pickle file: {file_path}")
             else:
                 file_path = output_directory
                 meta_file = os.path.join(output_directory, f"{bs_name}-metadata.json")
@@ -822,7 +821,7 @@ class Bootstrap:
                 with open(file_path, "rb") as pfile:
                     bs = pickle.load(pfile)
                     return bs
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load Bootstrap pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 609ffc1..91d149f 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -14,7 +14,7 @@ from pathlib import Path
 from esat.model.sa import SA
 from esat.error.bootstrap import Bootstrap
 from esat.error.displacement import Displacement
-from esat.utils import np_encoder
+from esat.utils import np_encoder, pickle_save
 from esat_rust import clear_screen
 
 
@@ -434,9 +434,8 @@ class BSDISP:
         if os.path.exists(output_directory):
             file_path = os.path.join(output_directory, f"{bsdisp_name}.pkl")
             if pickle_result:
-                with open(file_path, "wb") as save_file:
-                    pickle.dump(self, save_file)
-                    logger.info(f"BS-DISP SA output saved to pickle file: {file_path}")
+                pickle_save(self, file_path)
+                logger.info(f"BS-DISP SA output saved to pickle file: {file_path}")
             else:
                 meta_file = os.path.join(output_directory, f"{bsdisp_name}-metadata.json")
                 with open(meta_file, "w") as mfile:
@@ -478,7 +477,7 @@ class BSDISP:
                 with open(file_path, "rb") as pfile:
                     bsdisp = pickle.load(pfile)
                     return bsdisp
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load BS-DISP pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index 503ee8a..f7e0434 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -10,7 +10,7 @@ import plotly.graph_objects as go
 import multiprocessing as mp
 
 from tqdm import tqdm
-from esat.utils import compare_all_factors, np_encoder
+from esat.utils import compare_all_factors, np_encoder, pickle_save
 from esat.metrics import q_loss, EPSILON
 from esat.model.sa import SA
 
@@ -643,9 +643,8 @@ class Displacement:
         if os.path.exists(output_directory):
             file_path = os.path.join(output_directory, f"{disp_name}.pkl")
             if pickle_result:
-                with open(file_path, "wb") as save_file:
-                    pickle.dump(self, save_file)
-                    logger.info(f"DISP SA output saved to pickle file: {file_path}")
+                pickle_save(self, file_path)
+                logger.info(f"DISP SA output saved to pickle file: {file_path}")
             else:
                 file_path = output_directory
                 meta_file = os.path.join(output_directory, f"{disp_name}-metadata.json")
@@ -704,7 +703,7 @@ class Displacement:
                 with open(file_path, "rb") as pfile:
                     disp = pickle.load(pfile)
                     return disp
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load DISP pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index c85fda5..829a126 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -11,7 +11,7 @@ from tqdm import tqdm
 import multiprocessing as mp
 from logging.handlers import QueueHandler, QueueListener
 from esat.model.sa import SA
-from esat.utils import memory_estimate
+from esat.utils import memory_estimate, pickle_save
 from esat_rust import clear_screen
 
 logging.basicConfig(format='%(asctime)s - %(message)s', datefmt='%d-%b-%y %H:%M:%S', level=logging.INFO)
@@ -444,9 +444,8 @@ class BatchSA:
         if os.path.exists(output_directory):
             if pickle_batch:
                 file_path = os.path.join(output_directory, f"{batch_name}.pkl")
-                with open(file_path, "wb") as save_file:
-                    pickle.dump(self, save_file)
-                    logger.info(f"Batch SA models saved to pickle file: {file_path}")
+                pickle_save(self, file_path)
+                logger.info(f"Batch SA models saved to pickle file: {file_path}")
             else:
                 file_path = output_directory
                 for i, _nmf in enumerate(self.results):
@@ -484,7 +483,7 @@ class BatchSA:
                 with open(file_path, "rb") as pfile:
                     bsa = pickle.load(pfile)
                     return bsa
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load BatchSA pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/model/sa.py b/esat/model/sa.py
index 526d981..22a6631 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -1,6 +1,6 @@
 from esat.model.ls_nmf import LSNMF
 from esat.model.ws_nmf import WSNMF
-from esat.utils import np_encoder
+from esat.utils import np_encoder, pickle_save
 from esat.metrics import q_loss, qr_loss, EPSILON
 from scipy.cluster.vq import kmeans2, whiten
 from tqdm import trange
@@ -519,9 +519,8 @@ class SA:
         if os.path.exists(output_directory):
             if pickle_model:
                 file_path = os.path.join(output_directory, f"{model_name}.pkl")
-                with open(file_path, "wb") as save_file:
-                    pickle.dump(self, save_file)
-                    logger.info(f"SA model saved to pickle file: {file_path}")
+                pickle_save(self, file_path)
+                logger.info(f"SA model saved to pickle file: {file_path}")
             else:
                 file_path = output_directory
                 meta_file = os.path.join(output_directory, f"{model_name}-metadata.json")
@@ -579,7 +578,7 @@ class SA:
                 with open(file_path, "rb") as pfile:
                     sa = pickle.load(pfile)
                     return sa
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load SA pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 26fecef..a45646e 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1208,7 +1208,7 @@ class ConstrainedModel:
                 with open(file_path, "rb") as pfile:
                     c_solution = pickle.load(pfile)
                     return c_solution
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load constrained solution pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
diff --git a/esat/utils.py b/esat/utils.py
index 7e73adf..69990a6 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -5,6 +5,8 @@ Collection of utility functions used throughout the code base.
 import numpy as np
 import pandas as pd
 import logging
+import pickle
+import threading
 import psutil
 import os
 
@@ -28,6 +30,32 @@ def np_encoder(object):
         return object.item()
 
 
+def pickle_save(obj, file_path):
+    """
+    Pickle an object to a file, so that the file always holds either its previous or its complete new content: the
+    object is written to a temporary file next to it, which replaces the file once it is completely on disk.
+
+    Parameters
+    ----------
+    obj
+        Object to be saved.
+    file_path : str
+        Path of the pickle file.
+    """
+    file_path = os.path.realpath(file_path)
+    temp_path = f"{file_path}.{os.getpid()}-{threading.get_ident()}.tmp"
+    try:
+        with open(temp_path, "wb") as save_file:
+            pickle.dump(obj, save_file)
+            save_file.flush()
+            os.fsync(save_file.fileno())
+        os.replace(temp_path, file_path)
+    except BaseException:
+        if os.path.exists(temp_path):
+            os.remove(temp_path)
+        raise
+
+
 def min_timestep(data: pd.DataFrame):
     """
     Find the minimum timestep in a dataframe.
diff --git a/eval/simulator.py b/eval/simulator.py
index c2f7a9c..ba17fc6 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -11,6 +11,7 @@ from plotly.subplots import make_subplots
 from esat.model.sa import SA
 from esat.metrics import q_loss, qr_loss
 from esat.model.batch_sa import BatchSA
+from esat.utils import pickle_save
 try:
     from esat_eval.factor_comparison import FactorCompare
 except ModuleNotFoundError as e:
@@ -536,9 +537,8 @@ class Simulator:
             return False
         if os.path.exists(output_directory):
             file_path = os.path.join(output_directory, "esat_simulator.pkl")
-            with open(file_path, "wb") as save_file:
-                pickle.dump(self, save_file)
-                logger.info(f"ESAT Simulator instance saved to pickle file: {file_path}")
+            pickle_save(self, file_path)
+            logger.info(f"ESAT Simulator instance saved to pickle file: {file_path}")
 
             data_file_path = os.path.join(output_directory, f"{sim_name}_data.csv")
             self.syn_data_df.to_csv(data_file_path)
@@ -583,7 +583,7 @@ class Simulator:
                 with open(file_path, "rb") as pfile:
                     sim = pickle.load(pfile)
                     return sim
-            except pickle.PickleError as p_error:
+            except Exception as p_error:
                 logger.error(f"Failed to load Simulator pickle file {file_path}. \nError: {p_error}")
                 return None
         else:
-- 
2.43.0


From cf21a101aa1494fcc4ac90dfa0178cd552f221be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 16/94] fix: Bootstrap.save returns the path of the pickle file

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index a23357b..79af0c4 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -792,7 +792,7 @@ class Bootstrap:
                 with open(contr_file, "w") as c_file:
                     json.dump(self.bs_factor_contributions, c_file, default=np_encoder)
                     logger.info(f"BS SA contributions saved to file: {contr_file}")
-                return file_path
+            return file_path
         else:
             logger.error(f"Output directory does not exist. Specified directory: {output_directory}")
             return None
-- 
2.43.0


From 192932dd7e72e4c88dc93c7e11f42ec54154b28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:10 +0000
Subject: [PATCH 17/94] fix: BSDISP.save returns the output directory of a text
 export, not a pickle file that does not exist

---
 esat/error/bs_disp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 91d149f..da4cc33 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -437,6 +437,7 @@ class BSDISP:
                 pickle_save(self, file_path)
                 logger.info(f"BS-DISP SA output saved to pickle file: {file_path}")
             else:
+                file_path = output_directory
                 meta_file = os.path.join(output_directory, f"{bsdisp_name}-metadata.json")
                 with open(meta_file, "w") as mfile:
                     json.dump(self.metadata, mfile, default=np_encoder)
-- 
2.43.0


From 8bb3d0573c8e27a97eb548e729860b287e7d786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 18/94] fix: ConstrainedModel.save stores the constrained model
 itself and returns where

---
 esat/rotational/constrained.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index a45646e..a48a4dd 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -3,7 +3,7 @@ import os
 import re
 from esat.model.sa import SA
 from esat.data.datahandler import DataHandler
-from esat.utils import np_encoder, min_timestep
+from esat.utils import np_encoder, min_timestep, pickle_save
 from esat.metrics import q_loss, qr_loss
 from tqdm import trange
 from datetime import datetime
@@ -1167,13 +1167,21 @@ class ConstrainedModel:
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return None
         if os.path.exists(output_directory):
+            if pickle_model:
+                file_path = os.path.join(output_directory, f"{model_name}.pkl")
+                pickle_save(self, file_path)
+                logger.info(f"Constrained SA model saved to pickle file: {file_path}")
+                return file_path
+            if self.constrained_model is None:
+                logger.error("Constrained model has not been trained, there are no results to save.")
+                return None
             self.constrained_model.save(
                 model_name=model_name,
                 output_directory=output_directory,
-                pickle_model=pickle_model,
+                pickle_model=False,
                 header=self.dh.features)
             meta_file = os.path.join(output_directory, f"{model_name}-metadata.json")
-            metadata = self.metadata
+            metadata = {**self.constrained_model.metadata, **self.metadata}
             metadata["constraints"] = [c.tostring(label=k) for k, c in self.constraints.items()]
             metadata["expressions"] = self.expressions
             metadata["softness"] = self.softness
@@ -1181,8 +1189,10 @@ class ConstrainedModel:
             with open(meta_file, "w") as mfile:
                 json.dump(metadata, mfile, default=np_encoder)
                 logger.info(f"Constrained SA model metadata saved to file: {meta_file}")
+            return output_directory
         else:
             logger.error(f"Output directory not found. Provided directory: {output_directory}")
+            return None
 
     @staticmethod
     def load(file_path: str):
-- 
2.43.0


From e26fcf49f258a25a91f79f9658695b342db9ef3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 19/94] fix: exported metadata and results hold arrays and sets
 instead of null

---
 esat/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esat/utils.py b/esat/utils.py
index 69990a6..56bfbb2 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -28,6 +28,10 @@ def np_encoder(object):
     """
     if isinstance(object, np.generic):
         return object.item()
+    if isinstance(object, np.ndarray):
+        return object.tolist()
+    if isinstance(object, (set, frozenset)):
+        return sorted(object)
 
 
 def pickle_save(obj, file_path):
-- 
2.43.0


From d7a84930be1731fb678ff33c58335853bdd8ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 20/94] fix: SA and batch text exports work without a header

---
 esat/model/sa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 22a6631..149299c 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -505,13 +505,13 @@ class SA:
            The path to the output directory, if pickle=False or the path to the pickle file. If save fails returns None
 
         """
-        factor_header = None
+        factor_header = ""
         if header is not None:
             factor_header = [f"Factor {i + 1}" for i in range(self.factors)]
             factor_header = ",".join(factor_header)
             header = ",".join(header)
         else:
-            header = []
+            header = ""
         output_directory = Path(output_directory)
         if not output_directory.is_absolute():
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
-- 
2.43.0


From c376fbf351a21fcd7e3cf7e1688a40488ae8f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 21/94] fix: swap tables label each row with its own dQ level

---
 esat/error/bs_disp.py      | 3 +--
 esat/error/displacement.py | 6 ++----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index da4cc33..045a655 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -287,8 +287,7 @@ class BSDISP:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
-        dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
+        dq_list = np.reshape(self.dQmax, (len(self.dQmax), 1))
         table_data = np.hstack((dq_list, table_data))
         logger.info(f"Largest dQ decrease: {round(largest_dQ_change, 2)}, # of Q drops: {self.n_drops}, "
                     f"# of best fit swaps: {self.fit_swaps}, # of DISP swaps: {self.disp_swap}")
diff --git a/esat/error/displacement.py b/esat/error/displacement.py
index f7e0434..94b10d8 100644
--- a/esat/error/displacement.py
+++ b/esat/error/displacement.py
@@ -127,8 +127,7 @@ class Displacement:
         for i in range(self.factors):
             table_labels.append(f"Factor {i+1}")
         table_data = np.round(100 * (self.swap_table/self.count_table), 2)
-        dq_list = list(reversed(self.dQmax))
-        dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
+        dq_list = np.reshape(self.dQmax, (len(self.dQmax), 1))
         table_data = np.hstack((dq_list, table_data))
 
         logger.info(f"Largest dQ Decrease: {round(largest_dQ_change, 2)}")
@@ -665,8 +664,7 @@ class Displacement:
                     for i in range(self.factors):
                         table_labels.append(f"Factor {i + 1}")
                     table_data = np.round(100 * (self.swap_table / self.count_table), 2)
-                    dq_list = list(reversed(self.dQmax))
-                    dq_list = np.reshape(dq_list, newshape=(len(dq_list), 1))
+                    dq_list = np.reshape(self.dQmax, (len(self.dQmax), 1))
                     table_data = np.hstack((dq_list, table_data))
                     np.savetxt(stfile, table_data, delimiter=',', header=", ".join(table_labels))
                     logger.info(f"DISP SA swap table saved to file: {swap_file}")
-- 
2.43.0


From 2d599b07d36ac3d3f7165a46cc8dbab84a6daf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 22/94] fix: the BS-DISP export keeps its own metadata file

---
 esat/error/bs_disp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/error/bs_disp.py b/esat/error/bs_disp.py
index 045a655..bd888dc 100644
--- a/esat/error/bs_disp.py
+++ b/esat/error/bs_disp.py
@@ -437,11 +437,12 @@ class BSDISP:
                 logger.info(f"BS-DISP SA output saved to pickle file: {file_path}")
             else:
                 file_path = output_directory
+                # The bootstrap export has a metadata file of the same name, which is replaced by that of the BS-DISP.
+                self.bootstrap.save(bs_name=bsdisp_name, output_directory=str(output_directory), pickle_result=False)
                 meta_file = os.path.join(output_directory, f"{bsdisp_name}-metadata.json")
                 with open(meta_file, "w") as mfile:
                     json.dump(self.metadata, mfile, default=np_encoder)
                     logger.info(f"BSDISP SA model metadata saved to file: {meta_file}")
-                self.bootstrap.save(bs_name=bsdisp_name, output_directory=str(output_directory), pickle_result=False)
                 for k, disp in self.disp_results.items():
                     disp.save(disp_name=bsdisp_name + "-" + str(k), output_directory=str(output_directory),
                               pickle_result=False)
-- 
2.43.0


From 5f71015b2a7a414aab25b1cd0653dff5cb76b115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:22 +0000
Subject: [PATCH 23/94] fix: training a model again does not keep the earlier
 run's convergence state

---
 esat/model/sa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/model/sa.py b/esat/model/sa.py
index 149299c..9e6a918 100644
--- a/esat/model/sa.py
+++ b/esat/model/sa.py
@@ -428,6 +428,8 @@ class SA:
             q_robust, U_robust = qr_loss(V=self.V, U=self.U, W=self.W, H=self.H, alpha=robust_alpha)
             t1 = time.time()
         else:
+            self.converged = False
+            self.converge_steps = 0
             prior_q = []
             t_iter = trange(max_iter, desc=f"Model: {model_i}, Seed: {self.seed}, Q(true): NA, MSE(true): NA, "
                                            f"Q(robust): NA, MSE(robust): NA, dQ: NA",
-- 
2.43.0


From 7c18a7b427f2669430d3a28ad3e362656b984e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:18 +0000
Subject: [PATCH 24/94] fix: Simulator.save generates the data first when
 get_data was not called

---
 eval/simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eval/simulator.py b/eval/simulator.py
index ba17fc6..a107c2a 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -536,6 +536,8 @@ class Simulator:
             logger.error("Provided output directory is not an absolute path. Must provide an absolute path.")
             return False
         if os.path.exists(output_directory):
+            if self.syn_data_df is None:
+                self.get_data()
             file_path = os.path.join(output_directory, "esat_simulator.pkl")
             pickle_save(self, file_path)
             logger.info(f"ESAT Simulator instance saved to pickle file: {file_path}")
-- 
2.43.0


From 0da24973066c14966cacf3fb5bb72dd66de2b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:11 +0000
Subject: [PATCH 25/94] fix: FactorEstimator keeps the test cells out of
 training and the training cells out of the test error

---
 esat/estimator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index ff79b52..2079b2c 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -71,11 +71,11 @@ class FactorEstimator:
     @staticmethod
     def _random_sample(V, U, mask, seed, factor_n, max_iter: int = 2000, converge_delta: float = 1.0, converge_n: int = 10):
         m_train = np.count_nonzero(mask)
-        i_mask = copy.copy(mask)
-        i_mask[i_mask == 1] = 0
-        i_mask[i_mask == 0] = 1
+        i_mask = 1 - mask
         m_test = np.count_nonzero(i_mask)
-        _sa = SA(V=V, U=U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
+        # the test cells are left out of the training by giving them a negligible weight
+        train_U = np.where(mask == 1, U, 1e5 * U)
+        _sa = SA(V=V, U=train_U, factors=factor_n, method="ls-nmf", seed=seed, verbose=False)
         _sa.initialize()
         _sa.train(max_iter=max_iter, converge_delta=converge_delta, converge_n=converge_n)
         residuals = V - _sa.WH
-- 
2.43.0


From 63453829d25469bac61573ad38c03765e0a7e068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:11 +0000
Subject: [PATCH 26/94] fix: a factor count that was never sampled does not
 void the whole factor estimation

---
 esat/estimator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 2079b2c..9d0af25 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -147,8 +147,8 @@ class FactorEstimator:
         pool.join()
         self.pbar.close()
 
-        self.train_mse = [np.mean(i) for i in self.train_mse]
-        self.test_mse = [np.mean(i) for i in self.test_mse]
+        self.train_mse = [np.nanmean(i) if len(i) > 0 else np.nan for i in self.train_mse]
+        self.test_mse = [np.nanmean(i) if len(i) > 0 else np.nan for i in self.test_mse]
         self.q_true = [np.mean(i) for i in self.q_true]
         self.q_robust = [np.mean(i) for i in self.q_robust]
 
@@ -159,7 +159,7 @@ class FactorEstimator:
         for factor_n in range(0, len(self.test_mse) - 1):
             delta_i = self.test_mse[factor_n] - self.test_mse[factor_n + 1]
             delta_mse_r.append(delta_i)
-        c = 1.01 * np.max(delta_mse_r)
+        c = 1.01 * np.nanmax(delta_mse_r)
         ratio_delta = [np.nan]
         for factor_n in range(0, len(self.test_mse) - 2):
             rd = c*(delta_mse_r[factor_n]/delta_mse_r[factor_n + 1])
@@ -167,7 +167,7 @@ class FactorEstimator:
             ratio_delta.append(rd)
         ratio_delta.append(np.nan)
 
-        mse_min = np.min(self.test_mse)
+        mse_min = np.nanmin(self.test_mse)
         k_est = []
         for factor_n in range(0, self.max_factors-self.min_factors):
             rd = mse_min/(self.test_mse[factor_n]*np.power(factor_n+self.min_factors, self.k_coef))
-- 
2.43.0


From 962b45ce45bfa44d0ce9a35677b9150ac408041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 27/94] fix: estimation, perturbation and comparison release
 their worker pool when a worker fails

---
 esat/estimator.py         | 22 ++++++++++++----------
 eval/factor_comparison.py |  9 ++++++++-
 eval/perturbation.py      | 17 ++++++++++-------
 3 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/esat/estimator.py b/esat/estimator.py
index 9d0af25..62cadef 100644
--- a/esat/estimator.py
+++ b/esat/estimator.py
@@ -136,16 +136,18 @@ class FactorEstimator:
 
         pool = mp.Pool(max(os.cpu_count() - 1, 1))
         results = []
-        for p_parameter in pool_parameters:
-            r = pool.apply_async(self._random_sample, p_parameter, callback=self._update_pbar)
-            results.append(r)
-        for r in results:
-            r.wait()
-        for r in results:
-            r.get()
-        pool.close()
-        pool.join()
-        self.pbar.close()
+        try:
+            for p_parameter in pool_parameters:
+                r = pool.apply_async(self._random_sample, p_parameter, callback=self._update_pbar)
+                results.append(r)
+            for r in results:
+                r.wait()
+            for r in results:
+                r.get()
+        finally:
+            pool.terminate()
+            pool.join()
+            self.pbar.close()
 
         self.train_mse = [np.nanmean(i) if len(i) > 0 else np.nan for i in self.train_mse]
         self.test_mse = [np.nanmean(i) if len(i) > 0 else np.nan for i in self.test_mse]
diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 3a72193..6abc07c 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -326,7 +326,13 @@ class FactorCompare:
                 if factor_i == permutations_n - 1:
                     pool_inputs = [(factor, correlation_results[m], contribution_results[m], wh_results[m], base_k)
                                    for factor in factor_permutations]
-                    for pool_results in pool.starmap(self.combine_factors, pool_inputs):
+                    try:
+                        combined_results = pool.starmap(self.combine_factors, pool_inputs)
+                    except BaseException:
+                        pool.terminate()
+                        pool.join()
+                        raise
+                    for pool_results in combined_results:
                         pbar.update()
                         factor, r_avg, r_values, c_r_avg, c_r_values, wh_r_avg, wh_r_values = pool_results
                         permutation_results[factor] = (r_avg, r_values)
@@ -369,6 +375,7 @@ class FactorCompare:
             pbar.set_description(f"Calculating average correlation for all permutations for Model: {1+m}")
         pbar.close()
         pool.close()
+        pool.join()
 
         self.best_model = best_model
         self.best_factor_r = best_factor_r
diff --git a/eval/perturbation.py b/eval/perturbation.py
index 38d1df7..d50d04e 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -127,13 +127,16 @@ class Perturbation:
         print("\n" * (max(self.models, cores) + 1))
         print("\033[H")
         pbar = tqdm(total=self.models, desc="Running Permutations on base model")
-        for pool_results in pool.starmap(self._parallel_perturb, parallel_args):
-            idx, random_seed, i_sa_model, i_m = pool_results
-            perturbed_models.append(i_sa_model)
-            perturbed_multipliers.append(i_m)
-            pbar.update()
-        pbar.close()
-        pool.close()
+        try:
+            for pool_results in pool.starmap(self._parallel_perturb, parallel_args):
+                idx, random_seed, i_sa_model, i_m = pool_results
+                perturbed_models.append(i_sa_model)
+                perturbed_multipliers.append(i_m)
+                pbar.update()
+        finally:
+            pbar.close()
+            pool.terminate()
+            pool.join()
         self.perturbed_models = perturbed_models
         self.perturbed_multipliers = perturbed_multipliers
 
-- 
2.43.0


From efcc731f001901eb2adb3035c9dbda51d7db2927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 28/94] fix: FactorCompare keeps each model's estimate in its
 own rows and columns

---
 eval/factor_comparison.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 6abc07c..fbf706d 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -230,11 +230,10 @@ class FactorCompare:
             sa_h_data = i_sa.H
             sa_w_data = i_sa.W
             sa_wh_data = i_sa.WH
-            sa_wh_data = sa_wh_data.reshape(sa_wh_data.shape[1], sa_wh_data.shape[0])
 
             sa_h_df = pd.DataFrame(sa_h_data, columns=species_columns, index=self.sa_factors)
             sa_w_df = pd.DataFrame(sa_w_data, columns=self.sa_factors)
-            sa_wh_df = pd.DataFrame(sa_wh_data.T, columns=species_columns)
+            sa_wh_df = pd.DataFrame(sa_wh_data, columns=species_columns)
 
             sa_wh_e = {}
             for factor in self.sa_factors:
-- 
2.43.0


From 3bd38e6232d8af5ae609a9f9ca7767b384d9c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 29/94] fix: FactorCompare skips a missing model wherever it is
 in the batch

---
 eval/factor_comparison.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index fbf706d..e4b74b6 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -259,7 +259,7 @@ class FactorCompare:
         contribution_results = {}
         wh_results = {}
 
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             correlation_results[m] = {}
             contribution_results[m] = {}
             wh_results[m] = {}
@@ -270,7 +270,7 @@ class FactorCompare:
             base_i = self.base_profile_df[i].astype(float)
             base_contribution_i = self.base_contribution_df[i].astype(float)
             base_wh = self.base_WH[i].flatten()
-            for m in range(len(self.sa_model_dfs)):
+            for m in self.sa_model_dfs:
                 model_m = self.sa_model_dfs[m]["H"]
                 model_contribution_m = self.sa_model_dfs[m]["W"]
                 model_wh = self.sa_model_dfs[m]["WH-element"]
@@ -312,7 +312,7 @@ class FactorCompare:
 
         pbar = tqdm(total=permutations_n*len(self.sa_model_dfs),
                     desc="Calculating average correlation for all permutations for Model: 1")
-        for m in range(len(self.sa_model_dfs)):
+        for m in self.sa_model_dfs:
             # Each Model
             permutation_results = {}
             model_contribution_results = {}
-- 
2.43.0


From 22e3b37750dbb94072e0486aecde06451117fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 30/94] fix: the comparison's base Q uses the uncertainty

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index e4b74b6..853f086 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -400,7 +400,7 @@ class FactorCompare:
 
         """
         base_Q = q_loss(V=self.input_df.to_numpy(),
-                        U=self.input_df.to_numpy(),
+                        U=self.uncertainty_df.to_numpy(),
                         W=self.base_contribution_df[self.base_factors].to_numpy(),
                         H=self.base_profile_df[self.base_factors].to_numpy().T
                         )
-- 
2.43.0


From 6be374adb4e5a540a98d4df5dd644544b2abb260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 31/94] fix: load_pmf_output does not take the species column
 for a factor

---
 eval/factor_comparison.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index 853f086..f7431e8 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -166,7 +166,7 @@ class FactorCompare:
         factor_types = {}
         for f in factor_columns:
             factor_types[f] = 'float'
-        pmf_profiles_df = pmf_profiles_df.astype(factor_types)
+        pmf_profiles_df = pmf_profiles_df.astype(factor_types).set_index('species')
 
         column_row = 4
         data_start_row = 5
-- 
2.43.0


From 0848ff36a50d255a5a04684978087f950c5ed567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 32/94] fix: factor mappings of perturbed models are one-to-one
 and optimal

---
 eval/factor_comparison.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/eval/factor_comparison.py b/eval/factor_comparison.py
index f7431e8..c15e0dd 100644
--- a/eval/factor_comparison.py
+++ b/eval/factor_comparison.py
@@ -4,8 +4,7 @@ import numpy as np
 import pandas as pd
 from itertools import permutations
 import multiprocessing as mp
-from scipy.sparse import csr_matrix
-from scipy.sparse.csgraph import min_weight_full_bipartite_matching
+from scipy.optimize import linear_sum_assignment
 from esat.model.sa import SA
 from esat.model.batch_sa import BatchSA
 from esat.metrics import q_loss
@@ -585,29 +584,22 @@ class FactorCompareV2:
         for i, p_model in self.correlation_data.items():
             mapping_values = [-1 for i in range(self.factors)]
             if method == "raae":
-                optimal_indices = np.array(p_model["all_raae"]).argmin(axis=0)
                 mapping_matrix = np.array(p_model["all_raae"])
                 maximize = False
             elif method == "emc":
-                optimal_indices = np.array(p_model["all_emc"]).argmax(axis=0)
                 mapping_matrix = np.array(p_model["all_emc"])
                 maximize = True
             else:
-                optimal_indices = np.array(p_model["all_corr"]).argmax(axis=0)
                 mapping_matrix = np.array(p_model["all_corr"])
                 maximize = True
 
-            # Step 1, all optimal value indices are unique and no other values need to be checked.
-            if (np.unique(optimal_indices, return_counts=True)[1].max() == 1):
-                model_mapping = optimal_indices
-            else:
-                m_bi_matrix = csr_matrix(mapping_matrix)
-                model_mapping = list(min_weight_full_bipartite_matching(m_bi_matrix, maximize=maximize))
+            # the rows are the factors of the base model and the columns those of the compared model
+            model_mapping = linear_sum_assignment(mapping_matrix, maximize=maximize)[1]
             optimal_index_tuples = list(zip(list(range(self.factors)), model_mapping))
             for j, oi in enumerate(optimal_index_tuples):
                 ele_values = mapping_matrix[oi]
                 mapping_values[j] = np.round(ele_values, 4)
 
-            batch_mapping[i] = optimal_indices
+            batch_mapping[i] = model_mapping
             batch_values[i] = mapping_values
         return batch_mapping, batch_values
\ No newline at end of file
-- 
2.43.0


From 511230e9642404bce88a4492479e5a4a8fa36030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 33/94] fix: a perturbation leaves the cells outside
 perturb_percent unchanged

---
 eval/perturbation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eval/perturbation.py b/eval/perturbation.py
index d50d04e..b6f355a 100644
--- a/eval/perturbation.py
+++ b/eval/perturbation.py
@@ -181,11 +181,10 @@ class Perturbation:
             i_mask = rng.random(size=self.U[:, i].shape) > _p
             i_mean = 0.0
             i_logn = rng.lognormal(i_mean, sigma[i], size=self.U[:, i].shape)
+            i_logn[i_mask] = 1.0
             i_m[:, i] = i_logn
-            i_m[:, i][i_mask] = i_m[:, i][i_mask]
             ij_u = i_u[:, i]
             ij_u = ij_u * i_logn
-            ij_u[i_mask] = ij_u[i_mask]
             ij_u[ij_u <= 0.0] = 1e-12
             i_u[:, i] = ij_u
         return i_u, i_m
-- 
2.43.0


From d1045b51d9adaba5c33263027704ddbd2f7b1152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 34/94] fix: the simulator does not modify the caller's
 profiles

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index a107c2a..ee94d42 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -155,7 +155,7 @@ class Simulator:
                     ji_value = self.rng.random(size=None)
                     self.syn_profiles[j][i] = float(ji_value)
         else:
-            self.syn_profiles = profiles
+            self.syn_profiles = np.array(profiles, dtype=float)
         if _profiles is not None:
             for i in range(_profiles.shape[0]):
                 self.syn_profiles[i] = _profiles[i]
-- 
2.43.0


From a40193cc731b27470916facdc6f8d8a573cb52ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 35/94] fix: the simulator reads the clock once for its time
 steps

---
 eval/simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index ee94d42..ba355da 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -108,8 +108,9 @@ class Simulator:
 
         self.syn_profiles = None
         self.syn_contributions = self.rng.random(size=(self.samples_n, self.factors_n)) * float(contribution_max)
-        start_date = datetime.now() - timedelta(days=1, minutes=self.samples_n)
-        self.time_steps = pd.date_range(start=start_date, end=datetime.now().strftime("%Y-%m-%d"), freq='1min')
+        now = datetime.now()
+        start_date = now - timedelta(days=1, minutes=self.samples_n)
+        self.time_steps = pd.date_range(start=start_date, end=now.strftime("%Y-%m-%d"), freq='1min')
         self.time_steps = self.time_steps[(self.time_steps.shape[0]-self.samples_n):]
 
         self.syn_data = None
-- 
2.43.0


From 683510a85e6cba970c1f384e726a567e9cd9df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 36/94] fix: the simulator's Q(robust) is a number

---
 eval/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index ba355da..6f483d9 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -292,7 +292,7 @@ class Simulator:
         self.syn_sa.H = self.syn_profiles
         self.syn_sa.W = self.syn_contributions
         self.syn_sa.WH = np.matmul(self.syn_contributions, self.syn_profiles)
-        self.syn_sa.Qrobust = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
+        self.syn_sa.Qrobust = qr_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)[0]
         self.syn_sa.Qtrue = q_loss(V=self.syn_sa.V, U=self.syn_sa.U, W=self.syn_sa.W, H=self.syn_sa.H)
         if self.verbose:
             logger.info("Synthetic source apportionment instance created.")
-- 
2.43.0


From 47918866aaa9071ead5e3d6ac402ee9c38cf2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:41 +0000
Subject: [PATCH 37/94] fix: a periodic contribution always covers every sample

---
 eval/simulator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 6f483d9..8d63763 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -218,9 +218,8 @@ class Simulator:
             curve_y = minimum + (maximum - minimum)/(1.0 + np.exp(-curve_x))
         elif curve_type == "periodic":
             n_periods = int(1.0/frequency) + 1
-            curve_a = np.linspace(-np.pi, np.pi, int(self.samples_n / n_periods))
-            curve_x = np.tile(curve_a[0:len(curve_a) - 1], n_periods + 1)
-            curve_x = curve_x[0:self.samples_n]
+            curve_a = np.linspace(-np.pi, np.pi, max(int(self.samples_n / n_periods), 2))
+            curve_x = np.resize(curve_a[0:len(curve_a) - 1], self.samples_n)
             curve_y = np.sin(curve_x) * ((maximum - minimum) / 2)
             curve_y = (curve_y + (np.abs(np.min(curve_y))) + minimum)
         else:
-- 
2.43.0


From adeae7c0d77fdd68ba1c0276e741fe4b5111ffd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 38/94] fix: constraints address the element they name

---
 esat/rotational/constrained.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index a48a4dd..0e30341 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -208,6 +208,7 @@ class ConstrainedModel:
         bool
            True if the constraint was added or False if the constraint wasn't valid and is not added.
         """
+        index = (int(index[0]), int(index[1]))
         constraint_label = ""
         if target == 'feature':
             if index[0] >= self.base_model.factors or index[0] < 0:
@@ -224,11 +225,11 @@ class ConstrainedModel:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            if index[1] >= self.base_model.m or index[1] < 0:
+            if index[1] >= self.base_model.factors or index[1] < 0:
                 logger.error(f"Error: Invalid constraint index. Provided: {index}. Valid ranges are "
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
-            constraint_label = f"factor:{index[0]}|sample:{index[1]}"
+            constraint_label = f"factor:{index[1]}|sample:{index[0]}"
         if constraint_label in self.constraints.keys():
             logger.error(f"Error: Unable to set more than one constraint on a factor element. Existing constraint found.")
             return False
-- 
2.43.0


From 0475ac504f3b969d89c77d2edfd6a6617baf91b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 39/94] fix: invalid constraints are rejected when they are
 added

---
 esat/rotational/constrained.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 0e30341..7c8ccb8 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -230,6 +230,13 @@ class ConstrainedModel:
                              f"(0:{self.base_model.m-1}, 0:{self.base_model.factors})")
                 return False
             constraint_label = f"factor:{index[1]}|sample:{index[0]}"
+        else:
+            logger.error(f"Error: Invalid constraint target. Provided: {target}. Valid targets are feature, sample")
+            return False
+        if constraint_type not in Constraint.type_list:
+            logger.error(f"Error: Invalid constraint type. Provided: {constraint_type}. "
+                         f"Valid types are {Constraint.type_list}")
+            return False
         if constraint_label in self.constraints.keys():
             logger.error(f"Error: Unable to set more than one constraint on a factor element. Existing constraint found.")
             return False
@@ -240,6 +247,10 @@ class ConstrainedModel:
             target_values = (target_value, dQ)
         elif constraint_type == 'define limits':
             target_values = (min_value, max_value)
+        if constraint_type not in ("set to zero", "set to base value") and \
+                None in np.atleast_1d(np.array(target_values, dtype=object)):
+            logger.error(f"Error: Constraint {constraint_type} is missing its target values.")
+            return False
         new_constraint = Constraint(
             constraint_type=constraint_type,
             index=index,
-- 
2.43.0


From ba3e7b2e1b87962b7f576eefd2b79fd9948d501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:04 +0000
Subject: [PATCH 40/94] fix: a define limits constraint keeps the element
 inside its limits

---
 esat/rotational/constrained.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 7c8ccb8..d9f7186 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -360,9 +360,7 @@ class ConstrainedModel:
                 if current_value < constraint.target_values[0]:
                     new_value = constraint.target_values[0] - current_value
                 elif current_value > constraint.target_values[1]:
-                    new_value = current_value - constraint.target_values[1]
-                else:
-                    new_value = current_value
+                    new_value = constraint.target_values[1] - current_value
             if constraint.target == "feature":
                 D_h[constraint.index] = new_value
             else:
-- 
2.43.0


From c47e4ae30baf3d4200911b02839a412d7f96b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 41/94] fix: pull constraints search between the current value
 and their target, within their dQ limit

---
 esat/rotational/constrained.py | 62 +++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 31 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index d9f7186..ce33221 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -600,25 +600,27 @@ class ConstrainedModel:
         value_found = False
         search_i = 0
         p_mod = 0.0
-        new_value = 0.0
+        base_value = _H[index] if target == "feature" else _W[index]
+        new_value = base_value
         max_seach_i = 30
 
         while not value_found:
+            i_value = base_value * modifier
             if target == "feature":
-                new_value = _H[index] * modifier
-                _H[index] = new_value
+                _H[index] = i_value
             else:
-                new_value = _W[index] * modifier
-                _W[index] = new_value
+                _W[index] = i_value
             _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
             dQ = np.abs(iQ - _Q)
             if dQ > dQ_limit:
                 low_mod = modifier
                 modifier = (modifier + high_mod) / 2
-            elif dQ < dQ_limit - 1e2:
+            elif dQ < 0.99 * dQ_limit:
+                new_value = i_value
                 high_mod = modifier
                 modifier = (low_mod + modifier) / 2
             else:
+                new_value = i_value
                 value_found = True
             if np.abs(p_mod - modifier) <= 1e-8:  # small value, considered zero. Or no change in the modifier.
                 value_found = True
@@ -636,7 +638,7 @@ class ConstrainedModel:
         iQ = q_loss(V=self.base_model.V, U=self.base_model.U, W=iW, H=iH)
 
         high_modifier = 2.0
-        low_modifier = 0.0
+        low_modifier = 1.0
         high_found = False
         high_search_i = 0
         max_search_i = 30
@@ -656,28 +658,29 @@ class ConstrainedModel:
             else:
                 high_found = True
             high_search_i += 1
-            if high_search_i >= max_search_i:
+            if high_search_i >= max_search_i and not high_found:
                 return new_value
-        new_value = 0.0
+        new_value = base_value * low_modifier
         modifier = (high_modifier + low_modifier) / 2.0
         value_found = False
         search_i = 0
         while not value_found:
+            i_value = base_value * modifier
             if target == "feature":
-                new_value = base_value * modifier
-                _H[index] = new_value
+                _H[index] = i_value
             else:
-                new_value = base_value * modifier
-                _W[index] = new_value
+                _W[index] = i_value
             _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
             dQ = np.abs(iQ - _Q)
             if dQ > dQ_limit:
                 high_modifier = modifier
                 modifier = (modifier + low_modifier) / 2.0
-            elif dQ < dQ_limit - 1e2:
+            elif dQ < 0.99 * dQ_limit:
+                new_value = i_value
                 low_modifier = modifier
                 modifier = (high_modifier + modifier) / 2.0
             else:
+                new_value = i_value
                 value_found = True
             search_i += 1
             if search_i >= max_search_i:
@@ -700,37 +703,34 @@ class ConstrainedModel:
         if np.abs(iQ - iQ2) < dQ_limit:
             return target_value
 
-        if target_value > current_value:
-            high_value = target_value
-            low_value = current_value
-        else:
-            high_value = current_value
-            low_value = target_value
+        near_value = current_value
+        far_value = target_value
 
-        mid_value = (high_value + low_value) / 2
+        mid_value = (near_value + far_value) / 2
 
         value_found = False
         search_i = 0
         p_value = 0.0
-        new_value = 0.0
+        new_value = current_value
         max_search_i = 30
 
         while not value_found:
+            i_value = mid_value
             if target == "feature":
-                new_value = mid_value
-                _H[index] = new_value
+                _H[index] = i_value
             else:
-                new_value = mid_value
-                _W[index] = new_value
+                _W[index] = i_value
             _Q = q_loss(V=self.base_model.V, U=self.base_model.U, W=_W, H=_H)
             dQ = np.abs(iQ - _Q)
             if dQ > dQ_limit:
-                low_value = mid_value
-                mid_value = (mid_value + high_value) / 2
-            elif dQ < dQ_limit - 1e2:
-                high_value = mid_value
-                mid_value = (low_value + mid_value) / 2
+                far_value = mid_value
+                mid_value = (near_value + mid_value) / 2
+            elif dQ < 0.99 * dQ_limit:
+                new_value = i_value
+                near_value = mid_value
+                mid_value = (mid_value + far_value) / 2
             else:
+                new_value = i_value
                 value_found = True
             if np.abs(p_value - mid_value) <= 1e-8:  # small value, considered zero. Or no change in the modifier.
                 value_found = True
-- 
2.43.0


From 3f6947db4088b78a6dbe1b8859ed99c7311458f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 42/94] fix: invalid expressions are rejected when they are
 added

---
 esat/rotational/constrained.py | 61 ++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index ce33221..b62ed72 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -304,8 +304,16 @@ class ConstrainedModel:
         expression : str
            A string expression to be added to the list of expressions for the constrained model.
 
+        Returns
+        -------
+        bool
+           True if the expression was added or False if the expression wasn't valid and is not added.
         """
-        #TODO: Add validation of expressions to make sure they are properly structured.
+        try:
+            self._parse_expression(expression)
+        except ValueError as e:
+            logger.error(f"Error: Invalid expression. Provided: {expression}. {e}")
+            return False
         self.expressions.append(expression)
         return True
 
@@ -561,33 +569,42 @@ class ConstrainedModel:
         expressions_labeled = []
         terms = 0
         for exp_i in range(len(self.expressions)):
-            expression_full = self.expressions[exp_i].split("=")
-            expression_eq = expression_full[1].split(",")
-            dQ = float(expression_eq[1])
-            expression = re.split(r"[()]+", expression_full[0])[1:-1]
-            neg_term = False
+            expression, dQ = self._parse_expression(self.expressions[exp_i])
             expression_labeled = []
-            for e in expression:
-                if len(e) > 1:
-                    e_terms0 = re.findall(r'\[(.*?)]', e)[0]
-                    e_terms1 = re.split(r"[:|]+", e_terms0)
-                    e_index = (int(e_terms1[1]), int(e_terms1[3]))
-                    e_coef = float(e.split("*")[0]) * (-1.0 if neg_term else 1.0)
-                    if e_terms0 not in exp_mapping.keys():
-                        exp_mapping[e_terms0] = {"coef": [e_coef], "exp_i": [exp_i], "index": e_index, "type": e_terms1[2], "coef_index": terms}
-                        terms += 1
-                    else:
-                        exp_mapping[e_terms0]["coef"].append(e_coef)
-                        exp_mapping[e_terms0]["exp_i"].append(exp_i)
-                    expression_labeled.append(e_terms0)
-                if e == "-":
-                    neg_term = True
+            for e_label, e_type, e_index, e_coef in expression:
+                if e_label in expression_labeled:
+                    exp_mapping[e_label]["coef"][-1] += e_coef
+                    continue
+                if e_label not in exp_mapping.keys():
+                    exp_mapping[e_label] = {"coef": [e_coef], "exp_i": [exp_i], "index": e_index, "type": e_type, "coef_index": terms}
+                    terms += 1
                 else:
-                    neg_term = False
+                    exp_mapping[e_label]["coef"].append(e_coef)
+                    exp_mapping[e_label]["exp_i"].append(exp_i)
+                expression_labeled.append(e_label)
             expressions_labeled.append((expression_labeled, dQ))
         self.expression_labeled = expressions_labeled
         self.expression_mapped = exp_mapping
 
+    def _parse_expression(self, expression):
+        # Splits an expression into its terms, [(label, type, index, coefficient)], and its dQ limit.
+        left, equal, right = str(expression).partition("=")
+        value, comma, dQ = right.partition(",")
+        if not equal or not comma or float(value) != 0.0:
+            raise ValueError("The expression must end in =0,dQ")
+        term = r"\s*([+-]?)\s*\(([^*()]*)\*\s*\[\s*factor:\s*(\d+)\s*\|\s*(feature|sample):\s*(\d+)\s*]\s*\)\s*"
+        if not re.fullmatch(f"({term})+", left):
+            raise ValueError("The terms must be of the form (COEF*[factor:I|feature:J]) or (COEF*[factor:I|sample:J])")
+        terms = []
+        for sign, coef, i, e_type, j in re.findall(term, left):
+            i, j = int(i), int(j)
+            if i >= self.base_model.factors or j >= (self.base_model.n if e_type == "feature" else self.base_model.m):
+                raise ValueError(f"There is no element factor:{i}|{e_type}:{j}")
+            if terms and not sign:
+                raise ValueError("The terms must be joined by + or -")
+            terms.append((f"factor:{i}|{e_type}:{j}", e_type, (i, j), float(coef) * (-1.0 if sign == "-" else 1.0)))
+        return terms, float(dQ)
+
     def _pull_down_value(self, iW, iH, target, index, dQ_limit):
         _H =  copy.copy(iH)
         _W =  copy.copy(iW)
-- 
2.43.0


From f54bfbd983eaa4018fafbd38468b3213d6bd4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 43/94] fix: an expression whose elements are all zero does not
 stop the training

---
 esat/rotational/constrained.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index b62ed72..e5396d1 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -409,7 +409,7 @@ class ConstrainedModel:
                 exp_B[i] = exp_b
 
             # Solve the expression matrices using a least squares solver from scisrc.optimize (with solutions bounded between 0.0 and the max value of the total vector)
-            exp_bounds = (1e-8, np.max(exp_B))
+            exp_bounds = (1e-8, max(np.max(exp_B), 1e-6))
             exp_X = optimize.lsq_linear(exp_A, exp_B, bounds=exp_bounds)
 
             # Assign the expression matrix solution values to the target matrix of H or W (depending on the factor element).
-- 
2.43.0


From b0417e5f6b13b39b16e6d2f72a50cfb65c9dbdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:56 +0000
Subject: [PATCH 44/94] fix: evaluate_expressions reads sample elements in W

---
 esat/rotational/constrained.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index e5396d1..8ade6e3 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -877,6 +877,8 @@ class ConstrainedModel:
                 ele_index = element_details['index']
                 ele_coef_idx = element_details["exp_i"].index(i)
                 ele_coef = element_details["coef"][ele_coef_idx]
+                if element_details["type"] != "feature":
+                    ele_index = (ele_index[1], ele_index[0])
                 ele_value = self.constrained_model.H[ele_index] if element_details["type"] == "feature" \
                     else self.constrained_model.W[ele_index]
                 base_value = _base_model.H[ele_index] if element_details["type"] == "feature" else _base_model.W[
-- 
2.43.0


From a07310f436d27ced4444042ca329c0afc5508430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 45/94] fix: the index column can be given by its number, as in
 the default run configuration

---
 esat/cli/esat_cli.py     | 22 ++++++++++++----------
 esat/data/datahandler.py |  4 ++--
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index af754e6..5dd1b42 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -33,8 +33,10 @@ except importlib.metadata.PackageNotFoundError as ex:
     VERSION = "NA"
 
 
-def get_dh(input_path, uncertainty_path, index_col):
-    dh = DataHandler(input_path=input_path, uncertainty_path=uncertainty_path, index_col=index_col)
+def get_dh(input_path, uncertainty_path, index_col=None, **options):
+    # The values in the configuration file are strings, a column number has to be passed on as a number.
+    index_col = int(index_col) if index_col is not None and index_col.isdigit() else index_col
+    dh = DataHandler(input_path=input_path, uncertainty_path=uncertainty_path, index_col=index_col, **options)
     return dh
 
 
@@ -75,7 +77,7 @@ def get_batchsa(project_directory):
 
 def get_model_analysis(project_directory, selected_model):
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     sa_models = get_batchsa(project_directory=project_directory)
     selected_i = sa_models.best_model if selected_model == -1 else selected_model
     i_model = sa_models.results[selected_i]
@@ -376,7 +378,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_data_uncertainty(feature_idx=feature_idx)
 
 
@@ -396,7 +398,7 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_feature_data(x_idx=feature_idx1, y_idx=feature_idx2)
 
 
@@ -414,7 +416,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
 
     """
     config = get_config(project_directory=project_directory)
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     dh.plot_feature_timeseries(feature_selection=list(feature_idx))
 
 
@@ -438,7 +440,7 @@ def estimate(project_directory):
         data_df, uncertainty_df = sim.get_data()
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
     else:
-        dh = DataHandler(**config["data"])
+        dh = get_dh(**config["data"])
     V, U = dh.get_data()
     factor_estimator = FactorEstimator(V=V, U=U)
     estimator_results = factor_estimator.run(
@@ -470,7 +472,7 @@ def run(project_directory):
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
         logger.info(f"Executing ESAT Simulation")
     else:
-        dh = DataHandler(**config["data"])
+        dh = get_dh(**config["data"])
     V, U = dh.get_data()
     sa_models = BatchSA(V=V, U=U, **config["parameters"])
     sa_models.details()
@@ -744,7 +746,7 @@ def run_error(project_directory, disp, bs, bsdisp):
     config = get_config(project_directory=project_directory)
     e_config = get_config(project_directory=project_directory, error=True)
 
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
     error_dir = os.path.join(project_directory, "error")
@@ -936,7 +938,7 @@ def run_constrained(project_directory):
     config = get_config(project_directory=project_directory)
     c_config = get_config(project_directory=project_directory, constrained=True)
 
-    dh = DataHandler(**config["data"])
+    dh = get_dh(**config["data"])
 
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index cd82545..30ed86c 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -359,12 +359,12 @@ class DataHandler:
         """
         ext = filepath.split(".")[-1]
         if ext in ["csv", "txt"]:
-            if index_col:
+            if index_col is not None:
                 data = pd.read_csv(filepath, index_col=index_col, sep=None, engine="python")
             else:
                 data = pd.read_csv(filepath, sep=None, engine="python")
         elif ext in ["xls", "xlsx"]:
-            if index_col:
+            if index_col is not None:
                 data = pd.read_excel(filepath, index_col=index_col)
             else:
                 data = pd.read_excel(filepath)
-- 
2.43.0


From cd969393c9089809c1375f611d9775f44ab1d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 46/94] fix: a relative project directory does not lose the
 results of a command

---
 esat/cli/esat_cli.py | 74 ++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 5dd1b42..9947173 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -142,7 +142,7 @@ def esat_cli():
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def setup(project_directory):
     """
     Create the configuration file for a batch source apportionment run in the provided directory.
@@ -176,7 +176,7 @@ def simulator():
 
 
 @simulator.command(name='setup')
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def setup_sim(project_directory):
     """
     Create the configuration file for a batch source apportionment simulated run in the provided directory.
@@ -210,7 +210,7 @@ def setup_sim(project_directory):
 
 
 @simulator.command(name="generate")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def generate_sim(project_directory):
     """
     Generate the synthetic data and uncertainty datasets as defined in the sim_config.toml. Only required for data
@@ -237,7 +237,7 @@ def generate_sim(project_directory):
 
 
 @simulator.command(name="compare")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def compare_sim(project_directory):
     """
     Compares the models generated from the synthetic data to show how similar the modelled profiles are to the known
@@ -265,7 +265,7 @@ def compare_sim(project_directory):
 
 
 @simulator.command(name="plot")
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_sim(project_directory):
     """
     Plots the results of the simulator output comparison to the synthetic profiles.
@@ -298,7 +298,7 @@ def analysis_batch():
 
 
 @analysis_batch.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_loss(project_directory):
     """
     Plots the loss value Q(true) over the training iterations for the batch solution.
@@ -319,7 +319,7 @@ def plot_loss(project_directory):
 
 
 @analysis_batch.command()
-@click.argument("project_directory", type=click.Path())
+@click.argument("project_directory", type=click.Path(resolve_path=True))
 def plot_distribution(project_directory):
     """
     Plots the loss value distribution Q(true) and Q(robust) for the batch solution.
@@ -348,7 +348,7 @@ def analysis_input():
 
 
 @analysis_input.command(name="metrics")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def metrics(project_directory):
     """
     Display the input metrics for the input/uncertainty data specified in the configuration file.
@@ -365,7 +365,7 @@ def metrics(project_directory):
 
 
 @analysis_input.command(name="plot-feature")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", type=int, default=0, help="The index of the input/uncertainty data feature, "
                                                                "column in the dataset.", show_default=True)
 def plot_input_uncertainty(project_directory, feature_idx):
@@ -383,7 +383,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
 
 
 @analysis_input.command(name="plot-data")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--feature_idx1", type=int, default=0, help="The index of the first (x-axis) input data feature, "
                                                                 "column in the dataset.", show_default=True)
 @click.option('-y', "--feature_idx2", type=int, default=1, help="The index of the second (y-axis) input data feature, "
@@ -403,7 +403,7 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
 
 @analysis_input.command(name="plot-timeseries")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", type=int, default=0, help="The indices of the input data feature, "
                                                                "columns in the dataset.", show_default=True)
 def plot_feature_timeseries(project_directory, feature_idx):
@@ -421,7 +421,7 @@ def plot_feature_timeseries(project_directory, feature_idx):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def estimate(project_directory):
     """
     Run a factor estimation using the provided configuration file.
@@ -452,7 +452,7 @@ def estimate(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def run(project_directory):
     """
     Run a batch source apportionment run using the provided configuration file.
@@ -494,7 +494,7 @@ def analysis_solution():
 
 
 @analysis_solution.command(name="plot-residuals")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -514,7 +514,7 @@ def solution_residual_histogram(project_directory, selected_model, feature_idx):
 
 
 @analysis_solution.command(name="statistics")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -534,7 +534,7 @@ def solution_statistics(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-estimated")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -554,7 +554,7 @@ def solution_estimated_observed(project_directory, selected_model, feature_idx):
 
 
 @analysis_solution.command(name="plot-timeseries")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -574,7 +574,7 @@ def solution_estimated_timeseries(project_directory, selected_model, feature_idx
 
 
 @analysis_solution.command(name="plot-profile")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -594,7 +594,7 @@ def solution_factor_profile(project_directory, selected_model, factor_idx):
 
 
 @analysis_solution.command(name="plot-fingerprints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -613,7 +613,7 @@ def solution_factor_fingerprints(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-gspace")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -636,7 +636,7 @@ def solution_g_space(project_directory, selected_model, factor_idx1, factor_idx2
 
 
 @analysis_solution.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -656,7 +656,7 @@ def solution_factor_contributions(project_directory, selected_model, feature_idx
 
 
 @analysis_solution.command(name="plot-composition")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -675,7 +675,7 @@ def solution_factor_composition(project_directory, selected_model):
 
 
 @analysis_solution.command(name="plot-surface")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-m', "--selected_model", default=-1, type=int, help="The index of the model from the solution. "
                                                                    "Default: -1, the best performing model.",
               show_default=True)
@@ -704,7 +704,7 @@ def solution_factor_surface(project_directory, selected_model, factor_idx, featu
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def setup_error(project_directory):
     """
     Create an error estimation configuration file for the specified project.
@@ -723,7 +723,7 @@ def setup_error(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, default=False,
               help="Run the displacement (DISP) error estimation method.", show_default=True)
 @click.option("--bs", is_flag=True, prompt=False, default=False, show_default=True,
@@ -847,7 +847,7 @@ def analysis_error():
 
 
 @analysis_error.command(name="summary")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the displacement (DISP) error estimation results.")
 @click.option("--bs", is_flag=True, prompt_required=False, default=False, show_default=True,
@@ -876,7 +876,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
 
 
 @analysis_error.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option("--disp", is_flag=True, prompt_required=False, default=False, show_default=True,
               help="Summarize the displacement (DISP) error estimation results.")
 @click.option("--bs", is_flag=True, prompt_required=False, default=False, show_default=True,
@@ -906,7 +906,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def setup_constrained(project_directory):
     """
     Create a configuration file for executing a constrained model run on a specified project.
@@ -925,7 +925,7 @@ def setup_constrained(project_directory):
 
 
 @esat_cli.command()
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def run_constrained(project_directory):
     """
     Run a constrained model with the specified configuration file.
@@ -995,7 +995,7 @@ def analysis_constrained():
 
 
 @analysis_constrained.command(name="summary")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_results(project_directory):
     """
     Display the results of a constrained model run.
@@ -1011,7 +1011,7 @@ def constrained_results(project_directory):
 
 
 @analysis_constrained.command(name="plot-q")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-q', "--qtype", prompt_required=False, default='Aux', show_default=True,
               help="Plot the loss value for qtype: True, Robust, Aux")
 def constrained_plot_q(project_directory, qtype):
@@ -1030,7 +1030,7 @@ def constrained_plot_q(project_directory, qtype):
 
 
 @analysis_constrained.command(name="eval-constraints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_evaluate_constraints(project_directory):
     """
     Display the evaluation table of the constrained model results, for each constraint.
@@ -1045,7 +1045,7 @@ def constrained_evaluate_constraints(project_directory):
 
 
 @analysis_constrained.command(name="eval-expressions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_evaluate_expressions(project_directory):
     """
     Display the evaluation table of the constrained model results, for each expression.
@@ -1060,7 +1060,7 @@ def constrained_evaluate_expressions(project_directory):
 
 
 @analysis_constrained.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--factor_idx", default=0, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
     """
@@ -1076,7 +1076,7 @@ def constrained_profile_contributions(project_directory, factor_idx):
 
 
 @analysis_constrained.command(name="plot-fingerprints")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 def constrained_factor_fingerprints(project_directory):
     """
     Display the constrained solution factor fingerprints.
@@ -1091,7 +1091,7 @@ def constrained_factor_fingerprints(project_directory):
 
 
 @analysis_constrained.command(name="plot-gspace")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-x', "--factor_idx1", default=0, type=int, show_default=True, help="The factor index for the x-axis.")
 @click.option('-y', "--factor_idx2", default=1, type=int, show_default=True, help="The factor index for the y-axis.")
 @click.option("--show_base", is_flag=True, default=True, type=bool, show_default=True,
@@ -1112,7 +1112,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 
 
 @analysis_constrained.command(name="plot-contributions")
-@click.argument("project_directory", type=click.Path(exists=True))
+@click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", default=0, type=int, show_default=True, help="The feature index to display.")
 def constrained_profile_contributions(project_directory, feature_idx):
     """
-- 
2.43.0


From babf6840f997e5ce8b9599c6dd6c69f9af38de69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 47/94] fix: run-error looks for the constrained model where
 run-constrained stores it

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 9947173..fa5ec4d 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -755,7 +755,7 @@ def run_error(project_directory, disp, bs, bsdisp):
 
     if e_config["project"]["constrained_config"] != "":
         constrained_pkl = os.path.join(project_directory, "constrained",
-                                       f"constrained_{config['project']['name']}.pkl")
+                                       f"constrained_model-{config['project']['name']}.pkl")
         c_solution = ConstrainedModel.load(file_path=constrained_pkl)
         logger.info("Using existing constrained model.")
         selected_i = -1
-- 
2.43.0


From 1c530cbf90fb2aa293961be51a589f3481f58a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 48/94] fix: run-error --bsdisp works without --bs

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index fa5ec4d..ba0aeea 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -815,7 +815,7 @@ def run_error(project_directory, disp, bs, bsdisp):
             if os.path.exists(bs_output_file):
                 _bs = Bootstrap.load(bs_output_file)
                 logger.info("Using existing BS solution.")
-        elif bs is not None:
+        elif isinstance(bs, Bootstrap):
             _bs = bs
             logger.info("Using existing BS solution.")
         bsdisp = BSDISP(
-- 
2.43.0


From 3283fd93c6c8a37399d5c3ace0337485c51bf790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 49/94] fix: run-error --bsdisp uses the features of its own
 section

---
 esat/cli/esat_cli.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index ba0aeea..a5ffae2 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -804,10 +804,9 @@ def run_error(project_directory, disp, bs, bsdisp):
         block_size = dh.optimal_block if block_size == -1 else block_size
         seed = int(e_config["bsdisp"]["seed"])
         seed = selected_model.seed if seed == -1 else seed
-        features = json.loads(e_config["disp"]["features"])
+        features = json.loads(e_config["bsdisp"]["features"])
         features = [int(f) for f in features] if len(features) >= 1 else None
         features_label = features if features is not None else "all"
-        logger.info(f"Running DISP on model {selected_i} for features: {features_label}")
         logger.info(f"Running BSDISP on model {selected_i}, features: {features_label}")
         _bs = None
         if e_config["bsdisp"]["bootstrap_output"] != "":
-- 
2.43.0


From 1e72c8b628bddd39d2668e89d79919c724d70427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 50/94] fix: the error analysis commands accept one selected
 method

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index a5ffae2..43305d5 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -862,7 +862,7 @@ def error_summary(project_directory, disp, bs, bsdisp):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if sum((disp, bs, bsdisp)) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
@@ -892,7 +892,7 @@ def error_results(project_directory, disp, bs, bsdisp, factor_idx):
     project_directory : The project directory containing .toml configuration files.
 
     """
-    if not all((disp, bs, bsdisp)):
+    if sum((disp, bs, bsdisp)) != 1:
         logger.info("One error estimation method must be selected.")
         return
     error_solution = get_error_model(
-- 
2.43.0


From 089222b54b513955f2106d4e2b7179ac6b7a11f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 51/94] fix: analysis-input plot-timeseries accepts feature
 indices

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 43305d5..a031a10 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -404,8 +404,8 @@ def plot_feature_data(project_directory, feature_idx1, feature_idx2):
 
 @analysis_input.command(name="plot-timeseries")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
-@click.option('-i', "--feature_idx", type=int, default=0, help="The indices of the input data feature, "
-                                                               "columns in the dataset.", show_default=True)
+@click.option('-i', "--feature_idx", type=int, default=[0], multiple=True,
+              help="The indices of the input data feature, columns in the dataset.", show_default=True)
 def plot_feature_timeseries(project_directory, feature_idx):
     """
     Display the feature(s) timeseries.
-- 
2.43.0


From edb2ded254110beb0f64293c883f3bafeae8ec55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 52/94] fix: the constrained profile plot has a command name of
 its own

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index a031a10..ff281c5 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -1058,7 +1058,7 @@ def constrained_evaluate_expressions(project_directory):
     c_model.evaluate_expressions()
 
 
-@analysis_constrained.command(name="plot-contributions")
+@analysis_constrained.command(name="plot-profile-contributions")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--factor_idx", default=0, type=int, show_default=True, help="The factor index to plot.")
 def constrained_profile_contributions(project_directory, factor_idx):
@@ -1113,7 +1113,7 @@ def constrained_g_space(project_directory, factor_idx1, factor_idx2, show_base,
 @analysis_constrained.command(name="plot-contributions")
 @click.argument("project_directory", type=click.Path(exists=True, resolve_path=True))
 @click.option('-i', "--feature_idx", default=0, type=int, show_default=True, help="The feature index to display.")
-def constrained_profile_contributions(project_directory, feature_idx):
+def constrained_factor_contributions(project_directory, feature_idx):
     """
     Display the factor contributions for the specified feature (feature_idx).
 
-- 
2.43.0


From e8127306b5965850a4f610e214bebc590a53fbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 53/94] fix: a simulator project finds its data from any
 working directory

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index ff281c5..914c152 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -201,8 +201,8 @@ def setup_sim(project_directory):
     logger.info(f"New simulator configuration file created. File path: {new_sim_config_file}")
     new_config = run_config
     new_config['project']['directory'] = project_directory
-    new_config['data']['input_path'] = new_sim_config['data']['input_path']
-    new_config['data']['uncertainty_path'] = new_sim_config['data']['uncertainty_path']
+    new_config['data']['input_path'] = os.path.join(project_directory, new_sim_config['data']['input_path'])
+    new_config['data']['uncertainty_path'] = os.path.join(project_directory, new_sim_config['data']['uncertainty_path'])
     new_config_file = os.path.join(project_directory, "run_config.toml")
     with open(new_config_file, 'w') as configfile:
         new_config.write(configfile)
-- 
2.43.0


From 3b4934e23690a05afe8343aae94e28426306b049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 54/94] fix: run and estimate use the synthetic data that was
 generated and saved

---
 esat/cli/esat_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 914c152..01de8cb 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -437,7 +437,7 @@ def estimate(project_directory):
         sim = get_sim(sim_path=project_directory,
                       sim_parameters=_sim_config['parameters'],
                       sim_contributions=_sim_config['contributions'])
-        data_df, uncertainty_df = sim.get_data()
+        data_df, uncertainty_df = sim.syn_data_df, sim.syn_uncertainty_df
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
     else:
         dh = get_dh(**config["data"])
@@ -468,7 +468,7 @@ def run(project_directory):
         sim = get_sim(sim_path=project_directory,
                       sim_parameters=_sim_config['parameters'],
                       sim_contributions=_sim_config['contributions'])
-        data_df, uncertainty_df = sim.get_data()
+        data_df, uncertainty_df = sim.syn_data_df, sim.syn_uncertainty_df
         dh = DataHandler.load_dataframe(input_df=data_df, uncertainty_df=uncertainty_df)
         logger.info(f"Executing ESAT Simulation")
     else:
-- 
2.43.0


From e05a4607d1f2378e2e37ad916fafb58cf230cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 55/94] fix: simulator generate follows the current
 configuration

---
 esat/cli/esat_cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 01de8cb..daae865 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -40,8 +40,8 @@ def get_dh(input_path, uncertainty_path, index_col=None, **options):
     return dh
 
 
-def get_sim(sim_path, sim_parameters, sim_contributions):
-    if "esat_simulator.pkl" in os.listdir(sim_path):
+def get_sim(sim_path, sim_parameters, sim_contributions, generate=False):
+    if not generate and "esat_simulator.pkl" in os.listdir(sim_path):
         sim = Simulator.load(os.path.join(sim_path, "esat_simulator.pkl"))
     else:
         sim = Simulator(**sim_parameters)
@@ -231,7 +231,8 @@ def generate_sim(project_directory):
     logger.info("Generating synthetic data")
     sim = get_sim(sim_path=project_directory,
                   sim_parameters=config['parameters'],
-                  sim_contributions=config["contributions"]
+                  sim_contributions=config["contributions"],
+                  generate=True
                   )
     logger.info("ESAT Simulator setup complete")
 
-- 
2.43.0


From d987e8b60343c2d32c9520a7d5bd5330a817a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:14 +0000
Subject: [PATCH 56/94] fix: init_norm and outliers can be switched off in the
 configuration files

---
 esat/model/batch_sa.py | 2 +-
 eval/simulator.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/esat/model/batch_sa.py b/esat/model/batch_sa.py
index 829a126..e1d00e1 100644
--- a/esat/model/batch_sa.py
+++ b/esat/model/batch_sa.py
@@ -112,7 +112,7 @@ class BatchSA:
         self.seed = 42 if seed is None else int(seed)
         self.rng = np.random.default_rng(self.seed)
         self.init_method = str(init_method)
-        self.init_norm = bool(init_norm)
+        self.init_norm = init_norm.lower() == "true" if isinstance(init_norm, str) else bool(init_norm)
         self.hold_h = hold_h
         self.delay_h = delay_h
         self.use_gpu = use_gpu
diff --git a/eval/simulator.py b/eval/simulator.py
index 8d63763..75e703d 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -96,7 +96,7 @@ class Simulator:
         self.syn_columns = [f"Feature {i}" for i in range(1, self.features_n+1)]
         self.syn_factor_columns = [f"Factor {i}" for i in range(1, self.factors_n+1)]
 
-        self.outliers = outliers
+        self.outliers = outliers.lower() == "true" if isinstance(outliers, str) else bool(outliers)
         self.outlier_p = float(outlier_p)
         self.outlier_mag = float(outlier_mag)
         self.noise_mean_min = float(noise_mean_min)
-- 
2.43.0


From 276bbccfa345d94c70069631c61b49f2e0a10653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 57/94] fix: a path in the configuration files can contain a
 percent sign

---
 esat/cli/esat_cli.py | 2 +-
 esat/configs.py      | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index daae865..1a498ee 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -63,7 +63,7 @@ def get_config(project_directory, error=False, constrained=False, sim=False):
         config_file = os.path.join(project_directory, "sim_config.toml")
     else:
         config_file = os.path.join(project_directory, "run_config.toml")
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read(config_file)
     return config
 
diff --git a/esat/configs.py b/esat/configs.py
index 5bc2f28..117b135 100644
--- a/esat/configs.py
+++ b/esat/configs.py
@@ -2,7 +2,8 @@ import configparser
 
 
 # ------- SIMULATOR Configuration -------- #
-sim_config = configparser.ConfigParser()
+# Values are taken literally, a path can contain any character
+sim_config = configparser.ConfigParser(interpolation=None)
 sim_config['project'] = {
     "directory": "."
 }
@@ -34,7 +35,7 @@ sim_config['contributions'] = {
 }
 
 # ------- RUN Configuration --------- #
-run_config = configparser.ConfigParser()
+run_config = configparser.ConfigParser(interpolation=None)
 run_config['project'] = {
     "name": "",
     "directory": ".",
@@ -64,7 +65,7 @@ run_config['parameters'] = {
 }
 
 # -------- ERROR Configuration -------- #
-error_config = configparser.ConfigParser()
+error_config = configparser.ConfigParser(interpolation=None)
 error_config["project"] = {
     "project_config": "",
     "constrained_config": "",
@@ -91,7 +92,7 @@ error_config["bsdisp"] = {
 }
 
 # -------- CONSTRAINED Configuration -------- #
-constrained_config = configparser.ConfigParser()
+constrained_config = configparser.ConfigParser(interpolation=None)
 constrained_config["project"] = {
     "project_config": ""
 }
-- 
2.43.0


From 93ff81d7e182c0ff9b558b5d9cec3d47f8170302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 58/94] fix: analysis-input plot-feature shows the selected
 feature

---
 esat/cli/esat_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 1a498ee..7128e5a 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -380,7 +380,7 @@ def plot_input_uncertainty(project_directory, feature_idx):
     """
     config = get_config(project_directory=project_directory)
     dh = get_dh(**config["data"])
-    dh.plot_data_uncertainty(feature_idx=feature_idx)
+    dh.plot_data_uncertainty(feature_idx=feature_idx, include_menu=False)
 
 
 @analysis_input.command(name="plot-data")
-- 
2.43.0


From f8cd08a48c095b781bedac1f5cf40465298957dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 59/94] fix: the optimal block size is never zero

---
 esat/data/datahandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 30ed86c..d512ac3 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -429,9 +429,10 @@ class DataHandler:
                 optimal_block = []
                 for opt in optimal_blocks:
                     optimal_block.append(opt.b_star_cb)
-                self.optimal_block = math.floor(np.mean(optimal_block))
+                # a block holds at least one sample
+                self.optimal_block = max(math.floor(np.mean(optimal_block)), 1)
         except ValueError as e:
-            self.optimal_block = int(input_data.shape[1]/5)
+            self.optimal_block = max(int(input_data.shape[1]/5), 1)
             logger.error(f"Unable to determine optimal block size. Setting default to {self.optimal_block}")
 
     def _aggregate_data(self):
-- 
2.43.0


From 63fa939c40bd011215e8e8941173e447cc1d5532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 60/94] fix: run-error --bsdisp does not ignore a bootstrap
 output that cannot be loaded

---
 esat/cli/esat_cli.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 7128e5a..30ca599 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -812,9 +812,11 @@ def run_error(project_directory, disp, bs, bsdisp):
         _bs = None
         if e_config["bsdisp"]["bootstrap_output"] != "":
             bs_output_file = e_config["bsdisp"]["bootstrap_output"]
-            if os.path.exists(bs_output_file):
-                _bs = Bootstrap.load(bs_output_file)
-                logger.info("Using existing BS solution.")
+            _bs = Bootstrap.load(bs_output_file)
+            if _bs is None:
+                logger.error(f"Unable to run BSDISP, the bootstrap output could not be loaded: {bs_output_file}")
+                return
+            logger.info("Using existing BS solution.")
         elif isinstance(bs, Bootstrap):
             _bs = bs
             logger.info("Using existing BS solution.")
-- 
2.43.0


From 9632b86f72c9ff1246c470423418c379e95556a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:54 +0000
Subject: [PATCH 61/94] fix: an interrupted generate is not taken for a
 complete one

---
 eval/simulator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 75e703d..22a84f8 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -538,10 +538,6 @@ class Simulator:
         if os.path.exists(output_directory):
             if self.syn_data_df is None:
                 self.get_data()
-            file_path = os.path.join(output_directory, "esat_simulator.pkl")
-            pickle_save(self, file_path)
-            logger.info(f"ESAT Simulator instance saved to pickle file: {file_path}")
-
             data_file_path = os.path.join(output_directory, f"{sim_name}_data.csv")
             self.syn_data_df.to_csv(data_file_path)
             logger.info(f"ESAT synthetic data saved to file: {data_file_path}")
@@ -557,6 +553,11 @@ class Simulator:
             contribution_file_path = os.path.join(output_directory, f"{sim_name}_contributions.csv")
             self.syn_contributions_df.to_csv(contribution_file_path)
             logger.info(f"ESAT synthetic contributions saved to file: {contribution_file_path}")
+
+            # Saved last, the datasets of a simulator that can be loaded are complete.
+            file_path = os.path.join(output_directory, "esat_simulator.pkl")
+            pickle_save(self, file_path)
+            logger.info(f"ESAT Simulator instance saved to pickle file: {file_path}")
             return True
         return False
 
-- 
2.43.0


From 541fd1cc5349eaa9468c76cec1e2f01f5400ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 62/94] fix: min_timestep returns the timestep it found

---
 esat/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esat/utils.py b/esat/utils.py
index 56bfbb2..a191ef3 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -81,10 +81,12 @@ def min_timestep(data: pd.DataFrame):
         resample = f"{time_delta.min().seconds}s"
     elif time_delta.min().seconds < 60 * 60:
         resample = f"{int(time_delta.min().seconds / 60)}min"
-    elif time_delta.min().seconds > 60 * 60 and time_delta.min().days <= 0:
+    elif time_delta.min().seconds >= 60 * 60 and time_delta.min().days <= 0:
         resample = f"{int(time_delta.min().seconds / (60 * 60))}h"
     else:
-        return "D"
+        resample = "D"
+    return resample
+
 
 def calculate_factor_correlation(factor1, factor2):
     factor1 = factor1.astype(float)
-- 
2.43.0


From 95b86d432cafc2cbb8c4cfea291e6279dc0a9e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 63/94] fix: the analysis-solution commands load the data set
 they analyse

---
 esat/cli/esat_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 30ca599..4241ec9 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -78,6 +78,7 @@ def get_batchsa(project_directory):
 def get_model_analysis(project_directory, selected_model):
     config = get_config(project_directory=project_directory)
     dh = get_dh(**config["data"])
+    dh.get_data()
     sa_models = get_batchsa(project_directory=project_directory)
     selected_i = sa_models.best_model if selected_model == -1 else selected_model
     i_model = sa_models.results[selected_i]
-- 
2.43.0


From e67e89acb5ff8bff166a041e37106802d70c044b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 64/94] fix: evaluating the expressions of a model without
 expressions reports that there are none

---
 esat/rotational/constrained.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index 8ade6e3..b2f7f23 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -862,6 +862,9 @@ class ConstrainedModel:
         TODO: Perform factor mapping between the base solution and the constrained solution.
 
         """
+        if not self.expression_labeled:
+            logger.info("The constrained model has no expressions to evaluate.")
+            return
         exp_element = {}
         max_terms = np.max([len(i[0]) for i in self.expression_labeled])
         exp_table = [[""] * (max_terms + 3) for i in range(len(self.expression_labeled))]
-- 
2.43.0


From 907d07d8dc44c2f7242bd4a3861ae4fbef870a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 65/94] fix: categorising an unknown feature does not corrupt
 the data handler

---
 esat/data/datahandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index d512ac3..ab8e4ab 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -145,6 +145,9 @@ class DataHandler:
         if category not in ("strong", "weak", "bad"):
             logger.error("The feature category must be set to 'strong', 'weak', or 'bad'")
             return False
+        if feature not in self.metrics.index:
+            logger.error(f"Feature: {feature} not found, unable to update feature category")
+            return False
         self.metrics.loc[feature, "Category"] = category.lower()
         logger.info(f"Feature: {feature} category set to {category}")
         return True
-- 
2.43.0


From 66bf329817b9bd324e0c596b68a36ccf4b43e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:48 +0000
Subject: [PATCH 66/94] fix: samples with missing values are dropped, from data
 and uncertainty alike

---
 esat/data/datahandler.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index ab8e4ab..cc8c766 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -322,11 +322,11 @@ class DataHandler:
             _input_data[f] = pd.to_numeric(_input_data[f])
             _uncertainty_data[f] = pd.to_numeric(_uncertainty_data[f])
 
-        # Ensure no zero values in data or uncertainty
-        _input_nans = _input_data.isna().any(axis=1)
-        _uncertainty_nans = _uncertainty_data.isna().any(axis=1)
-        _input_data = _input_data[~_input_nans | ~_uncertainty_nans]
-        _uncertainty_data = _uncertainty_data[~_input_nans | ~_uncertainty_nans]
+        # Drop the samples that have a missing value in the data or in the uncertainty
+        if self.drop_nans:
+            complete = ~(_input_data.isna().any(axis=1) | _uncertainty_data.isna().any(axis=1))
+            _input_data = _input_data[complete]
+            _uncertainty_data = _uncertainty_data[complete]
 
         self.input_data_df = _input_data
         self.uncertainty_data_df = _uncertainty_data
@@ -336,6 +336,7 @@ class DataHandler:
         if isinstance(_uncertainty_data, pd.DataFrame) or isinstance(_uncertainty_data, pd.Series):
             _uncertainty_data = _uncertainty_data.to_numpy()
 
+        # Ensure no zero values in data or uncertainty
         _input_data[_input_data == 0] = EPSILON
         _uncertainty_data[_uncertainty_data == 0] = EPSILON
 
-- 
2.43.0


From 2b4ebd762c5e18bac5955f6ae884ae70b1ba1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 67/94] fix: dropped and location columns are no features, and
 need not be numeric

---
 esat/data/datahandler.py | 61 +++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 26 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index cc8c766..ad284b8 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -282,24 +282,33 @@ class DataHandler:
         else:
             logger.info("Input and output configured successfully")
 
+    def _feature_columns(self):
+        """
+        The columns of the input dataset which are features: those that are neither dropped nor describe the location
+        of the data.
+
+        Returns
+        -------
+        list
+            The labels of the feature columns, in the order of the input dataset.
+        """
+        excluded = []
+        for labels in (self.drop_col, self.loc_cols):
+            if labels is not None:
+                excluded.extend([labels] if isinstance(labels, str) else labels)
+        missing = [col for col in excluded if col not in self.input_data.columns]
+        if missing:
+            raise KeyError(f"{missing} not found in the columns of the input dataset")
+        return [col for col in self.input_data.columns if col not in excluded]
+
     def _set_dataset(self):
         """
         Sets the processed input and uncertainty datasets.
         """
-        # Drop columns if specified
-        if self.drop_col is not None:
-            _input_data = copy.copy(self.input_data.drop(labels=self.drop_col, axis=1)).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data.drop(labels=self.drop_col, axis=1)).astype("float32")
-        else:
-            _input_data = copy.copy(self.input_data).astype("float32")
-            _uncertainty_data = copy.copy(self.uncertainty_data).astype("float32")
-
-        # Drop location columns if specified
-        if self.loc_cols is not None:
-            if isinstance(self.loc_cols, str):
-                self.loc_cols = [self.loc_cols]
-            _input_data = _input_data.drop(labels=self.loc_cols, axis=1)
-            _uncertainty_data = _uncertainty_data.drop(labels=self.loc_cols, axis=1)
+        # Columns that are dropped and location columns are not part of the dataset
+        feature_columns = self._feature_columns()
+        _input_data = self.input_data[feature_columns].astype("float32")
+        _uncertainty_data = self.uncertainty_data[feature_columns].astype("float32")
 
         # Drop bad category features
         bad_features = list(self.metrics.loc[self.metrics["Category"] == "bad"].index)
@@ -311,11 +320,7 @@ class DataHandler:
         for wf in weak_features:
             _uncertainty_data[wf] = _uncertainty_data[wf] * 3.0
 
-        # Exclude loc_cols from features
-        if self.loc_cols is not None:
-            self.features = [col for col in _input_data.columns if col not in self.loc_cols]
-        else:
-            self.features = list(_input_data.columns)
+        self.features = list(_input_data.columns)
 
         # Ensure data and uncertainty values are numeric !Important!
         for f in self.features:
@@ -388,18 +393,22 @@ class DataHandler:
         if not existing_data:
             self.input_data = self._read_data(filepath=self.input_path, index_col=self.index_col)
             self.uncertainty_data = self._read_data(filepath=self.uncertainty_path, index_col=self.index_col)
-            self.features = list(self.input_data.columns) if self.features is None else self.features
+        feature_columns = self._feature_columns()
+        if not existing_data:
+            self.features = feature_columns if self.features is None else self.features
 
         # drop rows were all values are NaN, by creating a mask to use on both input and uncertainty
-        nan_rows = self.input_data.isna().all(axis=1) | self.uncertainty_data.isna().all(axis=1)
+        nan_rows = (self.input_data[feature_columns].isna().all(axis=1)
+                    | self.uncertainty_data[feature_columns].isna().all(axis=1))
         self.input_data = self.input_data[~nan_rows]
         self.uncertainty_data = self.uncertainty_data[~nan_rows]
 
-        self.min_values = self.input_data.min(axis=0)
-        self.max_values = self.input_data.max(axis=0)
+        # the metrics describe the features
+        c_df = self.input_data[feature_columns].copy()
+        u_df = self.uncertainty_data[feature_columns].copy()
 
-        c_df = self.input_data.copy()
-        u_df = self.uncertainty_data.copy()
+        self.min_values = c_df.min(axis=0)
+        self.max_values = c_df.max(axis=0)
 
         min_con = c_df.min()
         p25 = c_df.quantile(q=0.25, numeric_only=True)
@@ -426,7 +435,7 @@ class DataHandler:
         Sets the self.optimal_block parameter by taking the average value of b_star_cb of each feature.
         """
         if input_data is None:
-            input_data = self.input_data.to_numpy()
+            input_data = self.input_data[self._feature_columns()].to_numpy()
         try:
             with np.errstate(divide='ignore', invalid='ignore'):
                 optimal_blocks = optimal_block_length(input_data)
-- 
2.43.0


From 5c168d53dd98c972d87c3c389959bf176b174a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:46 +0000
Subject: [PATCH 68/94] fix: the plotting data of a data handler exist for
 large datasets and for dataframes

---
 esat/data/datahandler.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index ad284b8..d96a0a3 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -460,24 +460,27 @@ class DataHandler:
             self.uncertainty_data_plot = None
             return
         n_samples = len(self.input_data)
+        feature_columns = self._feature_columns()
         if n_samples <= self.max_plotting_n:
-            self.input_data_plot = self.input_data
-            self.uncertainty_data_plot = self.uncertainty_data
+            self.input_data_plot = self.input_data[feature_columns]
+            self.uncertainty_data_plot = self.uncertainty_data[feature_columns]
             return
         bins = np.linspace(0, 1, self.max_plotting_n + 1)
-        agg_input = pd.DataFrame()
-        agg_uncertainty = pd.DataFrame()
-        for col in self.input_data.columns:
+        agg_input = {}
+        agg_uncertainty = {}
+        for col in feature_columns:
+            # repeated values leave fewer bins, without labels the bins that are left are numbered
             quantiles = self.input_data[col].quantile(bins)
-            labels = range(self.max_plotting_n)
+            labels = False
             binned = pd.cut(self.input_data[col], quantiles, labels=labels, include_lowest=True, duplicates='drop')
             agg_input[col] = self.input_data.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
             agg_uncertainty[col] = self.uncertainty_data.groupby(binned, observed=True)[col].mean().reset_index(
                 drop=True)
             self._agg_bins[col] = quantiles
             self._agg_labels[col] = labels
-        self.V_prime_plot = agg_input
-        self.uncertainty_data_plot = agg_uncertainty
+        # features can have different numbers of bins
+        self.input_data_plot = pd.DataFrame(agg_input)
+        self.uncertainty_data_plot = pd.DataFrame(agg_uncertainty)
         logger.info(f"Aggregated data for plotting: {n_samples} samples reduced to {self.max_plotting_n} samples.")
 
     def aggregate_output(self, output_array: np.ndarray) -> pd.DataFrame:
@@ -491,7 +494,7 @@ class DataHandler:
             return pd.DataFrame(output_array, columns=self.features)
         # Convert array to DataFrame with correct columns
         output_df = pd.DataFrame(output_array, columns=self.features)
-        agg_output = pd.DataFrame()
+        agg_output = {}
         for col in output_df.columns:
             if col in self._agg_bins:
                 binned = pd.cut(output_df[col], self._agg_bins[col], labels=self._agg_labels[col], include_lowest=True,
@@ -499,7 +502,7 @@ class DataHandler:
                 agg_output[col] = output_df.groupby(binned, observed=True)[col].mean().reset_index(drop=True)
             else:
                 agg_output[col] = output_df[col]
-        return agg_output
+        return pd.DataFrame(agg_output)
 
     def plot_data_uncertainty(self, show: bool = True, include_menu: bool = True, feature_idx: int = None):
         """
@@ -913,4 +916,5 @@ class DataHandler:
         dh.features = input_df.columns
         dh._load_data(existing_data=True)
         dh._determine_optimal_block()
+        dh._aggregate_data()
         return dh
-- 
2.43.0


From 273adfea9a8ff113c8bdcadd7b132d3e6f067f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 69/94] fix: the location columns are no features of the data
 handlers split_locations returns

---
 esat/data/datahandler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index d96a0a3..8138fd1 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -198,7 +198,9 @@ class DataHandler:
                 input_data_loc = self.input_data[loc_filter]
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
 
-            dh = DataHandler.load_dataframe(input_df=input_data_loc, uncertainty_df=uncertainty_data_loc)
+            dh = DataHandler.load_dataframe(input_df=input_data_loc, uncertainty_df=uncertainty_data_loc,
+                                            drop_col=self.drop_col, drop_nans=self.drop_nans, loc_cols=self.loc_cols,
+                                            sn_threshold=self.sn_threshold, max_plotting_n=self.max_plotting_n)
             dh.metadata['location'] = loc.to_dict()
             data_handlers.append(dh)
 
@@ -896,7 +898,7 @@ class DataHandler:
             return fig
 
     @staticmethod
-    def load_dataframe(input_df: pd.DataFrame, uncertainty_df: pd.DataFrame):
+    def load_dataframe(input_df: pd.DataFrame, uncertainty_df: pd.DataFrame, **kwargs):
         """
         Pass in pandas dataframes for the input and uncertainty datasets, instead of using files.
 
@@ -904,13 +906,15 @@ class DataHandler:
         ----------
         input_df
         uncertainty_df
+        kwargs
+            Additional parameters of the DataHandler, such as loc_cols or drop_col.
 
         Returns
         -------
         DataHandler
             Instance of DataHandler using dataframes as input.
         """
-        dh = DataHandler(input_path="", uncertainty_path="", load=False)
+        dh = DataHandler(input_path="", uncertainty_path="", load=False, **kwargs)
         dh.input_data = input_df
         dh.uncertainty_data = uncertainty_df
         dh.features = input_df.columns
-- 
2.43.0


From 412f39ace46a74898115163ae7a43b6053203f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 70/94] fix: a merged data handler can be used, and merged
 again

---
 esat/data/datahandler.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 8138fd1..9d8ed45 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -228,9 +228,10 @@ class DataHandler:
             logger.error("DataHandlers and source_labels must be non-empty and of equal length.")
             return False
 
-        # Check features match
+        # Check features match, a previous merge added the source labels
+        columns = [col for col in self.input_data.columns if col != 'source_label']
         for dh in data_handlers:
-            if list(dh.input_data.columns) != list(self.input_data.columns):
+            if [col for col in dh.input_data.columns if col != 'source_label'] != columns:
                 logger.error("All DataHandlers must have the same features to merge.")
                 return False
 
@@ -245,18 +246,25 @@ class DataHandler:
             merged_input.append(input_df)
             merged_uncertainty.append(uncertainty_df)
 
-        # Add current instance's data
+        # Add current instance's data, the rows of a previous merge keep their labels
         self_input = self.input_data.copy()
-        self_input['source_label'] = 'self'
         self_uncertainty = self.uncertainty_data.copy()
-        self_uncertainty['source_label'] = 'self'
+        if 'source_label' not in self_input.columns:
+            self_input['source_label'] = 'self'
+            self_uncertainty['source_label'] = 'self'
         merged_input.append(self_input)
         merged_uncertainty.append(self_uncertainty)
 
-        # Concatenate
-        self.input_data = pd.concat(merged_input, ignore_index=True)
-        self.uncertainty_data = pd.concat(merged_uncertainty, ignore_index=True)
-        self.features = [col for col in self.input_data.columns if col != 'source_label']
+        # Concatenate, in a copy of this instance so that a merge that fails leaves this instance as it was
+        merged = copy.copy(self)
+        merged.input_data = pd.concat(merged_input, ignore_index=True)
+        merged.uncertainty_data = pd.concat(merged_uncertainty, ignore_index=True)
+        merged._load_data(existing_data=True)
+        merged.metrics["Category"] = self.metrics["Category"]
+        merged.features = merged._feature_columns()
+        merged._determine_optimal_block()
+        merged._aggregate_data()
+        self.__dict__.update(merged.__dict__)
 
         logger.info("DataHandlers merged successfully.")
         return True
@@ -287,14 +295,14 @@ class DataHandler:
     def _feature_columns(self):
         """
         The columns of the input dataset which are features: those that are neither dropped nor describe the location
-        of the data.
+        or the source (see merge) of the data.
 
         Returns
         -------
         list
             The labels of the feature columns, in the order of the input dataset.
         """
-        excluded = []
+        excluded = ['source_label'] if 'source_label' in self.input_data.columns else []
         for labels in (self.drop_col, self.loc_cols):
             if labels is not None:
                 excluded.extend([labels] if isinstance(labels, str) else labels)
-- 
2.43.0


From a677f3066777e7a7fac7455caf75b62861386c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 71/94] fix: the model statistics scale the residuals by the
 uncertainty of the model

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 0dc70f7..a9de871 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -142,7 +142,7 @@ class ModelAnalysis:
         cats = copy.copy(self.dh.metrics['Category'])
         results = self.model.WH if results is None else results
         residuals = self.dh.input_data_df - results
-        scaled_residuals = residuals / self.dh.uncertainty_data
+        scaled_residuals = residuals / self.dh.uncertainty_data_df
         for feature_idx, x_label in enumerate(self.dh.features):
             observed_data = self.dh.input_data_df[x_label]
             predicted_data = results[:, feature_idx]
-- 
2.43.0


From c22a7f7b17540c4fba61f7c5552e76f4e27fc73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:09 +0000
Subject: [PATCH 72/94] fix: the data imputer finds scikit-learn

---
 esat/data/impute.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index 99c5de0..8d59927 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -6,6 +6,7 @@ import numpy as np
 from esat.data.datahandler import DataHandler
 
 try:
+    import sklearn
     from sklearn.experimental import enable_iterative_imputer
     from sklearn.impute import SimpleImputer, KNNImputer, IterativeImputer
 except ImportError:
-- 
2.43.0


From 24f18f77ab3ab5be85288eaa2352c115d057d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 73/94] fix: the estimated plots of a model compare with the
 samples of the model

---
 esat/data/analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index a9de871..41c20d9 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -302,7 +302,7 @@ class ModelAnalysis:
         if self.V_prime_plot is None:
             self.aggregate_factors_for_plotting()
 
-        observed_data = self.dh.input_data_plot[feature]
+        observed_data = self.dh.input_data_df[feature]
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
 
         # Perform regression
@@ -368,11 +368,11 @@ class ModelAnalysis:
         if self.V_prime_plot is None:
             self.aggregate_factors_for_plotting()
 
-        observed_data = self.dh.input_data_plot[feature].values
+        observed_data = self.dh.input_data_df[feature].values
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
 
         data_df = pd.DataFrame(data={"observed": observed_data, "predicted": predicted_data},
-                               index=self.dh.input_data_plot.index)
+                               index=self.dh.input_data_df.index)
         data_df.index = pd.to_datetime(data_df.index)
         data_df = data_df.sort_index()
         data_df = data_df.resample(min_timestep(data_df)).mean()
-- 
2.43.0


From 15bf63d1dd70adf224ab65115376befed14d8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 74/94] fix: run-error and run-constrained use the data set of
 the base model

---
 esat/cli/esat_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/esat/cli/esat_cli.py b/esat/cli/esat_cli.py
index 4241ec9..31da913 100644
--- a/esat/cli/esat_cli.py
+++ b/esat/cli/esat_cli.py
@@ -749,6 +749,7 @@ def run_error(project_directory, disp, bs, bsdisp):
     e_config = get_config(project_directory=project_directory, error=True)
 
     dh = get_dh(**config["data"])
+    dh.get_data()
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
     error_dir = os.path.join(project_directory, "error")
@@ -942,6 +943,7 @@ def run_constrained(project_directory):
     c_config = get_config(project_directory=project_directory, constrained=True)
 
     dh = get_dh(**config["data"])
+    dh.get_data()
 
     batch_pkl = os.path.join(project_directory, "output", f"{config['project']['name']}.pkl")
     sa_models = BatchSA.load(file_path=batch_pkl)
-- 
2.43.0


From dd6b90789f68d5dd430da5000827c57b358159e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 75/94] fix: the constrained model plots show the features and
 samples of the model

---
 esat/rotational/constrained.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/esat/rotational/constrained.py b/esat/rotational/constrained.py
index b2f7f23..327d4f2 100644
--- a/esat/rotational/constrained.py
+++ b/esat/rotational/constrained.py
@@ -1007,14 +1007,14 @@ class ConstrainedModel:
         i_W = self.constrained_model.W[:, factor_idx]
 
         b_norm_contr = b_W / b_W.mean()
-        b_data_df =  copy.copy(self.dh.input_data)
+        b_data_df =  copy.copy(self.dh.input_data_df)
         b_data_df[factor_label] = b_norm_contr
         b_data_df.index = pd.to_datetime(b_data_df.index)
         b_data_df = b_data_df.sort_index()
         b_data_df = b_data_df.resample(min_timestep(b_data_df)).mean()
 
         i_norm_contr = i_W / i_W.mean()
-        i_data_df =  copy.copy(self.dh.input_data)
+        i_data_df =  copy.copy(self.dh.input_data_df)
         i_data_df[factor_label] = i_norm_contr
         i_data_df.index = pd.to_datetime(i_data_df.index)
         i_data_df = i_data_df.sort_index()
@@ -1137,7 +1137,7 @@ class ConstrainedModel:
             feature_idx = feature_idx - 1
         else:
             feature_idx = 0
-        x_label = self.dh.input_data.columns[feature_idx]
+        x_label = self.dh.input_data_df.columns[feature_idx]
         factors_data = self.constrained_model.H
         normalized_factors_data = 100 * (factors_data / factors_data.sum(axis=0))
 
@@ -1162,7 +1162,7 @@ class ConstrainedModel:
         normalized_factors_contr = 100 * (factors_contr / factors_contr.sum(axis=0))
         factor_labels = [f"Factor {i}" for i in range(1, normalized_factors_contr.shape[1] + 1)]
         contr_df = pd.DataFrame(normalized_factors_contr, columns=factor_labels)
-        contr_df.index = pd.to_datetime(self.dh.input_data.index)
+        contr_df.index = pd.to_datetime(self.dh.input_data_df.index)
         contr_df = contr_df.sort_index()
         contr_df = contr_df.resample(min_timestep(contr_df)).mean()
 
-- 
2.43.0


From 2ff05a5923063813fbb3ae3067f42c57b810cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:05 +0000
Subject: [PATCH 76/94] fix: the imputed data keep the labels of the data

---
 esat/data/impute.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index 8d59927..51594c0 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -33,6 +33,9 @@ class DataImputer:
         self.imputed_data = None
         self.imputed_uncertainty = None
 
+        self.columns = None
+        self.index = None
+
         self.strategy = None
         self.missing_value = missing_value
 
@@ -54,8 +57,10 @@ class DataImputer:
             return
         self.strategy = strategy
         logger.info(f"Imputing missing values using strategy: {strategy}")
+        self.columns = self.data_handler.input_data.columns
+        self.index = self.data_handler.input_data.index
         V = self.data_handler.input_data.values
-        U = self.data_handler.uncertainty_data
+        U = self.data_handler.uncertainty_data.values
         if self.missing_value is not None:
             V = np.where(V == self.missing_value, np.nan, V)
             U = np.where(U == self.missing_value, np.nan, U)
@@ -96,8 +101,8 @@ class DataImputer:
         imputer2 = SimpleImputer(strategy=strategy, missing_values=np.nan)
         imputed_data = imputer.fit_transform(V)
         imputed_uncertainty = imputer2.fit_transform(U)
-        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)
-        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)
+        self.imputed_data = pd.DataFrame(imputed_data, columns=self.columns, index=self.index)
+        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=self.columns, index=self.index)
         return self.imputed_data, self.imputed_uncertainty
 
     def _run_knn_imputer(self, V, U, n_neighbors=5, weights='uniform'):
@@ -114,8 +119,8 @@ class DataImputer:
         imputer2 = KNNImputer(n_neighbors=n_neighbors, weights=weights, missing_values=np.nan)
         imputed_data = imputer.fit_transform(V)
         imputed_uncertainty = imputer2.fit_transform(U)
-        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)
-        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)
+        self.imputed_data = pd.DataFrame(imputed_data, columns=self.columns, index=self.index)
+        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=self.columns, index=self.index)
         return self.imputed_data, self.imputed_uncertainty
 
     def _run_iterative_imputer(self, V, U, max_iter=10, tol=1e-3):
@@ -132,6 +137,6 @@ class DataImputer:
         imputer2 = IterativeImputer(max_iter=max_iter, tol=tol, random_state=self.random_seed, missing_values=np.nan)
         imputed_data = imputer.fit_transform(V)
         imputed_uncertainty = imputer2.fit_transform(U)
-        self.imputed_data = pd.DataFrame(imputed_data, columns=U.columns, index=U.index)
-        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=U.columns, index=U.index)
+        self.imputed_data = pd.DataFrame(imputed_data, columns=self.columns, index=self.index)
+        self.imputed_uncertainty = pd.DataFrame(imputed_uncertainty, columns=self.columns, index=self.index)
         return self.imputed_data, self.imputed_uncertainty
-- 
2.43.0


From 18bdb498d5bfc7f5e99b1263a0199019f082615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 77/94] fix: the RMSE of a feature is the root of its mean
 squared residual

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 41c20d9..ee74920 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -101,7 +101,7 @@ class ModelAnalysis:
             c_var = round(float(V[:, column_i].var()), 4)
             est_mean = round(float(est_V[:, column_i].mean()), 4)
             est_var = round(float(est_V[:, column_i].var()), 4)
-            c_rmse = round(np.sqrt(np.sum((V[:, column_i] - est_V[:, column_i]) ** 2)) / 14, 4)
+            c_rmse = round(float(np.sqrt(np.mean((V[:, column_i] - est_V[:, column_i]) ** 2))), 4)
             feature_mean.append(c_mean)
             feature_var.append(c_var)
             est_means.append(est_mean)
-- 
2.43.0


From 7c5ede9ecf75d88040ee17f537fc4befa04d624a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 78/94] fix: only the features of the data are imputed

---
 esat/data/impute.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/esat/data/impute.py b/esat/data/impute.py
index 51594c0..afd5eb3 100644
--- a/esat/data/impute.py
+++ b/esat/data/impute.py
@@ -57,10 +57,10 @@ class DataImputer:
             return
         self.strategy = strategy
         logger.info(f"Imputing missing values using strategy: {strategy}")
-        self.columns = self.data_handler.input_data.columns
+        self.columns = self.data_handler._feature_columns()
         self.index = self.data_handler.input_data.index
-        V = self.data_handler.input_data.values
-        U = self.data_handler.uncertainty_data.values
+        V = self.data_handler.input_data[self.columns].values
+        U = self.data_handler.uncertainty_data[self.columns].values
         if self.missing_value is not None:
             V = np.where(V == self.missing_value, np.nan, V)
             U = np.where(U == self.missing_value, np.nan, U)
-- 
2.43.0


From b72e9bdb675bac5066bf7554774bfdaab644d7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 79/94] fix: compiling bootstrap results does not modify the
 models of the runs

---
 esat/error/bootstrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/error/bootstrap.py b/esat/error/bootstrap.py
index 79af0c4..f96b3a2 100644
--- a/esat/error/bootstrap.py
+++ b/esat/error/bootstrap.py
@@ -561,7 +561,7 @@ class Bootstrap:
         for i in range(self.factors):
             factor_results = []
             for j_k, j_v in self.bs_results.items():
-                Hi = j_v["model"].H[i]
+                Hi = j_v["model"].H[i].copy()
                 Hi[Hi < 1e-8] = 0.0
                 Hi = np.round(Hi, 4)
                 factor_results.append(list(Hi))
-- 
2.43.0


From 608971b13d147feaff1605d0adb77d2453192c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 80/94] fix: the factor catalog counts every model

---
 eval/factor_catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index e92e3b9..82e2dc6 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -285,7 +285,7 @@ class FactorCatalog:
             Display the results.
 
         """
-        if self.model_count < model_index:
+        if self.model_count <= model_index:
             self.model_count = model_index+1
         add_new = False
         if self.idx == 0:
-- 
2.43.0


From 8b152cf2866bd0750134d4983316b449223b205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 81/94] fix: adding a batch with a failed model to a factor
 catalog

---
 eval/factor_catalog.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 82e2dc6..813847a 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -331,12 +331,15 @@ class FactorCatalog:
         if self.exclude_outliers:
             loss_list = []
             for model in batch_results.results:
-                loss_list.append(model.Qtrue)
-            loss_min = np.min(loss_list)
+                if model is not None:
+                    loss_list.append(model.Qtrue)
+            loss_min = np.nanmin(loss_list) if len(loss_list) > 0 else np.nan
             logger.info(f"Excluding models with loss greater than {np.round(loss_min * self.outlier_threshold, 4)}")
         new_factors = []
         for i in tnrange(len(batch_results.results), desc="Analyzing Models", leave=True):
             model = batch_results.results[i]
+            if model is None:
+                continue
             if self.exclude_outliers:
                 if model.Qtrue > loss_min * self.outlier_threshold:
                     continue
-- 
2.43.0


From af84c663cb0b9ae1169b31503db91fb519daeffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 82/94] fix: compare_factor finds the closest factor with raae

---
 eval/factor_catalog.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 813847a..21ae449 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -391,7 +391,7 @@ class FactorCatalog:
             The correlation of the most correlated factor in the catalog
         """
         best_factor = None
-        best_corr = 0.0
+        best_corr = 1.0 if self.method == "raae" else 0.0
         for f_label in tqdm(self.factors.keys(), desc="Comparing Cataloged Factors", leave=True):
             f = self.factors[f_label]
             corr_list = []
@@ -399,7 +399,8 @@ class FactorCatalog:
                 corr = f.check(H_j=fi[0], W_j=fi[1], profile_only=len(fi[1]) != f.samples)
                 corr_list.append(corr)
             mean_corr = np.mean(corr_list)
-            if mean_corr > best_corr:
+            # the relative error of the method raae is better the lower it is
+            if mean_corr < best_corr if self.method == "raae" else mean_corr > best_corr:
                 best_corr = mean_corr
                 best_factor = f_label
         return best_factor, best_corr
-- 
2.43.0


From 40c5d80c8d8ebe67b73fa2a33d6cef53417cc0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 83/94] fix: split_locations keeps the samples without a
 location

---
 esat/data/datahandler.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 9d8ed45..781d547 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -180,21 +180,24 @@ class DataHandler:
             for col in self.loc_cols:
                 rounded_input[col] = rounded_input[col].round(5)
                 rounded_uncertainty[col] = rounded_uncertainty[col].round(5)
-            locations = rounded_input[self.loc_cols].drop_duplicates()
         else:
             rounded_input = self.input_data
             rounded_uncertainty = self.uncertainty_data
-            locations = self.input_data[self.loc_cols].drop_duplicates()
+        # the samples without a location are a location of their own
+        locations = rounded_input[self.loc_cols]
+        locations = locations.where(locations.notna(), np.nan).drop_duplicates()
 
         data_handlers = []
 
         for _, loc in locations.iterrows():
             if set(self.loc_cols) == {"latitude", "longitude"}:
-                loc_filter = (rounded_input[self.loc_cols].round(5) == loc.values).all(axis=1)
+                rounded_loc = rounded_input[self.loc_cols].round(5)
+                loc_filter = ((rounded_loc == loc.values) | (rounded_loc.isna() & pd.isna(loc.values))).all(axis=1)
                 input_data_loc = self.input_data[loc_filter]
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
             else:
-                loc_filter = (self.input_data[self.loc_cols] == loc.values).all(axis=1)
+                loc_data = self.input_data[self.loc_cols]
+                loc_filter = ((loc_data == loc.values) | (loc_data.isna() & pd.isna(loc.values))).all(axis=1)
                 input_data_loc = self.input_data[loc_filter]
                 uncertainty_data_loc = self.uncertainty_data[loc_filter]
 
-- 
2.43.0


From 89ebc2766c78f76ea832f3f0c360aa480b592e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 84/94] fix: a factor can join its best group in a catalogue at
 any threshold

---
 eval/factor_catalog.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index 21ae449..b2af454 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -228,7 +228,7 @@ class FactorCatalog:
             The correlation of the best factor in the catalog
         """
         best_factor = None
-        best_corr = 1.0 if self.method == "raae" else 0.0
+        best_corr = np.inf if self.method == "raae" else 0.0
         for f_label, f in self.factors.items():
             corr = f.check(H_i, W_i, profile_only)
             if self.method == "raae":
@@ -287,10 +287,9 @@ class FactorCatalog:
         """
         if self.model_count <= model_index:
             self.model_count = model_index+1
-        add_new = False
-        if self.idx == 0:
-            add_new = True
         best_factor, best_corr = self.check_factor(H_i=H_i, W_i=W_i, profile_only=profile_only)
+        # a factor that agrees with none of the catalog starts a new one
+        add_new = best_factor is None
         if self.method == "raae":
             if best_corr > self.threshold:
                 add_new = True
@@ -391,7 +390,7 @@ class FactorCatalog:
             The correlation of the most correlated factor in the catalog
         """
         best_factor = None
-        best_corr = 1.0 if self.method == "raae" else 0.0
+        best_corr = np.inf if self.method == "raae" else 0.0
         for f_label in tqdm(self.factors.keys(), desc="Comparing Cataloged Factors", leave=True):
             f = self.factors[f_label]
             corr_list = []
-- 
2.43.0


From e3daad8d781eaf6f6dc710b34f2dff4985c6938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:04 +0000
Subject: [PATCH 85/94] fix: a factor added after an interrupted addition
 overwrites no factor

---
 eval/factor_catalog.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eval/factor_catalog.py b/eval/factor_catalog.py
index b2af454..4233f62 100644
--- a/eval/factor_catalog.py
+++ b/eval/factor_catalog.py
@@ -301,6 +301,7 @@ class FactorCatalog:
             if verbose:
                 logger.info(f"New Factor: {self.idx}, Model: {model_index}, Method: {self.method}, "
                             f"Best CORR: {best_corr}")
+            self.idx = len(self.factors)    # also when an earlier addition was interrupted
             new_factor = Factor(name=str(self.idx), profile=H_i, contribution=W_i, model_idx=model_index,
                                 method=self.method, threshold=self.threshold)
             self.factors[self.idx] = new_factor
-- 
2.43.0


From 7a51fb5c059c372fb56a11eb8f6669838c3a02bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 86/94] fix: the estimates of a model are plotted for any
 number of samples

---
 esat/data/analysis.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index ee74920..296205c 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -64,9 +64,8 @@ class ModelAnalysis:
             # Use DataHandler's aggregation for consistent plotting
             agg_df = self.dh.aggregate_output(V_prime_k)
             factor_agg[k] = agg_df
-        # sum of aggregated factors, into v_prime (same dimensions as V)
-        factor_vprime = sum([agg_df.values for agg_df in factor_agg.values()])
-        factor_vprime = pd.DataFrame(factor_vprime, columns=self.dh.input_data_df.columns,
+        # sum of the factors, into v_prime (same dimensions as V)
+        factor_vprime = pd.DataFrame(np.matmul(W, H), columns=self.dh.input_data_df.columns,
                                      index=self.dh.input_data_df.index)
         self.V_prime_plot = factor_vprime
         self.V_prime_k = factor_agg
-- 
2.43.0


From 1499c6978e6f26cf24e14c741f3a176e14a01336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:48 +0000
Subject: [PATCH 87/94] fix: the estimates plotted are those of the model as it
 is now

---
 esat/data/analysis.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 296205c..d2f5684 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -298,8 +298,7 @@ class ModelAnalysis:
         else:
             logger.info("Either feature_idx or feature_name must be provided.")
             return None
-        if self.V_prime_plot is None:
-            self.aggregate_factors_for_plotting()
+        self.aggregate_factors_for_plotting()
 
         observed_data = self.dh.input_data_df[feature]
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
@@ -364,8 +363,7 @@ class ModelAnalysis:
             logger.info("Either feature_idx or feature_name must be provided.")
             return None
 
-        if self.V_prime_plot is None:
-            self.aggregate_factors_for_plotting()
+        self.aggregate_factors_for_plotting()
 
         observed_data = self.dh.input_data_df[feature].values
         predicted_data = self.V_prime_plot.iloc[:, feature_idx]
-- 
2.43.0


From 7014f44f2840a6b7b0e08ab8cbd061d002cdeeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 88/94] fix: a model that is not part of a batch can be plotted

---
 esat/data/analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index d2f5684..925c47e 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -40,7 +40,8 @@ class ModelAnalysis:
         """
         self.dh = datahandler
         self.model = model
-        self.selected_model = selected_model
+        # a model that is not part of a batch is labelled as the first
+        self.selected_model = selected_model if selected_model is not None else 0
         self.statistics = None
         self.residual_metrics = None
         self.V_prime_k = None
-- 
2.43.0


From 3fdfc7e2db1812328f7f61b3bbf2b00fc715b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 89/94] fix: plot_all_factors_3d shows concentrations and
 percentages

---
 esat/data/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 925c47e..7636234 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -638,7 +638,7 @@ class ModelAnalysis:
         # Add 3D bar graphs for "Conc. of Features"
         if plot_type.lower() in ["conc", "both"]:
             fig.add_trace(_create_mesh3d(conc_z, "Conc. of Features"))
-        else:
+        if plot_type.lower() != "conc":
             # Add 3D bar graphs for "% of Features"
             fig.add_trace(_create_mesh3d(percent_z, "% of Features"))
         if plot_type.lower() == "both":
-- 
2.43.0


From 79c2e362d37f8185530240614444dd4ff5012409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 90/94] fix: plot_temporal_residuals shows each model's own
 residuals

---
 esat/data/analysis.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/esat/data/analysis.py b/esat/data/analysis.py
index 7636234..37d3054 100644
--- a/esat/data/analysis.py
+++ b/esat/data/analysis.py
@@ -1002,22 +1002,26 @@ class BatchAnalysis:
 
         if self.data_handler is None:
             V = self.batch_sa.V
-            V_primes = [r.WH for r in self.batch_sa.results if r is not None]
+            V_primes = [r.WH if r is not None else None for r in self.batch_sa.results]
             features = [f"Feature {i + 1}" for i in range(V.shape[1])]
             x = list(range(1, V.shape[0] + 1))
             feature_label = features[feature_idx]
             col_idx = feature_idx
         else:
-            V = self.data_handler.input_data_plot.values
-            if len(self.aggregated_output) == 0:
-                for i, r in enumerate(self.batch_sa.results):
-                    if r is not None:
-                        self.aggregated_output[i] = self.data_handler.aggregate_output(r.WH)
+            # the samples and features of the models, averaged over successive samples if there are too many to plot
+            data = self.data_handler.input_data_df
+            n = min(len(data), self.data_handler.max_plotting_n)
+            groups = np.arange(len(data)) * n // len(data)
+            V = data.groupby(groups).mean().values
+            self.aggregated_output = {}
+            for i, r in enumerate(self.batch_sa.results):
+                if r is not None:
+                    self.aggregated_output[i] = pd.DataFrame(r.WH, columns=data.columns).groupby(groups).mean()
             # Ensure V_primes is a list, not a dict
             V_primes = [self.aggregated_output.get(i, None) for i in range(len(self.batch_sa.results))]
             feature_label = self.data_handler.features[feature_idx]
             col_idx = feature_idx
-            x = self.data_handler.input_data_plot.index
+            x = data.index[np.unique(groups, return_index=True)[1]]
 
         temporal_fig = go.Figure()
         # Add input trace
-- 
2.43.0


From a6995ab3e2db1a104f6cb73c6746bc53279d448a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 91/94] fix: plot_feature_timeseries selects features by their
 number

---
 esat/data/datahandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 781d547..4e4cac1 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -672,7 +672,7 @@ class DataHandler:
 
         """
         if type(feature_selection) is int:
-            feature_selection = feature_selection % self.input_data_plot.shape[0]
+            feature_selection = feature_selection % self.input_data_plot.shape[1]
             feature_selection = self.input_data_plot.columns[feature_selection]
             feature_label = [feature_selection]
         else:
-- 
2.43.0


From 681e4124bc8b12c9a0df50656cf3ecbb993556ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 92/94] fix: samples of the same time or without dates can be
 plotted over time

---
 esat/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/esat/utils.py b/esat/utils.py
index a191ef3..2bc8ee9 100644
--- a/esat/utils.py
+++ b/esat/utils.py
@@ -75,8 +75,12 @@ def min_timestep(data: pd.DataFrame):
         Minimum timestep.
     """
     time_delta = data.index[1: -1] - data.index[0:-2]
+    # several samples can have the same time
+    time_delta = time_delta[time_delta > pd.Timedelta(0)]
     if time_delta.min().days >= 1:
         resample = f"{int(time_delta.min().days)}D"
+    elif time_delta.min().days == 0 and time_delta.min().seconds == 0:
+        resample = f"{time_delta.min().value}ns"
     elif time_delta.min().seconds < 60:
         resample = f"{time_delta.min().seconds}s"
     elif time_delta.min().seconds < 60 * 60:
-- 
2.43.0


From 7fac094e6ecda038c0f7458214685557a3698afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:51 +0000
Subject: [PATCH 93/94] fix: the comparison of the first model can be plotted

---
 eval/simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eval/simulator.py b/eval/simulator.py
index 22a84f8..dde8317 100644
--- a/eval/simulator.py
+++ b/eval/simulator.py
@@ -380,7 +380,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
@@ -458,7 +458,7 @@ class Simulator:
         if self.batch_sa is None:
             logger.error("A batch source apportionment must be completed and compared before plotting.")
             return
-        if not model_i:
+        if model_i is None:
             model_i = self.factor_compare.best_model
 
         factor_compare = self.factor_compare.model_results[model_i]
-- 
2.43.0


From 9c6046e025cc215d7effc1702abbfd9b6cb22472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 94/94] fix: plots of several features above the plotting limit
 show values of the same samples

---
 esat/data/datahandler.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/esat/data/datahandler.py b/esat/data/datahandler.py
index 4e4cac1..4587076 100644
--- a/esat/data/datahandler.py
+++ b/esat/data/datahandler.py
@@ -517,6 +517,25 @@ class DataHandler:
                 agg_output[col] = output_df[col]
         return pd.DataFrame(agg_output)
 
+    def _samples_to_plot(self):
+        """
+        The features of the samples, averaged over successive samples if there are more than max_plotting_n. The values
+        of a row are those of the same samples, unlike in input_data_plot where the samples of each feature are
+        aggregated by their values.
+
+        Returns
+        -------
+        pd.DataFrame
+            The features of the samples to plot.
+        """
+        data = self.input_data[self._feature_columns()]
+        if len(data) > self.max_plotting_n:
+            groups = np.arange(len(data)) * self.max_plotting_n // len(data)
+            index = data.index[np.unique(groups, return_index=True)[1]]
+            data = data.groupby(groups).mean()
+            data.index = index
+        return data
+
     def plot_data_uncertainty(self, show: bool = True, include_menu: bool = True, feature_idx: int = None):
         """
         Create a plot of the data vs the uncertainty for a specified feature, with a dropdown menu for feature selection.
@@ -602,8 +621,9 @@ class DataHandler:
             return
         y_label = self.input_data_plot.columns[y_idx]
 
-        x_data = self.input_data_plot[x_label]
-        y_data = self.input_data_plot[y_label]
+        samples = self._samples_to_plot()
+        x_data = samples[x_label]
+        y_data = samples[y_label]
 
         # Filter out NaN and infinite values
         mask = (~np.isnan(x_data)) & (~np.isnan(y_data)) & np.isfinite(x_data) & np.isfinite(y_data)
@@ -681,7 +701,7 @@ class DataHandler:
             else:
                 feature_label = [feature_selection]
 
-        data_df = copy.copy(self.input_data_plot)
+        data_df = copy.copy(self._samples_to_plot())
         data_df.index = pd.to_datetime(data_df.index)
         data_df = data_df.dropna()
         data_df.index = pd.to_datetime(data_df.index)
@@ -724,7 +744,8 @@ class DataHandler:
         plotly.graph_objects.Figure
             The Plotly heatmap figure.
         """
-        corr = self.input_data_plot.corr(method=method)
+        # of all samples
+        corr = self.input_data[self._feature_columns()].corr(method=method)
         fig = go.Figure(
             data=go.Heatmap(
                 z=corr.values,
@@ -799,9 +820,10 @@ class DataHandler:
         Plotly.graph_objects.Figure
             The Plotly figure object containing the 2D histogram.
         """
+        samples = self._samples_to_plot()
         fig = go.Figure(data=go.Histogram2d(
-            x=self.input_data_plot[x_col],
-            y=self.input_data_plot[y_col],
+            x=samples[x_col],
+            y=samples[y_col],
             nbinsx=nbins,
             nbinsy=nbins,
             colorscale='Blues'
-- 
2.43.0

