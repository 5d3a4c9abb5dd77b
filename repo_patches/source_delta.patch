From caee44b0575822d3fed811175d28fc4b26943ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 01/26] fix: pass the threshold to the truncated gamma CDF in
 worker processes

---
 PyAnEn/utils_dist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index 06c57e5..dafb20e 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -52,7 +52,7 @@ def wrapper_gamma_cdf(x):
 def wrapper_truncgamma_rvs(x, n_sample_members):
     return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
-- 
2.43.0


From 387ce34b2bbadb3ee41db3264afbd35a0af5ff1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 02/26] fix: rank histogram with NaN skipping used the removed
 alias np.float

---
 PyAnEn/utils_verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index d9663b3..5e3ac6e 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -84,7 +84,7 @@ def rank_histogram(f, o, ensemble_axis):
         obs_ranks = np.concatenate(ranks, axis=parallelize_axis)
     
     if util.strtobool(os.environ['pyanen_skip_nan']):
-        obs_ranks = obs_ranks.astype(np.float)
+        obs_ranks = obs_ranks.astype(float)
         obs_ranks[final_mask] = np.nan
         
     return obs_ranks
-- 
2.43.0


From 6ed52778f8bbda0d1d603c48d523a39f737df2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 03/26] fix: randomise ties also when every observation is tied

---
 PyAnEn/utils_verify.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 5e3ac6e..86c287d 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -38,7 +38,10 @@ def rankdata(x):
     unique_tie = unique_tie[~np.isnan(unique_tie)]
     
     # For ties, randomly decide which bin the observation should go to
-    for i in range(1, len(unique_tie)):
+    for i in range(len(unique_tie)):
+        
+        # Nothing to decide without ties
+        if unique_tie[i] == 0: continue
         
         index = obs_ranks[ties == unique_tie[i]]
         obs_ranks[ties == unique_tie[i]] = [np.random.randint(index[j], index[j] + unique_tie[i] + 1, unique_tie[i])[0] 
-- 
2.43.0


From 8fdf936cc2d95f0fc39c0d0401bc9e92a4e28420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 04/26] fix: collapse ensembles again after changing the
 ensemble axis or collapse function

---
 PyAnEn/VerifyEnsemble.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyAnEn/VerifyEnsemble.py b/PyAnEn/VerifyEnsemble.py
index 4a32bda..751abac 100644
--- a/PyAnEn/VerifyEnsemble.py
+++ b/PyAnEn/VerifyEnsemble.py
@@ -55,11 +55,13 @@ class VerifyEnsemble(Verify):
     def set_ensemble_axis(self, axis):
         self.ensemble_axis = axis
         self._validate()
+        self._collapse_ensembles()
         return self
     
     def set_collapse_func(self, func):
         self.ensemble_collapse_func = func
         self._validate()
+        self._collapse_ensembles()
         return self
     
     ###################
-- 
2.43.0


From fa2caa5d37faa7f097def6d4dc4f77a4512fdd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 05/26] fix: reduce sampled ensembles along the requested
 member axis

---
 PyAnEn/VerifyProb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyAnEn/VerifyProb.py b/PyAnEn/VerifyProb.py
index 749eae1..3768294 100644
--- a/PyAnEn/VerifyProb.py
+++ b/PyAnEn/VerifyProb.py
@@ -103,14 +103,14 @@ class VerifyProb(Verify):
         
         else:
             # Use random sampling
-            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=-1)
+            return rank_histogram(f=self.prob_to_ens(), o=self.o, ensemble_axis=self.move_sampled_ens_axis)
     
     def _spread(self):
         ens = self.prob_to_ens()
         if util.strtobool(os.environ['pyanen_skip_nan']):
-            return np.nanmax(ens, axis=-1) - np.nanmin(ens, axis=-1)
+            return np.nanmax(ens, axis=self.move_sampled_ens_axis) - np.nanmin(ens, axis=self.move_sampled_ens_axis)
         else:
-            return np.max(ens, axis=-1) - np.min(ens, axis=-1)
+            return np.max(ens, axis=self.move_sampled_ens_axis) - np.min(ens, axis=self.move_sampled_ens_axis)
     
     def _brier(self, over, below):
         brier = self.cdf(over=over, below=below) - binarize_obs(self.o, over=over, below=below)
-- 
2.43.0


From 5b396265247ffc2935ca39c46f05eca24db96796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 06/26] fix: gamma CRPS overflowed to NaN for sharp forecasts

---
 PyAnEn/utils_crps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_crps.py b/PyAnEn/utils_crps.py
index ed8541e..8ca676a 100644
--- a/PyAnEn/utils_crps.py
+++ b/PyAnEn/utils_crps.py
@@ -23,8 +23,8 @@ from scipy import stats, special
 
 
 def _lbeta(x1, x2):
-    log_prod_gamma_x = np.log(special.gamma(x1)) + np.log(special.gamma(x2))
-    log_gamma_sum_x = np.log(special.gamma(x1 + x2))
+    log_prod_gamma_x = special.gammaln(x1) + special.gammaln(x2)
+    log_gamma_sum_x = special.gammaln(x1 + x2)
     return log_prod_gamma_x - log_gamma_sum_x
 
 
-- 
2.43.0


From 51436e69bfc7303028824159b02027040eaa22f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 07/26] fix: compare the rank histogram with the uniform one in
 the reliability index

---
 PyAnEn/Verify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index d754b91..999e4aa 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -94,7 +94,7 @@ class Verify:
         if freqs_sum != 1:
             freqs = freqs / freqs_sum
             
-        return np.sum(np.abs(freqs - 1 / np.arange(2, len(freqs) + 2)))
+        return np.sum(np.abs(np.asarray(freqs) - 1 / len(freqs)))
     
     ##########################
     # Postprocessing Methods #
-- 
2.43.0


From a33bc89e21a24800c67a68474fd2ac696b9d269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 08/26] fix: binned spread-skill sorted the caller's arrays in
 place

---
 PyAnEn/utils_ss.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 7d0505a..63d6ef5 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -67,7 +67,9 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     variance = variance.reshape(-1, np.prod(shape_to_keep).astype(int))
     sq_error = sq_error.reshape(-1, np.prod(shape_to_keep).astype(int))
     
-    # Sort arrays based on variance 
+    # Sort copies of the arrays based on variance
+    variance, sq_error = np.copy(variance), np.copy(sq_error)
+    
     for i in range(variance.shape[1]):
         index_sort = np.argsort(variance[:, i])
         variance[:, i] = variance[index_sort, i]
-- 
2.43.0


From 91e9f3465e874a4159f28df00c55d23108a9d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:52 +0000
Subject: [PATCH 09/26] fix: handle negative averaging axes in bootstrapping,
 reliability, spread-skill and correlation

---
 PyAnEn/utils_special_boot.py | 2 +-
 PyAnEn/utils_ss.py           | 2 +-
 PyAnEn/utils_verify.py       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 4a33af7..25cfb7d 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -152,7 +152,7 @@ def _workflow(f, o, func_name, func, avg_axis=None, n_samples=None, repeats=None
     desc = func_name + ('' if n_samples is None else ' with boostrapping')
     
     if avg_axis is None: avg_axis = list(range(len(o.shape)))
-    else: avg_axis = list(avg_axis)
+    else: avg_axis = [axis % len(o.shape) for axis in avg_axis]
     
     # Calculate the output shape indices
     out_shape = list(set(range(len(o.shape))) - set(avg_axis))
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 63d6ef5..59a44cd 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -55,7 +55,7 @@ def _binned_spread_skill_create_split(variance, sq_error, nbins, sample_axis):
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in sorted(axis % len(variance.shape) for axis in sample_axis):
         if from_axis != to_axis:
             variance = np.moveaxis(variance, from_axis, to_axis)
             sq_error = np.moveaxis(sq_error, from_axis, to_axis)
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 86c287d..15e977b 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -264,7 +264,7 @@ def boot_arr(metric, sample_axis, n_samples=None, repeats=None, confidence=None)
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in sorted(axis % len(metric.shape) for axis in sample_axis):
         if from_axis != to_axis:
             metric = np.moveaxis(metric, from_axis, to_axis)
         to_axis += 1
@@ -307,7 +307,7 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     # Move sample axis to the beginning
     to_axis = 0
 
-    for from_axis in np.sort(sample_axis):
+    for from_axis in sorted(axis % len(o_binary.shape) for axis in sample_axis):
         if from_axis != to_axis:
             f_prob = np.moveaxis(f_prob, from_axis, to_axis)
             o_binary = np.moveaxis(o_binary, from_axis, to_axis)
-- 
2.43.0


From 74882f9c8ec98be01dc995e8ee23747e7680ea7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:13 +0000
Subject: [PATCH 10/26] fix: reliability failed when kept slices populate
 different bins

---
 PyAnEn/utils_verify.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 15e977b..e5f076e 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -326,6 +326,18 @@ def _reliability_create_split(f_prob, o_binary, nbins, sample_axis=None):
     return binids, f_prob, o_binary, bins
 
 
+def _reliability_stack_slices(slices, shape_to_keep):
+    
+    # Slices populating the same number of bins form a regular array with [dimensions to be kept, bins, ...]
+    if len(set(s.shape for s in slices)) == 1:
+        return np.array(slices).reshape(*shape_to_keep, *slices[0].shape)
+    
+    # Otherwise, keep one array for each slice
+    ret = np.empty(len(slices), dtype=object)
+    for i, s in enumerate(slices): ret[i] = s
+    return ret.reshape(shape_to_keep)
+
+
 def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins):
 
     bin_sums = np.bincount(binids, weights=y_prob, minlength=len(bins))
@@ -377,10 +389,10 @@ def _reliability_agg_no_boot(binids, y_prob, y_true, bins):
             true_counts.append(true_count.to_numpy())
 
         # Reconstruct the collapsed dimensions
-        probs_pred = np.array(probs_pred).reshape(*shape_to_keep, -1)
-        probs_true = np.array(probs_true).reshape(*shape_to_keep, -1)
-        pred_counts = np.array(pred_counts).reshape(*shape_to_keep, -1)
-        true_counts = np.array(true_counts).reshape(*shape_to_keep, -1)
+        probs_pred = _reliability_stack_slices(probs_pred, shape_to_keep)
+        probs_true = _reliability_stack_slices(probs_true, shape_to_keep)
+        pred_counts = _reliability_stack_slices(pred_counts, shape_to_keep)
+        true_counts = _reliability_stack_slices(true_counts, shape_to_keep)
 
         return probs_pred, probs_true, pred_counts, true_counts
 
@@ -473,10 +485,10 @@ def _reliability_agg_boot(binids, y_prob, y_true, bins,
             true_counts.append(true_count.to_numpy())
 
         # Reconstruct the collapsed dimensions
-        probs_pred = np.array(probs_pred).reshape(*shape_to_keep, -1, 3)
-        probs_true = np.array(probs_true).reshape(*shape_to_keep, -1, 3)
-        pred_counts = np.array(pred_counts).reshape(*shape_to_keep, -1)
-        true_counts = np.array(true_counts).reshape(*shape_to_keep, -1)
+        probs_pred = _reliability_stack_slices(probs_pred, shape_to_keep)
+        probs_true = _reliability_stack_slices(probs_true, shape_to_keep)
+        pred_counts = _reliability_stack_slices(pred_counts, shape_to_keep)
+        true_counts = _reliability_stack_slices(true_counts, shape_to_keep)
 
         return probs_pred, probs_true, pred_counts, true_counts
 
-- 
2.43.0


From daf009bb46bdf7b36cd688463c5dbe716bd43c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:13 +0000
Subject: [PATCH 11/26] fix: bootstrap intervals did not have the configured
 confidence

---
 PyAnEn/utils_special_boot.py | 16 ++++++++--------
 PyAnEn/utils_ss.py           |  4 ++--
 PyAnEn/utils_verify.py       |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 25cfb7d..83acacf 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -96,18 +96,18 @@ def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_na
             uncertainty.append(ret[2])
         
         if skip_nan:
-            ci_rel = np.nanquantile(reliability, [1-confidence, confidence])
-            ci_res = np.nanquantile(resolution, [1-confidence, confidence])
-            ci_unc = np.nanquantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.nanquantile(reliability, [(1-confidence)/2, (1+confidence)/2])
+            ci_res = np.nanquantile(resolution, [(1-confidence)/2, (1+confidence)/2])
+            ci_unc = np.nanquantile(uncertainty, [(1-confidence)/2, (1+confidence)/2])
             
             return [[ci_rel[0], np.nanmean(reliability), ci_rel[1]],
                     [ci_res[0], np.nanmean(resolution), ci_res[1]],
                     [ci_unc[0], np.nanmean(uncertainty), ci_unc[1]]]
         
         else:
-            ci_rel = np.quantile(reliability, [1-confidence, confidence])
-            ci_res = np.quantile(resolution, [1-confidence, confidence])
-            ci_unc = np.quantile(uncertainty, [1-confidence, confidence])
+            ci_rel = np.quantile(reliability, [(1-confidence)/2, (1+confidence)/2])
+            ci_res = np.quantile(resolution, [(1-confidence)/2, (1+confidence)/2])
+            ci_unc = np.quantile(uncertainty, [(1-confidence)/2, (1+confidence)/2])
             
             return [[ci_rel[0], np.mean(reliability), ci_rel[1]],
                     [ci_res[0], np.mean(resolution), ci_res[1]],
@@ -131,10 +131,10 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             corr.append(np.corrcoef(f_slice[indices], o_slice[indices])[0, 1])
             
         if skip_nan:
-            ci = np.nanquantile(corr, [1-confidence, confidence])
+            ci = np.nanquantile(corr, [(1-confidence)/2, (1+confidence)/2])
             return [ci[0], np.nanmean(corr), ci[1]]
         else:
-            ci = np.quantile(corr, [1-confidence, confidence])
+            ci = np.quantile(corr, [(1-confidence)/2, (1+confidence)/2])
             return [ci[0], np.mean(corr), ci[1]]
         
 
diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 59a44cd..34a86d5 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -161,8 +161,8 @@ def _binned_spread_skill_agg_boot(arr_split, reconstruct_shape,
                     variances.append(arr[idx, 0, dim_i].mean())
                     mses.append(arr[idx, 1, dim_i].mean())
             
-            variance_ci = np.quantile(variances, [1-confidence, confidence])
-            mse_ci = np.quantile(mses, [1-confidence, confidence])
+            variance_ci = np.quantile(variances, [(1-confidence)/2, (1+confidence)/2])
+            mse_ci = np.quantile(mses, [(1-confidence)/2, (1+confidence)/2])
             
             variances_ci.append([variance_ci[0], np.mean(variances), variance_ci[1]])
             mses_ci.append([mse_ci[0], np.mean(mses), mse_ci[1]])
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index e5f076e..0bc0d35 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -425,10 +425,10 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
                     sample_probs.append(np.mean(y_prob[random_indices]))
                     sample_trues.append(np.mean(y_true[random_indices]))
 
-            ci = np.quantile(sample_probs, [1-confidence, confidence])
+            ci = np.quantile(sample_probs, [(1-confidence)/2, (1+confidence)/2])
             probs_pred.append([ci[0], np.mean(sample_probs), ci[1]])
 
-            ci = np.quantile(sample_trues, [1-confidence, confidence])
+            ci = np.quantile(sample_trues, [(1-confidence)/2, (1+confidence)/2])
             probs_true.append([ci[0], np.mean(sample_trues), ci[1]])
 
         else:
-- 
2.43.0


From e60cabedeec22b3d6953e971b9bfcb77f3e3b31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:13 +0000
Subject: [PATCH 12/26] fix: restore settings and remove the memory map when an
 integration fails

---
 PyAnEn/utils_approximation.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index a61500e..2e1d3c0 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -224,12 +224,16 @@ class Integration:
     def _workflow(self, func):
         
         self._suppress_sublevel_tqdm()
-        self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
-        ret = func()
-        self._finalize_memmap()
-        self._resume_sublevel_tqdm()
-        
-        return ret
+        ray_running = ray.is_initialized()
+        
+        # Settings and files are restored even if the integration fails
+        try:
+            self._initialize_memmap(memmap_shape=tuple([self.nbins] + list(self.verifier.o.shape)))
+            try: return func()
+            finally: self._finalize_memmap()
+        finally:
+            if ray.is_initialized() and not ray_running: ray.shutdown()
+            self._resume_sublevel_tqdm()
     
     def _initialize_memmap(self, memmap_shape):
         if self.less_memory:
-- 
2.43.0


From 184d1658d2222b9c75fb1b879a0d7f339f313feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:13 +0000
Subject: [PATCH 13/26] fix: an interrupted save left a partial result behind

---
 PyAnEn/Verify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 999e4aa..cf7848a 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -230,8 +230,12 @@ class Verify:
     def _save(self, name, arr):
         if self.working_directory and isinstance(name, str):
             path = os.path.join(self.working_directory, name + '.pkl')
-            with open(path, 'wb') as f:
+            
+            # Write a temporary file first so that an interrupted save never leaves a partial result
+            path_tmp = '{}.{}.tmp'.format(path, os.getpid())
+            with open(path_tmp, 'wb') as f:
                 pickle.dump(arr, f)
+            os.replace(path_tmp, path)
         
     def _load(self, name):
         if self.working_directory and isinstance(name, str):
-- 
2.43.0


From cc41eb2ee8034bb1d7974f9986ec32b71c60e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 14/26] fix: saved results that depend on the averaging axes
 were reused after changing them

---
 PyAnEn/Verify.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index cf7848a..875e3d9 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -59,16 +59,16 @@ class Verify:
     # Metric Methods #
     ##################
     
-    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name), self._corr)
-    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._brier_decomp, over=over, below=below)
+    def corr(self, save_name=None): return self._metric_workflow_1(self.to_name(save_name, avg_axis=self.avg_axis, boot_samples=self.boot_samples), self._corr)
+    def brier_decomp(self, over=None, below=None, save_name=None): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis, boot_samples=self.boot_samples), self._brier_decomp, over=over, below=below)
     
     def rank_hist(self, save_name='rank'): return self._metric_workflow_1(self.to_name(save_name), self._rank_hist)
     def variance(self, save_name='variance'): return self._metric_workflow_1(self.to_name(save_name), self._variance)
     def f_determ(self, save_name='f_determ'): return self._metric_workflow_1(self.to_name(save_name), self._f_determ)
     def roc(self, over=None, below=None, save_name='roc'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._roc, over=over, below=below)
     def sharpness(self, over=None, below=None, save_name='sharpness'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._sharpness, over=over, below=below)
-    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_determ, over=over, below=below)
-    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._iou_prob, over=over, below=below)
+    def iou_determ(self, over=None, below=None, save_name='iou_determ'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_determ, over=over, below=below)
+    def iou_prob(self, over=None, below=None, save_name='iou_prob'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below, avg_axis=self.avg_axis), self._iou_prob, over=over, below=below)
     def cdf(self, over=None, below=None, save_name='cdf'): return self._metric_workflow_1(self.to_name(save_name, over=over, below=below), self._cdf, over=over, below=below)
 
     def crps(self, save_name='crps'): return self._metric_workflow_2(self.to_name(save_name), self._crps)
@@ -78,8 +78,8 @@ class Verify:
     def ab_error(self, save_name='ab_error'): return self._metric_workflow_2(self.to_name(save_name), self._ab_error)
     def brier(self, over=None, below=None, save_name='brier'): return self._metric_workflow_2(self.to_name(save_name, over=over, below=below), self._brier, over=over, below=below)
     
-    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
-    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
+    def reliability(self, nbins=15, over=None, below=None, save_name='rel'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, over=over, below=below, avg_axis=self.avg_axis), self._reliability, self.post_reliability, nbins=nbins, over=over, below=below)
+    def binned_spread_skill(self, nbins=15, save_name='ss'): return self._metric_workflow_3(self.to_name(save_name, nbins=nbins, avg_axis=self.avg_axis), self._binned_spread_skill, self.post_binned_spread_skill, nbins=nbins)
 
     def rmse(self, save_name='sq_error'): return np.sqrt(self.sq_error(save_name=save_name))
     
-- 
2.43.0


From 3833fb9dde9a1bbb9fea721bca84ba4ee54a8722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 15/26] fix: saved results of thresholds differing beyond the
 printed digits were confused

---
 PyAnEn/Verify.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyAnEn/Verify.py b/PyAnEn/Verify.py
index 875e3d9..5e0d0d2 100644
--- a/PyAnEn/Verify.py
+++ b/PyAnEn/Verify.py
@@ -155,6 +155,10 @@ class Verify:
                 if isinstance(v, np.ndarray) and len(v.ravel()) > 5: return None
                 elif len(v) > 5: return None
                 
+            # Printed arrays are rounded, which could confuse different thresholds
+            if isinstance(v, (tuple, list)) and any(isinstance(e, np.ndarray) for e in v): return None
+            if isinstance(v, np.ndarray): v = v.tolist()
+            
             strs[k] = str(v).replace(' ', '_')
         
         return '_'.join([save_name] + ['{}_{}'.format(k, v) for k, v in strs.items()])
-- 
2.43.0


From 83e79e148a5f8a1e5e6c1d2e2277ab08fadb5bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 16/26] fix: kernel density probabilities could be negative or
 larger than one

---
 PyAnEn/utils_verify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 0bc0d35..e8f0d27 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -119,7 +119,8 @@ def ens_to_prob_kde(ens, bandwidth=None, kernel=None,
     if pbar is not None:
         pbar.update(1)
         
-    return np.sum(np.exp(kde.score_samples(x))) * interval
+    # The numerical integral might fall out of the valid range of probability
+    return np.clip(np.sum(np.exp(kde.score_samples(x))) * interval, 0, 1)
 
 
 def ens_to_prob_moments(ens, pbar=None):
-- 
2.43.0


From 671dd85187fe60182a43e3d39ca15316ead66478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 17/26] fix: the truncated gamma distribution ignored its
 bounds as support

---
 PyAnEn/dist_truncgamma.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyAnEn/dist_truncgamma.py b/PyAnEn/dist_truncgamma.py
index c847261..b6bc2bf 100644
--- a/PyAnEn/dist_truncgamma.py
+++ b/PyAnEn/dist_truncgamma.py
@@ -34,6 +34,9 @@ class truncgamma_gen(rv_continuous):
         self.s = s
         return (self.a >= 0.0) & (self.b > self.a)
     
+    def _get_support(self, a, b, s):
+        return a, b
+    
     def _logpdf(self, x, a):
         return sc.xlogy(a-1.0, x) - x - sc.gammaln(a)
 
-- 
2.43.0


From b50f3f9576948c5cde588f208a17da5edc1cb9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:05 +0000
Subject: [PATCH 18/26] fix: sharp truncated gamma forecasts were cut at a
 finite upper bound

---
 PyAnEn/utils_dist.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyAnEn/utils_dist.py b/PyAnEn/utils_dist.py
index dafb20e..6e4e4ff 100644
--- a/PyAnEn/utils_dist.py
+++ b/PyAnEn/utils_dist.py
@@ -50,9 +50,9 @@ def wrapper_gamma_cdf(x):
     return stats.gamma.cdf(x=x[3], a=x[0], scale=x[1], loc=x[2])
 
 def wrapper_truncgamma_rvs(x, n_sample_members):
-    return truncgamma_gen()(a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
+    return truncgamma_gen()(a=(-x[2])/x[1], b=np.inf, s=x[0], scale=x[1], loc=x[2]).rvs([n_sample_members] + list(x[0].shape))
 def wrapper_truncgamma_cdf(x):
-    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=_LARGE_NUMBER_, s=x[0], scale=x[1], loc=x[2])
+    return truncgamma_gen().cdf(x=x[3], a=(-x[2])/x[1], b=np.inf, s=x[0], scale=x[1], loc=x[2])
 
 def wrapper_gamma_hurdle_cdf(x):
     prob = 1. - x[0]
@@ -134,7 +134,7 @@ def sample_dist_gamma(unshifted_mu, sigma, shift, n_sample_members=15, move_axis
     
     if cores == 1:
         if truncated:
-            ens = truncgamma_gen()(a=(-shift)/scale, b=_LARGE_NUMBER_, s=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
+            ens = truncgamma_gen()(a=(-shift)/scale, b=np.inf, s=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
         else:
             ens = stats.gamma(a=shape, scale=scale, loc=shift).rvs([n_sample_members] + arr_shape)
         
@@ -221,7 +221,7 @@ def cdf_gamma(unshifted_mu, sigma, shift, below, truncated=False):
     
     if cores == 1:
         if truncated:
-            probs = truncgamma_gen().cdf(x=below, a=(-shift)/scale, b=_LARGE_NUMBER_, s=shape, loc=shift, scale=scale)
+            probs = truncgamma_gen().cdf(x=below, a=(-shift)/scale, b=np.inf, s=shape, loc=shift, scale=scale)
         else:
             probs = stats.gamma.cdf(x=below, a=shape, loc=shift, scale=scale)
             
-- 
2.43.0


From 14522d2227523d22c04ea764ea2d237b0f169b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:54 +0000
Subject: [PATCH 19/26] fix: opening groups of chunk files without station
 locations failed

---
 PyAnEn/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index 3de2561..e9c9b67 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -145,7 +145,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     
     # Deal with missing location variables by reading from the root group
     if 'Xs' not in ds:
-        with xr.open_mfdataset(paths=paths, preprocess=preprocess, concat_dim='num_stations',
+        with xr.open_mfdataset(paths=paths, preprocess=preprocess,
                                data_vars='minimal', coords='minimal', compat='override',
                                parallel=parallel, decode_cf=False) as ds_root:
 
-- 
2.43.0


From bf32165d0d89a2b716d416722cace111af1abe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 20/26] fix: read both station locations of chunk files from
 the root group when the group has only one of them

---
 PyAnEn/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyAnEn/IO.py b/PyAnEn/IO.py
index e9c9b67..b92aa78 100644
--- a/PyAnEn/IO.py
+++ b/PyAnEn/IO.py
@@ -144,7 +144,7 @@ def open_mfdataset(paths, group=None, parallel=True, decode=False, preprocess=__
     nc_root.close()
     
     # Deal with missing location variables by reading from the root group
-    if 'Xs' not in ds:
+    if 'Xs' not in ds or 'Ys' not in ds:
         with xr.open_mfdataset(paths=paths, preprocess=preprocess,
                                data_vars='minimal', coords='minimal', compat='override',
                                parallel=parallel, decode_cf=False) as ds_root:
-- 
2.43.0


From 8da5fac4767f8275db3f727236ee06920db22566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:18 +0000
Subject: [PATCH 21/26] fix: gamma hurdle forecasts of another shape than the
 observations were accepted and broadcast

---
 PyAnEn/VerifyProbGammaHurdle.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/PyAnEn/VerifyProbGammaHurdle.py b/PyAnEn/VerifyProbGammaHurdle.py
index b70ce3c..b0cab7d 100644
--- a/PyAnEn/VerifyProbGammaHurdle.py
+++ b/PyAnEn/VerifyProbGammaHurdle.py
@@ -55,6 +55,13 @@ class VerifyProbGammaHurdle(VerifyProb):
         assert hasattr(self.f, 'keys'), 'f should be dict-like'
         assert isinstance(self.o, np.ndarray)
         
+        # Check dimensions
+        o_shape = list(self.o.shape)
+        
+        for k in self.f.keys():
+            f_shape = list(self.f[k].shape)
+            assert f_shape == o_shape, 'Shape mismatch: f[{}] ({}) and o ({})'.format(k, f_shape, o_shape)
+        
         assert 'pop' in self.f.keys()
         assert 'mu' in self.f.keys()
         assert 'sigma' in self.f.keys()
-- 
2.43.0


From b4af2cf3f33d12950a31c453d7a42ce2dc8d4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 22/26] fix: missing observations were scored as non-events by
 event-based metrics

---
 PyAnEn/utils_special_boot.py |  7 +++++++
 PyAnEn/utils_verify.py       | 20 ++++++++++++++++++--
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index 83acacf..aae857c 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -49,6 +49,13 @@ def brier_decomp(f, o, avg_axis=None, n_samples=None, repeats=None, confidence=N
 
 def _func_brier_decomp(f_slice, o_slice, n_samples, repeats, confidence, skip_nan, n_bins=19):
     
+    if skip_nan:
+        mask = (~np.isnan(f_slice)) & (~np.isnan(o_slice))
+        f_slice, o_slice = f_slice[mask], o_slice[mask]
+        
+        # Nothing is left to be decomposed
+        if len(f_slice) == 0: return np.full(3 if n_samples is None else (3, 3), np.nan).tolist()
+    
     bins = np.linspace(0, 1, n_bins + 2)[1:-1]
     belongs = np.digitize(f_slice, bins)
 
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index e8f0d27..e627d39 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -200,7 +200,13 @@ def ens_to_prob(f, ensemble_aixs, over=None, below=None):
 
 def binarize_obs(o, over=None, below=None):
     assert (over is None) ^ (below is None), 'Must specify over or below'
-    return o < below if over is None else o > over
+    o_binary = o < below if over is None else o > over
+    
+    # Missing observations are neither events nor non-events
+    missing = np.isnan(o)
+    if np.any(missing): o_binary = np.where(missing, np.nan, o_binary)
+    
+    return o_binary
 
 
 def calculate_roc(f_prob, o_binary):
@@ -339,7 +345,15 @@ def _reliability_stack_slices(slices, shape_to_keep):
     return ret.reshape(shape_to_keep)
 
 
+def _reliability_drop_nan(binids, y_prob, y_true):
+    mask = ~(np.isnan(y_prob) | np.isnan(y_true))
+    return binids[mask], y_prob[mask], y_true[mask]
+
+
 def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins):
+    
+    if util.strtobool(os.environ['pyanen_skip_nan']):
+        binids, y_prob, y_true = _reliability_drop_nan(binids, y_prob, y_true)
 
     bin_sums = np.bincount(binids, weights=y_prob, minlength=len(bins))
     bin_true = np.bincount(binids, weights=y_true, minlength=len(bins))
@@ -405,6 +419,7 @@ def _reliability_agg_boot_slice(binids, y_prob, y_true, bins,
     if repeats is None: repeats = int(os.environ['pyanen_boot_repeats'])
     if confidence is None: confidence = float(os.environ['pyanen_boot_confidence'])
     if skip_nan is None: skip_nan = util.strtobool(os.environ['pyanen_skip_nan'])
+    if skip_nan: binids, y_prob, y_true = _reliability_drop_nan(binids, y_prob, y_true)
     
     probs_pred = []
     probs_true = []
@@ -551,5 +566,6 @@ def iou_prob(f_prob, o_binary, axis=None, over=None, below=None):
         assert 0 <= over <= 1, 'over needs to be a probability in [0, 1]'
         f_binary = f_prob > over
     
-    return _iou(f_binary, o_binary, axis)
+    # A missing observation is not an event
+    return _iou(f_binary, o_binary == 1, axis)
 
-- 
2.43.0


From e8844110344cae4fe3096898b9004e76ac686b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:16 +0000
Subject: [PATCH 23/26] fix: a missing observation made every integrated result
 of hurdle forecasts missing

---
 PyAnEn/utils_approximation.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyAnEn/utils_approximation.py b/PyAnEn/utils_approximation.py
index 2e1d3c0..575a354 100644
--- a/PyAnEn/utils_approximation.py
+++ b/PyAnEn/utils_approximation.py
@@ -288,8 +288,10 @@ class Integration:
             assert range_multi > 0
             
             # Define the x bins to integrate
-            vmin = np.min(self.verifier.o)
-            vmax = np.max(self.verifier.o)
+            if util.strtobool(os.environ['pyanen_skip_nan']):
+                vmin, vmax = np.nanmin(self.verifier.o), np.nanmax(self.verifier.o)
+            else:
+                vmin, vmax = np.min(self.verifier.o), np.max(self.verifier.o)
             
             vrange = vmax - vmin
             self.integration_range = (vmin - range_multi * vrange, vmax + range_multi * vrange)
-- 
2.43.0


From ff37af44b9e9de6256bc9ba37aa49529fdeab449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 24/26] fix: bootstrapped correlations with missing values were
 missing or dropped whole resamples

---
 PyAnEn/utils_special_boot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyAnEn/utils_special_boot.py b/PyAnEn/utils_special_boot.py
index aae857c..822928e 100644
--- a/PyAnEn/utils_special_boot.py
+++ b/PyAnEn/utils_special_boot.py
@@ -135,7 +135,8 @@ def _func_corr(f_slice, o_slice, n_samples, repeats, confidence, skip_nan):
             
         for _ in range(repeats):
             indices = np.random.choice(list(range(len(f_slice))), size=n_samples, replace=True)
-            corr.append(np.corrcoef(f_slice[indices], o_slice[indices])[0, 1])
+            corr.append(_func_corr(f_slice[indices], o_slice[indices], n_samples=None,
+                                   repeats=repeats, confidence=confidence, skip_nan=skip_nan))
             
         if skip_nan:
             ci = np.nanquantile(corr, [(1-confidence)/2, (1+confidence)/2])
-- 
2.43.0


From e5543dcef16bb254b77369e046860fa6a7fe5c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:24 +0000
Subject: [PATCH 25/26] fix: bootstrapped averages were missing when a resample
 had only missing values

---
 PyAnEn/utils_ss.py     | 11 +++++++----
 PyAnEn/utils_verify.py | 10 ++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/utils_ss.py b/PyAnEn/utils_ss.py
index 34a86d5..047a274 100644
--- a/PyAnEn/utils_ss.py
+++ b/PyAnEn/utils_ss.py
@@ -161,11 +161,14 @@ def _binned_spread_skill_agg_boot(arr_split, reconstruct_shape,
                     variances.append(arr[idx, 0, dim_i].mean())
                     mses.append(arr[idx, 1, dim_i].mean())
             
-            variance_ci = np.quantile(variances, [(1-confidence)/2, (1+confidence)/2])
-            mse_ci = np.quantile(mses, [(1-confidence)/2, (1+confidence)/2])
+            # Some resamples might have only missing values
+            func_quantile, func_mean = (np.nanquantile, np.nanmean) if skip_nan else (np.quantile, np.mean)
             
-            variances_ci.append([variance_ci[0], np.mean(variances), variance_ci[1]])
-            mses_ci.append([mse_ci[0], np.mean(mses), mse_ci[1]])
+            variance_ci = func_quantile(variances, [(1-confidence)/2, (1+confidence)/2])
+            mse_ci = func_quantile(mses, [(1-confidence)/2, (1+confidence)/2])
+            
+            variances_ci.append([variance_ci[0], func_mean(variances), variance_ci[1]])
+            mses_ci.append([mse_ci[0], func_mean(mses), mse_ci[1]])
         
     variances_ci = np.array(variances_ci)
     mses_ci = np.array(mses_ci)
diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index e627d39..8f57f4f 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -245,9 +245,15 @@ def boot_vec(pop, n_samples=None, repeats=None, confidence=None, pbar=None, skip
         
     boot_samples_mean = np.array(boot_samples_mean)
     
-    sample_mean = boot_samples_mean.mean()
     delta = (1-confidence) / 2
-    ci = np.quantile(boot_samples_mean, [delta, 1-delta])
+    
+    if skip_nan:
+        # Some resamples might have only missing values
+        sample_mean = np.nanmean(boot_samples_mean)
+        ci = np.nanquantile(boot_samples_mean, [delta, 1-delta])
+    else:
+        sample_mean = boot_samples_mean.mean()
+        ci = np.quantile(boot_samples_mean, [delta, 1-delta])
     
     # sample_std = boot_samples_mean.std()
     # ci = st.t.interval(alpha=confidence, df=repeats-1, loc=sample_mean, scale=sample_std)
-- 
2.43.0


From 610da228c711c0cdc7978f6062669cb83678da2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:34 +0000
Subject: [PATCH 26/26] fix: reliability_diagram ignored an explicit skip_nan
 without bootstrapping

---
 PyAnEn/utils_verify.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/PyAnEn/utils_verify.py b/PyAnEn/utils_verify.py
index 8f57f4f..c588b73 100644
--- a/PyAnEn/utils_verify.py
+++ b/PyAnEn/utils_verify.py
@@ -356,9 +356,10 @@ def _reliability_drop_nan(binids, y_prob, y_true):
     return binids[mask], y_prob[mask], y_true[mask]
 
 
-def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins):
+def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins, skip_nan=None):
     
-    if util.strtobool(os.environ['pyanen_skip_nan']):
+    if skip_nan is None: skip_nan = util.strtobool(os.environ['pyanen_skip_nan'])
+    if skip_nan:
         binids, y_prob, y_true = _reliability_drop_nan(binids, y_prob, y_true)
 
     bin_sums = np.bincount(binids, weights=y_prob, minlength=len(bins))
@@ -379,10 +380,10 @@ def _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins):
     return prob_pred, prob_true, pred_count, true_count
 
 
-def _reliability_agg_no_boot(binids, y_prob, y_true, bins):
+def _reliability_agg_no_boot(binids, y_prob, y_true, bins, skip_nan=None):
 
     if len(y_true.shape) == 1:
-        return _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins)
+        return _reliability_agg_no_boot_slice(binids, y_prob, y_true, bins, skip_nan)
 
     else:
         # Initialization
@@ -402,7 +403,7 @@ def _reliability_agg_no_boot(binids, y_prob, y_true, bins):
                       desc='Reliability aggregation'):
 
             prob_pred, prob_true, pred_count, true_count = _reliability_agg_no_boot_slice(
-                binids[:, i], y_prob[:, i], y_true[:, i], bins)
+                binids[:, i], y_prob[:, i], y_true[:, i], bins, skip_nan)
             
             probs_pred.append(prob_pred)
             probs_true.append(prob_true)
@@ -524,7 +525,7 @@ def reliability_diagram(f_prob, o_binary, nbins, sample_axis,
     
     if boot_samples is None:
         return _reliability_agg_no_boot(
-            binids, f_prob, o_binary, bins)
+            binids, f_prob, o_binary, bins, skip_nan)
     else:
         return _reliability_agg_boot(
             binids, f_prob, o_binary, bins,
-- 
2.43.0

