From b6fce9534b9afabfae16090a4b6eb834fe7dc69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 01/35] fix: PQ and LPQ start the quantile search of every
 repetition from the sample quantile

---
 doubleml/irm/lpq.py | 3 +++
 doubleml/irm/pq.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index 56a9796..e9ab5f3 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -280,6 +280,9 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         x, d = check_X_y(x, self._dml_data.d, force_all_finite=False)
         x, z = check_X_y(x, np.ravel(self._dml_data.z), force_all_finite=False)
 
+        # start from the sample quantile (and not from the estimates of a previous repetition or fit)
+        self._coef_start_val = np.quantile(y[d == self.treatment], self.quantile)
+
         m_z = external_predictions["ml_m_z"] is not None
         m_d_d0 = external_predictions["ml_m_d_z0"] is not None
         m_d_d1 = external_predictions["ml_m_d_z1"] is not None
diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 4cdcd74..58f3a6b 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -255,6 +255,9 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         x, y = check_X_y(self._dml_data.x, self._dml_data.y, force_all_finite=False)
         x, d = check_X_y(x, self._dml_data.d, force_all_finite=False)
 
+        # start from the sample quantile (and not from the estimates of a previous repetition or fit)
+        self._coef_start_val = np.quantile(y[d == self.treatment], self.quantile)
+
         g_external = external_predictions["ml_g"] is not None
         m_external = external_predictions["ml_m"] is not None
 
-- 
2.43.0


From 50e96507a043690dae530d65299687a05c728dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 02/35] fix: LPQ refuses partial external predictions and
 stores no models when all predictions are external

---
 doubleml/irm/lpq.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/lpq.py b/doubleml/irm/lpq.py
index e9ab5f3..95c35d6 100644
--- a/doubleml/irm/lpq.py
+++ b/doubleml/irm/lpq.py
@@ -293,6 +293,9 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         # create strata for splitting
         strata = self._dml_data.d.reshape(-1, 1) + 2 * self._dml_data.z.reshape(-1, 1)
 
+        if any(ext_preds) and not all(ext_preds):
+            raise ValueError("External predictions for all estimations or for none are required.")
+
         # initialize nuisance predictions, targets and models
         if not all(ext_preds):
             m_z_hat = {
@@ -333,8 +336,6 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
                 else:
                     fitted_models[learner] = [clone(self._learner[learner]) for i_fold in range(self.n_folds)]
             ipw_vec = np.full(shape=self.n_folds, fill_value=np.nan)
-        elif any(ext_preds) and not any(ext_preds):
-            raise ValueError("External predictions for all estimations or for none are required.")
         else:
             m_z_hat = {
                 "models": None,
@@ -496,7 +497,7 @@ class DoubleMLLPQ(NonLinearScoreMixin, DoubleML):
         m_d_z0_hat["targets"] = _cond_targets(d, cond_sample=(z == 0))
         m_d_z1_hat["targets"] = _cond_targets(d, cond_sample=(z == 1))
 
-        if return_models:
+        if return_models and not all(ext_preds):
             m_z_hat["models"] = fitted_models["ml_m_z"]
             m_d_z0_hat["models"] = fitted_models["ml_m_d_z0"]
             m_d_z1_hat["models"] = fitted_models["ml_m_d_z1"]
-- 
2.43.0


From 97365b2c674a99c750bd51caa578109669a81a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:55 +0000
Subject: [PATCH 03/35] fix: PQ uses the external propensity of the right
 observations in the preliminary step, models with external predictions can be
 stored

---
 doubleml/irm/pq.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/pq.py b/doubleml/irm/pq.py
index 58f3a6b..3fb6135 100644
--- a/doubleml/irm/pq.py
+++ b/doubleml/irm/pq.py
@@ -327,7 +327,7 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
                         ml_m_prelim, x_train_1, d_train_1, method="predict_proba", smpls=smpls_prelim
                     )["preds"]
                 else:
-                    m_hat_prelim = m_hat["preds"][np.concatenate([test for _, test in smpls_prelim])]
+                    m_hat_prelim = m_hat["preds"][train_inds_1]
                 m_hat_prelim = _trimm(m_hat_prelim, self.trimming_rule, self.trimming_threshold)
                 if self._normalize_ipw:
                     m_hat_prelim = _normalize_ipw(m_hat_prelim, d_train_1)
@@ -369,8 +369,8 @@ class DoubleMLPQ(NonLinearScoreMixin, DoubleML):
         g_hat["targets"] = _cond_targets(g_hat["targets"], cond_sample=(d == self.treatment))
 
         if return_models:
-            g_hat["models"] = fitted_models["ml_g"]
-            m_hat["models"] = fitted_models["ml_m"]
+            g_hat["models"] = fitted_models.get("ml_g")
+            m_hat["models"] = fitted_models.get("ml_m")
 
         # clip propensities and normalize ipw weights
         m_hat["preds"] = _trimm(m_hat["preds"], self.trimming_rule, self.trimming_threshold)
-- 
2.43.0


From b7585107263048c498bc9f957f7c6aae19acee13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 04/35] fix: fold-specific tuning results are stored per
 repetition and treatment

---
 doubleml/double_ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 1b88c8e..c7c4f46 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -807,7 +807,7 @@ class DoubleML(ABC):
             raise TypeError(f"return_tune_res must be True or False. Got {str(return_tune_res)}.")
 
         if tune_on_folds:
-            tuning_res = [[None] * self.n_rep] * self._dml_data.n_treat
+            tuning_res = [[None] * self._dml_data.n_treat for _ in range(self.n_rep)]
         else:
             tuning_res = [None] * self._dml_data.n_treat
 
-- 
2.43.0


From 813d6a4cd4064432874339a6e0c092ceb253fee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 05/35] fix: tune does not modify the supplied scoring methods

---
 doubleml/double_ml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index c7c4f46..2566ee0 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -763,6 +763,7 @@ class DoubleML(ABC):
                 )
             if not all(k in scoring_methods for k in self.learner_names):
                 # if there are learners for which no scoring_method was set, we fall back to None, i.e., default scoring
+                scoring_methods = dict(scoring_methods)
                 for learner in self.learner_names:
                     if learner not in scoring_methods:
                         scoring_methods[learner] = None
-- 
2.43.0


From cca500db171d3181fcaa5a543d721cbd70baa44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 06/35] fix: a framework is not changed by refitting the model
 it was built from

---
 doubleml/double_ml.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 2566ee0..6f4494e 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -550,11 +550,11 @@ class DoubleML(ABC):
         scaled_psi_reshape = np.transpose(scaled_psi, (0, 2, 1))
 
         doubleml_dict = {
-            "thetas": self.coef,
-            "all_thetas": self.all_coef,
-            "ses": self.se,
-            "all_ses": self.all_se,
-            "var_scaling_factors": self._var_scaling_factors,
+            "thetas": np.copy(self.coef),
+            "all_thetas": np.copy(self.all_coef),
+            "ses": np.copy(self.se),
+            "all_ses": np.copy(self.all_se),
+            "var_scaling_factors": np.copy(self._var_scaling_factors),
             "scaled_psi": scaled_psi_reshape,
             "is_cluster_data": self._is_cluster_data,
             "treatment_names": self._dml_data.d_cols,
-- 
2.43.0


From aef7826477fbbe5ccc8d779b1b2da382842341ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 07/35] fix: sensitivity_plot draws the contour values at the
 right cf_d / cf_y coordinates

---
 doubleml/double_ml_framework.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 6078602..6985dca 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -876,7 +876,7 @@ class DoubleMLFramework:
                     rho=rho,
                     level=level,
                 )
-                contour_values[i_cf_d_grid, i_cf_y_grid] = sens_dict[value][bound][idx_treatment]
+                contour_values[i_cf_y_grid, i_cf_d_grid] = sens_dict[value][bound][idx_treatment]
 
         # get the correct unadjusted value for confidence bands
         if value == "theta":
-- 
2.43.0


From cf041954de797481762721fc6a8b341838524ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 08/35] fix: scaling a framework by a negative number keeps
 standard errors positive

---
 doubleml/double_ml_framework.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 6985dca..6cdb2e7 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -398,8 +398,8 @@ class DoubleMLFramework:
             all_thetas = np.multiply(other, self._all_thetas)
 
             var_scaling_factors = self._var_scaling_factors
-            ses = np.multiply(other, self._ses)
-            all_ses = np.multiply(other, self._all_ses)
+            ses = np.multiply(abs(other), self._ses)
+            all_ses = np.multiply(abs(other), self._all_ses)
             scaled_psi = np.multiply(other, self._scaled_psi)
 
             doubleml_dict = {
-- 
2.43.0


From e8266ca332f6b6b8200fa0b3c4510b0c6c366fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 09/35] fix: sensitivity_plot uses its rho, level and null
 hypothesis arguments and works without a scenario

---
 doubleml/double_ml_framework.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 6cdb2e7..a0019f2 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -857,7 +857,6 @@ class DoubleMLFramework:
         _check_in_zero_one(grid_bounds[1], "grid_bounds", include_zero=False, include_one=False)
         _check_integer(grid_size, "grid_size", lower_bound=10)
 
-        null_hypothesis = self.sensitivity_params["input"]["null_hypothesis"][idx_treatment]
         unadjusted_theta = self.thetas[idx_treatment]
         # check which side is relvant
         bound = "upper" if (null_hypothesis > unadjusted_theta) else "lower"
@@ -883,7 +882,7 @@ class DoubleMLFramework:
             unadjusted_value = unadjusted_theta
         else:
             assert value == "ci"
-            ci = self.confint(level=self.sensitivity_params["input"]["level"])
+            ci = self.confint(level=level)
             if bound == "upper":
                 unadjusted_value = ci.iloc[idx_treatment, 1]
             else:
@@ -898,19 +897,25 @@ class DoubleMLFramework:
                 sens_dict_bench = self._calc_sensitivity_analysis(
                     cf_y=benchmarks["cf_y"][benchmark_idx],
                     cf_d=benchmarks["cf_d"][benchmark_idx],
-                    rho=self.sensitivity_params["input"]["rho"],
-                    level=self.sensitivity_params["input"]["level"],
+                    rho=rho,
+                    level=level,
                 )
                 benchmark_values[benchmark_idx] = sens_dict_bench[value][bound][idx_treatment]
             benchmark_dict["value"] = benchmark_values
+        if include_scenario:
+            scenario = {
+                "scenario_x": self.sensitivity_params["input"]["cf_d"],
+                "scenario_y": self.sensitivity_params["input"]["cf_y"],
+                "scenario_value": self.sensitivity_params[value][bound][idx_treatment],
+            }
+        else:
+            scenario = {"scenario_x": None, "scenario_y": None, "scenario_value": None}
         fig = _sensitivity_contour_plot(
             x=cf_d_vec,
             y=cf_y_vec,
             contour_values=contour_values,
             unadjusted_value=unadjusted_value,
-            scenario_x=self.sensitivity_params["input"]["cf_d"],
-            scenario_y=self.sensitivity_params["input"]["cf_y"],
-            scenario_value=self.sensitivity_params[value][bound][idx_treatment],
+            **scenario,
             include_scenario=include_scenario,
             benchmarks=benchmark_dict,
             fill=fill,
-- 
2.43.0


From 55fc9fbcf6c4adaff3d4f453566d43784eab28ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 10/35] fix: sums and differences of clustered frameworks use
 cluster-robust standard errors

---
 doubleml/double_ml_framework.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index a0019f2..628dc4b 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -308,8 +308,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = self._compute_all_ses(scaled_psi)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
@@ -338,6 +337,26 @@ class DoubleMLFramework:
 
         return new_obj
 
+    def _compute_all_ses(self, scaled_psi):
+        if not self._is_cluster_data:
+            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), self._var_scaling_factors.reshape(-1, 1))
+            return np.sqrt(sigma2_hat)
+
+        all_ses = np.full((self._n_thetas, self._n_rep), fill_value=np.nan)
+        for i_rep in range(self._n_rep):
+            for i_theta in range(self._n_thetas):
+                sigma2_hat, _ = _var_est(
+                    psi=scaled_psi[:, i_theta, i_rep],
+                    psi_deriv=np.ones_like(scaled_psi[:, i_theta, i_rep]),
+                    smpls=self._cluster_dict["smpls"][i_rep],
+                    is_cluster_data=True,
+                    cluster_vars=self._cluster_dict["cluster_vars"],
+                    smpls_cluster=self._cluster_dict["smpls_cluster"][i_rep],
+                    n_folds_per_cluster=self._cluster_dict["n_folds_per_cluster"],
+                )
+                all_ses[i_theta, i_rep] = np.sqrt(sigma2_hat)
+        return all_ses
+
     def __radd__(self, other):
         return self.__add__(other)
 
@@ -356,8 +375,7 @@ class DoubleMLFramework:
             var_scaling_factors = self._var_scaling_factors
 
             # compute standard errors
-            sigma2_hat = np.divide(np.mean(np.square(scaled_psi), axis=0), var_scaling_factors.reshape(-1, 1))
-            all_ses = np.sqrt(sigma2_hat)
+            all_ses = self._compute_all_ses(scaled_psi)
             thetas, ses = _aggregate_coefs_and_ses(all_thetas, all_ses, var_scaling_factors)
 
             doubleml_dict = {
-- 
2.43.0


From c4a74ca9689231c58a24f4ea62153da78c5010ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:32 +0000
Subject: [PATCH 11/35] fix: external predictions may be supplied for a subset
 of the treatments

---
 doubleml/utils/_estimation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/_estimation.py b/doubleml/utils/_estimation.py
index 25e6262..8309182 100644
--- a/doubleml/utils/_estimation.py
+++ b/doubleml/utils/_estimation.py
@@ -333,7 +333,7 @@ def _set_external_predictions(external_predictions, learners, treatment, i_rep):
     for learner in learners:
         if external_predictions is None:
             ext_prediction_dict[learner] = None
-        elif learner in external_predictions[treatment].keys():
+        elif learner in external_predictions.get(treatment, {}).keys():
             if isinstance(external_predictions[treatment][learner], np.ndarray):
                 ext_prediction_dict[learner] = external_predictions[treatment][learner][:, i_rep]
             else:
-- 
2.43.0


From 0a5a6d807799b6e35981dac63d655ad85f10f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 12/35] fix: cluster partitions of all folds and repetitions
 are checked

---
 doubleml/utils/_checks.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index 90833de..a1f0e95 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -429,10 +429,12 @@ def _check_cluster_sample_splitting(all_smpls_cluster, dml_data, n_rep, n_folds)
         for i_cluster in range(dml_data.n_cluster_vars):
             this_cluster_var = dml_data.cluster_vars[:, i_cluster]
             clusters = np.unique(this_cluster_var)
-            cluster_partition = [all_smpls_cluster[0][0][0][i_cluster], all_smpls_cluster[0][0][1][i_cluster]]
-            is_cluster_partition = _check_cluster_partitions(cluster_partition, clusters)
-            if not is_cluster_partition:
-                raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
+            for train_clusters, test_clusters in all_smpls_cluster[i_rep]:
+                is_cluster_partition = _check_cluster_partitions(
+                    [train_clusters[i_cluster], test_clusters[i_cluster]], clusters
+                )
+                if not is_cluster_partition:
+                    raise ValueError("Invalid cluster partition provided. At least one inner list does not form a partition.")
 
     smpls_cluster = all_smpls_cluster
     return smpls_cluster
-- 
2.43.0


From 9ca0467ec5b1b055f672cc00e1da3b8e9639fe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 13/35] fix: the number of folds per cluster is derived from a
 supplied sample splitting

---
 doubleml/double_ml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 6f4494e..84d0498 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1295,6 +1295,8 @@ class DoubleML(ABC):
         self._smpls, self._smpls_cluster, self._n_rep, self._n_folds = _check_sample_splitting(
             all_smpls, all_smpls_cluster, self._dml_data, self._is_cluster_data
         )
+        if self._is_cluster_data:
+            self._n_folds_per_cluster = int(round(self._n_folds ** (1 / self._dml_data.n_cluster_vars)))
 
         (
             self._psi,
-- 
2.43.0


From 33054273aa54ed065e1d65285c88f76e516c4325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 14/35] fix: predictions and models of a previous fit are
 dropped when a new fit does not store them

---
 doubleml/double_ml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index 84d0498..c1810a9 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1002,6 +1002,11 @@ class DoubleML(ABC):
         # initialize loss arrays for nuisance functions evaluation
         self._initialize_nuisance_loss()
 
+        # predictions, targets and models of a previous fit do not describe the new fit
+        self._predictions = None
+        self._nuisance_targets = None
+        self._models = None
+
         if store_predictions:
             self._initialize_predictions_and_targets()
 
-- 
2.43.0


From e885fff5cfb8d1bcb9af0affc50bea13343b005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 15/35] fix: policy trees can be fitted if the orthogonal
 signal is zero for an observation

---
 doubleml/utils/policytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/policytree.py b/doubleml/utils/policytree.py
index ca771ad..59b8415 100644
--- a/doubleml/utils/policytree.py
+++ b/doubleml/utils/policytree.py
@@ -98,7 +98,7 @@ class DoubleMLPolicyTree:
         -------
         self : object
         """
-        bin_signal = (np.sign(self._orth_signal) + 1) / 2
+        bin_signal = (self._orth_signal > 0).astype(float)
         abs_signal = np.abs(self._orth_signal)
 
         # fit the tree with target binary score, sample weights absolute score and
-- 
2.43.0


From 90489c3c2dc86ee5495391b9b2b9ae34093bf0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:06 +0000
Subject: [PATCH 16/35] fix: group effects accept several 0/1 dummy columns of
 integer type

---
 doubleml/irm/apo.py | 2 +-
 doubleml/irm/irm.py | 2 +-
 doubleml/plm/plr.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/apo.py b/doubleml/irm/apo.py
index e8c7517..ebdf4af 100644
--- a/doubleml/irm/apo.py
+++ b/doubleml/irm/apo.py
@@ -508,7 +508,7 @@ class DoubleMLAPO(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/irm/irm.py b/doubleml/irm/irm.py
index 72db088..12fdcf1 100644
--- a/doubleml/irm/irm.py
+++ b/doubleml/irm/irm.py
@@ -518,7 +518,7 @@ class DoubleMLIRM(LinearScoreMixin, DoubleML):
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
 
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 1b45d86..9f5a7f4 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -418,7 +418,7 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
 
         if not isinstance(groups, pd.DataFrame):
             raise TypeError(f"Groups must be of DataFrame type. Groups of type {str(type(groups))} was passed.")
-        if not all(groups.dtypes == bool) or all(groups.dtypes == int):
+        if not (all(groups.dtypes == bool) or all(groups.dtypes == int)):
             if groups.shape[1] == 1:
                 groups = pd.get_dummies(groups, prefix="Group", prefix_sep="_")
             else:
-- 
2.43.0


From 867c0d7930a8b0d2844da91d769f05ac1092b555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 17/35] fix: binary_treats and binary_outcome are updated when
 treatment or outcome columns are changed

---
 doubleml/double_ml_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index 3ebf2f7..d9e0813 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -468,6 +468,7 @@ class DoubleMLData(DoubleMLBaseData):
         self._d_cols = value
         if reset_value:
             self._check_disjoint_sets()
+            self._binary_treats = self._check_binary_treats()
             # by default, we initialize to the first treatment variable
             self.set_x_d(self.d_cols[0])
 
@@ -491,6 +492,7 @@ class DoubleMLData(DoubleMLBaseData):
         if reset_value:
             self._check_disjoint_sets()
             self._set_y_z_t_s()
+            self._binary_outcome = self._check_binary_outcome()
 
     @property
     def z_cols(self):
-- 
2.43.0


From 6dbf244a8752f72683d8feca961b78187c0279b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 18/35] fix: a refused change of a column role leaves the
 data-backend unchanged

---
 doubleml/double_ml_data.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/doubleml/double_ml_data.py b/doubleml/double_ml_data.py
index d9e0813..bc4aa43 100644
--- a/doubleml/double_ml_data.py
+++ b/doubleml/double_ml_data.py
@@ -1,3 +1,4 @@
+import functools
 import io
 from abc import ABC, abstractmethod
 
@@ -11,6 +12,22 @@ from .utils._checks import _check_set
 from .utils._estimation import _assure_2d_array
 
 
+def _restore_on_error(setter):
+    """Leave the data-backend unchanged if a setter refuses the new value."""
+
+    @functools.wraps(setter)
+    def wrapper(self, value):
+        state = self.__dict__.copy()
+        try:
+            setter(self, value)
+        except Exception:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    return wrapper
+
+
 class DoubleMLBaseData(ABC):
     """Base Class Double machine learning data-backends"""
 
@@ -415,6 +432,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._x_cols
 
     @x_cols.setter
+    @_restore_on_error
     def x_cols(self, value):
         reset_value = hasattr(self, "_x_cols")
         if value is not None:
@@ -452,6 +470,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._d_cols
 
     @d_cols.setter
+    @_restore_on_error
     def d_cols(self, value):
         reset_value = hasattr(self, "_d_cols")
         if isinstance(value, str):
@@ -480,6 +499,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._y_col
 
     @y_col.setter
+    @_restore_on_error
     def y_col(self, value):
         reset_value = hasattr(self, "_y_col")
         if not isinstance(value, str):
@@ -502,6 +522,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._z_cols
 
     @z_cols.setter
+    @_restore_on_error
     def z_cols(self, value):
         reset_value = hasattr(self, "_z_cols")
         if value is not None:
@@ -533,6 +554,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._t_col
 
     @t_col.setter
+    @_restore_on_error
     def t_col(self, value):
         reset_value = hasattr(self, "_t_col")
         if value is not None:
@@ -558,6 +580,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._s_col
 
     @s_col.setter
+    @_restore_on_error
     def s_col(self, value):
         reset_value = hasattr(self, "_s_col")
         if value is not None:
@@ -583,6 +606,7 @@ class DoubleMLData(DoubleMLBaseData):
         return self._use_other_treat_as_covariate
 
     @use_other_treat_as_covariate.setter
+    @_restore_on_error
     def use_other_treat_as_covariate(self, value):
         reset_value = hasattr(self, "_use_other_treat_as_covariate")
         if not isinstance(value, bool):
@@ -973,6 +997,7 @@ class DoubleMLClusterData(DoubleMLData):
         return self._cluster_cols
 
     @cluster_cols.setter
+    @_restore_on_error
     def cluster_cols(self, value):
         reset_value = hasattr(self, "_cluster_cols")
         if isinstance(value, str):
-- 
2.43.0


From 3a3923eda2ba8cbe232d5b8bcde7aa51ebc38f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 19/35] fix: RDFlex does not truncate first stage predictions
 of integer outcomes and treatments

---
 doubleml/rdd/rdd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 858ae5e..3052be4 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -425,7 +425,7 @@ class RDFlex:
         ZX_left = np.column_stack((Z_left, X))
         ZX_right = np.column_stack((Z_right, X))
 
-        mu_left, mu_right = np.full_like(outcome, fill_value=np.nan), np.full_like(outcome, fill_value=np.nan)
+        mu_left, mu_right = np.full(outcome.shape, fill_value=np.nan), np.full(outcome.shape, fill_value=np.nan)
 
         for train_index, test_index in smpls:
             estimator = clone(self._learner[estimator_name])
-- 
2.43.0


From c0166fff686209f2a2d4b4dad8f93d38c790828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:46 +0000
Subject: [PATCH 20/35] fix: tuning of IV-type scores does not truncate
 predictions of integer variables

---
 doubleml/plm/pliv.py | 6 +++---
 doubleml/plm/plr.py  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index dc0fbd2..d5b43c2 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -594,9 +594,9 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
             # an ML model for g is obtained for the IV-type score and callable scores
             if "ml_g" in self._learner:
                 # construct an initial theta estimate from the tuned models using the partialling out score
-                l_hat = np.full_like(y, np.nan)
-                m_hat = np.full_like(z, np.nan)
-                r_hat = np.full_like(d, np.nan)
+                l_hat = np.full_like(y, np.nan, dtype="float64")
+                m_hat = np.full_like(z, np.nan, dtype="float64")
+                r_hat = np.full_like(d, np.nan, dtype="float64")
                 for idx, (train_index, _) in enumerate(smpls):
                     l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                     m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 9f5a7f4..84269f2 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -324,8 +324,8 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
         # an ML model for g is obtained for the IV-type score and callable scores
         if "ml_g" in self._learner:
             # construct an initial theta estimate from the tuned models using the partialling out score
-            l_hat = np.full_like(y, np.nan)
-            m_hat = np.full_like(d, np.nan)
+            l_hat = np.full_like(y, np.nan, dtype="float64")
+            m_hat = np.full_like(d, np.nan, dtype="float64")
             for idx, (train_index, _) in enumerate(smpls):
                 l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
                 m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
-- 
2.43.0


From dbb27d61ab845c3f8814059dd5987f69fe37790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 21/35] fix: the score of the re-estimated nu2 is centered

---
 doubleml/double_ml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index c1810a9..df0d5c1 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -1457,8 +1457,9 @@ class DoubleML(ABC):
                         "Re-estimation based on riesz representer (non-orthogonal)."
                     )
                     warnings.warn(msg, UserWarning)
-                    psi_nu2 = np.power(riesz_rep, 2)
-                    nu2 = np.mean(psi_nu2, axis=0, keepdims=True)
+                    nu2_score_element = np.power(riesz_rep, 2)
+                    nu2 = np.mean(nu2_score_element, axis=0, keepdims=True)
+                    psi_nu2 = nu2_score_element - nu2
 
                     self.sensitivity_elements["nu2"][:, :, i_treat] = nu2
                     self.sensitivity_elements["psi_nu2"][:, :, i_treat] = psi_nu2
-- 
2.43.0


From 23c894d69f0aa467636c7caacbeae27f94d1e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 22/35] fix: sign of the riesz representer in DIDCS without
 in-sample normalization

---
 doubleml/did/did_cs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/did/did_cs.py b/doubleml/did/did_cs.py
index a198bce..0fe3bcd 100644
--- a/doubleml/did/did_cs.py
+++ b/doubleml/did/did_cs.py
@@ -496,8 +496,8 @@ class DoubleMLDIDCS(LinearScoreMixin, DoubleML):
                 m_alpha_1 = np.divide(1.0, lambda_hat) + np.divide(1.0, 1.0 - lambda_hat)
                 m_alpha = np.multiply(np.divide(d, np.square(p_hat)), np.multiply(m_alpha_1, 1.0 + propensity_weight_d0))
 
-                rr_1 = np.divide(t, np.multiply(p_hat, lambda_hat)) + np.divide(1.0 - t, np.multiply(p_hat, 1.0 - lambda_hat))
-                rr_2 = d + np.multiply(1.0 - d, propensity_weight_d0)
+                rr_1 = np.divide(t, np.multiply(p_hat, lambda_hat)) - np.divide(1.0 - t, np.multiply(p_hat, 1.0 - lambda_hat))
+                rr_2 = d - np.multiply(1.0 - d, propensity_weight_d0)
                 rr = np.multiply(rr_1, rr_2)
         else:
             assert self.score == "experimental"
-- 
2.43.0


From 20bf7b0c9bbf5ce0ae79aa91e1562dbb15ae8f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 23/35] fix: SSM uses predicted probabilities of a classifier
 ml_g with nonignorable nonresponse

---
 doubleml/irm/ssm.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 5a6458c..350eabb 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -348,7 +348,7 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d1"][i_fold].fit(xpi_s1_d1_train_2, y_s1_d1_train_2)
 
                 # predict conditional outcome
-                g_hat_d1["preds"][test_inds] = fitted_models["ml_g_d1"][i_fold].predict(xpi_test)
+                g_hat_d1["preds"][test_inds] = self._predict_outcome(fitted_models["ml_g_d1"][i_fold], xpi_test)
                 g_hat_d1["targets"][test_inds] = y[test_inds]
 
                 # estimate conditional outcome on second training sample - control
@@ -359,7 +359,7 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
                 fitted_models["ml_g_d0"][i_fold].fit(xpi_s1_d0_train_2, y_s1_d0_train_2)
 
                 # predict conditional outcome
-                g_hat_d0["preds"][test_inds] = fitted_models["ml_g_d0"][i_fold].predict(xpi_test)
+                g_hat_d0["preds"][test_inds] = self._predict_outcome(fitted_models["ml_g_d0"][i_fold], xpi_test)
                 g_hat_d0["targets"][test_inds] = y[test_inds]
 
                 if return_models:
@@ -403,6 +403,11 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
 
         return psi_elements, preds
 
+    def _predict_outcome(self, learner, x):
+        if self._predict_method["ml_g"] == "predict_proba":
+            return _predict_zero_one_propensity(learner, x)
+        return learner.predict(x)
+
     def _score_elements(self, dtreat, dcontrol, g_d1, g_d0, pi, m, s, y):
         # psi_a
         psi_a = -1
-- 
2.43.0


From 402b380876b8b783030bb1778ad57abb7ae337b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 24/35] fix: SSM targets of the outcome models are restricted
 to their subpopulation

---
 doubleml/irm/ssm.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/doubleml/irm/ssm.py b/doubleml/irm/ssm.py
index 350eabb..9153b7d 100644
--- a/doubleml/irm/ssm.py
+++ b/doubleml/irm/ssm.py
@@ -10,7 +10,13 @@ from doubleml.double_ml import DoubleML
 from doubleml.double_ml_data import DoubleMLData
 from doubleml.double_ml_score_mixins import LinearScoreMixin
 from doubleml.utils._checks import _check_finite_predictions, _check_score, _check_trimming
-from doubleml.utils._estimation import _dml_cv_predict, _dml_tune, _get_cond_smpls_2d, _predict_zero_one_propensity
+from doubleml.utils._estimation import (
+    _cond_targets,
+    _dml_cv_predict,
+    _dml_tune,
+    _get_cond_smpls_2d,
+    _predict_zero_one_propensity,
+)
 from doubleml.utils._propensity_score import _trimm
 
 
@@ -374,6 +380,10 @@ class DoubleMLSSM(LinearScoreMixin, DoubleML):
         dtreat = d == 1
         dcontrol = d == 0
 
+        # outcome models are only fitted (and evaluated) for selected observations with the treatment status
+        g_hat_d1["targets"] = _cond_targets(g_hat_d1["targets"], cond_sample=(dtreat & (s == 1)))
+        g_hat_d0["targets"] = _cond_targets(g_hat_d0["targets"], cond_sample=(dcontrol & (s == 1)))
+
         psi_a, psi_b = self._score_elements(
             dtreat, dcontrol, g_hat_d1["preds"], g_hat_d0["preds"], pi_hat["preds"], m_hat["preds"], s, y
         )
-- 
2.43.0


From fd9f6cbc1f212fcec8ba716a77e35a17ba617c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 25/35] fix: APOS accepts external predictions for a subset of
 the treatment levels

---
 doubleml/irm/apos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index e9b160c..eae7a86 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -860,7 +860,7 @@ class DoubleMLAPOS:
     def _rename_external_predictions(self, external_predictions):
         d_col = self._dml_data.d_cols[0]
         ext_pred_dict = {treatment_level: {d_col: {}} for treatment_level in self.treatment_levels}
-        for treatment_level in self.treatment_levels:
+        for treatment_level in external_predictions.keys():
             if "ml_g_d_lvl1" in external_predictions[treatment_level]:
                 ext_pred_dict[treatment_level][d_col]["ml_g_d_lvl1"] = external_predictions[treatment_level]["ml_g_d_lvl1"]
             if "ml_m" in external_predictions[treatment_level]:
-- 
2.43.0


From 8066d01eb7f8dd2c347bb85c4d3803c046d64ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 26/35] fix: APOS uses a redrawn sample splitting

---
 doubleml/irm/apos.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index eae7a86..bc82663 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -88,12 +88,11 @@ class DoubleMLAPOS:
 
         # perform sample splitting
         self._smpls = None
+        self._modellist = None
         if draw_sample_splitting:
+            # also initializes all models
             self.draw_sample_splitting()
 
-            # initialize all models if splits are known
-            self._modellist = self._initialize_models()
-
     def __str__(self):
         class_name = self.__class__.__name__
         header = f"================== {class_name} Object ==================\n"
@@ -640,6 +639,8 @@ class DoubleMLAPOS:
             n_folds=self.n_folds, n_rep=self.n_rep, n_obs=self._dml_data.n_obs, stratify=self._dml_data.d
         )
         self._smpls = obj_dml_resampling.split_samples()
+        # initialize all models
+        self._modellist = self._initialize_models()
 
         return self
 
-- 
2.43.0


From ecee565e5fd9ae9b659961897b4855a489922268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 27/35] fix: RDFlex reports the bandwidth of a fit with one
 iteration

---
 doubleml/rdd/rdd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index 3052be4..e37a8cc 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -359,6 +359,8 @@ class RDFlex:
                         b = None
 
                     rdd_res = self._fit_rdd(h=h, b=b)
+                    if n_iterations == 1:
+                        h = rdd_res.bws.loc["h"].max()
                     self._set_coefs(rdd_res, h)
 
         self.aggregate_over_splits()
-- 
2.43.0


From 1479cabf33e837ecd12dbb896facf7479fc0b71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:14 +0000
Subject: [PATCH 28/35] fix: composite models accept a splitting with one
 full-sample fold

---
 doubleml/utils/_checks.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index a1f0e95..b57d3b9 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -502,7 +502,14 @@ def _check_sample_splitting(all_smpls, all_smpls_cluster, dml_data, is_cluster_d
             if all(smpls_are_partitions):
                 n_rep = len(all_smpls)
                 n_folds = int(n_folds_each_smpl[0])
-                smpls = _check_all_smpls(all_smpls, dml_data.n_obs, check_intersect=True)
+                if (
+                    (n_rep == 1)
+                    & (n_folds == 1)
+                    & _check_is_partition([(train_index, test_index) for test_index, train_index in all_smpls[0]], dml_data.n_obs)
+                ):
+                    smpls = all_smpls
+                else:
+                    smpls = _check_all_smpls(all_smpls, dml_data.n_obs, check_intersect=True)
             else:
                 raise ValueError("Invalid partition provided. At least one inner list does not form a partition.")
 
-- 
2.43.0


From d142c9ff1795f215421cb22be192bc76c2917781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:26 +0000
Subject: [PATCH 29/35] fix: PLIV without partialling out of x refuses external
 predictions instead of ignoring them

---
 doubleml/plm/pliv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doubleml/plm/pliv.py b/doubleml/plm/pliv.py
index d5b43c2..59ff1f3 100644
--- a/doubleml/plm/pliv.py
+++ b/doubleml/plm/pliv.py
@@ -159,6 +159,7 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
         obj._check_data(obj._dml_data)
         obj.partialX = False
         obj.partialZ = True
+        obj._external_predictions_implemented = False
         obj._check_score(obj.score)
         _ = obj._check_learner(ml_r, "ml_r", regressor=True, classifier=False)
         obj._learner = {"ml_r": ml_r}
@@ -174,6 +175,7 @@ class DoubleMLPLIV(LinearScoreMixin, DoubleML):
         obj._check_data(obj._dml_data)
         obj.partialX = True
         obj.partialZ = True
+        obj._external_predictions_implemented = False
         obj._check_score(obj.score)
         _ = obj._check_learner(ml_l, "ml_l", regressor=True, classifier=False)
         _ = obj._check_learner(ml_m, "ml_m", regressor=True, classifier=False)
-- 
2.43.0


From faaf02f403049fed4252a8e6a5c9fedc98e9918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 30/35] fix: IV-type PLR tuning uses propensities instead of
 class labels for the initial estimate

---
 doubleml/plm/plr.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/doubleml/plm/plr.py b/doubleml/plm/plr.py
index 84269f2..3079395 100644
--- a/doubleml/plm/plr.py
+++ b/doubleml/plm/plr.py
@@ -328,7 +328,10 @@ class DoubleMLPLR(LinearScoreMixin, DoubleML):
             m_hat = np.full_like(d, np.nan, dtype="float64")
             for idx, (train_index, _) in enumerate(smpls):
                 l_hat[train_index] = l_tune_res[idx].predict(x[train_index, :])
-                m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
+                if self._predict_method["ml_m"] == "predict_proba":
+                    m_hat[train_index] = m_tune_res[idx].predict_proba(x[train_index, :])[:, 1]
+                else:
+                    m_hat[train_index] = m_tune_res[idx].predict(x[train_index, :])
             psi_a = -np.multiply(d - m_hat, d - m_hat)
             psi_b = np.multiply(d - m_hat, y - l_hat)
             theta_initial = -np.nanmean(psi_b) / np.nanmean(psi_a)
-- 
2.43.0


From d489b5ea03eae00530fae890ad4a97072bfa8bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 31/35] fix: plot of a policy tree labels the only decision
 correctly if all signals have the same sign

---
 doubleml/utils/policytree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doubleml/utils/policytree.py b/doubleml/utils/policytree.py
index 59b8415..9e1beac 100644
--- a/doubleml/utils/policytree.py
+++ b/doubleml/utils/policytree.py
@@ -121,7 +121,7 @@ class DoubleMLPolicyTree:
             self.policy_tree,
             feature_names=list(self._features.keys()),
             filled=True,
-            class_names=["No Treatment", "Treatment"],
+            class_names=[["No Treatment", "Treatment"][int(c)] for c in self.policy_tree.classes_],
             impurity=False,
         )
         return artists
-- 
2.43.0


From 63f6ee21033697842a64d44ea4d887f5e485ad39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:41 +0000
Subject: [PATCH 32/35] fix: NaN is refused as confidence level, strength,
 quantile and threshold

---
 doubleml/double_ml_framework.py |  2 +-
 doubleml/rdd/rdd.py             |  2 +-
 doubleml/utils/_checks.py       | 12 ++++++------
 doubleml/utils/blp.py           |  2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/doubleml/double_ml_framework.py b/doubleml/double_ml_framework.py
index 628dc4b..c7c6076 100644
--- a/doubleml/double_ml_framework.py
+++ b/doubleml/double_ml_framework.py
@@ -667,7 +667,7 @@ class DoubleMLFramework:
 
         if not isinstance(level, float):
             raise TypeError(f"The confidence level must be of float type. {str(level)} of type {str(type(level))} was passed.")
-        if (level <= 0) | (level >= 1):
+        if not (0 < level < 1):
             raise ValueError(f"The confidence level must be in (0,1). {str(level)} was passed.")
 
         # compute critical values
diff --git a/doubleml/rdd/rdd.py b/doubleml/rdd/rdd.py
index e37a8cc..2009e35 100644
--- a/doubleml/rdd/rdd.py
+++ b/doubleml/rdd/rdd.py
@@ -384,7 +384,7 @@ class RDFlex:
         """
         if not isinstance(level, float):
             raise TypeError(f"The confidence level must be of float type. {str(level)} of type {str(type(level))} was passed.")
-        if (level <= 0) | (level >= 1):
+        if not (0 < level < 1):
             raise ValueError(f"The confidence level must be in (0,1). {str(level)} was passed.")
 
         # compute critical values
diff --git a/doubleml/utils/_checks.py b/doubleml/utils/_checks.py
index b57d3b9..0146c6e 100644
--- a/doubleml/utils/_checks.py
+++ b/doubleml/utils/_checks.py
@@ -9,16 +9,16 @@ def _check_in_zero_one(value, name, include_zero=True, include_one=True):
     if not isinstance(value, float):
         raise TypeError(f"{name} must be of float type. {str(value)} of type {str(type(value))} was passed.")
     if include_zero & include_one:
-        if (value < 0) | (value > 1):
+        if not (0 <= value <= 1):
             raise ValueError(f"{name} must be in [0,1]. {str(value)} was passed.")
     elif (not include_zero) & include_one:
-        if (value <= 0) | (value > 1):
+        if not (0 < value <= 1):
             raise ValueError(f"{name} must be in (0,1]. {str(value)} was passed.")
     elif include_zero & (not include_one):
-        if (value < 0) | (value >= 1):
+        if not (0 <= value < 1):
             raise ValueError(f"{name} must be in [0,1). {str(value)} was passed.")
     else:
-        if (value <= 0) | (value >= 1):
+        if not (0 < value < 1):
             raise ValueError(f"{name} must be in (0,1). {str(value)} was passed.")
     return
 
@@ -141,7 +141,7 @@ def _check_trimming(trimming_rule, trimming_threshold):
         )
     if not isinstance(trimming_threshold, float):
         raise TypeError("trimming_threshold has to be a float. " + f"Object of type {str(type(trimming_threshold))} passed.")
-    if (trimming_threshold <= 0) | (trimming_threshold >= 0.5):
+    if not (0 < trimming_threshold < 0.5):
         raise ValueError(
             "Invalid trimming_threshold " + str(trimming_threshold) + ". " + "trimming_threshold has to be between 0 and 0.5."
         )
@@ -174,7 +174,7 @@ def _check_quantile(quantile):
     if not isinstance(quantile, float):
         raise TypeError("Quantile has to be a float. " + f"Object of type {str(type(quantile))} passed.")
 
-    if (quantile <= 0) | (quantile >= 1):
+    if not (0 < quantile < 1):
         raise ValueError("Quantile has be between 0 or 1. " + f"Quantile {str(quantile)} passed.")
     return
 
diff --git a/doubleml/utils/blp.py b/doubleml/utils/blp.py
index 13844ee..03fa65e 100644
--- a/doubleml/utils/blp.py
+++ b/doubleml/utils/blp.py
@@ -162,7 +162,7 @@ class DoubleMLBLP:
 
         if not isinstance(level, float):
             raise TypeError(f"The confidence level must be of float type. {str(level)} of type {str(type(level))} was passed.")
-        if (level <= 0) | (level >= 1):
+        if not (0 < level < 1):
             raise ValueError(f"The confidence level must be in (0,1). {str(level)} was passed.")
 
         if not isinstance(n_rep_boot, int):
-- 
2.43.0


From 1594fe65d793aaa33a319fb6529e59e0ef32134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:59 +0000
Subject: [PATCH 33/35] fix: APOS refuses invalid external predictions before
 fitting any of its models

---
 doubleml/irm/apos.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doubleml/irm/apos.py b/doubleml/irm/apos.py
index bc82663..b963c9d 100644
--- a/doubleml/irm/apos.py
+++ b/doubleml/irm/apos.py
@@ -385,6 +385,9 @@ class DoubleMLAPOS:
         if external_predictions is not None:
             self._check_external_predictions(external_predictions)
             ext_pred_dict = self._rename_external_predictions(external_predictions)
+            # refuse invalid predictions for any level before the first model is fitted
+            for i_level, level in enumerate(self.treatment_levels):
+                self.modellist[i_level]._check_fit(n_jobs_cv, store_predictions, ext_pred_dict[level], store_models)
         else:
             ext_pred_dict = None
 
-- 
2.43.0


From 6d644ffb747c718a337d2fe8be4b5d94b9d73f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:08 +0000
Subject: [PATCH 34/35] fix: best linear predictors and policy trees keep their
 own copy of the signal

---
 doubleml/utils/blp.py        | 2 +-
 doubleml/utils/policytree.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doubleml/utils/blp.py b/doubleml/utils/blp.py
index 03fa65e..53b0904 100644
--- a/doubleml/utils/blp.py
+++ b/doubleml/utils/blp.py
@@ -41,7 +41,7 @@ class DoubleMLBLP:
         if not basis.columns.is_unique:
             raise ValueError("Invalid pd.DataFrame: Contains duplicate column names.")
 
-        self._orth_signal = orth_signal
+        self._orth_signal = orth_signal.copy()
         self._basis = basis
         self._is_gate = is_gate
 
diff --git a/doubleml/utils/policytree.py b/doubleml/utils/policytree.py
index 9e1beac..d61d94e 100644
--- a/doubleml/utils/policytree.py
+++ b/doubleml/utils/policytree.py
@@ -43,7 +43,7 @@ class DoubleMLPolicyTree:
         if not features.columns.is_unique:
             raise ValueError("Invalid pd.DataFrame: Contains duplicate column names.")
 
-        self._orth_signal = orth_signal
+        self._orth_signal = orth_signal.copy()
         self._features = features
         self._depth = depth
         self._tree_params = tree_params
-- 
2.43.0


From 52cba5ed62aece57e2d86c017c726ee57cc20755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:51 +0000
Subject: [PATCH 35/35] fix: the framework of clustered data scales the
 influence function like the standard errors do

---
 doubleml/double_ml.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/doubleml/double_ml.py b/doubleml/double_ml.py
index df0d5c1..641a0bf 100644
--- a/doubleml/double_ml.py
+++ b/doubleml/double_ml.py
@@ -546,7 +546,17 @@ class DoubleML(ABC):
         doubleml_framework : doubleml.DoubleMLFramework
         """
         # standardize the score function and reshape to (n_obs, n_coefs, n_rep)
-        scaled_psi = np.divide(self.psi, np.mean(self.psi_deriv, axis=0))
+        if self._is_cluster_data:
+            # same weights of the folds as in the estimation of the cluster-robust standard errors
+            mean_psi_deriv = np.empty(self.psi_deriv.shape[1:])
+            for i_rep in range(self.n_rep):
+                weights = np.empty(self._dml_data.n_obs)
+                for (_, test_inds), (_, test_clusters) in zip(self._smpls[i_rep], self._smpls_cluster[i_rep]):
+                    weights[test_inds] = 1.0 / np.prod([len(clusters) for clusters in test_clusters])
+                mean_psi_deriv[i_rep] = np.average(self.psi_deriv[:, i_rep], axis=0, weights=weights)
+        else:
+            mean_psi_deriv = np.mean(self.psi_deriv, axis=0)
+        scaled_psi = np.divide(self.psi, mean_psi_deriv)
         scaled_psi_reshape = np.transpose(scaled_psi, (0, 2, 1))
 
         doubleml_dict = {
-- 
2.43.0

