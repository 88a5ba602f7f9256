From 5e8bd4bd5a584da827393a66109752ceeb33ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 01/47] fix: do not write fixed POI values into the caller's or
 the backend's initial parameters

---
 src/spey/optimizer/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index c7fe0cb..de44c7c 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -89,7 +89,7 @@ def fit(
         provided) and the corresponding fit parameter vector.
     """
 
-    init_pars = (
+    init_pars = list(
         initial_parameters
         if isinstance(initial_parameters, (list, tuple, np.ndarray))
         else model_configuration.suggested_init
-- 
2.43.0


From 37516ce647230615a0dea5c244480b48d8a941f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 02/47] fix: do not append backend constraints to the caller's
 constraint list

---
 src/spey/interface/statistical_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 19b7384..761af5f 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -417,7 +417,7 @@ class StatisticalModel(HypothesisTestingBase):
                 expected=expected, data=data, do_grad=do_grad
             )
 
-        constraints = kwargs.pop("constraints", [])
+        constraints = list(kwargs.pop("constraints", None) or [])
         if hasattr(self.backend, "constraints"):
             for constraint in self.backend.constraints:
                 constraints.append(constraint)
-- 
2.43.0


From e473dca07d8952b6e7cd059ae455e8e1a547feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:42 +0000
Subject: [PATCH 03/47] fix: report toy and asymptotic calculators as
 unavailable when the backend lacks them

---
 src/spey/interface/statistical_model.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index 761af5f..dbe2433 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -228,13 +228,16 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the asymptotic calculator is available.
         """
-        return self.backend.expected_data != BackendBase.expected_data or (
-            self.backend.asimov_negative_loglikelihood
-            != BackendBase.asimov_negative_loglikelihood
-            and self.backend.minimize_asimov_negative_loglikelihood
-            != BackendBase.minimize_asimov_negative_loglikelihood
+        return self._backend_overrides("expected_data") or (
+            self._backend_overrides("asimov_negative_loglikelihood")
+            and self._backend_overrides("minimize_asimov_negative_loglikelihood")
         )
 
+    def _backend_overrides(self, name: str) -> bool:
+        """Whether the backend replaces the default implementation of a method."""
+        method = getattr(self.backend, name)
+        return getattr(method, "__func__", method) is not getattr(BackendBase, name)
+
     @property
     def is_toy_calculator_available(self) -> bool:
         """
@@ -246,7 +249,7 @@ class StatisticalModel(HypothesisTestingBase):
             ``bool``:
             ``True`` if the toy calculator is available.
         """
-        return self.backend.get_sampler != BackendBase.get_sampler
+        return self._backend_overrides("get_sampler")
 
     @property
     def is_chi_square_calculator_available(self) -> bool:
-- 
2.43.0


From 20ebe635d255432b36617f44430a5c962af2eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:53 +0000
Subject: [PATCH 04/47] fix: keep the negative POI range when only the upper
 bound is changed in config()

---
 src/spey/backends/default_pdf/__init__.py   | 3 ++-
 src/spey/backends/default_pdf/simple_pdf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 1eaeb4f..31a6423 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -431,7 +431,8 @@ class DefaultPDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + self._config.suggested_bounds[1:],
+            [(self._config.minimum_poi if allow_negative_signal else 0, poi_upper_bound)]
+            + self._config.suggested_bounds[1:],
             parameter_names=self._config.parameter_names,
         )
 
diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 8fefd8f..5e55243 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -265,7 +265,8 @@ class SimplePDFBase(BackendBase):
             self._config.poi_index,
             self._config.minimum_poi,
             self._config.suggested_init,
-            [(0, poi_upper_bound)] + extra_bounds,
+            [(self._config.minimum_poi if allow_negative_signal else 0, poi_upper_bound)]
+            + extra_bounds,
             parameter_names=self._config.parameter_names,
         )
 
-- 
2.43.0


From 95cd34c89c471e9ec539b0fb423b894a1acd3338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 05/47] fix: make backends added with register_backend usable
 through get_backend and get_backend_metadata

---
 src/spey/__init__.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 129d39a..474ad98 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -269,11 +269,7 @@ def get_backend(name: str) -> Callable[[Any], StatisticalModel]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = (
-            backend
-            if isinstance(backend, (BackendBase, ConverterBase))
-            else backend.load()
-        )
+        statistical_model = backend if isinstance(backend, type) else backend.load()
 
         assert hasattr(
             statistical_model, "spey_requires"
@@ -348,7 +344,7 @@ def get_backend_metadata(name: str) -> Dict[str, Any]:
     backend = _backend_entries.get(name, False)
 
     if backend:
-        statistical_model = backend.load()
+        statistical_model = backend if isinstance(backend, type) else backend.load()
         return {
             "name": getattr(statistical_model, "name", "__unknown_model__"),
             "author": getattr(statistical_model, "author", "__unknown_author__"),
-- 
2.43.0


From 347821ff043bd8a38d7672e0d1986527ae79596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 06/47] fix: keep double precision in chi2 scans

---
 src/spey/base/hypotest_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 86083bb..709ae1b 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -633,7 +633,7 @@ class HypothesisTestingBase(ABC):
                         )
                         for p in poi_test
                     ),
-                    np.float32,
+                    np.float64,
                 )
         if isinstance(poi_test, dict):
             scan_list = [
@@ -641,7 +641,7 @@ class HypothesisTestingBase(ABC):
             ]
             if len(scan_list) == 1:
                 poi_list = np.atleast_1d(poi_test[scan_list[0]])
-                llhd = np.empty(len(poi_list), dtype=np.float32)
+                llhd = np.empty(len(poi_list), dtype=np.float64)
                 with capture_logs(logging.INFO) as _:
                     current_poi_test = poi_test.copy()
                     for i, param in enumerate(poi_list):
-- 
2.43.0


From 14ab61560adb123cb785f377474d073a07d5da30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:04 +0000
Subject: [PATCH 07/47] fix: return a number as the upper POI bound from
 rescale_poi_bounds

---
 src/spey/base/model_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 65043b9..8415da2 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -187,6 +187,6 @@ class ModelConfig:
         else:
             bounds[self.poi_index] = (
                 self.minimum_poi if allow_negative_signal else 0.0,
-                bounds[self.poi_index],
+                bounds[self.poi_index][1],
             )
         return bounds
-- 
2.43.0


From e4d94cddc512712b1d3ce588fe4f7909b507bd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 08/47] fix: keep multi-parameter fixed bounds ordered and wide
 enough to contain the fixed value

---
 src/spey/base/model_config.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 8415da2..233f605 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -144,11 +144,10 @@ class ModelConfig:
         for idx, val in poi_values.items():
             if any(b is None for b in bounds[idx]):
                 continue
-            if not bounds[idx][0] < val < bounds[idx][1]:
-                bounds[idx] = (
-                    self.minimum_poi if val < 0.0 else 0.0,
-                    val + 1,
-                )
+            if idx == self.poi_index:
+                bounds[idx] = self.fixed_poi_bounds(val)[idx]
+            elif not bounds[idx][0] < val < bounds[idx][1]:
+                bounds[idx] = (min(bounds[idx][0], val), max(bounds[idx][1], val + 1))
         return bounds
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
-- 
2.43.0


From 65e43439f276f412c847dc0d83ff6cf4b0feb92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 09/47] fix: rename parameters all at once and keep their names
 unique

---
 src/spey/base/model_config.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/spey/base/model_config.py b/src/spey/base/model_config.py
index 233f605..5440eaf 100644
--- a/src/spey/base/model_config.py
+++ b/src/spey/base/model_config.py
@@ -152,14 +152,13 @@ class ModelConfig:
 
     def change_parameter_names(self, name_map: Dict[str, str]) -> None:
         """Change the parameter names"""
-        new_names = []
-        for old, new in name_map.items():
+        for old in name_map:
             if old not in self.parameter_names:
                 raise ValueError(f"Parameter '{old}' does not exist.")
-            if new in new_names:
-                raise ValueError("Each name has to be unique.")
-            new_names.append(new)
-            self.parameter_names[self.parameter_names.index(old)] = new
+        new_names = [name_map.get(name, name) for name in self.parameter_names]
+        if len(set(new_names)) != len(new_names):
+            raise ValueError("Each name has to be unique.")
+        self.parameter_names[:] = new_names
 
     def rescale_poi_bounds(
         self, allow_negative_signal: bool = True, poi_upper_bound: Optional[float] = None
-- 
2.43.0


From b922ef859e6db017264a011ffba6211422f69efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:42 +0000
Subject: [PATCH 10/47] fix: retry the fit also when parameters are unbounded,
 and never tighten a bound

---
 src/spey/optimizer/scipy_tools.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/spey/optimizer/scipy_tools.py b/src/spey/optimizer/scipy_tools.py
index 6e99af2..320309d 100644
--- a/src/spey/optimizer/scipy_tools.py
+++ b/src/spey/optimizer/scipy_tools.py
@@ -119,11 +119,13 @@ def minimize(
             log.warning("Optimiser has not been able to satisfy all the conditions:")
             log.warning(opt.message + " Expanding the bounds...")
             init_pars = list(opt.x)
-            for bdx, bound in enumerate(bounds):
-                if bdx == poi_index:
-                    bounds[bdx] = (bound[0], bound[1] * 2.0)
-                else:
-                    bounds[bdx] = (min(bound[0], bound[0] * 10.0), bound[1] * 10.0)
+            for bdx, (low, high) in enumerate(bounds or []):
+                scale = 2.0 if bdx == poi_index else 10.0
+                if low is not None and bdx != poi_index:
+                    low = min(low, low * scale)
+                if high is not None:
+                    high = max(high, high * scale)
+                bounds[bdx] = (low, high)
         elif opt.success:
             break
 
-- 
2.43.0


From 8f8305f0536fcd8de9fcd3ea4f6819e91326e742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:43 +0000
Subject: [PATCH 11/47] fix: reject overlapping merge groups

---
 src/spey/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index 61a02b0..b22c553 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -185,7 +185,7 @@ def merge_correlated_bins(
     N = covariance_matrix.shape[0]
 
     # Flatten merge_groups and find missing indices
-    merged_indices = sorted({i for g in merge_groups for i in g})
+    merged_indices = sorted(i for g in merge_groups for i in g)
     assert len(set(merged_indices)) == len(
         merged_indices
     ), "Overlapping indices in merge_groups"
-- 
2.43.0


From 62de26aa943095ecf1dfd663161f6b6813b016d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 12/47] fix: sample auxiliary data for models with signal
 uncertainties, single bins and single toys

---
 src/spey/backends/default_pdf/__init__.py | 2 +-
 src/spey/backends/distributions.py        | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 31a6423..5acbbcd 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -734,7 +734,7 @@ class DefaultPDFBase(BackendBase):
             sample = self.main_model.sample(pars, sample_size)
 
             if include_auxiliary:
-                constraint_sample = self.constraint_model.sample(pars[1:], sample_size)
+                constraint_sample = self.constraint_model.sample(pars, sample_size)
                 sample = np.hstack([sample, constraint_sample])
 
             return sample
diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index cd34f2e..80a42c3 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -147,8 +147,11 @@ class MultivariateNormal:
 
     def sample(self, value: np.ndarray, sample_size: int) -> np.ndarray:
         """Generate samples"""
-        return multivariate_normal(self.mean, self.cov(value[self.domain])).rvs(
-            size=(sample_size,)
+        # scipy squeezes axes of length one
+        return (
+            multivariate_normal(self.mean, self.cov(value[self.domain]))
+            .rvs(size=(sample_size,))
+            .reshape(sample_size, len(self.mean))
         )
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
-- 
2.43.0


From 58a04eff14ac482a0d2c804995d5484b7879640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:57 +0000
Subject: [PATCH 13/47] fix: do not clip the log-determinant of a
 parameter-dependent covariance

---
 src/spey/backends/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index 80a42c3..ec59df2 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -125,9 +125,7 @@ class MultivariateNormal:
 
         if callable(cov):
             self._inv_cov = lambda val: np.linalg.inv(cov(val))
-            self._logdet_cov = lambda val: np.clip(
-                np.linalg.slogdet(cov(val))[1], 1e-20, None
-            )
+            self._logdet_cov = lambda val: np.linalg.slogdet(cov(val))[1]
         else:
             # for code efficiency
             inv = np.linalg.inv(cov)
-- 
2.43.0


From c0ebab2f17cd532294ae5adec2b786f987806de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 14/47] fix: build the positivity constraint of default.poisson
 from the absolute uncertainties

---
 src/spey/backends/default_pdf/simple_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index 5e55243..d691c8c 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -605,7 +605,7 @@ class Poisson(SimplePDFBase):
                 """Compute the constraint term"""
                 return (
                     self.background_yields
-                    + pars[slice(1, len(self.data) + 1)] * self.background_yields
+                    + pars[slice(1, len(self.data) + 1)] * self.absolute_uncertainties
                 )
 
             jac_constr = jacobian(constraint)
-- 
2.43.0


From 421fee9aa6500afd580d369f0ac98f7337acb5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 15/47] fix: accept data given as a plain list in Poisson terms

---
 src/spey/backends/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/distributions.py b/src/spey/backends/distributions.py
index ec59df2..ff05fe4 100644
--- a/src/spey/backends/distributions.py
+++ b/src/spey/backends/distributions.py
@@ -45,8 +45,9 @@ class Poisson:
 
     def log_prob(self, value: np.ndarray) -> np.ndarray:
         """Compute log-probability"""
+        value = np.array(value)
         # for code efficiency
-        if np.array(value).dtype in [np.int32, np.int16, np.int64]:
+        if value.dtype in [np.int32, np.int16, np.int64]:
             return logpmf(value, self.loc).astype(np.float64)
 
         return (value * np.log(self.loc) - self.loc - gammaln(value + 1.0)).astype(
-- 
2.43.0


From 12a60d8cc6fd87b9a0a8ee158fc22cc56263eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:20 +0000
Subject: [PATCH 16/47] fix: compute observed upper limits when the expectation
 type is given as a string

---
 src/spey/hypothesis_testing/upper_limits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/hypothesis_testing/upper_limits.py b/src/spey/hypothesis_testing/upper_limits.py
index ebffbde..62550da 100644
--- a/src/spey/hypothesis_testing/upper_limits.py
+++ b/src/spey/hypothesis_testing/upper_limits.py
@@ -173,7 +173,7 @@ def find_poi_upper_limit(
         "1sigma",
         "2sigma",
     ], f"Unknown pvalue range {expected_pvalue}"
-    if expected is ExpectationType.observed:
+    if expected == ExpectationType.observed:
         expected_pvalue = "nominal"
     test_stat = "q" if allow_negative_signal else "qtilde"
 
@@ -201,7 +201,7 @@ def find_poi_upper_limit(
 
     result = []
     index_range = {
-        "nominal": [0 if expected is ExpectationType.observed else 2],
+        "nominal": [0 if expected == ExpectationType.observed else 2],
         "1sigma": range(1, 4),
         "2sigma": range(0, 5),
     }
-- 
2.43.0


From 872f64bf594d522e4d11e4a5c93e3ace29fec0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:32 +0000
Subject: [PATCH 17/47] fix: accept any real scalar as the tested POI value

---
 src/spey/base/hypotest_base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 709ae1b..2c45422 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -796,14 +796,14 @@ class HypothesisTestingBase(ABC):
 
         def logpdf(mu: Union[float, np.ndarray]) -> float:
             return -self.likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                 expected=expected,
                 **kwargs,
             )
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
@@ -889,7 +889,7 @@ class HypothesisTestingBase(ABC):
 
         def logpdf_asimov(mu: Union[float, np.ndarray]) -> float:
             return -self.asimov_likelihood(
-                poi_test=mu if isinstance(mu, float) else mu[0],
+                poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                 expected=expected,
                 test_statistics=test_statistics,
                 **kwargs,
@@ -985,7 +985,7 @@ class HypothesisTestingBase(ABC):
             ) -> float:
                 """Compute logpdf with respect to poi and given data"""
                 return -self.likelihood(
-                    poi_test=float(mu) if isinstance(mu, (float, int)) else mu[0],
+                    poi_test=float(mu) if np.ndim(mu) == 0 else mu[0],
                     expected=expected,
                     data=data,
                     **kwargs,
-- 
2.43.0


From 9b08af90fa13cb40af18d146c07e331534e6ef53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 18/47] fix: estimate sigma_mu from the distance to the Asimov
 best fit

---
 src/spey/base/hypotest_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 2c45422..cb3b9ec 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -897,7 +897,8 @@ class HypothesisTestingBase(ABC):
 
         qmuA = teststat_func(poi_test, muhatA, -min_nllA, logpdf_asimov)
 
-        return 1.0 if qmuA <= 0.0 else np.true_divide(poi_test, np.sqrt(qmuA))
+        mu = 0.0 if test_statistics == "q0" else poi_test
+        return 1.0 if qmuA <= 0.0 else np.true_divide(np.abs(mu - muhatA), np.sqrt(qmuA))
 
     @warning_tracker
     def exclusion_confidence_level(
-- 
2.43.0


From b2215ed9f893cab0b123ccefd736809bc711e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 19/47] fix: compute pulls for lists of POI values and at the
 best fit

---
 src/spey/base/hypotest_base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index cb3b9ec..9a43982 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -715,8 +715,14 @@ class HypothesisTestingBase(ABC):
         muhat, min_nll = self.maximize_likelihood(
             expected=expected, allow_negative_signal=allow_negative_signal, **kwargs
         )
-        llhd = self.likelihood(poi_test=poi_test, expected=expected, **kwargs)
-        return np.sign(muhat - poi_test) * np.sqrt(2.0 * (llhd - min_nll))
+
+        def compute(poi: PoiTest) -> float:
+            llhd = self.likelihood(poi_test=poi, expected=expected, **kwargs)
+            return np.sign(muhat - poi) * np.sqrt(np.clip(2.0 * (llhd - min_nll), 0.0, None))
+
+        if isinstance(poi_test, Iterable) and not isinstance(poi_test, dict):
+            return np.array([compute(poi) for poi in poi_test])
+        return compute(poi_test)
 
     def _prepare_for_hypotest(
         self,
-- 
2.43.0


From feac8c9e2196fa4f206bf2e58052f1771a0d5337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 20/47] fix: evaluate the Hessian for sigma_mu on the requested
 data

---
 src/spey/interface/statistical_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spey/interface/statistical_model.py b/src/spey/interface/statistical_model.py
index dbe2433..6055efd 100644
--- a/src/spey/interface/statistical_model.py
+++ b/src/spey/interface/statistical_model.py
@@ -1217,7 +1217,10 @@ class StatisticalModel(HypothesisTestingBase):
             variance on parameter of interest.
         """
         try:
-            hessian_func = self.backend.get_hessian_logpdf_func(expected=expected)
+            data = kwargs.get("data")
+            hessian_func = self.backend.get_hessian_logpdf_func(
+                expected=expected, **({} if data is None else {"data": data})
+            )
         except NotImplementedError as exc:
             raise MethodNotAvailable(
                 f"{self.backend_type} backend does not have Hessian definition."
-- 
2.43.0


From 26438e88d98e244c71926e871696454070c1ff3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 21/47] fix: index the combiner with any integer, which
 find_most_sensitive relies on

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index d765803..39ad027 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -318,8 +318,8 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
             :obj:`~spey.system.exceptions.AnalysisQueryError`: If an integer index
               is out of range or the analysis name is not found in the stack.
         """
-        if isinstance(item, int):
-            if item < len(self):
+        if isinstance(item, (int, np.integer)):
+            if -len(self) <= item < len(self):
                 return self.statistical_models[item]
             raise AnalysisQueryError(
                 "Request exceeds number of statistical models available."
-- 
2.43.0


From c11546a377ae0a677c910c7bebfe68cc5ca0ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:22 +0000
Subject: [PATCH 22/47] fix: do not lose, strand or resurrect in-flight
 computations on cache eviction and clearing

---
 src/spey/system/cache.py | 71 ++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index e744fbd..0953f44 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -265,10 +265,8 @@ class _PerInstanceCacheDescriptor:
                         return copy.deepcopy(value) if copy_on_return else value
                     event = events[key]
                 else:
-                    event = threading.Event()
-                    events[key] = event
+                    own = events[key] = threading.Event()
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None
 
             if event is not None:
@@ -282,23 +280,21 @@ class _PerInstanceCacheDescriptor:
                 result = fn(obj, *args, **kwargs)
             except BaseException:
                 with lock:
-                    if cache.get(key) is _COMPUTING:
-                        del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()
+                    if events.get(key) is own:
+                        del cache[key], events[key]
+                own.set()
                 raise
 
             with lock:
-                cache[key] = result
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()
+                # If the cache has been cleared in the meantime, the result is stale.
+                if events.get(key) is own:
+                    del events[key]
+                    cache[key] = result
+                    order.append(key)
+                    if maxsize is not None:
+                        while len(order) > maxsize:
+                            cache.pop(order.popleft(), None)
+            own.set()
 
             return copy.deepcopy(result) if copy_on_return else result
 
@@ -312,12 +308,12 @@ class _PerInstanceCacheDescriptor:
         def cache_info() -> dict:
             """Return a snapshot of the cache state for this instance."""
             with lock:
-                return {"size": len(cache), "maxsize": maxsize}
+                return {"size": len(order), "maxsize": maxsize}
 
         def get_cache() -> dict:
             """Return a copy of the current cache contents (for testing/debugging)."""
             with lock:
-                return copy.deepcopy(cache)
+                return copy.deepcopy({key: cache[key] for key in order})
 
         wrapper.cache_clear = cache_clear
         wrapper.cache_info = cache_info
@@ -430,10 +426,8 @@ def cache_results(
                     event = events[key]
                 else:
                     # First caller for this key -- mark it as in-flight.
-                    event = threading.Event()
-                    events[key] = event
+                    own = events[key] = threading.Event()
                     cache[key] = _COMPUTING
-                    order.append(key)
                     event = None  # signals "I am the computing thread"
 
             if event is not None:
@@ -452,25 +446,24 @@ def cache_results(
             except BaseException:
                 # Remove the sentinel so future calls can retry.
                 with lock:
-                    if cache.get(key) is _COMPUTING:
-                        del cache[key]
-                        order.remove(key)
-                    evt = events.pop(key, None)
-                if evt is not None:
-                    evt.set()  # wake up waiters
+                    if events.get(key) is own:
+                        del cache[key], events[key]
+                own.set()  # wake up waiters
                 raise
 
             # ---- store result (under lock) ---------------------------------
             with lock:
-                cache[key] = result
-                # Evict oldest entries if maxsize is exceeded.
-                if maxsize is not None:
-                    while len(cache) > maxsize:
-                        oldest = order.popleft()
-                        cache.pop(oldest, None)
-                evt = events.pop(key, None)
-            if evt is not None:
-                evt.set()  # wake up any waiting threads
+                # If the cache has been cleared in the meantime, the result is stale.
+                if events.get(key) is own:
+                    del events[key]
+                    cache[key] = result
+                    order.append(key)
+                    # Evict oldest entries if maxsize is exceeded; computations in
+                    # flight are never evicted, others may be waiting for them.
+                    if maxsize is not None:
+                        while len(order) > maxsize:
+                            cache.pop(order.popleft(), None)
+            own.set()  # wake up any waiting threads
 
             return copy.deepcopy(result) if copy_on_return else result
 
@@ -485,12 +478,12 @@ def cache_results(
         def cache_info() -> dict:
             """Return a snapshot of the cache state."""
             with lock:
-                return {"size": len(cache), "maxsize": maxsize}
+                return {"size": len(order), "maxsize": maxsize}
 
         def get_cache() -> dict:
             """Return a copy of the current cache contents (for testing/debugging)."""
             with lock:
-                return copy.deepcopy(cache)
+                return copy.deepcopy({key: cache[key] for key in order})
 
         wrapper.cache_clear = cache_clear
         wrapper.cache_info = cache_info
-- 
2.43.0


From 7d19a786509ac585bf75e5c4e279f53da10c85fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 23/47] fix: keep cached methods separate for overridden
 methods and copied instances

---
 src/spey/system/cache.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 0953f44..2eed6cb 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -135,10 +135,8 @@ class _PerInstanceCacheDescriptor:
 
     On the first ``instance.method`` attribute lookup the descriptor builds a
     dedicated cached callable whose internal cache storage is private to that
-    instance.  The wrapper is stored in ``instance.__dict__[method_name]``
-    so that Python's attribute-lookup rules (instance dict beats non-data
-    descriptor) bypass the descriptor on all subsequent accesses -- zero
-    overhead after the first call.
+    instance.  The wrapper is stored in ``instance.__dict__`` and reused on all
+    subsequent accesses.
 
     For classes that use ``__slots__`` without ``__dict__``, the descriptor
     falls back to a descriptor-level mapping keyed by ``id(obj)``.  If the
@@ -197,13 +195,16 @@ class _PerInstanceCacheDescriptor:
             inst_dict = obj.__dict__
         except AttributeError:
             return self._get_fallback(obj)
-        wrapper = inst_dict.get(self._name)
-        if wrapper is None:
-            wrapper = self._build_wrapper(obj)
-            # Storing under the method name makes subsequent lookups land in
-            # the instance dict directly (non-data descriptor rule), so the
-            # descriptor overhead is paid exactly once per instance.
-            inst_dict[self._name] = wrapper
+        # One slot per descriptor: an overridden method reached through super()
+        # has its own cache.  A copied instance inherits the slot of the original,
+        # whose wrapper must not be used.
+        slot = f"_cached_{self._name}_{id(self):x}"
+        wrapper = inst_dict.get(slot)
+        if wrapper is None or wrapper.instance is not obj:
+            with self._fallback_lock:
+                wrapper = inst_dict.get(slot)
+                if wrapper is None or wrapper.instance is not obj:
+                    wrapper = inst_dict[slot] = self._build_wrapper(obj)
         return wrapper
 
     def _get_fallback(self, obj: Any) -> Callable:
@@ -318,6 +319,7 @@ class _PerInstanceCacheDescriptor:
         wrapper.cache_clear = cache_clear
         wrapper.cache_info = cache_info
         wrapper.get_cache = get_cache
+        wrapper.instance = obj
         return wrapper
 
 
-- 
2.43.0


From af83bfab47c2788b2ed4c1a250ef5ba14691d16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:13 +0000
Subject: [PATCH 24/47] fix: let instances with slots be collected although
 their methods are cached

---
 src/spey/base/hypotest_base.py |  2 +-
 src/spey/system/cache.py       | 42 ++++++++++++++++++----------------
 2 files changed, 23 insertions(+), 21 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 9a43982..de54103 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -156,7 +156,7 @@ class HypothesisTestingBase(ABC):
           calculator is selected.
     """
 
-    __slots__ = ["ntoys"]
+    __slots__ = ["ntoys", "__weakref__"]
 
     def __init__(self, ntoys: int = 1000):
         self.ntoys = ntoys
diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 2eed6cb..20d77e6 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -179,9 +179,10 @@ class _PerInstanceCacheDescriptor:
         self.__qualname__ = fn.__qualname__
         self.__annotations__ = getattr(fn, "__annotations__", {})
         # Fallback storage for __slots__-only classes (no __dict__).
-        self._fallback_lock = threading.Lock()
-        self._fallback_wrappers: dict[int, Callable] = {}
-        self._fallback_refs: dict[int, weakref.ref] = {}
+        # Reentrant: garbage collection may run the cleanup while it is held.
+        self._fallback_lock = threading.RLock()
+        self._fallback_states: dict[int, tuple] = {}
+        self._fallback_refs: dict[int, Any] = {}
 
     def __set_name__(self, _owner: type, name: str) -> None:
         self._name = name
@@ -211,40 +212,41 @@ class _PerInstanceCacheDescriptor:
         """Fallback for ``__slots__``-only classes without ``__dict__``."""
         obj_id = id(obj)
         with self._fallback_lock:
-            wrapper = self._fallback_wrappers.get(obj_id)
-            if wrapper is not None:
-                return wrapper
-            wrapper = self._build_wrapper(obj)
-            self._fallback_wrappers[obj_id] = wrapper
-            # Register weak-ref cleanup if the instance supports it.
-            try:
-                ref = weakref.ref(obj, self._make_fallback_cleanup(obj_id))
+            state = self._fallback_states.get(obj_id)
+            if state is None:
+                state = self._fallback_states[obj_id] = self._new_state()
+                # Register weak-ref cleanup if the instance supports it.
+                try:
+                    ref = weakref.ref(obj, self._make_fallback_cleanup(obj_id))
+                except TypeError:
+                    ref = obj  # Not weakly referenceable; entry persists.
                 self._fallback_refs[obj_id] = ref
-            except TypeError:
-                pass  # Not weakly referenceable; entry persists.
-            return wrapper
+        # Only the storage is kept here: a wrapper would keep the instance alive.
+        return self._build_wrapper(obj, state)
 
     def _make_fallback_cleanup(self, obj_id: int) -> Callable:
         """Return a weak-ref callback that removes the fallback entry for *obj_id*."""
 
         def _cleanup(_ref: weakref.ref) -> None:  # noqa: ARG001
             with self._fallback_lock:
-                self._fallback_wrappers.pop(obj_id, None)
+                self._fallback_states.pop(obj_id, None)
                 self._fallback_refs.pop(obj_id, None)
 
         return _cleanup
 
-    def _build_wrapper(self, obj: Any) -> Callable:
+    @staticmethod
+    def _new_state() -> tuple:
+        """Create the storage of a cache: results, lock, in-flight events and order."""
+        return {}, threading.Lock(), {}, deque()
+
+    def _build_wrapper(self, obj: Any, state: tuple = None) -> Callable:
         """Create a standalone cached callable bound to *obj*."""
         fn = self._fn
         maxsize = self._maxsize
         copy_on_return = self._copy_on_return
         _sig = self._sig
 
-        cache: dict = {}
-        lock = threading.Lock()
-        events: dict = {}
-        order: deque = deque()
+        cache, lock, events, order = self._new_state() if state is None else state
 
         @wraps(fn)
         def wrapper(*args, **kwargs):
-- 
2.43.0


From c6a69c45a86bddc85465401081d8a181b302bdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:19 +0000
Subject: [PATCH 25/47] fix: build cache keys from the content of object arrays
 and of dictionaries with mixed keys

---
 src/spey/system/cache.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 20d77e6..0d5db27 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -16,7 +16,7 @@ Each argument is converted to a *hashable token* via :func:`_make_token`:
   SHA-256 hash of the raw buffer so the key captures the full content
   without retaining a copy of the array bytes.
 * ``list`` / ``tuple`` -> recursively tokenised element-by-element.
-* ``dict`` -> sorted-items tuple of ``(key_token, value_token)`` pairs.
+* ``dict`` -> tagged frozenset of ``(key_token, value_token)`` pairs.
 * Anything else -> falls back to ``repr()``.
 
 The final key is a ``(args_token, sorted_kwargs_token)`` tuple that is
@@ -92,11 +92,15 @@ def _make_token(obj: Any) -> Any:
     if isinstance(obj, np.ndarray):
         # Hash the raw buffer content (O(n) time, O(1) space) instead of
         # storing a full copy via tobytes() (O(n) time, O(n) space).
+        if obj.dtype.hasobject:  # the buffer holds pointers rather than the content
+            return (obj.shape, obj.dtype.str, _make_token(obj.tolist()))
         buf = np.ascontiguousarray(obj)
         digest = hashlib.sha256(buf.data).digest()
         return (obj.shape, obj.dtype.str, digest)
     if isinstance(obj, dict):
-        return tuple(sorted((_make_token(k), _make_token(v)) for k, v in obj.items()))
+        # Not a plain tuple of pairs, which a list of pairs is represented by, and not
+        # sorted, since neither keys nor values need to be comparable.
+        return (dict, frozenset((_make_token(k), _make_token(v)) for k, v in obj.items()))
     if isinstance(obj, (list, tuple)):
         return tuple(_make_token(item) for item in obj)
     if isinstance(obj, (set, frozenset)):
-- 
2.43.0


From 89081a0517e39e9f10befd3f96cf55d5f78c5963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 26/47] fix: accept init_pars in combiner fits, which chi2
 always passes

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 39ad027..12f8f0b 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -721,6 +721,11 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         statistical_model_options = statistical_model_options or {}
         data = data or {}
 
+        # POI is the only parameter of the fit below
+        init_pars = optimiser_options.pop("init_pars", None)
+        if initial_muhat_value is None and init_pars is not None:
+            initial_muhat_value = init_pars[0]
+
         # muhat initial value estimation in gaussian limit
         mu_init = initial_muhat_value or 0.0
         if initial_muhat_value is None:
@@ -870,6 +875,11 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         """
         allow_negative_signal: bool = True if test_statistics in ["q", "qmu"] else False
 
+        # POI is the only parameter of the fit below
+        init_pars = optimiser_options.pop("init_pars", None)
+        if initial_muhat_value is None and init_pars is not None:
+            initial_muhat_value = init_pars[0]
+
         config: ModelConfig = ModelConfig(
             poi_index=0,
             minimum_poi=self.minimum_poi,
-- 
2.43.0


From 64b125df5c7e90adeaa2b4925a819dd3aa9e275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 27/47] fix: place the confidence contour at half the
 chi-square quantile above the minimum NLL

---
 src/spey/multiparameter/contour.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index f6bbf79..b7c57e9 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -675,7 +675,7 @@ def find_contour(
     # DoF = k = number of contour parameters (profiled params are not DoF)
     # ------------------------------------------------------------------
     delta = float(chi2_dist.ppf(confidence_level, df=k))
-    threshold = nll_min + delta
+    threshold = nll_min + 0.5 * delta
     log.debug("delta(chi2, df=%d) = %.4f, NLL threshold = %.6f", k, delta, threshold)
 
     # A basin contributes to the confidence region iff its NLL is below the
-- 
2.43.0


From bb83a364fe952637e0b2a6cc247e5d0e460cf949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 28/47] fix: profile parameters of models with nonlinear
 constraints in find_contour

---
 src/spey/multiparameter/contour.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index b7c57e9..1f3a7ed 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -171,6 +171,7 @@ import autograd
 import autograd.numpy as anp
 import numpy as np
 from joblib import Parallel, cpu_count, delayed
+from scipy.optimize import NonlinearConstraint
 from scipy.optimize import minimize as _sp_minimize
 from scipy.optimize import root_scalar
 from scipy.stats import chi2 as chi2_dist
@@ -599,12 +600,17 @@ def find_contour(
             # Adapt backend constraints (full-param) to profile-param space.
             constraints = []
             for c in _backend_constraints:
-                orig_fun = c["fun"]
+                as_dict = isinstance(c, dict)
+                orig_fun = c["fun"] if as_dict else c.fun
 
                 def _wrapped(pp, _f=orig_fun, _cp=cp):
                     return _f(_assemble(_cp, pp))
 
-                constraints.append({**c, "fun": _wrapped})
+                constraints.append(
+                    {**c, "fun": _wrapped}
+                    if as_dict
+                    else NonlinearConstraint(_wrapped, c.lb, c.ub)
+                )
 
             res = _sp_minimize(
                 obj,
-- 
2.43.0


From 546b5af6cdb136186b06e0c9dc23e8aa08eccc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:43 +0000
Subject: [PATCH 29/47] fix: keep only points on the contour and within the
 bounds from RATTLE chains

---
 src/spey/multiparameter/contour.py | 33 +++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 1f3a7ed..523720e 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -1758,6 +1758,20 @@ def _rattle_walk(
         n = np.linalg.norm(raw)
         return raw / n if n > 1e-15 else raw
 
+    def _valid(theta_: np.ndarray) -> bool:
+        r"""Whether *theta_* has reached the contour and is within the bounds."""
+        return abs(nll_scalar(theta_) - threshold) <= max(tol, 1e-6) and (
+            bounds is None
+            or all(
+                (lo is None or theta_[i] >= lo) and (hi is None or theta_[i] <= hi)
+                for i, (lo, hi) in enumerate(bounds)
+            )
+        )
+
+    if not _valid(theta):
+        log.debug("RATTLE chain does not start on the contour; skipping.")
+        return np.empty((0, k), dtype=float)
+
     p = _tangent_momentum(theta)
     resample_every = max(1, n_steps // 5)
 
@@ -1782,16 +1796,15 @@ def _rattle_walk(
             log.debug("RATTLE step failed at step %d; terminating chain.", step)
             break
 
-        # Terminate if any parameter has left its allowed range
-        if bounds is not None:
-            if any(
-                (lo is not None and theta[i] < lo) or (hi is not None and theta[i] > hi)
-                for i, (lo, hi) in enumerate(bounds)
-            ):
-                log.debug(
-                    "RATTLE chain left parameter bounds at step %d; terminating.", step
-                )
-                break
+        # Terminate if any parameter has left its allowed range, or if the projection
+        # could not bring the point back on the contour
+        if not _valid(theta):
+            log.debug(
+                "RATTLE chain left the contour or parameter bounds at step %d; "
+                "terminating.",
+                step,
+            )
+            break
 
         trajectory.append(theta.copy())
 
-- 
2.43.0


From 6602c9259a295c42bbdfa7af6ac321b88ad3f69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 30/47] fix: do not write the colour prefix into log records
 shared with other handlers

---
 src/spey/system/logger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 43218eb..864d183 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -1,4 +1,5 @@
 """Logging style for spey"""
+import copy
 import logging
 import sys
 from contextlib import contextmanager
@@ -36,6 +37,8 @@ class ColoredFormatter(logging.Formatter):
         else:  # ANYTHING ELSE
             color = "\x1b[0mSpey: "
 
+        # the record is shared with the other handlers
+        record = copy.copy(record)
         record.msg = color + str(record.msg) + "\x1b[0m"
         return logging.Formatter.format(self, record)
 
-- 
2.43.0


From 8ea268cdb0a3ff741b5f3bc920fd9b83e51c2464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 31/47] fix: replace all handlers of the Spey logger on
 initialisation

---
 src/spey/system/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 864d183..069141a 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -65,7 +65,7 @@ def init(LoggerStream=sys.stdout):
     # we need to replace all root loggers by ma5 loggers for a proper
     # interface with madgraph5
     SpeyLogger = logging.getLogger("Spey")
-    for hdlr in SpeyLogger.handlers:
+    for hdlr in SpeyLogger.handlers[:]:
         SpeyLogger.removeHandler(hdlr)
     hdlr = logging.StreamHandler(LoggerStream)
     fmt = ColoredFormatter("%(message)s")
-- 
2.43.0


From f78821b1658162f8cf84fdb579a8d849717fa9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 32/47] fix: write the captured log messages also when the
 captured block fails

---
 src/spey/system/logger.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 069141a..0e47930 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -146,13 +146,6 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
 
     try:
         yield
-        # Write unique messages to the provided stream
-        for m in records:
-            stream.write(m + "\n")
-        try:
-            stream.flush()
-        except Exception:
-            pass
     finally:
         spey_logger.removeHandler(handler)
         spey_logger.setLevel(prev_level)
@@ -160,3 +153,11 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
         # Restore original handlers
         for h in prev_handlers:
             spey_logger.addHandler(h)
+
+        # Write unique messages to the provided stream, also after a failure
+        for m in records:
+            stream.write(m + "\n")
+        try:
+            stream.flush()
+        except Exception:
+            pass
-- 
2.43.0


From c9811409abd738210dfe59bf8eddccd1d8375e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:55 +0000
Subject: [PATCH 33/47] fix: a copied instance does not keep the original alive
 through its cached methods

---
 src/spey/system/cache.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/src/spey/system/cache.py b/src/spey/system/cache.py
index 0d5db27..08f5ff4 100644
--- a/src/spey/system/cache.py
+++ b/src/spey/system/cache.py
@@ -133,6 +133,22 @@ def _has_self_param(fn: Callable) -> bool:
     return bool(params) and params[0] == "self"
 
 
+class _InstanceStorage:
+    """Cache storage kept in the ``__dict__`` of the instance that owns it."""
+
+    __slots__ = ("owner", "state")
+
+    def __init__(self, obj: Any, state: tuple) -> None:
+        try:
+            self.owner = weakref.ref(obj)
+        except TypeError:  # Not weakly referenceable.
+            self.owner = lambda: obj
+        self.state = state
+
+    def __deepcopy__(self, memo: dict) -> "_InstanceStorage":
+        return self  # Replaced by the copied instance, which does not own it.
+
+
 class _PerInstanceCacheDescriptor:
     """
     Non-data descriptor that provides per-instance caching for instance methods.
@@ -202,15 +218,15 @@ class _PerInstanceCacheDescriptor:
             return self._get_fallback(obj)
         # One slot per descriptor: an overridden method reached through super()
         # has its own cache.  A copied instance inherits the slot of the original,
-        # whose wrapper must not be used.
+        # which must not be used, nor keep the original alive.
         slot = f"_cached_{self._name}_{id(self):x}"
-        wrapper = inst_dict.get(slot)
-        if wrapper is None or wrapper.instance is not obj:
+        storage = inst_dict.get(slot)
+        if storage is None or storage.owner() is not obj:
             with self._fallback_lock:
-                wrapper = inst_dict.get(slot)
-                if wrapper is None or wrapper.instance is not obj:
-                    wrapper = inst_dict[slot] = self._build_wrapper(obj)
-        return wrapper
+                storage = inst_dict.get(slot)
+                if storage is None or storage.owner() is not obj:
+                    storage = inst_dict[slot] = _InstanceStorage(obj, self._new_state())
+        return self._build_wrapper(obj, storage.state)
 
     def _get_fallback(self, obj: Any) -> Callable:
         """Fallback for ``__slots__``-only classes without ``__dict__``."""
@@ -243,14 +259,14 @@ class _PerInstanceCacheDescriptor:
         """Create the storage of a cache: results, lock, in-flight events and order."""
         return {}, threading.Lock(), {}, deque()
 
-    def _build_wrapper(self, obj: Any, state: tuple = None) -> Callable:
+    def _build_wrapper(self, obj: Any, state: tuple) -> Callable:
         """Create a standalone cached callable bound to *obj*."""
         fn = self._fn
         maxsize = self._maxsize
         copy_on_return = self._copy_on_return
         _sig = self._sig
 
-        cache, lock, events, order = self._new_state() if state is None else state
+        cache, lock, events, order = state
 
         @wraps(fn)
         def wrapper(*args, **kwargs):
@@ -325,7 +341,6 @@ class _PerInstanceCacheDescriptor:
         wrapper.cache_clear = cache_clear
         wrapper.cache_info = cache_info
         wrapper.get_cache = get_cache
-        wrapper.instance = obj
         return wrapper
 
 
-- 
2.43.0


From 15817ba3c927d783a281a124320daa0dba9653d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 34/47] fix: bounds of a fit with fixed parameters always
 contain the fixed values

---
 src/spey/optimizer/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/spey/optimizer/core.py b/src/spey/optimizer/core.py
index de44c7c..740d2cc 100644
--- a/src/spey/optimizer/core.py
+++ b/src/spey/optimizer/core.py
@@ -120,6 +120,16 @@ def fit(
             init_pars[model_configuration.poi_index] = fixed_poi_value
             fixed_vals[model_configuration.poi_index] = True
 
+        # bounds that exclude the fixed value would leave the fit without a solution
+        par_bounds = list(par_bounds)
+        for idx, isfixed in enumerate(fixed_vals):
+            if isfixed:
+                low, high = par_bounds[idx]
+                par_bounds[idx] = (
+                    low if low is None else min(low, init_pars[idx]),
+                    high if high is None else max(high, init_pars[idx]),
+                )
+
     if model_configuration.suggested_fixed is not None:
         for idx, isfixed in enumerate(model_configuration.suggested_fixed):
             if isfixed:
-- 
2.43.0


From c097fe2102bf4a7454df21d1ffd12f9866abf06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:59 +0000
Subject: [PATCH 35/47] fix: sigma_mu falls back to the Asimov estimate when
 the Hessian is singular or gives no variance

---
 src/spey/base/hypotest_base.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index de54103..46d7d59 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -878,14 +878,24 @@ class HypothesisTestingBase(ABC):
         """
         if hasattr(self, "sigma_mu_from_hessian"):
             try:
-                return self.sigma_mu_from_hessian(
+                sigma = self.sigma_mu_from_hessian(
                     poi_test=poi_test, expected=expected, **kwargs
                 )
+                if np.isfinite(sigma):
+                    return sigma
+                log.warning(
+                    "Hessian does not provide a valid variance, "
+                    "continuing with the approximate method."
+                )
             except MethodNotAvailable:
                 log.warning(
                     "Hessian implementation is not available for this backend, "
                     "continuing with the approximate method."
                 )
+            except np.linalg.LinAlgError:
+                log.warning(
+                    "Hessian is singular, continuing with the approximate method."
+                )
         teststat_func = get_test_statistic(test_statistics)
 
         muhatA, min_nllA = self.maximize_asimov_likelihood(
-- 
2.43.0


From 451c6e68e2841fcfcbb64756d7421cc1610e9aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 36/47] fix: chi2_test does not overlook crossings next to the
 minimum of a narrow profile

---
 src/spey/base/hypotest_base.py | 1 +
 src/spey/base/utils.py         | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 46d7d59..2e6d590 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -1654,6 +1654,7 @@ class HypothesisTestingBase(ABC):
                 xtol=xtol,
                 rtol=rtol,
                 maxiter=maxiter,
+                node=reference,
             )
             left_found = any(r < reference - 1e-12 for r in roots_sorted)
             right_found = any(r > reference + 1e-12 for r in roots_sorted)
diff --git a/src/spey/base/utils.py b/src/spey/base/utils.py
index dd2bc62..098f6cc 100644
--- a/src/spey/base/utils.py
+++ b/src/spey/base/utils.py
@@ -1,4 +1,4 @@
-from typing import Callable, List, Tuple, Union
+from typing import Callable, List, Optional, Tuple, Union
 import logging
 import numpy as np
 
@@ -139,6 +139,7 @@ def _enumerate_crossings_1d(
     xtol: float = 2e-12,
     rtol: float = 1e-4,
     maxiter: int = 10000,
+    node: Optional[float] = None,
 ) -> List[float]:
     r"""
     Return **every** root of a 1D scalar function on ``[lo, hi]``.
@@ -161,6 +162,8 @@ def _enumerate_crossings_1d(
             feature is narrower than ``(hi-lo)/(n_scan-1)`` the feature may
             be skipped.
         xtol, rtol, maxiter: Forwarded to the inner root-finder.
+        node: Additional grid point, e.g. the position of the minimum, without which
+            a pair of roots on either side of it can fall between two grid points.
 
     Returns:
         ``List[float]`` — sorted, deduplicated root list (possibly empty).
@@ -172,6 +175,9 @@ def _enumerate_crossings_1d(
     n_scan = max(3, int(n_scan))
 
     xs = np.linspace(float(lo), float(hi), n_scan)
+    if node is not None and lo < node < hi:
+        xs = np.union1d(xs, [float(node)])
+        n_scan = len(xs)
     fs = np.full(n_scan, np.nan, dtype=float)
     for i, x in enumerate(xs):
         try:
-- 
2.43.0


From e6812bc6152a1917080d7a2c8c0d90bc1394ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 37/47] fix: models keep their own copy of the signal parameter
 bounds

---
 src/spey/backends/default_pdf/__init__.py   | 3 ++-
 src/spey/backends/default_pdf/simple_pdf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spey/backends/default_pdf/__init__.py b/src/spey/backends/default_pdf/__init__.py
index 5acbbcd..b5c1dc3 100644
--- a/src/spey/backends/default_pdf/__init__.py
+++ b/src/spey/backends/default_pdf/__init__.py
@@ -343,7 +343,8 @@ class DefaultPDFBase(BackendBase):
                     f"but n_signal_parameters is {n_signal_parameters}."
                 )
             _sig_par_bounds = [
-                b if b is not None else (None, None) for b in signal_parameter_bounds
+                tuple(b) if b is not None else (None, None)
+                for b in signal_parameter_bounds
             ]
 
         self._config = ModelConfig(
diff --git a/src/spey/backends/default_pdf/simple_pdf.py b/src/spey/backends/default_pdf/simple_pdf.py
index d691c8c..ff107e6 100644
--- a/src/spey/backends/default_pdf/simple_pdf.py
+++ b/src/spey/backends/default_pdf/simple_pdf.py
@@ -208,7 +208,8 @@ class SimplePDFBase(BackendBase):
                     f"but n_signal_parameters is {n_signal_parameters}."
                 )
             _sig_par_bounds = [
-                b if b is not None else (None, None) for b in signal_parameter_bounds
+                tuple(b) if b is not None else (None, None)
+                for b in signal_parameter_bounds
             ]
 
         self._config = ModelConfig(
-- 
2.43.0


From 46566cc76abb7812125441e6612bde35b7215a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 38/47] fix: a combination offers the asymptotic calculator
 only if its members provide Asimov data

---
 src/spey/combiner/uncorrelated_statistics_combiner.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/spey/combiner/uncorrelated_statistics_combiner.py b/src/spey/combiner/uncorrelated_statistics_combiner.py
index 12f8f0b..c1f0d03 100644
--- a/src/spey/combiner/uncorrelated_statistics_combiner.py
+++ b/src/spey/combiner/uncorrelated_statistics_combiner.py
@@ -268,12 +268,17 @@ class UnCorrStatisticsCombiner(HypothesisTestingBase):
         Whether the asymptotic calculator is available for the combined stack.
 
         Returns ``True`` only when *every* constituent model supports the asymptotic
-        calculator, because the combination must evaluate all individual likelihoods.
+        calculator, because the combination must evaluate all individual likelihoods,
+        and can generate Asimov data, since these are passed on to the combined likelihood.
 
         Returns:
             ``bool``
         """
-        return all(model.is_asymptotic_calculator_available for model in self)
+        return all(
+            model.is_asymptotic_calculator_available
+            and model._backend_overrides("expected_data")
+            for model in self
+        )
 
     @property
     def is_toy_calculator_available(self) -> bool:
-- 
2.43.0


From edc67e058e43dd88c120dd495aa347bd02a37ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:02 +0000
Subject: [PATCH 39/47] fix: third moments on the boundary of the allowed
 region do not give NaN coefficients

---
 src/spey/backends/default_pdf/third_moment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index bfd371b..f374b00 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -201,7 +201,8 @@ def third_moment_expansion(
     C = np.where(np.isnan(C), 0.0, C)
 
     # arXiv:1809.05548 eq. 2.10
-    B = np.sqrt(cov_diag - 2 * C**2)
+    # (at the boundary of the allowed region rounding can make the argument negative)
+    B = np.sqrt(np.clip(cov_diag - 2 * C**2, 0.0, None))
     log.debug(f"B: {B}")
 
     # arXiv:1809.05548 eq. 2.11
-- 
2.43.0


From c803d5ac711302418d6fb6a890be21516129bb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 40/47] fix: keep the correlations of the third-moment
 expansion for large variances and vanishing third moments

---
 src/spey/backends/default_pdf/third_moment.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index f374b00..8e0bfac 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -224,7 +224,13 @@ def third_moment_expansion(
                 discr2 = 8 * cicj * covariance_matrix[i, j]
                 discr = discr1 + discr2
 
-                corr[i, j] = (np.sqrt(abs(discr)) - bibj) / 4 / cicj
+                root = np.sqrt(abs(discr))
+                if discr >= 0.0 and root + bibj > 0.0:
+                    # the same expression without cancellation, which is catastrophic
+                    # for large variances and small third moments
+                    corr[i, j] = 2.0 * covariance_matrix[i, j] / (root + bibj)
+                else:
+                    corr[i, j] = (root - bibj) / 4 / cicj
 
                 if i != j:
                     corr[j, i] = corr[i, j]
-- 
2.43.0


From 31b5b374418d6d54c6943d41407520468163b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 41/47] fix: compute third moments of large and of one-sided
 uncertainty envelopes

---
 src/spey/backends/default_pdf/third_moment.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/spey/backends/default_pdf/third_moment.py b/src/spey/backends/default_pdf/third_moment.py
index 8e0bfac..bc808b9 100644
--- a/src/spey/backends/default_pdf/third_moment.py
+++ b/src/spey/backends/default_pdf/third_moment.py
@@ -313,21 +313,16 @@ def compute_third_moments(
         ``(third_moments, errors)`` is returned.
     """
 
-    def compute_x3BifurgatedGaussian(x: float, upper: float, lower: float) -> float:
-        Norm = 2.0 / (upper + lower)
-        if x >= 0.0:
-            # integrate from 0 to inf
-            return Norm * upper * x**3 * norm.pdf(x, 0.0, upper)
-        # integrate from -inf to 0
-        return Norm * lower * x**3 * norm.pdf(x, 0.0, lower)
+    # Third moment of one half of the Gaussian in units of its width. Integrating in units
+    # of the widths keeps the quadrature accurate for any size and ratio of the envelopes.
+    half, half_error = integrate.quad(lambda x: x**3 * norm.pdf(x), 0.0, np.inf)
 
     third_moment, error = [], []
     for upper, lower in zip(absolute_upper_uncertainties, absolute_lower_uncertainties):
-        third_moment_tmp, error_tmp = integrate.quad(
-            compute_x3BifurgatedGaussian, -np.inf, np.inf, args=(abs(upper), abs(lower))
-        )
-        third_moment.append(third_moment_tmp)
-        error.append(error_tmp)
+        upper, lower = abs(upper), abs(lower)
+        scale = 2.0 / (upper + lower) if upper + lower > 0.0 else 0.0
+        third_moment.append(scale * (upper**4 - lower**4) * half)
+        error.append(scale * (upper**4 + lower**4) * half_error)
 
     if return_integration_error:
         return np.array(third_moment), np.array(error)
-- 
2.43.0


From da3deab95c72919a0feb9df9bb27a73577154d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:49 +0000
Subject: [PATCH 42/47] fix: refuse to register backends whose name or version
 requirement is empty

A backend registered with name = None stayed in the registry and made the
error about any unknown backend fail with a TypeError.
---
 src/spey/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/__init__.py b/src/spey/__init__.py
index 474ad98..820ddd3 100644
--- a/src/spey/__init__.py
+++ b/src/spey/__init__.py
@@ -176,7 +176,7 @@ def register_backend(
             + ", ".join(getattr(model, "__abstractmethods__"))
         )
 
-    if not all(hasattr(model, meta) for meta in required_meta):
+    if not all(getattr(model, meta, None) for meta in required_meta):
         raise MissingMetaData("Required metadata missing: " + ", ".join(required_meta))
 
     name = getattr(model, "name", "__unknown_model__")
-- 
2.43.0


From 9fc478b3096dbc2d2dc8496166fe5ef4b5d185b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 43/47] fix: do not cache, nor trust for a day, answers that do
 not describe spey

The JSON body of an error answer (e.g. of a proxy or during an outage) was
cached like a valid answer and suppressed the update check for a day.
---
 src/spey/system/webutils.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/spey/system/webutils.py b/src/spey/system/webutils.py
index 5ba082a..76f31ad 100644
--- a/src/spey/system/webutils.py
+++ b/src/spey/system/webutils.py
@@ -86,6 +86,14 @@ _SPEY_DIR = pathlib.Path.home() / ".spey"
 _CACHE_MAX_AGE_SECONDS = 86_400  # 24 hours
 
 
+def _is_valid_pypi_info(pypi_info) -> bool:
+    """Is this PyPI's description of spey (and not, e.g., the body of an error page)"""
+    try:
+        return bool(pypi_info["info"]["version"])
+    except Exception:  # noqa: BLE001
+        return False
+
+
 def _load_cached_pypi_info() -> dict:
     """
     Return cached PyPI JSON from ``~/.spey/pypi_latest_*.json`` if a file
@@ -101,6 +109,9 @@ def _load_cached_pypi_info() -> dict:
                 age = now - cache_file.stat().st_mtime
                 if age <= _CACHE_MAX_AGE_SECONDS:
                     data = json.loads(cache_file.read_text(encoding="utf-8"))
+                    if not _is_valid_pypi_info(data):
+                        log.debug("Ignoring invalid cache file %s.", cache_file.name)
+                        continue
                     log.debug(
                         "Using cached PyPI info from %s (age %.0fs).",
                         cache_file.name,
@@ -172,6 +183,10 @@ def _get_pypi_info() -> dict:
         log.debug("PyPI request failed: %s", err)
         return None
 
+    if not _is_valid_pypi_info(pypi_info):
+        log.debug("PyPI did not return the information about spey.")
+        return None
+
     _save_pypi_info(pypi_info)
     return pypi_info
 
-- 
2.43.0


From a1acc1f6121ed6939405f3b248b09c183a91ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:10 +0000
Subject: [PATCH 44/47] fix: a message that can not be formatted does not fail
 the code whose logs are captured

getMessage fails for the same reason as format, so the exception left the
logging call; outside of capture_logs logging never raises.
---
 src/spey/system/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spey/system/logger.py b/src/spey/system/logger.py
index 0e47930..d120c4e 100644
--- a/src/spey/system/logger.py
+++ b/src/spey/system/logger.py
@@ -119,7 +119,7 @@ def capture_logs(level: int = logging.DEBUG, stream=None):
             try:
                 msg = self.format(record)
             except Exception:
-                msg = record.getMessage()
+                msg = str(record.msg)
 
             # Only add if we haven't seen this exact message before
             if msg not in seen_messages:
-- 
2.43.0


From f14e0543d57762747966e8717d2c9fc6d2a58713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 45/47] fix: refuse bin indices outside of the histogram in
 merge_correlated_bins

---
 src/spey/helper_functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spey/helper_functions.py b/src/spey/helper_functions.py
index b22c553..d52d04d 100644
--- a/src/spey/helper_functions.py
+++ b/src/spey/helper_functions.py
@@ -189,6 +189,9 @@ def merge_correlated_bins(
     assert len(set(merged_indices)) == len(
         merged_indices
     ), "Overlapping indices in merge_groups"
+    assert all(
+        0 <= i < N for i in merged_indices
+    ), "Indices in merge_groups must be between zero and the number of bins"
 
     all_indices = set(range(N))
     unmerged = sorted(all_indices - set(merged_indices))
-- 
2.43.0


From b04b0143d46683c103d080f6af7a96fd396146bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:05 +0000
Subject: [PATCH 46/47] fix: keep contour points of basins outside of the
 bounds only where they are within the bounds

---
 src/spey/multiparameter/contour.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/spey/multiparameter/contour.py b/src/spey/multiparameter/contour.py
index 523720e..56dc3bb 100644
--- a/src/spey/multiparameter/contour.py
+++ b/src/spey/multiparameter/contour.py
@@ -776,6 +776,22 @@ def find_contour(
             rng,
             _max_r_for_dir_basin,
         )
+        # A basin outside of the bounds (e.g. bounds excluding the MLE) also
+        # reaches points outside of them: keep those that are inside.
+        inside = np.array(
+            [
+                all(
+                    (lo is None or x >= lo - 1e-9 * max(1.0, abs(lo)))
+                    and (hi is None or x <= hi + 1e-9 * max(1.0, abs(hi)))
+                    for x, (lo, hi) in zip(point, bounds)
+                )
+                for point in basin_radial_pts
+            ],
+            dtype=bool,
+        )
+        basin_radial_pts = basin_radial_pts[inside]
+        basin_radial_dirs = basin_radial_dirs[inside]
+
         log.debug(
             "Basin %d (NLL=%.6f): radial search %d/%d directions converged.",
             b_idx,
-- 
2.43.0


From 5cad1f928a357550d8c93c4da008d1240fe92fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:39 +0000
Subject: [PATCH 47/47] fix: expected="all" returned nan where the single
 expectation types return a zero exclusion level

---
 src/spey/base/hypotest_base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/spey/base/hypotest_base.py b/src/spey/base/hypotest_base.py
index 2e6d590..e7028e9 100644
--- a/src/spey/base/hypotest_base.py
+++ b/src/spey/base/hypotest_base.py
@@ -1139,14 +1139,15 @@ class HypothesisTestingBase(ABC):
             else:
                 pvalues, expected_pvalues = [1.0], [1.0] * 5
 
+        def exclusion_level(pvals: List[float]) -> List[float]:
+            """Exclusion level of each p-value, undefined p-values do not exclude"""
+            return [1.0 - x if not np.isnan(x) else 0.0 for x in pvals]
+
         if expected == "all":
-            return [1.0 - x for x in pvalues], [1.0 - x for x in expected_pvalues]
+            return exclusion_level(pvalues), exclusion_level(expected_pvalues)
 
-        return list(
-            map(
-                lambda x: 1.0 - x if not np.isnan(x) else 0.0,
-                pvalues if expected == ExpectationType.observed else expected_pvalues,
-            )
+        return exclusion_level(
+            pvalues if expected == ExpectationType.observed else expected_pvalues
         )
 
     def significance(
-- 
2.43.0

