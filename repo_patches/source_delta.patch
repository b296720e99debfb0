From 577f9373c62030c5737d1b4ad1db7f0b27b9f7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 01/40] fix: universal kriging loop backend reads specified
 drift at the wrong point

The specified drift value was indexed with the row of the kriging system
instead of the index of the point being estimated.
---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 471802a..7b34fd0 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1067,7 +1067,7 @@ class UniversalKriging:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 9b67519..d25b2ca 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -854,7 +854,7 @@ class UniversalKriging3D:
                 i += 1
             if self.specified_drift:
                 for spec_vals in spec_drift_grids:
-                    b[i, 0] = spec_vals.flatten()[i]
+                    b[i, 0] = spec_vals.flatten()[j]
                     i += 1
             if self.functional_drift:
                 for func in self.functional_drift_terms:
-- 
2.43.0


From fd05e1febf7e18616483cf994292ef233cebaaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:59 +0000
Subject: [PATCH 02/40] fix: universal kriging loop backend fails at a well of
 the point-log drift

log_dist is a scalar in the loop backend and does not support item assignment.
---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7b34fd0..7c22bfb 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1056,8 +1056,8 @@ class UniversalKriging:
                             + (xy[j, 1] - self.point_log_array[well_no, 1]) ** 2
                         )
                     )
-                    if np.any(np.isinf(log_dist)):
-                        log_dist[np.isinf(log_dist)] = -100.0
+                    if np.isinf(log_dist):
+                        log_dist = -100.0
                     b[i, 0] = -self.point_log_array[well_no, 2] * log_dist
                     i += 1
             if self.external_Z_drift:
-- 
2.43.0


From 4ed392de0b97dbdb71018bb1cc8cf4c857e55ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 03/40] fix: update_variogram_model leaves point-log wells in
 the old anisotropic frame

The data were re-adjusted for a new anisotropy but the wells of the point-log
drift were not, so drift distances mixed two coordinate frames.
---
 src/pykrige/uk.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 7c22bfb..9465e41 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -447,15 +447,10 @@ class UniversalKriging:
                     "Must specify location(s) and strength(s) of point drift terms."
                 )
             self.point_log_drift = True
-            point_log = np.atleast_2d(np.squeeze(np.array(point_drift, copy=True)))
-            self.point_log_array = np.zeros(point_log.shape)
-            self.point_log_array[:, 2] = point_log[:, 2]
-            self.point_log_array[:, :2] = _adjust_for_anisotropy(
-                np.vstack((point_log[:, 0], point_log[:, 1])).T,
-                [self.XCENTER, self.YCENTER],
-                [self.anisotropy_scaling],
-                [self.anisotropy_angle],
+            self.point_log_orig = np.atleast_2d(
+                np.squeeze(np.array(point_drift, copy=True))
             )
+            self.point_log_array = self._adjust_point_log()
             if self.verbose:
                 print(
                     "Implementing external point-logarithmic drift; "
@@ -509,6 +504,19 @@ class UniversalKriging:
         else:
             self.functional_drift = False
 
+    def _adjust_point_log(self):
+        """Rotates the wells of the point-log drift into the adjusted frame."""
+        point_log = self.point_log_orig
+        adjusted = np.zeros(point_log.shape)
+        adjusted[:, 2] = point_log[:, 2]
+        adjusted[:, :2] = _adjust_for_anisotropy(
+            np.vstack((point_log[:, 0], point_log[:, 1])).T,
+            [self.XCENTER, self.YCENTER],
+            [self.anisotropy_scaling],
+            [self.anisotropy_angle],
+        )
+        return adjusted
+
     def _calculate_data_point_zscalars(self, x, y, type_="array"):
         """Determines the Z-scalar values at the specified coordinates
         for use when setting up the kriging matrix. Uses bilinear
@@ -721,6 +729,8 @@ class UniversalKriging:
                 [self.anisotropy_scaling],
                 [self.anisotropy_angle],
             ).T
+            if self.point_log_drift:
+                self.point_log_array = self._adjust_point_log()
 
         if self.verbose:
             print("Updating variogram mode...")
-- 
2.43.0


From ac65c085736ba6e65c1bf399c4283fa0a38ec775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:19 +0000
Subject: [PATCH 04/40] fix: execute fails for integer coordinates

The anisotropy adjustment subtracts the center in place, which numpy refuses
for integer arrays. The data coordinates are already converted to float64.
---
 src/pykrige/ok.py   |  8 ++++++--
 src/pykrige/ok3d.py | 12 +++++++++---
 src/pykrige/uk.py   |  8 ++++++--
 src/pykrige/uk3d.py | 12 +++++++++---
 4 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 2eb0a7a..09d89f1 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -839,8 +839,12 @@ class OrdinaryKriging:
             # later in the code.
             raise ValueError("n_closest_points has to be at least two!")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        xpts = np.atleast_1d(
+            np.squeeze(np.array(xpoints, copy=True, dtype=np.float64))
+        )
+        ypts = np.atleast_1d(
+            np.squeeze(np.array(ypoints, copy=True, dtype=np.float64))
+        )
         n = self.X_ADJUSTED.shape[0]
         nx = xpts.size
         ny = ypts.size
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 417c82c..75474b3 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -830,9 +830,15 @@ class OrdinaryKriging3D:
         if style != "grid" and style != "masked" and style != "points":
             raise ValueError("style argument must be 'grid', 'points', or 'masked'")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
+        xpts = np.atleast_1d(
+            np.squeeze(np.array(xpoints, copy=True, dtype=np.float64))
+        )
+        ypts = np.atleast_1d(
+            np.squeeze(np.array(ypoints, copy=True, dtype=np.float64))
+        )
+        zpts = np.atleast_1d(
+            np.squeeze(np.array(zpoints, copy=True, dtype=np.float64))
+        )
         n = self.X_ADJUSTED.shape[0]
         nx = xpts.size
         ny = ypts.size
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 9465e41..5fd66b7 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -1178,8 +1178,12 @@ class UniversalKriging:
 
         n = self.X_ADJUSTED.shape[0]
         n_withdrifts = n
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
+        xpts = np.atleast_1d(
+            np.squeeze(np.array(xpoints, copy=True, dtype=np.float64))
+        )
+        ypts = np.atleast_1d(
+            np.squeeze(np.array(ypoints, copy=True, dtype=np.float64))
+        )
         nx = xpts.size
         ny = ypts.size
         if self.regional_linear_drift:
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index d25b2ca..af560c9 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -978,9 +978,15 @@ class UniversalKriging3D:
         if style != "grid" and style != "masked" and style != "points":
             raise ValueError("style argument must be 'grid', 'points', or 'masked'")
 
-        xpts = np.atleast_1d(np.squeeze(np.array(xpoints, copy=True)))
-        ypts = np.atleast_1d(np.squeeze(np.array(ypoints, copy=True)))
-        zpts = np.atleast_1d(np.squeeze(np.array(zpoints, copy=True)))
+        xpts = np.atleast_1d(
+            np.squeeze(np.array(xpoints, copy=True, dtype=np.float64))
+        )
+        ypts = np.atleast_1d(
+            np.squeeze(np.array(ypoints, copy=True, dtype=np.float64))
+        )
+        zpts = np.atleast_1d(
+            np.squeeze(np.array(zpoints, copy=True, dtype=np.float64))
+        )
         n = self.X_ADJUSTED.shape[0]
         n_withdrifts = n
         if self.regional_linear_drift:
-- 
2.43.0


From cff11ee6b08792ffaa7c3c3d0d15ae72d546a100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 05/40] fix: C backend fails for integer variogram parameters

The typed memoryview requires a float64 buffer.
---
 src/pykrige/lib/cok.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index 9a350e1..e202340 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -36,7 +36,9 @@ cpdef _c_exec_loop(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(
+        pars['variogram_model_parameters'], dtype='float64'
+    )
 
     cdef double [::1, :] a_inv = np.asfortranarray(np.empty_like(a_all))
 
@@ -125,7 +127,9 @@ cpdef _c_exec_loop_moving_window(
 
     c_variogram_function = get_variogram_model(pars['variogram_function'].__name__)
 
-    cdef double [::1] variogram_model_parameters = np.asarray(pars['variogram_model_parameters'])
+    cdef double [::1] variogram_model_parameters = np.asarray(
+        pars['variogram_model_parameters'], dtype='float64'
+    )
 
     for i in range(npt):
         if mask[i]:
-- 
2.43.0


From dbd28545d1c6acd88184ae9e7d29fbd8f81315f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 06/40] fix: C backend silently replaces custom variogram
 functions

The C backend selects its variogram by the name of the given function, so a
custom function that shares its name with a built-in model was ignored.
---
 src/pykrige/ok.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 09d89f1..70314c5 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -917,6 +917,13 @@ class OrdinaryKriging:
             except:
                 raise RuntimeError("Unknown error in trying to load Cython extension.")
 
+            if backend == "C" and self.variogram_model == "custom":
+                # Cython looks up its variogram functions by name, so a custom
+                # function would be rejected or taken for a built-in one.
+                raise NotImplementedError(
+                    "Custom variogram models are not supported by the C backend."
+                )
+
             c_pars = {
                 key: getattr(self, key)
                 for key in [
-- 
2.43.0


From eee5bf8245c9dfadd85305ccfa17cd811289128a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 07/40] fix: n_closest_points beyond the number of data points
 reads out of bounds

The neighbor search marks missing neighbors with an index that is out of
bounds. Python backends failed with obscure errors, the C backend read foreign
memory. OrdinaryKriging3D did not check the lower limit either.
---
 src/pykrige/ok.py   | 4 ++++
 src/pykrige/ok3d.py | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 70314c5..447bc36 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -839,6 +839,10 @@ class OrdinaryKriging:
             # later in the code.
             raise ValueError("n_closest_points has to be at least two!")
 
+        if n_closest_points is not None and n_closest_points > self.Z.shape[0]:
+            # The search for neighbors would return indices out of bounds.
+            raise ValueError("n_closest_points exceeds the number of data points!")
+
         xpts = np.atleast_1d(
             np.squeeze(np.array(xpoints, copy=True, dtype=np.float64))
         )
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 75474b3..f47c09a 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -830,6 +830,15 @@ class OrdinaryKriging3D:
         if style != "grid" and style != "masked" and style != "points":
             raise ValueError("style argument must be 'grid', 'points', or 'masked'")
 
+        if n_closest_points is not None and n_closest_points <= 1:
+            # If this is not checked, nondescriptive errors emerge
+            # later in the code.
+            raise ValueError("n_closest_points has to be at least two!")
+
+        if n_closest_points is not None and n_closest_points > self.VALUES.shape[0]:
+            # The search for neighbors would return indices out of bounds.
+            raise ValueError("n_closest_points exceeds the number of data points!")
+
         xpts = np.atleast_1d(
             np.squeeze(np.array(xpoints, copy=True, dtype=np.float64))
         )
-- 
2.43.0


From 37a889fbc6b39f69eedabf08cd2d2d23ba9ded27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 08/40] fix: kriging classes keep references to lists owned by
 the caller

Changing the list of variogram parameters (linear, power and custom models) or
of functional drift terms after the initialization changed the results.
---
 src/pykrige/core.py | 6 +++---
 src/pykrige/uk.py   | 2 +-
 src/pykrige/uk3d.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 30ae911..b70dec4 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -330,7 +330,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'linear'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["power"]:
             if len(variogram_model_parameters) != 3:
@@ -340,7 +340,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
                     "set to 'power'."
                 )
 
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         elif variogram_model in ["gaussian", "spherical", "exponential", "hole-effect"]:
             if len(variogram_model_parameters) != 3:
@@ -357,7 +357,7 @@ def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
             ]
 
         elif variogram_model in ["custom"]:
-            parameter_list = variogram_model_parameters
+            parameter_list = list(variogram_model_parameters)
 
         else:
             raise ValueError(
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 5fd66b7..778bd62 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -500,7 +500,7 @@ class UniversalKriging:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index af560c9..29abc13 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -445,7 +445,7 @@ class UniversalKriging3D:
                     "when using the 'functional' drift capability."
                 )
             self.functional_drift = True
-            self.functional_drift_terms = functional_drift
+            self.functional_drift_terms = list(functional_drift)
         else:
             self.functional_drift = False
 
-- 
2.43.0


From d180b5c027a850ff38eaf067230368c689aa8e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 09/40] fix: default models of RegressionKriging and
 ClassificationKriging are shared

The default instance was created once, so fitting one object changed the
predictions of all others.
---
 src/pykrige/ck.py | 5 ++++-
 src/pykrige/rk.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index 4199c87..806187b 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -58,7 +58,7 @@ class ClassificationKriging:
 
     def __init__(
         self,
-        classification_model=SVC(),
+        classification_model=None,
         method="ordinary",
         variogram_model="linear",
         n_closest_points=10,
@@ -79,6 +79,9 @@ class ClassificationKriging:
         ext_drift_grid=(None, None, None),
         functional_drift=None,
     ):
+        if classification_model is None:
+            # a new instance, since fitting changes its state
+            classification_model = SVC()
         check_sklearn_model(classification_model, task="classification")
         self.classification_model = classification_model
         self.n_closest_points = n_closest_points
diff --git a/src/pykrige/rk.py b/src/pykrige/rk.py
index 5feb97c..855d1e3 100644
--- a/src/pykrige/rk.py
+++ b/src/pykrige/rk.py
@@ -57,7 +57,7 @@ class RegressionKriging:
 
     def __init__(
         self,
-        regression_model=SVR(),
+        regression_model=None,
         method="ordinary",
         variogram_model="linear",
         n_closest_points=10,
@@ -78,6 +78,9 @@ class RegressionKriging:
         ext_drift_grid=(None, None, None),
         functional_drift=None,
     ):
+        if regression_model is None:
+            # a new instance, since fitting changes its state
+            regression_model = SVR()
         check_sklearn_model(regression_model)
         self.regression_model = regression_model
         self.n_closest_points = n_closest_points
-- 
2.43.0


From f3d56321938f11259c1fd536cb576ec4434b4995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 10/40] fix: ClassificationKriging.fit fails for targets of
 shape (Ns,)

The documented shape of the targets is one-dimensional.
---
 src/pykrige/ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index 806187b..e5aa915 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -135,7 +135,7 @@ class ClassificationKriging:
         ml_pred_ilr = ilr_transformation(ml_pred)
 
         self.onehotencode = OneHotEncoder(categories=[self.classes_])
-        y_ohe = np.array(self.onehotencode.fit_transform(y).todense())
+        y_ohe = np.array(self.onehotencode.fit_transform(np.reshape(y, (-1, 1))).todense())
         y_ohe_ilr = ilr_transformation(y_ohe)
 
         for i in range(len(self.classes_) - 1):
-- 
2.43.0


From f0fbfb17eb3c67f2b39acf1b1c405197a7733d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 11/40] fix: ClassificationKriging.predict returns indices
 instead of classes

Predictions and scores were wrong unless the classes are 0, 1, 2, ...
---
 src/pykrige/ck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/ck.py b/src/pykrige/ck.py
index e5aa915..20d8a29 100644
--- a/src/pykrige/ck.py
+++ b/src/pykrige/ck.py
@@ -170,7 +170,7 @@ class ClassificationKriging:
         pred_proba_ilr = self.krige_residual(x, **kwargs) + ml_pred_ilr
         pred_proba = inverse_ilr_transformation(pred_proba_ilr)
 
-        return np.argmax(pred_proba, axis=1)
+        return self.classes_[np.argmax(pred_proba, axis=1)]
 
     def krige_residual(self, x, **kwargs):
         """
-- 
2.43.0


From 3e665b827c3435df08da202f4ab4f57ac3aa26ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 12/40] fix: write_asc_grid rounds coordinates and cell sizes
 to two decimals

Grids with small cells or geographic coordinates were written at wrong places,
or with a cell size of zero that cannot be read again.
---
 src/pykrige/kriging_tools.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 496dad8..a85fb3e 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -105,17 +105,17 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         if style == 1:
             f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
             f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
-            f.write("XLLCENTER      " + "{:<10.2f}".format(xllcenter) + "\n")
-            f.write("YLLCENTER      " + "{:<10.2f}".format(yllcenter) + "\n")
-            f.write("DX             " + "{:<10.2f}".format(dx) + "\n")
-            f.write("DY             " + "{:<10.2f}".format(dy) + "\n")
+            f.write("XLLCENTER      " + "{:<10}".format(xllcenter) + "\n")
+            f.write("YLLCENTER      " + "{:<10}".format(yllcenter) + "\n")
+            f.write("DX             " + "{:<10}".format(dx) + "\n")
+            f.write("DY             " + "{:<10}".format(dy) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         elif style == 2:
             f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
             f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
-            f.write("XLLCORNER      " + "{:<10.2f}".format(xllcorner) + "\n")
-            f.write("YLLCORNER      " + "{:<10.2f}".format(yllcorner) + "\n")
-            f.write("CELLSIZE       " + "{:<10.2f}".format(cellsize) + "\n")
+            f.write("XLLCORNER      " + "{:<10}".format(xllcorner) + "\n")
+            f.write("YLLCORNER      " + "{:<10}".format(yllcorner) + "\n")
+            f.write("CELLSIZE       " + "{:<10}".format(cellsize) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         else:
             raise ValueError("style kwarg must be either 1 or 2.")
-- 
2.43.0


From 8cdfdcf5a4ecb15ff871662dfd1062781fa3ecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 13/40] fix: write_asc_grid joins large values with their
 neighbors

Values that fill the field left no space between the columns.
---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index a85fb3e..caaf887 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -122,7 +122,7 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
-                f.write("{:<16.2f}".format(z[m, n]))
+                f.write("{:<15.2f} ".format(z[m, n]))
             if m != 0:
                 f.write("\n")
 
-- 
2.43.0


From 2172e74a18515cc43b7a5cb330f7407f4e245a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 14/40] fix: write_asc_grid discards an existing file when
 rejecting the style

---
 src/pykrige/kriging_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index caaf887..f9ebdca 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -81,6 +81,10 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
         )
+    if style not in [1, 2]:
+        # check before opening the file, which discards an existing one
+        raise ValueError("style kwarg must be either 1 or 2.")
+
     cellsize = -1
     if style == 2:
         if dx != dy:
@@ -117,8 +121,6 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
             f.write("YLLCORNER      " + "{:<10}".format(yllcorner) + "\n")
             f.write("CELLSIZE       " + "{:<10}".format(cellsize) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
-        else:
-            raise ValueError("style kwarg must be either 1 or 2.")
 
         for m in range(z.shape[0] - 1, -1, -1):
             for n in range(z.shape[1]):
-- 
2.43.0


From 67677fdf362f0bcc666cf337b4ca57ff5574a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 15/40] fix: grid writers accept coordinates with varying
 spacing

Only the average spacing was compared to the first one, so grids whose spacing
varies in between were written with wrong coordinates.
---
 src/pykrige/kriging_tools.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index f9ebdca..1563ed3 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -75,8 +75,12 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    # the tolerance of the differences allows for rounded coordinates
+    if (
+        not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx)
+        or not np.isclose(abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy)
+        or not np.allclose(np.diff(x), x[1] - x[0], rtol=1e-3, atol=0.0)
+        or not np.allclose(np.diff(y), y[1] - y[0], rtol=1e-3, atol=0.0)
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
@@ -291,8 +295,12 @@ def write_zmap_grid(
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
 
-    if not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx) or not np.isclose(
-        abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy
+    # the tolerance of the differences allows for rounded coordinates
+    if (
+        not np.isclose(abs((x[-1] - x[0]) / (x.shape[0] - 1)), dx)
+        or not np.isclose(abs((y[-1] - y[0]) / (y.shape[0] - 1)), dy)
+        or not np.allclose(np.diff(x), x[1] - x[0], rtol=1e-3, atol=0.0)
+        or not np.allclose(np.diff(y), y[1] - y[0], rtol=1e-3, atol=0.0)
     ):
         raise ValueError(
             "X or Y spacing is not constant; *.asc grid cannot be written."
-- 
2.43.0


From b55569923a6d762bdc060044423ed374b36df5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 16/40] fix: write_zmap_grid does not warn about descending
 coordinates

As in write_asc_grid, they result in a file with wrong coordinates.
---
 src/pykrige/kriging_tools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 1563ed3..51db275 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -292,6 +292,13 @@ def write_zmap_grid(
     nx = len(x)
     ny = len(y)
 
+    if np.amin(x) != x[0] or np.amin(y) != y[0]:
+        warnings.warn(
+            "Order of X or Y coordinates is not as expected. "
+            "Incorrect *.zmap file generation may result.",
+            RuntimeWarning,
+        )
+
     dx = abs(x[1] - x[0])
     dy = abs(y[1] - y[0])
 
-- 
2.43.0


From 4a837520c703a7fcaef78585362b0d9c70ffa154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 17/40] fix: read_zmap_grid does not return the coordinate
 system as written

It had a leading space and was cut off at a colon, as in 'EPSG:4326'.
---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 51db275..8514a90 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -419,7 +419,7 @@ def read_zmap_grid(filename):
             if line.startswith("!"):
                 line_strings = line.split(":")
                 if line_strings[0].__contains__("COORDINATE REFERENCE SYSTEM"):
-                    coord_sys = line_strings[1].replace("\n", "")
+                    coord_sys = line.split(":", 1)[1].strip()
             else:
                 line_strings = line.split()
                 line_strings = [string.replace(",", "") for string in line_strings]
-- 
2.43.0


From 5b2338b0ed7309c9654cf4410979101cd7ae2ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 18/40] fix: read_zmap_grid may return one coordinate too many

The upper limit of np.arange suffers from rounding.
---
 src/pykrige/kriging_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 8514a90..c9e2ada 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -468,8 +468,8 @@ def read_zmap_grid(filename):
     dx = (maxx - originx) / (nx - 1)
     dy = (maxy - originy) / (ny - 1)
 
-    gridx = np.arange(originx, originx + nx * dx, dx)
-    gridy = np.arange(originy, originy + ny * dy, dy)
+    gridx = originx + dx * np.arange(nx)
+    gridy = originy + dy * np.arange(ny)
 
     cellsize = (dx, dy)
 
-- 
2.43.0


From ed22a9b45e4ba9160fb6405c8b182de8140725f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 19/40] fix: read_zmap_grid returns uninitialized values for
 truncated files

The number of values read from the file was not compared to the header.
---
 src/pykrige/kriging_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index c9e2ada..1c67308 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -451,7 +451,7 @@ def read_zmap_grid(filename):
                     data_values = np.empty(ny * nx)
                 i_header_line += 1
 
-    if nx * ny != len(data_values):
+    if nx * ny != i_value:
         raise IOError(
             "Error reading *.zmap file. Encountered problem "
             "with header: (nx * ny) does not match with the "
-- 
2.43.0


From c3ca407692b5407757f3fd84139eddd7599d5abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 20/40] fix: vectorized universal kriging evaluates the
 external drift at masked points

A mask could not exclude points outside of the drift grid, unlike with the loop
backend.
---
 src/pykrige/uk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 778bd62..6a08bf1 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -975,8 +975,8 @@ class UniversalKriging:
                 b[:, i, 0] = -self.point_log_array[well_no, 2] * log_dist
                 i += 1
         if self.external_Z_drift:
-            b[:, i, 0] = self._calculate_data_point_zscalars(
-                xy_orig[:, 0], xy_orig[:, 1]
+            b[~mask, i, 0] = self._calculate_data_point_zscalars(
+                xy_orig[~mask, 0], xy_orig[~mask, 1]
             )
             i += 1
         if self.specified_drift:
-- 
2.43.0


From 02ac0c61bd4749c99ea2646e485e48c5b4584ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 21/40] fix: external drift grids with descending coordinates
 are interpolated wrongly

The bilinear interpolation picked cells of no extent or far away nodes.
---
 src/pykrige/uk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 6a08bf1..09a3e24 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -432,6 +432,12 @@ class UniversalKriging:
                 self.external_Z_array = np.array(external_drift)
             self.external_Z_array_x = np.array(external_drift_x).flatten()
             self.external_Z_array_y = np.array(external_drift_y).flatten()
+            # the interpolation relies on ascending coordinates
+            order_x = np.argsort(self.external_Z_array_x)
+            order_y = np.argsort(self.external_Z_array_y)
+            self.external_Z_array_x = self.external_Z_array_x[order_x]
+            self.external_Z_array_y = self.external_Z_array_y[order_y]
+            self.external_Z_array = self.external_Z_array[np.ix_(order_y, order_x)]
             self.z_scalars = self._calculate_data_point_zscalars(
                 self.X_ORIG, self.Y_ORIG
             )
-- 
2.43.0


From 8b90a689e782e004b13ab874d79e1a9f8babc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 22/40] fix: euclid3_to_great_circle changes its argument and
 fails for scalars

---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index b70dec4..37e010c 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -113,7 +113,7 @@ def euclid3_to_great_circle(euclid3_distance):
         The corresponding great circle distance(s) between the points.
     """
     # Eliminate some possible numerical errors:
-    euclid3_distance[euclid3_distance > 2.0] = 2.0
+    euclid3_distance = np.minimum(euclid3_distance, 2.0)
     return 180.0 - 360.0 / np.pi * np.arccos(0.5 * euclid3_distance)
 
 
-- 
2.43.0


From 9c51c488801050e739d25d8341d098ea32cb66c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 23/40] fix: OrdinaryKriging.execute fails for masks that are
 not arrays

The mask is documented as array_like.
---
 src/pykrige/ok.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 447bc36..d5b5549 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -860,6 +860,7 @@ class OrdinaryKriging:
                     raise IOError(
                         "Must specify boolean masking array when style is 'masked'."
                     )
+                mask = np.asarray(mask, dtype=bool)
                 if mask.shape[0] != ny or mask.shape[1] != nx:
                     if mask.shape[0] == nx and mask.shape[1] == ny:
                         mask = mask.T
-- 
2.43.0


From 171037033d7a364763bd9d9e41fde1b6b26e10a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 24/40] fix: spherical_variogram_model truncates its result for
 integer distances

np.piecewise returns an array of the type of its argument.
---
 src/pykrige/variogram_models.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pykrige/variogram_models.py b/src/pykrige/variogram_models.py
index a056bdf..5317904 100755
--- a/src/pykrige/variogram_models.py
+++ b/src/pykrige/variogram_models.py
@@ -58,6 +58,7 @@ def spherical_variogram_model(m, d):
     psill = float(m[0])
     range_ = float(m[1])
     nugget = float(m[2])
+    d = np.asarray(d, dtype=np.float64)
     return np.piecewise(
         d,
         [d <= range_, d > range_],
-- 
2.43.0


From 4da61e00b37d535db023bc4afceb692ab5c50c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 25/40] fix: kriging with a moving window ignores pseudo_inv

The kriging systems of the closest points were always solved directly, which
fails for redundant points.
---
 src/pykrige/lib/cok.pyx | 53 ++++++++++++++++++++++++-----------------
 src/pykrige/ok.py       |  6 ++++-
 src/pykrige/ok3d.py     |  6 ++++-
 3 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index e202340..fc301b7 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -131,6 +131,11 @@ cpdef _c_exec_loop_moving_window(
         pars['variogram_model_parameters'], dtype='float64'
     )
 
+    if pars['pseudo_inv_type'] == "pinvh":
+        p_inv = scipy.linalg.pinvh
+    else:
+        p_inv = scipy.linalg.pinv
+
     for i in range(npt):
         if mask[i]:
             continue
@@ -159,28 +164,32 @@ cpdef _c_exec_loop_moving_window(
         if pars['exact_values']:
             check_b_vect(n, bd, b, eps)
 
-        for k in range(nb):
-            x[k] = b[k]
-
-        # higher level (and slower) call to do the same thing as dgesv below
-        # a2D = a_selection.base[:nb*nb].reshape((nb, nb))
-        # x = scipy.linalg.solve(a2D, b.base[:nb])
-
-        dgesv(
-                &nb,
-                &nrhs,
-                &(a_selection[0]),
-                &nb,
-                &(ipiv[0]),
-                &(x[0]),
-                &nb,
-                &info
-                )
-
-        if info > 0:
-            raise ValueError('Singular matrix')
-        elif info < 0:
-            raise ValueError('Wrong arguments')
+        if pars['pseudo_inv']:
+            a2D = a_selection.base[:nb*nb].reshape((nb, nb))
+            x = np.dot(p_inv(a2D), b.base[:nb])
+        else:
+            for k in range(nb):
+                x[k] = b[k]
+
+            # higher level (and slower) call to do the same thing as dgesv below
+            # a2D = a_selection.base[:nb*nb].reshape((nb, nb))
+            # x = scipy.linalg.solve(a2D, b.base[:nb])
+
+            dgesv(
+                    &nb,
+                    &nrhs,
+                    &(a_selection[0]),
+                    &nb,
+                    &(ipiv[0]),
+                    &(x[0]),
+                    &nb,
+                    &info
+                    )
+
+            if info > 0:
+                raise ValueError('Singular matrix')
+            elif info < 0:
+                raise ValueError('Wrong arguments')
 
         z_tmp = 0.0
         ss_tmp = 0.0
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index d5b5549..46b9068 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -750,7 +750,11 @@ class OrdinaryKriging:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            # use the desired method to solve the kriging system
+            if self.pseudo_inv:
+                x = np.dot(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             zvalues[i] = x[:n, 0].dot(self.Z[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index f47c09a..579add6 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -725,7 +725,11 @@ class OrdinaryKriging3D:
                 b[zero_index[0], 0] = 0.0
             b[n, 0] = 1.0
 
-            x = scipy.linalg.solve(a, b)
+            # use the desired method to solve the kriging system
+            if self.pseudo_inv:
+                x = np.dot(P_INV[self.pseudo_inv_type](a), b)
+            else:
+                x = scipy.linalg.solve(a, b)
 
             kvalues[i] = x[:n, 0].dot(self.VALUES[b_selector])
             sigmasq[i] = -x[:, 0].dot(b[:, 0])
-- 
2.43.0


From 273833e6d19e684ee134c78a09d8c15401f5cf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:03 +0000
Subject: [PATCH 26/40] fix: Q1 and Q2 are divided by the wrong number of
 residuals

Kitanidis defines Q1 and Q2 as averages of the n-1 residuals of n data points.
The residual of the first point is already missing in epsilon, so the average
was taken over one residual less, and Q2 was infinite for two data points.
---
 src/pykrige/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 37e010c..ca2cb71 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -838,12 +838,12 @@ def _find_statistics(
 
 def calcQ1(epsilon):
     """Returns the Q1 statistic for the variogram fit (see [1])."""
-    return abs(np.sum(epsilon) / (epsilon.shape[0] - 1))
+    return abs(np.sum(epsilon) / epsilon.shape[0])
 
 
 def calcQ2(epsilon):
     """Returns the Q2 statistic for the variogram fit (see [1])."""
-    return np.sum(epsilon**2) / (epsilon.shape[0] - 1)
+    return np.sum(epsilon**2) / epsilon.shape[0]
 
 
 def calc_cR(Q2, sigma):
-- 
2.43.0


From d8c686ae23f4dba027a0f50e07a46514d0bbbb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 27/40] fix: a rejected update_variogram_model leaves the
 object in a mixed state

The variogram function of the rejected model was combined with the parameters
of the previous one in later predictions.
---
 src/pykrige/core.py | 19 +++++++++++++++++++
 src/pykrige/ok.py   |  2 ++
 src/pykrige/ok3d.py |  2 ++
 src/pykrige/uk.py   |  2 ++
 src/pykrige/uk3d.py |  2 ++
 5 files changed, 27 insertions(+)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index ca2cb71..3628f57 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -22,6 +22,8 @@ References
 Copyright (c) 2015-2020, PyKrige Developers
 """
 
+import functools
+
 import numpy as np
 import scipy.linalg as spl
 from scipy.optimize import least_squares
@@ -193,6 +195,23 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
     return X_adj
 
 
+def _restore_on_error(method):
+    """Decorator for methods that change an object in several steps.
+    If the method fails, the attributes of the object are restored."""
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        state = self.__dict__.copy()
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(state)
+            raise
+
+    return wrapper
+
+
 def _make_variogram_parameter_list(variogram_model, variogram_model_parameters):
     """Converts the user input for the variogram model parameters into the
     format expected in the rest of the code.
diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index 46b9068..dda80ae 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -35,6 +35,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -376,6 +377,7 @@ class OrdinaryKriging:
         else:
             self.delta, self.sigma, self.epsilon, self.Q1, self.Q2, self.cR = [None] * 6
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index 579add6..cf1bdd6 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -34,6 +34,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -365,6 +366,7 @@ class OrdinaryKriging3D:
             print("Q2 =", self.Q2)
             print("cR =", self.cR, "\n")
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 09a3e24..69b47af 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -641,6 +642,7 @@ class UniversalKriging:
 
         return z_scalars
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 29abc13..3432a1f 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -33,6 +33,7 @@ from .core import (
     _find_statistics,
     _initialize_variogram_model,
     _make_variogram_parameter_list,
+    _restore_on_error,
 )
 
 
@@ -449,6 +450,7 @@ class UniversalKriging3D:
         else:
             self.functional_drift = False
 
+    @_restore_on_error
     def update_variogram_model(
         self,
         variogram_model,
-- 
2.43.0


From 99f8024b6d1419f6c566e6be640c8dc1ce7850bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 28/40] fix: accept single anisotropy values for 2D kriging in
 the sklearn wrapper

---
 src/pykrige/compat.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/pykrige/compat.py b/src/pykrige/compat.py
index d0ca37c..2cd4223 100644
--- a/src/pykrige/compat.py
+++ b/src/pykrige/compat.py
@@ -1,6 +1,8 @@
 # coding: utf-8
 # pylint: disable= invalid-name,  unused-import
 """For compatibility."""
+import numpy as np
+
 from pykrige.ok import OrdinaryKriging
 from pykrige.ok3d import OrdinaryKriging3D
 from pykrige.uk import UniversalKriging
@@ -209,15 +211,8 @@ class Krige(RegressorMixin, BaseEstimator):
             pseudo_inv_type=self.pseudo_inv_type,
         )
         add_setup = dict(
-            anisotropy_scaling=self.anisotropy_scaling[0],
-            anisotropy_angle=self.anisotropy_angle[0],
             enable_statistics=self.enable_statistics,
             coordinates_type=self.coordinates_type,
-            anisotropy_scaling_y=self.anisotropy_scaling[0],
-            anisotropy_scaling_z=self.anisotropy_scaling[1],
-            anisotropy_angle_x=self.anisotropy_angle[0],
-            anisotropy_angle_y=self.anisotropy_angle[1],
-            anisotropy_angle_z=self.anisotropy_angle[2],
             drift_terms=self.drift_terms,
             point_drift=self.point_drift,
             external_drift=self.ext_drift_grid[0],
@@ -225,6 +220,20 @@ class Krige(RegressorMixin, BaseEstimator):
             external_drift_y=self.ext_drift_grid[2],
             functional_drift=self.functional_drift,
         )
+        if self.method in threed_krige:
+            add_setup.update(
+                anisotropy_scaling_y=self.anisotropy_scaling[0],
+                anisotropy_scaling_z=self.anisotropy_scaling[1],
+                anisotropy_angle_x=self.anisotropy_angle[0],
+                anisotropy_angle_y=self.anisotropy_angle[1],
+                anisotropy_angle_z=self.anisotropy_angle[2],
+            )
+        else:
+            # 2D: a single value is sufficient
+            add_setup.update(
+                anisotropy_scaling=np.ravel(self.anisotropy_scaling)[0],
+                anisotropy_angle=np.ravel(self.anisotropy_angle)[0],
+            )
         for kw in krige_methods_kws[self.method]:
             setup[kw] = add_setup[kw]
         input_kw = self._dimensionality_check(x)
-- 
2.43.0


From b8fb7a0772dc4c99e0661405a9f24c750b9957e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:31 +0000
Subject: [PATCH 29/40] fix: do not modify the points passed to Krige.execute

---
 src/pykrige/compat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/compat.py b/src/pykrige/compat.py
index 2cd4223..0ab9a76 100644
--- a/src/pykrige/compat.py
+++ b/src/pykrige/compat.py
@@ -291,7 +291,8 @@ class Krige(RegressorMixin, BaseEstimator):
         """
         default_kw = dict(style="points", backend="loop")
         default_kw.update(kwargs)
-        points.update(default_kw)
+        # the dict of the caller must not be changed
+        points = dict(points, **default_kw)
         if isinstance(self.model, (OrdinaryKriging, OrdinaryKriging3D)):
             points.update(dict(n_closest_points=self.n_closest_points))
         else:
-- 
2.43.0


From f3f1240c1b1ebbee348b9b97b0c83efebebc851c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 30/40] fix: universal kriging fails for integer well
 coordinates

---
 src/pykrige/uk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 69b47af..02060d8 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -455,7 +455,7 @@ class UniversalKriging:
                 )
             self.point_log_drift = True
             self.point_log_orig = np.atleast_2d(
-                np.squeeze(np.array(point_drift, copy=True))
+                np.squeeze(np.array(point_drift, copy=True, dtype=np.float64))
             )
             self.point_log_array = self._adjust_point_log()
             if self.verbose:
-- 
2.43.0


From 9d6f29a8ba08f7f9559051a44830f73f82246722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:12 +0000
Subject: [PATCH 31/40] fix: universal kriging fails for external drifts given
 as lists

---
 src/pykrige/uk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 02060d8..02885f6 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -415,6 +415,9 @@ class UniversalKriging:
             if external_drift_x is None or external_drift_y is None:
                 raise ValueError("Must specify coordinates of external Z drift terms.")
             self.external_Z_drift = True
+            external_drift = np.asarray(external_drift)
+            external_drift_x = np.asarray(external_drift_x)
+            external_drift_y = np.asarray(external_drift_y)
             if (
                 external_drift.shape[0] != external_drift_y.shape[0]
                 or external_drift.shape[1] != external_drift_x.shape[0]
-- 
2.43.0


From 59bf3e8ac485da6e0801609f4e57ec48911df516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 32/40] fix: GSTools models with more than three dimensions are
 accepted

---
 src/pykrige/ok.py   | 4 ++--
 src/pykrige/ok3d.py | 8 ++++++--
 src/pykrige/uk.py   | 4 ++--
 src/pykrige/uk3d.py | 8 ++++++--
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/pykrige/ok.py b/src/pykrige/ok.py
index dda80ae..ee319ff 100644
--- a/src/pykrige/ok.py
+++ b/src/pykrige/ok.py
@@ -226,7 +226,7 @@ class OrdinaryKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             # check if coordinate types match
             if self.model.latlon and (self.coordinates_type == "euclidean"):
@@ -433,7 +433,7 @@ class OrdinaryKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             # check if coordinate types match
             if self.model.latlon and (self.coordinates_type == "euclidean"):
diff --git a/src/pykrige/ok3d.py b/src/pykrige/ok3d.py
index cf1bdd6..f463992 100644
--- a/src/pykrige/ok3d.py
+++ b/src/pykrige/ok3d.py
@@ -237,8 +237,10 @@ class OrdinaryKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported in 3D")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
@@ -435,8 +437,10 @@ class OrdinaryKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported in 3D")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 02885f6..24015e0 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -270,7 +270,7 @@ class UniversalKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             if self.model.latlon:
                 raise ValueError(
@@ -698,7 +698,7 @@ class UniversalKriging:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim == 3:
+            if self.model.field_dim > 2:
                 raise ValueError("GSTools: model dim is not 1 or 2")
             if self.model.latlon:
                 raise ValueError(
diff --git a/src/pykrige/uk3d.py b/src/pykrige/uk3d.py
index 3432a1f..1cf29d4 100644
--- a/src/pykrige/uk3d.py
+++ b/src/pykrige/uk3d.py
@@ -265,8 +265,10 @@ class UniversalKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported in 3D")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
@@ -520,8 +522,10 @@ class UniversalKriging3D:
             # save the model in the class
             self.model = self.variogram_model
             validate_gstools(self.model)
-            if self.model.field_dim < 3:
+            if self.model.field_dim != 3:
                 raise ValueError("GSTools: model dim is not 3")
+            if self.model.latlon:
+                raise ValueError("GSTools: latlon models not supported in 3D")
             self.variogram_model = "custom"
             variogram_function = self.model.pykrige_vario
             variogram_parameters = []
-- 
2.43.0


From 46dd681f9d3435182280b577e234eaa3b1509cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 33/40] fix: write_zmap_grid exceeds the declared field width
 for negative values

---
 src/pykrige/kriging_tools.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 1c67308..d91c5f0 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -357,12 +357,10 @@ def write_zmap_grid(
             for m in range(z.shape[0] - 1, -1, -1):
                 count += 1
                 if np.isnan(z[m, n]):
-                    f.write(space_back_to_front(format(no_data, "13.7E") + "  "))
+                    f.write(space_back_to_front(format(no_data, "14.7E") + " "))
                 else:
-                    if abs(z[m, n]) >= 1e100:  # one tailing space less
-                        f.write(space_back_to_front(format(z[m, n], "13.7E") + " "))
-                    elif abs(z[m, n]) >= 1e6:
-                        f.write(space_back_to_front(format(z[m, n], "13.7E") + "  "))
+                    if abs(z[m, n]) >= 1e6:
+                        f.write(space_back_to_front(format(z[m, n], "14.7E") + " "))
                     else:
                         f.write(space_back_to_front("{:<13.4f}".format(z[m, n]) + "  "))
                 if count % nodes_per_line == 0 or m == 0:
-- 
2.43.0


From b97276794fcb910fb62b5ba57b0893cceadd741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:12 +0000
Subject: [PATCH 34/40] fix: read_zmap_grid accepts files without a header as
 empty grid

---
 src/pykrige/kriging_tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index d91c5f0..bba14d0 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -449,7 +449,8 @@ def read_zmap_grid(filename):
                     data_values = np.empty(ny * nx)
                 i_header_line += 1
 
-    if nx * ny != i_value:
+    # without a header, both numbers are zero
+    if i_value == 0 or nx * ny != i_value:
         raise IOError(
             "Error reading *.zmap file. Encountered problem "
             "with header: (nx * ny) does not match with the "
-- 
2.43.0


From 9b8ebdf47ce79b8f4e2c145ce2bfc41a1071591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:26 +0000
Subject: [PATCH 35/40] fix: external drift grids of narrow types overflow or
 lose precision

The interpolation subtracts coordinates of the grid, which overflows for
small integer types and is rounded to single precision for float32.
Convert the grid to float64 like the coordinates of the data.
---
 src/pykrige/uk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pykrige/uk.py b/src/pykrige/uk.py
index 24015e0..7b13611 100644
--- a/src/pykrige/uk.py
+++ b/src/pykrige/uk.py
@@ -415,9 +415,9 @@ class UniversalKriging:
             if external_drift_x is None or external_drift_y is None:
                 raise ValueError("Must specify coordinates of external Z drift terms.")
             self.external_Z_drift = True
-            external_drift = np.asarray(external_drift)
-            external_drift_x = np.asarray(external_drift_x)
-            external_drift_y = np.asarray(external_drift_y)
+            external_drift = np.asarray(external_drift, dtype=np.float64)
+            external_drift_x = np.asarray(external_drift_x, dtype=np.float64)
+            external_drift_y = np.asarray(external_drift_y, dtype=np.float64)
             if (
                 external_drift.shape[0] != external_drift_y.shape[0]
                 or external_drift.shape[1] != external_drift_x.shape[0]
-- 
2.43.0


From 985f9ee46f5ef12eb5b298e62ca6d6caca17f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:01 +0000
Subject: [PATCH 36/40] fix: grid writers fail or truncate no_data for masked
 integer grids

MaskedArray.tolist fills with no_data converted to the type of the grid,
which truncates it for integers and fails for small integer types.
---
 src/pykrige/kriging_tools.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index bba14d0..61d0b12 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -45,7 +45,8 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
     """
 
     if np.ma.is_masked(z):
-        z = np.array(z.tolist(no_data))
+        # as float, since no_data may not be representable as integer
+        z = z.astype(np.float64).filled(no_data)
 
     x = np.squeeze(np.array(x))
     y = np.squeeze(np.array(y))
@@ -284,7 +285,8 @@ def write_zmap_grid(
     field_width = 15
 
     if np.ma.is_masked(z):
-        z = np.array(z.tolist(no_data))
+        # as float, since no_data may not be representable as integer
+        z = z.astype(np.float64).filled(no_data)
 
     x = np.squeeze(np.array(x))
     y = np.squeeze(np.array(y))
-- 
2.43.0


From 2e8c6e1ee9b43a16b77c6f087f054b1da1928b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 37/40] fix: anisotropy angles of narrow types are converted to
 radians in low precision

A float32 or float16 angle kept its type in the conversion, so the rotation
was off by up to a percent.
---
 src/pykrige/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 3628f57..590d1dc 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -142,7 +142,7 @@ def _adjust_for_anisotropy(X, center, scaling, angle):
     """
 
     center = np.asarray(center)[None, :]
-    angle = np.asarray(angle) * np.pi / 180
+    angle = np.asarray(angle, dtype=np.float64) * np.pi / 180
 
     X -= center
 
-- 
2.43.0


From 85fa0869f1e8f46ae469ef29834bf3fb6504698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:51 +0000
Subject: [PATCH 38/40] fix: the pair with the largest distance is dropped if
 0.001 is less than its rounding

---
 src/pykrige/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 590d1dc..31a6c70 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -479,14 +479,14 @@ def _initialize_variogram_model(
     # is appended to the list (instead of calculated as part of the
     # list comprehension) to avoid any numerical oddities
     # (specifically, say, ending up as 0.99999999999999 instead of 1.0).
-    # Appending dmax + 0.001 ensures that the largest distance value
-    # is included in the semivariogram calculation.
+    # Appending an infinite limit ensures that the largest distance value
+    # is included in the semivariogram calculation (a small increment of
+    # dmax would be lost by rounding for large distances).
     dmax = np.amax(d)
     dmin = np.amin(d)
     dd = (dmax - dmin) / nlags
     bins = [dmin + n * dd for n in range(nlags)]
-    dmax += 0.001
-    bins.append(dmax)
+    bins.append(np.inf)
 
     # This old binning method was experimental and doesn't seem
     # to work too well. Bins were computed such that there are more
-- 
2.43.0


From c78769643b21eb23367b4d257858f59c543eac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:11 +0000
Subject: [PATCH 39/40] fix: the pseudo-inverse cuts off the unbiasedness
 condition for large or small variograms

---
 src/pykrige/core.py     | 23 ++++++++++++++++++++++-
 src/pykrige/lib/cok.pyx |  9 +++++----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/pykrige/core.py b/src/pykrige/core.py
index 31a6c70..fc009ff 100755
--- a/src/pykrige/core.py
+++ b/src/pykrige/core.py
@@ -32,7 +32,28 @@ from scipy.spatial.distance import cdist, pdist, squareform
 eps = 1.0e-10  # Cutoff for comparison to zero
 
 
-P_INV = {"pinv": spl.pinv, "pinvh": spl.pinvh}
+def _scaled(p_inv):
+    """Pseudo-inverse of a kriging matrix that does not depend on the units.
+
+    The variogram and each drift are scaled to one before singular values are
+    compared, otherwise those of the conditions are cut off for large or small
+    variograms. The data share one scale, so that redundant points keep equal
+    weights.
+    """
+
+    def func(a):
+        a = np.asarray(a)
+        n = np.count_nonzero(a[-1])  # data points, the last row is the sum of weights
+        s = np.abs(a[:, :n]).max(axis=1, initial=0.0)
+        s[:n] = np.sqrt(s[:n].max(initial=0.0))
+        s[:n] = np.where(s[:n] > 0.0, s[:n], 1.0)
+        s[n:] = np.where(s[n:] > 0.0, s[n:], 1.0) / s[:1]
+        return p_inv(a / s[:, np.newaxis] / s) / s[:, np.newaxis] / s
+
+    return func
+
+
+P_INV = {"pinv": _scaled(spl.pinv), "pinvh": _scaled(spl.pinvh)}
 
 
 def great_circle_distance(lon1, lat1, lon2, lat2):
diff --git a/src/pykrige/lib/cok.pyx b/src/pykrige/lib/cok.pyx
index fc301b7..3785ac0 100644
--- a/src/pykrige/lib/cok.pyx
+++ b/src/pykrige/lib/cok.pyx
@@ -8,6 +8,7 @@ import scipy.linalg
 from scipy.linalg.cython_blas cimport dgemv
 from scipy.linalg.cython_lapack cimport dgesv
 
+from ..core import P_INV
 from .variogram_models cimport get_variogram_model
 
 
@@ -44,11 +45,11 @@ cpdef _c_exec_loop(
 
     if pars['pseudo_inv']:
         if pars['pseudo_inv_type'] == "pinv":
-            a_inv = np.asfortranarray(scipy.linalg.pinv(a_all))
+            a_inv = np.asfortranarray(P_INV['pinv'](a_all))
         elif pars['pseudo_inv_type'] == "pinv2":
             a_inv = np.asfortranarray(scipy.linalg.pinv2(a_all))
         elif pars['pseudo_inv_type'] == "pinvh":
-            a_inv = np.asfortranarray(scipy.linalg.pinvh(a_all))
+            a_inv = np.asfortranarray(P_INV['pinvh'](a_all))
         else:
             raise ValueError('Unknown pseudo inverse method selected.')
     else:
@@ -132,9 +133,9 @@ cpdef _c_exec_loop_moving_window(
     )
 
     if pars['pseudo_inv_type'] == "pinvh":
-        p_inv = scipy.linalg.pinvh
+        p_inv = P_INV['pinvh']
     else:
-        p_inv = scipy.linalg.pinv
+        p_inv = P_INV['pinv']
 
     for i in range(npt):
         if mask[i]:
-- 
2.43.0


From 868ab8930d9815a72303c49858b957f2ecc2f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:36 +0000
Subject: [PATCH 40/40] fix: write the sizes of *.asc grids without digit
 grouping of the locale

---
 src/pykrige/kriging_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pykrige/kriging_tools.py b/src/pykrige/kriging_tools.py
index 61d0b12..e304352 100755
--- a/src/pykrige/kriging_tools.py
+++ b/src/pykrige/kriging_tools.py
@@ -112,16 +112,16 @@ def write_asc_grid(x, y, z, filename="output.asc", no_data=-999.0, style=1):
 
     with io.open(filename, "w") as f:
         if style == 1:
-            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
-            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
+            f.write("NCOLS          " + "{:<10d}".format(ncols) + "\n")
+            f.write("NROWS          " + "{:<10d}".format(nrows) + "\n")
             f.write("XLLCENTER      " + "{:<10}".format(xllcenter) + "\n")
             f.write("YLLCENTER      " + "{:<10}".format(yllcenter) + "\n")
             f.write("DX             " + "{:<10}".format(dx) + "\n")
             f.write("DY             " + "{:<10}".format(dy) + "\n")
             f.write("NODATA_VALUE   " + "{:<10.2f}".format(no_data) + "\n")
         elif style == 2:
-            f.write("NCOLS          " + "{:<10n}".format(ncols) + "\n")
-            f.write("NROWS          " + "{:<10n}".format(nrows) + "\n")
+            f.write("NCOLS          " + "{:<10d}".format(ncols) + "\n")
+            f.write("NROWS          " + "{:<10d}".format(nrows) + "\n")
             f.write("XLLCORNER      " + "{:<10}".format(xllcorner) + "\n")
             f.write("YLLCORNER      " + "{:<10}".format(yllcorner) + "\n")
             f.write("CELLSIZE       " + "{:<10}".format(cellsize) + "\n")
-- 
2.43.0

