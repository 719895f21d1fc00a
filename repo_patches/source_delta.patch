From c3f536a7ed964d9a8f00d50ecfb30854b21cae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 01/19] fix: loglikelihood with a time-varying
 observation_covariance

_loglikelihoods added the whole (T, m, m) stack to every innovation covariance
instead of the entry of the current time step.
---
 pykalman/standard.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 2f183f0..6478827 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -162,6 +162,7 @@ def _loglikelihoods(
         if not np.any(np.ma.getmask(observation)):
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
+            observation_covariance_t = _last_dims(observation_covariance, t)
             predicted_state_mean = _last_dims(predicted_state_means, t, ndims=1)
             predicted_state_covariance = _last_dims(predicted_state_covariances, t)
 
@@ -173,7 +174,7 @@ def _loglikelihoods(
                     observation_matrix,
                     np.dot(predicted_state_covariance, observation_matrix.T),
                 )
-                + observation_covariance
+                + observation_covariance_t
             )
             lmnd_arr = log_multivariate_normal_density(
                 observation[np.newaxis, :],
-- 
2.43.0


From ba2c883b632a7d4af018b3306736a98681e50bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 02/19] fix: KalmanFilter.sample used the first noise
 covariance for all time steps

The loop rebound the time-varying covariance to its first entry.
---
 pykalman/standard.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index 6478827..5fe151f 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1163,8 +1163,8 @@ class KalmanFilter:
             else:
                 transition_matrix = _last_dims(transition_matrices, t - 1)
                 transition_offset = _last_dims(transition_offsets, t - 1, ndims=1)
-                transition_covariance = _last_dims(transition_covariance, t - 1)
-                cov = newbyteorder(transition_covariance, "=")
+                transition_covariance_t = _last_dims(transition_covariance, t - 1)
+                cov = newbyteorder(transition_covariance_t, "=")
                 states[t] = (
                     np.dot(transition_matrix, states[t - 1])
                     + transition_offset
@@ -1173,12 +1173,12 @@ class KalmanFilter:
 
             observation_matrix = _last_dims(observation_matrices, t)
             observation_offset = _last_dims(observation_offsets, t, ndims=1)
-            observation_covariance = _last_dims(observation_covariance, t)
+            observation_covariance_t = _last_dims(observation_covariance, t)
             observations[t] = (
                 np.dot(observation_matrix, states[t])
                 + observation_offset
                 + rng.multivariate_normal(
-                    np.zeros(n_dim_obs), newbyteorder(observation_covariance, "=")
+                    np.zeros(n_dim_obs), newbyteorder(observation_covariance_t, "=")
                 )
             )
 
-- 
2.43.0


From 182ceebedeae9ec09f80de66aed9630506530aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 03/19] fix: em() without em_vars on the square root filters,
 and after em_vars is reassigned

CholeskyKalmanFilter.em and BiermanKalmanFilter.em raised TypeError unless em_vars
was given (self.em_vars is None by default), and KalmanFilter.em ignored an em_vars
attribute assigned after construction.
---
 pykalman/sqrt/bierman.py  |  2 +-
 pykalman/sqrt/cholesky.py |  2 +-
 pykalman/standard.py      | 21 +++++++++++----------
 3 files changed, 13 insertions(+), 12 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index efc77ad..c0ec7c0 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -813,7 +813,7 @@ class BiermanKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self._default_em_vars()
 
         if em_vars == "all":
             given = {}
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 71f8cc1..e609fd7 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -644,7 +644,7 @@ class CholeskyKalmanFilter(KalmanFilter):
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self.em_vars
+            em_vars = self._default_em_vars()
 
         if em_vars == "all":
             given = {}
diff --git a/pykalman/standard.py b/pykalman/standard.py
index 5fe151f..e601350 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1103,15 +1103,16 @@ class KalmanFilter:
         self.n_dim_state = n_dim_state
         self.n_dim_obs = n_dim_obs
 
-        if em_vars is None:
-            self._em_vars = [
-                "transition_covariance",
-                "observation_covariance",
-                "initial_state_mean",
-                "initial_state_covariance",
-            ]
-        else:
-            self._em_vars = em_vars
+    def _default_em_vars(self):
+        """Names of the parameters `em` fits if it is not told otherwise."""
+        if self.em_vars is not None:
+            return self.em_vars
+        return [
+            "transition_covariance",
+            "observation_covariance",
+            "initial_state_mean",
+            "initial_state_covariance",
+        ]
 
     def sample(self, n_timesteps, initial_state=None, random_state=None):
         r"""Sample a state sequence :math:`n_{\\text{timesteps}}` timesteps in length.
@@ -1451,7 +1452,7 @@ class KalmanFilter:
 
         # Create dictionary of variables not to perform EM on
         if em_vars is None:
-            em_vars = self._em_vars
+            em_vars = self._default_em_vars()
 
         if em_vars == "all":
             given = {}
-- 
2.43.0


From 58b55fd9eff97fe9d246781a6fac8bbb19b1b547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 04/19] fix: filter_update of the square root filters returned
 an (1, n, n) covariance

The result could not be passed back to filter_update as documented.
---
 pykalman/sqrt/bierman.py   | 2 +-
 pykalman/sqrt/cholesky.py  | 2 +-
 pykalman/sqrt/unscented.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index c0ec7c0..a7a0735 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -703,7 +703,7 @@ class BiermanKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index e609fd7..98dc0a6 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -534,7 +534,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         # reconstruct actual covariance
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 320634b..99f4508 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -764,7 +764,7 @@ class AdditiveUnscentedKalmanFilter(AUKF):
 
         next_filtered_state_covariance = _reconstruct_covariances(
             next_filtered_state_covariance2
-        )
+        )[0]
 
         return (next_filtered_state_mean, next_filtered_state_covariance)
 
-- 
2.43.0


From f5071433d3c1cecfab2052aa404a5f8797f068d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 05/19] fix: unscented filters only ever used the first of a
 list of functions

A list of n_timesteps - 1 transition functions (n_timesteps observation functions) is
documented to give the function of each time step.
---
 pykalman/sqrt/unscented.py | 10 ++++-----
 pykalman/unscented.py      | 43 ++++++++++++++++++++++++++++----------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 99f4508..2c009be 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -22,9 +22,9 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from ..standard import _arg_or_default, _last_dims
+from ..standard import _arg_or_default
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
-from ..unscented import Moments, SigmaPoints
+from ..unscented import Moments, SigmaPoints, _function_at
 from ..utils import array2d
 
 
@@ -457,14 +457,14 @@ def _additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma2_transition=Q2
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma2_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma2_observation=R2
         )
@@ -516,7 +516,7 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        transition_function = _last_dims(f, t, ndims=1)[0]
+        transition_function = _function_at(f, t)
         (points_pred, moments_pred) = _unscented_transform(
             points_state, transition_function, sigma2_noise=Q2
         )
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index e4027a4..bf4f222 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -14,7 +14,7 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from .standard import _arg_or_default, _determine_dimensionality, _last_dims
+from .standard import _arg_or_default, _determine_dimensionality
 from .utils import (
     array1d,
     array2d,
@@ -35,6 +35,27 @@ SigmaPoints = namedtuple(
 Moments = namedtuple("Moments", ["mean", "covariance"])
 
 
+def _function_at(functions, t):
+    """Get the function in effect at time `t`.
+
+    Parameters
+    ----------
+    functions : [1] or [n_timesteps] or [n_timesteps, 1] array of functions
+        functions to choose from; a single one is in effect at all times
+    t : int
+        time index
+
+    Returns
+    -------
+    function : function
+        function in effect at time `t`
+    """
+    functions = np.asarray(functions)
+    if functions.shape == (1,):
+        return functions[0]
+    return np.ravel(functions[t])[0]
+
+
 def points2moments(points, sigma_noise=None):
     """Calculate estimated mean and covariance of sigma points.
 
@@ -452,13 +473,13 @@ def augmented_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (points_pred, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, points_transition=points_transition
             )
 
         # Calculate E[z_t | z_{0:t-1}], Var(z_t | z_{0:t-1})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function,
             moments_pred,
@@ -516,7 +537,7 @@ def augmented_unscented_smoother(mu_filt, sigma_filt, f, Q):
         )
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _function_at(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, points_noise=points_transition
         )
@@ -592,14 +613,14 @@ def additive_unscented_filter(mu_0, sigma_0, f, g, Q, R, Z):
             points_pred = points_state
             moments_pred = points2moments(points_pred)
         else:
-            transition_function = _last_dims(f, t - 1, ndims=1)[0]
+            transition_function = _function_at(f, t - 1)
             (_, moments_pred) = unscented_filter_predict(
                 transition_function, points_state, sigma_transition=Q
             )
             points_pred = moments2points(moments_pred)
 
         # Calculate E[x_t | z_{0:t}], Var(x_t | z_{0:t})
-        observation_function = _last_dims(g, t, ndims=1)[0]
+        observation_function = _function_at(g, t)
         mu_filt[t], sigma_filt[t] = unscented_filter_correct(
             observation_function, moments_pred, points_pred, Z[t], sigma_observation=R
         )
@@ -650,7 +671,7 @@ def additive_unscented_smoother(mu_filt, sigma_filt, f, Q):
         points_state = moments2points(moments_state)
 
         # compute E[x_{t+1} | z_{0:t}], Var(x_{t+1} | z_{0:t})
-        f_t = _last_dims(f, t, ndims=1)[0]
+        f_t = _function_at(f, t)
         (points_pred, moments_pred) = unscented_transform(
             points_state, f_t, sigma_noise=Q
         )
@@ -847,12 +868,12 @@ class UnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1], transition_noise)
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t], observation_noise)
@@ -1163,12 +1184,12 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
             if t == 0:
                 x[0] = initial_state
             else:
-                transition_func = _last_dims(transition_functions, t - 1, ndims=1)[0]
+                transition_func = _function_at(transition_functions, t - 1)
                 cov = newbyteorder(transition_covariance, "=")
                 transition_noise = rng.multivariate_normal(np.zeros(n_dim_state), cov)
                 x[t] = transition_func(x[t - 1]) + transition_noise
 
-            observation_function = _last_dims(observation_functions, t, ndims=1)[0]
+            observation_function = _function_at(observation_functions, t)
             cov = newbyteorder(observation_covariance, "=")
             observation_noise = rng.multivariate_normal(np.zeros(n_dim_obs), cov)
             z[t] = observation_function(x[t]) + observation_noise
-- 
2.43.0


From b1bdbc857f47c226a89b96b07a11cf68c9a5db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 06/19] fix: a single time step of a multi-dimensional
 observation was transposed

An observation sequence of shape (1, n_dim_obs) was turned into n_dim_obs time steps.
---
 pykalman/standard.py  | 2 +-
 pykalman/unscented.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/standard.py b/pykalman/standard.py
index e601350..0268c6c 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -1645,6 +1645,6 @@ class KalmanFilter:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = np.ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        if obs.shape[0] == 1 and obs.shape[1] > 1 and self.n_dim_obs == 1:
             obs = obs.T
         return obs
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index bf4f222..ccb1ba7 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -754,7 +754,7 @@ class UnscentedMixin:
     def _parse_observations(self, obs):
         """Safely convert observations to their expected format."""
         obs = ma.atleast_2d(obs)
-        if obs.shape[0] == 1 and obs.shape[1] > 1:
+        if obs.shape[0] == 1 and obs.shape[1] > 1 and self.n_dim_obs == 1:
             obs = obs.T
         return obs
 
-- 
2.43.0


From 8c02eb16ec997b1a8e895fe820443867a7d28c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:50 +0000
Subject: [PATCH 07/19] fix: Bierman filter truncated results to integers for
 integer parameters

---
 pykalman/sqrt/bierman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/bierman.py b/pykalman/sqrt/bierman.py
index a7a0735..ae0b8fc 100644
--- a/pykalman/sqrt/bierman.py
+++ b/pykalman/sqrt/bierman.py
@@ -71,7 +71,7 @@ def udu(M):
     n = M.shape[0]
 
     # perform Bierman's COV2UD subroutine (fucking inclusive indices)
-    M = np.triu(M)
+    M = np.triu(M).astype(float)
     U = np.eye(n)
     d = np.zeros(n)
     for j in reversed(range(2, n + 1)):
@@ -134,7 +134,7 @@ def decorrelate_observations(
     observation_covariance_inv = linalg.pinv(observation_covariance2)
 
     # decorrelate observation_matrices
-    observation_matrices2 = np.copy(observation_matrices)
+    observation_matrices2 = np.array(observation_matrices, dtype=float)
     if len(observation_matrices.shape) == DIM["observation_matrices"] + 1:
         n_timesteps = observation_matrices.shape[0]
         for t in range(n_timesteps):
-- 
2.43.0


From fa38e612620cc3c26da66f667158ba26d9f91df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 08/19] fix: newbyteorder reinterpreted the bytes instead of
 converting the values

sample() with a big-endian covariance drew from garbage.
---
 pykalman/utils/_numpy.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pykalman/utils/_numpy.py b/pykalman/utils/_numpy.py
index c6521e4..2d85b3a 100644
--- a/pykalman/utils/_numpy.py
+++ b/pykalman/utils/_numpy.py
@@ -1,9 +1,5 @@
 """Utility functions to handle numpy 2."""
 
-from skbase.utils.dependencies import _check_soft_dependencies
-
-numpy2 = _check_soft_dependencies("numpy>=2", severity="none")
-
 
 def newbyteorder(arr, new_order):
     """Change the byte order of an array.
@@ -20,7 +16,4 @@ def newbyteorder(arr, new_order):
     arr : ndarray
         Array with new byte order.
     """
-    if numpy2:
-        return arr.view(arr.dtype.newbyteorder(new_order))
-    else:
-        return arr.newbyteorder(new_order)
+    return arr.astype(arr.dtype.newbyteorder(new_order), copy=False)
-- 
2.43.0


From 61d25cb4b551aefa89a03a2a287622cdfc4d407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 09/19] fix: cholupdate divided by zero when the downdated
 matrix is singular

sqrt.AdditiveUnscentedKalmanFilter.smooth returned NaN when, e.g., the last
observation is masked.
---
 pykalman/sqrt/unscented.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 2c009be..088f1d7 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -98,6 +98,11 @@ def cholupdate(A2, X, weight):
         for k in range(n_dim):
             r_squared = A2[k, k] ** 2 + sign * x[k] ** 2
             r = 0.0 if r_squared < 0 else np.sqrt(r_squared)
+            if r == 0.0:
+                # the updated matrix is singular: nothing is left in this
+                # row, nor in the part of x that is yet to be applied
+                A2[k, k:] = 0.0
+                break
             c = r / A2[k, k]
             s = x[k] / A2[k, k]
             A2[k, k] = r
-- 
2.43.0


From 2671fa27135908d631b195fac483e6960e303444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 10/19] fix: an invalid random_state raised AttributeError
 instead of ValueError

---
 pykalman/utils/_sklearn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 1569372..3f86ddb 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -83,8 +83,8 @@ def check_random_state(seed):
     if isinstance(seed, np.random.RandomState):
         return seed
     raise ValueError(
-        "{0} cannot be used to seed a numpy.random.RandomState" + " instance"
-    ).format(seed)
+        f"{seed} cannot be used to seed a numpy.random.RandomState instance"
+    )
 
 
 class Bunch(dict):
-- 
2.43.0


From fc9f293729355af28cc2cfacd2cf5e3f190e5438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 11/19] fix: square root unscented correction with correlated
 observation components

obs_sigma2_pred is upper triangular with obs_sigma2_pred.T.dot(obs_sigma2_pred) the
innovation covariance; the gain was computed from obs_sigma2_pred.dot(obs_sigma2_pred.T).
---
 pykalman/sqrt/unscented.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 088f1d7..68c5bc1 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -291,14 +291,14 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
         ##############################################
 
         # equivalent to this MATLAB code
-        # K = (cross_sigma / obs_sigma2_pred.T) / obs_sigma2_pred
-        K = linalg.lstsq(obs_sigma2_pred, cross_sigma.T)[0]
-        K = linalg.lstsq(obs_sigma2_pred.T, K)[0]
+        # K = (cross_sigma / obs_sigma2_pred) / obs_sigma2_pred.T
+        K = linalg.lstsq(obs_sigma2_pred.T, cross_sigma.T)[0]
+        K = linalg.lstsq(obs_sigma2_pred, K)[0]
         K = K.T
 
         # correct mu, sigma
         mu_filt = mu_pred + K.dot(z - obs_mu_pred)
-        U = K.dot(obs_sigma2_pred)
+        U = K.dot(obs_sigma2_pred.T)
         sigma2_filt = cholupdate(sigma2_pred, U.T, -1.0)
     else:
         # no corrections to be made
-- 
2.43.0


From 203f18ea8316bc325aa905a14c8af9da85c3a1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 12/19] fix: square root unscented transform added points of
 negative weight

With more than three state dimensions the central sigma point has negative weight, and
its outer product has to be taken away.
---
 pykalman/sqrt/unscented.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 68c5bc1..815eb34 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -139,15 +139,18 @@ def points2moments(points, sigma2_noise=None):
     mu = points.T.dot(weights_mu)
 
     # make points to perform QR factorization on. each column is one data point
-    qr_points = [
-        np.sign(weights_sigma)[np.newaxis, :]
-        * np.sqrt(np.abs(weights_sigma))[np.newaxis, :]
-        * (points.T - mu[:, np.newaxis])
-    ]
+    weighted_points = np.sqrt(np.abs(weights_sigma))[np.newaxis, :] * (
+        points.T - mu[:, np.newaxis]
+    )
+    negative = weights_sigma < 0
+    qr_points = [weighted_points[:, ~negative]]
     if sigma2_noise is not None:
         qr_points.append(sigma2_noise)
     sigma2 = qr(np.hstack(qr_points).T)
-    # sigma2 = cholupdate(sigma2, points[0] - mu, weights_sigma[0])
+
+    # points with negative weight are taken away again
+    if np.any(negative):
+        sigma2 = cholupdate(sigma2, weighted_points[:, negative].T, -1.0)
     return Moments(mu.ravel(), sigma2)
 
 
-- 
2.43.0


From 8fc7b61403cda1708cfe9d46923f83dfa8e6cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 13/19] fix: square root unscented transform with correlated
 noise components

sigma2_noise is upper triangular with sigma2_noise.T.dot(sigma2_noise) the noise
covariance; the transform added sigma2_noise.dot(sigma2_noise.T).
---
 pykalman/sqrt/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 815eb34..54a9704 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -145,7 +145,7 @@ def points2moments(points, sigma2_noise=None):
     negative = weights_sigma < 0
     qr_points = [weighted_points[:, ~negative]]
     if sigma2_noise is not None:
-        qr_points.append(sigma2_noise)
+        qr_points.append(sigma2_noise.T)
     sigma2 = qr(np.hstack(qr_points).T)
 
     # points with negative weight are taken away again
-- 
2.43.0


From a5cb24aa88028139e909768bce37c866b0f723be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 14/19] fix: square root unscented smoother with fewer observed
 than state dimensions

---
 pykalman/sqrt/unscented.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 54a9704..b0bcd4f 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -553,8 +553,13 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         mu_smooth[t] = mu_filt[t] + smoother_gain.dot(
             mu_smooth[t + 1] - moments_pred.mean
         )
-        U = cholupdate(moments_pred.covariance, sigma2_smooth[t + 1], -1.0)
-        sigma2_smooth[t] = cholupdate(sigma2_filt[t], smoother_gain.dot(U.T).T, -1.0)
+        # take away what x_{t+1} explains, then add what is left unknown of it.
+        # The first difference is positive definite, whereas that of the predicted
+        # and the smoothed covariance is singular whenever n_dim_obs < n_dim_state
+        U_pred = smoother_gain.dot(moments_pred.covariance.T)
+        U_smooth = smoother_gain.dot(sigma2_smooth[t + 1].T)
+        sigma2_smooth[t] = cholupdate(sigma2_filt[t], U_pred.T, -1.0)
+        sigma2_smooth[t] = cholupdate(sigma2_smooth[t], U_smooth.T, 1.0)
 
     return (mu_smooth, sigma2_smooth)
 
-- 
2.43.0


From 28c138f55e929b51f85b98fbeeb0f08ce596eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:08 +0000
Subject: [PATCH 15/19] fix: square root unscented smoother when weights are
 negative (more than three state dimensions)

---
 pykalman/sqrt/unscented.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index b0bcd4f..7717eaa 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -553,13 +553,14 @@ def _additive_unscented_smoother(mu_filt, sigma2_filt, f, Q):
         mu_smooth[t] = mu_filt[t] + smoother_gain.dot(
             mu_smooth[t + 1] - moments_pred.mean
         )
-        # take away what x_{t+1} explains, then add what is left unknown of it.
-        # The first difference is positive definite, whereas that of the predicted
-        # and the smoothed covariance is singular whenever n_dim_obs < n_dim_state
+        # add what is left unknown of x_{t+1}, then take away all that it explains.
+        # In this order every matrix on the way is at least the result, which is
+        # positive definite; the difference of the predicted and the smoothed
+        # covariance is singular whenever n_dim_obs < n_dim_state
         U_pred = smoother_gain.dot(moments_pred.covariance.T)
         U_smooth = smoother_gain.dot(sigma2_smooth[t + 1].T)
-        sigma2_smooth[t] = cholupdate(sigma2_filt[t], U_pred.T, -1.0)
-        sigma2_smooth[t] = cholupdate(sigma2_smooth[t], U_smooth.T, 1.0)
+        sigma2_smooth[t] = cholupdate(sigma2_filt[t], U_smooth.T, 1.0)
+        sigma2_smooth[t] = cholupdate(sigma2_smooth[t], U_pred.T, -1.0)
 
     return (mu_smooth, sigma2_smooth)
 
-- 
2.43.0


From 2b1b635dd5e3a1e0e9ec75fb3f3cdbc421fb33d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:22 +0000
Subject: [PATCH 16/19] fix: byte order of parameters and covariances given to
 the square root and unscented filters

---
 pykalman/sqrt/cholesky.py  | 3 ++-
 pykalman/sqrt/unscented.py | 5 ++++-
 pykalman/standard.py       | 2 +-
 pykalman/unscented.py      | 2 +-
 pykalman/utils/_sklearn.py | 9 +++++++--
 5 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 98dc0a6..326e56b 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -24,6 +24,7 @@ from ..standard import (
     _smooth_pair,
 )
 from ..utils import get_params
+from ..utils_numpy import newbyteorder
 
 
 def _reconstruct_covariances(covariance2s):
@@ -509,7 +510,7 @@ class CholeskyKalmanFilter(KalmanFilter):
         transition_covariance2 = linalg.cholesky(transition_covariance, lower=True)
         observation_covariance2 = linalg.cholesky(observation_covariance, lower=True)
         filtered_state_covariance2 = linalg.cholesky(
-            filtered_state_covariance, lower=True
+            newbyteorder(filtered_state_covariance, "="), lower=True
         )
 
         # predict
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 7717eaa..5580869 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -26,6 +26,7 @@ from ..standard import _arg_or_default
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
 from ..unscented import Moments, SigmaPoints, _function_at
 from ..utils import array2d
+from ..utils_numpy import newbyteorder
 
 
 def _reconstruct_covariances(covariance2s):
@@ -750,7 +751,9 @@ class AdditiveUnscentedKalmanFilter(AUKF):
             observation = np.ma.asarray(observation)
 
         # preprocess covariance matrices
-        filtered_state_covariance2 = linalg.cholesky(filtered_state_covariance)
+        filtered_state_covariance2 = linalg.cholesky(
+            newbyteorder(filtered_state_covariance, "=")
+        )
         transition_covariance2 = linalg.cholesky(transition_covariance)
         observation_covariance2 = linalg.cholesky(observation_covariance)
 
diff --git a/pykalman/standard.py b/pykalman/standard.py
index 0268c6c..a780408 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -40,7 +40,7 @@ def _arg_or_default(arg, default, dim, name):
     if arg is None:
         result = np.asarray(default)
     else:
-        result = arg
+        result = newbyteorder(arg, "=")
     if len(result.shape) > dim:
         raise ValueError(
             ("%s is not constant for all time." + "  You must specify it manually.")
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index ccb1ba7..89e59b3 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -112,7 +112,7 @@ def moments2points(moments, alpha=None, beta=None, kappa=None):
         kappa = 3.0 - n_dim
 
     # compute sqrt(sigma)
-    sigma2 = linalg.cholesky(sigma).T
+    sigma2 = linalg.cholesky(newbyteorder(sigma, "=")).T
 
     # Calculate scaling factor for all off-center points
     lamda = (alpha * alpha) * (n_dim + kappa) - n_dim
diff --git a/pykalman/utils/_sklearn.py b/pykalman/utils/_sklearn.py
index 3f86ddb..44ec268 100644
--- a/pykalman/utils/_sklearn.py
+++ b/pykalman/utils/_sklearn.py
@@ -36,15 +36,20 @@ import inspect
 import numpy as np
 from scipy import linalg
 
+from ._numpy import newbyteorder
+
 
 def array1d(X, dtype=None, order=None):
     """Return at least 1-d array with data from X."""
-    return np.asarray(np.atleast_1d(X), dtype=dtype, order=order)
+    X = np.asarray(np.atleast_1d(X), dtype=dtype, order=order)
+    # scipy.linalg misreads arrays of foreign byte order
+    return newbyteorder(X, "=")
 
 
 def array2d(X, dtype=None, order=None):
     """Return at least 2-d array with data from X."""
-    return np.asarray(np.atleast_2d(X), dtype=dtype, order=order)
+    X = np.asarray(np.atleast_2d(X), dtype=dtype, order=order)
+    return newbyteorder(X, "=")
 
 
 def log_multivariate_normal_density(X, means, covars, min_covar=1.0e-7):
-- 
2.43.0


From 696715e7b5686f3f364a9d22cc3aee969b2a907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 17/19] fix: unscented filter_update without a needed per-step
 function raised AssertionError instead of ValueError

---
 pykalman/sqrt/unscented.py |  6 +++++-
 pykalman/unscented.py      | 12 ++++++++++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 5580869..0d10377 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -725,7 +725,11 @@ class AdditiveUnscentedKalmanFilter(AUKF):
 
         def default_function(f, arr):
             if f is None:
-                assert len(arr) == 1
+                if len(arr) != 1:
+                    raise ValueError(
+                        "functions are not constant for all time."
+                        "  You must specify them manually."
+                    )
                 f = arr[0]
             return f
 
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index 89e59b3..d01c587 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -986,7 +986,11 @@ class UnscentedKalmanFilter(UnscentedMixin):
 
         def default_function(f, arr):
             if f is None:
-                assert len(arr) == 1
+                if len(arr) != 1:
+                    raise ValueError(
+                        "functions are not constant for all time."
+                        "  You must specify them manually."
+                    )
                 f = arr[0]
             return f
 
@@ -1302,7 +1306,11 @@ class AdditiveUnscentedKalmanFilter(UnscentedMixin):
 
         def default_function(f, arr):
             if f is None:
-                assert len(arr) == 1
+                if len(arr) != 1:
+                    raise ValueError(
+                        "functions are not constant for all time."
+                        "  You must specify them manually."
+                    )
                 f = arr[0]
             return f
 
-- 
2.43.0


From 897ac256d73bdc3882b3acd8177e8d9b9a5b8ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 18/19] fix: observations of the wrong size were broadcast to
 fit the model

---
 pykalman/sqrt/cholesky.py  |  2 ++
 pykalman/sqrt/unscented.py |  4 +++-
 pykalman/standard.py       | 10 ++++++++++
 pykalman/unscented.py      |  4 +++-
 4 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/pykalman/sqrt/cholesky.py b/pykalman/sqrt/cholesky.py
index 326e56b..db417d1 100644
--- a/pykalman/sqrt/cholesky.py
+++ b/pykalman/sqrt/cholesky.py
@@ -17,6 +17,7 @@ from ..standard import (
     DIM,
     KalmanFilter,
     _arg_or_default,
+    _check_observation,
     _em,
     _last_dims,
     _loglikelihoods,
@@ -156,6 +157,7 @@ def _filter_correct(
         # extract size of state space
         n_dim_state = len(predicted_state_mean)
         n_dim_obs = len(observation)
+        _check_observation(observation, observation_matrix.shape[0])
 
         # construct matrix M = [    R^{1/2}^{T},            0;
         #                       (C S_{t|t-1})^T,  S_{t|t-1}^T]
diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 0d10377..7ce0c61 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -22,7 +22,7 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from ..standard import _arg_or_default
+from ..standard import _arg_or_default, _check_observation
 from ..unscented import AdditiveUnscentedKalmanFilter as AUKF
 from ..unscented import Moments, SigmaPoints, _function_at
 from ..utils import array2d
@@ -284,6 +284,8 @@ def _unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
     obs_mu_pred, obs_sigma2_pred = obs_moments_pred
 
     if not np.any(ma.getmask(z)):
+        _check_observation(z, len(obs_mu_pred))
+
         ##############################################
         # Same as this, but more stable (supposedly) #
         ##############################################
diff --git a/pykalman/standard.py b/pykalman/standard.py
index a780408..7e65112 100644
--- a/pykalman/standard.py
+++ b/pykalman/standard.py
@@ -49,6 +49,15 @@ def _arg_or_default(arg, default, dim, name):
     return result
 
 
+def _check_observation(observation, n_dim_obs):
+    """Refuse an observation that broadcasting would make fit the model."""
+    if np.size(observation) != n_dim_obs:
+        raise ValueError(
+            "observation has %d component(s), the model has %d"
+            % (np.size(observation), n_dim_obs)
+        )
+
+
 def _determine_dimensionality(variables, default):
     """Derive the dimensionality of the state space.
 
@@ -274,6 +283,7 @@ def _filter_correct(
         [0...t]
     """
     if not np.any(np.ma.getmask(observation)):
+        _check_observation(observation, observation_matrix.shape[0])
         predicted_observation_mean = (
             np.dot(observation_matrix, predicted_state_mean) + observation_offset
         )
diff --git a/pykalman/unscented.py b/pykalman/unscented.py
index d01c587..08245c7 100644
--- a/pykalman/unscented.py
+++ b/pykalman/unscented.py
@@ -14,7 +14,7 @@ import numpy as np
 from numpy import ma
 from scipy import linalg
 
-from .standard import _arg_or_default, _determine_dimensionality
+from .standard import _arg_or_default, _check_observation, _determine_dimensionality
 from .utils import (
     array1d,
     array2d,
@@ -214,6 +214,8 @@ def unscented_correct(cross_sigma, moments_pred, obs_moments_pred, z):
     obs_mu_pred, obs_sigma_pred = obs_moments_pred
 
     if not np.any(ma.getmask(z)):
+        _check_observation(z, len(obs_mu_pred))
+
         # calculate Kalman gain
         K = cross_sigma.dot(linalg.pinv(obs_sigma_pred))
 
-- 
2.43.0


From f711fda67041618dce3007f9312327111b81f083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:19 +0000
Subject: [PATCH 19/19] fix: cholupdate of an integer array truncated the
 result to integers

---
 pykalman/sqrt/unscented.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykalman/sqrt/unscented.py b/pykalman/sqrt/unscented.py
index 7ce0c61..d4d8dc7 100644
--- a/pykalman/sqrt/unscented.py
+++ b/pykalman/sqrt/unscented.py
@@ -83,7 +83,7 @@ def cholupdate(A2, X, weight):
     """
     # make copies
     X = X.copy()
-    A2 = A2.copy()
+    A2 = np.array(A2, dtype=float)
 
     # standardize input shape
     if len(X.shape) == 1:
-- 
2.43.0

