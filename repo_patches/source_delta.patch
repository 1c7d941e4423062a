From 8c2aa022c6400cf178cd38073ab8e086796faec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:32 +0000
Subject: [PATCH 01/23] fix: keep the corrected mean a vector in
 Estimator.proj_meas

The innovation was reshaped to a column, so the corrected mean broadcast to a
(d, d) matrix (or (1, 1) for scalar models) and EP failed or gave wrong means.
---
 MomentMatching/Estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/Estimator.py b/MomentMatching/Estimator.py
index 00fdb99..31435e6 100644
--- a/MomentMatching/Estimator.py
+++ b/MomentMatching/Estimator.py
@@ -74,7 +74,7 @@ class Estimator:
         z_cov = symmetrize(z_cov)
         np.linalg.cholesky(z_cov)
         kalman_gain = np.linalg.solve(z_cov, xz_cross_cov.T).T
-        mean = state.mean + kalman_gain @ (meas - z_mean).reshape(-1,1)  # equation 15  in Marc's ACC paper
+        mean = state.mean + kalman_gain @ (meas - z_mean)  # equation 15  in Marc's ACC paper
         cov = state.cov - kalman_gain @ xz_cross_cov.T
         cov = symmetrize(cov)
         corrected_state = Gaussian(mean, cov)
-- 
2.43.0


From 77f5b1b0153b448c48718b9acabfdcda81416dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:34 +0000
Subject: [PATCH 02/23] fix: keep the Jacobian a matrix in TaylorTransform

squeeze() also dropped the state axis of scalar models and the output axis of
scalar measurements for model functions that return a batch of one, so the
products were no longer matrix products.
---
 MomentMatching/TaylorLinearisation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/MomentMatching/TaylorLinearisation.py b/MomentMatching/TaylorLinearisation.py
index cb16794..ea75f41 100644
--- a/MomentMatching/TaylorLinearisation.py
+++ b/MomentMatching/TaylorLinearisation.py
@@ -50,8 +50,7 @@ class TaylorTransform(MappingTransform):
         assert isinstance(state, Gaussian)
         # J_t = self.numerical_jacobian(func, state.mean)
         J_t = jacobian(func)(state.mean)
-        if np.ndim(J_t) > 2:
-          J_t = np.squeeze(J_t)
+        J_t = np.reshape(J_t, (-1, state.dim))
         mean = func(state.mean)
         mean = np.squeeze(mean)
         cov = J_t @ state.cov @ J_t.T
-- 
2.43.0


From 21ad6d69e9ccaa6163445437d0a15f60ceaa8d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 03/23] fix: report an ill-conditioned solve as LinAlgError

LinAlgWarning is configured to raise, is not a LinAlgError, and so escaped the
handlers of the node updates and aborted the whole sweep.
---
 Utils/linalg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Utils/linalg.py b/Utils/linalg.py
index 6ac56e1..4dac467 100644
--- a/Utils/linalg.py
+++ b/Utils/linalg.py
@@ -12,7 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from scipy.linalg import cholesky, solve, solve_triangular
+from scipy.linalg import cholesky, solve, solve_triangular, LinAlgError, LinAlgWarning
 import numpy as np
 
 JIT = 1e-10
@@ -39,7 +39,10 @@ def jittered_solve(a, b, jitter=None, overwrite_a=False, overwrite_b=False, assu
     try:
         x = solve(a, b, overwrite_a=overwrite_a, overwrite_b=overwrite_b, assume_a=assume_a, transposed=transposed)
     except:
-        x = solve(a, b, overwrite_a=overwrite_a, overwrite_b=overwrite_b, assume_a='gen', transposed=transposed)
+        try:
+            x = solve(a, b, overwrite_a=overwrite_a, overwrite_b=overwrite_b, assume_a='gen', transposed=transposed)
+        except LinAlgWarning as err:  # LinAlgWarning may be configured to raise, and is not a LinAlgError
+            raise LinAlgError(str(err))
     return x
 
 def symmetrize(cov):
-- 
2.43.0


From b57bbaebfe6473aaee63906547108b881bfe8958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 04/23] fix: never commit an improper marginal

A marginal whose precision is negative (trace below 1e-10) reads as the vague
covariance, so it passed the covariance check, and a non-finite mean passed it
too; both were committed and spread to the neighbours.
---
 ExpectationPropagation/Nodes.py |  6 +++---
 Utils/__init__.py               |  2 +-
 Utils/linalg.py                 | 12 ++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 7b7e3f9..bdb3838 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -16,7 +16,7 @@
 import numpy as np
 from StateModel import Gaussian
 from numpy.linalg import LinAlgError
-from Utils import validate_covariance
+from Utils import validate_covariance, validate_marginal
 from functools import partial
 from MomentMatching import Estimator
 from Systems import DynamicSystemModel
@@ -74,7 +74,7 @@ class Node:
 
             fwd_factor = (self.forward_factor ** (1 - self.damping)) * (state ** self.damping)
             marginal = self.marginal * (fwd_factor / old_forward_factor) ** (1 / self.power)
-            validate_covariance(marginal)
+            validate_marginal(marginal)
         except LinAlgError:
             return
 
@@ -130,7 +130,7 @@ class Node:
         new_factor = factor * (marginal_ratio ** damping)  # PowerEP equation 22
         new_marginal = marginal * (marginal_ratio ** (damping / power))  # PowerEP equation 23
 
-        validate_covariance(new_marginal)
+        validate_marginal(new_marginal)
 
         return new_factor, new_marginal
 
diff --git a/Utils/__init__.py b/Utils/__init__.py
index 5fe4dc8..1ec7231 100644
--- a/Utils/__init__.py
+++ b/Utils/__init__.py
@@ -1 +1 @@
-from .linalg import cholesky, validate_covariance,jittered_chol, jittered_solve
\ No newline at end of file
+from .linalg import cholesky, validate_covariance, validate_marginal, jittered_chol, jittered_solve
\ No newline at end of file
diff --git a/Utils/linalg.py b/Utils/linalg.py
index 4dac467..97556ff 100644
--- a/Utils/linalg.py
+++ b/Utils/linalg.py
@@ -53,6 +53,18 @@ def validate_covariance(state):
     np.linalg.cholesky(state.cov)
 
 
+def validate_marginal(state):
+    """
+    Raises LinAlgError unless the state is a proper Gaussian. The precision is
+    checked too, because a precision with trace below zero reads as a vague
+    (and hence valid) covariance.
+    """
+    validate_covariance(state)
+    np.linalg.cholesky(state.precision)
+    if not np.all(np.isfinite(state.mean)):
+        raise LinAlgError('mean is not finite')
+
+
 if __name__=="__main__":
     np.random.RandomState(seed=100)
     np.random.seed(seed=100)
-- 
2.43.0


From 3a026829331376ed2b2ae5d7c22bc163ed55de01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 05/23] fix: skip an update whose cavity cannot be computed

The cavities were formed outside the LinAlgError handlers, so a failing solve
while reading a marginal's natural parameters aborted the sweep.
---
 ExpectationPropagation/Nodes.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index bdb3838..1e86df6 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -63,12 +63,12 @@ class Node:
         # fwd_cavity = self.marginal / self.forward_factor
         old_forward_factor = self.forward_factor
         try:
-            prev_node = self.prev_node.copy()
-            back_cavity = prev_node.marginal / (prev_node.back_factor ** (1 / self.power))
-        except AttributeError:
-            back_cavity = self.prior
+            try:
+                prev_node = self.prev_node.copy()
+                back_cavity = prev_node.marginal / (prev_node.back_factor ** (1 / self.power))
+            except AttributeError:
+                back_cavity = self.prior
 
-        try:
             state = proj_trans(self.trans_func, back_cavity)
             validate_covariance(state)
 
@@ -81,9 +81,9 @@ class Node:
         self.forward_factor, self.marginal = fwd_factor, marginal
 
     def meas_update(self, proj_meas):
-        measurement_cavity = self.marginal / self.measurement_factor
-
         try:
+            measurement_cavity = self.marginal / self.measurement_factor
+
             state = proj_meas(self.meas_func, measurement_cavity, self.meas)
             validate_covariance(state)
 
@@ -96,17 +96,16 @@ class Node:
             return
 
     def back_update(self, proj_back):
-
-        back_cavity = self.marginal / self.back_factor
-
         try:
-            next_node = self.next_node.copy()
-            next_fwd_cavity = next_node.marginal / (next_node.forward_factor ** (1 / self.power))
-        except AttributeError:
-            return
-        # forward_cavity = next_node.marginal / next_node.forward_factor
+            back_cavity = self.marginal / self.back_factor
+
+            try:
+                next_node = self.next_node.copy()
+                next_fwd_cavity = next_node.marginal / (next_node.forward_factor ** (1 / self.power))
+            except AttributeError:
+                return
+            # forward_cavity = next_node.marginal / next_node.forward_factor
 
-        try:
             state = proj_back(next_node.trans_func,
                               back_cavity,
                               next_fwd_cavity,
-- 
2.43.0


From 5d90890c62da85a1719e5cb703c8876d0f124745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:30 +0000
Subject: [PATCH 06/23] fix: start every IEKS call from the nonlinear model

The second call on one object started from the linearised models the first
call had left in self.transition and self.measurement.
---
 Filters/KalmanFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index bbee379..29793e1 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -233,6 +233,9 @@ class IEKS(KalmanFilterSmoother):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
+        # A previous call leaves its linearised models behind
+        self.transition, self.measurement = self.f, self.h
+
         # First iteration
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
-- 
2.43.0


From 11c97713442cc2b4ed36326afbe94096a385bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 07/23] fix: add simulation noise out of place

The in-place addition modified the caller's initial state, or the state along
with the observation, when a model function returns its argument.
---
 Systems/DynamicSystem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 32abf1d..b4821cf 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -51,9 +51,9 @@ class DynamicSystem(metaclass=ABCMeta):
             # y_true = self.measure(x=x_noisy)
             # y_noisy = y_true + self.measurement_noise.sample()
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measure(x=x)
-            y += self.measurement_noise.sample()
+            y = y + self.measurement_noise.sample()
             yield x, y # x_true, x_noisy, y_true, y_noisy
             #x = x_noisy
             t = t + self.dt
@@ -110,9 +110,9 @@ class DynamicSystemModel(DynamicSystem):
 
         for _ in range(N):
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measurement(x=x)
-            y += self._measurement_noise.sample()
+            y = y + self._measurement_noise.sample()
             yield x, y
             t = t + self.dt
 
-- 
2.43.0


From dd4988f49833a1ecc40a6828fdf3a1ab6b3022f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 08/23] fix: build a graph of a single node

---
 ExpectationPropagation/Nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 1e86df6..4e13711 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -230,7 +230,7 @@ def build_nodes(
     for i, node in enumerate(nodes):
         if i == 0:
             node.prev_node = None
-            node.next_node = nodes[i + 1]
+            node.next_node = nodes[i + 1] if N > 1 else None
             continue
         if i == (N - 1):
             node.prev_node = nodes[i - 1]
-- 
2.43.0


From f869d5de002fb9028844fc7aee390c1912dd33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 09/23] fix: relinearise the IEKF measurement with the right
 sign

The model linearised at the iterate is h_i + H_i (x - x_i); with the minus sign
every iteration after the first was wrong, even for a linear measurement.
---
 Filters/KalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 29793e1..a835c33 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -136,7 +136,7 @@ class IEKF(KalmanFilterSmoother):
         for i in range(self.num_iter):
             h_i = self.measurement(state.mean, t, u)[0]
             H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
-            z_mean = h_i - H_i @ (x - state.mean)
+            z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
 
-- 
2.43.0


From 52aeb2f5d019fbb2301b395cf73c86eb12125676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:31 +0000
Subject: [PATCH 10/23] fix: use every measurement component in IEKF

Indexing with [0] assumes a batch of one; for a measurement function that
returns a plain vector it kept the first component only.
---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index a835c33..9f48276 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -134,8 +134,8 @@ class IEKF(KalmanFilterSmoother):
         x = state.mean
         P = state.cov
         for i in range(self.num_iter):
-            h_i = self.measurement(state.mean, t, u)[0]
-            H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
+            h_i = np.reshape(self.measurement(state.mean, t, u), -1)
+            H_i = np.reshape(jacobian(self.measurement, argnum=0)(state.mean, t, u), (-1, state.dim))
             z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
-- 
2.43.0


From 1506dcb3518755dd2d6fdb8f1ca998e911db7652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:12 +0000
Subject: [PATCH 11/23] fix: linearise each IEKS transition at the state it
 moves

Step i used the transition linearised at the smoothed state i instead of i-1,
so the iteration did not converge to the Gauss-Newton (MAP) solution.
---
 Filters/KalmanFilter.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 9f48276..8c50210 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -229,6 +229,11 @@ class IEKS(KalmanFilterSmoother):
 
         return list(reversed(result))
 
+    def _transition_points(self, smoother_results):
+        # Step i moves the state at i-1 (the initial state for i = 0) to the state at i
+        initial_state = self.smooth(self.init_state, smoother_results[0], t=0.0)
+        return [initial_state.mean] + [state.mean for state in smoother_results[:-1]]
+
     def __call__(self, measurements, num_iter=5):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
@@ -240,7 +245,7 @@ class IEKS(KalmanFilterSmoother):
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
 
-        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+        self.f_list = [self._linearise(self.f, self.Df, x0) for x0 in self._transition_points(smoother_results)]
         self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
 
         for k in range(num_iter-1):
@@ -250,7 +255,8 @@ class IEKS(KalmanFilterSmoother):
             smoother_results = self._kalman_smoother(filter_results)
 
             # Update linearisation points
-            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+            self.transition = self.f_list[0]
+            self.f_list = [self._linearise(self.f, self.Df, x0) for x0 in self._transition_points(smoother_results)]
             self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
         
         return smoother_results
\ No newline at end of file
-- 
2.43.0


From 0f3826b3ae3d9c062201ef85387b2db682cb5b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 12/23] fix: skip a sweep configuration by the number of
 iterations asked for

The skip query looked for iteration 50 whatever num_iter was, so an interrupted
100-iteration run was taken for complete and shorter runs were never skipped.
---
 Experiments/EP_FullSweep.py          | 4 ++--
 Experiments/EP_Sweep_BearingsOnly.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 827a050..15848e4 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -88,7 +88,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -103,7 +103,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         x, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index b52dea0..808d735 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -154,7 +154,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -169,7 +169,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         X, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
-- 
2.43.0


From 0c6e7f885ca4a2e5b5524994b9c7c512a3eda19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:04 +0000
Subject: [PATCH 13/23] fix: commit a simulated trajectory as soon as it is
 inserted

It was committed with the first recorded iteration, so it was lost when no
configuration recorded one, and the database stayed locked meanwhile.
---
 Experiments/EP_FullSweep.py          | 1 +
 Experiments/EP_Sweep_BearingsOnly.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 15848e4..64ff6bc 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -100,6 +100,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         np.random.seed(seed=SEED)
         data = system.simulate(timesteps)
         insert_dynamics_data(db, config.dyn_table_name, data, int(SEED))
+        con.commit()
         x, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 808d735..c9d7fa1 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -166,6 +166,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         np.random.seed(seed=SEED)
         data = system.simulate(timesteps)
         insert_dynamics_data(db, config.dyn_table_name, data, int(SEED))
+        con.commit()
         X, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-- 
2.43.0


From 0b8eb73a378472818bd23505676be6437ecf9fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 14/23] fix: start every sweep configuration from the same
 random state

Monte Carlo results depended on how many configurations ran before in the same
process, so a resumed sweep differed from an uninterrupted one.
---
 Experiments/EP_FullSweep.py          | 2 ++
 Experiments/EP_Sweep_BearingsOnly.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 64ff6bc..1d9e02d 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -99,6 +99,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
     for SEED in seed_range:
         np.random.seed(seed=SEED)
         data = system.simulate(timesteps)
+        rng_state = np.random.get_state()
         insert_dynamics_data(db, config.dyn_table_name, data, int(SEED))
         con.commit()
         x, y = zip(*data)
@@ -107,6 +108,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
             query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
+            np.random.set_state(rng_state)  # results must not depend on which configurations were skipped
             try:
                 if override:
                     power_sweep(config, x, y, trans_id=trans_id, SEED=int(SEED), power=power, damping=damping)
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index c9d7fa1..95b2e70 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -165,6 +165,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
     for SEED in seed_range:
         np.random.seed(seed=SEED)
         data = system.simulate(timesteps)
+        rng_state = np.random.get_state()
         insert_dynamics_data(db, config.dyn_table_name, data, int(SEED))
         con.commit()
         X, y = zip(*data)
@@ -173,6 +174,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
             query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
+            np.random.set_state(rng_state)  # results must not depend on which configurations were skipped
             try:
                 if override:
                     power_sweep(config, X, y, trans_id=trans_id, SEED=int(SEED), power=power, damping=damping)
-- 
2.43.0


From 61cf3a2dcce44589ce9699286f1ae0ad5bae8e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:09 +0000
Subject: [PATCH 15/23] fix: replace the recorded results on override

The rows of the old run were kept by INSERT OR IGNORE; they are now deleted in
the transaction that records the first new iteration.
---
 Experiments/EP_FullSweep.py          | 5 +++++
 Experiments/EP_Sweep_BearingsOnly.py | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 1d9e02d..e3a1e44 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -90,6 +90,9 @@ query_str= "SELECT RMSE" \
            " from {}" \
            " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = {}"
 
+delete_str = "DELETE from {}" \
+             " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {}"
+
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
     con, system, timesteps, table = config.con, config.system, config.timesteps, config.exp_table_name
@@ -111,11 +114,13 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
             np.random.set_state(rng_state)  # results must not depend on which configurations were skipped
             try:
                 if override:
+                    db.execute(delete_str.format(table, trans_id, SEED, power, damping))
                     power_sweep(config, x, y, trans_id=trans_id, SEED=int(SEED), power=power, damping=damping)
                 else:
                     if len(exits) == 0: # Skips sweep if result is already computed for the given settings
                         power_sweep(config, x, y, trans_id=trans_id, SEED=int(SEED), power=power, damping=damping)
             except LinAlgError:
+                con.rollback()
                 print('failed for seed={}, power={},'
                     ' damping={}, transform={:s}'.format(SEED, power, damping, trans_id))
                 continue
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index 95b2e70..c5220d6 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -156,6 +156,9 @@ query_str= "SELECT RMSE" \
            " from {}" \
            " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = {}"
 
+delete_str = "DELETE from {}" \
+             " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {}"
+
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
     con, system, timesteps, table = config.con, config.system, config.timesteps, config.exp_table_name
@@ -177,11 +180,13 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
             np.random.set_state(rng_state)  # results must not depend on which configurations were skipped
             try:
                 if override:
+                    db.execute(delete_str.format(table, trans_id, SEED, power, damping))
                     power_sweep(config, X, y, trans_id=trans_id, SEED=int(SEED), power=power, damping=damping)
                 else:
                     if len(exits) == 0: # Skips sweep if result is already computed for the given settings
                         power_sweep(config, X, y, trans_id=trans_id, SEED=int(SEED), power=power, damping=damping)
             except LinAlgError:
+                con.rollback()
                 print('failed for seed={}, power={},'
                     ' damping={}, transform={:s}'.format(SEED, power, damping, trans_id))
                 continue
-- 
2.43.0


From f09f074ac69d730ea0f57f2d5c1892b8f9db2701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 16/23] fix: import the bearings-only sweep's helpers from
 EP_FullSweep

---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index c5220d6..b344a29 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -26,7 +26,7 @@ import sqlite3
 import itertools
 import click
 from collections import namedtuple
-from Experiments.FullSweep import Config, select_transform
+from Experiments.EP_FullSweep import Config, select_transform
 
 
 def create_experiment_table(db, table_name='BOTT_EXP'):
-- 
2.43.0


From 356764fee40a45cf03fb6632e0dad78f181113b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 17/23] fix: generate the L96 initial condition as a vector,
 with its own forcing

The batch of one returned by f made the list ragged and the result (1, dim),
which failed the constructor's assertion and was cached; f also ran with the
default forcing whatever F was.
---
 Systems/L96.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index d074088..59749e8 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -32,12 +32,11 @@ def generate_L96_initial_condition(dim=40, F=8):
     x0 = F * np.ones(dim)  # Initial state (equilibrium)
     x0[0] += 0.01  # Add small perturbation to the first variable
 
-    x = [x0]
+    x = x0
     for n in range(999):
-        x.append(f(x[-1]))
-    x = np.array(x)
+        x = f(x, F=F)
 
-    return x[-1]
+    return x.ravel()  # f returns a batch of one
 
 
 class L96(DynamicSystemModel):
-- 
2.43.0


From bc2bb59ac882488bc9354dfd24a2edbe6ca01691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:59 +0000
Subject: [PATCH 18/23] fix: write the L96 initial condition cache atomically

A crash, short write or full disk while saving left a torn file which made
every later construction from the cache fail.
---
 Systems/L96.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index 59749e8..d85c681 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -3,6 +3,7 @@ from Systems import DynamicSystemModel, GaussianNoise
 from StateModel import Gaussian
 from functools import partial
 import autograd.numpy as np
+import os
 
 
 def model(X, F):
@@ -39,17 +40,32 @@ def generate_L96_initial_condition(dim=40, F=8):
     return x.ravel()  # f returns a batch of one
 
 
+def save_initial_condition(x0, path):
+    # Replace the file in one step: a crash or a full disk must not leave a torn file that later runs load
+    tmp_path = f'{path}.{os.getpid()}.tmp'
+    try:
+        with open(tmp_path, 'wb') as file:
+            np.save(file, x0)
+            file.flush()
+            os.fsync(file.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        if os.path.exists(tmp_path):
+            os.remove(tmp_path)
+        raise
+
+
 class L96(DynamicSystemModel):
     def __init__(self, Q_sigma=0.1, R_sigma=1, delta_t=0.05, dim=40, F=8, init_cond_path=None):
         if init_cond_path is None:
             x0 = generate_L96_initial_condition(dim, F)
-            np.save(f'../log/L96_initial_condition_F_{F}_dim_{dim}.npy', x0)
+            save_initial_condition(x0, f'../log/L96_initial_condition_F_{F}_dim_{dim}.npy')
         else:
             try:
                 x0 = np.load(init_cond_path)
             except FileNotFoundError:
                 x0 = generate_L96_initial_condition(dim, F)
-                np.save(f'../log/L96_initial_condition_F_{F}_dim_{dim}.npy', x0)
+                save_initial_condition(x0, f'../log/L96_initial_condition_F_{F}_dim_{dim}.npy')
         
         assert x0.shape[0] == dim, f'Dimension of initial condition does not match the specified dimension dim={dim}'
         init_dist = Gaussian(mean_vec=x0,
-- 
2.43.0


From ed1daf6abf5de237217ca86f538560e454f4372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 19/23] fix: smooth a segment at the times it was filtered

kalman_smoother swallowed t_zero and always counted from zero, so smoothing a
segment filtered from another start time used the wrong transition times.
---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 8c50210..4426189 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -103,10 +103,10 @@ class KalmanFilterSmoother:
 
         return result_filter
 
-    def kalman_smoother(self, filtered_list, u=None, *args, **kwargs):
+    def kalman_smoother(self, filtered_list, u=None, t_zero=0.0, *args, **kwargs):
         reversed_filtered = reversed(filtered_list)
         N = len(filtered_list)
-        t = (N-1) * self.dt
+        t = t_zero + (N-1) * self.dt
 
         result = []
 
-- 
2.43.0


From 54c9778cee93d37e15eb4bee6744fc0f63958828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 20/23] fix: keep the mean given to GaussianNoise

---
 Systems/DynamicSystem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index b4821cf..4313518 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -17,8 +17,7 @@ class GaussianNoise(NoiseModel):
         params = Gaussian(Q=cov)
         self.dimension = dimension
         self.cov = cov
-        if mean is None:
-            self.mean = np.zeros((dimension,), dtype=float)
+        self.mean = np.zeros((dimension,), dtype=float) if mean is None else mean
 
         super().__init__(dimension=dimension,
                          params=params)
-- 
2.43.0


From b3b5a4d850ca16834439adf82518d1d0cbdaae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 21/23] fix: skip updates whose moments contain infs or NaNs

---
 Utils/linalg.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/Utils/linalg.py b/Utils/linalg.py
index 97556ff..29468cf 100644
--- a/Utils/linalg.py
+++ b/Utils/linalg.py
@@ -18,12 +18,20 @@ import numpy as np
 JIT = 1e-10
 
 
+def require_finite(*arrays):
+    """ Raises LinAlgError for infs or NaNs, which cholesky lets through and solve reports as ValueError """
+    for a in arrays:
+        if not np.all(np.isfinite(a)):
+            raise LinAlgError('array contains infs or NaNs')
+
+
 def jittered_chol(a, jitter=None, lower=True, overwrite_a=False, check_finite=True):
     if jitter is None:
         jitter = JIT
 
     a = (a + a.T)/2
     a = a + jitter * np.eye(a.shape[-1])
+    require_finite(a)
     chol_a = cholesky(a, lower=lower,
                       overwrite_a=overwrite_a,
                       check_finite=check_finite)
@@ -36,6 +44,7 @@ def jittered_solve(a, b, jitter=None, overwrite_a=False, overwrite_b=False, assu
         jitter = JIT
     a = (a + a.T) / 2
     a = a + jitter * np.eye(a.shape[-1])
+    require_finite(a, b)
     try:
         x = solve(a, b, overwrite_a=overwrite_a, overwrite_b=overwrite_b, assume_a=assume_a, transposed=transposed)
     except:
@@ -50,6 +59,7 @@ def symmetrize(cov):
 
 def validate_covariance(state):
 
+    require_finite(state.cov)
     np.linalg.cholesky(state.cov)
 
 
@@ -61,8 +71,7 @@ def validate_marginal(state):
     """
     validate_covariance(state)
     np.linalg.cholesky(state.precision)
-    if not np.all(np.isfinite(state.mean)):
-        raise LinAlgError('mean is not finite')
+    require_finite(state.mean)
 
 
 if __name__=="__main__":
-- 
2.43.0


From 6b87a18129feaa573e087521a7fc51bfbefaa73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:38 +0000
Subject: [PATCH 22/23] fix: base the backward message at power one on the
 current forward cavity

---
 ExpectationPropagation/Nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 4e13711..91fc3ae 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -106,10 +106,11 @@ class Node:
                 return
             # forward_cavity = next_node.marginal / next_node.forward_factor
 
+            # The marginal of the next node may not be passed on as next_state here: it contains the
+            # forward message from before damping or from an earlier state of this node.
             state = proj_back(next_node.trans_func,
                               back_cavity,
-                              next_fwd_cavity,
-                              next_state=next_node.marginal)
+                              next_fwd_cavity)
             validate_covariance(state)
 
             self.back_factor, self.marginal = \
-- 
2.43.0


From 9cd9f7c85ada323feff0cd5fa6b46abc2e146c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:28 +0000
Subject: [PATCH 23/23] fix: put the nonlinear model back when an IEKS call
 ends

---
 Filters/KalmanFilter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 4426189..1c8ce7f 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -238,9 +238,13 @@ class IEKS(KalmanFilterSmoother):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
-        # A previous call leaves its linearised models behind
-        self.transition, self.measurement = self.f, self.h
+        try:
+            return self._iterate(measurements, num_iter)
+        finally:
+            # kalman_filter and kalman_smoother of this object use the nonlinear model
+            self.transition, self.measurement = self.f, self.h
 
+    def _iterate(self, measurements, num_iter):
         # First iteration
         filter_results = self.kalman_filter(measurements)
         smoother_results = self.kalman_smoother(filter_results)
-- 
2.43.0

