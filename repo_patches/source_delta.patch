From 6b24e4481e7799b6401745bd34a362f72bb82137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 01/20] fix: measurement projection returned a (d, d) mean for
 states of dimension above one

The innovation was reshaped to a column and added to a flat mean, so EP
failed for every multi-dimensional system.
---
 MomentMatching/Estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/Estimator.py b/MomentMatching/Estimator.py
index 00fdb99..2d5d18c 100644
--- a/MomentMatching/Estimator.py
+++ b/MomentMatching/Estimator.py
@@ -74,7 +74,7 @@ class Estimator:
         z_cov = symmetrize(z_cov)
         np.linalg.cholesky(z_cov)
         kalman_gain = np.linalg.solve(z_cov, xz_cross_cov.T).T
-        mean = state.mean + kalman_gain @ (meas - z_mean).reshape(-1,1)  # equation 15  in Marc's ACC paper
+        mean = state.mean + np.dot(kalman_gain, (meas - z_mean))  # equation 15  in Marc's ACC paper
         cov = state.cov - kalman_gain @ xz_cross_cov.T
         cov = symmetrize(cov)
         corrected_state = Gaussian(mean, cov)
-- 
2.43.0


From 9a5a629c913a0c8059c5d36e5c5077c837eaedf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 02/20] fix: node updates let ill-conditioning warnings raised
 as errors escape

StateModel.Gaussian turns LinAlgWarning into an error, so an ill-conditioned
cavity aborted the whole sweep instead of skipping the update.
---
 ExpectationPropagation/Nodes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index 7b7e3f9..c091a07 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -16,6 +16,7 @@
 import numpy as np
 from StateModel import Gaussian
 from numpy.linalg import LinAlgError
+from scipy.linalg import LinAlgWarning
 from Utils import validate_covariance
 from functools import partial
 from MomentMatching import Estimator
@@ -75,7 +76,7 @@ class Node:
             fwd_factor = (self.forward_factor ** (1 - self.damping)) * (state ** self.damping)
             marginal = self.marginal * (fwd_factor / old_forward_factor) ** (1 / self.power)
             validate_covariance(marginal)
-        except LinAlgError:
+        except (LinAlgError, LinAlgWarning):
             return
 
         self.forward_factor, self.marginal = fwd_factor, marginal
@@ -92,7 +93,7 @@ class Node:
                                   factor=self.measurement_factor,
                                   marginal=self.marginal,
                                   cavity=measurement_cavity)
-        except LinAlgError:
+        except (LinAlgError, LinAlgWarning):
             return
 
     def back_update(self, proj_back):
@@ -118,7 +119,7 @@ class Node:
                                   factor=self.back_factor,
                                   marginal=self.marginal,
                                   cavity=back_cavity)
-        except LinAlgError:
+        except (LinAlgError, LinAlgWarning):
             return
 
     def power_update(self, projected_marginal, factor, marginal, cavity):
-- 
2.43.0


From a4dae5d88598ee646a461bb74d22988151677ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 03/20] fix: build_nodes raised IndexError for a chain of a
 single node

---
 ExpectationPropagation/Nodes.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index c091a07..b0ddb9d 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -230,17 +230,8 @@ def build_nodes(
     nodes = [Node(dim, index=i) for i in range(N)]
 
     for i, node in enumerate(nodes):
-        if i == 0:
-            node.prev_node = None
-            node.next_node = nodes[i + 1]
-            continue
-        if i == (N - 1):
-            node.prev_node = nodes[i - 1]
-            node.next_node = None
-            continue
-
-        node.next_node = nodes[i + 1]
-        node.prev_node = nodes[i - 1]
+        node.prev_node = nodes[i - 1] if i > 0 else None
+        node.next_node = nodes[i + 1] if i < (N - 1) else None
 
     if estimator is not None:
         nodes = node_estimator(nodes=nodes, estimator=estimator)
-- 
2.43.0


From 8ce2510ca05c95c3381894d6472edd15c03e1e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 04/20] fix: build_nodes could not be given a system, the
 measurements were never passed on

---
 ExpectationPropagation/Nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ExpectationPropagation/Nodes.py b/ExpectationPropagation/Nodes.py
index b0ddb9d..32bb1d1 100644
--- a/ExpectationPropagation/Nodes.py
+++ b/ExpectationPropagation/Nodes.py
@@ -217,7 +217,8 @@ def build_nodes(
     N: int,
     dim: int,
     estimator: Estimator = None,
-    system: DynamicSystemModel = None
+    system: DynamicSystemModel = None,
+    measurements: Union[np.ndarray, list] = None
     ) -> List[Node]:
     """
     This function builds the factor graph representation of a dynamical system (Figure 2).
@@ -225,6 +226,7 @@ def build_nodes(
     :dim: State dimension
     :estimator: Method of moment matching (e.g. Taylor transformation)
     :system: Dynamical system
+    :measurements: Observations y (required when a system is given)
     :return: Factor graph representation of a dynamical system
     """
     nodes = [Node(dim, index=i) for i in range(N)]
@@ -237,6 +239,6 @@ def build_nodes(
         nodes = node_estimator(nodes=nodes, estimator=estimator)
 
     if system is not None:
-        nodes = node_system(nodes=nodes, system_model=system)
+        nodes = node_system(nodes=nodes, system_model=system, measurements=measurements)
 
     return nodes
-- 
2.43.0


From 010a0b0ba205a73e347a182f83c4820f30ca3dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 05/20] fix: GaussianNoise dropped a given mean and its default
 covariance was 1x1 for every dimension

---
 Systems/DynamicSystem.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index 32abf1d..d14f57c 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -12,13 +12,16 @@ class NoiseModel:
 
 
 class GaussianNoise(NoiseModel):
-    def __init__(self, dimension=1, cov=np.eye(1), mean=None):
+    def __init__(self, dimension=1, cov=None, mean=None):
         Gaussian = namedtuple('Gaussian', ['Q'])
+        if cov is None:
+            cov = np.eye(dimension)
         params = Gaussian(Q=cov)
         self.dimension = dimension
         self.cov = cov
         if mean is None:
-            self.mean = np.zeros((dimension,), dtype=float)
+            mean = np.zeros((dimension,), dtype=float)
+        self.mean = mean
 
         super().__init__(dimension=dimension,
                          params=params)
-- 
2.43.0


From e0f1c38c8fc0572cf46c0bc61024e362305b4bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 06/20] fix: simulation noise was added in place, corrupting
 states shared by an identity transition or measurement

---
 Systems/DynamicSystem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Systems/DynamicSystem.py b/Systems/DynamicSystem.py
index d14f57c..1380b39 100644
--- a/Systems/DynamicSystem.py
+++ b/Systems/DynamicSystem.py
@@ -54,9 +54,9 @@ class DynamicSystem(metaclass=ABCMeta):
             # y_true = self.measure(x=x_noisy)
             # y_noisy = y_true + self.measurement_noise.sample()
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measure(x=x)
-            y += self.measurement_noise.sample()
+            y = y + self.measurement_noise.sample()
             yield x, y # x_true, x_noisy, y_true, y_noisy
             #x = x_noisy
             t = t + self.dt
@@ -113,9 +113,9 @@ class DynamicSystemModel(DynamicSystem):
 
         for _ in range(N):
             x = self.transition(x=x, t=t)
-            x += self.system_noise.sample()
+            x = x + self.system_noise.sample()
             y = self.measurement(x=x)
-            y += self._measurement_noise.sample()
+            y = y + self._measurement_noise.sample()
             yield x, y
             t = t + self.dt
 
-- 
2.43.0


From 6e8fa0df38382f87ab56be3751ba28ee85cdba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 07/20] fix: sensor_list=None gave systems whose measurement
 function raised TypeError

---
 Systems/BearingOnlyTrackingTurn.py | 7 ++-----
 Systems/BearingsOnlyTracking.py    | 5 ++---
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index dce92ea..da40da1 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -73,11 +73,8 @@ class BearingsOnlyTrackingTurn(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([1000, 300, 1000, 0, -np.deg2rad(3.0)]),
                              cov_mat=np.eye(5) * [100, 10, 100, 10, 1e-4])
         if sensor_list is None:
-            meas_dim = len(Default_Sensor_List)
-            # meas_dim = 2*len(Default_Sensor_List)
-        else:
-            meas_dim = len(sensor_list)
-            # meas_dim = 2*len(sensor_list)
+            sensor_list = Default_Sensor_List
+        meas_dim = len(sensor_list)
 
         transition = partial(f, delta_t=delta_t)
         measurement = partial(h, sensor_list=sensor_list)
diff --git a/Systems/BearingsOnlyTracking.py b/Systems/BearingsOnlyTracking.py
index eaa72f7..90b4662 100644
--- a/Systems/BearingsOnlyTracking.py
+++ b/Systems/BearingsOnlyTracking.py
@@ -62,9 +62,8 @@ class BearingsOnlyTracking(DynamicSystemModel):
         init_dist = Gaussian(mean_vec=np.array([0.0, 0.0, 1.0, 0.0]),
                              cov_mat=np.eye(4) * [0.1, 0.1, 0.1, 0.1])
         if sensor_list is None:
-            meas_dim = len(Default_Sensor_List)
-        else:
-            meas_dim = len(sensor_list)
+            sensor_list = Default_Sensor_List
+        meas_dim = len(sensor_list)
 
         transition = partial(f, delta_t=delta_t)
         measurement = partial(h, sensor_list=sensor_list)
-- 
2.43.0


From ed05ab4a8a6b0a3d1a7c0e336385bf60fc0c454f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 08/20] fix: Taylor transform lost an axis of the Jacobian when
 state or output has dimension one

---
 MomentMatching/TaylorLinearisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MomentMatching/TaylorLinearisation.py b/MomentMatching/TaylorLinearisation.py
index cb16794..c4dbd76 100644
--- a/MomentMatching/TaylorLinearisation.py
+++ b/MomentMatching/TaylorLinearisation.py
@@ -51,7 +51,7 @@ class TaylorTransform(MappingTransform):
         # J_t = self.numerical_jacobian(func, state.mean)
         J_t = jacobian(func)(state.mean)
         if np.ndim(J_t) > 2:
-          J_t = np.squeeze(J_t)
+          J_t = np.squeeze(J_t, axis=0)
         mean = func(state.mean)
         mean = np.squeeze(mean)
         cov = J_t @ state.cov @ J_t.T
-- 
2.43.0


From 1753c91639556987ba2b76a19553bf38dd36c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 09/20] fix: iterated EKF linearised the measurement with the
 wrong sign

---
 Filters/KalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index bbee379..db38658 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -136,7 +136,7 @@ class IEKF(KalmanFilterSmoother):
         for i in range(self.num_iter):
             h_i = self.measurement(state.mean, t, u)[0]
             H_i = jacobian(self.measurement, argnum=0)(state.mean, t, u)[0]
-            z_mean = h_i - H_i @ (x - state.mean)
+            z_mean = h_i + H_i @ (x - state.mean)
             z_cov = H_i @ P @ H_i.T + self.measurement_noise
             xz_cross_cov = P @ H_i.T
 
-- 
2.43.0


From 52f08b959fda050f5a63024ee5271a34bcb88cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 10/20] fix: kalman_smoother ignored t_zero, so it could not
 follow a filter started at another time

---
 Filters/KalmanFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index db38658..c7b2177 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -103,10 +103,10 @@ class KalmanFilterSmoother:
 
         return result_filter
 
-    def kalman_smoother(self, filtered_list, u=None, *args, **kwargs):
+    def kalman_smoother(self, filtered_list, u=None, t_zero=0.0, *args, **kwargs):
         reversed_filtered = reversed(filtered_list)
         N = len(filtered_list)
-        t = (N-1) * self.dt
+        t = t_zero + (N-1) * self.dt
 
         result = []
 
-- 
2.43.0


From a3f9d75a0be3b85b6f47d0c24b31ac6d7ed55263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:22 +0000
Subject: [PATCH 11/20] fix: IEKS kept its last linearised models, so a second
 call gave different results

---
 Filters/KalmanFilter.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index c7b2177..52ad6ef 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -233,21 +233,25 @@ class IEKS(KalmanFilterSmoother):
     #     self.f_list = [self._linearise(self.f, self.Df, self.init_state.mean) for _ in measurements]
     #     self.h_list = [self._linearise(self.h, self.Dh, self.init_state.mean) for _ in measurements]
 
-        # First iteration
-        filter_results = self.kalman_filter(measurements)
-        smoother_results = self.kalman_smoother(filter_results)
+        try:
+            # First iteration
+            filter_results = self.kalman_filter(measurements)
+            smoother_results = self.kalman_smoother(filter_results)
 
-        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
-        self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+            self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
 
-        for k in range(num_iter-1):
+            for k in range(num_iter-1):
 
-            # print(f'iteration: {k+1}/{num_iter}')
-            filter_results = self._kalman_filter(measurements)
-            smoother_results = self._kalman_smoother(filter_results)
+                # print(f'iteration: {k+1}/{num_iter}')
+                filter_results = self._kalman_filter(measurements)
+                smoother_results = self._kalman_smoother(filter_results)
+
+                # Update linearisation points
+                self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
+                self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+        finally:
+            # The linearised models must not leak into later calls
+            self.transition, self.measurement = self.f, self.h
 
-            # Update linearisation points
-            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
-            self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
-        
         return smoother_results
\ No newline at end of file
-- 
2.43.0


From 237e8b5f500a6068c6fba380c56f3ebed37273af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 12/20] fix: IEKS linearised each transition at the state it
 produces, not the state it acts on

---
 Filters/KalmanFilter.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/Filters/KalmanFilter.py b/Filters/KalmanFilter.py
index 52ad6ef..80f2f21 100644
--- a/Filters/KalmanFilter.py
+++ b/Filters/KalmanFilter.py
@@ -187,6 +187,14 @@ class IEKS(KalmanFilterSmoother):
     def _linearise(func, Df, x0):
         return lambda x, t, u: func(x0, t=t, u=u) + Df(x0, t=t, u=u) @ (x - x0)
 
+    def _update_linearisation(self, smoother_results):
+        # The transition into step k acts on the state at step k-1 (the initial state for the
+        # first step), so that is where it is linearised
+        init_state = self.smooth(self.init_state, smoother_results[0], t=0.0)
+        prev_states = [init_state] + smoother_results[:-1]
+        self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in prev_states]
+        self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+
     def _kalman_filter(self, measurements, prior_state=None, t_zero=0.0, u=None, *args, **kwargs):
 
         if prior_state is None:
@@ -238,8 +246,7 @@ class IEKS(KalmanFilterSmoother):
             filter_results = self.kalman_filter(measurements)
             smoother_results = self.kalman_smoother(filter_results)
 
-            self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
-            self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+            self._update_linearisation(smoother_results)
 
             for k in range(num_iter-1):
 
@@ -248,8 +255,8 @@ class IEKS(KalmanFilterSmoother):
                 smoother_results = self._kalman_smoother(filter_results)
 
                 # Update linearisation points
-                self.f_list = [self._linearise(self.f, self.Df, state.mean) for state in smoother_results]
-                self.h_list = [self._linearise(self.h, self.Dh, state.mean) for state in smoother_results]
+                self.transition = self.f_list[0]
+                self._update_linearisation(smoother_results)
         finally:
             # The linearised models must not leak into later calls
             self.transition, self.measurement = self.f, self.h
-- 
2.43.0


From 72cf145e0aa22612e8d5c6247651232661ab13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 13/20] fix: L96 implemented the mirror image of the documented
 Lorenz 96 equations

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index d074088..ca54e1d 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -7,7 +7,7 @@ import autograd.numpy as np
 
 def model(X, F):
     X = np.atleast_2d(X)
-    dXdt = -np.roll(X, -1, 1) * (np.roll(X, -2, 1) - np.roll(X, 1, 1)) - X + F
+    dXdt = (np.roll(X, -1, 1) - np.roll(X, 2, 1)) * np.roll(X, 1, 1) - X + F
     return dXdt
 
 
-- 
2.43.0


From f02b47c8610e06ba1dac01ded33fe1ca7aa0a696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 14/20] fix: the generated L96 initial condition had shape (1,
 dim), which L96 rejects

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index ca54e1d..2a2fe4f 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -34,7 +34,7 @@ def generate_L96_initial_condition(dim=40, F=8):
 
     x = [x0]
     for n in range(999):
-        x.append(f(x[-1]))
+        x.append(np.ravel(f(x[-1])))
     x = np.array(x)
 
     return x[-1]
-- 
2.43.0


From c9fad145c7bb6445b079fd77f1e9f97281b8e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 15/20] fix: the generated L96 initial condition ignored the
 forcing F

---
 Systems/L96.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Systems/L96.py b/Systems/L96.py
index 2a2fe4f..229a72b 100644
--- a/Systems/L96.py
+++ b/Systems/L96.py
@@ -34,7 +34,7 @@ def generate_L96_initial_condition(dim=40, F=8):
 
     x = [x0]
     for n in range(999):
-        x.append(np.ravel(f(x[-1])))
+        x.append(np.ravel(f(x[-1], F=F)))
     x = np.array(x)
 
     return x[-1]
-- 
2.43.0


From 51df131cc3524d617df472cf4cdd389bbc14ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 16/20] fix: turning-target transition was NaN for a target
 that does not turn

---
 Systems/BearingOnlyTrackingTurn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Systems/BearingOnlyTrackingTurn.py b/Systems/BearingOnlyTrackingTurn.py
index da40da1..4dc936b 100644
--- a/Systems/BearingOnlyTrackingTurn.py
+++ b/Systems/BearingOnlyTrackingTurn.py
@@ -25,9 +25,14 @@ def f(x, t=None, u=None, delta_t=1):
     ones = np.ones(xs.shape[0])
     zros = np.zeros(xs.shape[0])
     w = xs[:,-1]
-    f_t = np.array([[ones,      sin(w*dt)/w,       zros,      -(1-cos(w*dt))/w,       zros],
+    # The two quotients tend to dt and w*dt**2/2 as the turn rate goes to zero
+    straight = (w == 0)
+    w_div = np.where(straight, 1.0, w)
+    sin_w = np.where(straight, dt, sin(w*dt)/w_div)
+    cos_w = np.where(straight, w*dt**2/2, (1-cos(w*dt))/w_div)
+    f_t = np.array([[ones,      sin_w,             zros,      -cos_w,                 zros],
                     [zros,      cos(w*dt),         zros,      -sin(w*dt),             zros],
-                    [zros,      (1-cos(w*dt))/w,   ones,       sin(w*dt)/w,           zros],
+                    [zros,      cos_w,             ones,       sin_w,                 zros],
                     [zros,      sin(w*dt),         zros,       cos(w*dt),             zros],
                     [zros,      zros,              zros,       zros,                  ones]
                     ])
-- 
2.43.0


From 426a623b6e56e9ba96a1dc3510168c181f0da00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 17/20] fix: --override recomputed results but never stored
 them

---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 Utils/Database.py                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index b52dea0..d57fa5e 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -51,7 +51,7 @@ def create_experiment_table(db, table_name='BOTT_EXP'):
     db.execute(schema)
 
 
-experiment_data_string = "INSERT OR IGNORE INTO {}" \
+experiment_data_string = "INSERT OR REPLACE INTO {}" \
                          " (Transform, Quantity, Seed, Iter, Power, Damping, RMSE, NLL)" \
                          "VALUES (?, ?, ?, ?, ?, ?, ?, ?)"
 
diff --git a/Utils/Database.py b/Utils/Database.py
index 560b517..1467fd2 100644
--- a/Utils/Database.py
+++ b/Utils/Database.py
@@ -104,7 +104,7 @@ def create_experiment_table(db, table_name='UNGM_EXP'):
     db.execute(schema)
 
 
-experiment_data_string = "INSERT OR IGNORE INTO {}" \
+experiment_data_string = "INSERT OR REPLACE INTO {}" \
                          " (Transform, Seed, Iter, Power, Damping, RMSE, NLL, Mean, Variance)" \
                          "VALUES (?, ?, ?, ?, ?, ?, ?, ?, ? )"
 
-- 
2.43.0


From 44f3991fa62324787ff884e167a38b4e29154108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 18/20] fix: EP_Sweep_BearingsOnly imported a module that does
 not exist

---
 Experiments/EP_Sweep_BearingsOnly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index d57fa5e..c3ab194 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -26,7 +26,7 @@ import sqlite3
 import itertools
 import click
 from collections import namedtuple
-from Experiments.FullSweep import Config, select_transform
+from Experiments.EP_FullSweep import Config, select_transform
 
 
 def create_experiment_table(db, table_name='BOTT_EXP'):
-- 
2.43.0


From 04731ec0f5958e0f5efde3620296c731a5009ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 19/20] fix: sweeps looked for iteration 50 whatever the number
 of iterations asked for

---
 Experiments/EP_FullSweep.py          | 4 ++--
 Experiments/EP_Sweep_BearingsOnly.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Experiments/EP_FullSweep.py b/Experiments/EP_FullSweep.py
index 827a050..15848e4 100644
--- a/Experiments/EP_FullSweep.py
+++ b/Experiments/EP_FullSweep.py
@@ -88,7 +88,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power ={} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -103,7 +103,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         x, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
diff --git a/Experiments/EP_Sweep_BearingsOnly.py b/Experiments/EP_Sweep_BearingsOnly.py
index c3ab194..ee188ad 100644
--- a/Experiments/EP_Sweep_BearingsOnly.py
+++ b/Experiments/EP_Sweep_BearingsOnly.py
@@ -154,7 +154,7 @@ def power_sweep(config, x_true, y_meas, trans_id='UT', SEED=0, power=1, damping=
 
 query_str= "SELECT RMSE" \
            " from {}" \
-           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = 50"
+           " WHERE Transform='{}' AND Seed = {} AND Power = {} AND Damping = {} AND Iter = {}"
 
 
 def full_sweep(config, seed_range, trans_types, power_range, damp_range, override=False):
@@ -169,7 +169,7 @@ def full_sweep(config, seed_range, trans_types, power_range, damp_range, overrid
         X, y = zip(*data)
         for trans_id, power, damping in itertools.product(trans_types, power_range, damp_range):
             print(f"running {i}/{total}, SEED = {SEED}, trans = {trans_id}, power = {power}, damping = {damping}")
-            query = query_str.format(table, trans_id, SEED, power, damping)
+            query = query_str.format(table, trans_id, SEED, power, damping, config.num_iter)
             db.execute(query)
             exits = db.fetchall()
             try:
-- 
2.43.0


From 99f704ddc45b99ece1265bd753a194b180e67605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 20/20] fix: negative precision was taken for flat, so updates
 to an improper marginal were accepted

---
 StateModel/Gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StateModel/Gaussian.py b/StateModel/Gaussian.py
index 1143041..cd48c0a 100644
--- a/StateModel/Gaussian.py
+++ b/StateModel/Gaussian.py
@@ -33,7 +33,7 @@ warnings.filterwarnings(action='error', category=LinAlgWarning)
 def natural_to_moment(precision, shift):
     dim = precision.shape[0]
     
-    if np.trace(precision) < 1e-10:
+    if np.abs(np.trace(precision)) < 1e-10:
         # almost zero precision
         dim = dim
         mean = np.zeros((dim,), dtype=float)
-- 
2.43.0

