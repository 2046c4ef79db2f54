From 2a2a9ba8e15d77794b3b7bcb3d64c99d98307c5c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:37 +0000
Subject: [PATCH 01/78] fix: KalmanFilter.update/update_correlated convert z to
 a vector also when H is given

---
 filterpy/kalman/kalman_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 994b596..dbb221d 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -527,6 +527,8 @@ class KalmanFilter(object):
         if H is None:
             z = reshape_z(z, self.dim_z, self.x.ndim)
             H = self.H
+        else:
+            z = reshape_z(z, shape(H)[0], self.x.ndim)
 
         # y = z - Hx
         # error (residual) between measurement and prediction
@@ -718,6 +720,8 @@ class KalmanFilter(object):
         if H is None:
             z = reshape_z(z, self.dim_z, self.x.ndim)
             H = self.H
+        else:
+            z = reshape_z(z, shape(H)[0], self.x.ndim)
 
         # handle special case: if z is in form [[z]] but x is not a column
         # vector dimensions will not match
-- 
2.43.0


From 6d3e19d86d84e68215ba58059678ec3004f6ca94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 02/78] fix: procedural update() reports the log-likelihood of
 the innovation

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index dbb221d..85ab554 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1507,7 +1507,7 @@ def update(x, P, z, R, H=None, return_all=False):
 
     if return_all:
         # compute log likelihood
-        log_likelihood = logpdf(z, dot(H, x), S)
+        log_likelihood = logpdf(y, None, S)
         return x, P, y, K, S, log_likelihood
     return x, P
 
-- 
2.43.0


From 50ff149d58a067753ebd1a91dd1f40a8d60ea5d9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 03/78] fix: procedural update()/update_steadystate() accept
 plain numbers as documented

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 85ab554..f834d06 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1475,7 +1475,7 @@ def update(x, P, z, R, H=None, return_all=False):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
@@ -1563,7 +1563,7 @@ def update_steadystate(x, z, K, H=None):
         H = np.array([H])
 
     Hx = np.atleast_1d(dot(H, x))
-    z = reshape_z(z, Hx.shape[0], x.ndim)
+    z = reshape_z(z, Hx.shape[0], np.ndim(x))
 
     # error (residual) between measurement and prediction
     y = z - Hx
-- 
2.43.0


From 11e060e646d0957c4ba41b2d67092bcbd99a4e48 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 04/78] fix: procedural rts_smoother uses the transition into
 step k+1, as batch_filter does

---
 filterpy/kalman/kalman_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index f834d06..f002898 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1852,11 +1852,11 @@ def rts_smoother(Xs, Ps, Fs, Qs):
     x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
 
     for k in range(n-2, -1, -1):
-        pP[k] = dot(dot(Fs[k], P[k]), Fs[k].T) + Qs[k]
+        pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
         #pylint: disable=bad-whitespace
-        K[k]  = dot(dot(P[k], Fs[k].T), linalg.inv(pP[k]))
-        x[k] += dot(K[k], x[k+1] - dot(Fs[k], x[k]))
+        K[k]  = dot(dot(P[k], Fs[k+1].T), linalg.inv(pP[k]))
+        x[k] += dot(K[k], x[k+1] - dot(Fs[k+1], x[k]))
         P[k] += dot(dot(K[k], P[k+1] - pP[k]), K[k].T)
 
     return (x, P, K, pP)
-- 
2.43.0


From 54646b151bfce9763f7e7281b4196dc091e35eca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 05/78] fix: KalmanFilter.batch_filter without us applies no
 control input when B is set

---
 filterpy/kalman/kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index f002898..ca6af29 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -953,7 +953,7 @@ class KalmanFilter(object):
         if Bs is None:
             Bs = [self.B] * n
         if us is None:
-            us = [0] * n
+            us = [None] * n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From 742c27336911ee7a98d18b5fa15f40cb387ad3d2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 06/78] fix: KalmanFilter.predict_steadystate without u applies
 no control input when B is set

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index ca6af29..448fac8 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -562,7 +562,7 @@ class KalmanFilter(object):
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-    def predict_steadystate(self, u=0, B=None):
+    def predict_steadystate(self, u=None, B=None):
         """
         Predict state (prior) using the Kalman filter state propagation
         equations. Only x is updated, P is left unchanged. See
@@ -585,7 +585,7 @@ class KalmanFilter(object):
             B = self.B
 
         # x = Fx + Bu
-        if B is not None:
+        if B is not None and u is not None:
             self.x = dot(self.F, self.x) + dot(B, u)
         else:
             self.x = dot(self.F, self.x)
-- 
2.43.0


From d9558dd142043d25dbe4625c6c8e7d814155d210 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 07/78] fix: batch filters accept missing (None) vector
 measurements

---
 filterpy/kalman/fading_memory.py | 2 +-
 filterpy/kalman/kalman_filter.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 36c9dcc..2bce646 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -314,7 +314,7 @@ class FadingKalmanFilter(object):
             In other words `covariance[k,:,:]` is the covariance at step `k`.
         """
 
-        n = np.size(zs, 0)
+        n = len(zs)
         if Rs is None:
             Rs = [None] * n
 
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 448fac8..f408881 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -941,7 +941,7 @@ class KalmanFilter(object):
         """
 
         #pylint: disable=too-many-statements
-        n = np.size(zs, 0)
+        n = len(zs)
         if Fs is None:
             Fs = [self.F] * n
         if Qs is None:
@@ -1745,7 +1745,7 @@ def batch_filter(x, P, zs, Fs, Qs, Hs, Rs, Bs=None, us=None,
 
     """
 
-    n = np.size(zs, 0)
+    n = len(zs)
     dim_x = x.shape[0]
 
     # mean estimates from Kalman Filter
-- 
2.43.0


From 03fe4496d84c54df53a20055526a16acc2a34e8e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 08/78] fix: KalmanFilter.batch_filter uses a single H matrix
 for all epochs as documented

---
 filterpy/kalman/kalman_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index f408881..688cb26 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -948,6 +948,8 @@ class KalmanFilter(object):
             Qs = [self.Q] * n
         if Hs is None:
             Hs = [self.H] * n
+        elif isinstance(Hs, np.ndarray) and Hs.ndim == 2:
+            Hs = [Hs] * n
         if Rs is None:
             Rs = [self.R] * n
         if Bs is None:
-- 
2.43.0


From c58dac73b70d1806097a0d97d3e78773e2d01a37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 09/78] fix: KalmanFilter.update_sequential supports a 1D state
 and does not modify x in place

---
 filterpy/kalman/kalman_filter.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 688cb26..980278f 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -783,7 +783,7 @@ class KalmanFilter(object):
             length = 1
         else:
             length = len(z_i)
-        z_i = np.reshape(z_i, [length, 1])
+        z_i = reshape_z(z_i, length, self.x.ndim)
         stop = start + length
 
         if R_i is None:
@@ -799,7 +799,7 @@ class KalmanFilter(object):
         # y_i = z_i - H_i @ x
         # error (residual) between measurement and prediction
         y_i = z_i - dot(H_i, self.x)
-        self.y[start:stop] = y_i
+        self.y[start:stop] = np.reshape(y_i, self.y[start:stop].shape)
 
         # common subexpression for speed
         PHT = dot(self.P, H_i.T)
@@ -817,13 +817,13 @@ class KalmanFilter(object):
 
         # x = x + K_i @ y_i
         # update state estimation with residual scaled by the kalman gain
-        self.x += dot(K_i, y_i)
+        self.x = self.x + dot(K_i, y_i)
 
         # compute the posterior covariance
         self.P = dot(dot(I_KH, self.P), I_KH.T) + dot(dot(K_i, R_i), K_i.T)
 
         # save measurement component #i and the posterior state
-        self.z[start:stop] = z_i
+        self.z[start:stop] = np.reshape(z_i, self.z[start:stop].shape)
         self.x_post = self.x.copy()
         self.P_post = self.P.copy()
 
-- 
2.43.0


From eae07db72b216e57e8d4650297d7c670790ae1bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 10/78] fix: EKF.predict_update linearizes at the predicted
 state, records the prior and accepts z=None

---
 filterpy/kalman/EKF.py | 51 ++----------------------------------------
 1 file changed, 2 insertions(+), 49 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 5e83aec..3ed5640 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -201,55 +201,8 @@ class ExtendedKalmanFilter(object):
         u : np.array or scalar
             optional control vector input to the filter.
         """
-        #pylint: disable=too-many-locals
-
-        if not isinstance(args, tuple):
-            args = (args,)
-
-        if not isinstance(hx_args, tuple):
-            hx_args = (hx_args,)
-
-        if np.isscalar(z) and self.dim_z == 1:
-            z = np.asarray([z], float)
-
-        F = self.F
-        B = self.B
-        P = self.P
-        Q = self.Q
-        R = self.R
-        x = self.x
-
-        H = HJacobian(x, *args)
-
-        # predict step
-        x = dot(F, x) + dot(B, u)
-        P = dot(F, P).dot(F.T) + Q
-
-        # save prior
-        self.x_prior = np.copy(self.x)
-        self.P_prior = np.copy(self.P)
-
-        # update step
-        PHT = dot(P, H.T)
-        self.S = dot(H, PHT) + R
-        self.SI = linalg.inv(self.S)
-        self.K = dot(PHT, self.SI)
-
-        self.y = z - Hx(x, *hx_args)
-        self.x = x + dot(self.K, self.y)
-
-        I_KH = self._I - dot(self.K, H)
-        self.P = dot(I_KH, P).dot(I_KH.T) + dot(self.K, R).dot(self.K.T)
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
-        # set to None to force recompute
-        self._log_likelihood = None
-        self._likelihood = None
-        self._mahalanobis = None
+        self.predict(u)
+        self.update(z, HJacobian, Hx, args=args, hx_args=hx_args)
 
     def update(self, z, HJacobian, Hx, R=None, args=(), hx_args=(),
                residual=np.subtract):
-- 
2.43.0


From d0b83452da11da8e8d917fddd507be5ed2b3a670 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 11/78] fix: SquareRootKalmanFilter.P_post returns the
 posterior covariance

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index d776182..f24833c 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -300,7 +300,7 @@ class SquareRootKalmanFilter(object):
     @property
     def P_post(self):
         """ covariance matrix of the posterior"""
-        return dot(self._P1_2_prior, self._P1_2_prior.T)
+        return dot(self._P1_2_post, self._P1_2_post.T)
 
     @property
     def P1_2(self):
-- 
2.43.0


From fb16e2a8250c98c106d2bc30fb28fff160f55d53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 12/78] fix: SquareRootKalmanFilter.update does not modify the
 state array in place

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index f24833c..e7aec86 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -216,7 +216,7 @@ class SquareRootKalmanFilter(object):
 
         # x = x + Ky
         # predict new x with residual scaled by the kalman gain
-        self.x += dot(self.K, self.y)
+        self.x = self.x + dot(self.K, self.y)
         self._P1_2 = r_decomp[dim_z:, dim_z:].T
 
         self.z = deepcopy(z)
-- 
2.43.0


From 48661e465bad15f4af096dd12de6a1b0eb704ca7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 13/78] fix: SquareRootKalmanFilter rejects dim_x < 1

---
 filterpy/kalman/square_root.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index e7aec86..5d882c2 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -125,7 +125,7 @@ class SquareRootKalmanFilter(object):
     """
 
     def __init__(self, dim_x, dim_z, dim_u=0):
-        if dim_z < 1:
+        if dim_x < 1:
             raise ValueError('dim_x must be 1 or greater')
         if dim_z < 1:
             raise ValueError('dim_x must be 1 or greater')
-- 
2.43.0


From f13215000a230bd8e2a3b84c51929e34ee602154 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 14/78] fix: CubatureKalmanFilter draws the measurement
 cubature points from the prior

---
 filterpy/kalman/CubatureKalmanFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index bae2a1a..9d20671 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -322,6 +322,9 @@ class CubatureKalmanFilter(object):
 
         self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
 
+        # the measurement update needs points distributed as the prior
+        self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
-- 
2.43.0


From df93833493aa5a9a2c5fa9a3a445abd7685333e3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 15/78] fix: CubatureKalmanFilter.update accepts z of shape
 (dim_z,)

---
 filterpy/kalman/CubatureKalmanFilter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 9d20671..a88d1bf 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -26,7 +26,7 @@ import numpy as np
 from numpy import eye, zeros, dot, isscalar
 from scipy.linalg import inv, cholesky
 from filterpy.stats import logpdf
-from filterpy.common import pretty_str, outer_product_sum
+from filterpy.common import pretty_str, outer_product_sum, reshape_z
 
 
 def spherical_radial_sigmas(x, P):
@@ -376,6 +376,7 @@ class CubatureKalmanFilter(object):
         Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
+        z = reshape_z(z, self.dim_z, zp.ndim)
         self.y = self.residual_z(z, zp)   # residual
 
         self.x = self.x + dot(self.K, self.y)
-- 
2.43.0


From ed9d3204e6a70e6e3932116d32c78d863e207c23 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 16/78] fix: UKF.rts_smoother honours Qs

---
 filterpy/kalman/UKF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index f8baf19..6386e8f 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -718,7 +718,7 @@ class UnscentedKalmanFilter(object):
                 sigmas_f[i] = self.fx(sigmas[i], dts[k])
 
             xb, Pb = UT(
-                sigmas_f, self.Wm, self.Wc, self.Q,
+                sigmas_f, self.Wm, self.Wc, Qs[k+1],
                 self.x_mean, self.residual_x)
 
             # compute cross variance
-- 
2.43.0


From 0e0679a4fbae06ec0bfed0c4d84d7ba526a43ac7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 17/78] fix: UKF.rts_smoother uses the time step into epoch
 k+1, as batch_filter does

---
 filterpy/kalman/UKF.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 6386e8f..38c7781 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -715,7 +715,7 @@ class UnscentedKalmanFilter(object):
             # create sigma points from state estimate, pass through state func
             sigmas = self.points_fn.sigma_points(xs[k], ps[k])
             for i in range(num_sigmas):
-                sigmas_f[i] = self.fx(sigmas[i], dts[k])
+                sigmas_f[i] = self.fx(sigmas[i], dts[k+1])
 
             xb, Pb = UT(
                 sigmas_f, self.Wm, self.Wc, Qs[k+1],
-- 
2.43.0


From 3ec2d2f188408c99b30ecfffdc8715bcbb907e6d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 18/78] fix: UKF.batch_filter accepts a missing first
 measurement

---
 filterpy/kalman/UKF.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 38c7781..c56efef 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -595,7 +595,9 @@ class UnscentedKalmanFilter(object):
         except TypeError:
             raise TypeError('zs must be list-like')
 
-        if self._dim_z == 1:
+        if z is None:
+            pass # missing measurement
+        elif self._dim_z == 1:
             if not(isscalar(z) or (z.ndim == 1 and len(z) == 1)):
                 raise TypeError('zs must be a list of scalars or 1D, 1 element arrays')
         else:
-- 
2.43.0


From 0af0e6ffc07024e62ed4ba02d951b0125424c8d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 19/78] fix: UKF.batch_filter accepts a scalar dts as
 documented

---
 filterpy/kalman/UKF.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index c56efef..8848500 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -612,6 +612,8 @@ class UnscentedKalmanFilter(object):
 
         if dts is None:
             dts = [self._dt] * z_n
+        elif isscalar(dts):
+            dts = [dts] * z_n
 
         # mean estimates from Kalman Filter
         if self.x.ndim == 1:
-- 
2.43.0


From 9661b3322e54a2589de9aa78f10e872631d12a7c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 20/78] fix: SimplexSigmaPoints accepts list-like x

---
 filterpy/kalman/sigma_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/sigma_points.py b/filterpy/kalman/sigma_points.py
index 37875ae..ac78032 100644
--- a/filterpy/kalman/sigma_points.py
+++ b/filterpy/kalman/sigma_points.py
@@ -489,7 +489,7 @@ class SimplexSigmaPoints(object):
 
         if np.isscalar(x):
             x = np.asarray([x])
-        x = x.reshape(-1, 1)
+        x = np.asarray(x).reshape(-1, 1)
 
         if np.isscalar(P):
             P = np.eye(n) * P
-- 
2.43.0


From b8bc2bad477e4d0c0d5cc7f87dd795012ac3df98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 21/78] fix: FadingMemoryFilter order 1 truncation error and
 velocity variance scale with dt

---
 filterpy/memory/fading_memory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 8b2f66e..2cdebc8 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -120,10 +120,10 @@ class FadingMemoryFilter(object):
 
         elif order == 1:
             p11 = (1-beta) * (1+4*beta+5*beta**2) / (1+beta)**3
-            p22 = 2*(1-beta)**3 / (1+beta)**3
+            p22 = 2*(1-beta)**3 / ((1+beta)**3 * dt**2)
             self.P = np.array([p11, p22], dtype=float)
 
-            e = 2*dt*2 * (beta / (1-beta))**2
+            e = 2*dt**2 * (beta / (1-beta))**2
             de = dt*((1+3*beta)/(1-beta))
             self.e = np.array([e, de], dtype=float)
 
-- 
2.43.0


From b1a79db9ca3aabb2618d8bdceeeedc43e1cc9689 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 22/78] fix: FadingMemoryFilter does not truncate updates when
 x0 holds integers

---
 filterpy/memory/fading_memory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 2cdebc8..72cc043 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -108,7 +108,7 @@ class FadingMemoryFilter(object):
             self.x = np.zeros(order+1)
             self.x[0] = x0
         else:
-            self.x = np.copy(x0)
+            self.x = np.array(x0, dtype=float)
 
         self.dt = dt
         self.order = order
-- 
2.43.0


From 31a471826ddb99b3ffb1bad1b2c8371cf0dbba53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 23/78] fix: HInfinityFilter.batch_filter works without a saver
 and with missing vector measurements

---
 filterpy/hinfinity/hinfinity_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 9ed320e..0e47395 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -157,7 +157,7 @@ class HInfinityFilter(object):
         self.x = dot(self.F, self.x) + dot(self.B, u)
 
 
-    def batch_filter(self, Zs,update_first=False, saver=False):
+    def batch_filter(self, Zs, update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
 
         Parameters
@@ -185,7 +185,7 @@ class HInfinityFilter(object):
             `covariance[k, :, :]` is the covariance at step `k`.
         """
 
-        n = np.size(Zs, 0)
+        n = len(Zs)
 
         # mean estimates from H-Infinity Filter
         means = zeros((n, self.dim_x, 1))
-- 
2.43.0


From e0cb65b89163671062fc98aa1520906d76266424 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 24/78] fix: residual_resample draws from the fractional parts
 of N*weights

---
 filterpy/monte_carlo/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index e657871..05f2817 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -67,7 +67,7 @@ def residual_resample(weights):
 
     # use multinormal resample on the residual to fill up the rest. This
     # maximizes the variance of the samples
-    residual = weights - num_copies     # get fractional part
+    residual = N*np.asarray(weights) - num_copies     # get fractional part
     residual /= sum(residual)           # normalize
     cumulative_sum = np.cumsum(residual)
     cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-- 
2.43.0


From 3531a4ba64e68f9a8739aacfc56adf7bb9feb5ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 25/78] fix: stratified/systematic resampling cannot run past
 the end through round-off

---
 filterpy/monte_carlo/resampling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index 05f2817..3d6f6f6 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -104,6 +104,7 @@ def stratified_resample(weights):
 
     indexes = np.zeros(N, 'i')
     cumulative_sum = np.cumsum(weights)
+    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
@@ -140,6 +141,7 @@ def systematic_resample(weights):
 
     indexes = np.zeros(N, 'i')
     cumulative_sum = np.cumsum(weights)
+    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
-- 
2.43.0


From 174e11809a58d68ccbd8d87b065c489e24894efd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 26/78] fix: compare_kf returns the names that differ and copes
 with non-numeric attributes

---
 filterpy/common/helpers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 108a3ae..0f7659e 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -457,7 +457,12 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
         if attr[0] == "_":
             continue
 
-        if not np.allclose(v1[attr], v2[attr], **kwargs):
+        try:
+            same = np.allclose(v1[attr], v2[attr], **kwargs)
+        except (TypeError, ValueError): # not numeric, or different shapes
+            same = np.array_equal(v1[attr], v2[attr])
+
+        if not same:
             if log:
                 print(attr, "is different")
                 print(pretty_str(attr, v1[attr]))
@@ -466,7 +471,7 @@ def compare_kf(kf1, kf2, log=True, **kwargs):
             different_keys.append(attr)
 
     if len(different_keys) > 0:
-        return different
+        return different_keys
     else:
         return None
 
-- 
2.43.0


From 511672beadafd0070cc8d6834a63df44a86b9204 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:54 +0000
Subject: [PATCH 27/78] fix: Saver stores copies of property values

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 0f7659e..34d6b6a 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -127,7 +127,7 @@ class Saver(object):
         # if the class uses properties that compute data only when
         # accessed
         for prop in self.properties:
-            self._DL[prop[0]].append(getattr(kf, prop[0]))
+            self._DL[prop[0]].append(copy.deepcopy(getattr(kf, prop[0])))
 
         v = copy.deepcopy(kf.__dict__)
 
-- 
2.43.0


From 4ee22e1ee5ece6fce7d3e9b0ee3d64c18056e693 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 28/78] fix: MMAEFilterBank copies the initial probabilities as
 floats

---
 filterpy/kalman/mmae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index f28d9de..16304b1 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -110,7 +110,7 @@ class MMAEFilterBank(object):
             raise ValueError('dim_x must be >= 1')
 
         self.filters = filters
-        self.p = np.asarray(p)
+        self.p = np.array(p, dtype=float)
         self.dim_x = dim_x
         if H is None:
             self.H = None
-- 
2.43.0


From 5d1df66e8d40da5fb95ba0792fa3b5a01ea440c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 29/78] fix: MMAEFilterBank computes the covariance of the
 mixture over all filters

---
 filterpy/kalman/mmae.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 16304b1..3adb352 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -201,8 +201,8 @@ class MMAEFilterBank(object):
             for f, p in zip(self.filters, self.p):
                 self.x += np.dot(f.x, p)
 
-        for x, f, p in zip(self.x, self.filters, self.p):
-            y = f.x - x
+        for f, p in zip(self.filters, self.p):
+            y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
 
-- 
2.43.0


From 0efe9905122aee9c7ab0fe9d888d21aa164c5d6a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 30/78] fix: MMAEFilterBank.predict computes the predicted
 state of the bank

---
 filterpy/kalman/mmae.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 3adb352..22b422f 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -153,6 +153,8 @@ class MMAEFilterBank(object):
         for f in self.filters:
             f.predict(u)
 
+        self._compute_state_estimate()
+
         # save prior
         self.x_prior = self.x.copy()
         self.P_prior = self.P.copy()
@@ -187,6 +189,14 @@ class MMAEFilterBank(object):
 
         self.p /= sum(self.p) # normalize
 
+        self._compute_state_estimate()
+
+        # save measurement and posterior state
+        self.z = deepcopy(z)
+        self.x_post = self.x.copy()
+        self.P_post = self.P.copy()
+
+    def _compute_state_estimate(self):
         # compute estimated state and covariance of the bank of filters.
         self.P = np.zeros(self.filters[0].P.shape)
 
@@ -205,12 +215,6 @@ class MMAEFilterBank(object):
             y = f.x - self.x
             self.P += p*(np.outer(y, y) + f.P)
 
-
-        # save measurement and posterior state
-        self.z = deepcopy(z)
-        self.x_post = self.x.copy()
-        self.P_post = self.P.copy()
-
     def __repr__(self):
         return '\n'.join([
             'MMAEFilterBank object',
-- 
2.43.0


From 1712c30f11c32584788e1103ad064680e5899f74 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 31/78] fix: MMAEFilterBank.update leaves the bank unchanged
 for a missing measurement

---
 filterpy/kalman/mmae.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 22b422f..446a3f6 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -179,6 +179,14 @@ class MMAEFilterBank(object):
             one call, otherwise  self.H will be used.
         """
 
+        if z is None:
+            for f in self.filters:
+                f.update(None)
+            self.z = None
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
+
         if H is None:
             H = self.H
 
-- 
2.43.0


From bea2795b44716f060313d4017a6f9bf0d03f35f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 32/78] fix: IMMEstimator.update leaves the estimate unchanged
 for a missing measurement

---
 filterpy/kalman/IMM.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 84808fa..20d860b 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -169,6 +169,13 @@ class IMMEstimator(object):
             measurement for this update.
         """
 
+        if z is None:
+            for f in self.filters:
+                f.update(None)
+            self.x_post = self.x.copy()
+            self.P_post = self.P.copy()
+            return
+
         # run update on each filter, and save the likelihood
         for i, f in enumerate(self.filters):
             f.update(z)
-- 
2.43.0


From 8e8da71558aad3a8b6901212b30f684330a48936 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 33/78] fix: IMMEstimator documents the orientation of M that
 it implements

---
 filterpy/kalman/IMM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 20d860b..eed000b 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -30,7 +30,7 @@ class IMMEstimator(object):
 
     M : (N, N) ndarray of float
         Markov chain transition matrix. M[i,j] is the probability of
-        switching from filter j to filter i.
+        switching from filter i to filter j.
 
 
     Attributes
@@ -66,7 +66,7 @@ class IMMEstimator(object):
 
     M : (N, N) ndarray of float
         Markov chain transition matrix. M[i,j] is the probability of
-        switching from filter j to filter i.
+        switching from filter i to filter j.
 
     cbar : (N,) ndarray of float
         Total probability, after interaction, that the target is in state j.
-- 
2.43.0


From af8759d3dbb2e75d99fc8f42093337905d64c513 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 34/78] fix: GHKFilter.batch_filter runs the g-h-k filter, not
 the g-h filter

---
 filterpy/gh/gh_filter.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 260109f..e88feea 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -716,6 +716,7 @@ class GHKFilter(object):
 
         x = self.x
         dx = self.dx
+        ddx = self.ddx
         n = len(data)
 
         results = np.zeros((n+1, 2))
@@ -725,16 +726,18 @@ class GHKFilter(object):
         if save_predictions:
             predictions = np.zeros(n)
 
-        # optimization to avoid n computations of h / dt
-        h_dt = self.h / self.dt
+        dt = self.dt
+        dt_sqr = dt**2
 
         for i, z in enumerate(data):
             #prediction step
-            x_est = x + (dx*self.dt)
+            dx_est = dx + ddx*dt
+            x_est = x + dx*dt + .5*ddx*dt_sqr
 
             # update step
             residual = z - x_est
-            dx = dx    + h_dt   * residual # i.e. dx = dx + h * residual / dt
+            ddx = ddx + 2*self.k * residual / dt_sqr
+            dx = dx_est + self.h * residual / dt
             x  = x_est + self.g * residual
 
             results[i+1, 0] = x
-- 
2.43.0


From e1034499e29a6fb9870c428a9f5d4d617251f51e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 35/78] fix: g-h filters record the measurement passed to
 update() in z

---
 filterpy/gh/gh_filter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index e88feea..d5ea3c8 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -158,8 +158,6 @@ class GHFilterOrder(object):
             self.x[0] = x + dxdt + g*self.y
             self.x[1] = dx       + h*self.y / self.dt
 
-            self.z = z
-
         else: # order == 2
             if g is None:
                 g = self.g
@@ -180,6 +178,8 @@ class GHFilterOrder(object):
             self.x[1] = dx + ddx*self.dt      + h*self.y / self.dt
             self.x[2] = ddx                 + 2*k*self.y / (self.dt**2)
 
+        self.z = z
+
     def __repr__(self):
         return '\n'.join([
             'GHFilterOrder object',
@@ -373,6 +373,7 @@ class GHFilter(object):
         self.y = z - self.x_prediction
         self.dx = self.dx_prediction + h * self.y / self.dt
         self.x  = self.x_prediction  + g * self.y
+        self.z = z
 
         return (self.x, self.dx)
 
@@ -676,6 +677,7 @@ class GHKFilter(object):
         self.ddx = self.ddx_prediction + 2*k*self.y / dt_sqr
         self.dx  = self.dx_prediction  + h * self.y / dt
         self.x   = self.x_prediction   + g * self.y
+        self.z = z
 
         return (self.x, self.dx)
 
-- 
2.43.0


From f5f5a8f1c38ca707ff3aff4ad6aeee68ea29dbda Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 36/78] fix: GHKFilter.VRF and VRF_prediction use the published
 denominators

---
 filterpy/gh/gh_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index d5ea3c8..2909fd7 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -776,7 +776,7 @@ class GHKFilter(object):
         k = self.k
         gh2 = 2*g + h
         return ((g*k*(gh2-4)+ h*(g*gh2+2*h)) /
-                (2*k - (g*(h+k)*(gh2-4))))
+                ((2*k - g*(h+k)) * (gh2-4)))
 
 
     def bias_error(self, dddx):
@@ -834,8 +834,8 @@ class GHKFilter(object):
         hg4 = 4- 2*g - h
         ghk = g*h + g*k - 2*k
 
-        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*k - g*(h+k) * hg4)
-        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / (2*hg4*ghk)
+        vx = (2*h*(2*(g**2) + 2*h - 3*g*h) - 2*g*k*hg4) / (2*hg4*ghk)
+        vdx = (2*(h**3) - 4*(h**2)*k + 4*(k**2)*(2-g)) / (self.dt**2*hg4*ghk)
         vddx = 8*h*(k**2) / ((self.dt**4)*hg4*ghk)
 
         return (vx, vdx, vddx)
-- 
2.43.0


From 7b7808ee1af6c9adcda2e78e1c085f418a5bc358 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:31 +0000
Subject: [PATCH 37/78] fix: InformationFilter computes S and the
 log-likelihood in measurement space

---
 filterpy/kalman/information_filter.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 46724d3..e2b4222 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -221,8 +221,14 @@ class InformationFilter(object):
 
             # S = HPH' + R
             # project system uncertainty into measurement space
-            self.S = P_inv + dot(H_T, R_inv).dot(H)
-            self.K = dot(self.inv(self.S), H_T).dot(R_inv)
+            try:
+                self.S = dot(H, self.inv(P_inv)).dot(H_T) + self.inv(R_inv)
+            except np.linalg.LinAlgError:
+                # no information, so nothing is known about the measurement
+                self.S = np.full((self.dim_z, self.dim_z), np.inf)
+
+            # map residual into state space
+            self.K = dot(self.inv(P_inv + dot(H_T, R_inv).dot(H)), H_T).dot(R_inv)
 
             # x = x + Ky
             # predict new x with residual scaled by the kalman gain
@@ -232,7 +238,10 @@ class InformationFilter(object):
             self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
 
             if self.compute_log_likelihood:
-                self.log_likelihood = logpdf(x=self.y, cov=self.S)
+                if np.all(np.isfinite(self.S)):
+                    self.log_likelihood = logpdf(x=self.y, cov=self.S)
+                else:
+                    self.log_likelihood = math.log(sys.float_info.min)
                 self.likelihood = math.exp(self.log_likelihood)
                 if self.likelihood == 0:
                     self.likelihood = sys.float_info.min
-- 
2.43.0


From 60192ab1ae6329ef262a0d174326d7c1de7ff495 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:50 +0000
Subject: [PATCH 38/78] fix: FixedLagSmoother computes the fixed-lag estimate
 it documents

---
 filterpy/kalman/fixed_lag_smoother.py | 51 ++++++++++++---------------
 1 file changed, 23 insertions(+), 28 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index d265fa1..20d377c 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -127,6 +127,9 @@ class FixedLagSmoother(object):
 
         self.count = 0
 
+        # cross covariances of the last N+1 states with the current state
+        self._cross = []
+
         if N is not None:
             self.xSmooth = []
 
@@ -187,6 +190,10 @@ class FixedLagSmoother(object):
 
         x = x_pre + dot(K, self.y)
 
+        # covariance of the states k-N..k with the prior of state k
+        cross = [dot(C, F.T) for C in self._cross] + [P]
+        cross = cross[-(N+1):]
+
         I_KH = self._I - dot(K, H)
         P = dot(I_KH, P).dot(I_KH.T) + dot(K, R).dot(K.T)
 
@@ -194,21 +201,12 @@ class FixedLagSmoother(object):
 
         #compute invariants
         HTSI = dot(H.T, SI)
-        F_LH = (F - dot(K, H)).T
 
-        if k >= N:
-            PS = P.copy() # smoothed P for step i
-            for i in range(N):
-                K = dot(PS, HTSI)  # smoothed gain
-                PS = dot(PS, F_LH) # smoothed covariance
+        for i, C in enumerate(reversed(cross)):
+            si = k-i
+            self.xSmooth[si] = self.xSmooth[si] + dot(C, HTSI).dot(self.y)
 
-                si = k-i
-                self.xSmooth[si] = self.xSmooth[si] + dot(K, self.y)
-        else:
-            # Some sources specify starting the fix lag smoother only
-            # after N steps have passed, some don't. I am getting far
-            # better results by starting only at step N.
-            self.xSmooth[k] = x.copy()
+        self._cross = [dot(C, I_KH.T) for C in cross]
 
         self.count += 1
         self.x = x
@@ -265,6 +263,8 @@ class FixedLagSmoother(object):
         else:
             xSmooth = zeros((len(zs), self.dim_x, 1))
             xhat = zeros((len(zs), self.dim_x, 1))
+
+        cross = []
         for k, z in enumerate(zs):
 
             # predict step of normal Kalman filter
@@ -284,6 +284,10 @@ class FixedLagSmoother(object):
 
             x = x_pre + dot(K, y)
 
+            # covariance of the states k-N..k with the prior of state k
+            cross = [dot(C, F.T) for C in cross] + [P]
+            cross = cross[-(N+1):]
+
             I_KH = self._I - dot(K, H)
             P = dot(I_KH, P).dot(I_KH.T) + dot(K, R).dot(K.T)
 
@@ -292,21 +296,12 @@ class FixedLagSmoother(object):
 
             #compute invariants
             HTSI = dot(H.T, SI)
-            F_LH = (F - dot(K, H)).T
-
-            if k >= N:
-                PS = P.copy() # smoothed P for step i
-                for i in range(N):
-                    K = dot(PS, HTSI)  # smoothed gain
-                    PS = dot(PS, F_LH) # smoothed covariance
-
-                    si = k-i
-                    xSmooth[si] = xSmooth[si] + dot(K, y)
-            else:
-                # Some sources specify starting the fix lag smoother only
-                # after N steps have passed, some don't. I am getting far
-                # better results by starting only at step N.
-                xSmooth[k] = xhat[k]
+
+            for i, C in enumerate(reversed(cross)):
+                si = k-i
+                xSmooth[si] = xSmooth[si] + dot(C, HTSI).dot(y)
+
+            cross = [dot(C, I_KH.T) for C in cross]
 
         return xSmooth, xhat
 
-- 
2.43.0


From 8b1a211302a7aa7c23974664e1e5f0f4f787662e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 39/78] fix: KalmanFilter.test_matrix_dimensions accepts a 1D
 state when z is not given

---
 filterpy/kalman/kalman_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 980278f..8ecf55a 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1378,6 +1378,8 @@ class KalmanFilter(object):
 
         if z is not None:
             z_shape = shape(z)
+        elif x.ndim == 1:
+            z_shape = (self.dim_z,)
         else:
             z_shape = (self.dim_z, 1)
 
-- 
2.43.0


From 2cc67bd50094739dbf6a727d7043b4800ccef8ae Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 40/78] fix: predict() without u applies no control input when
 B is set

---
 filterpy/hinfinity/hinfinity_filter.py | 9 +++++++--
 filterpy/kalman/EKF.py                 | 4 +++-
 filterpy/kalman/fading_memory.py       | 8 ++++++--
 filterpy/kalman/information_filter.py  | 4 +++-
 filterpy/kalman/square_root.py         | 4 +++-
 5 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 0e47395..de9263b 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -154,7 +154,9 @@ class HInfinityFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if u is not None and np.any(u):
+            self.x = self.x + dot(self.B, u)
 
 
     def batch_filter(self, Zs, update_first=False, saver=None):
@@ -230,7 +232,10 @@ class HInfinityFilter(object):
         x : ndarray
             State vector of the prediction.
         """
-        return dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if u is not None and np.any(u):
+            x = x + dot(self.B, u)
+        return x
 
 
     def residual_of(self, z):
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 3ed5640..0468c6f 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -301,7 +301,9 @@ class ExtendedKalmanFilter(object):
         need to do this, for example, if the usual Taylor expansion to
         generate F is not providing accurate results for you.
         """
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if u is not None and np.any(u):
+            self.x = self.x + dot(self.B, u)
 
     def predict(self, u=0):
         """
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 2bce646..45e86d8 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -264,7 +264,9 @@ class FadingKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if u is not None and np.any(u):
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         self.P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
@@ -367,7 +369,9 @@ class FadingKalmanFilter(object):
             State vector and covariance array of the prediction.
         """
 
-        x = dot(self.F, self.x) + dot(self.B, u)
+        x = dot(self.F, self.x)
+        if u is not None and np.any(u):
+            x = x + dot(self.B, u)
         P = self.alpha_sq * dot(self.F, self.P).dot(self.F.T) + self.Q
         return (x, P)
 
diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index e2b4222..6a132f8 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -280,7 +280,9 @@ class InformationFilter(object):
             self._no_information = True
 
         if invertable:
-            self.x = dot(self._F, self.x) + dot(self.B, u)
+            self.x = dot(self._F, self.x)
+            if u is not None and np.any(u):
+                self.x = self.x + dot(self.B, u)
             self.P_inv = self.inv(AI + self.Q)
 
             # save priors
diff --git a/filterpy/kalman/square_root.py b/filterpy/kalman/square_root.py
index 5d882c2..956d31f 100644
--- a/filterpy/kalman/square_root.py
+++ b/filterpy/kalman/square_root.py
@@ -237,7 +237,9 @@ class SquareRootKalmanFilter(object):
         """
 
         # x = Fx + Bu
-        self.x = dot(self.F, self.x) + dot(self.B, u)
+        self.x = dot(self.F, self.x)
+        if u is not None and np.any(u):
+            self.x = self.x + dot(self.B, u)
 
         # P = FPF' + Q
         _, P2 = qr(np.hstack([dot(self.F, self._P1_2), self._Q1_2]).T)
-- 
2.43.0


From c64d59332d9e5d64ec56a384163b3a61bf9abe12 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 41/78] fix: MMAEFilterBank.predict without u lets each filter
 use its own default

---
 filterpy/kalman/mmae.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 446a3f6..654782e 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -137,7 +137,7 @@ class MMAEFilterBank(object):
         self.P_post = self.P.copy()
 
 
-    def predict(self, u=0):
+    def predict(self, u=None):
         """
         Predict next position using the Kalman filter state propagation
         equations for each filter in the bank.
-- 
2.43.0


From f789ab43bc7e5989000956c1486d014dad0a8ad7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:24 +0000
Subject: [PATCH 42/78] fix: InformationFilter keeps all information when P_inv
 is singular

predict() did not propagate P_inv and garbled the information collected so far
while P_inv could not be inverted (no information about part of the state).
---
 filterpy/kalman/information_filter.py | 113 ++++++++++----------------
 1 file changed, 44 insertions(+), 69 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 6a132f8..9bbf2f5 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -160,7 +160,6 @@ class InformationFilter(object):
 
         # identity matrix. Do not alter this.
         self._I = np.eye(dim_x)
-        self._no_information = False
 
         self.compute_log_likelihood = compute_log_likelihood
         self.log_likelihood = math.log(sys.float_info.min)
@@ -208,43 +207,42 @@ class InformationFilter(object):
         P_inv = self.P_inv
         x = self.x
 
-        if self._no_information:
-            self.x = dot(P_inv, x) + dot(H_T, R_inv).dot(z)
-            self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
-            self.log_likelihood = math.log(sys.float_info.min)
-            self.likelihood = sys.float_info.min
+        # y = z - Hx
+        # error (residual) between measurement and prediction
+        self.y = z - dot(H, x)
 
-        else:
-            # y = z - Hx
-            # error (residual) between measurement and prediction
-            self.y = z - dot(H, x)
-
-            # S = HPH' + R
-            # project system uncertainty into measurement space
+        # S = HPH' + R
+        # project system uncertainty into measurement space
+        try:
+            self.S = dot(H, self.inv(P_inv)).dot(H_T) + self.inv(R_inv)
+        except np.linalg.LinAlgError:
+            # no information, so nothing is known about the measurement
+            self.S = np.full((self.dim_z, self.dim_z), np.inf)
+
+        # map residual into state space. While part of the state is unknown
+        # P_inv is singular; the pseudo inverse leaves that part as it is.
+        # Scaling makes its cutoff independent of the units of the state.
+        HTRI = dot(H_T, R_inv)
+        self.P_inv = P_inv + dot(HTRI, H)
+        d = np.sqrt(np.abs(np.diag(self.P_inv))).reshape(-1, 1)
+        d[d == 0] = 1.
+        self.K = dot(np.linalg.pinv(self.P_inv / d / d.T, 1e-13), HTRI / d) / d
+
+        # x = x + Ky
+        # predict new x with residual scaled by the kalman gain
+        self.x = x + dot(self.K, self.y)
+
+        self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
+
+        if self.compute_log_likelihood:
             try:
-                self.S = dot(H, self.inv(P_inv)).dot(H_T) + self.inv(R_inv)
-            except np.linalg.LinAlgError:
-                # no information, so nothing is known about the measurement
-                self.S = np.full((self.dim_z, self.dim_z), np.inf)
-
-            # map residual into state space
-            self.K = dot(self.inv(P_inv + dot(H_T, R_inv).dot(H)), H_T).dot(R_inv)
-
-            # x = x + Ky
-            # predict new x with residual scaled by the kalman gain
-            self.x = x + dot(self.K, self.y)
-            self.P_inv = P_inv + dot(H_T, R_inv).dot(H)
-
-            self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
-
-            if self.compute_log_likelihood:
-                if np.all(np.isfinite(self.S)):
-                    self.log_likelihood = logpdf(x=self.y, cov=self.S)
-                else:
-                    self.log_likelihood = math.log(sys.float_info.min)
-                self.likelihood = math.exp(self.log_likelihood)
-                if self.likelihood == 0:
-                    self.likelihood = sys.float_info.min
+                self.log_likelihood = logpdf(x=self.y, cov=self.S)
+            except ValueError:
+                # S is unknown because P_inv is singular (to working precision)
+                self.log_likelihood = math.log(sys.float_info.min)
+            self.likelihood = math.exp(self.log_likelihood)
+            if self.likelihood == 0:
+                self.likelihood = sys.float_info.min
 
         # save measurement and posterior state
         self.z = deepcopy(z)
@@ -263,41 +261,18 @@ class InformationFilter(object):
         """
 
         # x = Fx + Bu
+        self.x = dot(self._F, self.x)
+        if u is not None and np.any(u):
+            self.x = self.x + dot(self.B, u)
 
+        # P_inv = (FPF' + Q)^-1, in a form that also holds when P_inv is
+        # singular (no information about some part of the state)
         A = dot(self._F_inv.T, self.P_inv).dot(self._F_inv)
-        #pylint: disable=bare-except
-        try:
-            AI = self.inv(A)
-            invertable = True
-            if self._no_information:
-                try:
-                    self.x = dot(self.inv(self.P_inv), self.x)
-                except:
-                    self.x = dot(0, self.x)
-                self._no_information = False
-        except:
-            invertable = False
-            self._no_information = True
-
-        if invertable:
-            self.x = dot(self._F, self.x)
-            if u is not None and np.any(u):
-                self.x = self.x + dot(self.B, u)
-            self.P_inv = self.inv(AI + self.Q)
-
-            # save priors
-            self.P_inv_prior = np.copy(self.P_inv)
-            self.x_prior = np.copy(self.x)
-        else:
-            I_PF = self._I - dot(self.P_inv, self._F_inv)
-            FTI = self.inv(self._F.T)
-            FTIX = dot(FTI, self.x)
-            AQI = self.inv(A + self.Q)
-            self.x = dot(FTI, dot(I_PF, AQI).dot(FTIX))
-
-            # save priors
-            self.x_prior = np.copy(self.x)
-            self.P_inv_prior = np.copy(AQI)
+        self.P_inv = dot(self.inv(self._I + dot(A, self.Q)), A)
+
+        # save priors
+        self.P_inv_prior = np.copy(self.P_inv)
+        self.x_prior = np.copy(self.x)
 
     def batch_filter(self, zs, Rs=None, update_first=False, saver=None):
         """ Batch processes a sequences of measurements.
-- 
2.43.0


From 44965cc8142181220ebc341511f9746892e99f53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:41 +0000
Subject: [PATCH 43/78] fix: HInfinityFilter.update records its gain in K

---
 filterpy/hinfinity/hinfinity_filter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index de9263b..48142eb 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -124,6 +124,7 @@ class HInfinityFilter(object):
         PL = dot(P, L)
 
         K = dot(F, PL).dot(HTVI)
+        self.K = K
 
         self.y = z - dot(H, x)
 
-- 
2.43.0


From 566f3df73da160980359efbd7893d90c4d01f557 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:18 +0000
Subject: [PATCH 44/78] fix: CubatureKalmanFilter uses x_mean_fn, z_mean_fn and
 residual_x as documented

---
 filterpy/kalman/CubatureKalmanFilter.py | 27 +++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index a88d1bf..9a9663b 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -61,7 +61,7 @@ def spherical_radial_sigmas(x, P):
     return sigmas
 
 
-def ckf_transform(Xs, Q):
+def ckf_transform(Xs, Q, mean_fn=None, residual_fn=np.subtract):
     """
     Compute mean and covariance of array of cubature points.
 
@@ -74,6 +74,12 @@ def ckf_transform(Xs, Q):
     Q : ndarray
         Noise covariance
 
+    mean_fn : callable (cubature_points, weights), optional
+        Function that computes the mean of the cubature points
+
+    residual_fn : callable (x, y), optional
+        Function that computes the residual (difference) between x and y
+
     Returns
     -------
 
@@ -86,11 +92,16 @@ def ckf_transform(Xs, Q):
 
     m, n = Xs.shape
 
-    x = sum(Xs, 0)[:, None] / m
+    if mean_fn is None:
+        x = sum(Xs, 0)[:, None] / m
+    else:
+        x = np.reshape(mean_fn(Xs, np.full(m, 1. / m)), (n, 1))
+
     P = np.zeros((n, n))
     xf = x.flatten()
     for k in range(m):
-        P += np.outer(Xs[k], Xs[k]) - np.outer(xf, xf)
+        y = residual_fn(Xs[k], xf)
+        P += np.outer(y, y)
 
     P *= 1 / m
     P += Q
@@ -320,7 +331,8 @@ class CubatureKalmanFilter(object):
         for k in range(self._num_sigmas):
             self.sigmas_f[k] = self.fx(sigmas[k], dt, *fx_args)
 
-        self.x, self.P = ckf_transform(self.sigmas_f, self.Q)
+        self.x, self.P = ckf_transform(
+            self.sigmas_f, self.Q, self.x_mean, self.residual_x)
 
         # the measurement update needs points distributed as the prior
         self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
@@ -366,14 +378,17 @@ class CubatureKalmanFilter(object):
             self.sigmas_h[k] = self.hx(self.sigmas_f[k], *hx_args)
 
         # mean and covariance of prediction passed through unscented transform
-        zp, self.S = ckf_transform(self.sigmas_h, R)
+        zp, self.S = ckf_transform(
+            self.sigmas_h, R, self.z_mean, self.residual_z)
         self.SI = inv(self.S)
 
         # compute cross variance of the state and the measurements
         m = self._num_sigmas  # literaure uses m for scaling factor
         xf = self.x.flatten()
         zpf = zp.flatten()
-        Pxz = outer_product_sum(self.sigmas_f - xf, self.sigmas_h - zpf) / m
+        Pxz = outer_product_sum(
+            np.array([self.residual_x(s, xf) for s in self.sigmas_f]),
+            np.array([self.residual_z(s, zpf) for s in self.sigmas_h])) / m
 
         self.K = dot(Pxz, self.SI)        # Kalman gain
         z = reshape_z(z, self.dim_z, zp.ndim)
-- 
2.43.0


From 69674f79b28c049adb654f6a6225f20a6612b9f3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 45/78] fix: IMMEstimator stays finite when a mode has
 probability zero

---
 filterpy/kalman/IMM.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index eed000b..43d9235 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -253,7 +253,11 @@ class IMMEstimator(object):
         self.cbar = dot(self.mu, self.M)
         for i in range(self.N):
             for j in range(self.N):
-                self.omega[i, j] = (self.M[i, j]*self.mu[i]) / self.cbar[j]
+                if self.cbar[j] == 0.:
+                    # mode j cannot occur, so there is nothing to mix into it
+                    self.omega[i, j] = float(i == j)
+                else:
+                    self.omega[i, j] = (self.M[i, j]*self.mu[i]) / self.cbar[j]
 
     def __repr__(self):
         return '\n'.join([
-- 
2.43.0


From c2ed58ef621a4f9e273badc165e8e8eabb7df39e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:30 +0000
Subject: [PATCH 46/78] fix: LeastSquaresFilter.update records the residual in
 y

---
 filterpy/leastsq/least_squares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 2610b14..3a123b4 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -125,7 +125,6 @@ class LeastSquaresFilter(object):
         dt = self.dt
         x = self.x
         K = self.K
-        y = self.y
 
         if self._order == 0:
             K[0] = 1. / n
@@ -152,6 +151,8 @@ class LeastSquaresFilter(object):
             x[0] += (K[0] * y) + (x[1] * dt) + (.5 * dt**2 * x[2])
             x[1] += (K[1] * y) + (x[2] * dt)
             x[2] += (K[2] * y)
+
+        self.y = y
         return self.x
 
     def errors(self):
-- 
2.43.0


From 3e4fe7d084b37b8251b24d338eb9b2a22c3b91ca Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:30 +0000
Subject: [PATCH 47/78] fix: LeastSquaresFilter.errors works before the fit is
 determined

---
 filterpy/leastsq/least_squares.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 3a123b4..27f1b57 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -186,8 +186,8 @@ class LeastSquaresFilter(object):
             if n > 1:
                 error[0] = sigma * sqrt(2*(2*n-1) / (n*(n+1)))
                 error[1] = sigma * sqrt(12. / (n*(n*n-1)*dt*dt))
+                std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
             std[0] = sigma * sqrt((2*(2*n-1)) / (n*(n+1)))
-            std[1] = (sigma/dt) * sqrt(12. / (n*(n*n-1)))
 
         elif order == 2:
             dt2 = dt * dt
@@ -197,11 +197,11 @@ class LeastSquaresFilter(object):
                 error[1] = sigma * sqrt(12*(16*n*n-30*n+11) /
                                         (n*(n*n-1)*(n*n-4)*dt2))
                 error[2] = sigma * sqrt(720/(n*(n*n-1)*(n*n-4)*dt2*dt2))
+                std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
+                                           (n*(n*n - 1)*(n*n - 4)))
+                std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
 
             std[0] = sigma * sqrt((3*(3*n*n - 3*n + 2)) / (n*(n+1)*(n+2)))
-            std[1] = (sigma/dt) * sqrt((12*(16*n*n - 30*n + 11)) /
-                                       (n*(n*n - 1)*(n*n - 4)))
-            std[2] = (sigma/dt2) * sqrt(720 / (n*(n*n-1)*(n*n-4)))
 
         return error, std
 
-- 
2.43.0


From a655a39fbf0a81ac3c53b59fc2cae978e1c88576 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:51 +0000
Subject: [PATCH 48/78] fix: plot_gaussian passes its arguments by name

---
 filterpy/stats/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index b303012..fac17f2 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -665,8 +665,9 @@ def plot_gaussian(mean=0., variance=1.,
                   'A Gaussian can be plotted as a PDF or CDF. This '\
                   'plots a PDF. Use plot_gaussian_pdf() instead,',
                   DeprecationWarning)
-    return plot_gaussian_pdf(mean, variance, ax, mean_line, xlim, ylim, xlabel,
-                             ylabel, label)
+    return plot_gaussian_pdf(mean=mean, variance=variance, ax=ax,
+                             mean_line=mean_line, xlim=xlim, ylim=ylim,
+                             xlabel=xlabel, ylabel=ylabel, label=label)
 
 
 def covariance_ellipse(P, deviations=1):
-- 
2.43.0


From 13e896a936010a00165904f3f7dac4064faaf95d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:51 +0000
Subject: [PATCH 49/78] fix: rand_student_t has the scale of Student's t
 distribution

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index fac17f2..4c8e439 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1132,7 +1132,7 @@ def rand_student_t(df, mu=0, std=1):
     """
 
     x = random.gauss(0, std)
-    y = 2.0*random.gammavariate(0.5 * df, 2.0)
+    y = random.gammavariate(0.5 * df, 2.0)
     return x / (math.sqrt(y / df)) + mu
 
 
-- 
2.43.0


From 5c842fed3a2c7867ea39dcb0831eeb66947fa40a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:51 +0000
Subject: [PATCH 50/78] fix: NEES accepts lists

---
 filterpy/stats/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index 4c8e439..e4cd6bf 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -1173,7 +1173,7 @@ def NEES(xs, est_xs, ps):
 
     """
 
-    est_err = xs - est_xs
+    est_err = np.asarray(xs) - np.asarray(est_xs)
     errs = []
     for x, p in zip(est_err, ps):
         errs.append(np.dot(x.T, linalg.inv(p)).dot(x))
-- 
2.43.0


From 25182b377c79265cf6b3ab71264a5e74da1c1e22 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:41 +0000
Subject: [PATCH 51/78] fix: discrete_bayes.predict does not truncate an
 integer belief

---
 filterpy/discrete_bayes/discrete_bayes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/discrete_bayes/discrete_bayes.py b/filterpy/discrete_bayes/discrete_bayes.py
index 084ba8c..9fbbdc7 100644
--- a/filterpy/discrete_bayes/discrete_bayes.py
+++ b/filterpy/discrete_bayes/discrete_bayes.py
@@ -121,6 +121,8 @@ def predict(pdf, offset, kernel, mode='wrap', cval=0.):
         prior = predict(belief, offset=2, kernel=[.1, .8, .1])
     """
 
+    pdf = np.asarray(pdf, dtype=float)  # ndimage keeps the dtype of its input
+
     if mode == 'wrap':
         return convolve(np.roll(pdf, offset), kernel, mode='wrap')
 
-- 
2.43.0


From 52583a04c2186ceb8c362c79b48acef6b0e5e608 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:41 +0000
Subject: [PATCH 52/78] fix: discrete_bayes.update accepts integer arrays and
 lists

---
 filterpy/discrete_bayes/discrete_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/discrete_bayes/discrete_bayes.py b/filterpy/discrete_bayes/discrete_bayes.py
index 9fbbdc7..75e3c67 100644
--- a/filterpy/discrete_bayes/discrete_bayes.py
+++ b/filterpy/discrete_bayes/discrete_bayes.py
@@ -85,7 +85,7 @@ def update(likelihood, prior):
         posterior = update(likelihood, prior)
     """
 
-    posterior = prior * likelihood
+    posterior = np.asarray(prior, dtype=float) * likelihood
     return normalize(posterior)
 
 
-- 
2.43.0


From 2ae31544f4d5d040cd03cde7985893d979da8e8c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:43 +0000
Subject: [PATCH 53/78] fix: discrete_bayes.predict shifts exactly in constant
 mode

Spline interpolation left probabilities as low as -1e-16.
---
 filterpy/discrete_bayes/discrete_bayes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/discrete_bayes/discrete_bayes.py b/filterpy/discrete_bayes/discrete_bayes.py
index 75e3c67..bc1d6a2 100644
--- a/filterpy/discrete_bayes/discrete_bayes.py
+++ b/filterpy/discrete_bayes/discrete_bayes.py
@@ -126,5 +126,5 @@ def predict(pdf, offset, kernel, mode='wrap', cval=0.):
     if mode == 'wrap':
         return convolve(np.roll(pdf, offset), kernel, mode='wrap')
 
-    return convolve(shift(pdf, offset, cval=cval), kernel,
+    return convolve(shift(pdf, offset, order=1, cval=cval), kernel,
                     cval=cval, mode='constant')
-- 
2.43.0


From 245b1db695df2e90d96fc912b8defa924239b76c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 54/78] fix: resampling never selects a particle of weight zero
 or runs off the end

A random draw of exactly 0, or rounding near 1, selected particles whose
weight is zero, and the stratified and systematic schemes raised IndexError
when the last position rounded up to 1.
---
 filterpy/monte_carlo/resampling.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index 3d6f6f6..e7686e9 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -24,6 +24,17 @@ import numpy as np
 from numpy.random import random
 
 
+def _cumulative_sum(weights):
+    """ cumulative sum of the weights whose end no random position reaches:
+    round-off can leave the sum below 1, and can round a position up to 1.
+    What is left goes to the last particle with a non-zero weight.
+    """
+
+    cumulative_sum = np.cumsum(weights)
+    cumulative_sum[np.flatnonzero(weights)[-1]:] = np.inf
+    return cumulative_sum
+
+
 def residual_resample(weights):
     """ Performs the residual resampling algorithm used by particle filters.
 
@@ -68,10 +79,10 @@ def residual_resample(weights):
     # use multinormal resample on the residual to fill up the rest. This
     # maximizes the variance of the samples
     residual = N*np.asarray(weights) - num_copies     # get fractional part
-    residual /= sum(residual)           # normalize
-    cumulative_sum = np.cumsum(residual)
-    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
-    indexes[k:N] = np.searchsorted(cumulative_sum, random(N-k))
+    if k < N:
+        residual /= sum(residual)           # normalize
+        cumulative_sum = _cumulative_sum(residual)
+        indexes[k:N] = np.searchsorted(cumulative_sum, random(N-k), side='right')
 
     return indexes
 
@@ -103,8 +114,7 @@ def stratified_resample(weights):
     positions = (random(N) + range(N)) / N
 
     indexes = np.zeros(N, 'i')
-    cumulative_sum = np.cumsum(weights)
-    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
+    cumulative_sum = _cumulative_sum(weights)
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
@@ -140,8 +150,7 @@ def systematic_resample(weights):
     positions = (random() + np.arange(N)) / N
 
     indexes = np.zeros(N, 'i')
-    cumulative_sum = np.cumsum(weights)
-    cumulative_sum[-1] = 1. # avoid round-off errors: ensures sum is exactly one
+    cumulative_sum = _cumulative_sum(weights)
     i, j = 0, 0
     while i < N:
         if positions[i] < cumulative_sum[j]:
@@ -173,6 +182,5 @@ def multinomial_resample(weights):
         array of indexes into the weights defining the resample. i.e. the
         index of the zeroth resample is indexes[0], etc.
     """
-    cumulative_sum = np.cumsum(weights)
-    cumulative_sum[-1] = 1.  # avoid round-off errors: ensures sum is exactly one
-    return np.searchsorted(cumulative_sum, random(len(weights)))
+    cumulative_sum = _cumulative_sum(weights)
+    return np.searchsorted(cumulative_sum, random(len(weights)), side='right')
-- 
2.43.0


From f516076926968e2addc2ea21c200f54abc9e1b70 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 55/78] fix: InformationFilter keeps its F when a singular one
 is rejected

---
 filterpy/kalman/information_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 9bbf2f5..e2e6601 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -356,8 +356,8 @@ class InformationFilter(object):
     @F.setter
     def F(self, value):
         """State Transition matrix"""
+        self._F_inv = self.inv(value)  # raises if value is singular
         self._F = value
-        self._F_inv = self.inv(self._F)
 
     @property
     def P(self):
-- 
2.43.0


From da5b9d035c489e18925851985fc562a50743723c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 56/78] fix: test_matrix_dimensions rejects scalar or 1xk z of
 the wrong size

---
 filterpy/kalman/kalman_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 8ecf55a..d6ae82b 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1387,12 +1387,12 @@ class KalmanFilter(object):
         Hx = dot(H, x)
 
         if z_shape == (): # scalar or np.array(scalar)
-            assert Hx.ndim == 1 or shape(Hx) == (1, 1), \
+            assert shape(Hx) in [(1,), (1, 1)], \
             "shape of z should be {}, not {} for the given H".format(
                 shape(Hx), z_shape)
 
         elif shape(Hx) == (1,):
-            assert z_shape[0] == 1, 'Shape of z must be {} for the given H'.format(shape(Hx))
+            assert z_shape in [(1,), (1, 1)], 'Shape of z must be {} for the given H'.format(shape(Hx))
 
         else:
             assert (z_shape == shape(Hx) or
-- 
2.43.0


From 523e03aea260f7cc3c53821df58831a40ecdcd30 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:30 +0000
Subject: [PATCH 57/78] fix: reshape_z keeps every value of a measurement of a
 scalar state

---
 filterpy/common/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/common/helpers.py b/filterpy/common/helpers.py
index 34d6b6a..d3b7ab5 100644
--- a/filterpy/common/helpers.py
+++ b/filterpy/common/helpers.py
@@ -336,7 +336,7 @@ def reshape_z(z, dim_z, ndim):
     if ndim == 1:
         z = z[:, 0]
 
-    if ndim == 0:
+    if ndim == 0 and dim_z == 1:
         z = z[0, 0]
 
     return z
-- 
2.43.0


From 5733d0bdf1e37500271265f4e35bad1713de7722 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:03 +0000
Subject: [PATCH 58/78] fix: CubatureKalmanFilter.mahalanobis and Saver work
 before the first update

---
 filterpy/kalman/CubatureKalmanFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 9a9663b..02251c3 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -267,7 +267,7 @@ class CubatureKalmanFilter(object):
         self.fx = fx
         self.x_mean = x_mean_fn
         self.z_mean = z_mean_fn
-        self.y = 0
+        self.y = np.zeros(self.dim_z)
         self.z = np.array([[None]*self.dim_z]).T
         self.S = np.zeros((dim_z, dim_z)) # system uncertainty
         self.SI = np.zeros((dim_z, dim_z)) # inverse system uncertainty
-- 
2.43.0


From ff7f1dbebbf7406228730c39f4dc2ad30f6962c5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 59/78] fix: InformationFilter checks the shape of z before it
 changes the state

---
 filterpy/kalman/information_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index e2e6601..57c04fe 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -201,6 +201,8 @@ class InformationFilter(object):
         elif np.isscalar(R_inv):
             R_inv = eye(self.dim_z) * R_inv
 
+        z = reshape_z(z, self.dim_z, np.ndim(self.x))
+
         # rename for readability and a tiny extra bit of speed
         H = self.H
         H_T = H.T
@@ -232,8 +234,6 @@ class InformationFilter(object):
         # predict new x with residual scaled by the kalman gain
         self.x = x + dot(self.K, self.y)
 
-        self.z = np.copy(reshape_z(z, self.dim_z, np.ndim(self.x)))
-
         if self.compute_log_likelihood:
             try:
                 self.log_likelihood = logpdf(x=self.y, cov=self.S)
-- 
2.43.0


From 58fe358a4ec3211608754b16c5e5587bc4007cdc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 60/78] fix: LeastSquaresFilter.update no longer overwrites the
 estimates it returned before

---
 filterpy/leastsq/least_squares.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 27f1b57..ef347cb 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -123,7 +123,7 @@ class LeastSquaresFilter(object):
         # rename for readability
         n = self.n
         dt = self.dt
-        x = self.x
+        x = self.x = self.x.copy()  # earlier estimates stay as returned
         K = self.K
 
         if self._order == 0:
-- 
2.43.0


From 2ae9ae4e017b3d59bbc0263033e90e5e5eb83c82 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 61/78] fix: IMMEstimator no longer overwrites estimates handed
 out earlier

---
 filterpy/kalman/IMM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/IMM.py b/filterpy/kalman/IMM.py
index 43d9235..66d4697 100644
--- a/filterpy/kalman/IMM.py
+++ b/filterpy/kalman/IMM.py
@@ -236,11 +236,11 @@ class IMMEstimator(object):
         Computes the IMM's mixed state estimate from each filter using
         the the mode probability self.mu to weight the estimates.
         """
-        self.x.fill(0)
+        self.x = zeros(self.x.shape)
         for f, mu in zip(self.filters, self.mu):
             self.x += f.x * mu
 
-        self.P.fill(0)
+        self.P = zeros(self.P.shape)
         for f, mu in zip(self.filters, self.mu):
             y = f.x - self.x
             self.P += mu * (outer(y, y) + f.P)
-- 
2.43.0


From 235e87981c99fe0d9744c950a5d5146849f4937e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:00 +0000
Subject: [PATCH 62/78] fix: GHFilterOrder and FadingMemoryFilter no longer
 overwrite earlier estimates

---
 filterpy/gh/gh_filter.py         | 2 ++
 filterpy/memory/fading_memory.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 2909fd7..1c1fe77 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -139,6 +139,8 @@ class GHFilterOrder(object):
         or treatable as the same type as self.x[0].
         """
 
+        self.x = self.x.copy()  # earlier estimates stay as they were
+
         if self.order == 0:
             if g is None:
                 g = self.g
diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 72cc043..3d17f51 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -161,6 +161,8 @@ class FadingMemoryFilter(object):
         (or treatable as the same type) as self.x[0].
         """
 
+        self.x = self.x.copy()  # earlier estimates stay as they were
+
         if self.order == 0:
             G = 1 - self.beta
             self.x = self.x + dot(G, (z - self.x))
-- 
2.43.0


From bc2dcf3c16b827fa6365eb026953c207949b9e32 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 63/78] fix: MMAEFilterBank no longer overwrites weights handed
 out earlier

---
 filterpy/kalman/mmae.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 654782e..716c7f8 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -191,6 +191,7 @@ class MMAEFilterBank(object):
             H = self.H
 
         # new probability is recursively defined as prior * likelihood
+        self.p = self.p.copy()  # earlier weights stay as they were
         for i, f in enumerate(self.filters):
             f.update(z, R, H)
             self.p[i] *= f.likelihood
-- 
2.43.0


From 4b8b9f384604cb8fdc2f653addc0035223db99f1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 64/78] fix: log-density dropped components measured in small
 units

scipy's pseudo-determinant treats eigenvalues below about 1e-10 of the
largest as zero. A covariance such as diag(1e6, 1e-8), a range and a
bearing, lost its second component: wrong log-likelihoods, or -inf.
---
 filterpy/stats/stats.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index e4cd6bf..33ce359 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -149,6 +149,18 @@ def logpdf(x, mean=None, cov=1, allow_singular=True):
 
     flat_x = np.asarray(x).flatten()
 
+    # SciPy takes eigenvalues that are small against the largest one for zero.
+    # Measure each component in units of its own standard deviation first so
+    # that this does not drop components which merely are in other units.
+    if np.ndim(cov) == 2 and np.all(np.isfinite(cov)) and np.all(np.diag(cov) > 0):
+        std = np.sqrt(np.diag(cov))
+        try:
+            return multivariate_normal.logpdf(
+                flat_x / std, None if flat_mean is None else flat_mean / std,
+                cov / np.outer(std, std)) - np.sum(np.log(std))
+        except (ValueError, np.linalg.LinAlgError):
+            pass  # singular, or not a covariance at all
+
     if _support_singular:
         return multivariate_normal.logpdf(flat_x, flat_mean, cov, allow_singular)
     return multivariate_normal.logpdf(flat_x, flat_mean, cov)
-- 
2.43.0


From bacb3e4f9fbf86e2e59b3820e13128b927192f1a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:49 +0000
Subject: [PATCH 65/78] fix: printed forms showed other attributes' values

FadingKalmanFilter and FixedLagSmoother printed x as dim_x and dim_z,
HInfinityFilter dim_u as gamma, GHKFilter dx_prediction as
ddx_prediction; EKF and GHKFilter named the wrong class, UKF and MMAE
labelled sigmas_h and p as something else.
---
 filterpy/gh/gh_filter.py               | 4 ++--
 filterpy/hinfinity/hinfinity_filter.py | 2 +-
 filterpy/kalman/EKF.py                 | 2 +-
 filterpy/kalman/UKF.py                 | 2 +-
 filterpy/kalman/fading_memory.py       | 4 ++--
 filterpy/kalman/fixed_lag_smoother.py  | 4 ++--
 filterpy/kalman/mmae.py                | 2 +-
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index 1c1fe77..d9fa082 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -845,7 +845,7 @@ class GHKFilter(object):
 
     def __repr__(self):
         return '\n'.join([
-            'GHFilter object',
+            'GHKFilter object',
             pretty_str('dt', self.dt),
             pretty_str('g', self.g),
             pretty_str('h', self.h),
@@ -855,7 +855,7 @@ class GHKFilter(object):
             pretty_str('ddx', self.ddx),
             pretty_str('x_prediction', self.x_prediction),
             pretty_str('dx_prediction', self.dx_prediction),
-            pretty_str('ddx_prediction', self.dx_prediction),
+            pretty_str('ddx_prediction', self.ddx_prediction),
             pretty_str('y', self.y),
             pretty_str('z', self.z)
             ])
diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 48142eb..29bfc18 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -285,7 +285,7 @@ class HInfinityFilter(object):
             pretty_str('dim_x', self.dim_x),
             pretty_str('dim_z', self.dim_z),
             pretty_str('dim_u', self.dim_u),
-            pretty_str('gamma', self.dim_u),
+            pretty_str('gamma', self.gamma),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
             pretty_str('F', self.F),
diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 0468c6f..1565047 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -366,7 +366,7 @@ class ExtendedKalmanFilter(object):
 
     def __repr__(self):
         return '\n'.join([
-            'KalmanFilter object',
+            'ExtendedKalmanFilter object',
             pretty_str('x', self.x),
             pretty_str('P', self.P),
             pretty_str('x_prior', self.x_prior),
diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 8848500..6c6cb78 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -796,7 +796,7 @@ class UnscentedKalmanFilter(object):
             pretty_str('likelihood', self.likelihood),
             pretty_str('mahalanobis', self.mahalanobis),
             pretty_str('sigmas_f', self.sigmas_f),
-            pretty_str('h', self.sigmas_h),
+            pretty_str('sigmas_h', self.sigmas_h),
             pretty_str('Wm', self.Wm),
             pretty_str('Wc', self.Wc),
             pretty_str('residual_x', self.residual_x),
diff --git a/filterpy/kalman/fading_memory.py b/filterpy/kalman/fading_memory.py
index 45e86d8..95ef949 100644
--- a/filterpy/kalman/fading_memory.py
+++ b/filterpy/kalman/fading_memory.py
@@ -448,8 +448,8 @@ class FadingKalmanFilter(object):
     def __repr__(self):
         return '\n'.join([
             'FadingKalmanFilter object',
-            pretty_str('dim_x', self.x),
-            pretty_str('dim_z', self.x),
+            pretty_str('dim_x', self.dim_x),
+            pretty_str('dim_z', self.dim_z),
             pretty_str('dim_u', self.dim_u),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index 20d377c..3c8b8e2 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -308,8 +308,8 @@ class FixedLagSmoother(object):
     def __repr__(self):
         return '\n'.join([
             'FixedLagSmoother object',
-            pretty_str('dim_x', self.x),
-            pretty_str('dim_z', self.x),
+            pretty_str('dim_x', self.dim_x),
+            pretty_str('dim_z', self.dim_z),
             pretty_str('N', self.N),
             pretty_str('x', self.x),
             pretty_str('x_s', self.x_s),
diff --git a/filterpy/kalman/mmae.py b/filterpy/kalman/mmae.py
index 716c7f8..b6f7a4a 100644
--- a/filterpy/kalman/mmae.py
+++ b/filterpy/kalman/mmae.py
@@ -230,5 +230,5 @@ class MMAEFilterBank(object):
             pretty_str('dim_x', self.dim_x),
             pretty_str('x', self.x),
             pretty_str('P', self.P),
-            pretty_str('log-p', self.p),
+            pretty_str('p', self.p),
             ])
-- 
2.43.0


From 88a090242626084519fe818de59715839bbaea7b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:37 +0000
Subject: [PATCH 66/78] fix: smoothers failed on integer-typed histories

---
 filterpy/kalman/UKF.py           | 2 +-
 filterpy/kalman/kalman_filter.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index 6c6cb78..bced747 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -712,7 +712,7 @@ class UnscentedKalmanFilter(object):
 
         num_sigmas = self._num_sigmas
 
-        xs, ps = Xs.copy(), Ps.copy()
+        xs, ps = np.array(Xs, dtype=float), np.array(Ps, dtype=float)
         sigmas_f = zeros((num_sigmas, dim_x))
 
         for k in reversed(range(n-1)):
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index d6ae82b..478a36a 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1068,7 +1068,7 @@ class KalmanFilter(object):
         # smoother gain
         K = zeros((n, dim_x, dim_x))
 
-        x, P, Pp = Xs.copy(), Ps.copy(), Ps.copy()
+        x, P, Pp = (np.array(v, dtype=float) for v in (Xs, Ps, Ps))
         for k in range(n-2, -1, -1):
             Pp[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
 
@@ -1853,7 +1853,7 @@ def rts_smoother(Xs, Ps, Fs, Qs):
 
     # smoother gain
     K = zeros((n, dim_x, dim_x))
-    x, P, pP = Xs.copy(), Ps.copy(), Ps.copy()
+    x, P, pP = (np.array(v, dtype=float) for v in (Xs, Ps, Ps))
 
     for k in range(n-2, -1, -1):
         pP[k] = dot(dot(Fs[k+1], P[k]), Fs[k+1].T) + Qs[k+1]
-- 
2.43.0


From 4ba0b81300e7e818eae98086ed9f6de416706ac1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 67/78] fix: resampling failed on integer-typed weights

---
 filterpy/monte_carlo/resampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/monte_carlo/resampling.py b/filterpy/monte_carlo/resampling.py
index e7686e9..d56efa2 100644
--- a/filterpy/monte_carlo/resampling.py
+++ b/filterpy/monte_carlo/resampling.py
@@ -30,7 +30,7 @@ def _cumulative_sum(weights):
     What is left goes to the last particle with a non-zero weight.
     """
 
-    cumulative_sum = np.cumsum(weights)
+    cumulative_sum = np.cumsum(weights, dtype=float)
     cumulative_sum[np.flatnonzero(weights)[-1]:] = np.inf
     return cumulative_sum
 
-- 
2.43.0


From 7fac9522b7e86d7300c8b74d0178b671859db847 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 68/78] fix: integer-typed states assigned to GHFilterOrder,
 FadingMemoryFilter and LeastSquaresFilter were truncated

---
 filterpy/gh/gh_filter.py          | 2 +-
 filterpy/leastsq/least_squares.py | 2 +-
 filterpy/memory/fading_memory.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/filterpy/gh/gh_filter.py b/filterpy/gh/gh_filter.py
index d9fa082..47e4c75 100644
--- a/filterpy/gh/gh_filter.py
+++ b/filterpy/gh/gh_filter.py
@@ -139,7 +139,7 @@ class GHFilterOrder(object):
         or treatable as the same type as self.x[0].
         """
 
-        self.x = self.x.copy()  # earlier estimates stay as they were
+        self.x = np.array(self.x, dtype=float)  # earlier estimates stay as they were
 
         if self.order == 0:
             if g is None:
diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index ef347cb..7520c29 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -123,7 +123,7 @@ class LeastSquaresFilter(object):
         # rename for readability
         n = self.n
         dt = self.dt
-        x = self.x = self.x.copy()  # earlier estimates stay as returned
+        x = self.x = np.array(self.x, dtype=float)  # earlier estimates stay as returned
         K = self.K
 
         if self._order == 0:
diff --git a/filterpy/memory/fading_memory.py b/filterpy/memory/fading_memory.py
index 3d17f51..08861e8 100644
--- a/filterpy/memory/fading_memory.py
+++ b/filterpy/memory/fading_memory.py
@@ -161,7 +161,7 @@ class FadingMemoryFilter(object):
         (or treatable as the same type) as self.x[0].
         """
 
-        self.x = self.x.copy()  # earlier estimates stay as they were
+        self.x = np.array(self.x, dtype=float)  # earlier estimates stay as they were
 
         if self.order == 0:
             G = 1 - self.beta
-- 
2.43.0


From dfd9d448a0292be81ce7f3ed60f71c741cc27218 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 69/78] fix: InformationFilter predicted with a stale inverse
 after F was edited in place

---
 filterpy/kalman/information_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/kalman/information_filter.py b/filterpy/kalman/information_filter.py
index 57c04fe..3f946b4 100644
--- a/filterpy/kalman/information_filter.py
+++ b/filterpy/kalman/information_filter.py
@@ -267,6 +267,8 @@ class InformationFilter(object):
 
         # P_inv = (FPF' + Q)^-1, in a form that also holds when P_inv is
         # singular (no information about some part of the state)
+        if not np.isscalar(self._F):
+            self._F_inv = self.inv(self._F)  # F may have been edited in place
         A = dot(self._F_inv.T, self.P_inv).dot(self._F_inv)
         self.P_inv = dot(self.inv(self._I + dot(A, self.Q)), A)
 
-- 
2.43.0


From e26b16d826eafdb84e6b0d8cbd34944ced211f53 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 70/78] fix: HInfinityFilter updated with a stale inverse after
 V was edited in place

---
 filterpy/hinfinity/hinfinity_filter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/filterpy/hinfinity/hinfinity_filter.py b/filterpy/hinfinity/hinfinity_filter.py
index 29bfc18..77900c6 100644
--- a/filterpy/hinfinity/hinfinity_filter.py
+++ b/filterpy/hinfinity/hinfinity_filter.py
@@ -111,6 +111,8 @@ class HInfinityFilter(object):
         H = self.H
         P = self.P
         x = self.x
+        if np.any(self._V):
+            self._V_inv = linalg.inv(self._V)  # V may have been edited in place
         V_inv = self._V_inv
         F = self.F
         W = self.W
-- 
2.43.0


From ec07ab1254151b31818524eda28db947c4557678 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 71/78] fix: a scalar R for one update takes the size of the H,
 hx or Jacobian given for it

---
 filterpy/kalman/EKF.py           | 10 +++++-----
 filterpy/kalman/UKF.py           | 10 +++++-----
 filterpy/kalman/kalman_filter.py |  4 ++--
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/filterpy/kalman/EKF.py b/filterpy/kalman/EKF.py
index 1565047..743e2e7 100644
--- a/filterpy/kalman/EKF.py
+++ b/filterpy/kalman/EKF.py
@@ -259,16 +259,16 @@ class ExtendedKalmanFilter(object):
         if not isinstance(hx_args, tuple):
             hx_args = (hx_args,)
 
-        if R is None:
-            R = self.R
-        elif np.isscalar(R):
-            R = eye(self.dim_z) * R
-
         if np.isscalar(z) and self.dim_z == 1:
             z = np.asarray([z], float)
 
         H = HJacobian(self.x, *args)
 
+        if R is None:
+            R = self.R
+        elif np.isscalar(R):
+            R = eye(np.atleast_2d(H).shape[0]) * R
+
         PHT = dot(self.P, H.T)
         self.S = dot(H, PHT) + R
         self.SI = linalg.inv(self.S)
diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index bced747..d899476 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -451,11 +451,6 @@ class UnscentedKalmanFilter(object):
         if UT is None:
             UT = unscented_transform
 
-        if R is None:
-            R = self.R
-        elif isscalar(R):
-            R = eye(self._dim_z) * R
-
         # pass prior sigmas through h(x) to get measurement sigmas
         # the shape of sigmas_h will vary if the shape of z varies, so
         # recreate each time
@@ -465,6 +460,11 @@ class UnscentedKalmanFilter(object):
 
         self.sigmas_h = np.atleast_2d(sigmas_h)
 
+        if R is None:
+            R = self.R
+        elif isscalar(R):
+            R = eye(self.sigmas_h.shape[1]) * R
+
         # mean and covariance of prediction passed through unscented transform
         zp, self.S = UT(self.sigmas_h, self.Wm, self.Wc, R, self.z_mean, self.residual_z)
         self.SI = self.inv(self.S)
diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index 478a36a..eaae979 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -522,7 +522,7 @@ class KalmanFilter(object):
         if R is None:
             R = self.R
         elif isscalar(R):
-            R = eye(self.dim_z) * R
+            R = eye(self.dim_z if H is None else shape(H)[0]) * R
 
         if H is None:
             z = reshape_z(z, self.dim_z, self.x.ndim)
@@ -714,7 +714,7 @@ class KalmanFilter(object):
         if R is None:
             R = self.R
         elif isscalar(R):
-            R = eye(self.dim_z) * R
+            R = eye(self.dim_z if H is None else shape(H)[0]) * R
 
         # rename for readability and a tiny extra bit of speed
         if H is None:
-- 
2.43.0


From cc6c4eacc02304e063040109b5a2122bad2fb7e9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:10 +0000
Subject: [PATCH 72/78] fix: FixedLagSmoother with an integer model raised on
 real-valued controls

---
 filterpy/kalman/fixed_lag_smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/fixed_lag_smoother.py b/filterpy/kalman/fixed_lag_smoother.py
index 3c8b8e2..11abfa9 100644
--- a/filterpy/kalman/fixed_lag_smoother.py
+++ b/filterpy/kalman/fixed_lag_smoother.py
@@ -176,7 +176,7 @@ class FixedLagSmoother(object):
         # predict step of normal Kalman filter
         x_pre = dot(F, x)
         if u is not None:
-            x_pre += dot(B, u)
+            x_pre = x_pre + dot(B, u)
 
         P = dot(F, P).dot(F.T) + Q
 
@@ -270,7 +270,7 @@ class FixedLagSmoother(object):
             # predict step of normal Kalman filter
             x_pre = dot(F, x)
             if us is not None:
-                x_pre += dot(B, us[k])
+                x_pre = x_pre + dot(B, us[k])
 
             P = dot(F, P).dot(F.T) + Q
 
-- 
2.43.0


From 1c78d4c0e493136936eff6ec74d0a15cb25d52f4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 73/78] fix: plot_gaussian_pdf(std=...) raised because the
 variance has a default

---
 filterpy/stats/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/filterpy/stats/stats.py b/filterpy/stats/stats.py
index 33ce359..886bcef 100644
--- a/filterpy/stats/stats.py
+++ b/filterpy/stats/stats.py
@@ -576,7 +576,7 @@ def plot_gaussian_cdf(mean=0., variance=1.,
 
 
 def plot_gaussian_pdf(mean=0.,
-                      variance=1.,
+                      variance=None,
                       std=None,
                       ax=None,
                       mean_line=False,
@@ -633,7 +633,7 @@ def plot_gaussian_pdf(mean=0.,
         raise ValueError('Specify only one of variance and std')
 
     if variance is None and std is None:
-        raise ValueError('Specify variance or std')
+        variance = 1.
 
     if variance is not None:
         std = math.sqrt(variance)
-- 
2.43.0


From 131f34b5fae6170c4bc31a830ab8eed691b0ced0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 74/78] fix: predict and predict_steadystate with a matrix B
 but no control returned a matrix as state

---
 filterpy/kalman/kalman_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/filterpy/kalman/kalman_filter.py b/filterpy/kalman/kalman_filter.py
index eaae979..c224306 100644
--- a/filterpy/kalman/kalman_filter.py
+++ b/filterpy/kalman/kalman_filter.py
@@ -1623,7 +1623,9 @@ def predict(x, P, F=1, Q=0, u=0, B=1, alpha=1.):
 
     if np.isscalar(F):
         F = np.array(F)
-    x = dot(F, x) + dot(B, u)
+    x = dot(F, x)
+    if np.any(u):
+        x = x + dot(B, u)
     P = (alpha * alpha) * dot(dot(F, P), F.T) + Q
 
     return x, P
@@ -1663,7 +1665,9 @@ def predict_steadystate(x, F=1, u=0, B=1):
 
     if np.isscalar(F):
         F = np.array(F)
-    x = dot(F, x) + dot(B, u)
+    x = dot(F, x)
+    if np.any(u):
+        x = x + dot(B, u)
 
     return x
 
-- 
2.43.0


From 37f7e77d3aa33a1ee33c75cf64385679a147fb6b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:01 +0000
Subject: [PATCH 75/78] fix: EnsembleKalmanFilter was left with a half-advanced
 ensemble when fx raised

---
 filterpy/kalman/ensemble_kalman_filter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/filterpy/kalman/ensemble_kalman_filter.py b/filterpy/kalman/ensemble_kalman_filter.py
index 83b9bb5..7e0bf84 100644
--- a/filterpy/kalman/ensemble_kalman_filter.py
+++ b/filterpy/kalman/ensemble_kalman_filter.py
@@ -276,10 +276,12 @@ class EnsembleKalmanFilter(object):
         """ Predict next position. """
 
         N = self.N
+        sigmas = np.zeros_like(self.sigmas)
         for i, s in enumerate(self.sigmas):
-            self.sigmas[i] = self.fx(s, self.dt)
+            sigmas[i] = self.fx(s, self.dt)
 
         e = multivariate_normal(self._mean, self.Q, N)
+        self.sigmas = sigmas  # only once nothing can fail any more
         self.sigmas += e
 
         self.x = np.mean(self.sigmas, axis=0)
-- 
2.43.0


From e24000270379887279bdeac39134679e66e00c18 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 76/78] fix: UKF and CKF kept half-propagated sigma points when
 fx raised

---
 filterpy/kalman/CubatureKalmanFilter.py | 5 +++--
 filterpy/kalman/UKF.py                  | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/filterpy/kalman/CubatureKalmanFilter.py b/filterpy/kalman/CubatureKalmanFilter.py
index 02251c3..03ef440 100644
--- a/filterpy/kalman/CubatureKalmanFilter.py
+++ b/filterpy/kalman/CubatureKalmanFilter.py
@@ -328,11 +328,12 @@ class CubatureKalmanFilter(object):
         sigmas = spherical_radial_sigmas(self.x, self.P)
 
         # evaluate cubature points
+        sigmas_f = zeros((self._num_sigmas, self.dim_x))
         for k in range(self._num_sigmas):
-            self.sigmas_f[k] = self.fx(sigmas[k], dt, *fx_args)
+            sigmas_f[k] = self.fx(sigmas[k], dt, *fx_args)
 
         self.x, self.P = ckf_transform(
-            self.sigmas_f, self.Q, self.x_mean, self.residual_x)
+            sigmas_f, self.Q, self.x_mean, self.residual_x)
 
         # the measurement update needs points distributed as the prior
         self.sigmas_f = spherical_radial_sigmas(self.x, self.P)
diff --git a/filterpy/kalman/UKF.py b/filterpy/kalman/UKF.py
index d899476..ef99f9e 100644
--- a/filterpy/kalman/UKF.py
+++ b/filterpy/kalman/UKF.py
@@ -518,8 +518,10 @@ class UnscentedKalmanFilter(object):
         # calculate sigma points for given mean and covariance
         sigmas = self.points_fn.sigma_points(self.x, self.P)
 
+        sigmas_f = zeros((self._num_sigmas, self._dim_x))
         for i, s in enumerate(sigmas):
-            self.sigmas_f[i] = fx(s, dt, **fx_args)
+            sigmas_f[i] = fx(s, dt, **fx_args)
+        self.sigmas_f = sigmas_f
 
     def batch_filter(self, zs, Rs=None, dts=None, UT=None, saver=None):
         """
-- 
2.43.0


From 7fe403b07a85a51a229dfd1a4161bb71cee2d811 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:54 +0000
Subject: [PATCH 77/78] fix: LeastSquaresFilter counted a measurement whose
 update raised

---
 filterpy/leastsq/least_squares.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/filterpy/leastsq/least_squares.py b/filterpy/leastsq/least_squares.py
index 7520c29..ef3fdb2 100644
--- a/filterpy/leastsq/least_squares.py
+++ b/filterpy/leastsq/least_squares.py
@@ -119,11 +119,10 @@ class LeastSquaresFilter(object):
             estimate for this time step (same as self.x)
         """
 
-        self.n += 1
         # rename for readability
-        n = self.n
+        n = self.n + 1
         dt = self.dt
-        x = self.x = np.array(self.x, dtype=float)  # earlier estimates stay as returned
+        x = np.array(self.x, dtype=float)  # earlier estimates stay as returned
         K = self.K
 
         if self._order == 0:
@@ -152,6 +151,8 @@ class LeastSquaresFilter(object):
             x[1] += (K[1] * y) + (x[2] * dt)
             x[2] += (K[2] * y)
 
+        self.n = n
+        self.x = x
         self.y = y
         return self.x
 
-- 
2.43.0


From d711cd4998fbf64ead8fb6aeea837a6bddbb43a6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:45 +0000
Subject: [PATCH 78/78] fix: unscented_transform with integer sigma points and
 weights raised on real noise

---
 filterpy/kalman/unscented_transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filterpy/kalman/unscented_transform.py b/filterpy/kalman/unscented_transform.py
index 871add0..d89b27a 100644
--- a/filterpy/kalman/unscented_transform.py
+++ b/filterpy/kalman/unscented_transform.py
@@ -123,6 +123,6 @@ def unscented_transform(sigmas, Wm, Wc, noise_cov=None,
             P += Wc[k] * np.outer(y, y)
 
     if noise_cov is not None:
-        P += noise_cov
+        P = P + noise_cov
 
     return (x, P)
-- 
2.43.0

