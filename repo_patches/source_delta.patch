From 68918996c2b1f979921052d15809e89689b3c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 01/15] fix: do not move the ellipsoid center in place

The center array is the caller's own initial point and is also handed out by
xc() and returned by the cutting-plane solvers, so updating it in place
silently changed the caller's array and previously returned solutions.
---
 src/ellalgo/ell.py        | 2 +-
 src/ellalgo/ell_stable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index ca45145..8f6f6f4 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -253,7 +253,7 @@ class Ell(SearchSpace[ArrayType]):
         rho, sigma, delta = result
 
         # Update center point: xc -= (rho/omega) * grad_t
-        self._xc -= (rho / omega) * grad_t
+        self._xc = self._xc - (rho / omega) * grad_t
         # Update matrix: M -= (sigma/omega) * grad_t * grad_t^T
         self._mq -= (sigma / omega) * np.outer(grad_t, grad_t)
         # Update scaling factor
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index d0786f1..eef527b 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -230,7 +230,7 @@ class EllStable(SearchSpace[ArrayType]):
 
         # print(g_t)
         # calculate xc: n
-        self._xc -= (rho / omega) * g_t
+        self._xc = self._xc - (rho / omega) * g_t
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-- 
2.43.0


From 65c4783b9cc6169cf751250d8b8bb05ce6021036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 02/15] fix: EllStable no_defer_trick must scale the diagonal
 factor only

Scaling the whole storage also scaled L, so the represented ellipsoid changed.
---
 src/ellalgo/ell_stable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index eef527b..0a4d01e 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -253,6 +253,8 @@ class EllStable(SearchSpace[ArrayType]):
         self._kappa *= delta
 
         if self.no_defer_trick:
-            self._mq *= self._kappa
+            # only inv(D) carries the scale; L (unit lower-triangular) must not
+            for i in range(self._ndim):
+                self._mq[i, i] *= self._kappa
             self._kappa = 1.0
         return status
-- 
2.43.0


From fd7e53643142d3f0ab143d7536b3ac4be6d9c666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 03/15] fix: EllStable truncated integer gradients

inv(L)*g and the rank-one update were computed in copies of the gradient,
so an integer gradient array silently rounded every intermediate value.
---
 src/ellalgo/ell_stable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 0a4d01e..2dd33ea 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -192,7 +192,8 @@ class EllStable(SearchSpace[ArrayType]):
             >>> print(status)
             CutStatus.Success
         """
-        g, beta = cut
+        grad, beta = cut
+        g = np.asarray(grad, dtype=float)  # an integer array would truncate below
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
         inv_lower_g = g.copy()  # initially
-- 
2.43.0


From e3e4b4cf185cb359ce7eb72be934f1e77f9baf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 04/15] fix: EllStable rejects a zero gradient as Ell does

A zero gradient (or one whose width underflows) divided by zero and turned
the center into NaN.
---
 src/ellalgo/ell_stable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 2dd33ea..0fa856a 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -194,6 +194,8 @@ class EllStable(SearchSpace[ArrayType]):
         """
         grad, beta = cut
         g = np.asarray(grad, dtype=float)  # an integer array would truncate below
+        if np.all(g == 0.0):
+            raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
         inv_lower_g = g.copy()  # initially
@@ -213,6 +215,8 @@ class EllStable(SearchSpace[ArrayType]):
         # calculate omega: n
         gg_t = inv_lower_g * inv_diag_inv_lower_g
         omega = sum(gg_t)
+        if omega == 0.0:
+            return CutStatus.NoEffect
 
         self._tsq = self._kappa * omega  # need for helper
 
-- 
2.43.0


From 8826f0469050209f7b5f999fe70f4cba465b94ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 05/15] fix: integer diagonal made an integer shape matrix

EllStable then truncated its factors on every update and Ell failed to update.
---
 src/ellalgo/ell.py        | 2 +-
 src/ellalgo/ell_stable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 8f6f6f4..1dab1a5 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -83,7 +83,7 @@ class Ell(SearchSpace[ArrayType]):
         else:
             # Case 2: val is a list/array, create diagonal matrix
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 0fa856a..582edd2 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -76,7 +76,7 @@ class EllStable(SearchSpace[ArrayType]):
             self._mq = np.eye(ndim)
         else:
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
-- 
2.43.0


From 8454f396cdb9c825b58265b21c85cbc91592ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 06/15] fix: shallow parallel cut must not discard feasible
 points

For tsq + n*beta0*beta1 < 0 the update formula yields a negative sigma and an
ellipsoid that no longer contains the region kept by the cut; report NoEffect
as the quantized variant does.
---
 src/ellalgo/ell_calc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index a667d89..be8cb79 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -158,6 +158,8 @@ class EllCalc:
         b1sq = beta1 * beta1
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut(beta0, tsq)
+        if tsq + self._n_f * (beta0 * beta1) < 0.0:
+            return (CutStatus.NoEffect, None)  # too shallow to shrink anything
         return (
             CutStatus.Success,
             self.helper.calc_parallel_bias_cut(beta0, beta1, tsq),
-- 
2.43.0


From 73fd468df8a7ad6a26e01b588aca8195411c708c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 07/15] fix: parallel cut that misses the ellipsoid reports
 NoSoln

With beta1 < -tau no point of the ellipsoid satisfies the second cut, but the
update was applied and left an indefinite shape matrix.
---
 src/ellalgo/ell_calc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index be8cb79..33e364a 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -158,6 +158,8 @@ class EllCalc:
         b1sq = beta1 * beta1
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut(beta0, tsq)
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # second cut misses the ellipsoid
         if tsq + self._n_f * (beta0 * beta1) < 0.0:
             return (CutStatus.NoEffect, None)  # too shallow to shrink anything
         return (
@@ -253,6 +255,8 @@ class EllCalc:
         b1sq = beta1 * beta1
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut_q(beta0, tsq)
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # second cut misses the ellipsoid
         b0b1 = beta0 * beta1
         eta = tsq + self._n_f * b0b1
         if eta <= 0.0:  # for discrete optimization
-- 
2.43.0


From 9c225ba0a8351e87390573c687a34496b2600b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 08/15] fix: conjugate_gradient accepts an initial guess that
 is already a solution

A zero initial residual (for instance b = 0) was reported as non-convergence.
---
 src/ellalgo/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index c0b6321..aa24d38 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -64,6 +64,8 @@ def conjugate_gradient(
     residual = b - np.dot(A, solution)
     direction = residual.copy()  # Initial search direction is set to residual
     residual_norm_sq = np.dot(residual, residual)  # Squared norm of residual
+    if np.sqrt(residual_norm_sq) < tol:  # The initial guess already solves it
+        return solution
 
     for iteration in range(max_iter):
         A_direction = np.dot(A, direction)  # Matrix-vector product for line search
-- 
2.43.0


From 456195f8b6ce26a09d7ce10f76281449d12e117b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 09/15] fix: LDLTMgr.witness left entries of an earlier witness
 vector

Reusing the manager could leave non-zero entries outside the failing block,
so wit was no longer a certificate for the matrix.
---
 src/ellalgo/oracles/ldlt_mgr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ellalgo/oracles/ldlt_mgr.py b/src/ellalgo/oracles/ldlt_mgr.py
index 4cce5c0..7aa279a 100644
--- a/src/ellalgo/oracles/ldlt_mgr.py
+++ b/src/ellalgo/oracles/ldlt_mgr.py
@@ -210,6 +210,7 @@ class LDLTMgr:
             raise AssertionError()
         start, pos = self.pos
         m = pos - 1
+        self.wit.fill(0.0)  # drop entries left by an earlier witness
         self.wit[m] = 1.0
         for i in range(m, start, -1):
             self.wit[i - 1] = -self._storage[i:pos, i - 1].dot(self.wit[i:pos])
-- 
2.43.0


From 3be09d3324a71c32da2208a38275b85d81833313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:10 +0000
Subject: [PATCH 10/15] fix: cutting_plane_optim_q keeps its own copy of the
 best point

An oracle may hand back the live center of the search space.
---
 src/ellalgo/cutting_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index aa022eb..ea0a2ce 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -276,7 +276,7 @@ def cutting_plane_optim_q(
         cut, x_q, gamma1, more_alt = omega.assess_optim_q(space_q.xc(), gamma, retry)
         if gamma1 is not None:  # Improved objective value
             gamma = gamma1
-            x_best = x_q
+            x_best = copy.copy(x_q)
         # Update search space with quantized cut
         status = space_q.update_q(cut)
         if status == CutStatus.Success:
-- 
2.43.0


From 1f936a2ba15410262d2834626d18e800b25fc344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:31 +0000
Subject: [PATCH 11/15] fix: conjugate_gradient accepts an integer initial
 guess

The copy kept the integer type, so the first in-place float update raised
a casting error.
---
 src/ellalgo/conjugate_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index aa24d38..5e0de73 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -58,7 +58,7 @@ def conjugate_gradient(
             dimension
         )  # Initialize solution vector with zeros if no initial guess
     else:
-        solution = x0.copy()  # Use provided initial guess
+        solution = np.array(x0, dtype=float)  # Use (a copy of) the initial guess
 
     # Initial residual calculation: residual = b - A*solution
     residual = b - np.dot(A, solution)
-- 
2.43.0


From 7dddde33961e7c2332877790c673887d649ed32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:38 +0000
Subject: [PATCH 12/15] fix: a long run of cuts let the shape matrix underflow

---
 src/ellalgo/ell.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 1dab1a5..b109d14 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -259,8 +259,9 @@ class Ell(SearchSpace[ArrayType]):
         # Update scaling factor
         self._kappa *= delta
 
-        # Optional: apply scaling immediately rather than deferring
-        if self.no_defer_trick:
+        # Optional: apply scaling immediately rather than deferring. A deferred scale
+        # that has grown very large would let the matrix underflow.
+        if self.no_defer_trick or self._kappa > 1e50:
             self._mq *= self._kappa
             self._kappa = 1.0
         return status
-- 
2.43.0


From fbea53b946019e4586f3bf6d0b791e092cc27153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:38 +0000
Subject: [PATCH 13/15] fix: EllStable handles a cut that leaves a flat set or
 a single point

---
 src/ellalgo/ell_stable.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 582edd2..a094048 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -239,15 +239,17 @@ class EllStable(SearchSpace[ArrayType]):
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-        mu = sigma / (1.0 - sigma)
-        if mu == 0.0:
+        if sigma == 0.0:
             return status
-        oldt = omega / mu  # initially
+        # omega / mu with mu = sigma / (1 - sigma); zero when the cut leaves a flat set
+        oldt = omega * ((1.0 - sigma) / sigma)  # initially
         v = g.copy()
         for j in range(self._ndim):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
             newt = oldt + p * temp
+            if newt == 0.0:  # a flat set, and nothing to update in this column
+                continue
             beta2 = temp / newt
             self._mq[j, j] *= oldt / newt  # update invD
             for k in range(j + 1, self._ndim):
-- 
2.43.0


From 6e1d106ad5ff9c291b53af6902800626a7d2b657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:00 +0000
Subject: [PATCH 14/15] fix: LMIOldOracle accepts integer matrices

---
 src/ellalgo/oracles/lmi_old_oracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ellalgo/oracles/lmi_old_oracle.py b/src/ellalgo/oracles/lmi_old_oracle.py
index e9b6a10..7e65845 100644
--- a/src/ellalgo/oracles/lmi_old_oracle.py
+++ b/src/ellalgo/oracles/lmi_old_oracle.py
@@ -76,8 +76,7 @@ class LMIOldOracle(OracleFeas):
             True
         """
         n = len(xc)
-        A = self.mat_f0.copy()
-        A -= sum(self.mat_f[k] * xc[k] for k in range(n))
+        A = self.mat_f0 - sum(self.mat_f[k] * xc[k] for k in range(n))
         if not self.ldlt_mgr.factorize(A):
             ep = self.ldlt_mgr.witness()
             g = np.array([self.ldlt_mgr.sym_quad(self.mat_f[i]) for i in range(n)])
-- 
2.43.0


From 84a2c6764fb51e6c2797447049e3a6824ddf36b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:07 +0000
Subject: [PATCH 15/15] fix: take offsets and initial sizes given as NumPy
 scalars

An offset or initial size that is a NumPy integer or single-precision
scalar (what an oracle on integer or float32 data computes) raised a
TypeError or ValueError, because only int and float were recognised as
numbers; single-precision offset arrays were computed with in single
precision.
---
 src/ellalgo/ell.py        |  5 +++--
 src/ellalgo/ell_calc.py   | 20 +++++++++++---------
 src/ellalgo/ell_stable.py |  5 +++--
 3 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index b109d14..9b748b6 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -12,6 +12,7 @@ Key operations:
     - update_q: Apply a cut for discrete/quantized optimization
 """
 
+from numbers import Real
 from typing import Callable, Tuple, Union
 
 import numpy as np
@@ -76,9 +77,9 @@ class Ell(SearchSpace[ArrayType]):
         self.helper = EllCalc(ndim)
         self._xc = x_center
         self._tsq = 0.0
-        if isinstance(val, (int, float)):
+        if isinstance(val, Real):
             # Case 1: val is a scalar (kappa), create identity matrix
-            self._kappa = val
+            self._kappa = float(val)
             self._mq = np.eye(ndim)
         else:
             # Case 2: val is a list/array, create diagonal matrix
diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index 33e364a..3ef0a3f 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -14,6 +14,7 @@ Cut types supported:
 """
 
 from math import sqrt
+from numbers import Real
 from typing import Optional, Tuple
 
 from .ell_calc_core import EllCalcCore
@@ -88,13 +89,13 @@ class EllCalc:
             A tuple containing the `CutStatus` and an optional tuple of the
             update parameters (rho, sigma, delta) if the cut is successful.
         """
-        if isinstance(beta, (int, float)):
-            return self.calc_bias_cut(beta, tsq)
+        if isinstance(beta, Real):
+            return self.calc_bias_cut(float(beta), tsq)
         elif len(beta) < 2 or not self.use_parallel_cut:  # unlikely
-            return self.calc_bias_cut(beta[0], tsq)
+            return self.calc_bias_cut(float(beta[0]), tsq)
         b1 = beta[1]
         assert b1 is not None
-        return self.calc_parallel(beta[0], b1, tsq)
+        return self.calc_parallel(float(beta[0]), float(b1), tsq)
 
     def calc_single_or_parallel_central_cut(
         self, beta: CutChoice, tsq: float
@@ -122,10 +123,11 @@ class EllCalc:
             >>> result[0] == approx(0.02)
             True
         """
-        if isinstance(beta, (int, float)) or len(beta) < 2 or not self.use_parallel_cut:
+        if isinstance(beta, Real) or len(beta) < 2 or not self.use_parallel_cut:
             return (CutStatus.Success, self.helper.calc_central_cut(sqrt(tsq)))
         b1 = beta[1]
         assert b1 is not None
+        b1 = float(b1)
         if b1 < 0.0:
             return (CutStatus.NoSoln, None)
         b1sq = b1 * b1
@@ -226,13 +228,13 @@ class EllCalc:
         Returns:
             Status and optional result tuple.
         """
-        if isinstance(beta, (int, float)):
-            return self.calc_bias_cut_q(beta, tsq)
+        if isinstance(beta, Real):
+            return self.calc_bias_cut_q(float(beta), tsq)
         elif len(beta) < 2 or not self.use_parallel_cut:  # unlikely
-            return self.calc_bias_cut_q(beta[0], tsq)
+            return self.calc_bias_cut_q(float(beta[0]), tsq)
         b1 = beta[1]
         assert b1 is not None
-        return self.calc_parallel_q(beta[0], b1, tsq)
+        return self.calc_parallel_q(float(beta[0]), float(b1), tsq)
 
     def calc_parallel_q(
         self, beta0: float, beta1: float, tsq: float
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index a094048..fe30f13 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -12,6 +12,7 @@ Key differences from `Ell`:
     - Implements rank-one updates for the LDL^T factors
 """
 
+from numbers import Real
 from typing import Callable, Tuple, Union
 
 import numpy as np
@@ -71,8 +72,8 @@ class EllStable(SearchSpace[ArrayType]):
         self._xc = x_center
         self._tsq = 0.0
         self._ndim = ndim
-        if isinstance(val, (int, float)):
-            self._kappa = val
+        if isinstance(val, Real):
+            self._kappa = float(val)
             self._mq = np.eye(ndim)
         else:
             self._kappa = 1.0
-- 
2.43.0

