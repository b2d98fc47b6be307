From 9375f7cae71d0bea7908294b80e8e370f0cec15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 01/19] fix: compute barycentric weights in the order of the
 given points

---
 qmat/lagrange.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ab84845..ffe3583 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -175,7 +175,7 @@ class LagrangeApproximation(object):
             self.points = self.uniquePoints = points
             self._handleDuplicates = self._passThrough
 
-        points = uniques  # require unique points for weight computation
+        points = self.uniquePoints  # require unique points for weight computation
 
         diffs = points[:, None] - points[None, :]
         diffs[np.diag_indices_from(diffs)] = 1
-- 
2.43.0


From 0ea20fc0abfc4fc003d9259aed6a6285552e90cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 02/19] fix: detect overflow and underflow of the barycentric
 weights with AUTO

---
 qmat/lagrange.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index ffe3583..7b96a4e 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -211,11 +211,11 @@ class LagrangeApproximation(object):
             return invProd
 
         if weightComputation == 'AUTO':
-            with np.errstate(divide='raise', over='ignore'):
-                try:
+            try:
+                with np.errstate(divide='raise', over='raise', under='raise'):
                     invProd = analytic(diffs)
-                except FloatingPointError:
-                    invProd = logScale(diffs)
+            except FloatingPointError:
+                invProd = logScale(diffs)
         elif weightComputation == 'FAST':
             invProd = analytic(diffs)
         elif weightComputation == 'STABLE':
-- 
2.43.0


From aa8913bc729b7227147628bf84d9740804045687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 03/19] fix: avoid overflow when applying large barycentric
 weights in the interpolation matrix

---
 qmat/lagrange.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 7b96a4e..67c9729 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -345,7 +345,9 @@ class LagrangeApproximation(object):
         iDiff[i, :] = concom[i, :]
 
         # Compute interpolation matrix using weights
-        P = iDiff * self.weights
+        # (scaled by a power of two to avoid any overflow, without rounding error)
+        exponent = np.frexp(np.abs(self.weights).max())[1]
+        P = iDiff * np.ldexp(self.weights, -exponent)
         P /= P.sum(axis=-1)[:, None]
 
         if duplicates:
-- 
2.43.0


From a0425218d59fbaefb3f6aec3063bece07c0dbc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:13 +0000
Subject: [PATCH 04/19] fix: CHEBFUN weights with a single point

---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 67c9729..7242e67 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -202,7 +202,8 @@ class LagrangeApproximation(object):
 
         def chebfun(diffs):
             # Implementation used in chebfun
-            diffs *= 4 / (points.max() - points.min())
+            if points.size > 1:
+                diffs *= 4 / (points.max() - points.min())
             sign = np.sign(diffs).prod(axis=1)
             vv = np.exp(np.log(np.abs(diffs)).sum(axis=1))
             invProd = (sign * vv)
-- 
2.43.0


From f8706dabee3e4b5a82f9858371af408463a849c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:08 +0000
Subject: [PATCH 05/19] fix: reuse sparse interpolation lines only for
 identical relative stencils

---
 qmat/lagrange.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 7242e67..657f558 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -587,7 +587,8 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
             closestPointsIdx = np.sort(np.argsort(np.abs(inPoints - outPoints[i]))[:order])
             closestPoints = inPoints[closestPointsIdx] - outPoints[i]
 
-        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and np.allclose(closestPoints, lastClosestPoints):
+        if lastClosestPoints is not None and len(closestPoints) == len(lastClosestPoints) and \
+                np.allclose(closestPoints, lastClosestPoints, rtol=0, atol=1e-13*np.ptp(closestPoints)):
             interpolationLine = lastInterpolationLine
         else:
             interpolator = LagrangeApproximation(points = closestPoints)
-- 
2.43.0


From 6ee6239fc8d6653eed8f8e2423d8c637f75968c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:50 +0000
Subject: [PATCH 06/19] fix: periodic sparse interpolation for grids outside
 the base period

---
 qmat/lagrange.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qmat/lagrange.py b/qmat/lagrange.py
index 657f558..da02573 100644
--- a/qmat/lagrange.py
+++ b/qmat/lagrange.py
@@ -568,6 +568,9 @@ def getSparseInterpolationMatrix(inPoints, outPoints, order, gridPeriod=-1):
 
     assert order <= len(inPoints), f'Cannot interpolate {len(inPoints)} to order {order}! Please reduce order'
 
+    if gridPeriod > 0:
+        inPoints = inPoints % gridPeriod  # closest images are searched around [0, gridPeriod[
+
     A = sp.lil_matrix((len(outPoints), len(inPoints)))
     lastInterpolationLine = None
     lastClosestPoints = None
-- 
2.43.0


From a3d4d446a4a6a3bdc67a63848832554e84c9918a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 07/19] fix: set boundary nodes of Collocation from the
 quadrature type

---
 qmat/qcoeff/collocation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index ff7dcee..317cda5 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -56,8 +56,8 @@ class Collocation(QGenerator):
         nodes += tLeft
         self.tLeft, self.tRight = tLeft, tRight
         # Safety when bound should be included ...
-        if np.allclose(tLeft, nodes[0]): nodes[0] = tLeft
-        if np.allclose(tRight, nodes[-1]): nodes[-1] = tRight
+        if quadType in ["LOBATTO", "RADAU-LEFT"]: nodes[0] = tLeft
+        if quadType in ["LOBATTO", "RADAU-RIGHT"]: nodes[-1] = tRight
         self._nodes = nodes
 
         # Lagrange approximation based on nodes
-- 
2.43.0


From 685c614dab4baea5cfa36599ae028e3d1dcd48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:58 +0000
Subject: [PATCH 08/19] fix: use the right boundary of Collocation for hCoeffs
 and rightIsNode

---
 qmat/qcoeff/collocation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qmat/qcoeff/collocation.py b/qmat/qcoeff/collocation.py
index 317cda5..f9aff8a 100644
--- a/qmat/qcoeff/collocation.py
+++ b/qmat/qcoeff/collocation.py
@@ -91,7 +91,10 @@ class Collocation(QGenerator):
 
     @property
     def hCoeffs(self)->np.ndarray:
-        return self.approx.getInterpolationMatrix([1]).ravel()
+        return self.approx.getInterpolationMatrix([self.tRight]).ravel()
+
+    @property
+    def rightIsNode(self)->bool: return self.nodes[-1] == self.tRight
 
     @property
     def order(self)->int:
-- 
2.43.0


From b6aef4a664ad6fb36f924bf9972f36df619cbc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:06 +0000
Subject: [PATCH 09/19] fix: use tLeft as left bound in BEPAR, TRAPAR and SOE

---
 qmat/qdelta/timestepping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 5b64d15..7c38018 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -118,7 +118,7 @@ class BEPAR(TimeStepping):
     aliases = ["IEpar"]
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes) - self.tLeft
+        return np.diag(self.nodes - self.tLeft)
 
 
 @register
@@ -126,11 +126,11 @@ class TRAPAR(TimeStepping):
     """Approximation based on parallel Trapezoidal Rule from zero to nodes"""
 
     def computeQDelta(self, k=None):
-        return np.diag(self.nodes/2) - self.tLeft
+        return np.diag((self.nodes - self.tLeft)/2)
 
     @property
     def dTau(self)->np.ndarray:
-        return self.nodes/2.0 - self.tLeft
+        return (self.nodes - self.tLeft)/2.0
 
 
 @register
@@ -141,7 +141,7 @@ class SOE(TimeStepping):
 
     def computeQDelta(self, k=None):
         QDelta, M = self.zeros, self.nodes.size
-        times = [0] + self.nodes.tolist()
+        times = [self.tLeft] + self.nodes.tolist()
         alpha = [
             LagrangeApproximation(times[i:i+3]).getDerivativeMatrix()[1]
             for i in range(M-1)
-- 
2.43.0


From 1b349d471e1998979629baa4cbf2d5edc4d37eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:42 +0000
Subject: [PATCH 10/19] fix: extract tLeft from qGen for time-stepping based
 QDelta

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index 7c38018..b94769b 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -58,7 +58,7 @@ class TimeStepping(QDeltaGenerator):
         required to instantiate the :math:`Q_\Delta`-generator
         """
         assert isinstance(qGen, QGenerator), "qGen parameter must be a QGenerator object"
-        return {"nodes": qGen.nodes}
+        return {"nodes": qGen.nodes, "tLeft": getattr(qGen, "tLeft", 0)}
 
     @property
     def size(self)->int:
-- 
2.43.0


From fc891b5e458742fd193e4021e2668cbf172f5bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:17 +0000
Subject: [PATCH 11/19] fix: convert nodes to float in time-stepping based
 QDelta

---
 qmat/qdelta/timestepping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/timestepping.py b/qmat/qdelta/timestepping.py
index b94769b..8d46d54 100644
--- a/qmat/qdelta/timestepping.py
+++ b/qmat/qdelta/timestepping.py
@@ -37,7 +37,7 @@ class TimeStepping(QDeltaGenerator):
         Additional parameters given in a generic call, ignored by this class.
     """
     def __init__(self, nodes, tLeft=0, **kwargs):
-        nodes = np.asarray(nodes)
+        nodes = np.asarray(nodes, dtype=float)
         deltas = nodes.copy()
         deltas[0] = nodes[0] - tLeft
         deltas[1:] = np.ediff1d(nodes)
-- 
2.43.0


From f3a3dc8c7aa96aa0028da803c296f91ed95b7e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:53 +0000
Subject: [PATCH 12/19] fix: pad embedded weights together with the Butcher
 table

---
 qmat/qcoeff/butcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 9d46bdb..2a1f592 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -51,6 +51,8 @@ class RK(QGenerator):
             if padding in ["LEFT", "BOTH"]:
                 self.c = np.array([0] + self.c.tolist())
                 self.b = np.array([0] + self.b.tolist())
+                if self.b2 is not None:
+                    self.b2 = np.array([0] + self.b2.tolist())
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[1:, 1:] = self.A
@@ -59,6 +61,8 @@ class RK(QGenerator):
             if padding in ["RIGHT", "BOTH"]:
                 self.c = np.array(self.c.tolist() + [1])
                 self.b = np.array(self.b.tolist() + [0])
+                if self.b2 is not None:
+                    self.b2 = np.array(self.b2.tolist() + [0])
 
                 newA = np.zeros((self.nNodes, self.nNodes))
                 newA[:-1, :-1] = self.A
-- 
2.43.0


From 548bdceb24dc4c1d38719bf5cc21bd181d11f351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:30 +0000
Subject: [PATCH 13/19] fix: do not share Butcher table arrays between RK
 instances

---
 qmat/qcoeff/butcher.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qmat/qcoeff/butcher.py b/qmat/qcoeff/butcher.py
index 2a1f592..a0b1d67 100644
--- a/qmat/qcoeff/butcher.py
+++ b/qmat/qcoeff/butcher.py
@@ -45,6 +45,11 @@ class RK(QGenerator):
     """:math:`b_2` coefficients for the embedded methods"""
 
     def __init__(self, padding=None):
+        # Instance copies, such that class coefficients can never be modified
+        self.A, self.b, self.c = self.A.copy(), self.b.copy(), self.c.copy()
+        if self.b2 is not None:
+            self.b2 = self.b2.copy()
+
         if padding:
             assert padding in ["LEFT", "RIGHT", "BOTH"], "padding choices can only be LEFT, RIGHT or BOTH"
 
-- 
2.43.0


From a07d20c1b4b17238ca3ef323ba4ca5bc2fabd4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:04 +0000
Subject: [PATCH 14/19] fix: return a copy of the stored QDelta in genCoeffs

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 6aebf15..f2c03be 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -196,7 +196,7 @@ class QDeltaGenerator(object):
             If `dTau=True`, returns a tuple `(QDelta, dTau)`.
         """
         if form == "Z2N":
-            gen = lambda k, copy=False: self.getQDelta(k, copy)
+            gen = lambda k, copy=True: self.getQDelta(k, copy)
         elif form == "N2N":
             gen = lambda k, copy=None: self.getSDelta(k)
         else:
-- 
2.43.0


From 7da16b90b077e8400eb053d6e4c97a80f16d6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:36 +0000
Subject: [PATCH 15/19] fix: do not modify the qDeltaType list given to
 genQDeltaCoeffs

---
 qmat/qdelta/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index f2c03be..7114cf7 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -274,7 +274,7 @@ def genQDeltaCoeffs(qDeltaType, nSweeps=None, form="Z2N", dTau=False, **params):
             # complete with additional sweeps
             assert nSweeps >= len(qDeltaType), \
                 f"nSweeps ({nSweeps}) is lower than list length for qDeltaType ({qDeltaType})"
-            qDeltaType += [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
+            qDeltaType = qDeltaType + [qDeltaType[-1]]*(nSweeps-len(qDeltaType))
         else:
             raise ValueError(f"bad value of nSweep {nSweeps}")
     else:
-- 
2.43.0


From c0262940469c3655bf21153605cd3791f6fe15e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:38 +0000
Subject: [PATCH 16/19] fix: avoid underflow for Radau and Lobatto nodes with
 many nodes

---
 qmat/nodes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qmat/nodes.py b/qmat/nodes.py
index ccb5810..43a6271 100644
--- a/qmat/nodes.py
+++ b/qmat/nodes.py
@@ -209,13 +209,14 @@ class NodesGenerator(object):
         alpha, beta = self.getOrthogPolyCoefficients(nNodes)
 
         # If not Gauss quadrature type, modify the alpha/beta coefficients
+        # -- evaluated polynomials are scaled by 2**degree (exact) to avoid underflow
         if self.quadType.startswith('RADAU'):
             b = -1.0 if self.quadType.endswith('LEFT') else 1.0
-            b1, b2 = self.evalOrthogPoly(b, alpha[:-1], beta[:-1])[:2]
-            alpha[-1] = b - beta[-1] * b1 / b2
+            b1, b2 = self.evalOrthogPoly(2*b, 2*alpha[:-1], 4*beta[:-1])[:2]
+            alpha[-1] = b - beta[-1] * 2*b1 / b2
         elif self.quadType == 'LOBATTO':
             a, b = -1.0, 1.0
-            a2, a1 = self.evalOrthogPoly(a, alpha[:-1], beta[:-1])[:2]
-            b2, b1 = self.evalOrthogPoly(b, alpha[:-1], beta[:-1])[:2]
-            alpha[-1], beta[-1] = np.linalg.solve([[a1, a2], [b1, b2]], [a * a1, b * b1])
+            a2, a1 = self.evalOrthogPoly(2*a, 2*alpha[:-1], 4*beta[:-1])[:2]
+            b2, b1 = self.evalOrthogPoly(2*b, 2*alpha[:-1], 4*beta[:-1])[:2]
+            alpha[-1], beta[-1] = np.linalg.solve([[a1, 2*a2], [b1, 2*b2]], [a * a1, b * b1])
         return alpha, beta
-- 
2.43.0


From fdd6f1a39f696b52365689273a57d012fc9f2dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:54 +0000
Subject: [PATCH 17/19] fix: return copies of the coefficients in
 QGenerator.genCoeffs

---
 qmat/qcoeff/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qmat/qcoeff/__init__.py b/qmat/qcoeff/__init__.py
index dc58760..628500e 100644
--- a/qmat/qcoeff/__init__.py
+++ b/qmat/qcoeff/__init__.py
@@ -117,7 +117,7 @@ class QGenerator(object):
             mat = self.S
         else:
             raise ValueError(f"form must be Z2N or N2N, not {form}")
-        out = [self.nodes, self.weights, mat]
+        out = [self.nodes.copy(), self.weights.copy(), mat.copy()]
         if embedded:
             out[1] = np.vstack([out[1], self.weightsEmbedded])
         if hCoeffs:
-- 
2.43.0


From 60917c8b8ca259779a6772c21f484a3862aa3b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:58 +0000
Subject: [PATCH 18/19] fix: do not inherit the sweep dependence of a QDelta
 parent class

---
 qmat/qdelta/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qmat/qdelta/__init__.py b/qmat/qdelta/__init__.py
index 7114cf7..8091e83 100644
--- a/qmat/qdelta/__init__.py
+++ b/qmat/qdelta/__init__.py
@@ -222,8 +222,7 @@ def register(cls: type[T]) -> type[T]:
         sig = inspect.signature(cls.computeQDelta)
         par = sig.parameters["k"]
         assert par.kind == par.POSITIONAL_OR_KEYWORD
-        if par.default is not None:
-            cls._K_DEPENDENT = True
+        cls._K_DEPENDENT = par.default is not None
     except (KeyError, AssertionError):
         raise AssertionError(f"{cls.__name__} class does not properly override the computeQDelta method")
     cls.__init__ = useQGen(cls.__init__)
-- 
2.43.0


From ee6db28abbcb3e2b989505262481f6478aa43997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:05 +0000
Subject: [PATCH 19/19] fix: avoid integer overflow in getExtrapolationMatrix

---
 qmat/utils/num.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qmat/utils/num.py b/qmat/utils/num.py
index bbc6a94..4106397 100644
--- a/qmat/utils/num.py
+++ b/qmat/utils/num.py
@@ -106,6 +106,7 @@ def getExtrapolationMatrix(nodes, times, pOrder=None):
     P : np.2darray, shape (N, M)
         Extrapolation matrix, that can be used on any node values.
     """
+    nodes, times = np.asarray(nodes, dtype=float), np.asarray(times, dtype=float)
     if pOrder is None: pOrder = np.size(nodes)-1
     X = np.vander(nodes, N=pOrder+1, increasing=True)
     T = np.vander(times, N=pOrder+1, increasing=True)
-- 
2.43.0

