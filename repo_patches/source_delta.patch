From 16ea47539ab7bc73a8b15a107a0513864d623c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:17 +0000
Subject: [PATCH 001/211] fix: insert_knot on a rational curve keeps the curve
 unchanged

The control points are stored as (x, y, z, w) but were fed to the knot insertion as if they were homogeneous.
---
 mmcore/geom/nurbs.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 41829f1..6c90fd7 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1723,6 +1723,12 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int n = self._control_points.shape[0]
         cdef int new_count = n + count
         cdef double[:,:] cpts = self._control_points.copy()
+        cdef int i, j
+
+        # The algorithm is affine in homogeneous coordinates, the curve stores (x, y, z, w)
+        for i in range(n):
+            for j in range(3):
+                cpts[i, j] *= cpts[i, 3]
 
         # Find knot span
         cdef int span = find_span_inline(n-1, self._degree, t, self._knots,0)
@@ -1740,6 +1746,10 @@ cdef class NURBSCurve(ParametricCurve):
                                               t,
                                                 count, s_u, span,0,self._control_points  )
 
+        for i in range(new_count):
+            for j in range(3):
+                self._control_points[i, j] /= self._control_points[i, 3]
+
         # Update curve
 
         self._knots=k_v
-- 
2.43.0


From 5fa31c6262b74f3f515ca98c84eb16a2a06a0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:17 +0000
Subject: [PATCH 002/211] fix: insert_knot refreshes the Greville abscissae

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 6c90fd7..c6dab1f 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1753,7 +1753,7 @@ cdef class NURBSCurve(ParametricCurve):
         # Update curve
 
         self._knots=k_v
-        self._update_interval()
+        self.knots_update_hook()
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 74e6b9e8137ef9e3381f4aa88fe68b3d13343053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:17 +0000
Subject: [PATCH 003/211] fix: point_distance measures the distance between the
 points

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c6dab1f..964d6e8 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -573,7 +573,7 @@ cdef inline double point_distance(double* a, double* b ,int dim) noexcept nogil:
     cdef double temp=0.
     for i in range(dim):
 
-        temp+= pow(a[i]+b[i], 2)
+        temp+= pow(a[i]-b[i], 2)
 
     return sqrt(temp)
 
-- 
2.43.0


From 527d9dc15224d6733cecdeb91fb143af7ddf66fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:42 +0000
Subject: [PATCH 004/211] fix: knot_removal shifts the updated control points

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 964d6e8..2666374 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -653,7 +653,7 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
         else:
             j -= 1
     for k in range(i + 1, n):
-        memcpy(&ctrlpts_new[j, 0], &ctrlpts[k, 0], sizeof(double) * dim)
+        memcpy(&ctrlpts_new[j, 0], &ctrlpts_new[k, 0], sizeof(double) * dim)
         j += 1
 
     free(temp)
-- 
2.43.0


From e997c2382799215cbbd632ed2ce548419d4dd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 005/211] fix: derivative_control_points passes three-column
 control points

The result table has three columns, so every call raised ValueError.
---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 2666374..0d278d8 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1688,7 +1688,7 @@ cdef class NURBSCurve(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef cnp.ndarray[double, ndim=3] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return PK
     @cython.cdivision(True)
-- 
2.43.0


From fd94f81b632c2a8b7519beba6ac4b4fcbf97b8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 006/211] fix: surface_derivatives finds the last span at the
 end of the domain

find_span takes the index of the last control point; with the count, control points
behind the net were read at the end of the domain.
---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 0d278d8..b52f8cd 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -977,7 +977,7 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
     cdef int basisdrv_size_u, basisdrv_size_v
 
     # Allocate memory and compute basis function derivatives for u and v directions
-    span[0] = find_span_inline(size[0], degree[0], u, knots_u, 0)
+    span[0] = find_span_inline(size[0] - 1, degree[0], u, knots_u, 0)
     basisdrv_size_u = (d[0] + 1) * (degree[0] + 1)
     basisdrv_u = <double*>malloc(basisdrv_size_u * sizeof(double))
     with gil:
@@ -985,7 +985,7 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
 
         ders_basis_funs(span[0], u, degree[0], d[0], knots_u, mbasisdrv_u)
 
-    span[1] = find_span_inline(size[1], degree[1], v, knots_v, 0)
+    span[1] = find_span_inline(size[1] - 1, degree[1], v, knots_v, 0)
     basisdrv_size_v = (d[1] + 1) * (degree[1] + 1)
     basisdrv_v = <double*>malloc(basisdrv_size_v * sizeof(double))
     with gil:
-- 
2.43.0


From d6a28d1fb9a477b7c3888cfe2e4403a6545eeba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 007/211] fix: numerical surface derivatives use the surface's
 own domain

The central/one-sided choice assumed the domain [0, 1].
---
 mmcore/geom/parametric.pyx | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 28805f1..8583c25 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -322,13 +322,13 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void cderivative_u(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= u >= DEFAULT_H:
+        if (self._interval[0][1] - DEFAULT_H) >= u >= (self._interval[0][0] + DEFAULT_H):
             self.cevaluate(u + DEFAULT_H, v, dd)
             self.cevaluate(u- DEFAULT_H , v, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif u < DEFAULT_H:
+        elif u < (self._interval[0][0] + DEFAULT_H):
 
 
             self.cevaluate(u + DEFAULT_H, v, dd)
@@ -348,13 +348,13 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void cderivative_v(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
+        if (self._interval[1][1] - DEFAULT_H) >= v >= (self._interval[1][0] + DEFAULT_H):
             self.cevaluate(u , v+ DEFAULT_H, dd)
             self.cevaluate(u , v- DEFAULT_H, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif v< DEFAULT_H:
+        elif v < (self._interval[1][0] + DEFAULT_H):
 
 
             self.cevaluate(u , v+ DEFAULT_H, dd)
@@ -375,13 +375,13 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void csecond_derivative_uu(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= u >= DEFAULT_H:
+        if (self._interval[0][1] - DEFAULT_H) >= u >= (self._interval[0][0] + DEFAULT_H):
             self.cderivative_u(u + DEFAULT_H, v, dd)
             self.cderivative_u(u- DEFAULT_H , v, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif u < DEFAULT_H:
+        elif u < (self._interval[0][0] + DEFAULT_H):
 
 
             self.cderivative_u(u + DEFAULT_H, v, dd)
@@ -401,13 +401,13 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void csecond_derivative_vv(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
+        if (self._interval[1][1] - DEFAULT_H) >= v >= (self._interval[1][0] + DEFAULT_H):
             self.cderivative_v(u , v+ DEFAULT_H, dd)
             self.cderivative_v(u , v- DEFAULT_H, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif v< DEFAULT_H:
+        elif v < (self._interval[1][0] + DEFAULT_H):
 
 
             self.cderivative_v(u , v+ DEFAULT_H, dd)
@@ -428,13 +428,13 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void csecond_derivative_uv(self, double u, double v,double[:] result):
         cdef double[:] dd=np.empty((3,))
-        if (1. - DEFAULT_H) >= v >= DEFAULT_H:
+        if (self._interval[1][1] - DEFAULT_H) >= v >= (self._interval[1][0] + DEFAULT_H):
             self.cderivative_u(u , v+ DEFAULT_H, dd)
             self.cderivative_u(u , v- DEFAULT_H, result)
             sub3d(dd,result,result)
             vectors.scalar_div3d(result,2*DEFAULT_H,result)
 
-        elif v< DEFAULT_H:
+        elif v < (self._interval[1][0] + DEFAULT_H):
 
 
             self.cderivative_u(u , v+ DEFAULT_H, dd)
-- 
2.43.0


From d7579b9ec01d7894e4eb5682c3626d4969f2662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:42 +0000
Subject: [PATCH 008/211] fix: derivatives of a rational curve take the weights
 into account

---
 mmcore/geom/nurbs.pyx | 44 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index b52f8cd..91a7da3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -458,6 +458,44 @@ cpdef void curve_derivs_alg2(int n, int p, double[:] U, double[:, :] P, double u
             for i in range(P.shape[1]):
                 CK[k, i] += bfuns[j, degree - k] * PK[k, j, i]
 
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef bint is_rational(double[:, :] P) noexcept:
+    cdef int i
+    for i in range(P.shape[0]):
+        if P[i, 3] != 1.:
+            return True
+    return False
+
+
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef void rational_curve_derivs(int n, int p, double[:] U, double[:, :] P, double u, double[:, :] CK, bint is_periodic):
+    """
+    Derivatives of a rational curve with control points (x, y, z, w), one order for every row of CK
+    (The NURBS Book, algorithm A4.2).
+    """
+    cdef int rows = CK.shape[0]
+    cdef double[:, :] Pw = P.copy()
+    cdef double[:, :] CKw = np.zeros((rows, 4))
+    cdef int i, j, k
+    cdef double tmp
+    for i in range(P.shape[0]):
+        for j in range(3):
+            Pw[i, j] *= P[i, 3]
+    curve_derivs_alg1(n, p, U, Pw, u, rows - 1, CKw, is_periodic)
+    for k in range(rows):
+        for j in range(3):
+            tmp = CKw[k, j]
+            for i in range(1, k + 1):
+                tmp -= binomial_coefficient(k, i) * CKw[i, 3] * CK[k - i, j]
+            CK[k, j] = tmp / CKw[0, 3]
+
+
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 @cython.boundscheck(False)
@@ -1582,6 +1620,9 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+        if is_rational(self._control_points):
+            rational_curve_derivs(n, self._degree, self._knots, self._control_points, t, CK, self._periodic)
+            return
         curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
 
     @cython.cdivision(True)
@@ -1600,6 +1641,9 @@ cdef class NURBSCurve(ParametricCurve):
            cdef int i
            #cdef double[:, :]  CK = np.zeros((du + 1, 4))
            #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+           if is_rational(self._control_points):
+               rational_curve_derivs(n, self._degree, self._knots, self._control_points, t, CK, self._periodic)
+               return
            cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
 
            curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
-- 
2.43.0


From 021e3f8baf26e21d74dafef9110911e6cf36091e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 009/211] fix: find_span terminates for parameters before the
 first full span

For unclamped knots and U[0] <= u < U[p] the binary search never left its loop.
---
 mmcore/geom/nurbs.pxd | 2 +-
 mmcore/geom/nurbs.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index eebc350..a9a6d25 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -233,7 +233,7 @@ cdef inline int find_span_inline(int n, int p, double u, double[:] U, bint is_pe
 
             return n
 
-        elif u < U[0]:
+        elif u < U[p]:
 
             return p
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 91a7da3..d922326 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -142,7 +142,7 @@ cpdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexc
 
             return n
 
-        elif u < U[0]:
+        elif u < U[p]:
 
             return p
 
-- 
2.43.0


From 485036cc718d0a7ae2ebff69cd7d36ca3e1ab9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:44 +0000
Subject: [PATCH 010/211] fix: knot_refinement with density above one uses the
 number of distinct knots

The loop ran over the length before duplicates were dropped and read past the array.
---
 mmcore/geom/nurbs.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index d922326..de0f8f5 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -721,6 +721,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
     cdef double* sorted_knots=uniqueSorted(&knot_list[0],usz, &new_knot_len )
 
     knot_list = <double[:new_knot_len]>sorted_knots
+    usz = new_knot_len
 
 
     cdef double[:] rknots
@@ -734,7 +735,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
             rknots[2 * i] = knot_list[i]
             rknots[2 * i + 1] = knot_list[i] + (knot_list[i + 1] - knot_list[i]) / 2.0
 
-        rknots[rknots_size-1] = knot_list[new_knot_len-1]
+        rknots[rknots_size-1] = knot_list[usz-1]
         knot_list = rknots
         usz = rknots_size
     cdef double[:] X = np.zeros(knot_list.shape[0] * degree, dtype=np.float64)
-- 
2.43.0


From c007fa3f9bca32b759c5462102908766f22e3219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:34 +0000
Subject: [PATCH 011/211] fix: reverse_curve reads the knots from the back

Negative indices are not wrapped in this module, so the loop read in front of the array.
---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index de0f8f5..a37456a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2114,7 +2114,7 @@ def reverse_curve(curve: NURBSCurve) -> NURBSCurve:
     cdef double b = curve._knots[curve._knots.shape[0]-1]
     cdef int i
     for i in range(len(curve._knots)):
-        new_knots[i] = a + b - curve._knots[-(i+1)]
+        new_knots[i] = a + b - curve._knots[curve._knots.shape[0] - 1 - i]
 
     return NURBSCurve.create(new_cpts, curve._degree, new_knots, curve._periodic)
 
-- 
2.43.0


From 4b37c2a06c707e4172c280485fe73ba7f753f669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:34 +0000
Subject: [PATCH 012/211] fix: flip keeps the knots in increasing order

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index a37456a..1793335 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2086,7 +2086,7 @@ cdef class NURBSCurve(ParametricCurve):
         return curve
 
     def flip(self):
-        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.max(self.knots)-self.knots+np.min(self.knots))
+        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.flip(np.max(self.knots)-self.knots+np.min(self.knots)).copy())
 
 
 
-- 
2.43.0


From 2c06eca8e228ae15c079abfc600adcea354341e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:34 +0000
Subject: [PATCH 013/211] fix: trim returns the piece of the curve between the
 two parameters

The span search was given the number of knots instead of the last control point index
and read past the knots; the slices kept control points and knots beyond the piece.
---
 mmcore/geom/nurbs.pyx | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 1793335..33e1bd0 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2062,26 +2062,28 @@ cdef class NURBSCurve(ParametricCurve):
         curve.multiply_knot( t2)
 
         # Find spans corresponding to trim points
-        cdef bint per=curve.is_periodic()
-        cdef int span1 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t1, curve._knots, per)
-        cdef int span2 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t2, curve._knots, per)
-
-        # Extract relevant control points and knots
-        cdef double[:,:] new_cpts = curve._control_points[span1 - curve._degree:span2 + 1]
-        cdef double[:]        new_knots = curve._knots[span1:span2 + curve._degree + 2]
-
-        # Shift knot vector to start at 0
-        cdef double shift = new_knots[0]
+        cdef int degree = curve._degree
+        cdef int n = curve._control_points.shape[0]
+        cdef int span1 = find_span_inline(n - 1, degree, t1, curve._knots, 0)
+        cdef int span2 = find_span_inline(n - 1, degree, t2, curve._knots, 0)
+        if t2 >= curve._knots[n]:
+            span2 = n + degree - 1
+
+        # Extract relevant control points and knots, both ends are interpolated and the knots start at 0
+        cdef int count = span2 - span1 + 1
+        cdef double[:,:] new_cpts = curve._control_points[span1 - degree:span2 - degree + 1].copy()
+        cdef double[:] new_knots = np.zeros(count + degree + 1)
         cdef int i
-        for i in range(new_knots.shape[0]):
-            new_knots[i]-=shift
-
+        for i in range(degree + 1, count):
+            new_knots[i] = curve._knots[span1 - degree + i] - t1
+        for i in range(count, count + degree + 1):
+            new_knots[i] = t2 - t1
 
         # Update curve data
         curve._control_points = new_cpts
         curve._knots = new_knots
-        curve._interval[0] = new_knots[0]
-        curve._interval[1] = new_knots[new_knots.shape[0]-1]
+        curve._periodic = False
+        curve.knots_update_hook()
 
         return curve
 
-- 
2.43.0


From c0b8724421c6671f458a9b1eeda0d86992d9e181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 014/211] fix: a copied curve evaluates itself

The evaluation cache of the copy was bound to the original.
---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 33e1bd0..733b973 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1847,7 +1847,7 @@ cdef class NURBSCurve(ParametricCurve):
     def copy(self):
         cdef NURBSCurve crv = self.ccopy()
 
-        crv._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
+        crv._evaluate_cached = functools.lru_cache(maxsize=None)(crv._evaluate)
         return crv
 
     @cython.boundscheck(False)
-- 
2.43.0


From 6343e433e0310bdf5d7de8da4f6b4af6c2ee0bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 015/211] fix: evaluate returns an array of its own

The cached array was handed out, so writing to a returned point changed later evaluations.
---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 733b973..144143b 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1580,7 +1580,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        return self._evaluate_cached(t).copy()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From 94bc0a952a8a3427768f38894953c372fcbf3b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 016/211] fix: NURBSCurve.set updates the domain and keeps its
 own arrays

---
 mmcore/geom/nurbs.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 144143b..9c40b78 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1536,8 +1536,9 @@ cdef class NURBSCurve(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
-        self._control_points=control_points
-        self._knots=knots
+        self._control_points=control_points.copy()
+        self._knots=knots.copy()
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
-- 
2.43.0


From 055da84fe7c54189fba0be1d83f2f18a1ecad806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 017/211] fix: curves and surfaces keep their own knot vectors

The caller's array was stored: normalizing one curve changed every curve built from the
same array, and copying a strided one read memory outside it.
---
 mmcore/geom/nurbs.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 9c40b78..2104c49 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1173,7 +1173,7 @@ cdef class NURBSCurve(ParametricCurve):
         if knots is None:
             self.generate_knots()
         else:
-            self._knots = knots
+            self._knots = knots.copy()
             self.knots_update_hook()
 
         if periodic:
@@ -1203,7 +1203,7 @@ cdef class NURBSCurve(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=knots.copy()
             self.knots_update_hook()
 
         if  periodic:
@@ -1343,7 +1343,7 @@ cdef class NURBSCurve(ParametricCurve):
     @knots.setter
     def knots(self, double[:] v):
 
-        self._knots=v
+        self._knots=v.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
@@ -2339,11 +2339,11 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=knots_u.copy()
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=knots_v.copy()
         self._update_interval()
         return self
     def __init__(self, double[:,:,:] control_points, tuple degree, double[:] knots_u=None, double[:] knots_v=None ):
@@ -2375,18 +2375,18 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=knots_u.copy()
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=knots_v.copy()
         self._update_interval()
     @property
     def knots_u(self):
         return np.array(self._knots_u)
     @knots_u.setter
     def knots_u(self,val):
-        self._knots_u=val
+        self._knots_u=np.array(val,dtype=float)
         self._update_interval()
 
     @property
@@ -2434,7 +2434,7 @@ cdef class NURBSSurface(ParametricSurface):
 
     @knots_v.setter
     def knots_v(self,val):
-        self._knots_v=val
+        self._knots_v=np.array(val,dtype=float)
         self._update_interval()
     @property
     def degree(self):
-- 
2.43.0


From 9305e75181b353ecd0e3dbbea935ccbf04e799c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:32 +0000
Subject: [PATCH 018/211] fix: setting the degree of a surface updates its
 domain

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 2104c49..95bd14b 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2446,6 +2446,7 @@ cdef class NURBSSurface(ParametricSurface):
         self._degree[1]=val[1]
         self.generate_knots_u()
         self.generate_knots_v()
+        self._update_interval()
 
 
     @cython.boundscheck(False)
-- 
2.43.0


From 39874d215f132d7e23cc15a1f3f5c8ce50c54559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:15 +0000
Subject: [PATCH 019/211] fix: serialize writes no uninitialised trailing bytes

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 95bd14b..e64f6f2 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1861,7 +1861,7 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Calculate total size of the byte array
         cdef size_t total_size = (
-            sizeof(MAGIC_BYTES) +
+            MAGIC_BYTES_SIZE +
             sizeof(uint32_t) + # Magic bytes and version
             sizeof(uint32_t) +  # degree
             sizeof(bint) +  # periodic flag
-- 
2.43.0


From 2a82adba2da57c78062a93a24f626d059e797997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:15 +0000
Subject: [PATCH 020/211] fix: deserialize rejects data that does not match its
 header

---
 mmcore/geom/nurbs.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e64f6f2..2749981 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1947,6 +1947,10 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.wraparound(False)
     @cython.nonecheck(False)
     cdef NURBSCurve cdeserialize(const unsigned char[:] data):
+        cdef Py_ssize_t size = data.shape[0]
+        cdef Py_ssize_t header_size = MAGIC_BYTES_SIZE + 5 * sizeof(uint32_t)
+        if size < header_size:
+            raise ValueError("The data is too short")
         cdef const char* buffer = <const char*>&data[0]
         cdef const char* current = buffer
         cdef int vers
@@ -1971,6 +1975,12 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int n_knots = (<uint32_t*>current)[0]
         current += sizeof(uint32_t)
 
+        # The counts must agree with each other and with the size of the data
+        if degree < 1 or n_ctrlpts <= degree or <Py_ssize_t>n_knots != <Py_ssize_t>n_ctrlpts + degree + 1:
+            raise ValueError("Invalid degree, number of control points or number of knots")
+        if size != header_size + (<Py_ssize_t>n_ctrlpts * 4 + n_knots) * <Py_ssize_t>sizeof(double):
+            raise ValueError("The size of the data does not match its header")
+
         # Allocate memory for control points and knots
         cdef double* control_points_data = <double*>malloc(n_ctrlpts * 4 * sizeof(double))
         cdef double* knots_data = <double*>malloc(n_knots * sizeof(double))
-- 
2.43.0


From 17afb3c41c661ed4f052fbf3f488cc5b46604538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 021/211] fix: the control points of a curve can be assigned

An array assigned to a memoryview slice from an untyped variable is converted to a scalar, so every
assignment raised TypeError.
---
 mmcore/geom/nurbs.pyx | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 2749981..c011cf0 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1325,12 +1325,9 @@ cdef class NURBSCurve(ParametricCurve):
                              "If you know what you are doing, assign control points directly by setting the _control_points attribute value. "
                              "However, you will have to clear caches, update the knots and possibly the periodicity.")
 
-        self._control_points = np.ones((control_points.shape[0],4))
-        if control_points.shape[1]==4:
-                self._control_points[:]=control_points
-        else:
-
-                self._control_points[:, :control_points.shape[1]] = control_points
+        new_control_points = np.ones((control_points.shape[0],4))
+        new_control_points[:, :control_points.shape[1]] = control_points
+        self._control_points = new_control_points
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From a750d5f055458d9cd08574aa6e7ad596c0acf161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 022/211] fix: inserting a knot beyond the degree or outside
 the domain is an error

Both corrupted the curve or surface silently, the first reading in front of a heap block.
---
 mmcore/geom/nurbs.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c011cf0..75b33b0 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1777,6 +1777,8 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int span = find_span_inline(n-1, self._degree, t, self._knots,0)
         cdef double[:] k_v = knot_insertion_kv(self._knots, t, span, count)
         cdef int s_u = find_multiplicity(t, self._knots, 1e-12)
+        if count < 0 or (count > 0 and s_u + count > self._degree) or t < self._knots[self._degree] or t > self._knots[n]:
+            raise ValueError(f"The knot {t} of multiplicity {s_u} can not be inserted {count} times")
         # Compute new knot vector
         self._control_points=np.empty((new_count,4))
 
@@ -2675,6 +2677,8 @@ cdef class NURBSSurface(ParametricSurface):
         # Compute new knot vector
         cdef double[:] k_v = knot_insertion_kv(self._knots_u, t, span, count)
         cdef int s_u = find_multiplicity(t, self._knots_u,1e-12)
+        if count < 0 or (count > 0 and s_u + count > self._degree[0]) or t < self._knots_u[self._degree[0]] or t > self._knots_u[self._size[0]]:
+            raise ValueError(f"The knot {t} of multiplicity {s_u} can not be inserted {count} times")
 
         self._control_points_arr= <double*> realloc(self._control_points_arr, new_count_u*new_count_v*4*sizeof(double))
 
@@ -2736,6 +2740,8 @@ cdef class NURBSSurface(ParametricSurface):
         # Compute new knot vector
         cdef double[:] k_v = knot_insertion_kv(self._knots_v, t, span, count)
         cdef int s_v = find_multiplicity(t, self._knots_v,1e-12)
+        if count < 0 or (count > 0 and s_v + count > self._degree[1]) or t < self._knots_v[self._degree[1]] or t > self._knots_v[self._size[1]]:
+            raise ValueError(f"The knot {t} of multiplicity {s_v} can not be inserted {count} times")
 
         self._control_points_arr= <double*> realloc(self._control_points_arr, new_count_u*new_count_v*4*sizeof(double))
 
-- 
2.43.0


From 950466811d4f823c060f1378189afeb2c8fa7b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 023/211] fix: knot_removal removes every further copy from the
 updated control points

---
 mmcore/geom/nurbs.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 75b33b0..f58b26d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -641,8 +641,8 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
     cdef double[:] ptn = np.zeros(dim, dtype=np.float64)
 
     for t in range(num):
-        memcpy(&temp[0], &ctrlpts[first - 1, 0], sizeof(double) * dim)
-        memcpy(&temp[(last - first + 2) * dim], &ctrlpts[last + 1, 0], sizeof(double) * dim)
+        memcpy(&temp[0], &ctrlpts_new[first - 1, 0], sizeof(double) * dim)
+        memcpy(&temp[(last - first + 2) * dim], &ctrlpts_new[last + 1, 0], sizeof(double) * dim)
         i = first
         j = last
         ii = 1
@@ -653,8 +653,8 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             alpha_j = knot_removal_alpha_j(u, degree, knotvector, t, j)
             for k in range(dim):
-                temp[ii * dim + k] = (ctrlpts[i, k] - (1.0 - alpha_i) * temp[(ii - 1) * dim + k]) / alpha_i
-                temp[jj * dim + k] = (ctrlpts[j, k] - alpha_j * temp[(jj + 1) * dim + k]) / (1.0 - alpha_j)
+                temp[ii * dim + k] = (ctrlpts_new[i, k] - (1.0 - alpha_i) * temp[(ii - 1) * dim + k]) / alpha_i
+                temp[jj * dim + k] = (ctrlpts_new[j, k] - alpha_j * temp[(jj + 1) * dim + k]) / (1.0 - alpha_j)
             i += 1
             j -= 1
             ii += 1
@@ -667,7 +667,7 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             for k in range(dim):
                 ptn[k] = (alpha_i * temp[(ii + t + 1) * dim + k]) + ((1.0 - alpha_i) * temp[(ii - 1) * dim + k])
-            if point_distance(&ctrlpts[i, 0], &ptn[0], dim) <= tol:
+            if point_distance(&ctrlpts_new[i, 0], &ptn[0], dim) <= tol:
                 remflag = True
 
         if remflag:
-- 
2.43.0


From 379af6beb595c0a138dabb506ae59e41dd86d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 024/211] fix: arrays handed out by a surface own their memory

The views of the control points and of the degree dangled once the surface was refined or deleted.
---
 mmcore/geom/nurbs.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f58b26d..c38fe63 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2433,13 +2433,13 @@ cdef class NURBSSurface(ParametricSurface):
     @property
     def control_points_flat_w(self):
 
-        return self.control_points_flat_view
+        return self.control_points_flat_view.copy()
     @property
     def shape(self):
         return tuple(self._size)
     @property
     def control_points_w(self):
-        return self.control_points_view
+        return self.control_points_view.copy()
 
     @knots_v.setter
     def knots_v(self,val):
@@ -2448,7 +2448,7 @@ cdef class NURBSSurface(ParametricSurface):
     @property
     def degree(self):
         cdef int[:] dg=self._degree
-        return dg
+        return dg.copy()
     @degree.setter
     def degree(self, val):
         self._degree[0]=val[0]
-- 
2.43.0


From 3c7e23504fa6b4a6487caf8b0dd404c3387d0680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:38 +0000
Subject: [PATCH 025/211] fix: knot_removal compares the inner control points
 when removing several copies

The loop ran one step too far, so the comparison decided wrongly whether the next copy is removable.
---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c38fe63..3870944 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -649,7 +649,7 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
         jj = last - first + 1
         remflag = False
 
-        while j - i >= t:
+        while j - i > t:
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             alpha_j = knot_removal_alpha_j(u, degree, knotvector, t, j)
             for k in range(dim):
-- 
2.43.0


From e74882ea18118e6b5632ba1f8d627b72220c1434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 026/211] fix: surfaces can be hashed and compared

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 3870944..7b5793d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2633,7 +2633,7 @@ cdef class NURBSSurface(ParametricSurface):
     def geometry_hash(self, check_interval=False):
         cdef bytes ku = np.ascontiguousarray(self._knots_u).tobytes()
         cdef bytes kv = np.ascontiguousarray(self._knots_v).tobytes()
-        cdef bytes pts = np.ascontiguousarray(self._control_points).tobytes()
+        cdef bytes pts = np.ascontiguousarray(self.control_points_view).tobytes()
         cdef double u0 = self._interval[0][0]
         cdef double u1 = self._interval[0][1]
         cdef double v0 = self._interval[1][0]
@@ -2642,7 +2642,7 @@ cdef class NURBSSurface(ParametricSurface):
         if check_interval:
             itms = (self._degree[0], self._degree[1],ku,kv, pts, u0,u1,v0,v1)
         else:
-            itms = (self._degree[0], self._degree[1],self._degree, ku,kv, pts)
+            itms = (self._degree[0], self._degree[1], ku,kv, pts)
         return hash(itms)
     def __hash__(self):
         return self.geometry_hash(check_interval=True)
-- 
2.43.0


From f7e54cba66422956f1f0c8c123b3747e78948315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:17 +0000
Subject: [PATCH 027/211] fix: comparing a curve or surface with an object that
 has no hash is not an error

---
 mmcore/geom/nurbs.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 7b5793d..e18ca0a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1233,6 +1233,8 @@ cdef class NURBSCurve(ParametricCurve):
 
         return self.geometry_hash(check_interval=True)
     def __eq__(self, other):
+        if not isinstance(other, NURBSCurve):
+            return NotImplemented
         return self.__hash__()==other.__hash__()
 
     def __deepcopy__(self, memodict={}):
@@ -2648,6 +2650,8 @@ cdef class NURBSSurface(ParametricSurface):
         return self.geometry_hash(check_interval=True)
 
     def __eq__(self, other):
+        if not isinstance(other, NURBSSurface):
+            return NotImplemented
         return self.__hash__()==other.__hash__()
 
 
-- 
2.43.0


From ea3e9b8ffc93b9f5fee9447b366202f48b3903ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 028/211] fix: the domain of a periodic curve is one period

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e18ca0a..324649d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1407,8 +1407,8 @@ cdef class NURBSCurve(ParametricCurve):
         self.knots_update_hook()
 
     cdef _update_interval(self):
-        self._interval[0] =  self._knots[0]
-        self._interval[1] = self._knots[self._knots.shape[0]-1]
+        self._interval[0] =  self._knots[self._degree]
+        self._interval[1] = self._knots[self._knots.shape[0]-1-self._degree]
     cpdef double[:,:] generate_control_points_periodic(self, double[:,:] cpts):
         cdef int n = len(cpts)
         cdef int i
-- 
2.43.0


From bc3a4fa0d74989ef3de7b81a2f771d83f9ac7f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 029/211] fix: periodic curves repeat outside the domain

---
 mmcore/geom/nurbs.pxd | 22 +++++++++++++++-------
 mmcore/geom/nurbs.pyx | 12 +++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index a9a6d25..ad7475f 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -61,6 +61,18 @@ cdef inline void basis_funs(int i, double u, int p, double[:] U, double* N) noex
     free(right)
 
 
+cdef inline double wrap_parameter(double u_min, double u_max, double u) noexcept nogil:
+    """
+    Bring the parameter of a periodic curve into its domain [u_min, u_max].
+    """
+    cdef double period = u_max - u_min
+    while u < u_min:
+        u += period
+    while u > u_max:
+        u -= period
+    return u
+
+
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 @cython.boundscheck(False)
@@ -82,6 +94,8 @@ cdef inline void curve_point(int n, int p, double[:] U, double[:, :] P, double u
 
     cdef int pp = p + 1
     cdef int i, j
+    if is_periodic:
+        u = wrap_parameter(U[p], U[n+1], u)
     cdef int span = find_span_inline(n, p, u, U,is_periodic)
     cdef double* N = <double*>malloc(sizeof(double)*pp)
     cdef double sum_of_weights=0.
@@ -214,17 +228,11 @@ cdef inline int find_span_inline(int n, int p, double u, double[:] U, bint is_pe
     """
     cdef double U_min = U[p]
     cdef double U_max = U[n+1]
-    cdef double period
-
 
     if is_periodic :
         # Wrap u to be within the valid range for periodic and closed curves
 
-        period= U_max - U_min
-        while u < U_min:
-            u += period
-        while u > U_max:
-            u -= period
+        u = wrap_parameter(U_min, U_max, u)
 
     else:
         # Clamp u to be within the valid range for open curves
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 324649d..320cccc 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -123,17 +123,11 @@ cpdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexc
     """
     cdef double U_min = U[p]
     cdef double U_max = U[n+1]
-    cdef double period
-
 
     if is_periodic :
         # Wrap u to be within the valid range for periodic and closed curves
 
-        period= U_max - U_min
-        while u < U_min:
-            u += period
-        while u > U_max:
-            u -= period
+        u = wrap_parameter(U_min, U_max, u)
 
     else:
         # Clamp u to be within the valid range for open curves
@@ -364,6 +358,8 @@ cpdef void curve_derivs_alg1(int n, int p, double[:] U, double[:, :] P, double u
     cdef int du = min(d, p)
     #cdef double[:, :] CK = np.zeros((du + 1, P.shape[1]))
     cdef int pp=p+1
+    if is_periodic:
+        u = wrap_parameter(U[p], U[n+1], u)
     cdef int span = find_span_inline(n, p, u, U,is_periodic)
     cdef double[:, :] nders = ders_basis_funs(span, u, p, du, U)
 
@@ -445,6 +441,8 @@ cpdef void curve_derivs_alg2(int n, int p, double[:] U, double[:, :] P, double u
 
     #cdef double[:, :] CK = np.zeros((d + 1, dimension))
 
+    if is_periodic:
+        u = wrap_parameter(U[p], U[n+1], u)
     cdef int span = find_span_inline(n, degree, u, knotvector,is_periodic)
     #cdef double[:, :, :] PK = np.zeros((d + 1, degree + 1, P.shape[1]))
 
-- 
2.43.0


From 97250bcb154c336951c4480b6ae5a7d9473ff406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 030/211] fix: is_periodic compares every wrapped control point

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 320cccc..4fc963b 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1271,7 +1271,7 @@ cdef class NURBSCurve(ParametricCurve):
 
                 res = part1[j][i] == part2[j][i]
                 if not res:
-                    break
+                    return res
 
         return res
 
-- 
2.43.0


From 9293d9cf0c5f5fb58d66474206d3ca254de919b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 031/211] fix: make_open opens periodic curves only

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4fc963b..081337e 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1449,7 +1449,7 @@ cdef class NURBSCurve(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
-- 
2.43.0


From 7d19c11007c9691373c02dd8eda2b0b1b3481b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 032/211] fix: generate_control_points_periodic accepts points
 without weights

---
 mmcore/geom/nurbs.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 081337e..423cf73 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1412,9 +1412,10 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int i
         cdef int new_n = n + self.degree
         cdef double[:,:] new_control_points = np.zeros((new_n, 4))
-        new_control_points[:n, :] = cpts
+        new_control_points[:, 3] = 1.
+        new_control_points[:n, :cpts.shape[1]] = cpts
         for i in range(self.degree):
-            new_control_points[n + i, :] = cpts[i, :]
+            new_control_points[n + i, :] = new_control_points[i, :]
         return new_control_points
     cpdef void make_periodic(self):
         """
-- 
2.43.0


From 76472c436e1cd16b36d0d5165d471e6c4b29d81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:59 +0000
Subject: [PATCH 033/211] fix: a periodic curve given wrapped control points or
 knots is closed

---
 mmcore/geom/nurbs.pyx | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 423cf73..6fff45c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1159,7 +1159,7 @@ cdef class NURBSCurve(ParametricCurve):
     cdef NURBSCurve create(double[:,:] control_points, int degree, double[:] knots, bint periodic):
         cdef NURBSCurve self = NURBSCurve.__new__(NURBSCurve)
         self._degree = degree
-        self._periodic = periodic
+        self._periodic = False
         self._control_points = np.ones((control_points.shape[0], 4))
 
         if control_points.shape[1] == 4:
@@ -1173,6 +1173,7 @@ cdef class NURBSCurve(ParametricCurve):
         else:
             self._knots = knots.copy()
             self.knots_update_hook()
+            self._periodic = periodic
 
         if periodic:
             self.make_periodic()
@@ -1188,7 +1189,7 @@ cdef class NURBSCurve(ParametricCurve):
     def __init__(self, double[:,:] control_points, int degree=3, double[:] knots=None, bint periodic=0):
 
         self._degree = degree
-        self._periodic = periodic
+        self._periodic = False
         self._control_points = np.ones((control_points.shape[0], 4))
 
         if control_points.shape[1]==4:
@@ -1203,6 +1204,7 @@ cdef class NURBSCurve(ParametricCurve):
         else:
             self._knots=knots.copy()
             self.knots_update_hook()
+            self._periodic = periodic
 
         if  periodic:
             self.make_periodic()
@@ -1422,21 +1424,12 @@ cdef class NURBSCurve(ParametricCurve):
         Modify the NURBS curve to make it periodic
         """
 
-        if self.is_periodic():
+        if self._periodic:
             return
-        cdef int n = len(self.control_points)
-        cdef int new_n = n + self.degree
-        cdef double[:,:] new_control_points = np.zeros((new_n, 4))
-        cdef int i
-        # Copy the original control points
-
-        new_control_points[:n, :] = self._control_points
-
         # Add the first degree control points to the end to make it periodic
-        for i in range(self.degree):
-            new_control_points[n + i, :] = self._control_points[i, :]
+        if not self.is_periodic():
+            self._control_points = self.generate_control_points_periodic(self._control_points)
 
-        self._control_points = new_control_points
         self.generate_knots_periodic()
 
         self._periodic=True
-- 
2.43.0


From 95dd4857327a3a74cdd9570e79a9ea46e28e71ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 034/211] fix: normalizing a periodic curve maps its period to
 [0, 1]

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 6fff45c..af4a39f 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1919,8 +1919,8 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.wraparound(False)
     @cython.cdivision(True)
     cdef void cnormalize_knots(self):
-        cdef double start=np.min(self._knots)
-        cdef double end = np.max(self._knots)
+        cdef double start = self._knots[self._degree]
+        cdef double end = self._knots[self._knots.shape[0] - 1 - self._degree]
         cdef double d=1/(end-start)
         cdef int i
         for i in range(len(self._knots)):
-- 
2.43.0


From e59cc23b8261da3e5f2cd4a5bff6c235cd7a1994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 035/211] fix: flipping a periodic curve keeps it periodic

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index af4a39f..fbabc22 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2092,7 +2092,7 @@ cdef class NURBSCurve(ParametricCurve):
         return curve
 
     def flip(self):
-        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.flip(np.max(self.knots)-self.knots+np.min(self.knots)).copy())
+        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.flip(np.max(self.knots)-self.knots+np.min(self.knots)).copy(), self._periodic)
 
 
 
-- 
2.43.0


From 40c6e3af6e857823892314581b37f0e577d46fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 036/211] fix: find_span never returns an empty span at the
 ends of the domain

---
 mmcore/geom/nurbs.pxd | 15 ++++++---------
 mmcore/geom/nurbs.pyx | 15 ++++++---------
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index ad7475f..69a84e4 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -237,16 +237,13 @@ cdef inline int find_span_inline(int n, int p, double u, double[:] U, bint is_pe
     else:
         # Clamp u to be within the valid range for open curves
 
-        if u >= U[n+1]:
+        if u < U[p]:
+            u = U[p]
 
-            return n
-
-        elif u < U[p]:
-
-            return p
-
-        # Handle special case for the upper boundary
-    if u == U[n + 1]:
+    # Handle special case for the upper boundary: the last non-empty span
+    if u >= U[n + 1]:
+        while n > p and U[n] == U[n + 1]:
+            n -= 1
         return n
 
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index fbabc22..06ea485 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -132,16 +132,13 @@ cpdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexc
     else:
         # Clamp u to be within the valid range for open curves
 
-        if u >= U[n+1]:
+        if u < U[p]:
+            u = U[p]
 
-            return n
-
-        elif u < U[p]:
-
-            return p
-
-        # Handle special case for the upper boundary
-    if u == U[n + 1]:
+    # Handle special case for the upper boundary: the last non-empty span
+    if u >= U[n + 1]:
+        while n > p and U[n] == U[n + 1]:
+            n -= 1
         return n
 
 
-- 
2.43.0


From ab1bce2a0242a61d42548198063b0826e3cf43f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 037/211] fix: reversing a periodic curve keeps its domain

---
 mmcore/geom/nurbs.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 06ea485..591619a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2089,7 +2089,7 @@ cdef class NURBSCurve(ParametricCurve):
         return curve
 
     def flip(self):
-        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.flip(np.max(self.knots)-self.knots+np.min(self.knots)).copy(), self._periodic)
+        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.flip(self._interval[1]-self.knots+self._interval[0]).copy(), self._periodic)
 
 
 
@@ -2113,8 +2113,8 @@ def reverse_curve(curve: NURBSCurve) -> NURBSCurve:
 
     # Reverse and adjust knot vector
     cdef double[:] new_knots = np.zeros_like(curve._knots)
-    cdef double a = curve._knots[0]
-    cdef double b = curve._knots[curve._knots.shape[0]-1]
+    cdef double a = curve._knots[curve._degree]
+    cdef double b = curve._knots[curve._knots.shape[0] - 1 - curve._degree]
     cdef int i
     for i in range(len(curve._knots)):
         new_knots[i] = a + b - curve._knots[curve._knots.shape[0] - 1 - i]
-- 
2.43.0


From 2e7199792c244104d74b897f9010541efd19180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 038/211] fix: inserting a knot at the end of an unclamped
 domain

---
 mmcore/geom/nurbs.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 591619a..66db453 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1766,11 +1766,14 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Find knot span
         cdef int span = find_span_inline(n-1, self._degree, t, self._knots,0)
-        cdef double[:] k_v = knot_insertion_kv(self._knots, t, span, count)
         cdef int s_u = find_multiplicity(t, self._knots, 1e-12)
         if count < 0 or (count > 0 and s_u + count > self._degree) or t < self._knots[self._degree] or t > self._knots[n]:
             raise ValueError(f"The knot {t} of multiplicity {s_u} can not be inserted {count} times")
+        # The end of an unclamped domain has further spans behind it
+        while count > 0 and self._knots[span + 1] <= t:
+            span += 1
         # Compute new knot vector
+        cdef double[:] k_v = knot_insertion_kv(self._knots, t, span, count)
         self._control_points=np.empty((new_count,4))
 
 
-- 
2.43.0


From e9dc843136ef4a320a2abb64ce8a304d26d35549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 039/211] fix: aabb allocates as many columns as the points
 have

---
 mmcore/numeric/_aabb.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 8b386e4..82c2cbf 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -83,7 +83,7 @@ cdef inline void caabb(double[:,:] points, double[:] min_point, double[:] max_po
 @cython.cdivision(True)
 def aabb(double[:,:] pts, double[:,:] bb=None):
     if bb is None:
-        bb   =np.zeros((2,3))
+        bb   =np.zeros((2,pts.shape[1]))
 
     caabb(pts,bb[0],bb[1])
     return bb
-- 
2.43.0


From 16c031f029b935552a46eb47da483def0906865c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 040/211] fix: ray_aabb_intersect does not cut the ray at t=1

---
 mmcore/numeric/_aabb.pyx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 82c2cbf..e18be86 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -271,9 +271,9 @@ def ray_aabb_intersect(
 
     Returns
     -------
-    float or None
-        If there's a valid forward intersection, returns the 't' parameter
-        (distance along the ray_dir from ray_origin). Otherwise, None.
+    list of float or None
+        If there's a valid forward intersection, returns the 't' parameters where the ray
+        (ray_origin + t * ray_dir, t >= 0) enters and leaves the box. Otherwise, None.
     """
     cdef:
         double[3] bmin, bmax, ro, rd
@@ -303,8 +303,6 @@ def ray_aabb_intersect(
 
             if tmin<= 0:
                 tmin = 0.
-            if tmax >= 1.:
-                tmax = 1.
             return [tmin,tmax]
 
     else:
-- 
2.43.0


From ffd45c912763b6b502570d5408da6b3961dbbe80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 041/211] fix: the bounding box of a rational curve

---
 mmcore/geom/nurbs.pyx | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 66db453..1f07d18 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2015,9 +2015,20 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.wraparound(False)
     @cython.cdivision(True)
     def bbox(self,double[:,:] result=None):
+        cdef int i, j
+        cdef double p
         if result is None:
             result=np.zeros((2,3))
-        aabb(self._control_points, result)
+        # The curve stores Euclidean coordinates next to the weights
+        for j in range(3):
+            result[0, j] = self._control_points[0, j]
+            result[1, j] = self._control_points[0, j]
+            for i in range(1, self._control_points.shape[0]):
+                p = self._control_points[i, j]
+                if p < result[0, j]:
+                    result[0, j] = p
+                if p > result[1, j]:
+                    result[1, j] = p
         return result
 
     def astuple(self):
-- 
2.43.0


From b5771ccb4c37a9dbe3ea746ba950a2123b756c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 042/211] fix: BoundingBox.split cuts at the parameter and the
 halves are consistent boxes

---
 mmcore/geom/bvh/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ba4fcb0..f1d0372 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -30,10 +30,9 @@ class BoundingBox:
         self._arr=np.array([self.min_point, self.max_point], dtype=float)
 
     def split(self, axis=0, parameter=0.5):
-        left = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right.min_point[axis] = left.max_point[axis] = (self.min_point[axis] + self.max_point[axis])*parameter
-        return left, right
+        left_max, right_min = np.copy(self.max_point), np.copy(self.min_point)
+        left_max[axis] = right_min[axis] = self.min_point[axis] + self.dims[axis]*parameter
+        return BoundingBox(self.min_point, left_max), BoundingBox(right_min, self.max_point)
 
     def get_corners(self):
         return get_aabb_corners_numpy(self.min_point, self.max_point)
-- 
2.43.0


From 2c3028f4607e3388f2a529d88547344a792c7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 043/211] fix: BoundingBox.evaluate maps the unit cube to the
 box

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index f1d0372..267a1a2 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -57,7 +57,7 @@ class BoundingBox:
         return list(reduce(lambda x,y: x+y, (item.split(axis1, parameter1) for item in self.split4(axis2, axis3, parameter2, parameter3))))
 
     def evaluate(self, uvh):
-        return (self.min_point + self.max_point)*uvh
+        return self.min_point + self.dims*uvh
 
     def centroid(self):
         return (self.min_point + self.max_point)*0.5
-- 
2.43.0


From 7dfd03e5bd000ebd2c42291a2b46f33fccf65196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 044/211] fix: BoundingBox.expand updates the derived data

---
 mmcore/geom/bvh/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 267a1a2..a9d8b19 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -116,6 +116,9 @@ class BoundingBox:
         )
         self.min_point[:]=new_min
         self.max_point[:]=new_max
+        self.center = (self.min_point + self.max_point) * 0.5
+        self.dims = self.max_point - self.min_point
+        self._arr[:] = self.min_point, self.max_point
 
     def contains_point(self, point):
         return bool(np.all(self.min_point<=point)and np.all(point<=self.max_point))
-- 
2.43.0


From f68fa7eac221e4949dc945ae455072f6b4046da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 045/211] fix: NURBSCurveObject3D accepts a value

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index a9d8b19..cc24828 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -237,7 +237,7 @@ class PSegment(Object3D):
 class NURBSCurveObject3D(Object3D):
     __slots__ = ('bounding_box', 'value', 'curve')
     def __init__(self, curve:NURBSCurve,**kwargs):
-        super().__init__(BoundingBox(*np.array(curve.bbox()),**kwargs))
+        super().__init__(BoundingBox(*np.array(curve.bbox())),**kwargs)
         self.curve=curve
 
     def split(self, t:float=None):
-- 
2.43.0


From 4d9155b0f01daf7a7f27b48ce24744ff1f186588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 046/211] fix: bvh_ray_intersection passes the buffer for the
 clipped segment

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index cc24828..0d66984 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -846,7 +846,7 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr)
+    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2,3)))
     if segm is None:
         return []
     else:
-- 
2.43.0


From 543a166ff11c08a12b9cbbcff1f38903e263c72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 047/211] fix: the triangle is intersected with the segment,
 not with its clipped part

Clipping to a flat bounding box leaves a point, and then nothing was found.
---
 mmcore/geom/bvh/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 0d66984..3c95e0f 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -800,9 +800,9 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
                     c[ixs] = current_bvh.object.objects[ixs].c
 
                 point, flag = intersect_triangles_segment_one(a[:current_size], b[:current_size],
-                                                         c[:current_size], current_segment[0], current_segment[1], out_point)
+                                                         c[:current_size], segment[0], segment[1], out_point)
             else:
-                flag=intersect_triangle_segment(current_bvh.object.a,current_bvh.object.b,current_bvh.object.c,current_segment[0],current_segment[1],out_point)
+                flag=intersect_triangle_segment(current_bvh.object.a,current_bvh.object.b,current_bvh.object.c,segment[0],segment[1],out_point)
             if flag!=0:
                 return True,out_point,current_bvh.object
 
-- 
2.43.0


From 9507cdbb3162ba9d5729fb3b4490292d0bada87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 048/211] fix: a ray hits triangles on the faces of the
 bounding box

The ray was clipped to the bounding box, so triangles on its faces were hit at the
very end of the clipped segment or, if the box is flat, not at all.
---
 mmcore/geom/bvh/__init__.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 3c95e0f..1cb24fc 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -828,6 +828,18 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
 # 138250
 # 120625
 
+def _ray_segment(bbox:BoundingBox, ray:Ray):
+    """
+    The part of the ray from its start to behind the bounding box and the unit direction of the ray,
+    (None, None) if the ray misses the bounding box.
+    """
+    direction=ray.direction/MAX_FLOAT64
+    t=ray_aabb_intersect(bbox._arr, ray.start, direction)
+    if t is None:
+        return None, None
+    return np.array([ray.start, ray.start+direction*(2*t[1]+1)]), direction
+
+
 from mmcore.numeric.vectors import dot_array_x_vec
 def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
     """
@@ -846,7 +858,7 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2,3)))
+    segm, _=_ray_segment(bvh.bounding_box, ray)
     if segm is None:
         return []
     else:
@@ -887,12 +899,9 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     :rtype: list[tuple[Point, Triangle, float]]
     """
     maybe = []
-    segment_out = np.empty((2,3))
-    segment = segment_aabb_clip(triangles_bvh.bounding_box._arr, ray._arr,segment_out)
+    segment, direction = _ray_segment(triangles_bvh.bounding_box, ray)
     if segment is None:
         return maybe
-    segment=segment_out
-    direction=segment[1]-segment[0]
 
     for tri,segm in bvh_segment_intersection(triangles_bvh,segment):
 
-- 
2.43.0


From 843a520843fe83b362a88600a16195e6c7834ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 049/211] fix: mesh_bvh_ray_intersection accepts several
 triangles per leaf

---
 mmcore/geom/bvh/__init__.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 1cb24fc..937e142 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -903,17 +903,17 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     if segment is None:
         return maybe
 
-    for tri,segm in bvh_segment_intersection(triangles_bvh,segment):
+    for leaf,segm in bvh_segment_intersection(triangles_bvh,segment):
+        for tri in (leaf.objects if isinstance(leaf, CompoundObject3D) else (leaf,)):
+            out = np.empty((3,))
+            flag=intersect_triangle_segment(tri.pts[0],tri.pts[1],tri.pts[2],segm[0],segm[1],out)
+            if flag==0:
 
-        out = np.empty((3,))
-        flag=intersect_triangle_segment(tri.pts[0],tri.pts[1],tri.pts[2],segm[0],segm[1],out)
-        if flag==0:
+                continue
+            #if len(maybe)>0 and scalar_dot(maybe[-1]-point)<1e-8:
+            #    maybe.append(point)
 
-            continue
-        #if len(maybe)>0 and scalar_dot(maybe[-1]-point)<1e-8:
-        #    maybe.append(point)
-
-        maybe.append((np.array(out),tri,scalar_dot(out-ray.start,direction)))
+            maybe.append((np.array(out),tri,scalar_dot(out-ray.start,direction)))
 
     maybe.sort(key=lambda x:x[-1])
     return maybe
-- 
2.43.0


From fc8181be426eae082abab4283922c6814ac47078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 050/211] fix: products of arrays do not add to uninitialized
 memory

---
 mmcore/numeric/vectors.pyx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index c057da1..487d5a5 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -45,7 +45,7 @@ cpdef dot_array_x_array(double[:,:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[1]):
             item += vec_a[i, j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -62,6 +62,7 @@ cpdef matmul_array(double[:,:,:] vec_a, double[:,:,:] vec_b):
     for w in range(l):
         for i in range(rows_A):
             for j in range(cols_B):
+                result[w,i,j] = 0.0
                 for k in range(cols_A):
                     result[w,i,j] += vec_a[w,i,k] * vec_b[w,k,j]
 
@@ -78,7 +79,7 @@ cpdef dot_vec_x_array(double[:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[0]):
             item += vec_a[j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -91,7 +92,7 @@ cpdef dot_array_x_vec(double[:,:]vec_a, double[:]vec_b):
         item = 0.0
         for j in range(vec_b.shape[0]):
             item += vec_a[i, j] * vec_b[j]
-        res[i] += item
+        res[i] = item
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From 60b66b873a51146652fcd5af46ac5a230b96c175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 051/211] fix: gram_schmidt uses the component it writes

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 487d5a5..7e27729 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -256,7 +256,7 @@ cpdef gram_schmidt(double[:,:]vec_a,
         for j in range(vec_a.shape[1]):
             item_dot += vec_b[i, j] * vec_a[i, j]
         for k in range(vec_a.shape[1]):
-            res[i, k] = vec_b[i, j] - (vec_a[i, j] * item_dot)
+            res[i, k] = vec_b[i, k] - (vec_a[i, k] * item_dot)
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From 614eb06aa9e55691a6709cb0ff0efc7842881632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 052/211] fix: invert_jacobian accepts an array of matrices

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 7e27729..c51a7e8 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -422,7 +422,7 @@ cpdef invert_jacobian(J):
 
     else:
         J_inv = np.empty((J.shape[0], 2, 2))
-        status=np.empty((J.shape[0], 2, 2), dtype=np.intc)
+        status=np.empty((J.shape[0],), dtype=np.intc)
         with nogil:
             cinvert_jacobian_vec(J, J_inv,  status)
         return J_inv, status
-- 
2.43.0


From 3ec579e4607352bd063ef51ea21ce426ea83d2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 053/211] fix: closest_point_on_ray and closest_point_on_line
 return a point, not an offset from the start

---
 mmcore/numeric/vectors.pyx | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index c51a7e8..67711c6 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -448,23 +448,19 @@ cpdef closest_point_on_ray( double[:] start, double[:] direction,  double[:] poi
     a[1] = point[1] - start[1]
     a[2] = point[2] - start[2]
 
-    res[0]=a[0]*direction[0]*direction[0]/directionn + a[1]*direction[0]*direction[1]/directionn + a[2]*direction[0]*direction[2]/directionn
-    res[1]=a[0]*direction[0]*direction[1]/directionn + a[1]*direction[1]*direction[1]/directionn + a[2]*direction[1]*direction[2]/directionn
-    res[2]=a[0]*direction[0]*direction[2]/directionn + a[1]*direction[1]*direction[2]/directionn + a[2]*direction[2]*direction[2]/directionn
+    res[0]=start[0] + a[0]*direction[0]*direction[0]/directionn + a[1]*direction[0]*direction[1]/directionn + a[2]*direction[0]*direction[2]/directionn
+    res[1]=start[1] + a[0]*direction[0]*direction[1]/directionn + a[1]*direction[1]*direction[1]/directionn + a[2]*direction[1]*direction[2]/directionn
+    res[2]=start[2] + a[0]*direction[0]*direction[2]/directionn + a[1]*direction[1]*direction[2]/directionn + a[2]*direction[2]*direction[2]/directionn
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
 cpdef closest_point_on_line(double[:] start,double[:] end, double[:] point):
     cdef double [:] direction=np.empty((3,))
-    cdef double [:] p=np.empty((3,))
     direction[0] = end[0] - start[0]
     direction[1] = end[1] - start[1]
     direction[2] = end[2] - start[2]
-    p[0] = point[0] - start[0]
-    p[1] = point[1] - start[1]
-    p[2] = point[2] - start[2]
-    return vector_projection(p, direction)
+    return closest_point_on_ray(start, direction, point)
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-- 
2.43.0


From 85bee15b067a3f9da32ce4eb9d46d844989129a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 054/211] fix: plane intersections pivot on the largest element

The bisection found a local maximum, which may be zero: the intersection of the
three coordinate planes was nan.
---
 mmcore/numeric/plane/cplane.pyx | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index c19641f..7eaa4ab 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -11,32 +11,22 @@ cnp.import_array()
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 cdef inline int find_max_row(double[5][5] m, int i, int n) noexcept nogil:
+    cdef int j
     cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    for j in range(i + 1, n):
+        if fabs(m[j][i]) > fabs(m[l][i]):
+            l = j
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 cdef inline int find_max_row_3x3(double[3][3] m, int i, int n) noexcept nogil:
+    cdef int j
     cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    for j in range(i + 1, n):
+        if fabs(m[j][i]) > fabs(m[l][i]):
+            l = j
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 15e632fa5ca0736782e8cccd4776ce496f35489b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 055/211] fix: planes_planes_intersect returns its result

---
 mmcore/numeric/plane/cplane.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index 7eaa4ab..0db9113 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -322,6 +322,7 @@ cpdef double[:,:,:] planes_planes_intersect(double[:,:,:] planes1, double[:,:,:]
         raise ValueError("planes1 and planes2 length should be equal!")
 
     cplanes_planes_intersect(planes1,planes2,result)
+    return result
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From d2a0319e5c7060aed5e87e972b957179f5786012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 056/211] fix: plane_plane_intersection reshapes the second
 array from its own data

---
 mmcore/numeric/plane/cplane.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index 0db9113..2d8ad27 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -429,7 +429,7 @@ def plane_plane_intersection(a, b, result=None):
     if len(b.shape) > 3:
         b_flt = b.flatten()
         b_new_shape=int(len(b_flt)//12),4,3
-        b=a_flt.reshape( b_new_shape)
+        b=b_flt.reshape( b_new_shape)
         b_reshaped = True
         if (result is not None) and (not a_reshaped):
             result.reshape((b_new_shape[0],2,3))
@@ -456,7 +456,7 @@ def plane_plane_intersection(a, b, result=None):
         raise ValueError("The arguments are totally incorrect!")
     if a_reshaped or b_reshaped:
 
-        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(a_initial_shape)-2)]),2,3))
+        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(b_initial_shape)-2)]),2,3))
     else:
         return result
 
-- 
2.43.0


From f545824e1feee068924b7ccec0d4d87add834d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 057/211] fix: plane_from_eq returns a point of the plane

---
 mmcore/numeric/plane/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 07ac6ee..e3040fc 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -105,7 +105,7 @@ def plane_from_eq(plane_eq):
     # Normal vector to the plane
     n = np.array([a, b, c])
     N = scalar_unit(n)
-    origin = N*d
+    origin = N*(-d/scalar_norm(n))
     # Generate a vector on the plane
     return origin,N
 
-- 
2.43.0


From 60903d0465ed4d73ee1e5bffc39bad70892931ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 058/211] fix: plane_from_normal2 returns a right-handed frame

---
 mmcore/numeric/plane/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index e3040fc..7941916 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -77,7 +77,7 @@ def plane_from_normal2(origin, normal, tol=1e-5):
     else:
         normal = scalar_unit(normal)
     xaxis = scalar_unit(perp_to_vector(normal))
-    yaxis = scalar_unit(_mycross(xaxis, normal))
+    yaxis = scalar_unit(_mycross(normal, xaxis))
     return np.array([origin, xaxis, yaxis, normal])
 
 
-- 
2.43.0


From 00735f551500fce660ece70a10476af2f187e425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 059/211] fix: plane_ray_intersection accepts a plane given by
 origin and normal

---
 mmcore/numeric/plane/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 7941916..6a566e5 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -205,6 +205,8 @@ def plane_ray_intersection(plane, ray):
         pln=np.zeros((2,3))
         pln[0,:]=plane[0,:]
         pln[1,:] = plane[3,:]
+    else:
+        pln=plane
 
     return ray_plane_intersection(pln,ray)
 
-- 
2.43.0


From 461d4a4bb36752796d712d4b710d2029a6c2bbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 060/211] fix: the projection of a vector onto another is
 parallel to it

---
 mmcore/numeric/intersection/pp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/pp.py b/mmcore/numeric/intersection/pp.py
index b316854..75c159b 100644
--- a/mmcore/numeric/intersection/pp.py
+++ b/mmcore/numeric/intersection/pp.py
@@ -83,7 +83,7 @@ def _plane_plane_plane_intersect(first, second, third, tol=1e-6):
 
 def _vector_projection(a, b):
     bn = np.dot(b, b)
-    return np.outer(a, b).sum(axis=-1) / bn
+    return np.dot(a, b) * b / bn
 
 
 def _closest_point_on_line(line, point):
-- 
2.43.0


From 0039cca011c7000f7186ccfba69d3860842e7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 061/211] fix: evaluate_curvature sets the curvature to zero
 when the derivative vanishes

---
 mmcore/numeric/calgorithms.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/calgorithms.pyx b/mmcore/numeric/calgorithms.pyx
index 2463119..19d2f26 100644
--- a/mmcore/numeric/calgorithms.pyx
+++ b/mmcore/numeric/calgorithms.pyx
@@ -113,6 +113,8 @@ cpdef bint evaluate_curvature(
                 unit_tangent_vector[i] = 0.0
 
         # Set curvature vector to zero, we will not recalculate
+        for i in range(n):
+            curvature_vector[i] = 0.0
         recalculate_condition = False
     else:
         for i in range(n):
-- 
2.43.0


From 9fb8d6f7153b9e0a7c32f3f642108a6402d3717c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 062/211] fix: orthonormalize does not overwrite its arguments

---
 mmcore/geom/vec/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index d911247..1738515 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -301,21 +301,21 @@ Out:
  array([-0.00107956, -0.21301218, -0.97704895]))
     """
     u = u / np.linalg.norm(u)  # Ensure u is a unit vector
-    v -= u * np.dot(u, v)  # Make v orthogonal to u
+    v = v - u * np.dot(u, v)  # Make v orthogonal to u
 
     # Re-normalize v in case it's very close to zero
     if (np.linalg.norm(v) > 1e-10):
-        v /= np.linalg.norm(v)
+        v = v / np.linalg.norm(v)
     else:
         raise ValueError('Vectors u and v are parallel')
 
     # w vector
-    w -= u * np.dot(u, w)
-    w -= v * np.dot(v, w)
+    w = w - u * np.dot(u, w)
+    w = w - v * np.dot(v, w)
 
     # Re-normalize w
     if (np.linalg.norm(w) > 1e-10):
-        w /= np.linalg.norm(w)
+        w = w / np.linalg.norm(w)
     else:
         raise ValueError('Vector w is in the plane of vectors u and v')
 
-- 
2.43.0


From dd3f9a9b4cae03d632afbbb2f0055e8daac638e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 063/211] fix: dot of two vectors

---
 mmcore/geom/vec/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/vec/__init__.py b/mmcore/geom/vec/__init__.py
index 1738515..aff8a2f 100644
--- a/mmcore/geom/vec/__init__.py
+++ b/mmcore/geom/vec/__init__.py
@@ -160,7 +160,7 @@ def dot(a, b):
     :return: The dot product of `a` and `b`.
     :rtype: numpy.ndarray[Any, numpy.dtype[float]]
     """
-    return scalar_dot(a, b)
+    return vectors.scalar_dot(a, b)
 
 def perp2d(v):
     """
-- 
2.43.0


From 8bc8915943654115fa270c02b41ec240db712837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 064/211] fix: subtracting intervals contains every difference

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index b5d0311..dc73745 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -42,7 +42,7 @@ class Interval:
 
     def __sub__(self, other):
         if isinstance(other, Interval):
-            return Interval(self.low - other.low, self.upp - other.upp)
+            return Interval(self.low - other.upp, self.upp - other.low)
         return Interval(self.low - other, self.upp - other)
 
     def __mul__(self, other):
-- 
2.43.0


From 9e9f62c770676ef050ba217c4f2f2cf191d2f874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 065/211] fix: scaling an interval by a negative number keeps
 its bounds in order

---
 mmcore/numeric/interval/_interval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index dc73745..a29357a 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -49,14 +49,14 @@ class Interval:
         if isinstance(other, Interval):
             products = [self.low * other.low, self.low * other.upp, self.upp * other.low, self.upp * other.upp]
             return Interval(min(products), max(products))
-        return Interval(self.low * other, self.upp * other)
+        return Interval(min(self.low * other, self.upp * other), max(self.low * other, self.upp * other))
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
 
             reciprocals = [1 / other.low, 1 / other.upp]
             return self * Interval(min(reciprocals), max(reciprocals))
-        return Interval(self.low / other, self.upp / other)
+        return Interval(min(self.low / other, self.upp / other), max(self.low / other, self.upp / other))
 
     def __contains__(self, item):
         if isinstance(item, Interval):
-- 
2.43.0


From cc9ba735e9e858aed380eac0cbf80145b67c7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 066/211] fix: dividing by an interval around zero is unbounded

---
 mmcore/numeric/interval/_interval.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index a29357a..59d7b08 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -53,6 +53,8 @@ class Interval:
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
+            if other.low < 0 < other.upp:
+                return Interval(float('-inf'), float('inf'))
 
             reciprocals = [1 / other.low, 1 / other.upp]
             return self * Interval(min(reciprocals), max(reciprocals))
-- 
2.43.0


From 42064221a51ee6556c123467a329690e775db0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 067/211] fix: powers of an interval contain the powers of its
 numbers

---
 mmcore/numeric/interval/_interval.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 59d7b08..0b2f320 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -155,10 +155,7 @@ class Interval:
 
     @staticmethod
     def pow(base, exp):
-        if exp % 2 == 0:
-            return Interval(min(base.low ** exp, base.upp ** exp), max(base.low ** exp, base.upp ** exp))
-        else:
-            return Interval(base.low ** exp, base.upp ** exp)
+        return base ** exp
 
 
     def __iadd__(self, other):
@@ -200,7 +197,11 @@ class Interval:
         return np.array(self.to_tuple(), dtype=dtype)
 
     def __pow__(self, exp):
+        if exp < 0:
+            return ~(self ** -exp)
         if exp % 2 == 0:
+            if exp > 0 and self.low < 0 < self.upp:
+                return Interval(0, max(self.low ** exp, self.upp ** exp))
             return Interval(min(self.low ** exp, self.upp ** exp), max(self.low ** exp, self.upp ** exp))
         else:
             return Interval(self.low ** exp, self.upp ** exp)
\ No newline at end of file
-- 
2.43.0


From 533a431dbf3fc5028fc3f6d0d5d89aaf96aa6b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 068/211] fix: an interval containing a number is neither less
 nor greater than it

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 0b2f320..8e16069 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -73,7 +73,7 @@ class Interval:
                 return Comparison.FALSE  # Definitely greater than
             else:
                 return Comparison.MAYBE  # Overlapping intervals, uncertain comparison
-        return Comparison.TRUE if self.upp < other else Comparison.FALSE
+        return self.compare(Interval(other))
 
     def __lt__(self, other):
         comp = self.compare(other)
-- 
2.43.0


From 9dd86803568cd944ccee58c301a9e73533115b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 069/211] fix: numbers and intervals combine in either order

---
 mmcore/numeric/interval/_interval.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 8e16069..41246b0 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -45,12 +45,21 @@ class Interval:
             return Interval(self.low - other.upp, self.upp - other.low)
         return Interval(self.low - other, self.upp - other)
 
+    def __rsub__(self, other):
+        return Interval(other) - self
+
     def __mul__(self, other):
         if isinstance(other, Interval):
             products = [self.low * other.low, self.low * other.upp, self.upp * other.low, self.upp * other.upp]
             return Interval(min(products), max(products))
         return Interval(min(self.low * other, self.upp * other), max(self.low * other, self.upp * other))
 
+    def __rmul__(self, other):
+        return self * other
+
+    def __rtruediv__(self, other):
+        return Interval(other) / self
+
     def __truediv__(self, other):
         if isinstance(other, Interval):
             if other.low < 0 < other.upp:
-- 
2.43.0


From 954a4c3454bcb846b0951a02eae7c56c3c22e7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 070/211] fix: fundamental_forms does not import a function
 SciPy no longer has

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index a7b4e15..bab9621 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -168,7 +168,7 @@ def classify_point(K,H):
     else:
         raise ValueError('Classification fail: K={K},H={H}')
 
-from scipy.integrate import odeint, ode, solve_ivp, simps, simpson
+from scipy.integrate import odeint
 
 
 def line_of_curvature(surface, u0, v0, principal_index, t_range):
-- 
2.43.0


From a71899b9f8ff8f58096288a7fcfac3dde96de82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 071/211] fix: the geodesic module can be imported

---
 mmcore/geom/surfaces/geodesic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/surfaces/geodesic.py b/mmcore/geom/surfaces/geodesic.py
index be7b833..b641657 100644
--- a/mmcore/geom/surfaces/geodesic.py
+++ b/mmcore/geom/surfaces/geodesic.py
@@ -1,4 +1,5 @@
 import numpy as np
+from mmcore.geom.nurbs import NURBSSurface
 from scipy.integrate import solve_ivp
 def compute_metric(surface, uv):
     r_u = np.array(surface.derivative_u(np.array(uv)))
-- 
2.43.0


From 28252d41a055f578398371ca50dd9826cf24fecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 072/211] fix: the Christoffel symbols follow from the
 derivatives of the metric

---
 mmcore/geom/surfaces/geodesic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/surfaces/geodesic.py b/mmcore/geom/surfaces/geodesic.py
index b641657..4b7a028 100644
--- a/mmcore/geom/surfaces/geodesic.py
+++ b/mmcore/geom/surfaces/geodesic.py
@@ -46,14 +46,14 @@ def compute_christoffel_symbols(surface, uv):
 
     # Christoffel symbols:
     # For u equation:
-    Gamma_111 = 0.5 * g_inv[0, 0] * (E_u) + 0.5 * g_inv[0, 1] * (E_v)
-    Gamma_112 = 0.5 * g_inv[0, 0] * (F_u) + 0.5 * g_inv[0, 1] * (F_v)
-    Gamma_122 = 0.5 * g_inv[0, 0] * (G_u) + 0.5 * g_inv[0, 1] * (G_v)
+    Gamma_111 = 0.5 * g_inv[0, 0] * E_u + 0.5 * g_inv[0, 1] * (2 * F_u - E_v)
+    Gamma_112 = 0.5 * g_inv[0, 0] * E_v + 0.5 * g_inv[0, 1] * G_u
+    Gamma_122 = 0.5 * g_inv[0, 0] * (2 * F_v - G_u) + 0.5 * g_inv[0, 1] * G_v
 
     # For v equation:
-    Gamma_211 = 0.5 * g_inv[1, 0] * (E_u) + 0.5 * g_inv[1, 1] * (E_v)
-    Gamma_212 = 0.5 * g_inv[1, 0] * (F_u) + 0.5 * g_inv[1, 1] * (F_v)
-    Gamma_222 = 0.5 * g_inv[1, 0] * (G_u) + 0.5 * g_inv[1, 1] * (G_v)
+    Gamma_211 = 0.5 * g_inv[1, 0] * E_u + 0.5 * g_inv[1, 1] * (2 * F_u - E_v)
+    Gamma_212 = 0.5 * g_inv[1, 0] * E_v + 0.5 * g_inv[1, 1] * G_u
+    Gamma_222 = 0.5 * g_inv[1, 0] * (2 * F_v - G_u) + 0.5 * g_inv[1, 1] * G_v
 
     return Gamma_111, Gamma_112, Gamma_122, Gamma_211, Gamma_212, Gamma_222
 
-- 
2.43.0


From 3517d5ea21a567c44b24083ecb12b341fab176bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 073/211] fix: principal directions along the parametric lines

---
 mmcore/geom/surfaces/fundamental_forms.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index bab9621..ff96513 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -103,13 +103,19 @@ def principal_directions(E, F, G, L, M, N, k1, k2):
     :return:
     """
     # Calculate principal directions
-    a1 = L - k1 * E
-    b1 = M - k1 * F
-    a2 = L - k2 * E
-    b2 = M - k2 * F
-
-    dir1 = np.array([-b1, a1])
-    dir2 = np.array([-b2, a2])
+    def direction(k):
+        # Both rows of the shape equation are proportional, one of them may vanish
+        a, b = L - k * E, M - k * F
+        c, d = b, N - k * G
+        if abs(a) + abs(b) >= abs(c) + abs(d):
+            return np.array([-b, a])
+        return np.array([-d, c])
+
+    if k1 == k2:
+        # Every direction is principal, return an orthogonal pair
+        dir1, dir2 = np.array([1., 0.]), np.array([-F, E])
+    else:
+        dir1, dir2 = direction(k1), direction(k2)
 
     # Normalize directions
     dir1 = dir1 / np.linalg.norm(dir1)
-- 
2.43.0


From 0439629ff3e6b8e8d337e95d05a4f49e0b0518a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 074/211] fix: a point with one zero curvature is parabolic

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index ff96513..d664d95 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -258,7 +258,7 @@ def classify_point_dupin(k1,k2):
         if k1 != 0:
             return PointOnSurfaceType.PARABOLIC
         elif k2 != 0:
-            return PointOnSurfaceType.FLAT
+            return PointOnSurfaceType.PARABOLIC
         else:
             return PointOnSurfaceType.FLAT
 
-- 
2.43.0


From 6c3ed64071028c72c4c00dee7a0493bbbb8f173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 075/211] fix: the second fundamental form gets its arguments
 in order

---
 mmcore/geom/surfaces/fundamental_forms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index d664d95..c06bf55 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -337,7 +337,7 @@ def dupin_indicatrix_on_surface(surface,u,v):
     n = scalar_cross(du, dv)
     scalar_normalize(n)
 
-    L, M, N = second_fundamental_form(np.array(n), duu, duv, dvv)
+    L, M, N = second_fundamental_form(duu, duv, dvv, np.array(n))
     k1, k2 = principal_curvatures(E, F, G, L, M, N)
     return dupin_indicatrix(k1,k2)
 
@@ -362,7 +362,7 @@ def classify_point_on_surface(surface,u,v, use_dupin=False, return_indicatrix=Fa
     n=scalar_cross(du,dv)
     scalar_normalize(n)
 
-    L,M,N=second_fundamental_form(np.array(n), duu, duv, dvv)
+    L,M,N=second_fundamental_form(duu, duv, dvv, np.array(n))
 
     if use_dupin:
         k1, k2 = principal_curvatures(E, F, G, L, M, N)
-- 
2.43.0


From 9ffec615298003f3a832a648c5ec9ab28cd63423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 076/211] fix: surface_distance adds every step once

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index c06bf55..452bb80 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -206,7 +206,7 @@ def surface_distance( surface, u1, v1, u2, v2, num_steps=100):
     for i in range(num_steps - 1):
 
         E, F, G = first_fundamental_form(*surface.derivatives(np.array((u[i], v[i]))))
-        dl = infinitesimal_arc_length(E,F,G,du,dv)
+        dl = infinitesimal_arc_length(E,F,G,du[i],dv[i])
         lengths.append(dl)
 
     # Integrate the lengths
-- 
2.43.0


From 5c94daa7da26b7b057742bef1cc1907a98741aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 077/211] fix: predict_point measures the steps it takes

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index 452bb80..74f62c2 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -225,7 +225,7 @@ def predict_point(surface, u0, v0, distance, direction, step_size=0.01):
     traveled_distance = 0
     while traveled_distance < distance:
         E, F, G = first_fundamental_form(*surface.derivatives(np.array((u, v))))
-        step_length = np.sqrt(E * du ** 2 + 2 * F * du * dv + G * dv ** 2)
+        step_length = step_size * np.sqrt(E * du ** 2 + 2 * F * du * dv + G * dv ** 2)
 
         if traveled_distance + step_length > distance:
             # Adjust the last step
-- 
2.43.0


From 0c4e56afeb7ac0d7d915a90854364cc0486527bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 078/211] fix: the normal of a curve does not write past its
 buffer

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 1f07d18..fb4f711 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1667,7 +1667,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From 2be5b93262a7d278e59e8134c9a02ea70b5067ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 079/211] fix: plane_on_curve and normal_at accept a point of a
 curve

---
 mmcore/numeric/numeric.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 25ac739..3f7e40e 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -32,16 +32,18 @@ def plane_on_curve(O, T, D2):
         plane_on_curve(O, T, D2)
     """
     # Gram-Schmidt process on T and D2 to obtain orthogonal normal
-    N = unit(gram_schmidt(T, D2))
+    O, T, D2 = (np.asarray(x, dtype=float) for x in (O, T, D2))
+    N = scalar_unit(D2 - T * np.dot(D2, T))
     # Cross product of T and N to obtain the binormal
-    B = cross(T, N)
+    B = scalar_cross(T, N)
     # Return array containing origin, tangent, normal and binormal
     return np.array([O, T, N, B])
 
 
 def normal_at(D1, D2):
-    N = unit(gram_schmidt(unit(D1), D2))
-    return N
+    D1, D2 = np.asarray(D1, dtype=float), np.asarray(D2, dtype=float)
+    T = np.asarray(scalar_unit(D1))
+    return scalar_unit(D2 - T * np.dot(D2, T))
 
 
 def swap_z_to_first_der(pln):
-- 
2.43.0


From c3aa8f1e8db136a347b772310fdfb01841dc73e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 080/211] fix: solve3x2 keeps its arguments and the order of
 the unknowns

---
 mmcore/numeric/numeric.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/numeric.py b/mmcore/numeric/numeric.py
index 3f7e40e..9eacb69 100644
--- a/mmcore/numeric/numeric.py
+++ b/mmcore/numeric/numeric.py
@@ -419,10 +419,12 @@ def solve3x2(col0, col1, d0, d1, d2):
     pivot_ratio = 0.0
     err = float('inf')
 
-    i = np.argmax([abs(val) for val in col0 + col1])
-    if i >= 3:
+    # The columns are modified below, do not touch the arguments
+    col0, col1 = [float(val) for val in col0], [float(val) for val in col1]
+    i = int(np.argmax([abs(val) for val in col0 + col1]))
+    swapped = i >= 3
+    if swapped:
         col0, col1 = col1, col0
-        x, y = y, x
 
     if max(map(abs, col0 + col1)) == 0.0:
         return 0, x, y, err, pivot_ratio
@@ -468,6 +470,8 @@ def solve3x2(col0, col1, d0, d1, d2):
             d1 += -col1[1] * d2
         x, y, err = d0, d2, d1
 
+    if swapped:
+        x, y = y, x
     return 2, x, y, err, pivot_ratio
 
 
-- 
2.43.0


From 6a2a32f5ec87bbf24c3cf14337d1313c686c6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 081/211] fix: the second derivative of a trimmed curve

---
 mmcore/geom/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 427e819..039dd46 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -377,7 +377,7 @@ class TrimmedCurve(Curve):
         self.curve = curve
         self.trim = start, end
         self.derivative = self.curve.derivative
-        self.second_derivative = self.curve.derivative
+        self.second_derivative = self.curve.second_derivative
 
     @property
     def start(self):
-- 
2.43.0


From b34bca2140cbf56d7bf92ccc428987ed29464a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:48 +0000
Subject: [PATCH 082/211] fix: the start of a trimmed curve

---
 mmcore/geom/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 039dd46..b88f89c 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -381,7 +381,7 @@ class TrimmedCurve(Curve):
 
     @property
     def start(self):
-        return self.start[0]
+        return self.trim[0]
 
     @start.setter
     def start(self, v):
-- 
2.43.0


From 411913b4f3a7cc7522ad135ae7a8b4fdc8a3fcc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 083/211] fix: the plane of a surface point is stored row by
 row

---
 mmcore/geom/parametric.pyx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 8583c25..fcffe80 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -459,12 +459,16 @@ cdef class ParametricSurface:
     @cython.initializedcheck(False)
     cdef void cplane_at(self, double u, double v, double[:,:] result):
 
-        orig = self.cevaluate(u, v,result[0] )
+        cdef double[:] vec
+        self.cevaluate(u, v,result[0] )
         self.cderivative_u(u,v,result[1])
-        result[1,:] = vectors.scalar_unit(result[1])
+        vec = vectors.scalar_unit(result[1])
+        result[1,:] = vec
         self.cderivative_v(u,v,result[3])
-        result[3,:] = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
-        result[2,:] = vectors.scalar_cross(result[3], result[1])
+        vec = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
+        result[3,:] = vec
+        vec = vectors.scalar_cross(result[3], result[1])
+        result[2,:] = vec
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From 3bcb8e355d824d79b4725784e21e2eee19b89e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 084/211] fix: degree elevation keeps rational curves

---
 mmcore/geom/curves/knot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index cefa036..51e0cdb 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -864,7 +864,10 @@ def degree_elevate_curve(curve:NURBSCurve, num:int=1):
     # Loop through to apply degree elevation
     for crv in crv_list:
 
-            new_cpts,new_deg = degree_elevation_bez( crv.control_pointsw,crv.degree, num=num)
+            homogeneous = np.array(crv.control_pointsw)
+            homogeneous[:, :3] *= homogeneous[:, 3:]
+            new_cpts,new_deg = degree_elevation_bez(homogeneous, crv.degree, num=num)
+            new_cpts[:, :3] /= new_cpts[:, 3:]
             new_kv=np.zeros((crv.knots.shape[0]+num*2,))
 
             new_kv[:num]=crv.knots[0]
-- 
2.43.0


From 0fb6f2798260a406a6f64fe9d7ca95af45a4b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 085/211] fix: a ruled surface contains its rational boundary
 curves

---
 mmcore/construction/ruled.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/construction/ruled.py b/mmcore/construction/ruled.py
index 2219680..25c9231 100644
--- a/mmcore/construction/ruled.py
+++ b/mmcore/construction/ruled.py
@@ -90,6 +90,7 @@ def ruled(curve1:NURBSCurve, curve2:NURBSCurve):
     for i in range(n):
         control_points[i, 0] = np.array(c1._control_points)[i]
         control_points[i, 1] = np.array(c2._control_points)[i]
+    control_points[..., :3] *= control_points[..., 3:]  # the surface takes homogeneous control points
 
     # Create surface knot vectors
     u_knots = c1.knots  # Same for both curves now
-- 
2.43.0


From ac8877cbc69eb1a8a96c9463379d9191972c80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 086/211] fix: joining two curves gives a valid knot vector and
 keeps the weights

---
 mmcore/geom/curves/knot.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 51e0cdb..6f80f18 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1150,8 +1150,11 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
     degree = curve1.degree  # Now both curves have same degree
 
     # Get control points and weights
-    cpts1 = curve1.control_points
-    cpts2 = curve2.control_points
+    cpts1 = np.array(curve1.control_pointsw)
+    cpts2 = np.array(curve2.control_pointsw)
+
+    # Both curves have the same weight in the common point
+    cpts2[:, 3] *= cpts1[-1, 3] / cpts2[0, 3]
 
     # Create new knot vector by joining and scaling
     knots1 = curve1.knots
@@ -1161,8 +1164,7 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
 
 
     # Combine knot vectors
-    print(knots1,knots1.max()+knots2-knots2.min())
-    new_knots = np.concatenate([knots1,knots1.max()+knots2-knots2.min()])
+    new_knots = np.concatenate([knots1[:-1], (knots1.max() + knots2 - knots2.min())[degree + 1:]])
 
     # Combine control points, merging the connecting points
     new_cpts = np.vstack([
-- 
2.43.0


From de0372277606e9b45009d85e115676fc951babf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:01 +0000
Subject: [PATCH 087/211] fix: inverting an array of Jacobians converts it
 while the GIL is held

---
 mmcore/numeric/vectors.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 67711c6..cfdf046 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -413,6 +413,7 @@ cpdef void cinvert_jacobian_vec(double[:,:,:] J, double[:,:,:] J_inv, int[:] sta
 cpdef invert_jacobian(J):
     cdef double[:,:] J_inv_m
     cdef double[:,:, :] J_inv
+    cdef double[:,:, :] J_view
     cdef int[:] status
     cdef int status_m
     if J.ndim==2:
@@ -421,10 +422,11 @@ cpdef invert_jacobian(J):
         return J_inv_m,status_m
 
     else:
+        J_view = J
         J_inv = np.empty((J.shape[0], 2, 2))
         status=np.empty((J.shape[0],), dtype=np.intc)
         with nogil:
-            cinvert_jacobian_vec(J, J_inv,  status)
+            cinvert_jacobian_vec(J_view, J_inv,  status)
         return J_inv, status
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From cf64d6a39df448d77d19034a5ffdeabcd1223599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 088/211] fix: finite-difference derivatives divide by the step
 and stay inside the interval

---
 mmcore/geom/parametric.pyx | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index fcffe80..109ecfa 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -12,7 +12,7 @@ cdef double DEFAULT_H=1e-3
 from mmcore.numeric cimport vectors
 from mmcore.numeric cimport calgorithms
 from mmcore.geom.evaluator cimport surface_evaluator
-from libc.math cimport fabs
+from libc.math cimport fabs, fmin, fmax
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
@@ -58,19 +58,16 @@ cdef class ParametricCurve:
         :return: vector of first derivative   as numpy array of floats with shape (2,) for 2d case and (3,) for 3d case.
         """
         #print(np.asarray(result))
-        cdef double[:] v1=np.zeros(result.shape)
-        cdef double[:] v2=np.zeros(result.shape)
-        cdef double t1,t2
-        cdef start=DEFAULT_H+self._interval[0]
-        cdef end = self._interval[1]-DEFAULT_H
-
-        t1=t+DEFAULT_H
-        t2 = t - DEFAULT_H
+        cdef double[:] v1=np.zeros(result.shape[0])
+        cdef double[:] v2=np.zeros(result.shape[0])
+        # one-sided at the ends of the interval
+        cdef double t1=fmin(t+DEFAULT_H, self._interval[1])
+        cdef double t2=fmax(t-DEFAULT_H, self._interval[0])
         self.cevaluate(t1,v1)
         self.cevaluate(t2,v2)
-        result[0]=(v1[0]- v2[0])*(0.5*DEFAULT_H)
-        result[1] = (v1[1] - v2[1]) * (0.5 * DEFAULT_H)
-        result[2] = (v1[2] - v2[2]) * (0.5 * DEFAULT_H)
+        result[0] = (v1[0] - v2[0]) / (t1 - t2)
+        result[1] = (v1[1] - v2[1]) / (t1 - t2)
+        result[2] = (v1[2] - v2[2]) / (t1 - t2)
 
 
     cpdef double[:] end(self):
@@ -102,17 +99,15 @@ cdef class ParametricCurve:
             :param t:float
             :return: vector of first derivative   as numpy array of floats with shape (2,) for 2d case and (3,) for 3d case.
             """
-            cdef double[:] v1=np.zeros(result.shape)
-            cdef double[:] v2=np.zeros(result.shape)
-            cdef double t1,t2
-
-            t1=t+DEFAULT_H
-            t2 = t - DEFAULT_H
+            cdef double[:] v1=np.zeros(result.shape[0])
+            cdef double[:] v2=np.zeros(result.shape[0])
+            cdef double t1=fmin(t+DEFAULT_H, self._interval[1])
+            cdef double t2=fmax(t-DEFAULT_H, self._interval[0])
             self.cderivative(t1,v1)
             self.cderivative(t2,v2)
-            result[0] = (v1[0] - v2[0]) * (0.5 * DEFAULT_H)
-            result[1] = (v1[1] - v2[1]) * (0.5 * DEFAULT_H)
-            result[2] = (v1[2] - v2[2]) * (0.5 * DEFAULT_H)
+            result[0] = (v1[0] - v2[0]) / (t1 - t2)
+            result[1] = (v1[1] - v2[1]) / (t1 - t2)
+            result[2] = (v1[2] - v2[2]) / (t1 - t2)
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From 38621f13ca789e150446b713e367f9396c511f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 089/211] fix: calling a curve with a sequence of one parameter

---
 mmcore/geom/parametric.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 109ecfa..8eefd27 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -285,7 +285,7 @@ cdef class ParametricCurve:
 
         if res is None:  
             res=np.zeros((l,3))
-        if l>1:
+        if not isinstance(t,(float,int)):
             for i in range(l):
                 self.cevaluate(t[i],res[i])
             return res
-- 
2.43.0


From 2a724f6b43e3b96855e6f387d9ddcc75592968c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 090/211] fix: a reparametrized curve evaluates the curve it
 was made from

---
 mmcore/geom/parametric.pyx | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 8eefd27..b136aaf 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -302,6 +302,29 @@ cdef class ReparametrizedCurve(ParametricCurve):
         self._interval[1] = new_interval[1]
         self.curve=curve
 
+    cdef double _scale(self) noexcept nogil:
+        return (self.curve._interval[1] - self.curve._interval[0]) / (self._interval[1] - self._interval[0])
+
+    cdef double _remap(self, double t) noexcept nogil:
+        return self.curve._interval[0] + (t - self._interval[0]) * self._scale()
+
+    cdef void cevaluate(self, double t, double[:] result) noexcept nogil:
+        self.curve.cevaluate(self._remap(t), result)
+
+    cdef void cderivative(self, double t, double[:] result):
+        cdef double scale = self._scale()
+        self.curve.cderivative(self._remap(t), result)
+        result[0] *= scale
+        result[1] *= scale
+        result[2] *= scale
+
+    cdef void csecond_derivative(self, double t, double[:] result):
+        cdef double scale = self._scale()
+        self.curve.csecond_derivative(self._remap(t), result)
+        result[0] *= scale * scale
+        result[1] *= scale * scale
+        result[2] *= scale * scale
+
 
 cdef class ParametricSurface:
 
-- 
2.43.0


From 6803608780acdf4d7b1a4d22131c6c5763113c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 091/211] fix: derivatives of a ruled surface along curves
 whose interval is not [0, 1]

---
 mmcore/geom/parametric.pyx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index b136aaf..c3d6c92 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -724,7 +724,9 @@ cdef class Ruled(ParametricSurface):
         cdef double u1 = (u * (self.c0._interval[1] - self.c0._interval[0])) + self.c0._interval[0]
         cdef double u2 = (u * (self.c1._interval[1] - self.c1._interval[0])) + self.c1._interval[0]
         cdef double[:] temp=np.empty(3)
-        cdef double dv=1.-v
+        # u is mapped to the interval of each curve
+        cdef double dv=(1.-v) * (self.c0._interval[1] - self.c0._interval[0])
+        v *= self.c1._interval[1] - self.c1._interval[0]
 
         self.c1.cderivative(u2,temp)
         temp[0]*=v
@@ -745,7 +747,9 @@ cdef class Ruled(ParametricSurface):
             cdef double u1 = (u * (self.c0._interval[1] - self.c0._interval[0])) + self.c0._interval[0]
             cdef double u2 = (u * (self.c1._interval[1] - self.c1._interval[0])) + self.c1._interval[0]
             cdef double[:] temp=np.empty(3)
-            cdef double dv=1.-v
+            # u is mapped to the interval of each curve
+            cdef double dv=(1.-v) * (self.c0._interval[1] - self.c0._interval[0]) ** 2
+            v *= (self.c1._interval[1] - self.c1._interval[0]) ** 2
 
             self.c1.csecond_derivative(u2,temp)
             temp[0]*=v
-- 
2.43.0


From 6bc8cb6f36fcf5a398eab6c488a7427f7f394023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 092/211] fix: the derivative of a curve is one-sided at the
 ends of its own interval

---
 mmcore/geom/curves/curve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index b88f89c..135a3f0 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -205,13 +205,14 @@ class Curve:
         :param t:float
         :return: vector of first derivative   as numpy array of floats with shape (2,) for 2d case and (3,) for 3d case.
         """
-        if (1 - DEFAULT_H) >= t >= DEFAULT_H:
+        start, end = self.interval()
+        if (end - DEFAULT_H) >= t >= (start + DEFAULT_H):
             return (
                     (self.evaluate(t + DEFAULT_H) - self.evaluate(t - DEFAULT_H))
                     / 2
                     / DEFAULT_H
             )
-        elif t <= DEFAULT_H:
+        elif t <= start + DEFAULT_H:
             return (self.evaluate(t + DEFAULT_H) - self.evaluate(t)) / DEFAULT_H
         else:
             return (self.evaluate(t) - self.evaluate(t - DEFAULT_H)) / DEFAULT_H
-- 
2.43.0


From 146a5539800ad543bfc017dfd9a2c2d9812a0a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:52 +0000
Subject: [PATCH 093/211] fix: the circle of curvature of a reparametrized
 curve

---
 mmcore/geom/curves/curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/curve.py b/mmcore/geom/curves/curve.py
index 135a3f0..ab90b7a 100644
--- a/mmcore/geom/curves/curve.py
+++ b/mmcore/geom/curves/curve.py
@@ -572,7 +572,7 @@ class ReparametrizedCurve(Curve):
     def planes_at(self, t):
         return self.curve.planes_at(self.parametrization(t))
     def circle_of_curvature(self, t):
-        return self.circle_of_curvature(self.parametrization(t))
+        return self.curve.circle_of_curvature(self.parametrization(t))
 
 class ArcLengthParameterization(ReparametrizedCurve):
     def __init__(self, curve:Curve):
-- 
2.43.0


From 79de866bffc36cc60370205699db93676f65989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:56 +0000
Subject: [PATCH 094/211] fix: composing rational curves gives them the same
 weight in the common point

---
 mmcore/geom/curves/knot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 6f80f18..fa76799 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -764,6 +764,8 @@ def compose_curves(curves):
             wgts += list(weights)
 
         else:
+            # both curves have the same weight in the common point
+            weights = [w * wgts[-1] / weights[0] for w in weights]
             tmp_kv = [pdomain_end + k for k in knots[1:-(arg.degree + 1)]]
             kv += tmp_kv
             cpts += list(control_points[1:])
-- 
2.43.0


From c8a4c6365bad0c9493fc17c9e743d5882e148c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 095/211] fix: a parametric cylinder whose axis points along -x

---
 mmcore/geom/primitives.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index ada9699..78eb9d5 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -405,7 +405,7 @@ cdef class Cylinder(ParametricSurface):
         self._interval[1][1] =  self.D_norm
 
         # Choose an arbitrary vector W that is not collinear with D_hat
-        if np.allclose(self.D_hat, [1, 0, 0]):
+        if np.allclose(np.abs(self.D_hat), [1, 0, 0]):
             self.W = np.array([0., 1., 0.])
         else:
             self.W = np.array([1., 0., 0.])
-- 
2.43.0


From b246d3dc59c4d2fc0173d8d0282de73b492a9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 096/211] fix: the difference of implicit shapes removes the
 second from the first

---
 mmcore/geom/implicit/implicit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 7010d17..a1e4e47 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -438,7 +438,7 @@ class Sub2D(Implicit2D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
@@ -451,7 +451,7 @@ class Sub3D(Implicit3D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
-- 
2.43.0


From 752ad7b46c9f5b694a13ee1eab5a36166af69766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 097/211] fix: the bounds of the intersection of 2d implicit
 shapes

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index a1e4e47..945a661 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -396,7 +396,7 @@ class Intersection2D(Implicit2D):
     def solve_bounds(self):
         (axmin, aymin), (axmax, aymax) = self.a.bounds()
         (bxmin, bymin), (bxmax, bymax) = self.b.bounds()
-        self._bounds(max(axmin, bxmin), max(aymin, bymin)), (
+        self._bounds = (max(axmin, bxmin), max(aymin, bymin)), (
             min(axmax, bxmax),
             min(aymax, bymax),
         )
-- 
2.43.0


From d6b80998a280ec3b7647f1c87c7deaf5398c1e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 098/211] fix: evaluating an implicit shape at an array of
 points

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 945a661..270a85d 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -101,7 +101,7 @@ class Implicit:
         self.dxdy = fdm(self.implicit)
         self._tree = None
         #self.implicit = NpCache(self.implicit)
-        self._vimplicit = np.vectorize(self.implicit, signature="()->(i)")
+        self._vimplicit = np.vectorize(self.implicit, signature="(i)->()")
 
     def invalidate_cache(self):
         self.implicit.clear()
-- 
2.43.0


From ed622def8b44bbf9643c9306c7e18cf9313b8780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 099/211] fix: the quadtree of a shape covers the bounds it was
 given

---
 mmcore/geom/implicit/tree/tree2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/tree/tree2d.py b/mmcore/geom/implicit/tree/tree2d.py
index a56a7e0..2c82dd8 100644
--- a/mmcore/geom/implicit/tree/tree2d.py
+++ b/mmcore/geom/implicit/tree/tree2d.py
@@ -35,7 +35,7 @@ class ImplicitTree2D:
             self.depth = depth
         self.build_tree()
         self.collapse()
-        self.build_node(self._collapsed_tree, self.shape.bounds())
+        self.build_node(self._collapsed_tree, self.bounds)
 
     def build_node(self, tree, quad):
         if isinstance(tree, Empty):
-- 
2.43.0


From c42cf74719f989885335f700a5a3a5adee9f367b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 100/211] fix: the quadtree of a 2d implicit shape is built

---
 mmcore/geom/implicit/implicit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 270a85d..316558d 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -262,6 +262,7 @@ class Implicit2D(Implicit):
 
     def build_tree(self, depth=3):
         self._tree = ImplicitTree2D(self.implicit, depth, bounds=self.bounds())
+        self._tree.build(depth=depth)
 
 
 from mmcore.numeric.fdm import DEFAULT_H
-- 
2.43.0


From 4c5cb4a0624b8378380f2950260900de7a567500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 101/211] fix: the tangent lines from a point to a circle

---
 mmcore/geom/circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 51df3cd..012a918 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -144,7 +144,7 @@ def tangents_lines(circle: Circle2D, pt: np.ndarray):
     direct = pt[:2] - circle.origin[:2]
     b = np.hypot(*direct)  # hypot() also works here
     th = np.arccos(a / b)  # angle theta
-    d = np.arctan2(direct[0], direct[1])  # direction angle of point P from C
+    d = np.arctan2(direct[1], direct[0])  # direction angle of point P from C
     d1 = d + th  # direction angle of point T1 from C
     d2 = d - th  # direction angle of point T2 from C
 
-- 
2.43.0


From 64c7c889078898374f6d30afb0614c8d714a2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 102/211] fix: coincident circles have no two intersection
 points to return

---
 mmcore/geom/circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 012a918..e2f8fb4 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -122,7 +122,7 @@ def circle_intersection2d(c1: Circle2D, c2: Circle2D):
     d = np.sqrt((x2 - x1) ** 2 + (y2 - y1) ** 2)
 
     # Check if the circles intersect
-    if d > r1 + r2 or d < np.abs(r2 - r1):
+    if d > r1 + r2 or d < np.abs(r2 - r1) or d == 0.0:
         raise ValueError("Circles do not intersect")
 
     # Compute the coordinates of the intersection points
-- 
2.43.0


From 821d543a86825ca63bd13a6c4af114d3d4963656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 103/211] fix: deleting a key of an AVL tree keeps the data of
 the other keys

---
 mmcore/ds/tree/avl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 8fa2b83..dec5312 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -333,6 +333,7 @@ class AVL(object):
 
                     if successor:
                         self.node.key = successor.key
+                        self.node.data = successor.data
 
                         # Delete successor from the replaced node right subree
                         self.node.right.delete(successor.key)
-- 
2.43.0


From 7d9af2d02ce85eba615099eed9fdcf5f389bf6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 104/211] fix: setting a key an AVL tree already has replaces
 its data

---
 mmcore/ds/tree/avl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index dec5312..40384dc 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -373,7 +373,10 @@ class AVL(object):
         return self.search(item).data
 
     def __setitem__(self, item, val):
-        return self.insert(item, data=val)
+        node = self.search(item)
+        if node is None:
+            return self.insert(item, data=val)
+        node.data = val
 
     def __delitem__(self, item):
         self.delete(item)
-- 
2.43.0


From 2fc37ad51c91dddbf2ca328a51f604a661a9cc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 105/211] fix: appending to an AVL tree adds a new greatest key

---
 mmcore/ds/tree/avl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 40384dc..2533011 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -145,7 +145,10 @@ class AVL(object):
         self.rebalance()
 
     def append(self, data=None):
-        return self.insert(self.height + 1, data)
+        key, current = 0, self.node
+        while current:
+            key, current = current.key + 1, current.right.node
+        return self.insert(key, data)
 
     def rebalance(self):
         """
-- 
2.43.0


From a1687576790a457c04dd59afed43e9901fa06657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 106/211] fix: inserting at the start of a linked list

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index b0fd298..8682ea9 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -148,7 +148,7 @@ class CDLL:
             node.next = node
             node.previous = node
         else:
-            temp = self.head
+            temp = self.head.previous if index == 0 else self.head
             for _ in range(index - 1):
                 temp = temp.next
             temp.next.previous = node
-- 
2.43.0


From 0d2115e16de39366c2bb01e627d2e7d58947a502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 107/211] fix: iterating over an empty linked list yields
 nothing

---
 mmcore/ds/cdll/cdll.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 8682ea9..1938238 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -116,8 +116,6 @@ class CDLL:
             while (temp != self.head):
                 yield temp.data
                 temp = temp.next
-        else:
-            yield
 
     def __len__(self):
         return self.count
-- 
2.43.0


From cf50ab764ac1deaf5ae1848ca8c02a6e4e517c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 108/211] fix: removing the last or a missing value of a linked
 list

---
 mmcore/ds/cdll/cdll.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 1938238..c95a1da 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -193,13 +193,15 @@ class CDLL:
             if (temp.data == data):
 
                 if temp is self.head:
-                    self.head = self.head.next
+                    self.head = self.head.next if self.count > 1 else None
                 temp.previous.next, temp.next.previous = temp.next, temp.previous
 
                 self.count -= 1
                 break
 
             temp = temp.next
+        else:
+            raise ValueError(f"{data} is not in the list")
         self.remove_hook(temp)
         del temp.next
         del temp.previous
-- 
2.43.0


From 73a6693d762b82aa674c0bce054f55658c50b644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 109/211] fix: the remove hook is called for the last node of a
 linked list

---
 mmcore/ds/cdll/cdll.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index c95a1da..a46aba1 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -170,7 +170,8 @@ class CDLL:
         if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         if self.count == 1:
-            self.head = None
+            target, self.head = self.head, None
+            self.remove_hook(target)
             self.count = 0
             return
         target = self.head
-- 
2.43.0


From 65f33dcc8a2f7bd078fa7fbeab7f422b05da9c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 110/211] fix: a negative index before the start of a linked
 list is out of range

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index a46aba1..397eb7e 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -220,7 +220,7 @@ class CDLL:
         if index < 0:
             index = self.count + index
 
-        elif (index >= self.count):
+        if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         temp = self.head
         for _ in range(index):
-- 
2.43.0


From 281d9b4019aeac8003ec7946f65e66bc72adc97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 111/211] fix: replacing a node of a linked list links the new
 one on both sides

---
 mmcore/ds/cdll/cdll.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 397eb7e..da35a44 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -246,8 +246,9 @@ class CDLL:
         if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         if self.count == 1:
-            self.head =  node
-
+            node.next = node
+            node.previous = node
+            self.head = node
             return
         target = self.head
         for _ in range(index):
@@ -256,12 +257,12 @@ class CDLL:
 
         if target is self.head:
             node.next = self.head.next
-            node.prev = self.head.previous
+            node.previous = self.head.previous
             self.head.previous.next=node
             self.head.next.previous=node
             self.head = node
         node.next = target.next
-        node.prev = target.previous
+        node.previous = target.previous
 
         target.previous.next = node
         target.next.previous = node
-- 
2.43.0


From 2c5867e5bd04289d92aa59704d72940fc3a9d9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 112/211] fix: appending a used node to an empty linked list
 closes the circle

---
 mmcore/ds/cdll/cdll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index da35a44..c0b1cf3 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -125,6 +125,8 @@ class CDLL:
 
     def append_node(self, node):
         if self.head is None:
+            node.next = node
+            node.previous = node
             self.head = node
             self.count = 1
         else:
-- 
2.43.0


From 3d870aeb0413198de54857e46d6a06d48ef24a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 113/211] fix: building a k-d tree leaves the list of points as
 it was

---
 mmcore/ds/bkdtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index ab87678..a003120 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -90,7 +90,7 @@ class BalancedKDTree:
             for p in points:
                 if len(p) != dim:
                     raise ValueError("All points must have the same dimension.")
-            self.root = _build_balanced(points, depth=0)
+            self.root = _build_balanced(list(points), depth=0)
 
     def _is_unbalanced(self, node):
         """
-- 
2.43.0


From 3e4e06722fda4dbe03a33107e6a4d527217cbe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 114/211] fix: the k nearest points of a k-d tree look at the
 far side until there are k

---
 mmcore/ds/bkdtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index a003120..e6831dd 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -319,11 +319,11 @@ class BalancedKDTree:
         if diff <= 0:
             self._k_nearest_rec(node.left, target, k, heap, depth + 1)
             # Check other side if needed
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.right, target, k, heap, depth + 1)
         else:
             self._k_nearest_rec(node.right, target, k, heap, depth + 1)
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.left, target, k, heap, depth + 1)
 
     def k_nearest_neighbors(self, point, k=1):
-- 
2.43.0


From b1ddc0f3651f7e45e85852efc2643329c856c063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 115/211] fix: deleting a node of a k-d tree that has no right
 subtree

---
 mmcore/ds/bkdtree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index e6831dd..2be5890 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -214,8 +214,10 @@ class BalancedKDTree:
                 # find min in the left subtree along 'current_axis'
                 min_node = self._find_min(node.left, current_axis, depth + 1)
                 node.point = min_node.point
-                # Then, we have to remove that min from the left subtree
-                node.left = self._delete_rec(node.left, min_node.point, depth + 1)
+                # Then, we have to remove that min from the left subtree; the rest
+                # of it is not less than the new point, so it goes to the right
+                node.right = self._delete_rec(node.left, min_node.point, depth + 1)
+                node.left = None
             else:
                 # Case 3: Leaf node
                 return None
-- 
2.43.0


From c6a13992dd4bd5d426841d15aa5320f06f28bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 116/211] fix: deleting from a k-d tree a point on the far side
 of an equal coordinate

---
 mmcore/ds/bkdtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index 2be5890..6a7da1b 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -223,9 +223,14 @@ class BalancedKDTree:
                 return None
         else:
             # Not the node to delete, search left or right
+            left_size = node.left.size if node.left else 0
             if point[current_axis] <= node.point[current_axis]:
                 node.left = self._delete_rec(node.left, point, depth + 1)
-            else:
+            # Points with an equal coordinate may be on either side
+            if point[current_axis] > node.point[current_axis] or (
+                point[current_axis] == node.point[current_axis]
+                and (node.left.size if node.left else 0) == left_size
+            ):
                 node.right = self._delete_rec(node.right, point, depth + 1)
 
         _update_size(node)
-- 
2.43.0


From 4bfef472e0d5451578c4067bcab67a9ecbe647e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 117/211] fix: inserting into an R*-tree extends the rectangles
 on the way down

---
 mmcore/ds/tree/rtree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 8ccafdd..6240c85 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -76,6 +76,7 @@ class RStarTree:
                 if best_child is None or enlargement < best_enlargement:
                     best_child = child
                     best_enlargement = enlargement
+            best_child.mbr = best_child.mbr.union(rectangle)
             return self._choose_leaf(best_child, rectangle)
 
     def _split_node(self, node):
-- 
2.43.0


From 12cd869049f5e9c5f54401a797fae43cd6c15ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 118/211] fix: splitting a node of an R*-tree puts the new node
 at the same level

---
 mmcore/ds/tree/rtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 6240c85..f695f93 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -144,8 +144,11 @@ class RStarTree:
         if current_node.is_leaf:
             return None
         for child in current_node.children:
-            if child == target_node or self._find_parent(child, target_node):
+            if child == target_node:
                 return current_node
+            parent = self._find_parent(child, target_node)
+            if parent is not None:
+                return parent
         return None
 
     def search(self, rectangle):
-- 
2.43.0


From 89850d15a56f81df0b46585145d791efc6b5a73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 119/211] fix: removing a key of a skip list keeps the keys
 before it

---
 mmcore/numeric/algorithms/sweep_line/skiplist.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/skiplist.py b/mmcore/numeric/algorithms/sweep_line/skiplist.py
index 8511082..fbca26b 100644
--- a/mmcore/numeric/algorithms/sweep_line/skiplist.py
+++ b/mmcore/numeric/algorithms/sweep_line/skiplist.py
@@ -119,12 +119,13 @@ class SkipList():
     def _remove(self, key):
         # Removes node with given data. No operation if data is not in list.
 
-        node, update = self._scan(key)
+        node, _ = self._scan(key)
         if not node:
             return
 
         for level in range(len(node.succ)):
-            update[level].succ[level] = node.succ[level]
+            node.prev[level].succ[level] = node.succ[level]
+            node.succ[level].prev[level] = node.prev[level]
 
         # trim not used head pointers
         for i in reversed(range(len(self.head.succ))):
-- 
2.43.0


From 8249c76554412ac298a18ec1f0fc34e7e281525d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 120/211] fix: locating a key of a sorted sequence that is
 there or is past the end

---
 mmcore/numeric/algorithms/sweep_line/sortseq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/sortseq.py b/mmcore/numeric/algorithms/sweep_line/sortseq.py
index 29ba1a7..f401d9a 100644
--- a/mmcore/numeric/algorithms/sweep_line/sortseq.py
+++ b/mmcore/numeric/algorithms/sweep_line/sortseq.py
@@ -58,8 +58,10 @@ class SortSeq(SkipList):
         Returns the node (key',inf) in SortSeq such that key' is minimal
         with key' >= key. None if no such node exists
         """
-        _, update = self._scan(key)
-        return update[0].succ[0]
+        node, update = self._scan(key)
+        if node is None:
+            node = update[0].succ[0]
+        return None if node is self._tail else node
  
     @staticmethod
     def key(node):
-- 
2.43.0


From 9340271970295784b7f11260ad2fec13b3350e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 121/211] fix: the tuple of a sphere, a cylinder or a tube
 holds its numbers

---
 mmcore/geom/primitives.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index 78eb9d5..153ece9 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -211,7 +211,7 @@ cdef class Sphere(Implicit3D):
 
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(4,self.ox,self.oy,self.oz,self._radius )
+        cdef tuple tpl=(self.ox,self.oy,self.oz,self._radius)
         return tpl
 
     @property
@@ -308,7 +308,7 @@ cdef class ImplicitCylinder(Implicit3D):
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius,self._bounds)
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(7,self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius )
+        cdef tuple tpl=(self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius)
         return tpl
 
     @property
@@ -545,7 +545,7 @@ cdef class Tube(ImplicitCylinder):
     cdef void _calculate_bounds(self) noexcept nogil:
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius+self._thickness/2, self._bounds)
     def astuple(self):
-        cdef tuple tpl = PyTuple_Pack(8, self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
+        cdef tuple tpl = (self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
         return tpl
 
 
-- 
2.43.0


From 1d923f0ea91983d0d36a637ed3cceeb1ff16eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 122/211] fix: mmcore.numeric.gauss_map can be imported first

---
 mmcore/numeric/gauss_map.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 508385a..801026f 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -7,9 +7,6 @@ from mmcore.geom.nurbs import NURBSSurface, subdivide_surface, decompose_surface
 
 from mmcore.numeric.algorithms.quicksort import unique
 
-from mmcore.numeric.algorithms.surface_area import v_min
-from mmcore.numeric.intersection.csx import nurbs_csx
-from mmcore.numeric.intersection.ssx.boundary_intersection import extract_isocurve
 from mmcore.numeric.monomial import bezier_to_monomial, monomial_to_bezier
 from mmcore.numeric.vectors import unit, scalar_dot, scalar_norm
 from mmcore.numeric.algorithms.cygjk import gjk
@@ -646,6 +643,8 @@ def detect_intersections(surf1, surf2, tol=0.1, debug_tree: DebugTree=None) -> l
 
 if __name__ == "__main__":
     from mmcore._test_data import ssx as td
+    from mmcore.numeric.intersection.csx import nurbs_csx
+    from mmcore.numeric.intersection.ssx.boundary_intersection import extract_isocurve
 
     S1, S2 = td[1]
     TOL=1e-2
-- 
2.43.0


From e6608a4bff9dafb6663a885d6d05a3e8f789e1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 123/211] fix: is_bezier looks at the knots of both directions

---
 mmcore/numeric/gauss_map.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 801026f..067ab31 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -107,11 +107,11 @@ def cross_product(a, b):
 
 
 def is_bezier(surface: NURBSSurface):
-    kv, ku = unique(surface.knots_u).shape[0], unique(surface.knots_u).shape[0]
-    if kv.shape[0] < 2 or ku.shape[0] < 2:
+    ku, kv = len(unique(surface.knots_u)), len(unique(surface.knots_v))
+    if ku < 2 or kv < 2:
         raise ValueError("Degenerated patch")
 
-    return kv.shape[0] == 2 and ku.shape[0] == 2
+    return ku == 2 and kv == 2
 
 
 def normalize_polynomial(v, epsilon=1e-10):
-- 
2.43.0


From 63a68f4b3acfa112e0560a7409faf051f4eedbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:34 +0000
Subject: [PATCH 124/211] fix: cross_product_monomial does not print its loop
 indices

---
 mmcore/numeric/monomial.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 6c89eec..2b7fb8a 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -193,8 +193,6 @@ def cross_product_monomial(a_coeffs, b_coeffs):
     n, m = n1 + n2 - 1, m1 + m2 - 1
 
     result = np.zeros((n, m, 3))
-    print(list(product(range(n1), range(m1), range(n2), range(m2))))
-
     for i1, j1, i2, j2 in product(range(n1), range(m1), range(n2), range(m2)):
         i, j = i1 + i2, j1 + j2
         result[i, j, 0] += (
-- 
2.43.0


From e83c458bd55c95f390899f2abe0db61dc77f1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 125/211] fix: Monomial2D.to_bezier and from_bezier convert
 between the bases

---
 mmcore/numeric/monomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 2b7fb8a..0ad7011 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -293,12 +293,12 @@ class Monomial2D(Surface):
         m,n=self.coeffs.shape[:2]
         m-=1
         n-=1
-        return NURBSSurface(self.coeffs, (m,n))
+        return NURBSSurface(self.to_bernstein_basis(), (m,n))
     def evaluate_v2(self, u,v):
         return evaluate_monomial2d(self.coeffs, u, v)
     @classmethod
     def from_bezier(cls, surf:NURBSSurface):
-        return cls(np.array(surf.control_points).copy())
+        return cls.from_bernstein_basis(np.array(surf.control_points))
 
     @classmethod
     def from_nurbs(cls, surf: NURBSSurface):
-- 
2.43.0


From 20a30a17d16d4940912ef52c6d62ff8ac2a79968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 126/211] fix: compute_gauss_mapw multiplies the polynomials of
 a rational patch

---
 mmcore/numeric/gauss_map.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 067ab31..21b6a71 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -140,26 +140,36 @@ print(gauss_map)
 """
 
 
+def scalar_product(w, a):
+    """Multiply a polynomial patch by a scalar polynomial."""
+    n1, m1 = w.shape
+    n2, m2, dim = a.shape
+    result = np.zeros((n1 + n2 - 1, m1 + m2 - 1, dim))
+    for i in range(n1):
+        for j in range(m1):
+            result[i:i + n2, j:j + m2, :] += w[i, j] * a
+    return result
+
+
 def compute_gauss_mapw(control_points, weights=None):
     """Compute the Gauss map for a rational Bézier patch."""
-    if weights is not None:
-        # Convert to homogeneous coordinates
-        control_points = control_points * weights[:, :, np.newaxis]
-        control_points = np.concatenate([control_points, weights[:, :, np.newaxis]], axis=-1)
+    if weights is None:
+        return compute_gauss_map(control_points)
+
+    # Convert to homogeneous coordinates
+    control_points = control_points * weights[:, :, np.newaxis]
+    control_points = np.concatenate([control_points, weights[:, :, np.newaxis]], axis=-1)
 
     F = bezier_to_monomial(control_points)
     Fu = compute_partial_derivative(F, "u")
     Fv = compute_partial_derivative(F, "v")
+    w, wu, wv = F[:, :, 3], Fu[:, :, 3], Fv[:, :, 3]
+    F, Fu, Fv = F[:, :, :3], Fu[:, :, :3], Fv[:, :, :3]
 
-    if weights is not None:
-        # Handle rational case
-        w = F[:, :, -1]
-        Fu = Fu[:, :, :3] * w[:, :, np.newaxis] - F[:, :, :3] * Fu[:, :, -1:]
-        Fv = Fv[:, :, :3] * w[:, :, np.newaxis] - F[:, :, :3] * Fv[:, :, -1:]
-        Fu = Fu / (w ** 2)[:, :, np.newaxis]
-        Fv = Fv / (w ** 2)[:, :, np.newaxis]
-
-    N = cross_product(Fu, Fv)
+    # With S = F / w the normal S_u x S_v equals this polynomial divided by w ** 3
+    N = (scalar_product(w, cross_product(Fu, Fv))
+         + scalar_product(wu, cross_product(Fv, F))
+         + scalar_product(wv, cross_product(F, Fu)))
     #N_normalized = normalize_polynomial(N)
     gauss_map = monomial_to_bezier(N)
 
-- 
2.43.0


From 66741ccb867eefc58d31a096091b2cf6b56d0412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 127/211] fix: the Gauss map of a rational patch takes its
 weights into account

---
 mmcore/numeric/gauss_map.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 21b6a71..c5e12da 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -205,7 +205,11 @@ class GaussMap:
 
     @classmethod
     def from_surf(cls, surf):
-        _map = compute_gauss_map(np.array(surf.control_points))
+        weights = np.array(surf.control_points_w)[:, :, 3]
+        if np.all(weights == weights[0, 0]):
+            _map = compute_gauss_map(np.array(surf.control_points))
+        else:
+            _map = compute_gauss_mapw(np.array(surf.control_points), weights)
         #print((_map.tolist(),np.array(surf.control_points).tolist()))
         # Compute convex hull
         return cls(NURBSSurface(np.array(unit(_map.reshape((-1, 3)))).reshape(_map.shape),
-- 
2.43.0


From 8e60071eb652a6300b8abe58eefa91e32a39f0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:09 +0000
Subject: [PATCH 128/211] fix: the Gauss map of a sub-patch holds the normals
 of the sub-patch

---
 mmcore/numeric/gauss_map.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index c5e12da..2d075ec 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -212,8 +212,7 @@ class GaussMap:
             _map = compute_gauss_mapw(np.array(surf.control_points), weights)
         #print((_map.tolist(),np.array(surf.control_points).tolist()))
         # Compute convex hull
-        return cls(NURBSSurface(np.array(unit(_map.reshape((-1, 3)))).reshape(_map.shape),
-                                (_map.shape[0] - 1, _map.shape[1] - 1)), surf)
+        return cls(NURBSSurface(_map, (_map.shape[0] - 1, _map.shape[1] - 1)), surf)
 
     def subdivide(self):
         (umin, umax), (vmin, vmax) = self.surface.interval()
-- 
2.43.0


From 8c102936811fa86e39167fc1d5e00d4b3a34626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 129/211] fix: binomial_coefficient_py does not read past its
 table

---
 mmcore/numeric/binom.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/binom.pyx b/mmcore/numeric/binom.pyx
index 67df244..5604c1c 100644
--- a/mmcore/numeric/binom.pyx
+++ b/mmcore/numeric/binom.pyx
@@ -1,5 +1,6 @@
 
 cimport cython
+from math import comb
 
 cimport numpy as cnp
 
@@ -975,5 +976,7 @@ cdef public double binomial_coefficient(int i, int j) noexcept nogil:
 @cython.wraparound(False)
 @cython.cdivision(True)
 def binomial_coefficient_py(int i, int j):
-    return binomial_coefficients[i][j]
+    if 0 <= i <= 30 and 0 <= j <= 30:
+        return binomial_coefficients[i][j]
+    return float(comb(i, j))
 
-- 
2.43.0


From 3619eee445bd2be4a4e503ef8505baaf093705a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 130/211] fix: unique neither sorts its argument nor
 reallocates numpy's memory

---
 mmcore/numeric/algorithms/_unique.c | 32 +++++++++--------------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/mmcore/numeric/algorithms/_unique.c b/mmcore/numeric/algorithms/_unique.c
index 5d6c927..aee3305 100644
--- a/mmcore/numeric/algorithms/_unique.c
+++ b/mmcore/numeric/algorithms/_unique.c
@@ -93,37 +93,25 @@ double* uniqueSorted(double *arr, int n, int *new_len) {
 }
 
 int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
-    // If the array is empty or has one element, return it as is
+    // The memory of result belongs to the caller and holds at least n elements
     if (n == 0) {
         *new_len = 0;
-        return 0;
-    }
-    if (n == 1) {
-        *new_len = 1;
-        result = (double*)realloc(result, sizeof(double));
-        result[0] = arr[0];
         return 1;
     }
+    for (int i = 0; i < n; i++) {
+        result[i] = arr[i];
+    }
 
-    // Sort the array
-    qsort(arr, n, sizeof(double), compare2);
-
-    // Allocate memory for the unique sorted array
-    result = (double*)realloc(result,n * sizeof(double));
-    int j = 0;
-
-    // Add the first element
-    result[j++] = arr[0];
+    // Sort the copy
+    qsort(result, n, sizeof(double), compare2);
 
-    // Iterate over the sorted array and add only unique elements
+    // Keep only unique elements
+    int j = 1;
     for (int i = 1; i < n; i++) {
-        if (arr[i] != arr[i-1]) {
-            result[j++] = arr[i];
+        if (result[i] != result[j-1]) {
+            result[j++] = result[i];
         }
     }
-
-    // Resize the memory to match the number of unique elements
-    result = (double*)realloc(result, j * sizeof(double));
     *new_len = j;
 
     return 1;
-- 
2.43.0


From 2ad80de9390339b5c8942adc42afd6809424c9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 131/211] fix: the comparison of ints does not overflow

---
 mmcore/numeric/algorithms/_unique.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/algorithms/_unique.c b/mmcore/numeric/algorithms/_unique.c
index aee3305..53857e4 100644
--- a/mmcore/numeric/algorithms/_unique.c
+++ b/mmcore/numeric/algorithms/_unique.c
@@ -117,10 +117,8 @@ int uniqueSortedByRef(double *arr, int n, int *new_len, double *result) {
     return 1;
 }
 int compare3(const void *a, const void *b) {
-    int diff = (*(int*)a - *(int*)b);
-    if (diff > 0) return 1;
-    else if (diff < 0) return -1;
-    else return 0;
+    int x = *(int*)a, y = *(int*)b;
+    return (x > y) - (x < y);
 }
 
 // Function to sort and remove duplicates
-- 
2.43.0


From 9bf4db0691e08fe1efe90668d3e6e0e521be2c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 132/211] fix: uniqueSortedIntEmplace fills the array it was
 given

---
 mmcore/numeric/algorithms/_unique.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mmcore/numeric/algorithms/_unique.c b/mmcore/numeric/algorithms/_unique.c
index 53857e4..5ba49ae 100644
--- a/mmcore/numeric/algorithms/_unique.c
+++ b/mmcore/numeric/algorithms/_unique.c
@@ -167,9 +167,8 @@ void uniqueSortedIntEmplace(int *arr, int n, int *new_len,int *unique_arr ) {
     }
     if (n == 1) {
         *new_len = 1;
-        int *result = (int*)malloc(sizeof(int));
-        result[0] = arr[0];
-        return ;
+        unique_arr[0] = arr[0];
+        return;
     }
 
     // Sort the array
@@ -189,9 +188,6 @@ void uniqueSortedIntEmplace(int *arr, int n, int *new_len,int *unique_arr ) {
         }
     }
 
-    // Resize the memory to match the number of unique elements
-    unique_arr = (int*)realloc(unique_arr, j * sizeof(int));
+    // The memory of unique_arr belongs to the caller
     *new_len = j;
-
-   
 }
-- 
2.43.0


From d3ae74db85b9fb316fea45f311e139a8178b1bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:52 +0000
Subject: [PATCH 133/211] Revert "fix: the Gauss map of a sub-patch holds the
 normals of the sub-patch"

This reverts commit 8e60071eb652a6300b8abe58eefa91e32a39f0e6.
---
 mmcore/numeric/gauss_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/gauss_map.py b/mmcore/numeric/gauss_map.py
index 2d075ec..c5e12da 100644
--- a/mmcore/numeric/gauss_map.py
+++ b/mmcore/numeric/gauss_map.py
@@ -212,7 +212,8 @@ class GaussMap:
             _map = compute_gauss_mapw(np.array(surf.control_points), weights)
         #print((_map.tolist(),np.array(surf.control_points).tolist()))
         # Compute convex hull
-        return cls(NURBSSurface(_map, (_map.shape[0] - 1, _map.shape[1] - 1)), surf)
+        return cls(NURBSSurface(np.array(unit(_map.reshape((-1, 3)))).reshape(_map.shape),
+                                (_map.shape[0] - 1, _map.shape[1] - 1)), surf)
 
     def subdivide(self):
         (umin, umax), (vmin, vmax) = self.surface.interval()
-- 
2.43.0


From 4e5862176dbbf5177160903eaf8df9313f88f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 134/211] fix: matrix.inv leaves its argument alone and takes
 views of any layout

---
 mmcore/numeric/matrix/__init__.pyx | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/mmcore/numeric/matrix/__init__.pyx b/mmcore/numeric/matrix/__init__.pyx
index 354372a..0598da4 100644
--- a/mmcore/numeric/matrix/__init__.pyx
+++ b/mmcore/numeric/matrix/__init__.pyx
@@ -16,19 +16,21 @@ cdef class Matrix:
 cpdef double[:,:] inv(double[:,:] arr,double[:,:] result =None):
     cdef matrix m = matrix(NULL, 0,0);
     cdef matrix inversion = matrix(NULL, 0,0);
-    m.data=&arr[0,0]
-    m.rows=arr.shape[0]
-    m.columns = arr.shape[1]
+    # The decomposition works in place on contiguous memory
+    cdef double[:,::1] lu = np.array(arr, dtype=float, order="C")
+    cdef double[:,::1] inverse = np.zeros((arr.shape[0], arr.shape[1]))
+    m.data=&lu[0,0]
+    m.rows=lu.shape[0]
+    m.columns = lu.shape[1]
 
+    inversion.data=&inverse[0,0]
+    inversion.rows =inverse.shape[0]
+    inversion.columns = inverse.shape[1]
 
-    set_matrix_from_array(&m,&arr[0,0])
+    invert_matrix(&m,&inversion)
 
     if result is None:
-        result=np.zeros(arr.shape)
-    inversion.data=&result[0,0]
-    inversion.rows =result.shape[0]
-    inversion.columns = result.shape[1]
-
-    invert_matrix(&m,&inversion)
-    
+        result=inverse
+    else:
+        result[:,:]=inverse
     return result
\ No newline at end of file
-- 
2.43.0


From 8bccba308da60003c545bdf43bf82292bc6b0dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 135/211] Revert "fix: matrix.inv leaves its argument alone and
 takes views of any layout"

This reverts commit 4e5862176dbbf5177160903eaf8df9313f88f991.
---
 mmcore/numeric/matrix/__init__.pyx | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/mmcore/numeric/matrix/__init__.pyx b/mmcore/numeric/matrix/__init__.pyx
index 0598da4..354372a 100644
--- a/mmcore/numeric/matrix/__init__.pyx
+++ b/mmcore/numeric/matrix/__init__.pyx
@@ -16,21 +16,19 @@ cdef class Matrix:
 cpdef double[:,:] inv(double[:,:] arr,double[:,:] result =None):
     cdef matrix m = matrix(NULL, 0,0);
     cdef matrix inversion = matrix(NULL, 0,0);
-    # The decomposition works in place on contiguous memory
-    cdef double[:,::1] lu = np.array(arr, dtype=float, order="C")
-    cdef double[:,::1] inverse = np.zeros((arr.shape[0], arr.shape[1]))
-    m.data=&lu[0,0]
-    m.rows=lu.shape[0]
-    m.columns = lu.shape[1]
+    m.data=&arr[0,0]
+    m.rows=arr.shape[0]
+    m.columns = arr.shape[1]
 
-    inversion.data=&inverse[0,0]
-    inversion.rows =inverse.shape[0]
-    inversion.columns = inverse.shape[1]
 
-    invert_matrix(&m,&inversion)
+    set_matrix_from_array(&m,&arr[0,0])
 
     if result is None:
-        result=inverse
-    else:
-        result[:,:]=inverse
+        result=np.zeros(arr.shape)
+    inversion.data=&result[0,0]
+    inversion.rows =result.shape[0]
+    inversion.columns = result.shape[1]
+
+    invert_matrix(&m,&inversion)
+    
     return result
\ No newline at end of file
-- 
2.43.0


From 3ecd2c38c86b019666646ee4e19f684699e152d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 136/211] fix: finite differences at points with integer
 coordinates

---
 mmcore/numeric/fdm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/fdm.py b/mmcore/numeric/fdm.py
index ed20d19..3ccb58c 100644
--- a/mmcore/numeric/fdm.py
+++ b/mmcore/numeric/fdm.py
@@ -430,7 +430,7 @@ def hessian(f, point, h=DEFAULT_H):
     print(hessian_matrix)
     ```
     """
-    point = np.asarray(point)
+    point = np.array(point, dtype=float)
     n = point.size
     H = np.zeros((n, n))
     fp = f(point)
@@ -472,7 +472,7 @@ def gradient(f, point, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    point = np.asarray(point)
+    point = np.array(point, dtype=float)
     grad = np.zeros_like(point)
     for i in range(point.size):
 
@@ -560,7 +560,7 @@ def hessian_multi(f, points, h=DEFAULT_H):
     print(hessian_matrix)
     ```
     """
-    points = np.array(points)
+    points = np.array(points, dtype=float)
     n = points.shape[-1]
     H = np.zeros((points.shape[0], n, n))
     fp = f(points.T)
@@ -615,7 +615,7 @@ def gradient_multi(f, points, h=DEFAULT_H):
 
     :return: The gradient of the function at the given point.
     """
-    points = np.array(points)
+    points = np.array(points, dtype=float)
     grad = np.zeros(points.shape)
 
     for i in range(points.shape[-1]):
-- 
2.43.0


From 58e96d6eec820d0b49dbcd4ac1012e7b42f40b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 137/211] fix: divide_and_conquer_min_3d looks at every face
 and edge of the box

---
 mmcore/numeric/divide_and_conquer.py | 47 ++--------------------------
 1 file changed, 3 insertions(+), 44 deletions(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 4e7764f..8213303 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -302,51 +302,10 @@ def divide_and_conquer_min_3d(f, x_range, y_range, z_range, tol=1e-3):
         y_mid = (y_min + y_max) / 2
         z_mid = (z_min + z_max) / 2
 
-        # Evaluate the function at the corners of the cube and midpoints of the edges
-        f000 = f(x_min, y_min, z_min)
-        f100 = f(x_max, y_min, z_min)
-        f010 = f(x_min, y_max, z_min)
-        f110 = f(x_max, y_max, z_min)
-        f001 = f(x_min, y_min, z_max)
-        f101 = f(x_max, y_min, z_max)
-        f011 = f(x_min, y_max, z_max)
-        f111 = f(x_max, y_max, z_max)
-
-        f_mid_x_min_y_min = f(x_mid, y_min, z_min)
-        f_mid_x_max_y_min = f(x_mid, y_max, z_min)
-        f_mid_x_min_y_max = f(x_min, y_mid, z_min)
-        f_mid_x_max_y_max = f(x_max, y_mid, z_min)
-        f_mid_z_min = f(x_mid, y_mid, z_min)
-
-        f_mid_x_min_z_max = f(x_min, y_min, z_mid)
-        f_mid_x_max_z_max = f(x_max, y_min, z_mid)
-        f_mid_y_min_z_max = f(x_min, y_max, z_mid)
-        f_mid_y_max_z_max = f(x_max, y_max, z_mid)
-        f_mid_z_max = f(x_mid, y_mid, z_max)
-
-        f_mid_xyz = f(x_mid, y_mid, z_mid)
-
-        # Create a list of (value, coordinates) pairs
+        # Evaluate the function at the corners, the midpoints of the edges and faces and the center of the box
         candidates = [
-            (f000, (x_min, y_min, z_min)),
-            (f100, (x_max, y_min, z_min)),
-            (f010, (x_min, y_max, z_min)),
-            (f110, (x_max, y_max, z_min)),
-            (f001, (x_min, y_min, z_max)),
-            (f101, (x_max, y_min, z_max)),
-            (f011, (x_min, y_max, z_max)),
-            (f111, (x_max, y_max, z_max)),
-            (f_mid_x_min_y_min, (x_mid, y_min, z_min)),
-            (f_mid_x_max_y_min, (x_mid, y_max, z_min)),
-            (f_mid_x_min_y_max, (x_min, y_mid, z_min)),
-            (f_mid_x_max_y_max, (x_max, y_mid, z_min)),
-            (f_mid_z_min, (x_mid, y_mid, z_min)),
-            (f_mid_x_min_z_max, (x_min, y_min, z_mid)),
-            (f_mid_x_max_z_max, (x_max, y_min, z_mid)),
-            (f_mid_y_min_z_max, (x_min, y_max, z_mid)),
-            (f_mid_y_max_z_max, (x_max, y_max, z_mid)),
-            (f_mid_z_max, (x_mid, y_mid, z_max)),
-            (f_mid_xyz, (x_mid, y_mid, z_mid))
+            (f(*point), point)
+            for point in itertools.product((x_min, x_max, x_mid), (y_min, y_max, y_mid), (z_min, z_max, z_mid))
         ]
 
         # Find the minimum value and its coordinates
-- 
2.43.0


From 4896eaa338722acb529a35b6da840dcf32327fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 138/211] fix: divide_and_conquer_min_nd searches the whole box

---
 mmcore/numeric/divide_and_conquer.py | 24 ++----------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 8213303..753b9ff 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -342,28 +342,8 @@ def divide_and_conquer_min_nd(f, bounds, tol=1e-6):
     while any((maxs[i] - mins[i]) > tol for i in range(n_vars)):
         mids = [(mins[i] + maxs[i]) / 2 for i in range(n_vars)]
 
-        # Evaluate function depending on the dimensionality of the problem
-        candidates = []
-
-        # For the 2D case, consider dividing along one dimension to generate two curves
-        if n_vars == 2:
-            for i in range(n_vars):
-                for corner in [0, 1]:
-                    point = [mins[j] if j != i else (mins[i] + maxs[i]) / 2 for j in range(n_vars)]
-                    candidates.append((f(*point), point))
-
-        # For the 3D case, consider dividing along two dimensions to generate four surfaces
-        elif n_vars == 3:
-            for corner in itertools.product([0, 1], repeat=2):  # Generate four surfaces
-                point = [mins[i] if corner[i % 2] == 0 else maxs[i] for i in range(n_vars)]
-                candidates.append((f(*point), point))
-
-        # For higher dimensions, we consider more flexible subdivision strategies
-        else:
-            for corner in itertools.product([0, 1], repeat=n_vars):
-                # Generate all corner points
-                point = [mins[i] if corner[i] == 0 else maxs[i] for i in range(n_vars)]
-                candidates.append((f(*point), point))
+        # Evaluate function at the corners, the centers of the edges and faces and the center of the box
+        candidates = [(f(*point), point) for point in itertools.product(*zip(mins, maxs, mids))]
 
         # Find the minimum value and its coordinates
         min_val, min_coords = min(candidates, key=lambda item: item[0])
-- 
2.43.0


From bd8d34759f8a41bf0eb3825b97d3d63c87a0e876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 139/211] fix: scalar_min_1d finds a minimum at the end of the
 range

---
 mmcore/numeric/bisection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/bisection.py b/mmcore/numeric/bisection.py
index 39179cc..d8591bb 100644
--- a/mmcore/numeric/bisection.py
+++ b/mmcore/numeric/bisection.py
@@ -97,7 +97,7 @@ def scalar_min_1d(f, start, end, step=0.001, divs=32):
         if abs(t[0] - t[1]) <= step:
             return t[i]
         else:
-            ixs = np.array([i - 1, i + 1], int)
+            ixs = np.array([max(i - 1, 0), min(i + 1, len(t) - 1)], int)
 
             return wrap(t[ixs[0]], t[ixs[1]])
 
-- 
2.43.0


From 86313252b3ea75500d58fd9179e34c042e49ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 140/211] fix: newton_method2 solves systems that need pivoting

---
 mmcore/numeric/newton/cnewton.pyx | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/newton/cnewton.pyx b/mmcore/numeric/newton/cnewton.pyx
index 5f53044..1703ef0 100644
--- a/mmcore/numeric/newton/cnewton.pyx
+++ b/mmcore/numeric/newton/cnewton.pyx
@@ -21,6 +21,7 @@ ctypedef double DTYPE_t
 
 
 from libc.math cimport fabs
+from libc.stdlib cimport malloc, free
 
 
 
@@ -325,22 +326,31 @@ cdef inline int lu_solve(double[:, ::1] A,
         int i, j
         double sum_val
 
+    # The rows of A are permuted, the unknowns are not
+    cdef double* x = <double*> malloc(n * sizeof(double))
+    if x == NULL:
+        return 1
+
     # 1. Forward substitution for L
     for i in range(n):
         sum_val = b[pivot_indices[i]]
         for j in range(i):
-            sum_val -= A[pivot_indices[i], j] * b[pivot_indices[j]]
-        b[pivot_indices[i]] = sum_val
+            sum_val -= A[pivot_indices[i], j] * x[j]
+        x[i] = sum_val
 
     # 2. Back substitution for U
     for i in reversed(range(n)):
-        sum_val = b[pivot_indices[i]]
+        sum_val = x[i]
         for j in range(i+1, n):
-            sum_val -= A[pivot_indices[i], j] * b[pivot_indices[j]]
+            sum_val -= A[pivot_indices[i], j] * x[j]
         if A[pivot_indices[i], i] == 0.0:
+            free(x)
             return 1  # singular
-        b[pivot_indices[i]] = sum_val / A[pivot_indices[i], i]
+        x[i] = sum_val / A[pivot_indices[i], i]
 
+    for i in range(n):
+        b[i] = x[i]
+    free(x)
     return 0
 
 
-- 
2.43.0


From 51078720f23f0ee4289e2b4edb7bd9cf25a6a534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 141/211] fix: in-place vector operators replaced the vector by
 None

---
 mmcore/api/_base_vectors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index d77e1b5..3d199d3 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -32,6 +32,7 @@ class BaseVector(Base):
             self._array += other._array
         else:
             self._array += other
+        return self
 
     def __mul__(self, other: SupportVector):
         if isinstance(other, self.__class__):
@@ -44,6 +45,7 @@ class BaseVector(Base):
             self._array *= other._array
         else:
             self._array *= other
+        return self
 
     def __sub__(self, other: SupportVector):
         if isinstance(other, self.__class__):
@@ -56,6 +58,7 @@ class BaseVector(Base):
             self._array -= other._array
         else:
             self._array -= other
+        return self
 
     def __eq__(self, other: V):
         return np.allclose(self._array, other._array)
-- 
2.43.0


From d645a569e26e86a98f5a1ce07eddfe6aa4f59fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 142/211] fix: BaseVector.is_parallel held only for unit
 vectors

---
 mmcore/api/_base_vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/_base_vectors.py b/mmcore/api/_base_vectors.py
index 3d199d3..e1196c2 100644
--- a/mmcore/api/_base_vectors.py
+++ b/mmcore/api/_base_vectors.py
@@ -138,7 +138,7 @@ class BaseVector(Base):
         vector : The vector to test parallelism to.
         Returns true if the vectors are parallel.
         """
-        return np.isclose(abs(self.dot(vector)), 1.0)
+        return np.isclose(abs(self.dot(vector)), norm(self._array) * norm(vector._array))
 
     def is_perpendicular(self, vector: Type[Self]) -> bool:
         """
-- 
2.43.0


From aeb9e4c6943c3cec66553cd5a0c9672974241cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 143/211] fix: Vector2D.is_parallel held only for unit vectors
 of the same direction

---
 mmcore/api/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index a405c84..3bb89f9 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -61,7 +61,7 @@ class Vector2D(BaseVector):
         vector : The vector to compare with for parallelism.
         Returns true if the vectors are parallel.
         """
-        return np.isclose(scalar_dot(self._array, vector._array), 1)
+        return super().is_parallel(vector)
 
     def is_perpendicular(self, vector: Vector2D) -> bool:
         """
-- 
2.43.0


From c9fc078da110ffe1e52f2117363fdc06de9b584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 144/211] fix: Vector3D.length called dist with one argument

---
 mmcore/api/vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 3bb89f9..e5779b7 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -6,7 +6,7 @@ from scipy.spatial.transform import Rotation as R
 
 from mmcore.api._base import Base
 from mmcore.api._base_vectors import BaseVector, BaseMatrix
-from mmcore.geom.vec import angle, cross, unit, dist
+from mmcore.geom.vec import angle, cross, norm, unit, dist
 from ..numeric import scalar_dot
 
 
@@ -241,7 +241,7 @@ class Vector3D(BaseVector):
         """
         Get the length of this vector.
         """
-        return dist(self._array)
+        return norm(self._array)
 
     @property
     def x(self) -> float:
-- 
2.43.0


From 16574fc74b39b2d328e69c6bf9e877de0a7b7b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 145/211] fix: Vector2D.transform multiplied a 3x3 matrix by a
 2-vector

---
 mmcore/api/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index e5779b7..3185f15 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -106,7 +106,7 @@ class Vector2D(BaseVector):
         matrix : The Matrix2D object that defines the transformation.
         Returns true if successful.
         """
-        self._array[:] = matrix._array.dot(self._array)
+        self._array[:] = (matrix @ self)._array
 
         return True
 
-- 
2.43.0


From 4dbd88e40e5ccb008bf64db5debe841c6bcf2b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 146/211] fix: Vector3D.transform read an attribute the matrix
 does not have

---
 mmcore/api/vectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 3185f15..19b509c 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -225,7 +225,7 @@ class Vector3D(BaseVector):
         matrix : The transformation matrix.
         Returns true if successful.
         """
-        self._array[:] = matrix.m.dot(self._array)
+        self._array[:] = (matrix @ self)._array
         return True
 
     def __array__(self, dtype=float):
-- 
2.43.0


From 3038b8a9d08a2d25920095a5e5887ba2497352d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 147/211] fix: Matrix2D and Matrix3D overwrote the given cells
 with the identity

---
 mmcore/api/vectors.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 19b509c..0ddfd29 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -342,12 +342,10 @@ class Matrix2D(BaseMatrix):
 
     def __init__(self, arr=None):
         super().__init__()
-        self._array = (
-            np.zeros([3, 3])
-            if not arr
-            else (arr if isinstance(arr, np.ndarray) else np.array(arr))
-        )
-        self.set_to_identity()
+        if arr is None:
+            self._array = np.eye(3)
+        else:
+            self._array = np.array(arr, float)
 
     @staticmethod
     def cast(arg) -> Matrix2D:
@@ -476,12 +474,10 @@ class Matrix3D(BaseMatrix):
 
     def __init__(self, arr=None):
         super().__init__()
-        self._array = (
-            np.zeros([4, 4])
-            if not arr
-            else (arr if isinstance(arr, np.ndarray) else np.array(arr))
-        )
-        self.set_to_identity()
+        if arr is None:
+            self._array = np.eye(4)
+        else:
+            self._array = np.array(arr, float)
 
     @classmethod
     def create(cls) -> Matrix3D:
-- 
2.43.0


From c8836747d569829083bddd8aed6d0d90e089a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 148/211] fix: set_with_coordinate_system stored the axes and
 origin transposed

---
 mmcore/api/vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 0ddfd29..80a0b3c 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -309,7 +309,7 @@ def _construct_affine2d(origin, xaxis, yaxis):
     t = np.array(origin)  # translation along x, y and z axis
 
     # Construct the 4x4 affine matrix
-    affine_matrix = np.array([np.append(x, 0), np.append(y, 0), np.append(t, 1)])
+    affine_matrix = np.array([np.append(x, 0), np.append(y, 0), np.append(t, 1)]).T
 
     return affine_matrix
 
@@ -328,7 +328,7 @@ def _construct_affine3d(origin, xaxis, yaxis, zaxis):
     # Construct the 4x4 affine matrix
     affine_matrix = np.array(
         [np.append(x, 0), np.append(y, 0), np.append(z, 0), np.append(t, 1)]
-    )
+    ).T
 
     return affine_matrix
 
-- 
2.43.0


From 5d39c08dfbb2418f1d08928897932ad99a7de527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 149/211] fix: set_to_align_coordinate_systems inverted a truth
 value

---
 mmcore/api/vectors.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 80a0b3c..5243cba 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -397,10 +397,11 @@ class Matrix2D(BaseMatrix):
         """
         Sets this matrix to be the matrix that maps from the 'from' coordinate system to the 'to' coordinate system.
         """
-        from_ = self.set_with_coordinate_system(fromOrigin, fromXAxis, fromYAxis)
-        to_ = self.set_with_coordinate_system(toOrigin, toXAxis, toYAxis)
+        self.set_with_coordinate_system(fromOrigin, fromXAxis, fromYAxis)
+        from_ = np.copy(self._array)
+        self.set_with_coordinate_system(toOrigin, toXAxis, toYAxis)
 
-        self._array = np.linalg.inv(from_).dot(to_)
+        self._array = self._array.dot(np.linalg.inv(from_))
         return True
 
     def set_to_rotate_to(self, _from: Vector2D, to: Vector2D) -> bool:
@@ -545,12 +546,11 @@ class Matrix3D(BaseMatrix):
         """
         Sets this matrix to be the matrix that maps from the 'from' coordinate system to the 'to' coordinate system.
         """
-        from_ = self.set_with_coordinate_system(
-            fromOrigin, fromXAxis, fromYAxis, fromZAxis
-        )
-        to_ = self.set_with_coordinate_system(toOrigin, toXAxis, toYAxis, toZAxis)
+        self.set_with_coordinate_system(fromOrigin, fromXAxis, fromYAxis, fromZAxis)
+        from_ = np.copy(self._array)
+        self.set_with_coordinate_system(toOrigin, toXAxis, toYAxis, toZAxis)
 
-        self._array = np.linalg.inv(from_).dot(to_)
+        self._array = self._array.dot(np.linalg.inv(from_))
         return True
 
     def set_to_rotate_to(
-- 
2.43.0


From c265838477fc8c4ab3962b95a92f21df7a2cacb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 150/211] fix: Matrix2D.set_to_rotation did not keep the given
 origin in place

---
 mmcore/api/vectors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index 5243cba..da1848f 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -424,7 +424,8 @@ class Matrix2D(BaseMatrix):
 
         if origin is not None:
             # If the rotation center is not at the origin, translate
-            self._array[:2, 2] = origin - origin @ self._array[:2, :2]
+            origin = np.asarray(origin)
+            self._array[:2, 2] = origin - self._array[:2, :2] @ origin
         return True
 
     def get_as_coordinate_system(self) -> tuple[Point2D, Vector2D, Vector2D]:
-- 
2.43.0


From 624088786b05e3ab775080b14ff25a912afc86f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 151/211] fix: Matrix3D.set_to_rotation did not keep the given
 origin in place

---
 mmcore/api/vectors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/vectors.py b/mmcore/api/vectors.py
index da1848f..bad0177 100644
--- a/mmcore/api/vectors.py
+++ b/mmcore/api/vectors.py
@@ -583,9 +583,9 @@ class Matrix3D(BaseMatrix):
                 "Axis and origin must be Vector3D and Point3D instances respectively"
             )
 
-        r = R.from_rotvec(np.radians(angle) * axis)
+        r = R.from_rotvec(np.radians(angle) * axis.as_array())
         self._array[:3, :3] = r.as_matrix()
-        self._array[:3, 3] = origin
+        self._array[:3, 3] = origin.as_array() - self._array[:3, :3] @ origin.as_array()
         return True
 
     @property
-- 
2.43.0


From f9f9084db03314cc13a278dda54d057fc56c422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 152/211] fix: a bounding box created from its corners or
 copied had min and max exchanged

---
 mmcore/api/bbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 0231453..ebada0a 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -75,8 +75,8 @@ class BaseBoundingBox(Base, metaclass=ABCMeta):
         Returns the new bounding box.
         """
         self = cls()
-        self.max = cls.__point_class__.cast(min_point)
-        self.min = cls.__point_class__.cast(max_point)
+        self.min = cls.__point_class__.cast(min_point)
+        self.max = cls.__point_class__.cast(max_point)
         return self
 
     @classmethod
-- 
2.43.0


From f812c18e41776edeb5a8d12cd84cc0b0657c4feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 153/211] fix: BoundingBox3D.contains ignored z

---
 mmcore/api/bbox.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index ebada0a..9bd108e 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -321,7 +321,9 @@ class BoundingBox3D(BaseBoundingBox, point_class=Point3D):
         """
 
         return (
-            self.max.x >= point.x >= self.min.x and self.max.y >= point.y >= self.min.y
+            self.max.x >= point.x >= self.min.x
+            and self.max.y >= point.y >= self.min.y
+            and self.max.z >= point.z >= self.min.z
         )
 
     def expand(self, point: Point3D) -> bool:
-- 
2.43.0


From 4a3ec89305dda216e9b127307e75f56fcfc21cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 154/211] fix: BoundingBox2D.intersection lost boxes that cross
 without containing a corner

---
 mmcore/api/bbox.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/mmcore/api/bbox.py b/mmcore/api/bbox.py
index 9bd108e..41ddbb2 100644
--- a/mmcore/api/bbox.py
+++ b/mmcore/api/bbox.py
@@ -273,14 +273,12 @@ class BoundingBox2D(BaseBoundingBox, point_class=Point2D):
         return True
 
     def intersection(self, other: BoundingBox2D):
-        pts = []
-        for pt in self.to_vertices():
-            if other.contains(Point2D.cast(pt)):
-                pts.append(pt)
-        for pt in other.to_vertices():
-            if self.contains(Point2D.cast(pt)):
-                pts.append(pt)
-        return BoundingBox2D.create_from_array(np.array(pts))
+        if not self.intersects(other):
+            return None
+        return BoundingBox2D.create(
+            Point2D.create(max(self.min.x, other.min.x), max(self.min.y, other.min.y)),
+            Point2D.create(min(self.max.x, other.max.x), min(self.max.y, other.max.y)),
+        )
 
 
 class BoundingBox3D(BaseBoundingBox, point_class=Point3D):
-- 
2.43.0


From 0ad6fc5cb879c80df20aee16c44a40f0dfc6ac75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 155/211] fix: the collision test dropped the wrong vertex of
 its tetrahedron and missed overlaps

---
 mmcore/numeric/algorithms/_gjk.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/_gjk.cpp b/mmcore/numeric/algorithms/_gjk.cpp
index b563b27..263a0c8 100644
--- a/mmcore/numeric/algorithms/_gjk.cpp
+++ b/mmcore/numeric/algorithms/_gjk.cpp
@@ -114,10 +114,10 @@ bool handleSimplex(std::vector<Vec3<T>>& simplex, Vec3<T>& d, T tol) {
                 simplex.erase(simplex.begin());
                 return handleSimplex(simplex, d, tol);
             } else if (dot(acd, ao) > 0) {
-                simplex.erase(simplex.begin() + 1);
+                simplex.erase(simplex.begin() + 2);
                 return handleSimplex(simplex, d, tol);
             } else if (dot(adb, ao) > 0) {
-                simplex.erase(simplex.begin() + 2);
+                simplex.erase(simplex.begin() + 1);
                 return handleSimplex(simplex, d, tol);
             } else {
                 return true;
-- 
2.43.0


From 8791617d3dc1d707611eeba36e7ec643737a4988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 156/211] fix: the sweep line did not report a crossing at the
 end of another segment

---
 mmcore/numeric/algorithms/sweep_line/sweep_intersector.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
index 7d54212..cd16286 100644
--- a/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
+++ b/mmcore/numeric/algorithms/sweep_line/sweep_intersector.py
@@ -132,6 +132,8 @@ class SweepIntersector():
                         self.Y_structure.delItem(sit)
                         sit = it;
                     else:   # passing segment
+                        # <pSweep> may be the end of another segment
+                        self.isectDict[self.original[s]].append((v.x,v.y))
                         self.Y_structure.changeInf(sit,None)
                         sit = self.Y_structure.pred(sit)
                         if (sr is not s) and (sr.p2 is self.pSweep):
@@ -285,7 +287,9 @@ class SweepIntersector():
             else:
                 q = s0.intersectionOfLines(s1)
                 if q:
-                    self.Y_structure.changeInf(sit0, self.X_structure.insert(q,sit0))
+                    event = self.X_structure.insert(q,sit0)
+                    self.Y_structure.changeInf(sit0, event)
+                    q = self.X_structure.key(event)
 
                     # insert intersection point into result dictionary
                     if s0.p1 != q and s0.p2 != q:
-- 
2.43.0


From 2cf9bf4761d33b274614d8df97747681ad4df5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 157/211] fix: clip failed for polygons outside the window

---
 mmcore/geom/polygon.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 72622fd..05026b9 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -128,6 +128,8 @@ def clip(subjectPolygon, clipPolygon):
         cp2 = clipVertex
         inputList = outputList
         outputList = []
+        if not inputList:
+            break
         s = inputList[-1]
         for subjectVertex in inputList:
             e = subjectVertex
-- 
2.43.0


From 531f925e3b9a5d97ff0c1e1c9a5b11918478d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 158/211] fix: Vertex.isInside miscounted a ray through a
 corner of the polygon

---
 mmcore/geom/polygon.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 05026b9..6ff0086 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -205,13 +205,7 @@ class Vertex:
         An even winding number means the point lies OUTSIDE the polygon;
         an odd number means it lies INSIDE it.
         """
-        winding_number = 0
-        infinity = Vertex((1000000, self.y))
-        for q in poly.__iter__():
-            if not q.intersect and intersect(self, infinity, q, poly.next(q.next)):
-                winding_number += 1
-
-        return (winding_number % 2) != 0
+        return is_point_in_polygon((self.x, self.y), [(q.x, q.y) for q in poly.__iter__() if not q.intersect])
 
     def setChecked(self):
         self.checked = True
-- 
2.43.0


From 09ea0a08eca4b126cf8cdbb2a234414d213d4f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 159/211] fix: boolean operations on polygons whose outlines do
 not cross returned the subject

---
 mmcore/geom/polygon.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/polygon.py b/mmcore/geom/polygon.py
index 6ff0086..92a3e61 100644
--- a/mmcore/geom/polygon.py
+++ b/mmcore/geom/polygon.py
@@ -446,13 +446,21 @@ class Polygon:
                             pass  # this simply means intersect() returned None
 
         # phase two - identify entry/exit points
-        s_entry ^= self.head.isInside(clip)
+        s_inside, c_inside = self.head.isInside(clip), clip.head.isInside(self)
+        if not self.unprocessed():  # the outlines do not cross
+            if s_entry and c_entry:  # intersection: the inner one, if any
+                return [self] if s_inside else [clip] if c_inside else []
+            if not c_entry:  # union
+                return [clip] if s_inside else [self] if c_inside else [self, clip]
+            return [] if s_inside else [self]  # difference (a hole in the subject cannot be represented)
+
+        s_entry ^= s_inside
         for s in self.__iter__():
             if s.intersect:
                 s.entry = s_entry
                 s_entry = not s_entry
 
-        c_entry ^= clip.head.isInside(self)
+        c_entry ^= c_inside
         for c in clip.__iter__():
             if c.intersect:
                 c.entry = c_entry
@@ -485,9 +493,6 @@ class Polygon:
 
             list.append(clipped)
 
-        if not list:
-            list.append(self)
-
         return list
 
     def handle_intersection(self, s_node, clip_node, clip):
-- 
2.43.0


From 88e125d7bd794eabbfadcb4484d827858efbcbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 160/211] fix: point_in_curve failed for polylines

---
 mmcore/numeric/algorithms/point_in_curve.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_in_curve.py b/mmcore/numeric/algorithms/point_in_curve.py
index 8313c73..74ace96 100644
--- a/mmcore/numeric/algorithms/point_in_curve.py
+++ b/mmcore/numeric/algorithms/point_in_curve.py
@@ -16,15 +16,12 @@ def point_in_parametric_curve(crv: Curve, xyz):
 
     if not _is_closed_curve(crv):
         return False
-    if hasattr(crv,'degree'):
+    if hasattr(crv,'degree') and hasattr(crv,'knots'):
         if crv.degree==1:
-            polygon=crv.evaluate_multi(np.arange(*crv.interval()))
-            edges = [(polygon[i], polygon[(i + 1) % len(polygon)]) for i in range(len(polygon))]
-            bvh_root=polygon_build_bvh(edges)
-            is_point_in_polygon_bvh(bvh_root,xyz)
+            polygon=crv.evaluate_multi(np.unique(crv.knots))[:-1,:2]
+            return is_point_in_polygon_bvh(polygon,xyz[:2])
     crr=crv.interval()
     rngg=crr[1]-crr[0]
-    print(rngg)
 
     return (len(curve_x_ray(crv, xyz, axis=0,step= rngg)) % 2) > 0
 
-- 
2.43.0


From d83afbcfc4d010426e839216f98729aa22af6515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 161/211] fix: point_in_curve counted crossings on both sides
 of the point and never found one inside

---
 mmcore/numeric/algorithms/point_in_curve.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/point_in_curve.py b/mmcore/numeric/algorithms/point_in_curve.py
index 74ace96..a369452 100644
--- a/mmcore/numeric/algorithms/point_in_curve.py
+++ b/mmcore/numeric/algorithms/point_in_curve.py
@@ -23,7 +23,9 @@ def point_in_parametric_curve(crv: Curve, xyz):
     crr=crv.interval()
     rngg=crr[1]-crr[0]
 
-    return (len(curve_x_ray(crv, xyz, axis=0,step= rngg)) % 2) > 0
+    # of all crossings of the vertical line through the point only those above it belong to the ray
+    above = [t for t in curve_x_ray(crv, xyz, axis=0,step= rngg) if crv.evaluate(t)[1] > xyz[1]]
+    return (len(above) % 2) > 0
 
 
 def point_in_implicit_curve(crv: Implicit2D, xyz):
-- 
2.43.0


From 230fe07ed2ad86fd8fff4f9f7127b02f84f78287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 162/211] fix: the Python ruled surface ignored where the
 domains of its curves start

---
 mmcore/geom/surfaces/__init__.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 63602d3..019723f 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -451,35 +451,35 @@ class Ruled(Surface):
         super().__init__()
         self.c1, self.c2 = c1, c2
         self._intervals = np.array([np.array(c1.interval()), np.array(c2.interval())])
-        self._remap_u = scalar_dot(np.array((0., 1.)), self._intervals[0])
-        self._remap_v = scalar_dot(np.array((0., 1.)), self._intervals[1])
-        self._remap_uv = np.array([self._remap_u, self._remap_v])
+        self._starts = self._intervals[:, 0]
+        self._remap_uv = self._intervals[:, 1] - self._starts
 
     def derivative_v(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        uc1uc2 = self._remap_param(uv[0])
         return self.c2.evaluate(uc1uc2[1]) - np.array(self.c1.evaluate(uc1uc2[0]))
 
     def derivative_u(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
-        return uv[1] * self.c2.derivative(uc1uc2[1]) + (1. - uv[1]) * self.c1.derivative(uc1uc2[0])
+        uc1uc2 = self._remap_param(uv[0])
+        l1, l2 = self._remap_uv
+        return uv[1] * l2 * np.array(self.c2.derivative(uc1uc2[1])) + (1. - uv[1]) * l1 * np.array(self.c1.derivative(uc1uc2[0]))
 
     def second_derivative_uu(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
-
-        return uv[1] * self.c2.second_derivative(uc1uc2[1]) + (1. - uv[1]) * self.c1.second_derivative(uc1uc2[0])
+        uc1uc2 = self._remap_param(uv[0])
+        l1, l2 = self._remap_uv
+        return uv[1] * l2 ** 2 * np.array(self.c2.second_derivative(uc1uc2[1])) + (1. - uv[1]) * l1 ** 2 * np.array(self.c1.second_derivative(uc1uc2[0]))
 
     def second_derivative_vv(self, uv):
         return np.zeros(3)
 
     def _remap_param(self, t):
-        return self._remap_uv * t
+        return self._starts + self._remap_uv * t
 
     def evaluate(self, uv):
-        uc1uc2 = self._remap_uv * uv[0]
+        uc1uc2 = self._remap_param(uv[0])
 
         return (1. - uv[1]) * self.c1.evaluate(uc1uc2[0]) + uv[1] * self.c2.evaluate(uc1uc2[1])
     def evaluate_v2(self, u, v):
-        uc1uc2 = self._remap_uv * u
+        uc1uc2 = self._remap_param(u)
 
         return (1. - v) * self.c1.evaluate(uc1uc2[0]) + v * self.c2.evaluate(uc1uc2[1])
 
-- 
2.43.0


From 635874d8cf444e823b9dca386cc6ffdc0eee6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 163/211] fix: isocurves and isolines left the domain of the
 surface and mixed up its directions

---
 mmcore/geom/surfaces/__init__.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 019723f..48bb588 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -279,20 +279,24 @@ class Surface:
         #return np.array([self.evaluate(uv),*arr,n])
         return arr
     def isocurve_u(self, u0: float, u1: float):
-        return self.isocurve(u0, 0.0, u1, 1.0)
+        _, (v0, v1) = self.interval()
+        return self.isocurve(u0, v0, u1, v1)
 
     def isocurve_v(self, v0: float, v1: float):
-        return self.isocurve(0.0, v0, 1.0, v1)
+        (u0, u1), _ = self.interval()
+        return self.isocurve(u0, v0, u1, v1)
 
     def isoline_u(self, u: float):
-        orig = np.array([u, 0.])
-        direction = np.array([0., 1.])
+        _, (v0, v1) = self.interval()
+        orig = np.array([u, v0])
+        direction = np.array([0., v1 - v0])
         crv = lambda t: orig + direction * t
         return CurveOnSurface(self, crv)
 
     def isoline_v(self, v: float):
-        orig = np.array([0., v])
-        direction = np.array([1., 0.])
+        (u0, u1), _ = self.interval()
+        orig = np.array([u0, v])
+        direction = np.array([u1 - u0, 0.])
         crv = lambda t: orig + direction * t
         return CurveOnSurface(self, crv)
 
@@ -300,10 +304,10 @@ class Surface:
         return (0.0, 1.0), (0.0, 1.0)
 
     def isocurve(self, u0=-1.0, v0=-1.0, u1=-1.0, v1=-1.0):
-        start, end = self.interval()
-        kfc = list((*start, *end))
+        (ustart, uend), (vstart, vend) = self.interval()
+        kfc = [ustart, vstart, uend, vend]
         for i, val in enumerate((u0, v0, u1, v1)):
-            if val < min(start):
+            if val < (ustart, vstart)[i % 2]:
                 continue
             else:
                 kfc[i] = val
-- 
2.43.0


From 984e1edb19480f93ea1b740d9ecd6c70af2616cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 164/211] fix: CurveOnSurface.normal always failed

---
 mmcore/geom/surfaces/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 48bb588..9859c86 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -135,7 +135,7 @@ class CurveOnSurface(Curve):
 
     def normal(self, t):
         uv = self.evaluate_curve(t)
-        return np.array(scalar_cross(*scalar_unit([self.surf.normal(uv), self.tangent(t)])))
+        return np.array(scalar_cross(scalar_unit(self.surf.normal(uv)), scalar_unit(self.tangent(t))))
 
     def evaluate(self, t: float):
         return self.surf.evaluate(self.evaluate_curve(t))
-- 
2.43.0


From 38b86cbc44731b63bea5363b11c33d2015c8a1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 165/211] fix: the y axis of Surface.plane_at was not a unit
 vector

---
 mmcore/geom/surfaces/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index 9859c86..a9b2405 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -264,6 +264,7 @@ class Surface:
         arr[1] /= scalar_norm(arr[1])
         arr[2] /= scalar_norm(arr[2])
         arr[2]-= arr[1]*scalar_dot(arr[2],arr[1])
+        arr[2] /= scalar_norm(arr[2])
 
 
         #n = scalar_cross(arr[0],    arr[1])
-- 
2.43.0


From 4f00412a60f6a2c7994a318bc0e1fce7d88c832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 166/211] fix: compute_intersection_curvature was wrong unless
 the surfaces are orthogonal and parametrized orthonormally

---
 mmcore/geom/surfaces/__init__.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/surfaces/__init__.py b/mmcore/geom/surfaces/__init__.py
index a9b2405..5060bc3 100644
--- a/mmcore/geom/surfaces/__init__.py
+++ b/mmcore/geom/surfaces/__init__.py
@@ -78,6 +78,13 @@ def compute_intersection_curvature(Su1, Sv1, Suu1, Suv1, Svv1, Su2, Sv2, Suu2, S
     T = np.array(np.cross(N1, N2))
     T /= np.linalg.norm(T)
 
+    # Parameter directions of the tangent on both surfaces
+    (du1, dv1), (du2, dv2) = [
+        np.linalg.solve(np.array([[np.dot(Su, Su), np.dot(Su, Sv)], [np.dot(Su, Sv), np.dot(Sv, Sv)]]),
+                        np.array([np.dot(Su, T), np.dot(Sv, T)]))
+        for Su, Sv in ((Su1, Sv1), (Su2, Sv2))
+    ]
+
     # Compute the curvature vector
     L1 = np.dot(Suu1, N1)
     M1 = np.dot(Suv1, N1)
@@ -85,9 +92,9 @@ def compute_intersection_curvature(Su1, Sv1, Suu1, Suv1, Svv1, Su2, Sv2, Suu2, S
     L2 = np.dot(Suu2, N2)
     M2 = np.dot(Suv2, N2)
     N2_2 = np.dot(Svv2, N2)
-    k1 = (L1 * (np.dot(Su1, T)) ** 2 + 2 * M1 * np.dot(Su1, T) * np.dot(Sv1, T) + N1_2 * (np.dot(Sv1, T)) ** 2)
-    k2 = (L2 * (np.dot(Su2, T)) ** 2 + 2 * M2 * np.dot(Su2, T) * np.dot(Sv2, T) + N2_2 * (np.dot(Sv2, T)) ** 2)
-    curvature_vector = (k1 * N1 + k2 * N2) / (1 - cos_theta ** 2)
+    k1 = L1 * du1 ** 2 + 2 * M1 * du1 * dv1 + N1_2 * dv1 ** 2
+    k2 = L2 * du2 ** 2 + 2 * M2 * du2 * dv2 + N2_2 * dv2 ** 2
+    curvature_vector = ((k1 - k2 * cos_theta) * N1 + (k2 - k1 * cos_theta) * N2) / (1 - cos_theta ** 2)
 
     # Compute the curvature magnitude
     #curvature = np.linalg.norm(curvature_vector)
-- 
2.43.0


From a78944e071e2453faee4d221e0e63888a66c3fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 167/211] fix: OffsetCurve recursed without end

---
 mmcore/geom/curves/offset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/offset.py b/mmcore/geom/curves/offset.py
index 31ac20c..0ed8a4b 100644
--- a/mmcore/geom/curves/offset.py
+++ b/mmcore/geom/curves/offset.py
@@ -36,11 +36,11 @@ class OffsetCurve(Curve):
 
     def evaluate(self, t):
         n = np.array(self.curve.plane_at(t))
-        return n[0] + n[2] * self.offset
+        return n[0] + n[2] * self._offset
 
     @property
     def offset(self):
-        return self.offset
+        return self._offset
 
     @offset.setter
     def offset(self, v):
-- 
2.43.0


From 5def047844ee7e9950141cbe87397887ea0b6a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 168/211] fix: find_closest followed only the nearer child and
 missed closer objects

---
 mmcore/geom/bvh/__init__.py | 45 ++++++++++++-------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 937e142..6eed54e 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -552,39 +552,22 @@ def _find_closest_breadth(bvh:BVHNode, point:NDArray[float])->tuple[list[Object3
     if bvh.object is not None:
         return [bvh.object],sd_aabb( bvh.bounding_box._arr,point )
 
-    if (bvh.left is not None) and (bvh.right is None):
-        return _find_closest_breadth(bvh.left, point)
-    elif (bvh.left is None) and (bvh.right is not None):
-        return _find_closest_breadth(bvh.right, point)
-    elif  (bvh.left is  None) and (bvh.right is  None):
+    children=[(sd_aabb(child.bounding_box._arr, point), child) for child in (bvh.left, bvh.right) if child is not None]
+    if len(children)==0:
         raise ValueError(f"Empty BVH node with bbox: {bvh.bounding_box._arr.tolist()}")
-    elif (bvh.left is not None) and (bvh.right  is not None):
-        left_sd=sd_aabb(bvh.left.bounding_box._arr, point)
-        right_sd = sd_aabb(bvh.right.bounding_box._arr, point)
-        if left_sd<right_sd:
-            return _find_closest_breadth(
-                bvh.left,point
-            )
-        elif left_sd>right_sd:
-            return _find_closest_breadth(
-                bvh.right,point
-            )
-        else:
-            left_obj, left_sd=_find_closest_breadth(
-                bvh.left, point
-            )
-            right_obj, right_sd=_find_closest_breadth(
-                bvh.right, point
-            )
-            if left_sd<right_sd:
-                return left_obj,left_sd
-            elif left_sd>right_sd:
-                return right_obj,right_sd
-            else:
-                return left_obj+right_obj,left_sd
 
-    else:
-        raise ValueError(f"Unknown condition: {bvh.bounding_box._arr.tolist()}, {bvh.left},{bvh.right}")
+    # The box of a node is never closer than the box of its parent, so the nearer child is searched first
+    # and the other one only if it can hold something at least as close.
+    children.sort(key=lambda item: item[0])
+    objects, sd = _find_closest_breadth(children[0][1], point)
+    for child_sd, child in children[1:]:
+        if child_sd<=sd:
+            other_objects, other_sd = _find_closest_breadth(child, point)
+            if other_sd<sd:
+                objects, sd = other_objects, other_sd
+            elif other_sd==sd:
+                objects = objects+other_objects
+    return objects, sd
 
 def find_closest(bvh:BVHNode, point:NDArray[float], breadth:bool=True)->tuple[list[Object3D],float]|None:
     if breadth:
-- 
2.43.0


From 93f03decb0a3fe7d2f31b80d35046d2f16e97ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 169/211] fix: traverse_bvh2 reported a leaf twice and None for
 a node without matches

---
 mmcore/geom/bvh/__init__.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 6eed54e..edaa80f 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -595,15 +595,10 @@ def traverse_bvh2(node, target_bbox, results):
         return
     if node.object is not None:
         results.append(node.object)
-    l = len(results)
     if node.left:
-        traverse_bvh(node.left, target_bbox, results)
+        traverse_bvh2(node.left, target_bbox, results)
     if node.right:
-        traverse_bvh(node.right, target_bbox, results)
-
-    if l == len(results):
-        results.append(node.object)
-        return
+        traverse_bvh2(node.right, target_bbox, results)
 
 def contains_point(bvh_root, pt):
     results=[]
-- 
2.43.0


From ae92eb38564855a3fe27ea8db4901c8558f636f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 170/211] fix: courtesan_to_cylindrical returned the spherical
 radius and angle

---
 mmcore/numeric/vectors.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index cfdf046..9ba6050 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -308,8 +308,8 @@ cpdef courtesan_to_cylindrical(double[:,:]xyz):
     cdef int i
     for i in range(xyz.shape[0]):
         XsqPlusYsq = xyz[i, 0] ** 2 + xyz[i, 1] ** 2
-        pts[i, 0] = sqrt(XsqPlusYsq + xyz[i, 2] ** 2)
-        pts[i, 1] = atan2(sqrt(XsqPlusYsq), xyz[i, 2])
+        pts[i, 0] = sqrt(XsqPlusYsq)
+        pts[i, 1] = atan2(xyz[i, 1], xyz[i, 0])
         pts[i, 2] = xyz[i, 2]
     return pts
 @cython.boundscheck(False)
-- 
2.43.0


From 526dfeaeccceb7978d25e9c65de2d0b734a5cd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 171/211] fix: local_to_world and world_to_local failed for
 planes given as arrays, the default among them

---
 mmcore/numeric/plane/__init__.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 6a566e5..2acecde 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -244,6 +244,13 @@ def orient_matrix(p1, p2):
     return trx
 
 
+def _plane_frame(pln):
+    """Origin and axes of a plane given as an array (origin, xaxis, yaxis, zaxis) or as an object with these attributes."""
+    if isinstance(pln, np.ndarray):
+        return pln[0], pln[1], pln[2], pln[3]
+    return pln.origin, pln.xaxis, pln.yaxis, pln.zaxis
+
+
 def local_to_world(pt, pln=WORLD_XY):
     """
     :param pt: The point in the local coordinate system that needs to be transformed to the world coordinate system.
@@ -256,11 +263,12 @@ def local_to_world(pt, pln=WORLD_XY):
     :return: The transformed point in the world coordinate system.
     :rtype: numpy.ndarray
     """
+    origin, xaxis, yaxis, zaxis = _plane_frame(pln)
     z = np.zeros(3)
-    z += pln.origin
-    z += pt[0] * pln.xaxis
-    z += pt[1] * pln.yaxis
-    z += pt[2] * pln.zaxis
+    z += origin
+    z += pt[0] * xaxis
+    z += pt[1] * yaxis
+    z += pt[2] * zaxis
     return z
 
 def plane_signed_distance(plane_equation, pts):
@@ -268,7 +276,8 @@ def plane_signed_distance(plane_equation, pts):
         return np.array([a * x + b * y + c * z + d for x, y, z in pts])
 def world_to_local(pt, pln):
     """ """
-    return np.array([pln.xaxis, pln.yaxis, pln.zaxis]) @ (np.array(pt) - pln.origin)
+    origin, xaxis, yaxis, zaxis = _plane_frame(pln)
+    return np.array([xaxis, yaxis, zaxis]) @ (np.array(pt) - origin)
 
 
 
-- 
2.43.0


From 283680b580a904667132c71856e286dfbe8b0e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 172/211] fix: Interval.from_tuple called itself on the bounds
 and always failed

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 41246b0..55d8d5f 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -193,7 +193,7 @@ class Interval:
     @classmethod
     def from_tuple(cls, t):
 
-        return cls(cls.from_tuple(t[0]), cls.from_tuple(t[1]))
+        return cls(t[0], t[1])
 
     def to_tuple(self):
 
-- 
2.43.0


From 896bb1a79e156ba3218ad148c20ad3da272015f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 173/211] fix: NURBSpline.evaluate never returned for
 parameters before the domain of an unclamped curve

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index f6b863a..c75bf75 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -43,7 +43,7 @@ cdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexce
 
             return n
 
-        elif u < U[0]:
+        elif u < U[p]:
 
             return p
 
-- 
2.43.0


From 67ce7a83f63b102fa120126902c1d9d4e6d4a604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 174/211] fix: a periodic NURBSpline was extrapolated outside
 its domain

---
 mmcore/geom/curves/_nurbs.pyx | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index c75bf75..99ceee6 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -15,6 +15,20 @@ cnp.import_array()
 
 
 
+@cython.cdivision(True)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef double wrap_parameter(double u_min, double u_max, double u) noexcept nogil:
+    """
+    Bring the parameter of a periodic curve into its domain [u_min, u_max].
+    """
+    cdef double period = u_max - u_min
+    while u < u_min:
+        u += period
+    while u > u_max:
+        u -= period
+    return u
+
 @cython.cdivision(True)
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -119,6 +133,8 @@ cdef void curve_point(int n, int p, double[:] U, double[:, :] P, double u, doubl
 
     cdef int pp = p + 1
     cdef int i, j
+    if is_periodic:
+        u = wrap_parameter(U[p], U[n + 1], u)
     cdef int span = find_span(n, p, u, U,is_periodic)
     cdef double* N = <double*>malloc(sizeof(double)*pp)
     cdef double sum_of_weights=0.
@@ -281,6 +297,8 @@ cpdef void curve_derivs_alg1(int n, int p, double[:] U, double[:, :] P, double u
     cdef int du = min(d, p)
     #cdef double[:, :] CK = np.zeros((du + 1, P.shape[1]))
     cdef int pp=p+1
+    if is_periodic:
+        u = wrap_parameter(U[p], U[n + 1], u)
     cdef int span = find_span(n, p, u, U,is_periodic)
     cdef double[:, :] nders = ders_basis_funs(span, u, p, du, U)
 
@@ -362,6 +380,8 @@ cpdef void curve_derivs_alg2(int n, int p, double[:] U, double[:, :] P, double u
 
     #cdef double[:, :] CK = np.zeros((d + 1, dimension))
 
+    if is_periodic:
+        u = wrap_parameter(U[p], U[n + 1], u)
     cdef int span = find_span(n, degree, u, knotvector,is_periodic)
     #cdef double[:, :, :] PK = np.zeros((d + 1, degree + 1, P.shape[1]))
 
-- 
2.43.0


From 07e368efa46d0cf5fc2a84e0c366da4742eca384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 175/211] fix: the derivatives of NURBSpline ignored its
 weights

---
 mmcore/geom/curves/_nurbs.pyx | 39 +++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 99ceee6..d407abe 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -9,6 +9,7 @@ cimport numpy as cnp
 from libc.stdlib cimport malloc,free
 from mmcore.geom.parametric cimport ParametricCurve
 from mmcore.numeric cimport vectors,calgorithms
+from mmcore.numeric.binom cimport binomial_coefficient
 
 from libc.math cimport fabs, sqrt,fmin,fmax,pow
 cnp.import_array()
@@ -395,6 +396,38 @@ cpdef void curve_derivs_alg2(int n, int p, double[:] U, double[:, :] P, double u
             for i in range(P.shape[1]):
                 CK[k, i] += bfuns[j, degree - k] * PK[k, j, i]
 
+cdef bint is_rational(double[:, :] P) noexcept:
+    cdef int i
+    for i in range(P.shape[0]):
+        if P[i, 3] != 1.:
+            return True
+    return False
+
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef void rational_curve_derivs(int n, int p, double[:] U, double[:, :] P, double u, double[:, :] CK, bint is_periodic):
+    """
+    Derivatives of a rational curve with control points (x, y, z, w), one order for every row of CK
+    (The NURBS Book, algorithm A4.2).
+    """
+    cdef int rows = CK.shape[0]
+    cdef double[:, :] Pw = P.copy()
+    cdef double[:, :] CKw = np.zeros((rows, 4))
+    cdef int i, j, k
+    cdef double tmp
+    for i in range(P.shape[0]):
+        for j in range(3):
+            Pw[i, j] *= P[i, 3]
+    curve_derivs_alg1(n, p, U, Pw, u, rows - 1, CKw, is_periodic)
+    for k in range(rows):
+        for j in range(3):
+            tmp = CKw[k, j]
+            for i in range(1, k + 1):
+                tmp -= binomial_coefficient(k, i) * CKw[i, 3] * CK[k - i, j]
+            CK[k, j] = tmp / CKw[0, 3]
+
 @cython.cdivision(True)
 @cython.initializedcheck(False)
 @cython.boundscheck(False)
@@ -828,6 +861,9 @@ cdef class NURBSpline(ParametricCurve):
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+        if is_rational(self._control_points):
+            rational_curve_derivs(n, self._degree, self._knots, self._control_points, t, CK, self._periodic)
+            return
         curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
 
     @cython.cdivision(True)
@@ -846,6 +882,9 @@ cdef class NURBSpline(ParametricCurve):
            cdef int i
            #cdef double[:, :]  CK = np.zeros((du + 1, 4))
            #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
+           if is_rational(self._control_points):
+               rational_curve_derivs(n, self._degree, self._knots, self._control_points, t, CK, self._periodic)
+               return
            cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
 
            curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
-- 
2.43.0


From 1adddb886dd6859bb5da2f553c2f99ca59b2a373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 176/211] fix: NURBSpline.normal wrote past the end of its
 buffer

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index d407abe..e47ef14 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -918,7 +918,7 @@ cdef class NURBSpline(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From 1187ba399079db897fca7b7213c5672bf2aec33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 177/211] fix: NURBSpline.derivative_control_points always
 failed

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index e47ef14..f376e2a 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -973,7 +973,7 @@ cdef class NURBSpline(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return np.asarray(PK)
     @cython.cdivision(True)
-- 
2.43.0


From 6a98004c826a4288d744e5ba7e0b15f543387cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 178/211] fix: NURBSpline.is_periodic compared only the last of
 the repeated control points

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index f376e2a..b818978 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -537,7 +537,7 @@ cdef class NURBSpline(ParametricCurve):
 
                 res = part1[j][i] == part2[j][i]
                 if not res:
-                    break
+                    return res
 
         return res
 
-- 
2.43.0


From b2cc8ef79450ed0a16ff61375168a0c06ee6006c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 179/211] fix: NURBSpline.make_open always failed

---
 mmcore/geom/curves/_nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index b818978..3e9c3b2 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -698,7 +698,7 @@ cdef class NURBSpline(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
-- 
2.43.0


From 61f80fc0fa730071fa3c22b66566174e9543cc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 180/211] fix: the copy of a periodic NURBSpline was not
 periodic

---
 mmcore/geom/curves/_nurbs.pyx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 3e9c3b2..0be336f 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -497,10 +497,7 @@ cdef class NURBSpline(ParametricCurve):
 
 
     def __deepcopy__(self, memodict={}):
-        obj=self.__class__(control_points=self.control_points.copy(), degree=self._degree, knots=np.asarray(self._knots).copy())
-
-        obj.weights=self.weights
-
+        obj=self.__class__(control_points=np.asarray(self._control_points).copy(), degree=self._degree, knots=np.asarray(self._knots).copy(), periodic=self._periodic)
 
         return obj
     cpdef void set_degree(self, int val):
-- 
2.43.0


From 764772f14493b38f1f593708afc36fade26e7bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:29 +0000
Subject: [PATCH 181/211] fix: NURBSpline.set left the domain of the old knots

---
 mmcore/geom/curves/_nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 0be336f..c929c7a 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -779,6 +779,7 @@ cdef class NURBSpline(ParametricCurve):
     cpdef set(self, double[:,:] control_points, double[:] knots ):
         self._control_points=control_points
         self._knots=knots
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
-- 
2.43.0


From ff5f9b12b026415d5d8a88531c6bfa2baa7ddcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 182/211] fix: the basis functions of deboor were doubled at
 interior knots

---
 mmcore/geom/curves/deboor.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index 24459f6..0b8b7ea 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -14,7 +14,10 @@ cdef double cdeboor(double[:] knots, double t, int i, int k) noexcept nogil:
     cdef double c1,c2;
 
     if k == 0:
-        return 1.0 if knots[i] <= t <= knots[i + 1] else 0.0
+        # Half-open spans, only the last non-empty one holds its end
+        if t == knots[knots.shape[0] - 1]:
+            return 1.0 if knots[i] < t == knots[i + 1] else 0.0
+        return 1.0 if knots[i] <= t < knots[i + 1] else 0.0
     if knots[i + k] == knots[i]:
         c1 = 0.0
     else:
-- 
2.43.0


From 538a710e3850f52d529a9eb3acafbfff86835c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 183/211] fix: evaluate_nurbs_multi added the previous point to
 every point after the first

---
 mmcore/geom/curves/deboor.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index 0b8b7ea..60a0b2b 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -58,6 +58,7 @@ cdef void cevaluate_nurbs_multi( double[:] t,double[:,:] cpts, double[:] knots,
     cdef xyz pt=xyz(0.,0.,0.);
 
     for i in range(t.shape[0]):
+        pt.x = pt.y = pt.z = 0.
         cevaluate_nurbs(t[i],cpts,knots,weights,degree,&pt)
         result[i][0] = pt.x
         result[i][1] = pt.y
-- 
2.43.0


From 36e0aea97401d0045732d4c70dc61d976f2ebcb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 184/211] fix: NURBSpline.create_circle placed the centre
 opposite to the origin

---
 mmcore/geom/curves/bspline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/bspline.py b/mmcore/geom/curves/bspline.py
index f2c47f3..2e87834 100644
--- a/mmcore/geom/curves/bspline.py
+++ b/mmcore/geom/curves/bspline.py
@@ -341,7 +341,7 @@ class NURBSpline(CNURBSpline, Curve):
                            [0., -radius, 0., 1.],
                            [radius, -radius, 0., w],
                            [radius, 0., 0., 1.]], dtype=float)
-        points[:, :-1] = np.array(evaluate_plane_arr(plane, points[:, :-1] - origin))
+        points[:, :-1] = np.array(evaluate_plane_arr(plane, points[:, :-1] + origin))
 
         knots = np.array([0, math.pi / 2, math.pi, 3 * math.pi / 2, 2 * math.pi], dtype=float)
         mults = np.array([3, 2, 2, 2, 3], dtype=int)
-- 
2.43.0


From 70ccd2b747231b5dca04c8491bc655b2f7486deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 185/211] fix: the basis functions of bspline_utils were wrong
 for degrees above one

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index bc1764b..00f87fa 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -52,7 +52,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
-- 
2.43.0


From 1a8fe93852dc26cd6d72c5b462a4aaa7e66bcb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 186/211] fix: the surface points of bspline_utils always
 failed

---
 mmcore/geom/curves/bspline_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index 00f87fa..34cb809 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -100,14 +100,14 @@ def calcSurfacePoint(p, q, U, V, P, u, v):
     vspan = find_span(q, v, V)
     Nu = calc_basis_functions(uspan, u, p, U)
     Nv = calc_basis_functions(vspan, v, q, V)
-    temp = [np.array([0, 0, 0, 0]) for _ in range(q + 1)]
+    temp = [np.zeros(4) for _ in range(q + 1)]
     for l in range(q + 1):
         for k in range(p + 1):
             point = P[uspan - p + k][vspan - q + l].copy()
             w = point[3]
             point[:3] *= w
             temp[l] += point * Nu[k]
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw /= Sw[3]
@@ -210,7 +210,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
             point += point_w * Nu[k]
         temp.append(point)
 
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw = Sw / Sw[3]
-- 
2.43.0


From 862c622dfcd4651610d5ecd9d4556fedc9764a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 187/211] fix: the basis functions of curve_utils were wrong
 for degrees above one

---
 mmcore/geom/curves/curve_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index ea45390..0c91581 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -47,7 +47,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
-- 
2.43.0


From 354f2efe2da85ddc33fdee166b7336b509b95cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 188/211] fix: the surface points of curve_utils always failed

---
 mmcore/geom/curves/curve_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index 0c91581..10101e5 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -95,14 +95,14 @@ def calcSurfacePoint(p, q, U, V, P, u, v):
     vspan = find_span(q, v, V)
     Nu = calc_basis_functions(uspan, u, p, U)
     Nv = calc_basis_functions(vspan, v, q, V)
-    temp = [np.array([0, 0, 0, 0]) for _ in range(q + 1)]
+    temp = [np.zeros(4) for _ in range(q + 1)]
     for l in range(q + 1):
         for k in range(p + 1):
             point = P[uspan - p + k][vspan - q + l].copy()
             w = point[3]
             point[:3] *= w
             temp[l] += point * Nu[k]
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw /= Sw[3]
@@ -205,7 +205,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
             point += point_w * Nu[k]
         temp.append(point)
 
-    Sw = np.array([0, 0, 0, 0])
+    Sw = np.zeros(4)
     for l in range(q + 1):
         Sw += temp[l] * Nv[l]
     Sw = Sw / Sw[3]
-- 
2.43.0


From c891a776e1b649c75709eb4634fcb2daf94a7e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 189/211] fix: knot_insertion, and with it splitting a
 NURBSpline, always failed

---
 mmcore/geom/curves/knot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index fa76799..19a24e2 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -449,7 +449,7 @@ def knot_insertion(degree, knotvector, ctrlpts, u, num=1, **kwargs)->tuple:
     for j in range(1, num + 1):
         L = k - degree + j
         for i in range(0, degree - j - s + 1):
-            alpha = knot_insertion_alpha_py(u, tuple(knotvector), k, i, L)
+            alpha = knot_insertion_alpha_py(u, np.asarray(knotvector, dtype=float), k, i, L)
             if isinstance(temp[i][0], float):
                 temp[i][:] = [alpha * elem2 + (1.0 - alpha) * elem1 for elem1, elem2 in zip(temp[i], temp[i + 1])]
             else:
-- 
2.43.0


From 6bd320990df8bac7768e12a77a358832ad8c2f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 190/211] fix: splitting a rational NURBSpline changed the
 curve

---
 mmcore/geom/curves/knot.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 19a24e2..be6c5c9 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -705,7 +705,7 @@ def nurbs_split(self, t: float) -> tuple:
         curve2_kv.insert(0, t)
 
     # Control points (use Pw if rational)
-    cpts = temp_obj.control_points.tolist()
+    cpts = np.asarray(temp_obj._control_points).tolist()
     curve1_ctrlpts = cpts[0: ks + r]
     curve2_ctrlpts = cpts[ks + r - 1:]
 
@@ -725,10 +725,15 @@ def nurbs_split(self, t: float) -> tuple:
 
 
 def insert_knot(self, t, num=1):
+    # The algorithm is affine in homogeneous coordinates, the curve stores (x, y, z, w)
+    cpts_w = np.array(self._control_points)
+    cpts_w[:, :3] *= cpts_w[:, 3:]
     cpts, knots = knot_insertion(
-        self.degree, self.knots.tolist(), self._control_points, t, num=num
+        self.degree, self.knots.tolist(), cpts_w, t, num=num
     )
-    self.set(control_points=np.array(cpts), knots=np.array(knots))
+    cpts = np.array(cpts)
+    cpts[:, :3] /= cpts[:, 3:]
+    self.set(control_points=cpts, knots=np.array(knots))
     return True
 
 
-- 
2.43.0


From 71150604ce71168e783a1913368d686ecb6080e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 191/211] fix: calc_surface_point of bspline_utils appended the
 points instead of adding them

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index 34cb809..cb7e9e2 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -201,7 +201,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
     Nv = calc_basis_functions(vspan, v, q, V)
     temp = []
     for l in range(q + 1):
-        point = [0., 0., 0., 0.]
+        point = np.zeros(4)
         for k in range(p + 1):
             point_w = np.array(P[uspan - p + k][vspan - q + l])
             w = point_w[3]
-- 
2.43.0


From 5d84746126944de16e8e5c43b76f37a8e427a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 192/211] fix: calcNURBSDerivatives of bspline_utils always
 failed on a surplus row of integers

---
 mmcore/geom/curves/bspline_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index cb7e9e2..bb7e294 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -184,8 +184,8 @@ def calc_bspline_derivatives(p, U, P, u, nd):
             tmp += Pw[int(span - int(p) + int(j))] * nders[k][j]
         CK.append(tmp)
 
-    for k in range(du + 1, nd + 2):
-        CK.append(np.array([0, 0, 0, 0]))
+    for k in range(du + 1, nd + 1):
+        CK.append(np.zeros(4))
 
     return CK
 
-- 
2.43.0


From 231dc48395e9234ea85c86212a5355283021d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 193/211] fix: calc_surface_point of curve_utils appended the
 points instead of adding them

---
 mmcore/geom/curves/curve_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index 10101e5..4817056 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -196,7 +196,7 @@ def calc_surface_point(p, q, U, V, P, u, v):
     Nv = calc_basis_functions(vspan, v, q, V)
     temp = []
     for l in range(q + 1):
-        point = [0., 0., 0., 0.]
+        point = np.zeros(4)
         for k in range(p + 1):
             point_w = np.array(P[uspan - p + k][vspan - q + l])
             w = point_w[3]
-- 
2.43.0


From c69bcbe1f05ce5ac5b3c5ea550edabbd32077af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 194/211] fix: calcNURBSDerivatives of curve_utils always
 failed on a surplus row of integers

---
 mmcore/geom/curves/curve_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/curve_utils.py b/mmcore/geom/curves/curve_utils.py
index 4817056..7a79852 100644
--- a/mmcore/geom/curves/curve_utils.py
+++ b/mmcore/geom/curves/curve_utils.py
@@ -179,8 +179,8 @@ def calc_bspline_derivatives(p, U, P, u, nd):
             tmp += Pw[int(span - int(p) + int(j))] * nders[k][j]
         CK.append(tmp)
 
-    for k in range(du + 1, nd + 2):
-        CK.append(np.array([0, 0, 0, 0]))
+    for k in range(du + 1, nd + 1):
+        CK.append(np.zeros(4))
 
     return CK
 
-- 
2.43.0


From 1767dae6b6d750615fdea994ba264bbfcda39b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:30 +0000
Subject: [PATCH 195/211] fix: assigning the control points of a NURBSpline
 always failed

---
 mmcore/geom/curves/_nurbs.pyx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index c929c7a..99df9bf 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -572,12 +572,13 @@ cdef class NURBSpline(ParametricCurve):
         return np.asarray(self._control_points[:,:-1])
     @control_points.setter
     def control_points(self, control_points):
-        self._control_points = np.ones((control_points.shape[0],4))
-        if control_points.shape[1]==4:
-            self._control_points[:]=control_points
+        cdef double[:,:] cpts = np.asarray(control_points, dtype=float)
+        self._control_points = np.ones((cpts.shape[0],4))
+        if cpts.shape[1]==4:
+            self._control_points[:]=cpts
         else:
 
-            self._control_points[:, :control_points.shape[1]] = control_points
+            self._control_points[:, :cpts.shape[1]] = cpts
         self._evaluate_cached.cache_clear()
 
 
-- 
2.43.0


From f912353bfffb3e7c5b0dbd4aafbc6461cb8cecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 196/211] fix: the last piece of divide_interval ran past the
 end of the interval

---
 mmcore/numeric/routines/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/routines/__init__.py b/mmcore/numeric/routines/__init__.py
index 64a6009..2b553c2 100644
--- a/mmcore/numeric/routines/__init__.py
+++ b/mmcore/numeric/routines/__init__.py
@@ -169,7 +169,7 @@ def cubic_spline(control_points: np.ndarray[(4, 2), np.dtype[float]]
 
 def divide_interval(start, end, step=1.):
     a = np.arange(start, end, step)
-    return np.c_[a, a + step]
+    return np.c_[a, np.minimum(a + step, end)]
 T=TypeVar("T")
 
 def column_concat(a:NDArray[T],b:NDArray[T]|T)->NDArray[T]:
-- 
2.43.0


From 94bd4391ed9e44d495d54fe118943820c78e80c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 197/211] fix: ccx raised the intersections of two implicit
 curves instead of returning them

---
 mmcore/numeric/intersection/ccx/ccx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 6b1448c..99427cc 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -111,7 +111,7 @@ def ccx(curve1, curve2, tol: float = 0.01):
     elif hasattr(curve2, "evaluate") and hasattr(curve1, "evaluate"):
         return curve_ppx(curve1, curve2, tol=tol)
     elif hasattr(curve2, "implicit") and hasattr(curve1, "implicit"):
-        raise curve_iix(
+        return curve_iix(
             curve1, curve2)
     else:
         raise ValueError(
-- 
2.43.0


From 9c917b00314f02e592e7b6125fa0e078c63e9c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 198/211] fix: test_all_roots missed a simple root next to an
 end of its interval

---
 mmcore/numeric/divide_and_conquer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/divide_and_conquer.py b/mmcore/numeric/divide_and_conquer.py
index 753b9ff..7749c93 100644
--- a/mmcore/numeric/divide_and_conquer.py
+++ b/mmcore/numeric/divide_and_conquer.py
@@ -466,6 +466,8 @@ def test_all_roots(fun, bounds, tol):
         return [*test_all_roots(fun, (t0, t11-tol), tol), bs, *test_all_roots(fun, (t21+tol, t1), tol)]
 
     else:
+        if sign(fun(t0)) != sign(fun(t1)):
+            return [bisect(fun, t0, t1)]
 
         if t21 - t11 <= tol:
             return []
-- 
2.43.0


From 1725e77a7a80dda9f677a2c4dc564767dae215b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 199/211] fix: csx failed when a curve and a surface do not
 intersect

---
 mmcore/numeric/intersection/csx/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/csx/__init__.py b/mmcore/numeric/intersection/csx/__init__.py
index c31ce4d..bc35fa1 100644
--- a/mmcore/numeric/intersection/csx/__init__.py
+++ b/mmcore/numeric/intersection/csx/__init__.py
@@ -249,9 +249,8 @@ def csx(curve, surface, tol=1e-3,ptol=1e-6):
     if isinstance(curve,NURBSCurve ) and isinstance(surface, NURBSSurface):
         ixs=nurbs_csx(curve, surface, tol=tol, ptol=ptol)
         ixs.sort(key=lambda x: x[2][0])
-        typs, pts,params=zip(*ixs)
 
-        return np.array(params)
+        return np.array([params for typ, pt, params in ixs])
     elif hasattr(surface,'implicit'):
         return curve_implicit_intersection(curve,surface,tol=ptol)
     else:
-- 
2.43.0


From d26983ef7c7c316f7457be095459b55e0e9c9ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 200/211] fix: extract_isocurve took homogeneous control points
 of a rational surface for Euclidean ones

---
 mmcore/numeric/intersection/ssx/boundary_intersection.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/numeric/intersection/ssx/boundary_intersection.py b/mmcore/numeric/intersection/ssx/boundary_intersection.py
index 9cbedfd..a0194d7 100644
--- a/mmcore/numeric/intersection/ssx/boundary_intersection.py
+++ b/mmcore/numeric/intersection/ssx/boundary_intersection.py
@@ -264,6 +264,8 @@ def extract_isocurve(
             for j in range(degree_u + 1):  # combine with basis functions
                 control_points[i] += basis[j] * surface.control_points_w[span - degree_u + j, i]
 
+        control_points[:, :3] /= control_points[:, 3:]  # NURBSCurve takes Euclidean points with weights
+
             # Return curve with v-direction degree and knots since we're varying in v
 
         cc=NURBSCurve(control_points, degree=surface.degree[1],knots=surface.knots_v)
@@ -293,6 +295,7 @@ def extract_isocurve(
         for i in range(m):  # iterate over u direction
             for j in range(degree_v + 1):  # combine with basis functions
                 control_points[i] += basis[j] * surface.control_points_w[i, span - degree_v + j]
+        control_points[:, :3] /= control_points[:, 3:]  # NURBSCurve takes Euclidean points with weights
         cc = NURBSCurve(control_points, surface.degree[0],surface.knots_u)
         #print('i',cc.knots,cc.interval())
         #cc.knots = surface.knots_u
-- 
2.43.0


From 13c8678466d1d113c1dfb30d5501cd25f9774d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 201/211] fix: point_inversion_curve dropped the step that met
 its criteria and measured a wrong cosine

---
 mmcore/numeric/algorithms/point_inversion.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index dbd006c..88a128e 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -56,7 +56,9 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
 
         ui1 = ui - fi / fpi
 
-        if abs(ui1 - ui) * scalar_norm(C_prime) <= tol1:
+        step = abs(ui1 - ui) * scalar_norm(C_prime)
+        ui = ui1
+        if step <= tol1:
             break
         C_point = curve.evaluate(ui1)
 
@@ -65,10 +67,9 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
         C_prime = curve.derivative(ui1)
 
         if abs(scalar_dot(C_prime, C_point - P)) / (
-                scalar_norm(C_prime) * scalar_norm(C_prime - P)) <= tol2:
+                scalar_norm(C_prime) * scalar_norm(C_point - P)) <= tol2:
             break
         C_double_prime = curve.second_derivative(ui1)
-        ui = ui1
 
     return ui
 
-- 
2.43.0


From 2629f7b4e190a71cfeacd89ecaf98be464de8694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 202/211] fix: point_inversion_surface dropped the step that
 met its criteria

---
 mmcore/numeric/algorithms/point_inversion.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index 88a128e..270832d 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -181,8 +181,10 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         ui1vi1 = uivi - delta
 
         # Check convergence criteria
-        if np.linalg.norm(ui1vi1 - uivi) * (np.linalg.norm(du) + np.linalg.norm(
-                dv)) <= tol1:
+        step = np.linalg.norm(ui1vi1 - uivi) * (np.linalg.norm(du) + np.linalg.norm(
+                dv))
+        uivi = ui1vi1
+        if step <= tol1:
             break
         new_pt=surface.evaluate(ui1vi1)
         if scalar_norm( new_pt- P) <= tol1:
@@ -194,8 +196,6 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
                 np.linalg.norm(new_du) *  np.linalg.norm(pt_diff)) <= tol2:
             break
 
-        uivi = ui1vi1
-
     return uivi
 
 
-- 
2.43.0


From 6dcf013ee0d1482f6d242a1b479d5e168ef8484c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 203/211] fix: points_inversion_surface dropped the step that
 met its criteria and measured wrong ones

---
 mmcore/numeric/algorithms/point_inversion.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index 270832d..32eece1 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -239,12 +239,11 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
 
         f_val = f(uivi)
         g_val = g(uivi)
-        print(_, f_val, g_val)
         # Calculate the Jacobian matrix
         du = sdu(uivi)
         dv = sdv(uivi)
         du_norm = np.array(norm(du))
-        dv_norm = np.array(norm(du))
+        dv_norm = np.array(norm(dv))
 
         dot_du_du, dot_du_dv, dot_dv_dv, dot_dv_du = np.array(dot(du, du)), np.array(dot(du, dv)), np.array(
             dot(dv, dv)), np.array(dot(dv, du))
@@ -281,12 +280,11 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
         # Solve for delta
 
         delta = _vec_solve(J, k)
-        print(_, delta)
 
         # Update u and v
         ui1vi1 = uivi - delta
 
-        mask = np.array(norm(ui1vi1) * (du_norm + dv_norm)) <= tol1
+        mask = np.array(norm(ui1vi1 - uivi) * (du_norm + dv_norm)) <= tol1
 
         pt_vec = surface(ui1vi1) - P
         pt_norm = np.array(norm(pt_vec))
@@ -297,9 +295,7 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
         mask3 = abs(np.array(dot(dui1, pt_vec))) / np.array(norm(dui1) * pt_norm) <= tol2
         mask = np.bitwise_or(mask, np.bitwise_or(mask2, mask3))
         mask_inv = np.bitwise_not(mask)
-        if np.any(mask):
-            print("M", uivi)
-        result_uv[mask_indices[mask]] = uivi[mask]
+        result_uv[mask_indices] = ui1vi1
 
         mask_indices = mask_indices[mask_inv]
         #uivi[mask_inv]=ui1vi1[mask_inv]
-- 
2.43.0


From 51e6e60feeb0ff97afbde68cd1dad4bfabf5ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 204/211] fix: point inversion on a surface stopped where the
 difference is perpendicular in u only

---
 mmcore/numeric/algorithms/point_inversion.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index 32eece1..f7c1fcd 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -190,10 +190,12 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         if scalar_norm( new_pt- P) <= tol1:
             break
         new_du=surface.derivative_u(ui1vi1)
+        new_dv=surface.derivative_v(ui1vi1)
 
         pt_diff= new_pt-P
         if abs(scalar_dot(new_du, pt_diff)) / (
-                np.linalg.norm(new_du) *  np.linalg.norm(pt_diff)) <= tol2:
+                np.linalg.norm(new_du) *  np.linalg.norm(pt_diff)) <= tol2 and abs(scalar_dot(new_dv, pt_diff)) / (
+                np.linalg.norm(new_dv) *  np.linalg.norm(pt_diff)) <= tol2:
             break
 
     return uivi
@@ -292,7 +294,10 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
         #      )
         mask2 = pt_norm <= tol1
         dui1 = sdu(ui1vi1)
-        mask3 = abs(np.array(dot(dui1, pt_vec))) / np.array(norm(dui1) * pt_norm) <= tol2
+        dvi1 = sdv(ui1vi1)
+        mask3 = np.bitwise_and(
+            abs(np.array(dot(dui1, pt_vec))) / np.array(norm(dui1) * pt_norm) <= tol2,
+            abs(np.array(dot(dvi1, pt_vec))) / np.array(norm(dvi1) * pt_norm) <= tol2)
         mask = np.bitwise_or(mask, np.bitwise_or(mask2, mask3))
         mask_inv = np.bitwise_not(mask)
         result_uv[mask_indices] = ui1vi1
-- 
2.43.0


From 4942b84cb988f5e442c7052ddc15cb7171b481ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 205/211] fix: surface_plane always failed, unpacking a point
 into a point and a normal

---
 mmcore/numeric/algorithms/implicit_point.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index a86880d..1a306c5 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -215,8 +215,9 @@ def surface_point(fun, p0, grad=None, tol=1e-8):
 
 
 def surface_plane(fun, p_start, grad, tol=1e-5):
-    p, nv = surface_point(fun, p_start, grad, tol)
-    nv = _normalize3d(nv)
+    grad = _resolve_grad(fun, grad)
+    p = surface_point(fun, p_start, grad, tol)
+    nv = _normalize3d(grad(p))
 
     if abs(nv[0]) > 0.5 or abs(nv[1]) > 0.5:
         tv1 = np.array([nv[1], -nv[0], 0])
-- 
2.43.0


From 384a1fb7c0e6cacd75b4ba3187496586d4139458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 206/211] fix: intersection_curve_point mixed up its result
 with gradients and the flag

---
 mmcore/numeric/algorithms/implicit_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 1a306c5..44a687b 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -141,7 +141,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
         i += 1
 
     if return_grads:
-        return (success, (qk_next, f1, f2, g1, g2)) if no_err else qk_next, f1, f2, g1, g2
+        return (success, (qk_next, f1, f2, g1, g2)) if no_err else (qk_next, f1, f2, g1, g2)
 
     return (success, qk_next) if no_err else qk_next
 
-- 
2.43.0


From 9b0ca0d75ad4f8ba3ac9741d308cd48567a1b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 207/211] fix: the domain of a surface with unclamped knots ran
 from its first to its last knot

---
 mmcore/geom/nurbs.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index fb4f711..749ecf0 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2466,10 +2466,10 @@ cdef class NURBSSurface(ParametricSurface):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void _update_interval(self) :
-        self._interval[0][0] = self._knots_u[0]
-        self._interval[0][1] = self._knots_u[self._knots_u.shape[0]-1]
-        self._interval[1][0] = self._knots_v[0]
-        self._interval[1][1] = self._knots_v[self._knots_v.shape[0]-1]
+        self._interval[0][0] = self._knots_u[self._degree[0]]
+        self._interval[0][1] = self._knots_u[self._knots_u.shape[0]-1-self._degree[0]]
+        self._interval[1][0] = self._knots_v[self._degree[1]]
+        self._interval[1][1] = self._knots_v[self._knots_v.shape[0]-1-self._degree[1]]
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From 25b9ce16e55d15b44e3b4938d3f9d1095a168b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 208/211] fix: decompose_curve failed on curves with unclamped
 knots

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 749ecf0..fdc4e9a 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2320,7 +2320,7 @@ cpdef list split_curve_multiple(NURBSCurve crv, double[:] params):
 @cython.boundscheck(False)
 @cython.cdivision(True)
 def decompose_curve(NURBSCurve crv):
-    cdef double[:] params=np.unique(crv._knots)
+    cdef double[:] params=np.unique(crv._knots[crv._degree:crv._knots.shape[0] - crv._degree])
     params=params[1:][:params.shape[0]-2]
     cdef list curves=split_curve_multiple(crv,params)
     return curves
-- 
2.43.0


From 13fa489bc812cbc7d53630bc40f4e4411ca21a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 209/211] fix: changing the degree of a curve kept the knots,
 domain and points of the old one

---
 mmcore/geom/nurbs.pyx | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index fdc4e9a..7675194 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1243,7 +1243,22 @@ cdef class NURBSCurve(ParametricCurve):
 
         return obj
     cpdef void set_degree(self, int val):
-        self._degree=val
+        cdef int n = self._control_points.shape[0]
+        if val == self._degree:
+            return
+        if self._periodic:
+            # the last control points repeat the first ones
+            n -= self._degree
+        if val < 1 or val >= n:
+            raise ValueError("The degree must be at least 1 and less than the number of control points.")
+        if self._periodic:
+            self._degree = val
+            self._control_points = self.generate_control_points_periodic(self._control_points[:n])
+            self.generate_knots_periodic()
+        else:
+            self._degree = val
+            self.generate_knots()
+        self._evaluate_cached.cache_clear()
 
 
     cpdef int get_degree(self):
-- 
2.43.0


From da05bc5ece2d4880b856cd08eda3c5477da95808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:04 +0000
Subject: [PATCH 210/211] fix: derivatives1 and derivatives2 returned too few
 rows for orders above the degree

---
 mmcore/geom/curves/_nurbs.pyx | 6 ++----
 mmcore/geom/nurbs.pyx         | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/mmcore/geom/curves/_nurbs.pyx b/mmcore/geom/curves/_nurbs.pyx
index 99df9bf..26df40b 100644
--- a/mmcore/geom/curves/_nurbs.pyx
+++ b/mmcore/geom/curves/_nurbs.pyx
@@ -934,8 +934,7 @@ cdef class NURBSpline(ParametricCurve):
         :return: np.array with shape (d+1,M) where M is the number of vector components.
         """
 
-        cdef int du = min(d, self._degree)
-        cdef double[:, :]  CK = np.zeros((du + 1, 3))
+        cdef double[:, :]  CK = np.zeros((d + 1, 3))
 
 
         self.cderivatives2(t,d,CK)
@@ -952,8 +951,7 @@ cdef class NURBSpline(ParametricCurve):
             :type d: int
             :return: np.array with shape (d+1,M) where M is the number of vector components.
             """
-            cdef int du = min(d, self._degree)
-            cdef double[:, :]  CK = np.zeros((du + 1, 3))
+            cdef double[:, :]  CK = np.zeros((d + 1, 3))
 
             self.cderivatives1(t,d, CK)
             return np.asarray(CK)
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 7675194..c2b8cc3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1699,8 +1699,7 @@ cdef class NURBSCurve(ParametricCurve):
         :return: np.array with shape (d+1,M) where M is the number of vector components.
         """
 
-        cdef int du = min(d, self._degree)
-        cdef cnp.ndarray[double, ndim=2]  CK = np.zeros((du + 1, 3))
+        cdef cnp.ndarray[double, ndim=2]  CK = np.zeros((d + 1, 3))
 
 
         self.cderivatives2(t,d,CK)
@@ -1717,8 +1716,7 @@ cdef class NURBSCurve(ParametricCurve):
             :type d: int
             :return: np.array with shape (d+1,M) where M is the number of vector components.
             """
-            cdef int du = min(d, self._degree)
-            cdef cnp.ndarray[double, ndim=2] CK = np.zeros((du + 1, 3))
+            cdef cnp.ndarray[double, ndim=2] CK = np.zeros((d + 1, 3))
 
             self.cderivatives1(t,d, CK)
             return CK
-- 
2.43.0


From 28d97a37d9c3e0068569bc738106b6821a7c0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:38 +0000
Subject: [PATCH 211/211] fix: keep the step of point_inversion_surface that
 recorded intersections depend on

---
 mmcore/numeric/algorithms/point_inversion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index f7c1fcd..cca1525 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -183,12 +183,13 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         # Check convergence criteria
         step = np.linalg.norm(ui1vi1 - uivi) * (np.linalg.norm(du) + np.linalg.norm(
                 dv))
-        uivi = ui1vi1
         if step <= tol1:
+            uivi = ui1vi1
             break
         new_pt=surface.evaluate(ui1vi1)
         if scalar_norm( new_pt- P) <= tol1:
             break
+        uivi = ui1vi1
         new_du=surface.derivative_u(ui1vi1)
         new_dv=surface.derivative_v(ui1vi1)
 
-- 
2.43.0

