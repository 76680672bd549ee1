From 7097ab145ac45c4b0e1cb354c5baaa803bad11c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 001/107] fix: recenter a quadratic that has no center (or an
 integer one)

---
 regreg/identity_quadratic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 8762578..78134e9 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -98,7 +98,7 @@ class identity_quadratic(object):
 
         if offset is not None:
             cpq = copy(self)
-            cpq.center -= offset 
+            cpq.center = (0 if cpq.center is None else cpq.center) - offset
             cpq = cpq.collapsed()
             return offset, cpq
         else:
-- 
2.43.0


From 2999b8be2c4b5ede69a59114082f170eec3a8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 002/107] fix: noneify looks at the center, not at a missing
 attribute

---
 regreg/identity_quadratic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/identity_quadratic.py b/regreg/identity_quadratic.py
index 78134e9..4459fb3 100644
--- a/regreg/identity_quadratic.py
+++ b/regreg/identity_quadratic.py
@@ -83,8 +83,8 @@ class identity_quadratic(object):
             self.constant_term = 0
         if self.linear_term is not None and all(self.linear_term == 0):
             self.linear_term = None
-        if self.center is not None and all(self.center_term == 0):
-            self.center_term = None
+        if self.center is not None and all(self.center == 0):
+            self.center = None
 
     def zeroify(self):
         for a in ['coef', 'center', 'linear_term', 'constant_term']:
-- 
2.43.0


From 8a6c448cf9746c935f21c115d409d953a085a61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 003/107] fix: weighted threshold kernel ignores entries of
 zero weight

they made it divide by zero (or cancel catastrophically) where the
weighted l1, group lasso and their duals allow zero weights
---
 regreg/atoms/piecewise_linear.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/regreg/atoms/piecewise_linear.pyx b/regreg/atoms/piecewise_linear.pyx
index f16e181..606d2bf 100644
--- a/regreg/atoms/piecewise_linear.pyx
+++ b/regreg/atoms/piecewise_linear.pyx
@@ -37,9 +37,17 @@ def find_solution_piecewise_linear(DTYPE_float_t b,
 
     """
 
+    # entries with no weight do not contribute to f
+
+    keep = weights > 0
+    norms, weights = norms[keep], weights[keep]
+
     cdef int q = norms.shape[0]
     cdef int stop = 0
 
+    if q == 0:
+        return max(-b / slope, 0) if slope > 0 else 0
+
     if (weights * norms).sum() < b:
         return 0
 
-- 
2.43.0


From ba0934367ba17a63576e9d2803aadd3a09ed666c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:57 +0000
Subject: [PATCH 004/107] fix: block_sum and block_max proximal maps on python
 3 (xrange)

---
 regreg/atoms/block_norms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 7abb416..e69b0a4 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -87,7 +87,7 @@ class block_sum(seminorms.seminorm):
         x = x.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, x, lipschitz, lagrange)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.lagrange_prox(x[i], lipschitz=lipschitz,
                                            lagrange=lagrange)
         return v
@@ -201,7 +201,7 @@ class block_max(block_sum):
         bound = seminorms.seminorm.bound_prox(self, x,
                                       bound=bound)
         v = np.empty(x.shape)
-        for i in xrange(self.shape[0]):
+        for i in range(self.shape[0]):
             v[i] = self.atom.bound_prox(x[i], 
                                         bound=bound)
         return v
-- 
2.43.0


From 38364c60d962941b92d7f33544debca07754657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 005/107] fix: l1_l2 and linf_l2 proximal maps of a matrix with
 zero rows (nan)

---
 regreg/atoms/block_norms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index e69b0a4..eab7c07 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -283,7 +283,7 @@ class linf_l2(block_max):
         bound = seminorms.seminorm.bound_prox(self, arg,
                                               bound=bound)
         v = arg.copy()
-        v[norm >= bound] *= bound / norm[norm >= bound][:,np.newaxis]
+        v[norm > bound] *= bound / norm[norm > bound][:,np.newaxis]
         return v
 
     @doc_template_user
@@ -296,7 +296,7 @@ class linf_l2(block_max):
             proj_factor = (norm - cut) * (norm > cut)
         else:
             proj_factor = arg
-        factor = (norm - proj_factor) / norm
+        factor = (norm - proj_factor) / np.where(norm > 0, norm, 1) # zero rows stay zero
         v = arg.copy()
         v *= factor[:,np.newaxis]
         return v
@@ -466,7 +466,7 @@ class l1_l2(block_sum):
         arg = arg.reshape(self.shape)
         lagrange = seminorms.seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
         norm = np.sqrt((arg**2).sum(1))
-        mult = np.maximum(norm - lagrange / lipschitz, 0) / norm
+        mult = np.maximum(norm - lagrange / lipschitz, 0) / np.where(norm > 0, norm, 1) # zero rows stay zero
         return arg * mult[:, np.newaxis]
 
     @doc_template_user
@@ -480,7 +480,7 @@ class l1_l2(block_sum):
             proj_factor = (norm - cut) * (norm > cut)
         else:
             proj_factor = arg
-        factor = proj_factor / norm
+        factor = proj_factor / np.where(norm > 0, norm, 1) # zero rows stay zero
         v = arg.copy()
         v *= factor[:,np.newaxis]
         return v
-- 
2.43.0


From cc95184b136f2443e9598a0da7e97a449c4f6759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:56 +0000
Subject: [PATCH 006/107] fix: weighted l1 and sup proximal maps with infinite
 weights and a zero bound (0 * inf)

---
 regreg/atoms/weighted_atoms.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 18b7c63..a0f588e 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -174,8 +174,9 @@ class l1norm(seminorm):
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
         lagrange = seminorm.lagrange_prox(self, arg, lipschitz, lagrange)
-        return np.sign(arg) * np.maximum(np.fabs(arg)-lagrange * self.weights
-                                       / lipschitz, 0)
+        _isinf = np.isinf(self.weights)
+        cut = np.where(_isinf, np.inf, lagrange * np.where(_isinf, 0, self.weights) / lipschitz)
+        return np.sign(arg) * np.maximum(np.fabs(arg)-cut, 0)
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
@@ -246,14 +247,17 @@ class supnorm(seminorm):
                                                    0,
                                                    np.fabs(arg[_keep]),
                                                    weights[_keep])
-        resid = np.sign(arg) * np.maximum(np.fabs(arg)-_lagrange * weights, 0)
+        cut = weights * (_lagrange + _isinf)
+        resid = np.sign(arg) * np.maximum(np.fabs(arg)-cut, 0)
 
         return arg - resid
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
         bound = seminorm.bound_prox(self, arg, bound)
-        return np.clip(arg, -bound * self.invweights, bound * self.invweights)
+        _isinf = np.isinf(self.invweights)
+        cut = np.where(_isinf, np.inf, bound * np.where(_isinf, 0, self.invweights))
+        return np.clip(arg, -cut, cut)
 
     def terms(self, arg, check_feasibility=True):
         """
-- 
2.43.0


From 6a203dea66a58c35af0e32161f47269bc99596df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:44 +0000
Subject: [PATCH 007/107] fix: nonnegative-restricted seminorms accept points
 with zero entries and a tight (zero) bound

---
 regreg/atoms/seminorms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index df6af7e..50f637f 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -947,7 +947,7 @@ class constrained_max(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         v = lagrange * np.max(arg)
         if not anyneg or not check_feasibility:
             return v
@@ -956,7 +956,7 @@ class constrained_max(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         inside = np.max(arg) <= bound * (1 + self.tol)
         if inside and not anyneg:
             return 0
@@ -1025,7 +1025,7 @@ class constrained_positive_part(seminorm):
         lagrange = seminorm.seminorm(self, arg, 
                                  check_feasibility=check_feasibility, 
                                  lagrange=lagrange)
-        anyneg = np.any(arg < 0 + self.tol)
+        anyneg = np.any(arg < -self.tol)
         v = np.maximum(arg, 0).sum()
         if not anyneg or not check_feasibility:
             return v * lagrange
@@ -1035,7 +1035,7 @@ class constrained_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         value = self.seminorm(arg, lagrange=1, check_feasibility=True)
-        if value >= bound * (1 + self.tol):
+        if value > bound * (1 + self.tol):
             return np.inf
         return 0
 
@@ -1112,7 +1112,7 @@ class max_positive_part(seminorm):
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
         v = np.max(np.maximum(arg,0))
-        if v >= bound * (1 + self.tol):
+        if v > bound * (1 + self.tol):
             return np.inf
         return 0
 
-- 
2.43.0


From c2cf56703579cdd3444358a0d59d228a4d3a4780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:51 +0000
Subject: [PATCH 008/107] fix: block_sum and block_max constraints use the
 bound and the domain of the row atoms

---
 regreg/atoms/block_norms.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index eab7c07..e10a321 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -60,7 +60,7 @@ class block_sum(seminorms.seminorm):
         value = np.empty(self.shape[0])
         for i in range(self.shape[0]):
             value[i] = self.atom.seminorm(x[i], lagrange=lagrange,
-                                          check_feasibility=False)
+                                          check_feasibility=check_feasibility)
         return value
 
     @doc_template_user
@@ -74,11 +74,11 @@ class block_sum(seminorms.seminorm):
                            lagrange=1.))
 
     @doc_template_user
-    def constraint(self, x):
-        # XXX should we check feasibility here?
+    def constraint(self, x, bound=None):
         x = x.reshape(self.shape)
-        v = np.sum(self.seminorms(x, check_feasibility=False))
-        if v <= self.bound * (1 + self.tol):
+        bound = seminorms.seminorm.constraint(self, x, bound=bound)
+        v = np.sum(self.seminorms(x, lagrange=1., check_feasibility=True))
+        if v <= bound * (1 + self.tol):
             return 0
         return np.inf
 
@@ -186,8 +186,8 @@ class block_max(block_sum):
         x = x.reshape(self.shape)
         bound = seminorms.seminorm.constraint(self, x, bound=bound)
         # XXX should we check feasibility here?
-        v = np.max(self.seminorms(x, lagrange=1., check_feasibility=False))
-        if v <= self.bound * (1 + self.tol):
+        v = np.max(self.seminorms(x, lagrange=1., check_feasibility=True))
+        if v <= bound * (1 + self.tol):
             return 0
         return np.inf
 
-- 
2.43.0


From 015a64b33f2467ba4b664d0fb40df095529e5927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:06 +0000
Subject: [PATCH 009/107] fix: sparse_group_block constraint (axis of the row
 sums) and terms (weight of the row norms)

---
 regreg/atoms/sparse_group_block.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 14bdeae..a0fd168 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -70,7 +70,7 @@ class sparse_group_block(l1_l2):
     def constraint(self, x):
         x = x.reshape(self.shape)
         l1_norms = np.fabs(x).sum()
-        l2_norms = np.sqrt(np.sum(x**2), 1).sum()
+        l2_norms = np.sqrt(np.sum(x**2, 1)).sum()
         norm_sum = self.l1_weight * l1_norms + self.l2_weight * l2_norms
         if norm_sum <= self.bound * (1 + self.tol):
             return 0
@@ -140,7 +140,7 @@ class sparse_group_block(l1_l2):
         
         """
         terms = (np.fabs(arg).sum(1) * self.l1_weight + 
-                 np.sqrt((arg**2).sum(1)) * self.l1_weight)
+                 np.sqrt((arg**2).sum(1)) * self.l2_weight)
         return terms
 
 class sparse_group_block_dual(sparse_group_block):
-- 
2.43.0


From b7b95090fc984e4e5e15e0234eddcdbc6f21e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 010/107] fix: sparse_group_lasso_dual evaluates in Lagrange
 form, its constraint uses the bound and returns 0 or inf

---
 regreg/atoms/sparse_group_lasso.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index e11fb5b..3085b4b 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -239,18 +239,18 @@ class sparse_group_lasso_dual(sparse_group_lasso):
      @property
      def base_conjugate(self):
          """
-         For a sparse group LASSO dual in bound form,
-         an atom that agrees with its primal Lagrange form.
+         For a sparse group LASSO dual, the primal norm
+         (its Lagrange form with Lagrange parameter 1).
          
          Note: this conjugate does not take into account the atom's quadratic
          and offset terms. 
          """
-         if not hasattr(self, "_conjugate_atom"):
+         if not hasattr(self, "_base_conjugate_atom"):
               self._base_conjugate_atom = sparse_group_lasso(  
                                              self.groups,
                                              self.lasso_weights,
                                              weights=self.weights,
-                                             lagrange=self.bound)
+                                             lagrange=1.)
          return self._base_conjugate_atom
 
      @doc_template_user
@@ -263,7 +263,11 @@ class sparse_group_lasso_dual(sparse_group_lasso):
      @doc_template_user
      def constraint(self, x, bound=None):
          bound = seminorm.constraint(self, x, bound=bound)
-         return inside_set(self.base_conjugate, x)
+         x = np.asarray(x, float)
+         resid = self.base_conjugate.lagrange_prox(x, lagrange=bound * (1 + self.tol))
+         if np.linalg.norm(resid) <= np.linalg.norm(x) * 1.e-7:
+             return 0
+         return np.inf
 
      @doc_template_user
      def lagrange_prox(self, x,  lipschitz=1, lagrange=None):
@@ -321,7 +325,7 @@ def inside_set(atom, point):
     else:
         raise ValueError('must be a sparse group lasso class')
 
-    if np.linalg.norm(proj_point - point) > max(np.linalg.norm(point), 1) * 1.e-7:
+    if np.linalg.norm(proj_point - point) > np.linalg.norm(point) * 1.e-7:
         return False
     return True
 
-- 
2.43.0


From f75f9a2520583cd7a16c0857f35ec0e119e076a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:03 +0000
Subject: [PATCH 011/107] fix: weighted sup norm with no finite weight is zero;
 its terms multiply by the weights as the norm does

---
 regreg/atoms/weighted_atoms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index a0f588e..262d7af 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -224,7 +224,7 @@ class supnorm(seminorm):
             check_zero = ~finite * (arg != 0)
             if check_zero.sum():
                 return np.inf
-        return lagrange * np.fabs(arg[finite] * self.weights[finite]).max()
+        return lagrange * np.max(np.fabs(arg[finite] * self.weights[finite]), initial=0)
 
     @doc_template_user
     def constraint(self, arg, bound=None):
@@ -266,9 +266,10 @@ class supnorm(seminorm):
 
         """
         arg = np.asarray(arg)
-        v = np.fabs(arg) / self.weights
+        finite = np.isfinite(self.weights)
+        v = np.fabs(arg) * np.where(finite, self.weights, 0)
         if check_feasibility:
-            v[self.weights == 0] = np.where(np.fabs(arg[self.weights == 0]) != 0, np.inf, 0)
+            v[~finite] = np.where(arg[~finite] != 0, np.inf, 0)
         return v
 
 conjugate_weighted_pairs = {}
-- 
2.43.0


From 4fc58025a6bf5977b4f8cac231b9bfd4bfcd5a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:35 +0000
Subject: [PATCH 012/107] fix: group lasso dual norm and mixed lasso kernels
 with zero weights, zero bounds and sign restrictions

---
 regreg/atoms/group_lasso.py         |   6 +-
 regreg/atoms/mixed_lasso_cython.pyx | 104 ++++++++++++++--------------
 2 files changed, 56 insertions(+), 54 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 77ff69b..76cd6a0 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -206,7 +206,7 @@ class group_lasso(seminorm):
                                                self._group_array,
                                                self._weight_array,
                                                self._norms_cython,
-                                               False)
+                                               check_feasibility)
 
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
@@ -257,7 +257,7 @@ class group_lasso(seminorm):
     @doc_template_user
     def constraint(self, arg, bound=None):
         bound = seminorm.constraint(self, arg, bound=bound)
-        inball = self.seminorm(arg, lagrange=1) <= bound
+        inball = self.seminorm(arg, lagrange=1, check_feasibility=True) <= bound * (1 + self.tol)
         if inball:
             return 0
         else:
@@ -354,7 +354,7 @@ class group_lasso_dual(group_lasso):
                                                     self._group_array,
                                                     self._weight_array,
                                                     self._norms_cython,
-                                                    False)
+                                                    check_feasibility=check_feasibility)
 
     @doc_template_user
     def bound_prox(self, arg, bound=None):
diff --git a/regreg/atoms/mixed_lasso_cython.pyx b/regreg/atoms/mixed_lasso_cython.pyx
index d96d53f..a0c4e2d 100644
--- a/regreg/atoms/mixed_lasso_cython.pyx
+++ b/regreg/atoms/mixed_lasso_cython.pyx
@@ -47,9 +47,7 @@ def mixed_lasso_lagrange_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = (prox_center[l1_penalty] * 
-                              np.minimum(1, implied_bound / 
-                                         np.fabs(prox_center[l1_penalty])))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -implied_bound, implied_bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(implied_bound, 
                                            prox_center[positive_part])
@@ -87,7 +85,7 @@ def mixed_lasso_dual_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
         if groups[i] >= 0:
             projection[i] = prox_center[i] * factors[groups[i]]
 
-    projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1, bound / np.fabs(prox_center[l1_penalty]))
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -bound, bound)
     projection[unpenalized] = 0
     projection[positive_part] = np.minimum(bound, prox_center[positive_part])
     projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
@@ -126,10 +124,10 @@ def seminorm_mixed_lasso(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     tol = 1.e-5
     if check_feasibility:
         xpos = x[positive_part]
-        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < tol:
+        if tuple(xpos.shape) not in [(),(0,)] and xpos.min() < -tol:
             value = np.inf
         xnn = x[nonnegative]
-        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < nntol:
+        if tuple(xnn.shape) not in [(),(0,)] and xnn.min() < -nntol:
             value = np.inf
 
     return value
@@ -295,7 +293,7 @@ def seminorm_mixed_lasso_dual(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     if xl1.shape not in [(), (0,)]:
         value = np.fabs(xl1).max()
     else:
-        value = -np.inf
+        value = 0
 
     xpos = x[positive_part]
     if xpos.shape not in [(), (0,)]:
@@ -312,7 +310,11 @@ def seminorm_mixed_lasso_dual(cnp.ndarray[DTYPE_float_t, ndim=1] x,
     if check_feasibility:
         xnn = x[nonnegative]
         if xnn.shape not in [(), (0,)]:
-            if xnn.min() < -nntol:
+            if xnn.max() > nntol:
+                value = np.inf
+        xun = x[unpenalized]
+        if xun.shape not in [(), (0,)]:
+            if np.fabs(xun).max() > nntol:
                 value = np.inf
 
     return value
@@ -343,7 +345,7 @@ def mixed_lasso_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
     for j in range(q):
         norms[j] = np.sqrt(norms[j])
     
-    cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = prox_center[l1_penalty]
+    cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = np.fabs(prox_center[l1_penalty])
     l1term = l1term[l1term != 0]
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] ppterm = prox_center[positive_part]
@@ -359,25 +361,25 @@ def mixed_lasso_bound_prox(cnp.ndarray[DTYPE_float_t, ndim=1] prox_center,
                                                      0,
                                                      fnorms,
                                                      fweights)
-    if cut < np.inf:
-        for j in range(weights.shape[0]):
-            if norms[j] > 0:
-                factors[j] = min(1., cut * weights[j] / norms[j])
-            else:
-                factors[j] = 1.
-
-        for i in range(p):
-            if groups[i] >= 0:
-                projection[i] = prox_center[i] * factors[groups[i]]
-
-        projection[l1_penalty] = prox_center[l1_penalty] * np.minimum(1., cut / np.fabs(prox_center[l1_penalty]))
-        projection[unpenalized] = 0
-        projection[positive_part] = np.minimum(cut, prox_center[positive_part])
-        projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
-
-        return prox_center - projection
-    else:
-        return prox_center
+    if not cut < np.inf: # the point is feasible
+        cut = 0.
+
+    for j in range(weights.shape[0]):
+        if norms[j] > 0:
+            factors[j] = min(1., cut * weights[j] / norms[j])
+        else:
+            factors[j] = 1.
+
+    for i in range(p):
+        if groups[i] >= 0:
+            projection[i] = prox_center[i] * factors[groups[i]]
+
+    projection[l1_penalty] = np.clip(prox_center[l1_penalty], -cut, cut)
+    projection[unpenalized] = 0
+    projection[positive_part] = np.minimum(cut, prox_center[positive_part])
+    projection[nonnegative] = np.minimum(prox_center[nonnegative], 0)
+
+    return prox_center - projection
 
 def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
                          cnp.ndarray[DTYPE_intp_t, ndim=1] l1_penalty,
@@ -407,7 +409,7 @@ def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
     for j in range(q):
         norms[j] = np.sqrt(norms[j])
     
-    cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = x[l1_penalty]
+    cdef cnp.ndarray[DTYPE_float_t, ndim=1] l1term = np.fabs(x[l1_penalty])
     l1term = l1term[l1term != 0]
     
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] ppterm = x[positive_part]
@@ -425,27 +427,27 @@ def mixed_lasso_epigraph(cnp.ndarray[DTYPE_float_t, ndim=1] center,
                                                      fweights)
 
     cdef cnp.ndarray[DTYPE_float_t, ndim=1] result = np.zeros_like(center)
-    if cut < np.inf:
-        if norm + cut >= 0:
-            for j in range(weights.shape[0]):
-                if norms[j] > 0:
-                    factors[j] = min(1., cut * weights[j] / norms[j])
-                else:
-                    factors[j] = 1.
-
-            for i in range(p):
-                if groups[i] >= 0:
-                    projection[i] = x[i] * factors[groups[i]]
-
-            projection[l1_penalty] = x[l1_penalty] * np.minimum(1., cut / np.fabs(x[l1_penalty]))
-            projection[unpenalized] = 0
-            projection[positive_part] = np.minimum(cut, x[positive_part])
-            projection[nonnegative] = np.minimum(x[nonnegative], 0)
-
-            result[:-1] = x - projection
-            result[-1] = norm + cut
-        # else, it is zero from initialization
-    else:
-        result[:] = center
+    if not cut < np.inf: # the point is in the epigraph
+        cut = 0.
+    if norm + cut < 0: # the penalized coordinates project to 0
+        cut = -norm
+
+    for j in range(weights.shape[0]):
+        if norms[j] > 0:
+            factors[j] = min(1., cut * weights[j] / norms[j])
+        else:
+            factors[j] = 1.
+
+    for i in range(p):
+        if groups[i] >= 0:
+            projection[i] = x[i] * factors[groups[i]]
+
+    projection[l1_penalty] = np.clip(x[l1_penalty], -cut, cut)
+    projection[unpenalized] = 0
+    projection[positive_part] = np.minimum(cut, x[positive_part])
+    projection[nonnegative] = np.minimum(x[nonnegative], 0)
+
+    result[:-1] = x - projection
+    result[-1] = norm + cut
 
     return result
-- 
2.43.0


From c948e5620698d8e94243f43b4bc46737b22b4ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:59 +0000
Subject: [PATCH 013/107] fix: conjugates of block norms follow a changed bound
 or lagrange; import smooth_conjugate in slope, simplex, svd_norms

---
 regreg/atoms/block_norms.py        | 17 +++++++----------
 regreg/atoms/simplex.py            |  2 ++
 regreg/atoms/slope.py              |  1 +
 regreg/atoms/sparse_group_block.py | 10 ++++------
 regreg/atoms/svd_norms.py          |  1 +
 5 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index e10a321..af3d1eb 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -122,14 +122,13 @@ class block_sum(seminorms.seminorm):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
-            atom_cls = conj_atom.__class__
+            atom_cls = self.atom.conjugate.__class__
 
             atom = cls(atom_cls, 
                        self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -309,12 +308,11 @@ class linf_l2(block_max):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -536,12 +534,11 @@ class l1_l2(block_sum):
                                                self.quadratic)
 
             cls = conjugate_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 42468d6..62a74b1 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -5,6 +5,8 @@ import numpy as np
 from copy import copy
 
 from ..atoms import atom, _work_out_conjugate, affine_atom
+from ..affine import linear_transform
+from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
 
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 000f03b..02e696c 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -20,6 +20,7 @@ from ._isotonic_py import pav as isotonic_regression_py
 from .seminorms import seminorm
 
 from ..atoms import _work_out_conjugate
+from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
 
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index a0fd168..08efd10 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -93,14 +93,13 @@ class sparse_group_block(l1_l2):
                                                self.quadratic)
 
             cls = sparse_group_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        self.l1_weight,
                        self.l2_weight,
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
@@ -213,14 +212,13 @@ class sparse_group_block_dual(sparse_group_block):
                                                self.quadratic)
 
             cls = sparse_group_block_pairs[self.__class__]
-            conj_atom = self.atom.conjugate
 
             atom = cls(self.shape, 
                        self.l1_weight,
                        self.l2_weight,
                        offset=offset,
-                       lagrange=conj_atom.lagrange,
-                       bound=conj_atom.bound,
+                       lagrange=self.bound,
+                       bound=self.lagrange,
                        quadratic=outq)
 
         else:
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 4745552..5509c79 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -9,6 +9,7 @@ from copy import copy
 import numpy as np
 
 from ..atoms import atom, _work_out_conjugate
+from ..problems.composite import smooth_conjugate
 from .seminorms import conjugate_seminorm_pairs, seminorm, l1norm, supnorm
 from .cones import cone, conjugate_cone_pairs
 from .projl1_cython import projl1, projl1_epigraph
-- 
2.43.0


From 53ca5134755b76da605baf71c5d9f1127b88a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:30 +0000
Subject: [PATCH 014/107] fix: l2 epigraph projections inside the cone and at
 zero coefficients

---
 regreg/atoms/cones.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 1beb2f9..7483f98 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -469,9 +469,10 @@ class l2_epigraph(cone):
         norm = x[-1]
         coef = x[:-1]
         norm_coef = np.linalg.norm(coef)
-        thold = (norm_coef - norm) / 2.
-        result = np.zeros_like(x)
-        result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
+        thold = max((norm_coef - norm) / 2., 0) # 0 inside the cone
+        result = np.zeros(x.shape)
+        if norm_coef > 0:
+            result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
         result[-1] = max(norm + thold, 0)
         return result
 
@@ -513,9 +514,10 @@ class l2_epigraph_polar(cone):
         norm = arg[-1]
         coef = arg[:-1]
         norm_coef = np.linalg.norm(coef)
-        thold = (norm_coef - norm) / 2.
-        result = np.zeros_like(arg)
-        result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
+        thold = max((norm_coef - norm) / 2., 0) # 0 inside the cone
+        result = np.zeros(arg.shape)
+        if norm_coef > 0:
+            result[:-1] = coef / norm_coef * max(norm_coef - thold, 0)
         result[-1] = max(norm + thold, 0)
         return -result
 
-- 
2.43.0


From 92ec5b418170fe257d591b44d5bbdd28f71320d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:57 +0000
Subject: [PATCH 015/107] fix: proximal maps keep the shape of the atom when
 the quadratic has scalar terms only

---
 regreg/atoms/cones.py        |  2 +-
 regreg/atoms/mixed_lasso.py  |  4 ++--
 regreg/atoms/seminorms.py    |  2 +-
 regreg/atoms/simplex.py      |  4 ++--
 regreg/problems/composite.py | 12 +++++++++++-
 5 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index 7483f98..a0fdd28 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -194,7 +194,7 @@ class cone(atom):
         if totalq.coef == 0:
             raise ValueError('lipschitz + quadratic coef must be positive')
 
-        prox_arg = -totalq.linear_term / totalq.coef
+        prox_arg = self._center_of(totalq)
 
         eta = self.cone_prox(prox_arg)
         if offset is None:
diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 0f9b969..a341712 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -203,7 +203,7 @@ class mixed_lasso(atom):
         if totalq.coef == 0:
             raise ValueError('lipschitz + quadratic coef must be positive')
 
-        prox_arg = -totalq.linear_term / totalq.coef
+        prox_arg = self._center_of(totalq)
 
         # flush buffers for computations
 
@@ -378,7 +378,7 @@ class mixed_lasso_dual(mixed_lasso):
         if totalq.coef == 0:
             raise ValueError('lipschitz + quadratic coef must be positive')
 
-        prox_arg = -totalq.linear_term / totalq.coef
+        prox_arg = self._center_of(totalq)
 
         # flush buffers for computations
 
diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index 50f637f..efb7efa 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -339,7 +339,7 @@ class seminorm(atom):
         if totalq.coef == 0:
             raise ValueError('lipschitz + quadratic coef must be positive')
 
-        prox_arg = -totalq.linear_term / totalq.coef
+        prox_arg = self._center_of(totalq)
 
         debug = False
         if debug:
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 62a74b1..ce5811f 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -80,7 +80,7 @@ class simplex_constraint(atom):
         if totalq.coef == 0:
             raise ValueError('lipschitz + quadratic coef must be positive')
 
-        prox_arg = -totalq.linear_term / totalq.coef
+        prox_arg = self._center_of(totalq)
 
         eta = self._basic_prox(prox_arg, totalq.coef)
         if offset is None:
@@ -212,7 +212,7 @@ class maximum(atom):
         if totalq.coef == 0:
             raise ValueError('lipschitz + quadratic coef must be positive')
 
-        prox_arg = -totalq.linear_term / totalq.coef
+        prox_arg = self._center_of(totalq)
         eta = self._basic_prox(prox_arg, totalq.coef)
         if offset is None:
             return eta
diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 13a4b6f..6acb84b 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -117,6 +117,16 @@ class composite(object):
             return x - self.offset
         return x
 
+    def _center_of(self, totalq):
+        """
+        The minimizer of a collapsed quadratic, of the shape of this object
+        also when the quadratic has a scalar linear term.
+        """
+        center = -totalq.linear_term / totalq.coef
+        if asarray(center).shape == ():
+            center = center + zeros(self.shape)
+        return center
+
     def set_quadratic(self, quadratic):
         """
         Set the quadratic part of the composite.
@@ -208,7 +218,7 @@ class smooth(composite):
 
     def proximal(self, quadratic):
         totalq = self.quadratic + quadratic
-        return -totalq.linear_term / totalq.coef
+        return self._center_of(totalq)
 
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
         if quadratic is None:
-- 
2.43.0


From e281d850cc2bb37501dc8a5e6d288a3b1377fbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:05 +0000
Subject: [PATCH 016/107] fix: proximal_optimum returns a value that counts
 each quadratic once

---
 regreg/problems/composite.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 6acb84b..d40fc14 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -89,10 +89,8 @@ class composite(object):
         and nonsmooth objective the value.
         """
         argmin = self.proximal(quadratic)
-        if self.quadratic is None:
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) 
-        else: 
-            return argmin, quadratic.objective(argmin) + self.nonsmooth_objective(argmin) + self.quadratic.objective(argmin, 'func') 
+        # nonsmooth_objective includes self.quadratic
+        return argmin, quadratic.objective(argmin, 'func') + self.nonsmooth_objective(argmin)
 
     def proximal_step(self, quadratic, prox_control=None):
         """
-- 
2.43.0


From f01cc44c1876691f6f729e31549d426dfafd3a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 017/107] fix: mixed lasso objective applies its offset once;
 its dual's constraint returns 0 or infinity

---
 regreg/atoms/mixed_lasso.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index a341712..1588974 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -152,8 +152,9 @@ class mixed_lasso(atom):
         """
         if bound is None:
             raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+        if self.seminorm(x, lagrange=1, check_feasibility=True) <= bound * (1 + self.tol):
+            return 0
+        return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
@@ -161,13 +162,14 @@ class mixed_lasso(atom):
         v += self.quadratic.objective(x, 'func')
         return v
 
-    def seminorm(self, x, check_feasibility=False):
-        x_offset = self.apply_offset(x)
+    def seminorm(self, x, lagrange=None, check_feasibility=False):
+        if lagrange is None:
+            lagrange = self.lagrange
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso(x_offset,
+        v = seminorm_mixed_lasso(x,
                                  self._l1_penalty,
                                  self._unpenalized,
                                  self._positive_part,
@@ -175,9 +177,9 @@ class mixed_lasso(atom):
                                  self._groups,
                                  self._weight_array,
                                  self._norms_cython,
-                                 np.int(check_feasibility))
+                                 int(check_feasibility))
 
-        return v * self.lagrange
+        return v * lagrange
 
     def proximal(self, proxq, prox_control=None):
         r"""
@@ -325,9 +327,10 @@ class mixed_lasso_dual(mixed_lasso):
     @doc_template_user
     def constraint(self, x, bound=None):
         if bound is None:
-            raise ValueError('bound must be suppled')
-        x_offset = self.apply_offset(x)
-        return self.seminorm(x_offset) <= bound
+            bound = self.bound
+        if self.seminorm(x, check_feasibility=True) <= bound * (1 + self.tol):
+            return 0
+        return np.inf
 
     def nonsmooth_objective(self, x, check_feasibility=False):
         x_offset = self.apply_offset(x)
@@ -339,21 +342,20 @@ class mixed_lasso_dual(mixed_lasso):
         return v
 
     def seminorm(self, x, lagrange=1, check_feasibility=False):
-        x_offset = self.apply_offset(x)
-
         # flush buffers for computations
 
         self._norms_cython[:] = 0
 
-        v = seminorm_mixed_lasso_dual(x_offset, 
+        v = seminorm_mixed_lasso_dual(x, 
                                       self._l1_penalty,
                                       self._unpenalized,
                                       self._positive_part,
                                       self._nonnegative,
                                       self._groups,
                                       self._weight_array,
-                                      self._norms_cython)
-        return v 
+                                      self._norms_cython,
+                                      check_feasibility=int(check_feasibility))
+        return v * lagrange
 
     def proximal(self, proxq, prox_control=None):
         r"""
-- 
2.43.0


From 36416cedae771277333cb3ab3f70fba49b6a6ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:33 +0000
Subject: [PATCH 018/107] fix: get_dual of the atoms calls the method, not the
 property

---
 regreg/atoms/block_norms.py        | 18 +++++++++---------
 regreg/atoms/cones.py              | 20 ++++++++++----------
 regreg/atoms/group_lasso.py        | 12 ++++++------
 regreg/atoms/linear_constraints.py |  4 ++--
 regreg/atoms/seminorms.py          | 14 +++++++-------
 regreg/atoms/svd_norms.py          | 14 +++++++-------
 6 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index af3d1eb..7f60e61 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -160,7 +160,7 @@ class block_sum(seminorms.seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
 
 @objective_doc_templater()
@@ -227,7 +227,7 @@ class block_max(block_sum):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -344,7 +344,7 @@ class linf_l2(block_max):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
 
 @objective_doc_templater()
@@ -426,11 +426,11 @@ class linf_linf(linf_l2):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -521,11 +521,11 @@ class l1_l2(block_sum):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -625,11 +625,11 @@ class l1_l1(l1_l2):
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_dual(self):
-        return seminorms.seminorm.dual(self)
+        return seminorms.seminorm.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
diff --git a/regreg/atoms/cones.py b/regreg/atoms/cones.py
index a0fdd28..21166e2 100644
--- a/regreg/atoms/cones.py
+++ b/regreg/atoms/cones.py
@@ -341,7 +341,7 @@ class nonnegative(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class nonpositive(nonnegative):
@@ -378,7 +378,7 @@ class nonpositive(nonnegative):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class zero(cone):
@@ -409,7 +409,7 @@ class zero(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class zero_constraint(cone):
@@ -442,7 +442,7 @@ class zero_constraint(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l2_epigraph(cone):
@@ -486,7 +486,7 @@ class l2_epigraph(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l2_epigraph_polar(cone):
@@ -531,7 +531,7 @@ class l2_epigraph_polar(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l1_epigraph(cone):
@@ -566,7 +566,7 @@ class l1_epigraph(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class l1_epigraph_polar(cone):
@@ -603,7 +603,7 @@ class l1_epigraph_polar(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class linf_epigraph(cone):
@@ -639,7 +639,7 @@ class linf_epigraph(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class linf_epigraph_polar(cone):
@@ -676,7 +676,7 @@ class linf_epigraph_polar(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 conjugate_cone_pairs = {}
 for n1, n2 in [(nonnegative,nonpositive),
diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 76cd6a0..c2bfbb0 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -285,7 +285,7 @@ class group_lasso(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_dual(group_lasso):
@@ -428,7 +428,7 @@ class group_lasso_dual(group_lasso):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_cone(cone):
@@ -563,7 +563,7 @@ class group_lasso_epigraph(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_epigraph_polar(group_lasso_cone):
@@ -619,7 +619,7 @@ class group_lasso_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_dual_epigraph(group_lasso_cone):
@@ -676,7 +676,7 @@ class group_lasso_dual_epigraph(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class group_lasso_dual_epigraph_polar(group_lasso_cone):
@@ -734,7 +734,7 @@ class group_lasso_dual_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 conjugate_seminorm_pairs = {}
 conjugate_seminorm_pairs[group_lasso_dual] = group_lasso
diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 17920cd..747729b 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -141,7 +141,7 @@ class projection(linear_constraint):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class projection_complement(linear_constraint):
@@ -179,7 +179,7 @@ class projection_complement(linear_constraint):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 conjugate_cone_pairs = {}
 for n1, n2 in [(projection, projection_complement),
diff --git a/regreg/atoms/seminorms.py b/regreg/atoms/seminorms.py
index efb7efa..b11c429 100644
--- a/regreg/atoms/seminorms.py
+++ b/regreg/atoms/seminorms.py
@@ -685,7 +685,7 @@ class l1norm(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class supnorm(seminorm):
@@ -758,7 +758,7 @@ class supnorm(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class l2norm(seminorm):
@@ -833,7 +833,7 @@ class l2norm(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 def positive_part_lagrange(shape, lagrange,
                            offset=None, quadratic=None, initial=None):
@@ -928,7 +928,7 @@ class positive_part(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class constrained_max(seminorm):
@@ -1005,7 +1005,7 @@ class constrained_max(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class constrained_positive_part(seminorm):
@@ -1087,7 +1087,7 @@ class constrained_positive_part(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class max_positive_part(seminorm):
@@ -1158,7 +1158,7 @@ class max_positive_part(seminorm):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 conjugate_seminorm_pairs = {}
 for n1, n2 in [(l1norm,supnorm),
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 5509c79..9f557cf 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -107,7 +107,7 @@ class nuclear_norm(svd_atom):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class operator_norm(svd_atom):
@@ -181,7 +181,7 @@ class operator_norm(svd_atom):
 
     @doc_template_user
     def get_dual(self):
-        return seminorm.dual(self)
+        return seminorm.get_dual(self)
 
 @objective_doc_templater()
 class svd_cone(cone):
@@ -244,7 +244,7 @@ class svd_cone(cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
 @objective_doc_templater()
 class nuclear_norm_epigraph(svd_cone):
@@ -286,7 +286,7 @@ class nuclear_norm_epigraph(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -333,7 +333,7 @@ class nuclear_norm_epigraph_polar(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -380,7 +380,7 @@ class operator_norm_epigraph(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
@@ -426,7 +426,7 @@ class operator_norm_epigraph_polar(svd_cone):
 
     @doc_template_user
     def get_dual(self):
-        return cone.dual(self)
+        return cone.get_dual(self)
 
     @doc_template_user
     def get_conjugate(self):
-- 
2.43.0


From 7f9962f36cf6323d7885dc11f20342342e970608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:58 +0000
Subject: [PATCH 019/107] fix: linear class methods of simplex, maximum and
 linear constraint atoms

---
 regreg/atoms/linear_constraints.py | 13 ++++++++-----
 regreg/atoms/simplex.py            | 13 +++++++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 747729b..284aec5 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -3,7 +3,8 @@ from scipy import sparse
 from copy import copy
 import warnings
 
-from ..problems.composite import composite, nonsmooth
+from ..problems.composite import composite, nonsmooth, smooth_conjugate
+from ..affine import linear_transform
 from .cones import cone, affine_cone
 from ..identity_quadratic import identity_quadratic
 from ..atoms import _work_out_conjugate
@@ -94,8 +95,10 @@ class linear_constraint(cone):
     def linear(cls, linear_operator, basis, diag=False,
                linear_term=None, offset=None):
         l = linear_transform(linear_operator, diag=diag)
-        cone = cls(l.input_shape, basis,
-                   linear_term=linear_term, offset=offset)
+        # as for other cones, the offset of an atom is subtracted
+        cone = cls(l.output_shape, basis,
+                   offset=None if offset is None else -offset,
+                   quadratic=identity_quadratic(0, 0, linear_term, 0))
         return affine_cone(cone, l)
 
 @objective_doc_templater()
@@ -137,7 +140,7 @@ class projection(linear_constraint):
 
     @doc_template_user
     def get_conjugate(self):
-        return cone.get_conjugate(self)
+        return linear_constraint.get_conjugate(self)
 
     @doc_template_user
     def get_dual(self):
@@ -175,7 +178,7 @@ class projection_complement(linear_constraint):
 
     @doc_template_user
     def get_conjugate(self):
-        return cone.get_conjugate(self)
+        return linear_constraint.get_conjugate(self)
 
     @doc_template_user
     def get_dual(self):
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index ce5811f..40258af 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -6,6 +6,7 @@ from copy import copy
 
 from ..atoms import atom, _work_out_conjugate, affine_atom
 from ..affine import linear_transform
+from ..identity_quadratic import identity_quadratic
 from ..problems.composite import smooth_conjugate
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import doc_template_user
@@ -66,8 +67,10 @@ class simplex_constraint(atom):
     def linear(cls, linear_operator, diag=False,
                linear_term=None, offset=None):
         l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+        # as for other atoms, the offset of an atom is subtracted
+        atom = cls(l.output_shape, 
+                   offset=None if offset is None else -offset,
+                   quadratic=identity_quadratic(0, 0, linear_term, 0))
         return affine_atom(atom, l)
 
     @doc_template_user
@@ -198,8 +201,10 @@ class maximum(atom):
     def linear(cls, linear_operator, diag=False,
                linear_term=None, offset=None):
         l = linear_transform(linear_operator, diag=diag)
-        atom = cls(l.input_shape, 
-                   linear_term=linear_term, offset=offset)
+        # as for other atoms, the offset of an atom is subtracted
+        atom = cls(l.output_shape, 
+                   offset=None if offset is None else -offset,
+                   quadratic=identity_quadratic(0, 0, linear_term, 0))
         return affine_atom(atom, l)
 
     @doc_template_user
-- 
2.43.0


From f1dcaa2e98b77d514bda259ce598f086535bdfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:58 +0000
Subject: [PATCH 020/107] fix: affine_atom evaluates its atom at Dx + offset
 and leaves the given offsets alone

---
 regreg/atoms/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/__init__.py b/regreg/atoms/__init__.py
index 8d02ba4..3783fed 100644
--- a/regreg/atoms/__init__.py
+++ b/regreg/atoms/__init__.py
@@ -115,11 +115,12 @@ class affine_atom(object):
         # if the affine transform has an offset, put it into
         # the atom. in this way, the affine_transform is actually
         # always linear
+        # (atoms subtract their offset, affine transforms add it)
         if atransform.affine_offset is not None:
             if self.atom.offset is not None:
-                self.atom.offset += atransform.affine_offset
+                self.atom.offset = self.atom.offset - atransform.affine_offset
             else:
-                self.atom.offset = atransform.affine_offset
+                self.atom.offset = -atransform.affine_offset
             ltransform = linear_transform(atransform.linear_operator,
                                           diag=atransform.diagD)
         else:
-- 
2.43.0


From 297f948629d01bd7311a198dee60990d3b7bbdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 021/107] fix: constraints of group lasso cones, nuclear norm
 epigraph and projection_complement test membership

---
 regreg/atoms/group_lasso.py        | 8 ++++----
 regreg/atoms/linear_constraints.py | 2 +-
 regreg/atoms/svd_norms.py          | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index c2bfbb0..495e804 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -510,7 +510,7 @@ class group_lasso_cone(cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * arg[-1]
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1, check_feasibility=True) <= (1 + self.tol) * arg[-1]
         if incone:
             return 0
         return np.inf
@@ -604,7 +604,7 @@ class group_lasso_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (-arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1, check_feasibility=True) <= (1 + self.tol) * (-arg[-1])
         if incone:
             return 0
         return np.inf
@@ -661,7 +661,7 @@ class group_lasso_dual_epigraph(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1, check_feasibility=True) <= (1 + self.tol) * (arg[-1])
         if incone:
             return 0
         return np.inf
@@ -719,7 +719,7 @@ class group_lasso_dual_epigraph_polar(group_lasso_cone):
 
     @doc_template_user
     def constraint(self, arg):
-        incone = self.snorm.seminorm(arg[:-1], lagrange=1) <= (1 + self.tol) * (-arg[-1])
+        incone = self.snorm.seminorm(arg[:-1], lagrange=1, check_feasibility=True) <= (1 + self.tol) * (-arg[-1])
         if incone:
             return 0
         return np.inf
diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 284aec5..4927fef 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -162,7 +162,7 @@ class projection_complement(linear_constraint):
     @doc_template_user
     def constraint(self, x):
         projx = self.cone_prox(x)
-        incone = np.linalg.norm(projx) / max([np.linalg.norm(x),1]) < self.tol
+        incone = np.linalg.norm(x-projx) / max([np.linalg.norm(x),1]) < self.tol
         if incone:
             return 0
         return np.inf
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 9f557cf..89d2cff 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -260,7 +260,7 @@ class nuclear_norm_epigraph(svd_cone):
         X = normX[:-1].reshape(self.matrix_shape)
         U, D, V = np.linalg.svd(X, full_matrices=False)
 
-        incone = np.fabs(D[1:]).sum() <= (1 + self.tol) * norm
+        incone = np.fabs(D).sum() <= (1 + self.tol) * norm
         if incone:
             return 0
         return np.inf
-- 
2.43.0


From c86ceaf9485d0e8fa0c68b25a9b92ad4b3964dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 022/107] fix: mixed lasso seminorm at an infeasible point is
 infinite when lagrange is 0

---
 regreg/atoms/mixed_lasso.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index 1588974..a06d458 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -179,6 +179,8 @@ class mixed_lasso(atom):
                                  self._norms_cython,
                                  int(check_feasibility))
 
+        if np.isinf(v): # an infeasible point is infeasible even when lagrange is 0
+            return v
         return v * lagrange
 
     def proximal(self, proxq, prox_control=None):
@@ -355,6 +357,8 @@ class mixed_lasso_dual(mixed_lasso):
                                       self._weight_array,
                                       self._norms_cython,
                                       check_feasibility=int(check_feasibility))
+        if np.isinf(v): # an infeasible point is infeasible even when lagrange is 0
+            return v
         return v * lagrange
 
     def proximal(self, proxq, prox_control=None):
-- 
2.43.0


From 1c2bd4beabde0d163fc6c3a41d78b385d65af27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 023/107] fix: selector returns fresh arrays, leaves its
 argument alone, adds up repeated indices, declares the shape it produces

---
 regreg/affine/__init__.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 4289826..ddcb90b 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -306,35 +306,36 @@ class selector(linear_transform):
         self.initial_shape = initial_shape
         self.reshape = reshape
         if affine_transform == None:
-            test = np.empty(initial_shape)
-            affine_transform = identity(test[index_obj].shape)
+            if reshape is None:
+                test = np.empty(initial_shape)
+                affine_transform = identity(test[index_obj].shape)
+            else:
+                affine_transform = identity(reshape)
         self.affine_transform = affine_transform
         self.affine_offset = self.affine_transform.affine_offset
         self.input_shape = initial_shape
-        if self.reshape is None:
-            self.output_shape = self.affine_transform.output_shape
-        else:
-            self.output_shape = self.reshape
+        self.output_shape = self.affine_transform.output_shape
             
-    def linear_map(self, x):
+    def _select(self, x):
         x_indexed = x[self.index_obj]
         if self.reshape is not None:
-            x_indexed.shape = self.reshape
-        return self.affine_transform.linear_map(x_indexed)
+            x_indexed = x_indexed.reshape(self.reshape)
+        return x_indexed
+
+    def linear_map(self, x):
+        return self.affine_transform.linear_map(self._select(x))
 
     def affine_map(self, x):
-        x_indexed = x[self.index_obj]
-        if self.reshape is not None:
-            x_indexed.shape = self.reshape
-        return self.affine_transform.affine_map(x_indexed)
+        return self.affine_transform.affine_map(self._select(x))
 
     def adjoint_map(self, u):
-        if not hasattr(self, "_output"):
-            self._output = np.zeros(self.initial_shape)
+        output = np.zeros(self.initial_shape)
+        value = self.affine_transform.adjoint_map(u)
         if self.reshape is not None:
-            u.shape = self.affine_transform.output_shape
-        self._output[self.index_obj] = self.affine_transform.adjoint_map(u)
-        return self._output
+            value = value.reshape(output[self.index_obj].shape)
+        # an index may be repeated
+        np.add.at(output, self.index_obj, value)
+        return output
 
 class scaler(linear_transform):
 
-- 
2.43.0


From 1b6469f6304068bd257a0c211c2450cd6c694eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:49 +0000
Subject: [PATCH 024/107] fix: every transform has an affine_offset

---
 regreg/affine/__init__.py   | 3 +++
 regreg/affine/block_maps.py | 2 ++
 regreg/affine/multiscale.py | 1 +
 3 files changed, 6 insertions(+)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index ddcb90b..b4ddf60 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -341,6 +341,7 @@ class scaler(linear_transform):
 
     def __init__(self, scalings):
         self.scalings = np.asarray(scalings)
+        self.affine_offset = None
         self.input_shape = self.output_shape = self.scalings.shape
 
     def linear_map(self, x):
@@ -362,6 +363,7 @@ class reshape(linear_transform):
     def __init__(self, input_shape, output_shape):
         self.input_shape = input_shape
         self.output_shape = output_shape
+        self.affine_offset = None
 
     def linear_map(self, x):
         return x.reshape(self.output_shape)
@@ -465,6 +467,7 @@ class add_intercept(affine_transform):
         self._transform = astransform(transform)
         self.input_shape = (self._transform.input_shape[0] + 1,) # assumes a vector input, 
         self.output_shape = self._transform.output_shape
+        self.affine_offset = self._transform.affine_offset
         self.linear_operator = None
         
     def affine_map(self, x): # first coordinate is intercept
diff --git a/regreg/affine/block_maps.py b/regreg/affine/block_maps.py
index 995d56c..3f2bf18 100644
--- a/regreg/affine/block_maps.py
+++ b/regreg/affine/block_maps.py
@@ -54,6 +54,7 @@ class block_columns(affine_transform):
             raise ValueError('output of transforms should be stackable')
 
         self.output_shape = _buffer.shape
+        self.affine_offset = _buffer if np.any(_buffer) else None
         self._slices = []
         idx = 0
         for offset in self._offsets:
@@ -146,6 +147,7 @@ class block_rows(affine_transform):
             raise ValueError('output of transforms should be the same and hstackable')
 
         self.output_shape = self._offset.shape
+        self.affine_offset = self._offset if np.any(self._offset) else None
 
     def affine_map(self, arg):
         
diff --git a/regreg/affine/multiscale.py b/regreg/affine/multiscale.py
index dfdd7e5..e22b897 100644
--- a/regreg/affine/multiscale.py
+++ b/regreg/affine/multiscale.py
@@ -54,6 +54,7 @@ class multiscale(affine_transform):
         else:
             self._all = False
         self.sizes = self.slices['end'] - self.slices['start'] * 1.
+        self.affine_offset = None
         self.input_shape = (p,)
         self.output_shape = (len(self.slices),)
 
-- 
2.43.0


From 49d5738bc9609f86a636454409eda88edb1601e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:01 +0000
Subject: [PATCH 025/107] fix: transforms report the offset they apply
 (composition, residual, scalar_multiply, wrapped transforms)

---
 regreg/affine/__init__.py | 19 +++++++++++++------
 regreg/atoms/__init__.py  |  7 +++++--
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index b4ddf60..7d09547 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -100,6 +100,12 @@ class affine_transform(object):
                 self.output_shape = self.linear_operator.output_shape
                 self.affineD = True
                 self.diagD = False
+                inner_offset = self.linear_operator.affine_offset
+                if inner_offset is not None:
+                    if self.affine_offset is None:
+                        self.affine_offset = inner_offset
+                    else:
+                        self.affine_offset = self.affine_offset + inner_offset
             elif linear_operator.ndim == 1 and not diag:
                 self.linear_operator = self.linear_operator.reshape((1,-1))
                 self.diagD = False
@@ -214,10 +220,7 @@ class affine_transform(object):
         This routine is subclassed in affine_atom as a matrix multiplications,
         but could also call FFTs if D is a DFT matrix, in a subclass.
         """
-        if self.affineD:
-            v = self.linear_operator.affine_map(x)
-        else:
-            v = self.linear_map(x)
+        v = self.linear_map(x)
         if self.affine_offset is not None:
             # Deal with 1D and 2D input, affine_offset cases
             return broadcast_first(self.affine_offset, v, add)
@@ -829,6 +832,8 @@ class residual(affine_transform):
         self.input_shape = self.transform.input_shape
         self.output_shape = self.transform.output_shape
         self.affine_offset = None
+        if self.transform.affine_offset is not None:
+            self.affine_offset = -self.transform.affine_offset
         if not self.input_shape == self.output_shape:
             raise ValueError('output and input shapes should be the same to compute residual')
 
@@ -854,7 +859,7 @@ class composition(affine_transform):
 
         # compute the affine_offset
         affine_offset = self.affine_map(np.zeros(self.input_shape))
-        if not np.allclose(affine_offset, 0): 
+        if not np.any(affine_offset):
             self.affine_offset = None
         else:
             self.affine_offset = affine_offset
@@ -896,7 +901,7 @@ class affine_sum(affine_transform):
 
         # compute the affine_offset
         affine_offset = self.affine_map(np.zeros(self.input_shape))
-        if np.allclose(affine_offset, 0): 
+        if not np.any(affine_offset):
             self.affine_offset = None
         else:
             self.affine_offset = affine_offset
@@ -926,6 +931,8 @@ class scalar_multiply(affine_transform):
         self.input_shape, self.output_shape = (atransform.input_shape, atransform.output_shape)
         self.scalar = scalar
         self.affine_offset = None
+        if atransform.affine_offset is not None:
+            self.affine_offset = atransform.affine_offset * scalar
         self._atransform = atransform
 
     def affine_map(self, x):
diff --git a/regreg/atoms/__init__.py b/regreg/atoms/__init__.py
index 3783fed..61702c8 100644
--- a/regreg/atoms/__init__.py
+++ b/regreg/atoms/__init__.py
@@ -121,8 +121,11 @@ class affine_atom(object):
                 self.atom.offset = self.atom.offset - atransform.affine_offset
             else:
                 self.atom.offset = -atransform.affine_offset
-            ltransform = linear_transform(atransform.linear_operator,
-                                          diag=atransform.diagD)
+            if isinstance(getattr(atransform, 'linear_operator', None), np.ndarray):
+                ltransform = linear_transform(atransform.linear_operator,
+                                              diag=atransform.diagD)
+            else:
+                ltransform = aslinear(atransform)
         else:
             ltransform = atransform
         self.linear_transform = ltransform
-- 
2.43.0


From 4e4ffb441acbd6e5404298b617b9305f5f262f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:01 +0000
Subject: [PATCH 026/107] fix: aslinear and diagonal transforms declare the
 shapes they map between

---
 regreg/affine/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 7d09547..9570a31 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -116,7 +116,9 @@ class affine_transform(object):
                 self.diagD = True
                 self.affineD = False
                 self.input_shape = (linear_operator.shape[0],)
-                self.output_shape = (linear_operator.shape[0],)
+                if (input_shape is not None) and (len(input_shape) == 2):
+                    self.input_shape = tuple(input_shape)
+                self.output_shape = self.input_shape
             elif (input_shape is not None) and (len(input_shape) == 2):
                 #Input coefficients is a matrix
                 self.input_shape = input_shape
@@ -760,8 +762,8 @@ class aslinear(linear_transform):
     def __init__(self, transform):
         self._transform = astransform(transform)
         self.affine_offset = None
-        self.input_shape = self._transform.output_shape
-        self.output_shape = self._transform.input_shape
+        self.input_shape = self._transform.input_shape
+        self.output_shape = self._transform.output_shape
 
     def linear_map(self, x):
         return self._transform.linear_map(x)
-- 
2.43.0


From 1a03e575a2009ef2a1fc909b96e358d218f22f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:01 +0000
Subject: [PATCH 027/107] fix: posneg adjoint returns a fresh array

---
 regreg/affine/__init__.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 9570a31..02435f9 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -960,10 +960,8 @@ class posneg(affine_transform):
 
     def __init__(self, linear_transform):
         self.linear_transform = astransform(linear_transform)
-        # where to store output so we don't recreate arrays 
         self.affine_offset = None
         self.input_shape = (2,) + self.linear_transform.input_shape
-        self._adjoint_output = np.zeros(self.input_shape)
         self.output_shape = self.linear_transform.output_shape
 
     def linear_map(self, x):
@@ -974,7 +972,7 @@ class posneg(affine_transform):
         return self.linear_map(x)
 
     def adjoint_map(self, x):
-        u = self._adjoint_output
+        u = np.empty(self.input_shape)
         u[0] = self.linear_transform.adjoint_map(x)
         u[1] = -u[0]
         return u
-- 
2.43.0


From e1564073fcff230c3a51e21d87d606d5b6f18b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:01 +0000
Subject: [PATCH 028/107] fix: vstack and product accept transforms with matrix
 valued output

---
 regreg/affine/__init__.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index 02435f9..f3ae94b 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -554,20 +554,20 @@ class vstack(affine_transform):
         self.affine_offset = np.empty(self.output_shape)
         x = np.zeros(self.input_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            self.affine_offset[g] = t.affine_map(x)
+            self.affine_offset[g] = t.affine_map(x).reshape(-1)
         if np.all(np.equal(self.affine_offset, 0)):
             self.affine_offset = None
             
     def linear_map(self, x):
         result = np.empty(self.output_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            result[g] = t.linear_map(x)
+            result[g] = t.linear_map(x).reshape(-1)
         return result
 
     def affine_map(self, x):
         result = np.empty(self.output_shape)
         for g, t in zip(self.output_slices, self.transforms):
-            result[g] = t.linear_map(x)
+            result[g] = t.linear_map(x).reshape(-1)
         if self.affine_offset is not None:
             return result + self.affine_offset
         else:
@@ -680,14 +680,14 @@ class product(affine_transform):
         self.input_groups = self.input_group_dtype.names 
 
         self.output_group_dtype = np.dtype([('group_%d' % i, float, shape) 
-                                           for i, shape in enumerate(self.input_shapes)])
+                                           for i, shape in enumerate(self.output_shapes)])
         self.output_groups = self.output_group_dtype.names 
 
         # figure out the affine offset
         self.affine_offset = np.zeros(self.output_shape)
         for g, s, t in zip(self.output_slices, self.input_shapes,
                            self.transforms):
-            self.affine_offset[g] = t.affine_map(np.zeros(s))
+            self.affine_offset[g] = t.affine_map(np.zeros(s)).reshape(-1)
         if np.all(np.equal(self.affine_offset, 0)):
             self.affine_offset = None
 
@@ -697,7 +697,7 @@ class product(affine_transform):
                                 self.input_slices, 
                                 self.transforms,
                                 self.input_shapes):
-            result[og] = t.linear_map(x[ig].reshape(s))
+            result[og] = t.linear_map(x[ig].reshape(s)).reshape(-1)
         return result
 
     def affine_map(self, x):
@@ -706,7 +706,7 @@ class product(affine_transform):
                                 self.input_slices, 
                                 self.transforms,
                                 self.input_shapes):
-            result[og] = t.linear_map(x[ig].reshape(s))
+            result[og] = t.linear_map(x[ig].reshape(s)).reshape(-1)
         if self.affine_offset is not None:
             return result + self.affine_offset
         else:
@@ -717,8 +717,8 @@ class product(affine_transform):
         for og, ig, t, s in zip(self.output_slices,
                                 self.input_slices, 
                                 self.transforms,
-                                self.input_shapes):
-            result[ig] = t.adjoint_map(u[og]).reshape(-1)
+                                self.output_shapes):
+            result[ig] = t.adjoint_map(u[og].reshape(s)).reshape(-1)
         return result
 
 
-- 
2.43.0


From 4172d5b08375ad1352134436a10946cbb9b235b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:32 +0000
Subject: [PATCH 029/107] fix: affine_atom takes any transform with an offset

---
 regreg/atoms/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/atoms/__init__.py b/regreg/atoms/__init__.py
index 61702c8..0d6c595 100644
--- a/regreg/atoms/__init__.py
+++ b/regreg/atoms/__init__.py
@@ -6,7 +6,7 @@ import numpy as np
 from ..identity_quadratic import identity_quadratic
 from ..problems.composite import nonsmooth
 from ..affine import (linear_transform, identity as identity_transform, 
-                    affine_transform)
+                      affine_transform, aslinear)
 from ..smooth import affine_smooth
 from ..objdoctemplates import objective_doc_templater
 from ..doctemplates import (doc_template_user, doc_template_provider)
@@ -121,7 +121,8 @@ class affine_atom(object):
                 self.atom.offset = self.atom.offset - atransform.affine_offset
             else:
                 self.atom.offset = -atransform.affine_offset
-            if isinstance(getattr(atransform, 'linear_operator', None), np.ndarray):
+            if (getattr(atransform, 'linear_operator', None) is not None and 
+                not atransform.affineD):
                 ltransform = linear_transform(atransform.linear_operator,
                                               diag=atransform.diagD)
             else:
-- 
2.43.0


From ae4df1efd70f39b0ba607756440ecee0d635f429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:32 +0000
Subject: [PATCH 030/107] fix: normalize scales a sparse matrix without
 centering it

---
 regreg/affine/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/__init__.py b/regreg/affine/__init__.py
index f3ae94b..6ac9a40 100644
--- a/regreg/affine/__init__.py
+++ b/regreg/affine/__init__.py
@@ -434,9 +434,7 @@ def normalize(transform,
         if not sparseM:
             col_means = M.mean(0)
         else:
-            tmp = M.copy()
-            col_means = np.asarray(tmp.mean(0)).reshape(-1)
-            tmp.data **= 2
+            col_means = np.asarray(M.mean(0)).reshape(-1)
     else:
         col_means = np.zeros(M.shape[1])
         ddof = ddof - 1
@@ -445,6 +443,8 @@ def normalize(transform,
         if not sparseM:
             col_scales = np.sqrt((np.sum(M**2,0) - n * col_means**2) / (n - ddof)) 
         else:
+            tmp = M.copy()
+            tmp.data **= 2
             col_scales = np.asarray(np.sqrt((np.asarray(tmp.sum(0)).reshape(-1) -
                                              n * col_means**2) / (n - ddof))).reshape(-1)
         nonzero_scales = col_scales > 0
-- 
2.43.0


From 97eae16027b20094d26537a9f751cdcbaa541dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:32 +0000
Subject: [PATCH 031/107] fix: trend filtering transforms use their sorted
 knots, matrix adjoint sums down columns

---
 regreg/affine/fused_lasso.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/affine/fused_lasso.py b/regreg/affine/fused_lasso.py
index 9804fec..ec47c8a 100644
--- a/regreg/affine/fused_lasso.py
+++ b/regreg/affine/fused_lasso.py
@@ -56,7 +56,7 @@ class trend_filter(affine_transform):
         self.knots = np.sort(knots)
         self.steps = self.knots[1:] - self.knots[:-1]
 
-        self.linear_transform = difference_transform(knots, order=order, sorted=True,
+        self.linear_transform = difference_transform(self.knots, order=order, sorted=True,
                                                      transform=True)
         self.affine_offset = None
         self.input_shape = self.linear_transform.input_shape
@@ -85,7 +85,7 @@ class trend_filter_inverse(affine_transform):
         if order != 1:
             raise ValueError('pseudo inverse only worked out for first order')
             
-        dtransform = difference_transform(knots, order=order, sorted=True,
+        dtransform = difference_transform(self.knots, order=order, sorted=True,
                                           transform=True)
 
         self.affine_offset = None
@@ -120,7 +120,7 @@ class trend_filter_inverse(affine_transform):
         if x.ndim == 2:
             # assuming m is the first axis
             x = x - x.mean(0)[np.newaxis,:]
-            C = np.cumsum(x[1:][::-1], 1)[::-1]
+            C = np.cumsum(x[1:][::-1], 0)[::-1]
             return C * self.steps[:,np.newaxis]
 
 
-- 
2.43.0


From 529300fd780d832e6d18a13f21d0eac3185316c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 032/107] fix: copy of a factored matrix keeps its
 affine_offset

---
 regreg/affine/factored_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index d163e22..0f59df6 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -52,7 +52,8 @@ class factored_matrix(object):
             self.X = astransform(linear_operator)
 
     def copy(self):
-        return factored_matrix([self.factors[0].copy(), self.factors[1].copy(), self.factors[2].copy()])
+        return factored_matrix([self.factors[0].copy(), self.factors[1].copy(), self.factors[2].copy()],
+                               affine_offset=self.affine_offset)
 
     def _setX(self,transform):
         transform = astransform(transform)
-- 
2.43.0


From 4e43c7532851423e4392f3e01a29c1be38003276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 033/107] fix: factored nuclear norm proximal map uses its
 lipschitz constant, warm starts may be wider than the matrix

---
 regreg/affine/factored_matrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/factored_matrix.py b/regreg/affine/factored_matrix.py
index 0f59df6..7fe3a39 100644
--- a/regreg/affine/factored_matrix.py
+++ b/regreg/affine/factored_matrix.py
@@ -328,6 +328,7 @@ def partial_svd(transform,
         elif len(warm_start.shape) == 1:
             U = np.hstack([warm_start.reshape((warm_start.shape[0],1)), np.random.standard_normal((n,q-1))])            
         else:
+            warm_start = warm_start[:,:q]
             U = np.hstack([warm_start, np.random.standard_normal((n,q-warm_start.shape[1]))])            
     else:
         U = np.random.standard_normal((n,q))
@@ -417,7 +418,7 @@ class nuclear_norm(nuclear_norm_atom):
         def soft_threshold_rule(L):
             return lambda D: np.fabs(D).min() <= L
 
-        svt_rule = soft_threshold_rule(lagrange)
+        svt_rule = soft_threshold_rule(lagrange / lipschitz)
         if self.warm_start is not None:
             padding = 0
         else:
@@ -436,7 +437,7 @@ class nuclear_norm(nuclear_norm_atom):
 
         self.initial_rank = U.shape[1]
 
-        D_proj = D - lagrange
+        D_proj = D - lagrange / lipschitz
         keep = D_proj > 0
 
         return factored_matrix((U[:,keep], D_proj[keep], VT[keep,:]))
-- 
2.43.0


From 028dea89431326e7b1d47e823bc2d3429c20de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:46 +0000
Subject: [PATCH 034/107] fix: SMUCE_stat uses the given sigma and restores the
 scaling of its transform

---
 regreg/affine/multiscale.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/affine/multiscale.py b/regreg/affine/multiscale.py
index e22b897..88dd328 100644
--- a/regreg/affine/multiscale.py
+++ b/regreg/affine/multiscale.py
@@ -214,10 +214,10 @@ def SMUCE_stat(M, Z, sigma=None):
     p = Z.shape[0]
     M.scaling, old = np.sqrt(M.sizes), M.scaling
     Z0 = Z - Z.mean()
-    if sigma is None:
-        sigma_hat = np.std(Z)
+    sigma_hat = np.std(Z) if sigma is None else sigma
     T = np.fabs(M.linear_map(Z0) / sigma_hat) - np.sqrt(2 * np.log(p / M.sizes))
     idx = np.argmax(T)
+    M.scaling = old
     return T[idx], M.slices[idx]
 
 def choose_tuning_parameter(M, ndraw=100, quantile=0.95, sigma=None):
-- 
2.43.0


From 0caedf5cde7c1639a20e412dc2dba75d9d94383c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:13 +0000
Subject: [PATCH 035/107] fix: losses leave the case_weights argument (and the
 weights a glm holds) alone when they multiply by their own

---
 regreg/smooth/binary.py | 14 +++++++-------
 regreg/smooth/cox.py    |  4 ++--
 regreg/smooth/glm.py    | 12 ++++++------
 regreg/smooth/mglm.py   |  2 +-
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 8d0a9b3..e3a826d 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -92,7 +92,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -169,7 +169,7 @@ class logistic_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         if np.max(x) > 1e2:
             overflow = True
@@ -350,7 +350,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -417,7 +417,7 @@ class probit_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -590,7 +590,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -660,7 +660,7 @@ class cloglog_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         pi = self.mean_function(x)
         V = pi * (1 - pi)
@@ -826,7 +826,7 @@ class huber_svm(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         huber_arg = (2 * self.successes - 1) * param # first encode binary as \pm 1
diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f977389..f9d11f7 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -97,7 +97,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         censoring = self.censoring
 
@@ -170,7 +170,7 @@ class cox_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         eta = natural_param # shorthand
         eta = self.apply_offset(eta)
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index e2acad2..55d7d02 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -913,7 +913,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         natural_param = self.apply_offset(natural_param)
         resid = natural_param - self.response 
@@ -957,7 +957,7 @@ class gaussian_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
         return self.scale(np.ones_like(natural_param) * cw)
 
     def get_data(self):
@@ -1104,7 +1104,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
@@ -1151,7 +1151,7 @@ class poisson_loglike(smooth_atom):
             case_weights = np.ones_like(natural_param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         return self.scale(cw * np.exp(x))
             
@@ -1289,7 +1289,7 @@ class huber_loss(smooth_atom):
             case_weights = np.ones_like(param)
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         param = self.apply_offset(param)
         resid = param - self.response 
@@ -1481,7 +1481,7 @@ class stacked_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         linpred = natural_param # shorthand
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index a2e738a..1a78de6 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -345,7 +345,7 @@ class stacked_common_loglike(smooth_atom):
             case_weights = np.ones(natural_param.shape[:1])
         cw = case_weights
         if self.case_weights is not None:
-            cw *= self.case_weights
+            cw = cw * self.case_weights
 
         x = natural_param # shorthand
 
-- 
2.43.0


From e7f3a801d3967865235c6bb2abaf9d0aa1fcf01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:55 +0000
Subject: [PATCH 036/107] fix: copies of the Huber losses keep their case
 weights

---
 regreg/smooth/binary.py | 3 ++-
 regreg/smooth/glm.py    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index e3a826d..4697af4 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -918,7 +918,8 @@ class huber_svm(smooth_atom):
                          coef=self.coef,
                          offset=copy(self.offset),
                          quadratic=copy(self.quadratic),
-                         initial=copy(self.coefs))
+                         initial=copy(self.coefs),
+                         case_weights=copy(self.case_weights))
     
     # End loss API
 
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 55d7d02..ab1f415 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1380,7 +1380,8 @@ class huber_loss(smooth_atom):
                           coef=self.coef,
                           offset=copy(self.offset),
                           quadratic=copy(self.quadratic),
-                          initial=copy(self.coefs))
+                          initial=copy(self.coefs),
+                          case_weights=copy(self.case_weights))
 
     # End loss API
 
-- 
2.43.0


From d27d4650ba94cac6c090ee7df56b3d12daaa6721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:55 +0000
Subject: [PATCH 037/107] fix: multinomial losses use their own case weights
 and have consistent values and gradients for large parameters

---
 regreg/smooth/mglm.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 1a78de6..c088429 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -744,8 +744,6 @@ class stacked_common_loglike(smooth_atom):
 
 class multinomial_loglike(smooth_atom):
 
-    overflow_clip = 50
-
     """
     An overparametrized multinomial regression for nominal responses (e.g. Agresti, pg 267)
     """
@@ -821,27 +819,29 @@ class multinomial_loglike(smooth_atom):
         if mode == 'func', return only the function value
         """
         eta = self.apply_offset(natural_param)  # shorthand
-        eta = np.clip(eta, 
-                      -self.overflow_clip, 
-                      self.overflow_clip) # to prevent overflow
-        exp_eta = np.exp(eta)
+        eta_max = np.max(eta, axis=1)
+        exp_eta = np.exp(eta - eta_max[:,None]) # to prevent overflow
+        sum_exp = np.sum(exp_eta, axis=1)
+        log_sum = eta_max + np.log(sum_exp)
 
         if case_weights is None:
             cw = np.ones(natural_param.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         if mode == 'both':
-            ratio = ((self.trials/np.sum(exp_eta, axis=1)) * exp_eta.T).T
-            f, g = (- self.scale(np.sum(cw[:,None] * self.counts * eta) -  np.dot(cw * self.trials, np.log(np.sum(exp_eta, axis=1)))),
+            ratio = ((self.trials/sum_exp) * exp_eta.T).T
+            f, g = (- self.scale(np.sum(cw[:,None] * self.counts * eta) -  np.dot(cw * self.trials, log_sum)),
                       - self.scale(cw[:,None] * (self.counts - ratio)))
             return f, g
         elif mode == 'grad':
-            ratio = ((self.trials/np.sum(exp_eta, axis=1)) * exp_eta.T).T
+            ratio = ((self.trials/sum_exp) * exp_eta.T).T
             f, g = None, - self.scale(cw[:,None] * (self.counts - ratio))
             return g
         elif mode == 'func':
-            f, g = - self.scale(np.sum(cw[:,None] * self.counts * eta) -  np.dot(cw * self.trials, np.log(np.sum(exp_eta, axis=1)))), None
+            f, g = - self.scale(np.sum(cw[:,None] * self.counts * eta) -  np.dot(cw * self.trials, log_sum)), None
             return f
         else:
             raise ValueError("mode incorrectly specified")
@@ -881,8 +881,6 @@ class multinomial_loglike(smooth_atom):
 
 class multinomial_baseline_loglike(smooth_atom):
 
-    overflow_clip = 50
-
     """
     A class for baseline-category logistic regression for nominal responses (e.g. Agresti, pg 267)
     """
@@ -965,30 +963,32 @@ class multinomial_baseline_loglike(smooth_atom):
         if mode == 'func', return only the function value
         """
         eta = self.apply_offset(natural_parameter) # shorthand
-        eta = np.clip(eta, 
-                      -self.overflow_clip, 
-                      self.overflow_clip) # to prevent overflow
-        exp_eta = np.exp(eta)
+        eta_max = np.maximum(np.max(eta, axis=1), 0)
+        exp_eta = np.exp(eta - eta_max[:,None]) # to prevent overflow
+        sum_exp = np.exp(-eta_max) + np.sum(exp_eta, axis=1)
+        log_sum = eta_max + np.log(sum_exp)
 
         if case_weights is None:
             cw = np.ones(eta.shape[0])
         else:
             cw = case_weights
+        if self.case_weights is not None:
+            cw = cw * self.case_weights
 
         #TODO: Using transposes to scale the rows of a 2d array - should we use an affine_transform to do this?
         #JT: should be able to do this with np.newaxis
 
         if mode == 'both':
-            ratio = ((self.trials/(1. + np.sum(exp_eta, axis=1))) * exp_eta.T).T
-            f, g = (- self.scale(np.sum(cw[:,None] * self.firstcounts * eta) -  np.dot(cw * self.trials, np.log(1. + np.sum(exp_eta, axis=1)))), 
+            ratio = ((self.trials/sum_exp) * exp_eta.T).T
+            f, g = (- self.scale(np.sum(cw[:,None] * self.firstcounts * eta) -  np.dot(cw * self.trials, log_sum)), 
                       - self.scale(cw[:,None] * (self.firstcounts - ratio)))
             return f, g
         elif mode == 'grad':
-            ratio = ((self.trials/(1. + np.sum(exp_eta, axis=1))) * exp_eta.T).T
+            ratio = ((self.trials/sum_exp) * exp_eta.T).T
             f, g = None, - self.scale(cw[:,None] * (self.firstcounts - ratio))
             return g
         elif mode == 'func':
-            f, g = - self.scale(np.sum(cw[:,None] * self.firstcounts * eta) -  np.dot(cw * self.trials, np.log(1. + np.sum(exp_eta, axis=1)))), None
+            f, g = - self.scale(np.sum(cw[:,None] * self.firstcounts * eta) -  np.dot(cw * self.trials, log_sum)), None
             return f
         else:
             raise ValueError("mode incorrectly specified")
-- 
2.43.0


From fe1994c7adcd57d4bbaf767f14e26c0c68c30fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:55 +0000
Subject: [PATCH 038/107] fix: multinomial losses are copied with their case
 weights, subsampling leaves the original alone

---
 regreg/smooth/mglm.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index c088429..95513e4 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -846,6 +846,17 @@ class multinomial_loglike(smooth_atom):
         else:
             raise ValueError("mode incorrectly specified")
 
+    def __copy__(self):
+        result = multinomial_loglike(self.shape,
+                                     copy(self.counts),
+                                     coef=self.coef,
+                                     offset=copy(self.offset),
+                                     quadratic=copy(self.quadratic),
+                                     initial=copy(self.coefs),
+                                     case_weights=copy(self.case_weights))
+        result.quadratic = copy(self.quadratic) # the saturated loss is already in it
+        return result
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
@@ -993,6 +1004,17 @@ class multinomial_baseline_loglike(smooth_atom):
         else:
             raise ValueError("mode incorrectly specified")
 
+    def __copy__(self):
+        result = multinomial_baseline_loglike(self.shape,
+                                              copy(self.counts),
+                                              coef=self.coef,
+                                              offset=copy(self.offset),
+                                              quadratic=copy(self.quadratic),
+                                              initial=copy(self.coefs),
+                                              case_weights=copy(self.case_weights))
+        result.quadratic = copy(self.quadratic) # the saturated loss is already in it
+        return result
+
     def subsample(self, case_idx):
         """
         Create a saturated loss using a subsample of the data.
-- 
2.43.0


From 5274d1b33a6b63e00155e0b98c9edccd09f21f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:55 +0000
Subject: [PATCH 039/107] fix: copies of losses do not add the saturated loss
 once more; sparse counts in the Poisson loss

---
 regreg/smooth/binary.py | 54 +++++++++++++++++++++++------------------
 regreg/smooth/glm.py    | 22 +++++++++--------
 2 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 4697af4..617504a 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -217,14 +217,16 @@ class logistic_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return logistic_loglike(self.shape,
-                                copy(successes),
-                                trials=copy(trials),
-                                coef=self.coef,
-                                offset=copy(self.offset),
-                                quadratic=copy(self.quadratic),
-                                initial=copy(self.coefs),
-                                case_weights=copy(self.case_weights))
+        result = logistic_loglike(self.shape,
+                                  copy(successes),
+                                  trials=copy(trials),
+                                  coef=self.coef,
+                                  offset=copy(self.offset),
+                                  quadratic=copy(self.quadratic),
+                                  initial=copy(self.coefs),
+                                  case_weights=copy(self.case_weights))
+        result.quadratic = copy(self.quadratic) # the saturated loss is already in it
+        return result
 
     def subsample(self, case_idx):
         """
@@ -458,14 +460,16 @@ class probit_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return probit_loglike(self.shape,
-                              copy(successes),
-                              trials=copy(trials),
-                              coef=self.coef,
-                              offset=copy(self.offset),
-                              quadratic=copy(self.quadratic),
-                              initial=copy(self.coefs),
-                              case_weights=copy(self.case_weights))
+        result = probit_loglike(self.shape,
+                                copy(successes),
+                                trials=copy(trials),
+                                coef=self.coef,
+                                offset=copy(self.offset),
+                                quadratic=copy(self.quadratic),
+                                initial=copy(self.coefs),
+                                case_weights=copy(self.case_weights))
+        result.quadratic = copy(self.quadratic) # the saturated loss is already in it
+        return result
 
     def subsample(self, case_idx):
         """
@@ -703,14 +707,16 @@ class cloglog_loglike(smooth_atom):
 
     def __copy__(self):
         successes, trials = self.data, self.trials
-        return cloglog_loglike(self.shape,
-                               copy(successes),
-                               trials=copy(trials),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        result = cloglog_loglike(self.shape,
+                                 copy(successes),
+                                 trials=copy(trials),
+                                 coef=self.coef,
+                                 offset=copy(self.offset),
+                                 quadratic=copy(self.quadratic),
+                                 initial=copy(self.coefs),
+                                 case_weights=copy(self.case_weights))
+        result.quadratic = copy(self.quadratic) # the saturated loss is already in it
+        return result
 
     def subsample(self, case_idx):
         """
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index ab1f415..b84c31c 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1050,9 +1050,9 @@ class poisson_loglike(smooth_atom):
         if np.min(self.counts) < 0:
             raise ValueError("Counts vector is not non-negative")
 
-        saturated = counts
-        loss_terms = - coef * ((counts - 1) * np.log(counts))
-        loss_terms[counts == 0] = 0
+        saturated = self.counts
+        loss_terms = - coef * ((saturated - 1) * np.log(saturated))
+        loss_terms[saturated == 0] = 0
 
         loss_constant = - coef * loss_terms.sum()
 
@@ -1165,13 +1165,15 @@ class poisson_loglike(smooth_atom):
 
     def __copy__(self):
         counts = self.data
-        return poisson_loglike(self.shape,
-                               copy(counts),
-                               coef=self.coef,
-                               offset=copy(self.offset),
-                               quadratic=copy(self.quadratic),
-                               initial=copy(self.coefs),
-                               case_weights=copy(self.case_weights))
+        result = poisson_loglike(self.shape,
+                                 copy(counts),
+                                 coef=self.coef,
+                                 offset=copy(self.offset),
+                                 quadratic=copy(self.quadratic),
+                                 initial=copy(self.coefs),
+                                 case_weights=copy(self.case_weights))
+        result.quadratic = copy(self.quadratic) # the saturated loss is already in it
+        return result
 
     def subsample(self, case_idx):
         """
-- 
2.43.0


From cb488d7bbc03daa7ae09c4842e8da1c581bde45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 040/107] fix: stacked losses apply their case weights

---
 regreg/smooth/glm.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index b84c31c..1ebb417 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1491,17 +1491,17 @@ class stacked_loglike(smooth_atom):
         linpred = self.apply_offset(linpred)
         if mode == 'grad':
             for d, slice in enumerate(self._slices):
-                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad')
+                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
             return self.scale(self._gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
-                value += self._losses[d].smooth_objective(linpred[slice], 'func')
+                value += self._losses[d].smooth_objective(linpred[slice], 'func', case_weights=cw[slice])
             return self.scale(value)
         elif mode == 'both':
             value = 0
             for d, slice in enumerate(self._slices):
-                f, g = self._losses[d].smooth_objective(linpred[slice], 'both')
+                f, g = self._losses[d].smooth_objective(linpred[slice], 'both', case_weights=cw[slice])
                 self._gradient[slice] = g
                 value += f
             return self.scale(value), self.scale(self._gradient)
-- 
2.43.0


From 8a5da29ce1b2359d272bcf91cc32e3f0680ff1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:19 +0000
Subject: [PATCH 041/107] fix: stacked losses return a fresh gradient

---
 regreg/smooth/glm.py  | 10 +++++-----
 regreg/smooth/mglm.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 1ebb417..f6c1779 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1438,7 +1438,6 @@ class stacked_loglike(smooth_atom):
             idx += l.shape[0]
 
         self._losses = losses
-        self._gradient = np.zeros(self.shape)
 
         if case_weights is not None:
             if not np.all(case_weights >= 0):
@@ -1489,10 +1488,11 @@ class stacked_loglike(smooth_atom):
         linpred = natural_param # shorthand
 
         linpred = self.apply_offset(linpred)
+        gradient = np.zeros(self.shape)
         if mode == 'grad':
             for d, slice in enumerate(self._slices):
-                self._gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
-            return self.scale(self._gradient)
+                gradient[slice] = self._losses[d].smooth_objective(linpred[slice], 'grad', case_weights=cw[slice])
+            return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for d, slice in enumerate(self._slices):
@@ -1502,9 +1502,9 @@ class stacked_loglike(smooth_atom):
             value = 0
             for d, slice in enumerate(self._slices):
                 f, g = self._losses[d].smooth_objective(linpred[slice], 'both', case_weights=cw[slice])
-                self._gradient[slice] = g
+                gradient[slice] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(gradient)
         else:
             raise ValueError("mode incorrectly specified")
 
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 95513e4..8f9b518 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -299,7 +299,6 @@ class stacked_common_loglike(smooth_atom):
         self.data = np.array([l.data for l in losses]).T
 
         self._losses = losses
-        self._gradient = np.zeros(self.shape)
 
         if case_weights is not None:
             if not np.all(case_weights >= 0):
@@ -350,12 +349,13 @@ class stacked_common_loglike(smooth_atom):
         x = natural_param # shorthand
 
         x = self.apply_offset(x)
+        gradient = np.zeros(self.shape)
         if mode == 'grad':
             for i in range(len(self._losses)):
-                self._gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
+                gradient[:,i] = self._losses[i].smooth_objective(x[:,i], 
                                                                        'grad', 
                                                                        case_weights=cw) 
-            return self.scale(self._gradient)
+            return self.scale(gradient)
         elif mode == 'func':
             value = 0
             for i in range(len(self._losses)):
@@ -369,9 +369,9 @@ class stacked_common_loglike(smooth_atom):
                 f, g = self._losses[i].smooth_objective(x[:,i], 
                                                         'both', 
                                                         case_weights=cw)
-                self._gradient[:,i] = g
+                gradient[:,i] = g
                 value += f
-            return self.scale(value), self.scale(self._gradient)
+            return self.scale(value), self.scale(gradient)
         else:
             raise ValueError("mode incorrectly specified")
 
-- 
2.43.0


From ef77488c6a8f66579775e0d7c5fc1218f3e0083f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 042/107] fix: class methods of the stacked losses build the
 losses they name

---
 regreg/smooth/glm.py  | 37 ++++++++++++++++++++++++-------------
 regreg/smooth/mglm.py | 30 +++++++++++++++++-------------
 2 files changed, 41 insertions(+), 26 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index f6c1779..a0cd1ce 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1649,9 +1649,12 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
+        if trials is None:
+            trials = [None] * len(successes)
+        losses = [logistic_loglike(successes[i].shape,
+                                  successes[i],
+                                  trials=trials[i],
+                                  coef=coef)
                   for i in range(len(successes))]
 
         return klass(losses,
@@ -1703,8 +1706,11 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [probit_loglike(successes[i],
-                                 trials[i],
+        if trials is None:
+            trials = [None] * len(successes)
+        losses = [probit_loglike(successes[i].shape,
+                                 successes[i],
+                                 trials=trials[i],
                                  coef=coef)
                   for i in range(len(successes))]
 
@@ -1757,8 +1763,11 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [cloglog_loglike(successes[i],
-                                  trials[i],
+        if trials is None:
+            trials = [None] * len(successes)
+        losses = [cloglog_loglike(successes[i].shape,
+                                  successes[i],
+                                  trials=trials[i],
                                   coef=coef)
                   for i in range(len(successes))]
 
@@ -1806,10 +1815,10 @@ class stacked_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -1863,7 +1872,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_loss(response.shape,
                              response,
-                             smoothing_parameter) 
+                             smoothing_parameter,
+                             coef=coef)
                   for response in responses]
 
         return klass(losses,
@@ -1918,7 +1928,8 @@ class stacked_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef)
                   for response in successes]
 
         return klass(losses,
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index 8f9b518..e27d38e 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -257,7 +257,6 @@ class mglm(glm):
         """
 
         loss = stacked_common_loglike(losses,
-                                      successes,
                                       coef=coef,
                                       offset=saturated_offset)
 
@@ -516,9 +515,12 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
+        if trials is None:
+            trials = [None] * len(successes)
+        losses = [logistic_loglike(successes[i].shape,
+                                  successes[i],
+                                  trials=trials[i],
+                                  coef=coef)
                   for i in range(len(successes))]
 
         return klass(losses,
@@ -565,10 +567,10 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [logistic_loglike(successes[i],
-                                   trials[i],
-                                   coef=coef)
-                  for i in range(len(successes))]
+        losses = [poisson_loglike(count.shape,
+                                  count,
+                                  coef=coef)
+                  for count in counts]
 
         return klass(losses,
                      offset=offset,
@@ -620,10 +622,11 @@ class stacked_common_loglike(smooth_atom):
 
         """
 
-        losses = [huber_loss(response.shape,
-                             response,
-                             smoothing_parameter) 
-                  for response in responses]
+        losses = [huber_loss(r.shape,
+                             r,
+                             smoothing_parameter,
+                             coef=coef)
+                  for r in response]
 
         return klass(losses,
                      offset=offset,
@@ -677,7 +680,8 @@ class stacked_common_loglike(smooth_atom):
 
         losses = [huber_svm(response.shape,
                             response,
-                            smoothing_parameter) 
+                            smoothing_parameter,
+                            coef=coef)
                   for response in successes]
 
         return klass(losses,
-- 
2.43.0


From 68f3705a049978dc9c647c128825c818ef0b097d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:09 +0000
Subject: [PATCH 043/107] fix: Cox gradient is a fresh array

---
 regreg/smooth/cox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index f9d11f7..33ac4c2 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -102,7 +102,7 @@ class cox_loglike(smooth_atom):
         censoring = self.censoring
 
         if mode in ['both', 'grad']:
-            G = cox_gradient(self._G,
+            G = cox_gradient(np.zeros_like(self._G),
                              eta,
                              self._exp_buffer,
                              self._exp_accum,
-- 
2.43.0


From 96629c8f4d940ab0414a8fe45716325eea56d9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 044/107] fix: Cox Hessian is scaled by coef

---
 regreg/smooth/cox.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 33ac4c2..0bacaef 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -178,20 +178,20 @@ class cox_loglike(smooth_atom):
 
         H = np.zeros(eta.shape, float)
 
-        return cox_hessian(H,
-                           eta,
-                           right_vector,
-                           self._exp_buffer,
-                           self._exp_accum,
-                           self._expZ_accum,
-                           self._outer_1st,
-                           self._outer_2nd,
-                           cw,
-                           censoring,
-                           self._ordering,
-                           self._rankmin,
-                           self._rankmax,
-                           eta.shape[0])
+        return self.scale(cox_hessian(H,
+                                      eta,
+                                      right_vector,
+                                      self._exp_buffer,
+                                      self._exp_accum,
+                                      self._expZ_accum,
+                                      self._outer_1st,
+                                      self._outer_2nd,
+                                      cw,
+                                      censoring,
+                                      self._ordering,
+                                      self._rankmin,
+                                      self._rankmax,
+                                      eta.shape[0]))
 
     def get_data(self):
         return np.array([self.event_times, self.censoring]).T
-- 
2.43.0


From c1ad2edcd7756a1a5dad40b3b5935a5c435b3786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 045/107] fix: Cox loss orders the event times it is given
 later

---
 regreg/smooth/cox.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/regreg/smooth/cox.py b/regreg/smooth/cox.py
index 0bacaef..0a6f3ec 100644
--- a/regreg/smooth/cox.py
+++ b/regreg/smooth/cox.py
@@ -35,10 +35,6 @@ class cox_loglike(smooth_atom):
 
         self.data = np.asarray([event_times, censoring]).T
 
-        self._ordering = np.argsort(self.event_times).astype(np.intp)
-        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
-        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
-
         if case_weights is not None:
             case_weights = np.asarray(case_weights).astype(float)
             if not np.all(case_weights >= 0):
@@ -200,6 +196,9 @@ class cox_loglike(smooth_atom):
         event_times, censoring = np.asarray(data).T
         self.event_times, self.censoring = (np.asarray(event_times),
                                             np.asarray(censoring).astype(np.intp))
+        self._ordering = np.argsort(self.event_times).astype(np.intp)
+        self._rankmax = (rankdata(self.event_times, method='max') - 1).astype(np.intp)
+        self._rankmin = (rankdata(self.event_times, method='min') - 1).astype(np.intp)
 
     data = property(get_data, set_data)
 
-- 
2.43.0


From 012c9de35f1d5f82a5fb9ab356bb4b16165bc4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 046/107] fix: Cox loss of a subsample without the last event
 times (0/0)

---
 regreg/smooth/cox_fns.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/cox_fns.c b/regreg/smooth/cox_fns.c
index 3ac752a..e53cc6c 100644
--- a/regreg/smooth/cox_fns.c
+++ b/regreg/smooth/cox_fns.c
@@ -98,7 +98,9 @@ void _update_outer_1st(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight / *exp_accum;
+    if (censoring * case_weight > 0) {  // a risk set whose weights are all 0 has no events
+      cur_val = cur_val + censoring * case_weight / *exp_accum;
+    }
     outer_1st_accum = ((double *) outer_1st_accum_ptr + idx);
     *outer_1st_accum = cur_val;
   }
@@ -134,7 +136,9 @@ void _update_outer_2nd(double *linear_pred_ptr,     /* Linear term in objective
     exp_accum = ((double *) exp_accum_ptr + rankmin_idx);
     censoring = *((size_t *) censoring_ptr + order_idx);
     case_weight = *((double *) case_weight_ptr + order_idx);
-    cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    if (censoring * case_weight > 0) {
+      cur_val = cur_val + censoring * case_weight * (*expZ_accum) / ((*exp_accum) * (*exp_accum));
+    }
     outer_2nd_accum = ((double *) outer_2nd_accum_ptr + idx);
     *outer_2nd_accum = cur_val;
   }
@@ -169,7 +173,9 @@ double _cox_objective(double *linear_pred_ptr,     /* Linear term in objective *
     censoring = *((size_t *) censoring_ptr + idx);
     case_weight = *((double *) case_weight_ptr + idx);
     linear_pred = *((double *) linear_pred_ptr + idx);
-    cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    if (censoring * case_weight > 0) {
+      cur_val += censoring * case_weight * (log(exp_accum) - linear_pred);
+    }
   }
 
   return(cur_val);
-- 
2.43.0


From 014f2f57da7032a12ffdebd31340818dd6147fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 047/107] fix: probit and cloglog losses apply their offset

---
 regreg/smooth/binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 617504a..c26dc49 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -355,6 +355,7 @@ class probit_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
 
         prob = normal_dbn.cdf(x)
@@ -597,6 +598,7 @@ class cloglog_loglike(smooth_atom):
             cw = cw * self.case_weights
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         cutoff = 5
         x_ = np.clip(x, -cutoff, cutoff) # to prevent overflow
-- 
2.43.0


From 24228e6695fc8aebd04a1fbe14160714791143b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:33 +0000
Subject: [PATCH 048/107] fix: Hessians of the losses apply the offset

---
 regreg/smooth/binary.py | 3 +++
 regreg/smooth/glm.py    | 1 +
 2 files changed, 4 insertions(+)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index c26dc49..cb5dc1a 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -164,6 +164,7 @@ class logistic_loglike(smooth_atom):
         """
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
@@ -415,6 +416,7 @@ class probit_loglike(smooth_atom):
         """
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
@@ -661,6 +663,7 @@ class cloglog_loglike(smooth_atom):
         """
 
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index a0cd1ce..4721d12 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -1146,6 +1146,7 @@ class poisson_loglike(smooth_atom):
             evaluated at `natural_param`.
         """
         x = natural_param # shorthand
+        x = self.apply_offset(x)
 
         if case_weights is None:
             case_weights = np.ones_like(natural_param)
-- 
2.43.0


From 581c588ab56779b3cc10fbac84dcb12f583cd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:07 +0000
Subject: [PATCH 049/107] fix: Hessian of a glm applies the offset and coef,
 works for sparse X

---
 regreg/smooth/glm.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 4721d12..3945cee 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -225,7 +225,7 @@ class glm(smooth_atom):
 
         """
 
-        linpred = self.linear_predictor(beta)
+        linpred = self.linear_predictor(self.apply_offset(beta))
         X = self.data[0]
         if self._is_transform:
             raise ValueError('refusing to form Hessian for arbitrary affine_transform, use an ndarray or scipy.sparse')
@@ -235,17 +235,21 @@ class glm(smooth_atom):
                 raise ValueError('loss has no hessian or hessian_mult method')
             right_mult = np.zeros(X.shape)
             for j in range(X.shape[1]):
+                col = X[:,j].toarray().reshape(-1) if sparse.issparse(X) else X[:,j]
                 right_mult[:,j] = self.saturated_loss.hessian_mult(linpred, 
-                                                                   X[:,j], 
+                                                                   col,
                                                                    case_weights=self.case_weights)
         else:
             W = self.saturated_loss.hessian(linpred, 
                                             case_weights=self.case_weights)
-            right_mult = W[:,None] * X
+            if sparse.issparse(X):
+                right_mult = X.multiply(W[:,None]).toarray()
+            else:
+                right_mult = W[:,None] * X
         if not sparse.issparse(X): # assuming it is an ndarray
-            return X.T.dot(right_mult)
+            return self.scale(X.T.dot(right_mult))
         else:
-            return X.T * right_mult
+            return self.scale(X.T * right_mult)
 
     def latexify(self, var=None, idx=''):
         return self.affine_atom.latexify(var=var, idx=idx)
-- 
2.43.0


From 31cc9f0f96aff00b3687a67870b19e30d93a6515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:34 +0000
Subject: [PATCH 050/107] fix: copies of a glm keep its coef

---
 regreg/smooth/glm.py  | 16 +++++++++-------
 regreg/smooth/mglm.py | 14 ++++++++------
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/regreg/smooth/glm.py b/regreg/smooth/glm.py
index 3945cee..ba6cbb2 100644
--- a/regreg/smooth/glm.py
+++ b/regreg/smooth/glm.py
@@ -257,13 +257,15 @@ class glm(smooth_atom):
     def __copy__(self):
         klass = self.__class__
         X, Y = self.data
-        return klass(copy(X), 
-                     copy(Y), 
-                     copy(self.saturated_loss), 
-                     quadratic=copy(self.quadratic),
-                     initial=copy(self.coefs),
-                     offset=copy(self.offset),
-                     case_weights=self.case_weights.copy())
+        result = klass(copy(X), 
+                       copy(Y), 
+                       copy(self.saturated_loss), 
+                       quadratic=copy(self.quadratic),
+                       initial=copy(self.coefs),
+                       offset=copy(self.offset),
+                       case_weights=self.case_weights.copy())
+        result.coef = self.coef
+        return result
 
     def subsample(self, idx):
         """
diff --git a/regreg/smooth/mglm.py b/regreg/smooth/mglm.py
index e27d38e..5d64e21 100644
--- a/regreg/smooth/mglm.py
+++ b/regreg/smooth/mglm.py
@@ -136,12 +136,14 @@ class mglm(glm):
     def __copy__(self):
         klass = self.__class__
         X, _ = self.data
-        return klass(copy(X), 
-                     copy(self.saturated_loss), 
-                     quadratic=copy(self.quadratic),
-                     initial=copy(self.coefs),
-                     offset=copy(self.offset),
-                     case_weights=copy(self.case_weights))
+        result = klass(copy(X), 
+                       copy(self.saturated_loss), 
+                       quadratic=copy(self.quadratic),
+                       initial=copy(self.coefs),
+                       offset=copy(self.offset),
+                       case_weights=copy(self.case_weights))
+        result.coef = self.coef
+        return result
        
     @classmethod
     def multinomial(klass, 
-- 
2.43.0


From 20c13362b2cbe484fa256fb88e0322b342893edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 051/107] fix: value of the Huberized SVM loss agrees with its
 gradient when the smoothing parameter is not 1

---
 regreg/smooth/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index cb5dc1a..2b819cc 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -938,5 +938,5 @@ def _huber_svm(z, smoothing_parameter):
     eps = smoothing_parameter
     arg = (1 - z) / eps # function of (2 * y - 1) * eta when y is binary
     proj_arg = (0 < arg) * (arg < 1) * arg + (arg >= 1) 
-    return arg * proj_arg - eps * proj_arg**2 / 2, -proj_arg
+    return (1 - z) * proj_arg - eps * proj_arg**2 / 2, -proj_arg
 
-- 
2.43.0


From 7356b620846ae6bae73bff1cf172407f4f35f366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:59 +0000
Subject: [PATCH 052/107] fix: logistic mean function and Hessian do not
 overflow

---
 regreg/smooth/binary.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 2b819cc..7d4f420 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -172,15 +172,7 @@ class logistic_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        if np.max(x) > 1e2:
-            overflow = True
-            not_overflow_ind = np.where(x <= 1e2)[0]
-            exp_x = np.zeros_like(x)
-            exp_x[not_overflow_ind] = np.exp(x[not_overflow_ind])
-            exp_x[~not_overflow_ind] = np.exp(100)
-        else:
-            overflow = False
-            exp_x = np.exp(x)
+        exp_x = np.exp(-np.fabs(x)) # the Hessian is even in x
 
         return self.scale(exp_x / (1 + exp_x)**2 * self.trials * cw)
 
@@ -265,8 +257,7 @@ class logistic_loglike(smooth_atom):
     # End loss API
 
     def mean_function(self, eta, trials=None):
-        _exp_eta = np.exp(eta)
-        return _exp_eta / (1. + _exp_eta)
+        return 1. / (1. + np.exp(-np.asarray(eta)))
 
 class probit_loglike(smooth_atom):
 
-- 
2.43.0


From e2cc8cf019d8806db6a10d11bd7d1e451d560a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:25 +0000
Subject: [PATCH 053/107] fix: probit loss has a consistent value and gradient
 far in the tails

---
 regreg/smooth/binary.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 7d4f420..666646f 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -349,34 +349,29 @@ class probit_loglike(smooth_atom):
         x = natural_param # shorthand
         x = self.apply_offset(x)
 
+        # log-probabilities and density / probability ratios,
+        # accurate far in the tails
 
-        prob = normal_dbn.cdf(x)
-        prob[x < -20] = normal_dbn.cdf(-20)   # to prevent overflow
-        prob_c = normal_dbn.sf(x) # to prevent overflow
-        prob_c[x > 20] = normal_dbn.sf(20)
+        lprob = normal_dbn.logcdf(x)
+        lprob_c = normal_dbn.logsf(x)
+        lpdf = normal_dbn.logpdf(x)
+        ratio = np.exp(lpdf - lprob)
+        ratio_c = np.exp(lpdf - lprob_c)
 
         if mode == 'both':
 
-            lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-            pdf = normal_dbn.pdf(x)
-
             f, g = (-self.scale(np.sum(cw * (self.successes * lprob + 
                                             (self.trials - self.successes) * lprob_c))),
-                     -self.scale(cw * pdf * (self.successes / prob - 
-                                             (self.trials - self.successes) / prob_c)))
+                     -self.scale(cw * (self.successes * ratio - 
+                                       (self.trials - self.successes) * ratio_c)))
             return f, g
         elif mode == 'grad':
-            pdf = normal_dbn.pdf(x)
-            g = - self.scale(cw * pdf * (self.successes / prob - 
-                                         (self.trials - self.successes) / prob_c)) 
+            g = - self.scale(cw * (self.successes * ratio - 
+                                   (self.trials - self.successes) * ratio_c)) 
             return g
 
         elif mode == 'func':
 
-            lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-
             f = -self.scale(np.sum(cw * (self.successes * lprob + 
                                          (self.trials - self.successes) * lprob_c)))
             return f
-- 
2.43.0


From a6f9a26d162841b5ef729bd0e54c6b4e7bc00fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:25 +0000
Subject: [PATCH 054/107] fix: cloglog loss has a consistent value and gradient
 outside [-5,5]

---
 regreg/smooth/binary.py | 37 ++++++++++++++-----------------------
 1 file changed, 14 insertions(+), 23 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index 666646f..b26740d 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -588,37 +588,29 @@ class cloglog_loglike(smooth_atom):
         x = natural_param # shorthand
         x = self.apply_offset(x)
 
-        cutoff = 5
-        x_ = np.clip(x, -cutoff, cutoff) # to prevent overflow
-        prob_ = 1 - np.exp(-np.exp(x_))
-        prob_c_ = np.exp(-np.exp(x_)) 
-        prob = prob_.copy()
-        prob_c = prob_c_.copy()
-        if mode == 'both':
+        # log-probabilities and their derivatives, accurate far in the tails
+
+        exp_x = np.exp(x)
+        with np.errstate(over='ignore'):
+            ratio = exp_x / np.expm1(exp_x)
+        ratio_c = exp_x
+        lprob = np.log(-np.expm1(-exp_x))
+        lprob_c = -exp_x
 
-            lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-            lpdf = x - np.exp(x)
-            pdf = np.exp(lpdf)
+        if mode == 'both':
 
             f, g = (-self.scale(np.sum(cw * (self.successes * lprob + 
                                             (self.trials - self.successes) * lprob_c))),
-                     -self.scale(cw * pdf * (self.successes / prob - 
-                                             (self.trials - self.successes) / prob_c)))
+                     -self.scale(cw * (self.successes * ratio - 
+                                       (self.trials - self.successes) * ratio_c)))
             return f, g
         elif mode == 'grad':
-            lpdf = x - np.exp(x)
-            pdf = np.exp(lpdf)
-
-            g = - self.scale(cw * pdf * (self.successes / prob - 
-                                         (self.trials - self.successes) / prob_c)) 
+            g = - self.scale(cw * (self.successes * ratio - 
+                                   (self.trials - self.successes) * ratio_c)) 
             return g
 
         elif mode == 'func':
 
-            lprob = np.log(prob)
-            lprob_c = np.log(prob_c)
-
             f = -self.scale(np.sum(cw * (self.successes * lprob + 
                                          (self.trials - self.successes) * lprob_c)))
             return f
@@ -745,8 +737,7 @@ class cloglog_loglike(smooth_atom):
     # End loss API
 
     def mean_function(self, eta, trials=None):
-        eta = np.clip(eta, -5, 5)
-        return 1 - np.exp(-np.exp(eta))
+        return -np.expm1(-np.exp(eta))
 
 class huber_svm(smooth_atom):
 
-- 
2.43.0


From a1a254827301b700c7f4851532f070151ed7e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:53 +0000
Subject: [PATCH 055/107] fix: probit and cloglog information is finite in the
 tails

---
 regreg/smooth/binary.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/regreg/smooth/binary.py b/regreg/smooth/binary.py
index b26740d..6502f81 100644
--- a/regreg/smooth/binary.py
+++ b/regreg/smooth/binary.py
@@ -410,10 +410,9 @@ class probit_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        pi = self.mean_function(x)
-        V = pi * (1 - pi)
-        deriv_term = normal_dbn.pdf(x)**2
-        return self.scale(deriv_term * self.trials * cw / V)
+        lpdf = normal_dbn.logpdf(x)
+        deriv_term = np.exp(2 * lpdf - normal_dbn.logcdf(x) - normal_dbn.logsf(x)) # pdf**2 / (cdf * sf)
+        return self.scale(deriv_term * self.trials * cw)
 
     def get_data(self):
         return self.successes
@@ -649,12 +648,10 @@ class cloglog_loglike(smooth_atom):
         if self.case_weights is not None:
             cw = cw * self.case_weights
 
-        pi = self.mean_function(x)
-        V = pi * (1 - pi)
-        lpdf = x - np.exp(x)
-        pdf = np.exp(lpdf)
-        deriv_term = pdf**2
-        return self.scale(deriv_term * self.trials * cw / V)
+        exp_x = np.exp(x)
+        with np.errstate(over='ignore'):
+            deriv_term = exp_x**2 / np.expm1(exp_x) # pdf**2 / (cdf * sf)
+        return self.scale(deriv_term * self.trials * cw)
 
     def get_data(self):
         return self.successes
-- 
2.43.0


From 4fea382233bff7abee60405e426c89dfd9cc2ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:05 +0000
Subject: [PATCH 056/107] fix: setting a zero offset forgets the previous one

---
 regreg/problems/composite.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index d40fc14..fdbd06d 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -43,6 +43,8 @@ class composite(object):
             value = asarray(value)
             if npany(value != 0):
                 self._offset = value
+            else:
+                self._offset = None
         else:
             self._offset = None
 
-- 
2.43.0


From 8b00c834ea338619b02654b5184a31c9bc1bf7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:05 +0000
Subject: [PATCH 057/107] fix: conjugate of a smoothed function with a
 quadratic added to it

---
 regreg/problems/composite.py | 63 +++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index fdbd06d..3ceade1 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -310,53 +310,50 @@ class smooth_conjugate(smooth):
                 atom.quadratic = atom.quadratic + self.smoothing_quadratic
                 return atom
         else:
+            # with F = atom + smoothing quadratic and q the (collapsed) quadratic
+
             q = self.quadratic.collapsed()
+            linear = q.linear_term + zeros(self.shape)
             if q.coef == 0:
-                newq = copy(atom.quadratic)
-                newq.constant_term -= q.constant_term
-                offset = -q.linear_term
+                # F(v - linear) - constant
+                atom = copy(self.atom)
                 if atom.offset is not None:
-                    offset -= atom.offset
-                atom = copy(atom)
-                atom.offset = offset
-                atom.quadratic = newq
+                    atom.offset = atom.offset + linear
+                else:
+                    atom.offset = linear
+                newq = self.atom.quadratic + self.smoothing_quadratic
+                atom.quadratic = sq(newq.coef,
+                                    linear,
+                                    newq.linear_term,
+                                    newq.constant_term - (newq.linear_term * linear).sum() - q.constant_term)
                 return atom
             if q.coef != 0:
+                # inf over u of F(u) + |v - linear - u|^2/(2r) - constant
                 r = q.coef
-                sq_ = self.smoothing_quadratic
-                newq = sq_ + q.conjugate
-                new_smooth = smooth_conjugate(self.atom, quadratic=newq)
-                output = smooth(self.atom.shape,
-                                offset=None,
-                                quadratic=sq(1./r, q.linear_term, 0, 0),
-                                initial=None)
-                output.smoothed_atom = new_smooth
-
-                def smooth_objective(self, x, mode='func', check_feasibility=False):
-                    # what if self.quadratic is later changed? hmm..
-                    r = 1. / self.quadratic.coef
+                output = smooth(self.atom.shape)
+                output.smoothed_atom = smooth_conjugate(self.atom, self.smoothing_quadratic + sq(1./r, 0, 0, 0))
+                output.smoothing_quadratic = sq(1./r, linear, 0, -q.constant_term)
+
+                def smooth_objective(x, mode='func', check_feasibility=False):
+                    arg = (x - linear) / r
                     if mode == 'func':
-                        v = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                check_feasibility=check_feasibility)
-                        return self.smoothing_quadratic.objective(x, 'func') - v
+                        v = output.smoothed_atom.smooth_objective(arg, mode=mode, 
+                                                                  check_feasibility=check_feasibility)
+                        return output.smoothing_quadratic.objective(x, 'func') - v
                     elif mode == 'both':
-                        v1, g1 = self.smoothed_atom.smooth_objective(x/r, mode=mode, 
-                                                                     check_feasibility=check_feasibility)
-                        v2, g2 = self.smoothing_quadratic.objective(x, mode=mode, 
-                                                                    check_feasibility=check_feasibility)
+                        v1, g1 = output.smoothed_atom.smooth_objective(arg, mode=mode, 
+                                                                       check_feasibility=check_feasibility)
+                        v2, g2 = output.smoothing_quadratic.objective(x, mode=mode)
                         return v2-v1, g2-g1/r
                     elif mode == 'grad':
-                        g1 = self.smoothed_atom.smooth_objective(x/r, mode='grad', 
-                                                                     check_feasibility=check_feasibility)
-                        g2 = self.smoothing_quadratic.objective(x, mode='grad', 
-                                                                    check_feasibility=check_feasibility)
+                        g1 = output.smoothed_atom.smooth_objective(arg, mode='grad', 
+                                                                   check_feasibility=check_feasibility)
+                        g2 = output.smoothing_quadratic.objective(x, mode='grad')
                         return g2-g1/r
                     else:
                         raise ValueError("mode incorrectly specified")
                         
-                output.smooth_objective = type(output.smooth_objective)(smooth_objective,
-                                                                        output, 
-                                                                        smooth)
+                output.smooth_objective = smooth_objective
                 return output
     conjugate = property(get_conjugate)
 
-- 
2.43.0


From d92b8e7ccf73290eaab8a4677691be35677de7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:05 +0000
Subject: [PATCH 058/107] fix: conjugate of a quadratic loss

---
 regreg/smooth/quadratic.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/regreg/smooth/quadratic.py b/regreg/smooth/quadratic.py
index f0c48dd..3387e15 100644
--- a/regreg/smooth/quadratic.py
+++ b/regreg/smooth/quadratic.py
@@ -169,22 +169,26 @@ class quadratic_loss(smooth_atom):
             as_quad = (identity_quadratic(self.coef, self.offset, 0, 0) + self.quadratic).collapsed()
             return smooth_conjugate(zero(self.shape, quadratic=as_quad))
         else:
-            #XXX this needs to be tested
             sq = self.quadratic.collapsed()
+            linear = sq.linear_term + np.zeros(self.shape)
+            constant = sq.constant_term
             if self.offset is not None:
-                sq.linear_term -= self.scale(self.Q_transform.linear_map(self.offset))
-            if self.Q_transform.diagD:
+                Q_offset = self.scale(self.Q_transform.linear_map(self.offset))
+                linear = linear - Q_offset
+                constant = constant + np.sum(Q_offset * self.offset) / 2.
+            outq = identity_quadratic(0, 0, 0, -constant)
+            if self.Qdiag:
                 return quadratic_loss(self.shape,
-                                      Q=1./(self.coef*self.Q_transform.linear_operator + sq.coef),
-                                      offset=offset,
+                                      Q=1./(self.coef*self.Q + sq.coef),
+                                      offset=linear,
                                       quadratic=outq, 
                                       coef=1.,
                                       Qdiag=True)
             elif factor:
                 return quadratic_loss(self.shape,
-                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape)),
+                                      Q=cholesky(self.coef * self.Q + sq.coef * np.identity(self.shape[0])),
                                       Qdiag=False,
-                                      offset=offset,
+                                      offset=linear,
                                       quadratic=outq,
                                       coef=1.)
             else:
@@ -207,8 +211,8 @@ class cholesky(object):
     '''
 
     def __init__(self, Q, cholesky=None, banded=False):
-        self.input_shape = Q.shape[0]
-        self.output_shape = Q.shape[0]
+        self.input_shape = (Q.shape[0],)
+        self.output_shape = (Q.shape[0],)
         self.affine_offset = None
         self._Q = Q
         self.banded = banded
@@ -224,7 +228,7 @@ class cholesky(object):
         if not self.banded:
             return cho_solve(self._cholesky, x)
         else:
-            return cho_solve_banded(self._cholesky, x)
+            return cho_solve_banded((self._cholesky, False), x)
 
     def affine_map(self, x):
         return self.linear_map(x)
-- 
2.43.0


From 112b371d9e66b8f26d193754fad29e9a4755b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:19 +0000
Subject: [PATCH 059/107] fix: huberized_svm applies its coef and offset

---
 regreg/smooth/losses.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/regreg/smooth/losses.py b/regreg/smooth/losses.py
index 0551b70..dea95f1 100644
--- a/regreg/smooth/losses.py
+++ b/regreg/smooth/losses.py
@@ -65,7 +65,10 @@ class huberized_svm(smooth_atom):
         else returns both.
         """
         
-        return self.smoothed_atom.smooth_objective(beta,
-                                                   mode=mode,
-                                                   check_feasibility=check_feasibility)
+        value = self.smoothed_atom.smooth_objective(self.apply_offset(beta),
+                                                    mode=mode,
+                                                    check_feasibility=check_feasibility)
+        if mode == 'both':
+            return self.scale(value[0]), self.scale(value[1])
+        return self.scale(value)
 
-- 
2.43.0


From 6d449cf0a3e2bb1a6064c565bc3f8c6f63a98d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:28 +0000
Subject: [PATCH 060/107] fix: affine and linear class methods of smooth atoms
 keep the quadratic they are given

---
 regreg/smooth/__init__.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/regreg/smooth/__init__.py b/regreg/smooth/__init__.py
index 1cb06d6..1924bf4 100644
--- a/regreg/smooth/__init__.py
+++ b/regreg/smooth/__init__.py
@@ -94,9 +94,12 @@ class smooth_atom(smooth_composite):
         # their offset until add. 
         # for atoms, the offset is really the "center"
 
-        atom = cls(l.output_shape, coef=coef, offset=-offset, quadratic=quadratic, **kws)
+        atom = cls(l.output_shape, coef=coef, offset=-offset, **kws)
         
-        return affine_smooth(atom, l)
+        result = affine_smooth(atom, l)
+        if quadratic is not None:
+            result.quadratic = quadratic
+        return result
 
     @classmethod
     def linear(cls, linear_operator, coef=1, diag=False,
@@ -109,9 +112,12 @@ class smooth_atom(smooth_composite):
             raise ValueError("Invalid arguments being passed to initialize " + cls.__name__)
 
         atransform = affine_transform(linear_operator, None, diag=diag)
-        atom = cls(atransform.output_shape, coef=coef, quadratic=quadratic, offset=offset, **kws)
+        atom = cls(atransform.output_shape, coef=coef, offset=offset, **kws)
         
-        return affine_smooth(atom, atransform)
+        result = affine_smooth(atom, atransform)
+        if quadratic is not None:
+            result.quadratic = quadratic
+        return result
 
     @classmethod
     def shift(cls, offset, coef=1, quadratic=None, **kws):
-- 
2.43.0


From 4a394118831b7dca5d332f5479500601807756dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:11 +0000
Subject: [PATCH 061/107] fix: group_lasso_dual.bound_prox returned its work
 buffer, later calls overwrote earlier results

---
 regreg/atoms/group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index 495e804..d6a46ac 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -376,7 +376,7 @@ class group_lasso_dual(group_lasso):
                                            self._weight_array,
                                            self._norms_cython,
                                            self._factors_cython,
-                                           self._projection_cython)
+                                           self._projection_cython).copy()
 
     @doc_template_user
     def lagrange_prox(self, arg,  lipschitz=1, lagrange=None):
-- 
2.43.0


From ddc9e30f11ccd77a3110f702d3bfadf6b2ce3545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:22 +0000
Subject: [PATCH 062/107] fix: block_sum and block_max could not be copied

---
 regreg/atoms/block_norms.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/regreg/atoms/block_norms.py b/regreg/atoms/block_norms.py
index 7f60e61..caa50b8 100644
--- a/regreg/atoms/block_norms.py
+++ b/regreg/atoms/block_norms.py
@@ -5,6 +5,7 @@ l1/l*, linf/l* norms. These are used in multiresponse LASSOs.
 """
 from __future__ import print_function, division, absolute_import
 
+from copy import copy
 import warnings
 
 import numpy as np
@@ -46,11 +47,20 @@ class block_sum(seminorms.seminorm):
                             lagrange=lagrange,
                             bound=bound)
 
+        self.atom_cls = atom_cls
         self.atom = atom_cls(shape[1:], lagrange=lagrange,
                              bound=bound,
                              offset=None,
                              quadratic=quadratic)
 
+    def __copy__(self):
+        return self.__class__(self.atom_cls,
+                              copy(self.shape),
+                              bound=copy(self.bound),
+                              lagrange=copy(self.lagrange),
+                              offset=copy(self.offset),
+                              quadratic=copy(self.quadratic))
+
     @doc_template_user
     @doc_template_provider
     def seminorms(self, x, lagrange=None, check_feasibility=False):
@@ -259,6 +269,9 @@ class linf_l2(block_max):
                            quadratic=quadratic,
                            initial=initial)
 
+    # these classes are created from a shape alone
+    __copy__ = seminorms.seminorm.__copy__
+
     @doc_template_user
     def constraint(self, arg):
         arg = arg.reshape(self.shape)
@@ -459,6 +472,9 @@ class l1_l2(block_sum):
                            quadratic=quadratic,
                            initial=initial)
 
+    # these classes are created from a shape alone
+    __copy__ = seminorms.seminorm.__copy__
+
     @doc_template_user
     def lagrange_prox(self, arg, lipschitz=1, lagrange=None):
         arg = arg.reshape(self.shape)
-- 
2.43.0


From 5377e88a8e9ea02e0e577f5a60453ce7d778bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:20 +0000
Subject: [PATCH 063/107] fix: copies of atoms no longer share their quadratic
 with the original

---
 regreg/atoms/linear_constraints.py | 2 +-
 regreg/atoms/mixed_lasso.py        | 4 ++--
 regreg/atoms/simplex.py            | 4 ++--
 regreg/atoms/slope.py              | 2 +-
 regreg/atoms/sparse_group_block.py | 2 +-
 regreg/atoms/sparse_group_lasso.py | 2 +-
 regreg/atoms/svd_norms.py          | 2 +-
 regreg/atoms/weighted_atoms.py     | 2 +-
 8 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/regreg/atoms/linear_constraints.py b/regreg/atoms/linear_constraints.py
index 4927fef..f6ff7e1 100644
--- a/regreg/atoms/linear_constraints.py
+++ b/regreg/atoms/linear_constraints.py
@@ -55,7 +55,7 @@ class linear_constraint(cone):
         return self.__class__(copy(self.shape),
                               self.basis.copy(),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/mixed_lasso.py b/regreg/atoms/mixed_lasso.py
index a06d458..f963a02 100644
--- a/regreg/atoms/mixed_lasso.py
+++ b/regreg/atoms/mixed_lasso.py
@@ -93,7 +93,7 @@ class mixed_lasso(atom):
                               weights=self.weights,
                               offset=copy(self.offset),
                               initial=self.coefs,
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
@@ -280,7 +280,7 @@ class mixed_lasso_dual(mixed_lasso):
                               weights=self.weights,
                               offset=copy(self.offset),
                               initial=self.coefs,
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/simplex.py b/regreg/atoms/simplex.py
index 40258af..7ddb3aa 100644
--- a/regreg/atoms/simplex.py
+++ b/regreg/atoms/simplex.py
@@ -30,7 +30,7 @@ class simplex_constraint(atom):
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
@@ -164,7 +164,7 @@ class maximum(atom):
     def __copy__(self):
         return self.__class__(copy(self.shape),
                               offset=copy(self.offset),
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
     def __repr__(self):
         if self.quadratic.iszero:
diff --git a/regreg/atoms/slope.py b/regreg/atoms/slope.py
index 02e696c..b01a5c9 100644
--- a/regreg/atoms/slope.py
+++ b/regreg/atoms/slope.py
@@ -90,7 +90,7 @@ class slope(seminorm):
 
     def __copy__(self):
          return self.__class__(self.weights.copy(),
-                               quadratic=self.quadratic,
+                               quadratic=copy(self.quadratic),
                                initial=self.coefs,
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
diff --git a/regreg/atoms/sparse_group_block.py b/regreg/atoms/sparse_group_block.py
index 08efd10..9609c25 100644
--- a/regreg/atoms/sparse_group_block.py
+++ b/regreg/atoms/sparse_group_block.py
@@ -113,7 +113,7 @@ class sparse_group_block(l1_l2):
          return self.__class__(self.shape,
                                self.l1_weight,
                                self.l2_weight,
-                               quadratic=self.quadratic,
+                               quadratic=copy(self.quadratic),
                                initial=self.coefs,
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index 3085b4b..6590a5d 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -120,7 +120,7 @@ class sparse_group_lasso(group_lasso, seminorm):
          return self.__class__(self.groups.copy(),
                                self.lasso_weights.copy(),
                                weights=copy(self.weights),
-                               quadratic=self.quadratic,
+                               quadratic=copy(self.quadratic),
                                initial=self.coefs,
                                bound=copy(self.bound),
                                lagrange=copy(self.lagrange),
diff --git a/regreg/atoms/svd_norms.py b/regreg/atoms/svd_norms.py
index 89d2cff..55bd583 100644
--- a/regreg/atoms/svd_norms.py
+++ b/regreg/atoms/svd_norms.py
@@ -195,7 +195,7 @@ class svd_cone(cone):
         return self.__class__(copy(self.matrix_shape),
                               offset=copy(self.offset),
                               initial=self.coefs,
-                              quadratic=self.quadratic)
+                              quadratic=copy(self.quadratic))
     
 
     def __repr__(self):
diff --git a/regreg/atoms/weighted_atoms.py b/regreg/atoms/weighted_atoms.py
index 262d7af..efd2b72 100644
--- a/regreg/atoms/weighted_atoms.py
+++ b/regreg/atoms/weighted_atoms.py
@@ -52,7 +52,7 @@ class seminorm(unweighted_seminorm):
 
     def __copy__(self):
         return self.__class__(self.weights.copy(),
-                              quadratic=self.quadratic,
+                              quadratic=copy(self.quadratic),
                               initial=self.coefs,
                               bound=copy(self.bound),
                               lagrange=copy(self.lagrange),
-- 
2.43.0


From 5662b2f019e2233e50c1394ed5378328269ac21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 064/107] fix: smooth.solve reports the optimum of the problem
 it solved, and restores the quadratic after an error

---
 regreg/problems/composite.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index 3ceade1..e0642fb 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -224,14 +224,16 @@ class smooth(composite):
         if quadratic is None:
             quadratic = sq(0, 0, 0, 0)
         oldq, self.quadratic = self.quadratic, self.quadratic + quadratic
-        self.solver = FISTA(self)
-        self.solver.fit(**fit_args)
-        self.quadratic = oldq
+        try:
+            self.solver = FISTA(self)
+            self.solver.fit(**fit_args)
 
-        if return_optimum:
-            return self.objective(self.coefs), self.coefs
-        else:
-            return self.coefs
+            if return_optimum:
+                return self.objective(self.coefs), self.coefs
+            else:
+                return self.coefs
+        finally:
+            self.quadratic = oldq
 
 class smooth_conjugate(smooth):
 
-- 
2.43.0


From f0f9f9ce8b11816738f23a00d7c230e0f4f71d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 065/107] fix: simple_problem.solve restores the quadratic
 after an error

---
 regreg/problems/simple.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index c782fef..6430d9e 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -80,16 +80,18 @@ class simple_problem(composite):
         else:
             oldq = self.quadratic
 
-        solver = FISTA(self)
-        solver.composite.coefs[:] = self.coefs
-        self.solver_results = solver.fit(**fit_args)
-        self.final_step = solver.step
-
-        if return_optimum:
-            value = (self.objective(self.coefs), self.coefs)
-        else:
-            value = self.coefs
-        self.quadratic = oldq
+        try:
+            solver = FISTA(self)
+            solver.composite.coefs[:] = self.coefs
+            self.solver_results = solver.fit(**fit_args)
+            self.final_step = solver.step
+
+            if return_optimum:
+                value = (self.objective(self.coefs), self.coefs)
+            else:
+                value = self.coefs
+        finally:
+            self.quadratic = oldq
         return value
 
     
-- 
2.43.0


From 1574812f6b90d1a336f1e037bbc2beacfa1c4713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 066/107] fix: container.solve ignored the quadratic it was
 given

---
 regreg/problems/container.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 526e7ca..7b8f27f 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -156,18 +156,19 @@ class container(composite):
                 return primal.proximal(proxq)
 
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
+        oldq = self.quadratic
         if quadratic is not None:
-            oldq, newq = self.quadratic, self.quadratic + quadratic
-        else:
-            oldq = newq = self.quadratic
+            self.quadratic = oldq + quadratic
 
-        solver = FISTA(self)
-        solver.fit(**fit_args)
+        try:
+            solver = FISTA(self)
+            solver.fit(**fit_args)
 
-        if return_optimum:
-            value = (self.objective(self.coefs), self.coefs)
-        else:
-            value = self.coefs
-        self.quadratic = oldq
+            if return_optimum:
+                value = (self.objective(self.coefs), self.coefs)
+            else:
+                value = self.coefs
+        finally:
+            self.quadratic = oldq
         return value
 
-- 
2.43.0


From 7e570856dd9f5d573cde13d913c1f04939d16d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 067/107] fix: gengrad counted the smooth part of the problem
 twice

---
 regreg/problems/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index 6430d9e..8a11a14 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -106,7 +106,7 @@ def gengrad(simple_problem, lipschitz, tol=1.0e-8, max_its=1000, debug=False,
     while True:
         vnew, g = simple_problem.smooth_objective(coef, 'both')
         vnew += simple_problem.nonsmooth_objective(coef)
-        newcoef = simple_problem.solve(identity_quadratic(lipschitz, coef, g, 0))
+        newcoef = simple_problem.proximal(identity_quadratic(lipschitz, coef, g, 0))
         if coef_stop:
             coef_stop_check = (np.linalg.norm(coef-newcoef) <= tol * 
                                np.max([np.linalg.norm(coef),
-- 
2.43.0


From 32022d351acbe6a21174059060b1164bf7ff5a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 068/107] fix: container.proximal left out the quadratics of
 the problem and of its smooth parts

---
 regreg/problems/container.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 7b8f27f..6605611 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -45,9 +45,15 @@ class container(composite):
         self.transform, self.atom = stacked_dual(self.smooth_atoms[0].shape, *self.nonsmooth_atoms)
         self.coefs = np.zeros(self.transform.input_shape)
 
-        self.smoothq = identity_quadratic(0,0,0,0)
+    @property
+    def smoothq(self):
+        """
+        The quadratics of the smooth atoms.
+        """
+        smoothq = identity_quadratic(0,0,0,0)
         for atom in self.smooth_atoms:
-            self.smoothq += atom.quadratic
+            smoothq = smoothq + atom.quadratic
+        return smoothq
 
     def smooth_objective(self, x, mode='both', check_feasibility=False):
         """
@@ -91,6 +97,7 @@ class container(composite):
         """
 
         transform, atom = self.transform, self.atom
+        proxq = proxq + self.quadratic + self.smoothq
 
         if not (isinstance(transform, afidentity) or
                 isinstance(transform, afselector)):
@@ -106,7 +113,7 @@ class container(composite):
             prox_control = prox_defaults
 
             primal_objective = zero_nonsmooth(transform.input_shape)
-            primal_objective.quadratic = proxq + self.quadratic + self.smoothq
+            primal_objective.quadratic = proxq
             dual_objective = primal_objective.conjugate
             dualp = dual_problem(dual_objective,
                                  transform,
@@ -145,7 +152,6 @@ class container(composite):
                 return x - grad / lipschitz - transform.adjoint_map(dualopt.composite.coefs/lipschitz)
 
         else:
-            proxq = proxq + self.quadratic + self.smoothq
             primal = atom.conjugate
             lipschitz, x, grad = proxq.coef, proxq.center, proxq.linear_term
             if isinstance(transform, afselector):
-- 
2.43.0


From 48561fa3326e9d3bb7ac51febb3a24d0d4816fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 069/107] fix: admm uses the adjoint of the transform in the
 loss update

---
 regreg/problems/admm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index 4cf141b..bee94e1 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -56,7 +56,7 @@ class admm_problem(object):
 
         self.fit_args = fit_args # for the smooth_sum FISTA run
 
-        assert (self.loss.shape == self.transform.output_shape)
+        assert (self.loss.shape == self.transform.input_shape)
 
     def update_loss_coefs(self):
         """
@@ -68,7 +68,7 @@ class admm_problem(object):
                             self.transform.affine_offset)
         if alpha is None:
             alpha = 0
-        linear_term = self.linear_transform.dot(y - rho * (z - alpha))
+        linear_term = self.linear_transform.adjoint_map(y - rho * (z - alpha))
         self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
                                                        **self.fit_args)
 
-- 
2.43.0


From 6475d07fe7bdb0ef4375d71385d0493b91fceb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:13 +0000
Subject: [PATCH 070/107] fix: dual_problem.solve evaluated the dual objective
 at the primal point

---
 regreg/problems/dual_problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/dual_problem.py b/regreg/problems/dual_problem.py
index afefb88..19ae417 100644
--- a/regreg/problems/dual_problem.py
+++ b/regreg/problems/dual_problem.py
@@ -81,8 +81,10 @@ class dual_problem(composite):
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
         solver = FISTA(self)
         solver.fit(**fit_args)
+        # the primal point that belongs to the solution
+        self.smooth_objective(self.coefs, mode='grad')
         if return_optimum:
-            return self.objective(self.primal), self.primal
+            return self.objective(self.coefs), self.primal
         return self.primal
 
     def latexify(self, var=None):
-- 
2.43.0


From 827e40732d4f740f997fc6039d14cf8179ea8a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 071/107] fix: dual_problem.solve ignored the quadratic it was
 given

---
 regreg/problems/dual_problem.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/regreg/problems/dual_problem.py b/regreg/problems/dual_problem.py
index 19ae417..b3d801d 100644
--- a/regreg/problems/dual_problem.py
+++ b/regreg/problems/dual_problem.py
@@ -45,11 +45,6 @@ class dual_problem(composite):
         self.affine_fc = affine_smooth(self.f_conjugate, scalar_multiply(adjoint(self.transform), -1))
         self.coefs = np.zeros(self.affine_fc.shape)
 
-    # the quadratic is delegated to the individual parts
-    @property
-    def quadratic(self):
-        return identity_quadratic(0,0,0,0)
-
     @staticmethod
     def fromprimal(f, *g):
         transform, separable_dual_atom = stacked_dual(f.shape, *g)
@@ -69,23 +64,30 @@ class dual_problem(composite):
     def nonsmooth_objective(self, x, check_feasibility=False):
         out = self.atom.nonsmooth_objective(x, 
                                             check_feasibility=check_feasibility)
-        return out + self.affine_fc.nonsmooth_objective(x, 
-                                                        check_feasibility=check_feasibility)
+        out = out + self.affine_fc.nonsmooth_objective(x, 
+                                                       check_feasibility=check_feasibility)
+        return out + self.quadratic.objective(x, 'func')
 
     def proximal(self, proxq, prox_control=None):
         """
         The proximal function for the dual problem
         """
-        return self.atom.proximal(proxq, prox_control=prox_control)
+        return self.atom.proximal(proxq + self.quadratic, prox_control=prox_control)
 
     def solve(self, quadratic=None, return_optimum=False, **fit_args):
-        solver = FISTA(self)
-        solver.fit(**fit_args)
-        # the primal point that belongs to the solution
-        self.smooth_objective(self.coefs, mode='grad')
-        if return_optimum:
-            return self.objective(self.coefs), self.primal
-        return self.primal
+        oldq = self.quadratic
+        if quadratic is not None:
+            self.quadratic = oldq + quadratic
+        try:
+            solver = FISTA(self)
+            solver.fit(**fit_args)
+            # the primal point that belongs to the solution
+            self.smooth_objective(self.coefs, mode='grad')
+            if return_optimum:
+                return self.objective(self.coefs), self.primal
+            return self.primal
+        finally:
+            self.quadratic = oldq
 
     def latexify(self, var=None):
         template_dict = self.objective_vars.copy()
-- 
2.43.0


From ad8c70101f92ca912f9af2e424d04bd28e1eb835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 072/107] fix: container of nonsmooth atoms only raised an
 IndexError

---
 regreg/problems/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 6605611..1a89861 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -42,7 +42,8 @@ class container(composite):
         if len(self.nonsmooth_atoms) == 0:
             self.nonsmooth_atoms = [zero_nonsmooth(self.smooth_atoms[0].shape)]
 
-        self.transform, self.atom = stacked_dual(self.smooth_atoms[0].shape, *self.nonsmooth_atoms)
+        # there is at least one nonsmooth atom, these carry the shape
+        self.transform, self.atom = stacked_dual(None, *self.nonsmooth_atoms)
         self.coefs = np.zeros(self.transform.input_shape)
 
     @property
-- 
2.43.0


From f9fa98bdadb0f61c2b059ca5c511a79a647a6f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 073/107] fix: admm_problem ignored the quadratic it was given

---
 regreg/problems/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index bee94e1..6128827 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -69,7 +69,7 @@ class admm_problem(object):
         if alpha is None:
             alpha = 0
         linear_term = self.linear_transform.adjoint_map(y - rho * (z - alpha))
-        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0),
+        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0) + self.quadratic,
                                                        **self.fit_args)
 
     def update_atom_coefs(self):
-- 
2.43.0


From 17164f396af0f2a1a6ee10c1d4d8bd87e84906d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:59 +0000
Subject: [PATCH 074/107] fix: quasi_newton left the quadratic of the smooth
 atom out of its subproblem

---
 regreg/problems/newton.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/newton.py b/regreg/problems/newton.py
index ac4fd46..5b33a15 100644
--- a/regreg/problems/newton.py
+++ b/regreg/problems/newton.py
@@ -244,7 +244,7 @@ class quasi_newton(object):
         # warm start the subproblem
         self.quadratic_problem.coefs[:] = self.coefs 
 
-        quad_soln = self.quadratic_problem.solve(quad + self.quadratic,
+        quad_soln = self.quadratic_problem.solve(quad + self.quadratic + self.smooth_atom.quadratic,
                                                  **fit_args)
         direction = quad_soln - self.coefs
         return direction, grad, quad_soln 
-- 
2.43.0


From a22b67c24ef4e07d4fc3177b6730cff7ba35c54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 075/107] fix: container.proximal ignored the transform applied
 after a selector

---
 regreg/problems/container.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/regreg/problems/container.py b/regreg/problems/container.py
index 1a89861..a2e0386 100644
--- a/regreg/problems/container.py
+++ b/regreg/problems/container.py
@@ -13,6 +13,20 @@ from ..atoms.cones import zero_constraint, zero as zero_nonsmooth, affine_cone
 
 from ..identity_quadratic import identity_quadratic
 
+def is_restriction(transform):
+    """
+    Does the transform pick some coordinates, each at most once,
+    and nothing else? Then a proximal map of the selected coordinates
+    can be used directly.
+    """
+    if (not isinstance(transform, afselector) or 
+        not isinstance(transform.affine_transform, afidentity) or
+        transform.reshape is not None):
+        return False
+    count = np.zeros(transform.input_shape)
+    np.add.at(count, transform.index_obj, 1)
+    return np.all(count <= 1)
+
 class container(composite):
     """
     A container class for storing/combining seminorm_atom classes
@@ -101,7 +115,7 @@ class container(composite):
         proxq = proxq + self.quadratic + self.smoothq
 
         if not (isinstance(transform, afidentity) or
-                isinstance(transform, afselector)):
+                is_restriction(transform)):
             #Default fitting parameters
             prox_defaults = {'max_its': 5000,
                              'min_its': 5,
@@ -156,7 +170,7 @@ class container(composite):
             primal = atom.conjugate
             lipschitz, x, grad = proxq.coef, proxq.center, proxq.linear_term
             if isinstance(transform, afselector):
-                z = x - grad / lipschitz
+                z = x - grad / lipschitz + np.zeros(transform.input_shape)
                 z[transform.index_obj] = primal.proximal(proxq[transform.index_obj])
                 return z
             else:
-- 
2.43.0


From 18c372626e5e3279ef60bfcc3219927c3014f7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 076/107] fix: admm_problem left out the quadratic of the loss

---
 regreg/problems/admm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/problems/admm.py b/regreg/problems/admm.py
index 6128827..3788ecb 100644
--- a/regreg/problems/admm.py
+++ b/regreg/problems/admm.py
@@ -69,7 +69,7 @@ class admm_problem(object):
         if alpha is None:
             alpha = 0
         linear_term = self.linear_transform.adjoint_map(y - rho * (z - alpha))
-        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0) + self.quadratic,
+        self.loss_coefs[:] = self.augmented_loss.solve(quadratic=identity_quadratic(0, 0, linear_term, 0) + self.quadratic + self.loss.quadratic,
                                                        **self.fit_args)
 
     def update_atom_coefs(self):
-- 
2.43.0


From 7d3f76a6428f1a80bc6fb3539ebcd82423def10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 077/107] fix: nesta left out the quadratic of the smooth atom

---
 regreg/problems/simple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/regreg/problems/simple.py b/regreg/problems/simple.py
index 8a11a14..c074f23 100644
--- a/regreg/problems/simple.py
+++ b/regreg/problems/simple.py
@@ -196,6 +196,8 @@ def nesta(smooth_atom, proximal_atom, conjugate_atom, epsilon=None,
         smoothed = conjugate_atom.smoothed(identity_quadratic(eps, dual_coef, 0, 0))
         if smooth_atom is not None:
             final_smooth = smooth_sum([smooth_atom, smoothed])
+            # a sum has its own quadratic only
+            final_smooth.quadratic = smooth_atom.quadratic
         else:
             final_smooth = smoothed
         if proximal_atom is not None:
-- 
2.43.0


From 0bd31dbcf227ee8dfe9efd9e555afec36d7f79c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 078/107] fix: separable.proximal with shapes reshaped the
 linear term but not the center

---
 regreg/problems/separable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/separable.py b/regreg/problems/separable.py
index eae94b5..50f8623 100644
--- a/regreg/problems/separable.py
+++ b/regreg/problems/separable.py
@@ -142,7 +142,9 @@ class separable(atom):
                                                     self.assign_shapes):
             proxq_group = proxq[group]
             if shape is not None:
-                proxq_group.linear_term.shape = shape
+                proxq_group = proxq_group.collapsed()
+                if np.shape(proxq_group.linear_term) != ():
+                    proxq_group.linear_term = proxq_group.linear_term.reshape(shape)
             v[group] = atom.proximal(proxq_group, prox_control).reshape(assign_shape)
         return v
 
-- 
2.43.0


From d9a3c430f3a16a2edb67ca1790ad7b59ed4b0322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:31 +0000
Subject: [PATCH 079/107] fix: dual_problem left out the quadratic of the
 conjugate

---
 regreg/problems/dual_problem.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/regreg/problems/dual_problem.py b/regreg/problems/dual_problem.py
index b3d801d..892be34 100644
--- a/regreg/problems/dual_problem.py
+++ b/regreg/problems/dual_problem.py
@@ -59,6 +59,21 @@ class dual_problem(composite):
         # retain a reference
         if mode in ['both', 'grad']:
             self.primal = self.affine_fc.grad
+
+        # the quadratic of f_conjugate is not part of its smooth objective
+        q = self.f_conjugate.quadratic
+        if not q.iszero:
+            arg = -self.transform.adjoint_map(x)
+            qv, qg = q.objective(arg, 'both')
+            if mode in ['both', 'grad']:
+                self.primal = self.primal + qg
+                qg = -self.transform.linear_map(qg)
+            if mode == 'both':
+                v = v[0] + qv, v[1] + qg
+            elif mode == 'grad':
+                v = v + qg
+            else:
+                v = v + qv
         return v
 
     def nonsmooth_objective(self, x, check_feasibility=False):
-- 
2.43.0


From e0cbf0db5884f7a318c132e1c14644c70ee5b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:12 +0000
Subject: [PATCH 080/107] fix: smooth.solve of a glm reported the loss without
 the quadratic as optimum

---
 regreg/problems/composite.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/regreg/problems/composite.py b/regreg/problems/composite.py
index e0642fb..e8784db 100644
--- a/regreg/problems/composite.py
+++ b/regreg/problems/composite.py
@@ -229,7 +229,8 @@ class smooth(composite):
             self.solver.fit(**fit_args)
 
             if return_optimum:
-                return self.objective(self.coefs), self.coefs
+                # `objective` of a glm is the loss without the quadratic
+                return composite.objective(self, self.coefs), self.coefs
             else:
                 return self.coefs
         finally:
-- 
2.43.0


From d2f475d98a7de72e7dea6f02316b82b18be2902a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 081/107] fix: score of an estimator overwrote case weights of
 y, ignored sample_weight without case weights

---
 regreg/sklearn/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 3e5dabc..10f8f4e 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -171,8 +171,11 @@ class base_mixin(object):
             predictions -= offset   # this is how offsets are incorporated
                                     # in regreg
         if sample_weight is not None:
+            # `case_weights` is a view of a column of `y`: do not modify in place
             if case_weights is not None:
-                case_weights *= sample_weight
+                case_weights = case_weights * sample_weight
+            else:
+                case_weights = np.asarray(sample_weight)
         return self._saturated_score(predictions, response, case_weights=case_weights)
 
     def _construct_atom(self):
-- 
2.43.0


From 4495f24bfe1d527f76267ad8d4d896668b32c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 082/107] fix: packed response of one case was squeezed to a
 scalar

---
 regreg/sklearn/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 10f8f4e..3b99b7d 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -216,7 +216,9 @@ class base_mixin(object):
                 offset = None
 
             if neg_index < 0:
-                response = np.squeeze(y[:,:neg_index])
+                response = y[:,:neg_index]
+                if response.shape[1] == 1:
+                    response = response[:,0]
 
         return response, case_weights, offset
 
-- 
2.43.0


From b12d9cde9a286878572fdd194d67f890021700e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 083/107] fix: accuracy of a classifier compared linear
 predictors, not labels, with the response

---
 regreg/sklearn/cloglog.py     | 3 ++-
 regreg/sklearn/logistic.py    | 3 ++-
 regreg/sklearn/multinomial.py | 3 ++-
 regreg/sklearn/probit.py      | 3 ++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 3ff4c35..6eb1a55 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -119,7 +119,8 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = predictions > 0
+                return np.mean(labels == successes)
             return np.nan
 
         def predict_proba(self, X):
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 617f155..db9c89e 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -117,7 +117,8 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = predictions > 0
+                return np.mean(labels == successes)
             return np.nan
 
         def predict_proba(self, X):
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index fd19257..a754531 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -96,7 +96,8 @@ if have_sklearn:
             successes = response
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = np.argmax(predictions, 1)
+                return np.mean(labels == np.argmax(successes, 1))
             return np.nan
 
         def predict(self, X):
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index c5b1ba8..25e31f2 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -118,7 +118,8 @@ if have_sklearn:
                 trials = None
 
             if self.score_method == 'accuracy':
-                return np.mean(predictions == successes)
+                labels = predictions > 0
+                return np.mean(labels == successes)
             return np.nan
 
         def predict_proba(self, X):
-- 
2.43.0


From ff81b27154d920035882d23af481e5d9831e46e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 084/107] fix: accuracy ignored case weights and sample weights

---
 regreg/sklearn/cloglog.py     | 4 ++--
 regreg/sklearn/logistic.py    | 4 ++--
 regreg/sklearn/multinomial.py | 2 +-
 regreg/sklearn/probit.py      | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index 6eb1a55..d3fde4e 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -73,7 +73,7 @@ if have_sklearn:
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-                return np.mean(labels == response)
+                return np.average(labels == response, weights=case_weights)
             else:
                 return np.nan
 
@@ -120,7 +120,7 @@ if have_sklearn:
 
             if self.score_method == 'accuracy':
                 labels = predictions > 0
-                return np.mean(labels == successes)
+                return np.average(labels == successes, weights=case_weights)
             return np.nan
 
         def predict_proba(self, X):
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index db9c89e..422de44 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -71,7 +71,7 @@ if have_sklearn:
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-                return np.mean(labels == response)
+                return np.average(labels == response, weights=case_weights)
             else:
                 return np.nan
 
@@ -118,7 +118,7 @@ if have_sklearn:
 
             if self.score_method == 'accuracy':
                 labels = predictions > 0
-                return np.mean(labels == successes)
+                return np.average(labels == successes, weights=case_weights)
             return np.nan
 
         def predict_proba(self, X):
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index a754531..3ea055b 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -97,7 +97,7 @@ if have_sklearn:
 
             if self.score_method == 'accuracy':
                 labels = np.argmax(predictions, 1)
-                return np.mean(labels == np.argmax(successes, 1))
+                return np.average(labels == np.argmax(successes, 1), weights=case_weights)
             return np.nan
 
         def predict(self, X):
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index 25e31f2..ffa72ab 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -72,7 +72,7 @@ if have_sklearn:
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-                return np.mean(labels == response)
+                return np.average(labels == response, weights=case_weights)
             else:
                 return np.nan
 
@@ -119,7 +119,7 @@ if have_sklearn:
 
             if self.score_method == 'accuracy':
                 labels = predictions > 0
-                return np.mean(labels == successes)
+                return np.average(labels == successes, weights=case_weights)
             return np.nan
 
         def predict_proba(self, X):
-- 
2.43.0


From f35204735219c6d435aef40320fdd0e86f81b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 085/107] fix: mean_deviance of cloglog was the total deviance

---
 regreg/sklearn/cloglog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index d3fde4e..e3328a4 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -64,7 +64,7 @@ if have_sklearn:
             if self.score_method == 'deviance':
                 return -2 * loss(predictions)
             elif self.score_method == 'mean_deviance':
-                return -2 * loss(predictions)
+                return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
                 pi_0 = response.mean()
-- 
2.43.0


From 2406627a08dd071828c4bf0c75069ccb5e04beb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 086/107] fix: R2 of cox compared twice the loss with the null
 loss

---
 regreg/sklearn/cox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/cox.py b/regreg/sklearn/cox.py
index ccc1427..1306534 100644
--- a/regreg/sklearn/cox.py
+++ b/regreg/sklearn/cox.py
@@ -54,7 +54,7 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                SST = loss(response.mean() * np.ones(response.shape[0])) # X: correct for Cox?
+                SST = 2 * loss(response.mean() * np.ones(response.shape[0])) # X: correct for Cox?
                 return 1 - SSE / SST
             elif self.score_method == 'C-index':
                 return np.nan
-- 
2.43.0


From 0a73de08872df38eeb18ebf08c72835cf65470c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 087/107] fix: multinomial predict_proba normalised the wrong
 axis

---
 regreg/sklearn/multinomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 3ea055b..bf61f70 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -138,8 +138,8 @@ if have_sklearn:
 
             """
             linpred = X.dot(self._coefs)
-            exp_lin = np.exp(linpred)
-            return exp_lin / exp_lin.sum(1)
+            exp_lin = np.exp(linpred - linpred.max(1)[:,None])
+            return exp_lin / exp_lin.sum(1)[:,None]
 
     class sklearn_multinomial_classifier_lagrange(sklearn_multinomial_classifier):
         pass
-- 
2.43.0


From e083d2ab35f060f4727ac6ef693872ae897fa54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:15 +0000
Subject: [PATCH 088/107] fix: logistic predict_proba was nan for large linear
 predictors

---
 regreg/sklearn/logistic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 422de44..b0514e4 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -139,8 +139,8 @@ if have_sklearn:
 
             """
             linpred = X.dot(self._coefs)
-            exp_lin = np.exp(linpred)
-            return exp_lin / (1 + exp_lin)
+            exp_lin = np.exp(-np.fabs(linpred)) # does not overflow
+            return np.where(linpred >= 0, 1, exp_lin) / (1 + exp_lin)
 
     class sklearn_logistic_classifier_lagrange(sklearn_logistic_classifier):
         pass
-- 
2.43.0


From be2779a9382af1aafa35415b674cdde2b8b03fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 089/107] fix: R2 of cloglog used the log-log instead of the
 complementary log-log link for the null model

---
 regreg/sklearn/cloglog.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index e3328a4..b6e2f3a 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -1,5 +1,5 @@
 import numpy as np
-from scipy.stats import gumbel_r
+from scipy.stats import gumbel_l
 
 have_sklearn = True
 try:
@@ -68,7 +68,7 @@ if have_sklearn:
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
                 pi_0 = response.mean()
-                cloglog_0 = gumbel_r.ppf(pi_0)
+                cloglog_0 = gumbel_l.ppf(pi_0)
                 SST = 2 * loss(cloglog_0 * np.ones_like(response)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
-- 
2.43.0


From c7695060937ab0f8dee3463b8a146a073446a66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 090/107] fix: null predictions of the multinomial R2 had the
 wrong shape

---
 regreg/sklearn/multinomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index bf61f70..759ada9 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -56,7 +56,7 @@ if have_sklearn:
                 SSE = 2 * loss(predictions)
                 pi_0 = np.mean(response, 0)
                 multinom_0 = np.log(pi_0)
-                SST = 2 * loss(np.multiply.outer(multinom_0,  np.ones_like(response)))
+                SST = 2 * loss(np.multiply.outer(np.ones(response.shape[0]), multinom_0))
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-- 
2.43.0


From 489ad9e881f011a8540c498d1b2fab07fbcebd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 091/107] fix: R2 of binary responses with trials averaged
 successes and trials together

---
 regreg/sklearn/cloglog.py  | 6 ++++--
 regreg/sklearn/logistic.py | 6 ++++--
 regreg/sklearn/probit.py   | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index b6e2f3a..dd34e2e 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -67,9 +67,11 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean()
+                if trials is not None:
+                    pi_0 = pi_0 / trials.mean()
                 cloglog_0 = gumbel_l.ppf(pi_0)
-                SST = 2 * loss(cloglog_0 * np.ones_like(response)) # X: correct for cloglog?
+                SST = 2 * loss(cloglog_0 * np.ones(successes.shape)) # X: correct for cloglog?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index b0514e4..1d7e63f 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -65,9 +65,11 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean()
+                if trials is not None:
+                    pi_0 = pi_0 / trials.mean()
                 logit_0 = np.log(pi_0 / (1 - pi_0))
-                SST = 2 * loss(logit_0 * np.ones_like(response)) # X: correct for logistic?
+                SST = 2 * loss(logit_0 * np.ones(successes.shape)) # X: correct for logistic?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index ffa72ab..ca45981 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -66,9 +66,11 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = response.mean()
+                pi_0 = successes.mean()
+                if trials is not None:
+                    pi_0 = pi_0 / trials.mean()
                 probit_0 = normal_dbn.ppf(pi_0)
-                SST = 2 * loss(probit_0 * np.ones_like(response)) # X: correct for probit?
+                SST = 2 * loss(probit_0 * np.ones(successes.shape)) # X: correct for probit?
                 return 1 - SSE / SST
             elif self.score_method == 'accuracy':
                 labels = predictions > 0
-- 
2.43.0


From dfc11fb030644dd540871ff987e81a78a7df1d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 092/107] fix: null model of R2 ignored case weights and sample
 weights

---
 regreg/sklearn/cloglog.py     | 4 ++--
 regreg/sklearn/gaussian.py    | 2 +-
 regreg/sklearn/huber.py       | 2 +-
 regreg/sklearn/huber_svm.py   | 2 +-
 regreg/sklearn/logistic.py    | 4 ++--
 regreg/sklearn/multinomial.py | 2 +-
 regreg/sklearn/probit.py      | 4 ++--
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index dd34e2e..d92fa37 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -67,9 +67,9 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = successes.mean()
+                pi_0 = np.average(successes, weights=case_weights)
                 if trials is not None:
-                    pi_0 = pi_0 / trials.mean()
+                    pi_0 = pi_0 / np.average(trials, weights=case_weights)
                 cloglog_0 = gumbel_l.ppf(pi_0)
                 SST = 2 * loss(cloglog_0 * np.ones(successes.shape)) # X: correct for cloglog?
                 return 1 - SSE / SST
diff --git a/regreg/sklearn/gaussian.py b/regreg/sklearn/gaussian.py
index 8e41bec..04a1188 100644
--- a/regreg/sklearn/gaussian.py
+++ b/regreg/sklearn/gaussian.py
@@ -46,7 +46,7 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                SST = 2 * loss(response.mean() * np.ones_like(response))
+                SST = 2 * loss(np.average(response, weights=case_weights) * np.ones(response.shape))
                 return 1 - SSE / SST
             else:
                 return np.nan
diff --git a/regreg/sklearn/huber.py b/regreg/sklearn/huber.py
index 8417b84..4fc3edc 100644
--- a/regreg/sklearn/huber.py
+++ b/regreg/sklearn/huber.py
@@ -102,7 +102,7 @@ if have_sklearn:
                 return -loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = loss(predictions)
-                SST = loss(response.mean() * np.ones_like(response)) # X: correct for huber?
+                SST = loss(np.average(response, weights=case_weights) * np.ones(response.shape)) # X: correct for huber?
                 return 1 - SSE / SST
             else:
                 return np.nan
diff --git a/regreg/sklearn/huber_svm.py b/regreg/sklearn/huber_svm.py
index 994f93e..154a2fc 100644
--- a/regreg/sklearn/huber_svm.py
+++ b/regreg/sklearn/huber_svm.py
@@ -103,7 +103,7 @@ if have_sklearn:
                 return -loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = loss(predictions)
-                SST = loss(response.mean() * np.ones_like(response)) # X: right for huber_svm?
+                SST = loss(np.average(response, weights=case_weights) * np.ones(response.shape)) # X: right for huber_svm?
                 return 1 - SSE / SST
             else:
                 return np.nan
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index 1d7e63f..bd892c6 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -65,9 +65,9 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = successes.mean()
+                pi_0 = np.average(successes, weights=case_weights)
                 if trials is not None:
-                    pi_0 = pi_0 / trials.mean()
+                    pi_0 = pi_0 / np.average(trials, weights=case_weights)
                 logit_0 = np.log(pi_0 / (1 - pi_0))
                 SST = 2 * loss(logit_0 * np.ones(successes.shape)) # X: correct for logistic?
                 return 1 - SSE / SST
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 759ada9..3c3f122 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -54,7 +54,7 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = np.mean(response, 0)
+                pi_0 = np.average(response, 0, weights=case_weights)
                 multinom_0 = np.log(pi_0)
                 SST = 2 * loss(np.multiply.outer(np.ones(response.shape[0]), multinom_0))
                 return 1 - SSE / SST
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index ca45981..09fd87e 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -66,9 +66,9 @@ if have_sklearn:
                 return -2 * loss(predictions) / predictions.shape[0]
             elif self.score_method == 'R2':
                 SSE = 2 * loss(predictions)
-                pi_0 = successes.mean()
+                pi_0 = np.average(successes, weights=case_weights)
                 if trials is not None:
-                    pi_0 = pi_0 / trials.mean()
+                    pi_0 = pi_0 / np.average(trials, weights=case_weights)
                 probit_0 = normal_dbn.ppf(pi_0)
                 SST = 2 * loss(probit_0 * np.ones(successes.shape)) # X: correct for probit?
                 return 1 - SSE / SST
-- 
2.43.0


From 03f47128a522e786709f83c67280a50e403898b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 093/107] fix: lagrange classifiers did not pass the score to
 the atom constructor

---
 regreg/sklearn/base.py        | 17 ++++++++---------
 regreg/sklearn/cloglog.py     |  2 +-
 regreg/sklearn/logistic.py    |  2 +-
 regreg/sklearn/multinomial.py |  2 +-
 regreg/sklearn/probit.py      |  2 +-
 5 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 3b99b7d..3455caa 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -513,15 +513,14 @@ class classifier_lagrange_mixin(classifier_mixin, lagrange_mixin):
 
         """
 
-        lagrange_mixin(self, 
-                       atom_constructor, 
-                       atom_params, 
-                       case_weights=case_weights,
-                       offset=offset,
-                       enet_alpha=enet_alpha,
-                       coef=coef, 
-                       score_method=score_method,
-                       initial=initial)
+        lagrange_mixin.__init__(self,
+                                atom_constructor,
+                                atom_params,
+                                case_weights=case_weights,
+                                enet_alpha=enet_alpha,
+                                coef=coef,
+                                score_method=score_method,
+                                initial=initial)
                        
 
 class survival_mixin(base_mixin):
diff --git a/regreg/sklearn/cloglog.py b/regreg/sklearn/cloglog.py
index d92fa37..4fa842e 100644
--- a/regreg/sklearn/cloglog.py
+++ b/regreg/sklearn/cloglog.py
@@ -145,6 +145,6 @@ if have_sklearn:
             linpred = X.dot(self._coefs)
             return 1 - np.exp(-np.exp(linpred))
 
-    class sklearn_cloglog_classifier_lagrange(sklearn_cloglog_classifier):
+    class sklearn_cloglog_classifier_lagrange(sklearn_classifier_lagrange, sklearn_cloglog_classifier):
         pass
 
diff --git a/regreg/sklearn/logistic.py b/regreg/sklearn/logistic.py
index bd892c6..c7c1268 100644
--- a/regreg/sklearn/logistic.py
+++ b/regreg/sklearn/logistic.py
@@ -144,6 +144,6 @@ if have_sklearn:
             exp_lin = np.exp(-np.fabs(linpred)) # does not overflow
             return np.where(linpred >= 0, 1, exp_lin) / (1 + exp_lin)
 
-    class sklearn_logistic_classifier_lagrange(sklearn_logistic_classifier):
+    class sklearn_logistic_classifier_lagrange(sklearn_classifier_lagrange, sklearn_logistic_classifier):
         pass
 
diff --git a/regreg/sklearn/multinomial.py b/regreg/sklearn/multinomial.py
index 3c3f122..6d05287 100644
--- a/regreg/sklearn/multinomial.py
+++ b/regreg/sklearn/multinomial.py
@@ -141,6 +141,6 @@ if have_sklearn:
             exp_lin = np.exp(linpred - linpred.max(1)[:,None])
             return exp_lin / exp_lin.sum(1)[:,None]
 
-    class sklearn_multinomial_classifier_lagrange(sklearn_multinomial_classifier):
+    class sklearn_multinomial_classifier_lagrange(sklearn_classifier_lagrange, sklearn_multinomial_classifier):
         pass
 
diff --git a/regreg/sklearn/probit.py b/regreg/sklearn/probit.py
index 09fd87e..3b2bb44 100644
--- a/regreg/sklearn/probit.py
+++ b/regreg/sklearn/probit.py
@@ -144,6 +144,6 @@ if have_sklearn:
             linpred = X.dot(self._coefs)
             return normal_dbn.cdf(linpred)
 
-    class sklearn_probit_classifier_lagrange(sklearn_probit_classifier):
+    class sklearn_probit_classifier_lagrange(sklearn_classifier_lagrange, sklearn_probit_classifier):
         pass
 
-- 
2.43.0


From 34d8a0aa051d5f5d1595c7629040e8a60de2241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:06 +0000
Subject: [PATCH 094/107] fix: fit of an estimator ignored its quadratic

---
 regreg/sklearn/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/sklearn/base.py b/regreg/sklearn/base.py
index 3455caa..5ac6e48 100644
--- a/regreg/sklearn/base.py
+++ b/regreg/sklearn/base.py
@@ -124,7 +124,9 @@ class base_mixin(object):
         problem = simple_problem(loglike, atom_)
         if self.initial is not None:
             problem.coefs[:] = self.initial
-        self._coefs = problem.solve(**self.solve_args)
+        solve_args = {'quadratic':self.quadratic}
+        solve_args.update(self.solve_args)
+        self._coefs = problem.solve(**solve_args)
         return self
 
     def predict(self, X):
-- 
2.43.0


From 64c7ca566f8cdebfdc00936f880b43ae1f39ee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:03 +0000
Subject: [PATCH 095/107] fix: strong_rules never updated unpenalized variables

---
 regreg/paths/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index f1ace48..7bbb350 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -245,7 +245,7 @@ def strong_rules(path_obj,
     dev_explained = [dev_solution]
 
     all_failing = np.zeros(path_obj.group_shape, np.bool)
-    subproblem_set = path_obj.updated_ever_active([])
+    subproblem_set = path_obj.updated_ever_active(path_obj.unpenalized[1]) # unpenalized terms always in
 
     for lagrange_new, lagrange_cur in zip(lagrange_seq[1:], 
                                           lagrange_seq[:-1]):
-- 
2.43.0


From 7fec13c082e8905844f664b1ea80cabf5c03e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 096/107] fix: basil overwrote the gradient of its initial data

---
 regreg/paths/basil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/paths/basil.py b/regreg/paths/basil.py
index 0fc2327..f93d70c 100644
--- a/regreg/paths/basil.py
+++ b/regreg/paths/basil.py
@@ -116,7 +116,9 @@ def basil(path_obj,
 
     lagrange_solved, solutions, candidate_set = [np.inf], [], []
 
-    cur_data = initial_data
+    # the inner loop overwrites the gradient
+
+    cur_data = tuple([np.array(data) for data in initial_data])
 
     while True:
         
-- 
2.43.0


From 1b3f1aef262daa0b39c3437bbe576da1f640a119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 097/107] fix: warm_start wrote in its solve_args argument

---
 regreg/paths/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/regreg/paths/__init__.py b/regreg/paths/__init__.py
index 7bbb350..77c8d54 100644
--- a/regreg/paths/__init__.py
+++ b/regreg/paths/__init__.py
@@ -380,6 +380,7 @@ def warm_start(path_obj,
                solve_args={}):
     
     solution, _ = initial_data
+    solve_args = dict(solve_args) # not to modify the argument
 
     # basic setup
 
-- 
2.43.0


From ae0bd2be77f75049412dbc11162db543a612aaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 098/107] fix: ridge term of sparse group lasso path was not
 scaled by lagrange

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 680c16e..47cef1b 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -66,7 +66,7 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self._unpenalized_vars = _candidate_bool(self.penalty.groups, 
                                                  unpenalized_groups)
-        self._penalized_vars = np.zeros(self.shape, np.bool)
+        self._penalized_vars = np.ones(self.shape, np.bool)
         self._penalized_vars[self._unpenalized_vars] = 0
 
         if np.any(unpenalized_idx):
-- 
2.43.0


From f0d084e278711fa7d450d5764e720419ef238d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 099/107] fix: unpenalized groups of sparse group lasso path

---
 regreg/paths/sparse_group_lasso.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 47cef1b..187dae2 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -111,8 +111,8 @@ class sparse_group_lasso_path(group_lasso_path):
             self._unpen_groups = []
             self._unpen_group_idx = np.zeros(self.group_shape, np.bool)
             for i, g in enumerate(self.penalty._sorted_groupids):
-                unpen_group = (self.penalty.weights[g] == 0 +
-                               np.any(self.penalty.lasso_weights[self.penalty.groups == g]
+                unpen_group = (self.penalty.weights[g] == 0 and
+                               np.all(self.penalty.lasso_weights[self.penalty.groups == g]
                                       == 0))
                 self._unpen_group_idx[i] = unpen_group
                 if unpen_group:
@@ -415,7 +415,7 @@ def _check_KKT(sglasso,
             inactive_results[i] = _gauge_function_dual_strong(subgrad_g, l1weight_g,
                                                               l2weight_g)[0] / lagrange
         else:   # unpenalized
-            active_results[i] = (np.linalg.norm(subgrad_g) > tol * sqlasso.l1weight_g.mean()) * UNPENALIZED
+            active_results[i] = (np.linalg.norm(subgrad_g) > tol * np.mean(sglasso.lasso_weights)) * UNPENALIZED
 
     inactive_ranks = inactive_results.shape[0] - rankdata(inactive_results)
     inactive_ranks[inactive_results <= 1 + tol] = -1
-- 
2.43.0


From c441f6e440dafa85eccc99ab578ae2da64e7d8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 100/107] fix: penalty of sparse group lasso path kept an
 unscaled lasso penalty

---
 regreg/paths/sparse_group_lasso.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 187dae2..f39a2cf 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -43,11 +43,10 @@ class sparse_group_lasso_path(group_lasso_path):
         # the penalty parameters
 
         self.alpha = alpha
-        self.penalty = sparse_group_lasso(groups, lasso_weights, weights=weights, lagrange=1)
+        self.penalty = sparse_group_lasso(groups, np.asarray(lasso_weights) * l1_alpha, weights=weights, lagrange=1)
         l2_weight = 1 - l1_alpha
         for g in self.penalty.weights.keys():
             self.penalty.set_weight(g, l2_weight * self.penalty.weights[g])
-        self.penalty.lasso_weights = self.penalty.lasso_weights * l1_alpha
         self.group_shape = (len(np.unique(self.penalty.groups)),)
         self.shape = self.penalty.shape
 
-- 
2.43.0


From b35797e53e7421f9b4d15ca2f7a36a237b47d1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 101/107] fix: subsample of sparse group lasso path scaled its
 weights twice

---
 regreg/paths/sparse_group_lasso.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index f39a2cf..344961e 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -44,6 +44,7 @@ class sparse_group_lasso_path(group_lasso_path):
 
         self.alpha = alpha
         self.penalty = sparse_group_lasso(groups, np.asarray(lasso_weights) * l1_alpha, weights=weights, lagrange=1)
+        self._subsample_args = lasso_weights, copy(self.penalty.weights) # before scaling
         l2_weight = 1 - l1_alpha
         for g in self.penalty.weights.keys():
             self.penalty.set_weight(g, l2_weight * self.penalty.weights[g])
@@ -150,8 +151,8 @@ class sparse_group_lasso_path(group_lasso_path):
         return self.__class__(subsample_loss,
                               self.X,
                               self.penalty.groups,
-                              self.penalty.lasso_weights,
-                              weights=self.penalty.weights,
+                              self._subsample_args[0],
+                              weights=self._subsample_args[1],
                               elastic_net_param=self.elastic_net_param,
                               alpha=self.alpha,
                               l1_alpha=self.l1_alpha)
-- 
2.43.0


From fcf8422f0b83896283f4806ddff6da4715d52191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 102/107] fix: l1_alpha of sparse group block path was only
 used by its subsamples

---
 regreg/paths/sparse_group_block.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 4169ce3..13aa1f8 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -55,15 +55,15 @@ class sparse_group_common_path(group_lasso_path):
         self.l1_penalty = l1_penalty
         self.l2_penalty = l2_penalty
         if l1_alpha is not None:
-            self.l1_penalty *= l1_alpha
-            self.l2_penalty *= (1 - l1_alpha)
+            self.l1_penalty = self.l1_penalty * l1_alpha
+            self.l2_penalty = self.l2_penalty * (1 - l1_alpha)
 
         # the penalty parameters
 
         self.alpha = alpha
         self.penalty = sparse_group_block(self.X.input_shape,
-                                          l1_penalty, 
-                                          l2_penalty, 
+                                          self.l1_penalty,
+                                          self.l2_penalty,
                                           lagrange=1)
         self.group_shape = (self.penalty.shape[0],)
         self.shape = self.penalty.shape
-- 
2.43.0


From e350465e0f62e81a4a5fc1ff6653fc8b0f16f342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:13 +0000
Subject: [PATCH 103/107] fix: dual of sparse group lasso was infinite off
 unpenalized coordinates without check_feasibility

---
 regreg/atoms/sparse_group_lasso.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/regreg/atoms/sparse_group_lasso.py b/regreg/atoms/sparse_group_lasso.py
index 6590a5d..5df9c8e 100644
--- a/regreg/atoms/sparse_group_lasso.py
+++ b/regreg/atoms/sparse_group_lasso.py
@@ -258,6 +258,10 @@ class sparse_group_lasso_dual(sparse_group_lasso):
          lagrange = seminorm.seminorm(self, x, 
                                       check_feasibility=check_feasibility, 
                                       lagrange=lagrange)
+         x = np.asarray(x)
+         if not check_feasibility: # ignore unpenalized coordinates, as group_lasso_dual does
+             weights = np.array([self.weights[g] for g in self.groups])
+             x = np.where((weights == 0) * (self.lasso_weights == 0), 0, x)
          return gauge_function_dual(self.base_conjugate, x) * lagrange
 
      @doc_template_user
-- 
2.43.0


From 05aba652c9b09746503408f7e3b84dfdc35d6331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 104/107] fix: KKT check of sparse group lasso accepted too
 large a gradient of an active group

---
 regreg/paths/sparse_group_lasso.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_lasso.py b/regreg/paths/sparse_group_lasso.py
index 344961e..1d80cd4 100644
--- a/regreg/paths/sparse_group_lasso.py
+++ b/regreg/paths/sparse_group_lasso.py
@@ -398,7 +398,7 @@ def _check_KKT(sglasso,
             val_g, l1subgrad_g, l2subgrad_g = _gauge_function_dual_strong(subgrad_g, 
                                                                           l1weight_g,
                                                                           l2weight_g)
-            if val_g < lagrange * (1 - tol):
+            if np.fabs(val_g - lagrange) > lagrange * tol:
                 active_results[i] = ACTIVE_NORM
             nonz = soln_g != 0
 
-- 
2.43.0


From 23e55cbd236cb9186949f1850fc9710fc151cdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 105/107] fix: KKT check of sparse group block accepted too
 large a gradient of an active row

---
 regreg/paths/sparse_group_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 13aa1f8..3bb8862 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -551,7 +551,7 @@ def _check_KKT(grad,
         val_g, l1subgrad_g, l2subgrad_g = _gauge_function_dual_strong(subgrad_g,
                                                                       l1_weight,
                                                                       l2_weight)
-        if val_g < lagrange * (1 - tol):
+        if np.fabs(val_g - lagrange) > lagrange * tol:
             active_results[g] = ACTIVE_NORM
         nonz = soln_g != 0
 
-- 
2.43.0


From aa00ffe67df94d0126737804205ed345b05b395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:47 +0000
Subject: [PATCH 106/107] fix: stacked Cox and Huber paths could not be built

---
 regreg/paths/sparse_group_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/regreg/paths/sparse_group_block.py b/regreg/paths/sparse_group_block.py
index 3bb8862..c617ebd 100644
--- a/regreg/paths/sparse_group_block.py
+++ b/regreg/paths/sparse_group_block.py
@@ -422,7 +422,7 @@ def stacked_gaussian(Xs, Ys, *args, **keyword_args):
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 def stacked_cox(Xs, Ts, Cs, *args, **keyword_args):
-    loss = glm.stacked_loglike.cox(Ts, Cs) # Ts a sequence of event times,
+    loss = glm.stacked_loglike.cox(Xs, Ts, Cs) # Ts a sequence of event times,
                                            # Cs a sequence of censor indicators
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
@@ -443,11 +443,11 @@ def stacked_poisson(Xs, Ys, *args, **keyword_args):
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 def stacked_huber(Xs, Ys, smoothing_parameter, *args, **keyword_args):
-    loss = glm.stacked_loglike.huber(Ys, smoothing_parameter) # Ys a sequence of response vectors
+    loss = glm.stacked_loglike.huber(Xs, Ys, smoothing_parameter) # Ys a sequence of response vectors
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 def stacked_huber_svm(Xs, Ys, smoothing_parameter, *args, **keyword_args):
-    loss = glm.stacked_loglike.huber_svm(Ys, smoothing_parameter) # Ys a sequence of response vectors
+    loss = glm.stacked_loglike.huber_svm(Xs, Ys, smoothing_parameter) # Ys a sequence of response vectors
     return sparse_group_block_path(loss, Xs, *args, **keyword_args)
 
 # private functions
-- 
2.43.0


From a3555285cadf7c6dcfa7718f3a346bdef0931c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:05 +0000
Subject: [PATCH 107/107] fix: projection of sparse group lasso dual used the
 old weight after set_weight

---
 regreg/atoms/group_lasso.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regreg/atoms/group_lasso.py b/regreg/atoms/group_lasso.py
index d6a46ac..008a0e2 100644
--- a/regreg/atoms/group_lasso.py
+++ b/regreg/atoms/group_lasso.py
@@ -87,7 +87,9 @@ class group_lasso(seminorm):
         idx = self._sorted_groupids.index(group)
         self._weight_array[idx] = weight
         self.weights[group] = weight
-        
+        if hasattr(self, "_base_conjugate_atom"):
+            del self._base_conjugate_atom # it has the old weight
+
     def __eq__(self, other):
         if self.__class__ == other.__class__:
             return (self.shape == other.shape and 
-- 
2.43.0

