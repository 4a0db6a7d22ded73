From c154991d30ce2c8948f033b2bbd43e384627c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 01/23] fix: negative powers of -1 times a monomial have the
 right sign

---
 polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/polynomials.py b/polynomials.py
index 1088159..14c0e0c 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -232,7 +232,7 @@ class Polynomial:
                     new_ind = ind.copy()
                     for key in new_ind:
                         new_ind[key] *= i
-                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind]
+                    new_coeffs[HashableDict(new_ind)] = self.coeffs[ind] ** abs(i)
                 return Polynomial(new_coeffs)
             return None
         return self * (self**(i - 1))
-- 
2.43.0


From c2b978d8e3638f4a9e463a53df6d1294632fb1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:17 +0000
Subject: [PATCH 02/23] fix: printed form and hash of a polynomial depend only
 on its value

---
 polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index 14c0e0c..134c159 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -287,7 +287,7 @@ class Polynomial:
     @classmethod
     def index_to_str(cls, ind):
         s = ''
-        for i in ind:
+        for i in sorted(ind, key=lambda i: (i < 0, abs(i))):
             if ind[i] != 0:
                 s = s + ' ' + cls.letters(i)
                 if ind[i] != 1:
@@ -308,7 +308,7 @@ class Polynomial:
             for i in sorted(index):
                 c += index[i]
                 ans += abs(index[i]) * [-i]
-            return (c,) + tuple(ans)
+            return (c,) + tuple(ans), sorted(index.items())
 
         s = ''
         filtered = filter(lambda x: self[x] != 0, self.coeffs)
-- 
2.43.0


From 70b60bb8f4be3ca631bf09c292b0518ca962558e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:17 +0000
Subject: [PATCH 03/23] fix: Polynomial.divide_linear raised NameError on every
 input

---
 polynomials.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/polynomials.py b/polynomials.py
index 134c159..d2eec48 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -138,8 +138,8 @@ class Polynomial:
 
     def divide_linear(self, i, c):
         # divide by x(i) + c
-        ans = self.substitute(i, x(i) - c) * self.monomial(i, -1)
-        return ans.substitute(i, x(i) + c)
+        ans = self.substitute(i, self.x(i) - c) * self.monomial(i, -1)
+        return ans.substitute(i, self.x(i) + c)
 
     def __getitem__(self, i):
         i = HashableDict(i)
-- 
2.43.0


From 58ce3311f90ce4c58aec730b7857bb5d73a6d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 04/23] fix: integer polynomials hash like the integers they
 equal

---
 polynomials.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/polynomials.py b/polynomials.py
index d2eec48..e2daf86 100644
--- a/polynomials.py
+++ b/polynomials.py
@@ -324,6 +324,8 @@ class Polynomial:
         return s
 
     def __hash__(self):
+        if self.is_integer():
+            return hash(self.constant_term())
         return hash(str(self))
 
     @classmethod
-- 
2.43.0


From 1b9ef4f258aaad6641c9d7cc7cf62a3d95a5b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 05/23] fix: Partition.printables raised TypeError on every
 nonempty partition

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index d3acfbb..43db919 100644
--- a/partitions.py
+++ b/partitions.py
@@ -182,7 +182,7 @@ class Partition:
         gap = '   ->    '
         lines = []
         for mu in partitions:
-            diagram = cls.printable(mu, shifted).split('\n')
+            diagram = cls.printable(mu, shifted=shifted).split('\n')
             if lines:
                 m = max(len(lines), len(diagram))
                 if len(lines) < m:
-- 
2.43.0


From 946a4d1520a71cbb99f32c45931e1c5d7246ad7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:34 +0000
Subject: [PATCH 06/23] fix: Partition.from_skew looped forever on the empty
 set of cells

---
 partitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/partitions.py b/partitions.py
index 43db919..649a239 100644
--- a/partitions.py
+++ b/partitions.py
@@ -260,7 +260,7 @@ class Partition:
                 nu[i] = nu[i + 1] + (1 if shifted else 0)
                 mu[i] = nu[i]
         nu, mu = cls.trim(nu), cls.trim(mu)
-        while len(nu) == len(mu):
+        while nu and len(nu) == len(mu):
             nu, mu = cls.trim([a - 1 for a in nu]), cls.trim([a - 1 for a in mu])
         return nu, mu
 
-- 
2.43.0


From dcc15989767fabc220ddb45ae61a65b4b406b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:13 +0000
Subject: [PATCH 07/23] fix: Partition.shifted_ribbons raised IndexError for
 every positive size

---
 partitions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/partitions.py b/partitions.py
index 649a239..5dee4ab 100644
--- a/partitions.py
+++ b/partitions.py
@@ -399,6 +399,7 @@ class Partition:
         seen = set()
         for alpha in cls.compositions(n):
             nu, lam = cls.shifted_ribbon(alpha)
+            nu, lam = list(nu), list(lam) + (len(nu) - len(lam)) * [0]
             if (tuple(nu), tuple(lam)) not in seen:
                 for x, y in generate(nu, lam):
                     x = cls.trim(x)
-- 
2.43.0


From 28e9fda9b90b23ac4cbb6c4d4da346f953de2b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 08/23] fix: valued-set tableau transitions ignore letters
 other than the two being swapped

---
 vst.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vst.py b/vst.py
index 3983fe4..cb9d862 100644
--- a/vst.py
+++ b/vst.py
@@ -413,7 +413,7 @@ class ValuedSetTableau:
                         case = 'R5'
                         tab[x, x] = -value
                         tab[x + 1, x + 1] = value + 1
-                    if vst.grouping.get(x, x) and vst.grouping.get(x + 1, x + 2) is not None:
+                    if vst.grouping.get(x, x) and abs(vst.tableau.get(x + 1, x + 2, default=0)) in [value, value + 1]:
                         assert case is None
                         case = 'R3'
                         grp[x, x] = 0
@@ -470,7 +470,7 @@ class ValuedSetTableau:
                         case = 'C5'
                         tab[x, x] = value + 1
                         tab[x - 1, x - 1] = -value
-                    if vst.grouping.get(x, x) and vst.grouping.get(x - 2, x - 1) is not None:
+                    if vst.grouping.get(x, x) and abs(vst.tableau.get(x - 2, x - 1, default=0)) in [value, value + 1]:
                         assert case is None
                         case = 'C3'
                         grp[x, x] = 0
-- 
2.43.0


From 80c6a93ebad47261bc43360715163c30ebbe2981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:15 +0000
Subject: [PATCH 09/23] fix: gs and js of a shape not containing the inner
 shape are zero

---
 symmetric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/symmetric.py b/symmetric.py
index 74f5208..4d3dd6a 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -420,6 +420,8 @@ class SymmetricPolynomial(Vector):
 
     @classmethod
     def dual_stable_grothendieck_s(cls, num_variables, mu, nu=()):  # noqa
+        if not Partition.contains(mu, nu):
+            return SymmetricPolynomial()
         n = len(mu)
         assert n == 0 or mu[n - 1] > 0
         new_mu = tuple(mu[i] + n - i for i in range(n))
@@ -759,6 +761,8 @@ class SymmetricPolynomial(Vector):
 
     @classmethod
     def slow_transposed_dual_stable_grothendieck_s(cls, num_variables, mu, nu=(), beta=-BETA):  # noqa
+        if not Partition.contains(mu, nu):
+            return SymmetricPolynomial()
         n = len(mu)
         assert n == 0 or mu[n - 1] > 0
         new_mu = tuple(mu[i] + n - i for i in range(n))
-- 
2.43.0


From 9ab3e4c8a0a3f0a56cf824dbb4b6eebb67b60f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:11 +0000
Subject: [PATCH 10/23] fix: S, GS, gs and js expansions pick the triangular
 leading term

---
 symmetric.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/symmetric.py b/symmetric.py
index 4d3dd6a..61921ab 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -489,6 +489,21 @@ class SymmetricPolynomial(Vector):
         else:
             return Vector()
 
+    @classmethod
+    def _s_expansion(cls, f, function, q_expansion, extreme):
+        # in extreme degree, function(n, mu) for strict mu is the Q-type function
+        # of mu plus terms indexed by lexicographically larger partitions
+        ans = Vector()
+        while f:
+            n = max(f).n
+            expansion = q_expansion(f)
+            degree = extreme(map(sum, expansion))
+            mu = min(mu for mu in expansion if sum(mu) == degree)
+            c = expansion[mu]
+            ans += Vector({mu: c})
+            f -= function(n, mu) * c
+        return ans
+
     @classmethod
     def _get_term_from_lowest_degree(cls, f):
         return max(f.lowest_degree_terms())
@@ -555,7 +570,7 @@ class SymmetricPolynomial(Vector):
 
     @classmethod
     def gs_expansion(cls, f):  # noqa
-        return cls._expansion(f, cls.dual_stable_grothendieck_s, cls._get_term_from_highest_degree)
+        return cls._s_expansion(f, cls.dual_stable_grothendieck_s, cls.gq_expansion, max)
 
     @classmethod
     def mp_gp_expansion(cls, f):  # noqa
@@ -575,7 +590,7 @@ class SymmetricPolynomial(Vector):
 
     @classmethod
     def js_expansion(cls, f):  # noqa
-        return cls._expansion(f, cls.slow_transposed_dual_stable_grothendieck_s, cls._get_term_from_highest_degree)
+        return cls._s_expansion(f, cls.slow_transposed_dual_stable_grothendieck_s, cls.jq_expansion, max)
 
     @classmethod
     def GP_expansion(cls, f):  # noqa
@@ -595,7 +610,7 @@ class SymmetricPolynomial(Vector):
 
     @classmethod
     def GS_expansion(cls, f):  # noqa
-        return cls._expansion(f, cls.stable_grothendieck_s, cls._get_term_from_lowest_degree)
+        return cls._s_expansion(f, cls.stable_grothendieck_s, cls.GQ_expansion, min)
 
     @classmethod
     def mn_GQ_expansion(cls, f):  # noqa
@@ -607,7 +622,7 @@ class SymmetricPolynomial(Vector):
 
     @classmethod
     def S_expansion(cls, f):  # noqa
-        return cls._expansion(f, cls.schur_s, cls._get_term_from_lowest_degree)
+        return cls._s_expansion(f, cls.schur_s, cls.Q_expansion, min)
 
     @classmethod
     def _slow_vectorize(cls, n, tableaux, signs=None, check=True):
-- 
2.43.0


From 958e51868a5ff6533564e6f4ee516c46779cb18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:10 +0000
Subject: [PATCH 11/23] fix: free gp expansion handles a constant term

---
 symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symmetric.py b/symmetric.py
index 61921ab..83bafd0 100644
--- a/symmetric.py
+++ b/symmetric.py
@@ -552,7 +552,7 @@ class SymmetricPolynomial(Vector):
             mu = max(exp)
             n = max(f).n
             c = exp[mu]
-            g = 1
+            g = cls.dual_stable_grothendieck_p(n, ())
             for part in mu:
                 g *= cls.dual_stable_grothendieck_p(n, (part,))
             ans = cls.gp_free_expansion(f - c * g)
-- 
2.43.0


From 80231439f7708160b2d7176ec68446c0aac3df13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 12/23] fix: box removing operators are linear

---
 operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/operators.py b/operators.py
index f56efb6..8616576 100644
--- a/operators.py
+++ b/operators.py
@@ -67,7 +67,7 @@ def operator_shifted_row_remove(index):
                 mu = Partition.remove_shifted_inner_corner(mu, row)
                 if mu is None:
                     break
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 e += 1
         return ans
     return op
@@ -84,7 +84,7 @@ def operator_shifted_column_remove(index):
             while row is not None:
                 i = i + 1
                 mu = Partition.remove_inner_corner(mu, row)
-                ans += Vector({mu: (-beta) ** e})
+                ans += Vector({mu: coefficient * (-beta) ** e})
                 row = Partition.find_shifted_inner_corner(mu, i)
                 e += 1
         return ans
-- 
2.43.0


From ec95f55f04c8cf1e16cf858cbd94d06db313eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:37 +0000
Subject: [PATCH 13/23] fix: box operator commutator uses the y variable
 constructor

---
 boxes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/boxes.py b/boxes.py
index c937f47..68fd65b 100644
--- a/boxes.py
+++ b/boxes.py
@@ -1,5 +1,5 @@
 from vectors import Vector
-from polynomials import Polynomial, X
+from polynomials import Polynomial, X, Y
 
 
 def r(i):
@@ -59,7 +59,7 @@ class BoxOperator:
 
     @classmethod
     def commutator(cls, n):
-        x, y = X(1), X(-1)
+        x, y = X(1), Y(-1)
 
         lhs = BoxOperator(0)
         for i in range(n, -n - 1, -1):
-- 
2.43.0


From 82dee8fbfeb70d62f7f86d1685b236156da09446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:51 +0000
Subject: [PATCH 14/23] fix: zeroth power of a permutation is the identity

---
 permutations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/permutations.py b/permutations.py
index 4ffe4af..c3903b4 100644
--- a/permutations.py
+++ b/permutations.py
@@ -916,7 +916,7 @@ class Permutation:
         if n < 0:
             return self.inverse().__pow__(-n)
         elif n == 0:
-            return Permutation.identity(self.rank)
+            return Permutation.identity()
         elif n == 1:
             return Permutation(*self.oneline)
         else:
-- 
2.43.0


From a3ec4e4995af13dc268ef5a374498efbbf4b10bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:01 +0000
Subject: [PATCH 15/23] fix: Hecke level enumerations can be advanced in any
 interleaving

---
 permutations.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/permutations.py b/permutations.py
index c3903b4..b1d93d4 100644
--- a/permutations.py
+++ b/permutations.py
@@ -503,10 +503,11 @@ class Permutation:
         key = (n, ascent_bound)
 
         def generate():
-            for level in HECKE_CACHE[key][:-1]:
+            cached = list(HECKE_CACHE[key])
+            for level in cached[:-1]:
                 yield level
-            if HECKE_CACHE[key]:
-                level = HECKE_CACHE[key][-1]
+            if cached:
+                level = cached[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
@@ -550,10 +551,11 @@ class Permutation:
         key = (n, ascent_bound, hecke)
 
         def generate():
-            for level in SYMPLECTIC_HECKE_CACHE[key][:-1]:
+            cached = list(SYMPLECTIC_HECKE_CACHE[key])
+            for level in cached[:-1]:
                 yield level
-            if SYMPLECTIC_HECKE_CACHE[key]:
-                level = SYMPLECTIC_HECKE_CACHE[key][-1]
+            if cached:
+                level = cached[-1]
             else:
                 a = cls.identity()
                 for i in range(1, n, 2):
@@ -600,10 +602,11 @@ class Permutation:
         key = (n, peak_bound, hecke)
 
         def generate():
-            for level in ORTHOGONAL_HECKE_CACHE[key][:-1]:
+            cached = list(ORTHOGONAL_HECKE_CACHE[key])
+            for level in cached[:-1]:
                 yield level
-            if ORTHOGONAL_HECKE_CACHE[key]:
-                level = ORTHOGONAL_HECKE_CACHE[key][-1]
+            if cached:
+                level = cached[-1]
             else:
                 start = (cls.identity(), ())
                 level = {start}
-- 
2.43.0


From 34bd937490c564757346485ea7b55752e6a58783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:14 +0000
Subject: [PATCH 16/23] fix: FPF-Grassmannian recognition matches the elements
 built from shapes

---
 permutations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/permutations.py b/permutations.py
index b1d93d4..c963fbc 100644
--- a/permutations.py
+++ b/permutations.py
@@ -343,9 +343,12 @@ class Permutation:
         return self.get_inv_grassmannian(*self.involution_shape()) == self
 
     def is_fpf_grassmannian(self):
-        if not self.is_unsigned() and self.is_fpf_involution():
+        if not (self.is_unsigned() and self.is_fpf_involution()):
             return False
-        return self._fpf_grassmannian_shape() is not None
+        z = self.get_fpf_grassmannian(*self.fpf_involution_shape())
+        for i in range(z.rank + 1, self.rank, 2):
+            z *= self.s_i(i)
+        return z == self
 
     def is_fpf_involution(self):
         return self == self.inverse() and all(self(i) != i for i in range(1, self.rank + 1))
-- 
2.43.0


From e4b3757e3fba5fd80bf6de3210cf855fe219d408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:10 +0000
Subject: [PATCH 17/23] fix: involution Bruhat covers skip subwords that are
 not reduced

---
 permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/permutations.py b/permutations.py
index c963fbc..d384097 100644
--- a/permutations.py
+++ b/permutations.py
@@ -1096,7 +1096,7 @@ class Permutation:
         word = self.get_involution_word()
         for i in range(len(word)):
             w = Permutation.from_involution_word(word[:i] + word[i + 1:])
-            if w.involution_length == self.involution_length - 1:
+            if w is not None and w.involution_length == self.involution_length - 1:
                 yield w
 
     def fpf_involution_bruhat_covers(self):
@@ -1104,7 +1104,7 @@ class Permutation:
         word = self.get_fpf_involution_word()
         for i in range(len(word)):
             w = Permutation.from_fpf_involution_word(word[:i] + word[i + 1:])
-            if w.fpf_involution_length == self.fpf_involution_length - 1:
+            if w is not None and w.fpf_involution_length == self.fpf_involution_length - 1:
                 yield w
 
     def tau(self, i, j):
-- 
2.43.0


From 481782fc1d54a2d7b52bd15bc0acfa35fd8d9294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:39 +0000
Subject: [PATCH 18/23] fix: crystal strings start at the vertices no lowering
 operator reaches

---
 crystals.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crystals.py b/crystals.py
index a700cf5..5a30e83 100644
--- a/crystals.py
+++ b/crystals.py
@@ -7,7 +7,8 @@ import subprocess
 class CrystalMixin:
 
     def istrings(self, i):
-        ans = [[x] for x in range(len(self)) if self[x].e_crystal_operator(i) is None]
+        lowered = {self.f_crystal_operator(x, i) for x in range(len(self))}
+        ans = [[x] for x in range(len(self)) if x not in lowered]
         for j in range(len(ans)):
             while True:
                 x = self.f_crystal_operator(ans[j][-1], i)
-- 
2.43.0


From b1c8a4655738b7343082aa0c4e56ec0c4e3d746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 19/23] fix: the long names used in the README exist in utils

---
 utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/utils.py b/utils.py
index 3a68196..15c1db7 100644
--- a/utils.py
+++ b/utils.py
@@ -45,6 +45,11 @@ P = SymmetricPolynomial.schur_p
 Q = SymmetricPolynomial.schur_q
 S = SymmetricPolynomial.schur_s
 
+schur = s
+schur_P = P
+schur_Q = Q
+schur_S = S
+
 G = grothendieck
 GP = grothendieck_P
 GQ = SymmetricPolynomial.stable_grothendieck_q
@@ -64,6 +69,10 @@ gp = SymmetricPolynomial.dual_stable_grothendieck_p
 gq = SymmetricPolynomial.dual_stable_grothendieck_q
 gs = SymmetricPolynomial.dual_stable_grothendieck_s
 
+dual_grothendieck = g
+dual_grothendieck_P = gp
+dual_grothendieck_Q = gq
+
 mp_g = SymmetricPolynomial.mp_dual_stable_grothendieck
 mp_gp = SymmetricPolynomial.mp_dual_stable_grothendieck_p
 mp_gq = SymmetricPolynomial.mp_dual_stable_grothendieck_q
-- 
2.43.0


From e5da957856cc56593b7ef6bde6bd51dc13b40f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 20/23] fix: shifted_ribbon of the empty composition is the
 empty shape

---
 utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index 15c1db7..03ef234 100644
--- a/utils.py
+++ b/utils.py
@@ -36,7 +36,8 @@ def shifted_ribbon(alpha):
     for i in range(1, len(alpha)):
         nu.append(sum(alpha[i:]))
         mu.append(nu[-1] + alpha[i - 1])
-    mu.append(alpha[-1])
+    if alpha:
+        mu.append(alpha[-1])
     return tuple(mu), tuple(nu)
 
 
-- 
2.43.0


From c9624d1dcbc2b36b8d234805496f4c76782ac026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:37 +0000
Subject: [PATCH 21/23] fix: vertical groups of valued-set tableaux are marked
 on their upper cell

---
 vst.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vst.py b/vst.py
index cb9d862..0627047 100644
--- a/vst.py
+++ b/vst.py
@@ -636,7 +636,7 @@ class ValuedSetTableau:
         if i == x and y + 1 == j:
             return self.in_same_group(x, y, i, j)
         if i + 1 == x and y == j:
-            return bool(self.grouping.get(i, j, default=False)) and self.tableau.get(i, j) < 0
+            return bool(self.grouping.get(x, y, default=False)) and self.tableau.get(x, y) < 0
         if i == x + 1 and y == j:
             return self.in_same_group(x, y, i, j)
         return False
-- 
2.43.0


From 2527513642022b46aa5387b84f12ae10c4e30aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 22/23] fix: transitions of a permutation list its covers

---
 permutations.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/permutations.py b/permutations.py
index d384097..2ce6c65 100644
--- a/permutations.py
+++ b/permutations.py
@@ -950,7 +950,7 @@ class Permutation:
         return cls(*caller)
 
     @classmethod
-    def transposition(cls, i, j):
+    def transposition(cls, i, j, n=None):
         return cls.reflection_t(i, j)
 
     @classmethod
@@ -1154,17 +1154,17 @@ class Permutation:
 
     def upper_transitions(self, r):
         """Yields j > r such that self * self.transposition(r, j) covers self in Bruhat order."""
-        n = self.rank
-        for i in range(r + 1, n + 1):
+        n = max(self.rank, r)
+        for i in range(r + 1, n + 2):
             t = Permutation.transposition(r, i)
-            if (t * self * t).length == self.length + 1:
+            if (self * t).length == self.length + 1:
                 yield i
 
     def lower_transitions(self, r):
         """Yields i < r such that self * self.transposition(i, r) covers self in Bruhat order."""
         for i in range(1, r):
             t = Permutation.transposition(i, r)
-            if (t * self * t).length == self.length + 1:
+            if (self * t).length == self.length + 1:
                 yield i
 
     def upper_involution_transitions(self, r):
-- 
2.43.0


From ca500f2f11b6d709afb926e4dc25237d1a70fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:44 +0000
Subject: [PATCH 23/23] fix: upper involution transitions include covers beyond
 the rank

---
 permutations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/permutations.py b/permutations.py
index 2ce6c65..bf85980 100644
--- a/permutations.py
+++ b/permutations.py
@@ -1170,8 +1170,8 @@ class Permutation:
     def upper_involution_transitions(self, r):
         """Yields j > r such that self.tau(r, j) covers self in Bruhat order."""
         assert self.is_involution()
-        n = self.rank
-        for i in range(r + 1, n + 1):
+        n = max(self.rank, r)
+        for i in range(r + 1, n + 2):
             if self.tau(r, i).involution_length == self.involution_length + 1:
                 yield i
 
-- 
2.43.0

