From e056e19aa905cdc6e4cabf3d4f30073af1674244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 01/13] fix: int_e_IEZ_poly must not carry jump exponents over
 between the terms of the inner integral

---
 src/ajdmom/ito_cond_mom.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/ajdmom/ito_cond_mom.py b/src/ajdmom/ito_cond_mom.py
index 790585c..0b2d511 100644
--- a/src/ajdmom/ito_cond_mom.py
+++ b/src/ajdmom/ito_cond_mom.py
@@ -455,17 +455,10 @@ def int_e_IEZ_poly(coef, m, poly):
             key1 = (kk[0], kk[1], kk[2] + k[2], k[3], k[4], k[5])
             # key2
             if len(k6) == 1:  # 1 summation  inside
-                k6 = (k6[0] + kk[3],)
-                k7 = (k7[0] + kk[4],)
-                key2 = (k6, k7, (), ())
+                key2 = ((k6[0] + kk[3],), (k7[0] + kk[4],), (), ())
             else:  # 2 summations inside or more
-                k8 = list(k8)
-                k8[-1] += kk[3]
-                k8 = tuple(k8)
-                k9 = list(k9)
-                k9[-1] += kk[4]
-                k9 = tuple(k9)
-                key2 = (k6, k7, k8, k9)
+                key2 = (k6, k7,
+                        k8[:-1] + (k8[-1] + kk[3],), k9[:-1] + (k9[-1] + kk[4],))
             poln.add_keyval(key1 + key2, coef * poly[k] * poly_sub[kk])
     return poln
 
-- 
2.43.0


From 41886caf4a3a4e9713a1dfff88926227c082969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 02/13] fix: recursive_IEI_IEII must add the contribution of
 every pair of factors, not only the first

---
 src/ajdmom/itos_mom.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index b50b491..34408c6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -515,39 +515,39 @@ def recursive_IEI_IEII(n4, n5, n6, n7, n8, IEI_IEII):
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 2, n5, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 2, n4 - 2, n5, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = Frac(n5 * (n5 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 2, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4 + 1, n5 - 2, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = n4 * n5
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 1, n6, n7, n8, IEI_IEII), 4))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
         c = Frac(n6 * (n6 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 2, n4, n5, n6 - 2, n7, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
         c = Frac(n7 * (n7 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 2, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6 + 1, n7 - 2, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
         c = n6 * n7
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 1, n8, IEI_IEII), 8))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
         c = Frac(n8 * (n8 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 2))
-- 
2.43.0


From fa19ba954c9c1e59a5392e05cf60a8e44920eeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 03/13] fix: itos_mom.int_et must treat opposite non-zero rates
 (n1 = -n2) as a non-zero rate

---
 src/ajdmom/itos_mom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 34408c6..9fab8ef 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -299,15 +299,15 @@ def int_et(n1, n2, m):
     kf = ['(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}', '[t-(n-1)h]']
     poly.set_keyfor(kf)
     #
-    if n1 + n2 == 0 and m == 0:
+    if n1 == 0 and n2 == 0 and m == 0:
         key = ((0, 0, 0), (0, 0), 1)
         val = 1
         poly.add_keyval(key, val)
-    elif n1 + n2 == 0 and m != 0:
+    elif n1 == 0 and n2 == 0 and m != 0:
         key = ((0, 0, 0), (0, 0), m + 1)
         val = Frac(1, m + 1)
         poly.add_keyval(key, val)
-    elif n1 + n2 != 0 and m == 0:
+    elif (n1 != 0 or n2 != 0) and m == 0:
         key = ((n1, n2, 1), (n1, n2), 0)
         val = 1
         poly.add_keyval(key, val)
-- 
2.43.0


From cf4ec7010bf81b713b9f567df4dc7eefcc423fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:45 +0000
Subject: [PATCH 04/13] fix: moment_IEI_IEII raised NameError instead of
 ValueError for a negative total order

---
 src/ajdmom/itos_mom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 9fab8ef..9e05f20 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -583,7 +583,7 @@ def moment_IEI_IEII(n4, n5, n6, n7, n8, return_all=False):
     :rtype: Poly or dict of Poly
     """
     if n4 + n5 + n6 + n7 + n8 < 0:
-        raise ValueError(f'moment_IEI_IEII({n_4},{n_5},{n_6},{n_7},{n_8}) is called')
+        raise ValueError(f'moment_IEI_IEII({n4},{n5},{n6},{n7},{n8}) is called')
     #
     IEI_IEII = {}
     kf = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}',
-- 
2.43.0


From 19454fa6f9043cf30ca1fab45ea8cfb80df1ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 05/13] fix: low-order ito_mom.moment_IEII keys must have one
 exponent per variable, and no zero terms

---
 src/ajdmom/ito_mom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ajdmom/ito_mom.py b/src/ajdmom/ito_mom.py
index 56e03a4..6aa8e23 100644
--- a/src/ajdmom/ito_mom.py
+++ b/src/ajdmom/ito_mom.py
@@ -373,9 +373,9 @@ def moment_IEII(n3, n4, n5):
     #
     # special poly constants, analog to 0 and 1
     #
-    P0 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(0, 1)})
+    P0 = Poly()
     P0.set_keyfor(kf)
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
     P1.set_keyfor(kf)
     #
     # n3 + n4 + n5 = 0: special case
-- 
2.43.0


From 5c065c56e0bc29311c027c218bbb1e5b76026b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 06/13] fix: cond_cm(0) returned the first central moment (0)
 instead of the zeroth (1)

---
 src/ajdmom/mdl_1fsv/cond_cmom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_1fsv/cond_cmom.py b/src/ajdmom/mdl_1fsv/cond_cmom.py
index e8b06b4..85ad97b 100644
--- a/src/ajdmom/mdl_1fsv/cond_cmom.py
+++ b/src/ajdmom/mdl_1fsv/cond_cmom.py
@@ -287,7 +287,7 @@ def cmoments_y_to(l, show=False):
         poly.remove_zero()
         cmoms.append(poly)
         if show: print(f"complete the derivation for the {n}-th conditional central moment.")
-    return cmoms
+    return cmoms[:l + 1]
 
 
 def poly2num(poly, par):
-- 
2.43.0


From 2322ed8ae033dea14704909735a7d472382a81a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 07/13] fix: mdl_srjd.iez_cmom.cm did not pass the parameters
 on

---
 src/ajdmom/mdl_srjd/iez_cmom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_srjd/iez_cmom.py b/src/ajdmom/mdl_srjd/iez_cmom.py
index 2f9c6b6..2e94fc1 100644
--- a/src/ajdmom/mdl_srjd/iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/iez_cmom.py
@@ -40,7 +40,7 @@ def cmoment_IEZ(n):
 
 def cm(n, par):
     cmoment = cmoment_IEZ(n)
-    value = poly2num(cmoment)
+    value = poly2num(cmoment, par)
     return value
 
 
-- 
2.43.0


From 1520f7e380996b531c50aade6def5f94822cdf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 08/13] fix: second IE moments of mdl_srjd carried no variable
 names

---
 src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py | 1 +
 src/ajdmom/mdl_srjd/cond_ie_iez_mom.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
index 88b0d4d..7ae60a4 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
@@ -92,6 +92,7 @@ def moment_ie(n):
         (2, 1, 0, 1, 0, 0, 0): Fraction(1, 2),
         (0, 1, 0, 1, 0, 0, 0): Fraction(-1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
index 40e4e79..2ed6f02 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
@@ -95,6 +95,7 @@ def moment_ie(n):
         (1, 2, 0, 0, 0, 1, 1): Fraction(-1, 1),
         (0, 2, 0, 0, 0, 1, 1): Fraction(1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
-- 
2.43.0


From 3180230047840c6ac17e90afe630ec6c4ee426ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 09/13] fix: multilevel_comb(1, m) must return the list of
 index lists

---
 src/ajdmom/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ajdmom/utils.py b/src/ajdmom/utils.py
index dcf88d7..e575614 100644
--- a/src/ajdmom/utils.py
+++ b/src/ajdmom/utils.py
@@ -73,7 +73,8 @@ def multilevel_comb(n, m, show=False):
     :return: list
     """
     if n == 1:
-        return m
+        if show: print([[m]])
+        return [[m]]
     elif n == 2:
         index = [[i, m - i] for i in range(m+1)]
         if show: print(index)
-- 
2.43.0


From aae28081a7a9636a13dcafcbe108b685d54c6f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 10/13] fix: zeroth conditional moment of mdl_svcj must have
 one exponent per variable

---
 src/ajdmom/mdl_svcj/cond2_mom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_svcj/cond2_mom.py b/src/ajdmom/mdl_svcj/cond2_mom.py
index 0004178..1052f0b 100644
--- a/src/ajdmom/mdl_svcj/cond2_mom.py
+++ b/src/ajdmom/mdl_svcj/cond2_mom.py
@@ -165,7 +165,8 @@ def moments_y_to(l, J):
     #
     # special case: 0-th moment
     #
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0,
+                0, 0, 0, (0,) * len(J)): Frac(1, 1)})
     P1.set_keyfor(kf)
     moms.append(P1)  # equiv to constant 1
     #
-- 
2.43.0


From dd6dc457ee6cc846963e3d65c279a5746340c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 11/13] fix: classify failed or misfiled terms when the
 summation levels are not 0, 1, 2, ...

---
 src/ajdmom/mdl_svvj/cond2_cmom.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index be995dc..e403d6d 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -210,13 +210,12 @@ def classify(poly):
     kf0 = poly.keyfor[:6] + poly.keyfor[10:]
     subpolys = [Poly() for n in N_sum]
     #
-    subpolys[0].set_keyfor(kf0 if N_sum[0] == 0 else poly.keyfor)
     # exclude the sub-keyfor if the sub-key corresponding to 'l_{1:n}' is empty
-    for i in range(1, len(N_sum)): subpolys[i].set_keyfor(poly.keyfor)
+    for i in range(len(N_sum)): subpolys[i].set_keyfor(kf0 if N_sum[i] == 0 else poly.keyfor)
     #
     # classify
     for k, v in poly.items():
-        subpoly = subpolys[len(k[6])]
+        subpoly = subpolys[N_sum.index(len(k[6]))]
         subpoly[k[0:6] + k[10:] if len(k[6]) == 0 else k] = v
         # exclude the empty subkey (),(),(),()
     return subpolys
-- 
2.43.0


From cd1ce7fbbdb3e4703f7040198a918a5c6e1c3247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 12/13] fix: write_to_csv must quote names and keys containing
 commas, and keep header and rows aligned

---
 src/ajdmom/poly.py | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 751155e..5fc8a20 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -55,6 +55,7 @@ Note that :py:meth:`~ajdmom.poly.Poly.merge` (in-place) is different from
 the magic method :code:`__add__()` (not-in-place). The former changes the
 original poly, while the latter does not.
 """
+import csv
 from collections import UserDict
 
 
@@ -282,13 +283,12 @@ class Poly(UserDict):
         # for cases without 'l_{1:n}',...: mdl_1fsv, mdl_1fsvj, mdl_2fsv, mdl_2fsvj
         #
         if 'l_{1:n}' not in self.keyfor:
-            title = ','.join(self.keyfor) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            title = self.keyfor + ('num', 'den')
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')  # quotes names and keys containing commas
+                writer.writerow(title)
                 for k, v in self.items():
-                    num, den = v.numerator, v.denominator
-                    row = ','.join([str(s) for s in k]) + f',{str(num)},{str(den)}\n'
-                    f.write(row)
+                    writer.writerow(k + (v.numerator, v.denominator))
             print(f"complete the writing of {filename}.")
             return
         #
@@ -320,14 +320,13 @@ class Poly(UserDict):
         if 'p_{2:n}' not in self.keyfor:
             sub1 = ['l' + str(j) for j in range(1, len(l) + 1)]
             sub2 = ['o' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2) + ','
-            title += ','.join(self.keyfor[i + 2:]) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            title = self.keyfor[:i] + tuple(sub1 + sub2) + self.keyfor[i + 2:] + ('num', 'den')
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')
+                writer.writerow(title)
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2:]])
-                    row += f',{v.numerator},{v.denominator}\n'
-                    f.write(row)
+                    row = k[:i] + k[i] + k[i + 1] + k[i + 2:]
+                    writer.writerow(row + (v.numerator, v.denominator))
         #
         # for cases 'l_{1:n}', 'o_{1:n}', 'p_{2:n}', 'q_{2:n}': mdl_svvj, mdl_svij, mdl_svcj
         #
@@ -336,14 +335,13 @@ class Poly(UserDict):
             sub2 = ['o' + str(j) for j in range(1, len(l) + 1)]
             sub3 = ['p' + str(j) for j in range(2, len(l) + 1)]
             sub4 = ['q' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2 + sub3 + sub4) + ','
-            title += ','.join(self.keyfor[i + 4:]) + ',num,den\n'
-            with open(filename, 'w', encoding='utf-8') as f:
-                f.write(title)
+            title = self.keyfor[:i] + tuple(sub1 + sub2 + sub3 + sub4) + self.keyfor[i + 4:] + ('num', 'den')
+            with open(filename, 'w', encoding='utf-8', newline='') as f:
+                writer = csv.writer(f, lineterminator='\n')
+                writer.writerow(title)
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]])
-                    row += f',{v.numerator},{v.denominator}\n'
-                    f.write(row)
+                    row = k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]
+                    writer.writerow(row + (v.numerator, v.denominator))
         print(f"complete the writing of {filename}.")
 
 
-- 
2.43.0


From 69581017fd312e171591558630f69e9425ba051f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 13/13] fix: write_to_csv failed on an empty poly with jump
 variables

---
 src/ajdmom/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 5fc8a20..22cfe3a 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -301,6 +301,7 @@ class Poly(UserDict):
             else:
                 i += 1
         # find one sub-key corresponding to 'l_{1:n}'
+        l = ()  # no term at all
         for k in self.keys():
             l = k[i]
             break
-- 
2.43.0

