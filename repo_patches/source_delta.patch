From 11bd80ffdf4ae6664abe3803de83054f6a88f895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 01/89] fix: limit each bond dimension by its neighbours as
 well

A bond larger than its neighbour times the local dimension passed the
correction and made the constructor fail with an IndexError.
---
 evoMPS/mps_gen.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 7270f74..fe5eab7 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -22,21 +22,11 @@ def correct_bond_dim_open_chain(D, q):
     D[0] = 1
     D[N] = 1
 
-    qacc = 1
     for n in range(N - 1, -1, -1):
-        if qacc < D.max(): #Avoid overflow!
-            qacc *= q[n + 1]
-
-        if D[n] > qacc:
-            D[n] = qacc
+        D[n] = min(D[n], D[n + 1] * q[n + 1])
             
-    qacc = 1
     for n in range(1, N + 1):
-        if qacc < D.max(): #Avoid overflow!
-            qacc *= q[n]
-
-        if D[n] > qacc:
-            D[n] = qacc
+        D[n] = min(D[n], D[n - 1] * q[n])
             
     return D
 
-- 
2.43.0


From 1bd19670729ef54de88d2db15c0d6c4c973d9208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 02/89] fix: set_state_product used the dimension of the
 neighbouring site

Site n + 1 was filled using q[n]; in particular site 1 used the ignored
entry q[0], giving a null or wrong state for nonuniform q.
---
 evoMPS/mps_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index fe5eab7..51ed9a6 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -218,7 +218,7 @@ class EvoMPS_MPS_Generic(object):
 
         for n in range(self.N):
             self.A[n+1].fill(0)
-            for q in range(self.q[n]):
+            for q in range(self.q[n+1]):
                 self.A[n+1][q,0,0] = psi[n][q]
 
         if do_update:
-- 
2.43.0


From d1b9be2f23c84c8dca162502bdbb79952cf62269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 03/89] fix: mps_from_tensors_gen failed for over-complete bond
 dimensions

The constructor reduces such dimensions, so the tensors did not fit.
---
 evoMPS/mps_gen.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 51ed9a6..dea9357 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -39,11 +39,7 @@ def mps_from_tensors_gen(A, do_update=True):
     q = [0] + [An.shape[0] for An in A[1:]]
 
     s = EvoMPS_MPS_Generic(N, D, q)
-    for n in range(1, N+1):
-        s.A[n][:] = A[n]
-
-    if do_update:
-        s.update()
+    s.set_state_from_tensors(A, do_update=do_update)
 
     return s
 
-- 
2.43.0


From 0fbc10997ef1bbb1790868e7dea0070a7dc8d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 04/89] fix: restore_LCF_l_seq gave l the old dimension when a
 bond shrinks

---
 evoMPS/tdvp_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index e07a466..4d22afc 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -1012,7 +1012,7 @@ def restore_LCF_l_seq(A, l, G0=None, sanity_checks=False, sc_data=''):
 
         A[n] = Q.reshape((q, Dm1_new, D_new))
         
-        l[n] = mm.eyemat(D, dtype=A[n].dtype)
+        l[n] = mm.eyemat(D_new, dtype=A[n].dtype)
         
         if sanity_checks:
             l_ = eps_l_noop(l[n - 1], A[n], A[n])
-- 
2.43.0


From 2d3465cd2b523bf382ea7820bdc6732d500a1d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:58 +0000
Subject: [PATCH 05/89] fix: calc_K_l failed for missing terms and put h_expect
 on the wrong site

---
 evoMPS/tdvp_gen.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 22d49b4..5edda92 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -430,18 +430,19 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         self.K[2] = sp.zeros((self.D[2], self.D[2]), dtype=self.typ)
             
         for n in range(n_low, n_high + 1):
-            #if n <= self.N - self.ham_sites + 1:
-            if self.ham_sites == 2:
-                self.K[n], ex = tm.calc_K_l(self.K[n - 1], self.C[n - 1], self.l[n - 2], 
-                                            self.r[n], self.A[n], self.AA[n - 1])
+            #C[m] is the term acting on sites m to n
+            m = n - self.ham_sites + 1
+            if self.C[m] is None:
+                self.K[n], ex = (tm.eps_l_noop(self.K[n - 1], self.A[n], self.A[n]), 0)
+            elif self.ham_sites == 2:
+                self.K[n], ex = tm.calc_K_l(self.K[n - 1], self.C[m], self.l[m - 1], 
+                                            self.r[n], self.A[n], self.AA[m])
             else:
                 self.K[n], ex = tm.calc_K_3s_l(
-                    self.K[n - 1], self.C[n - 2], self.l[n - 3], self.r[n],
-                    self.A[n], self.AAA[n - 2])
+                    self.K[n - 1], self.C[m], self.l[m - 1], self.r[n],
+                    self.A[n], self.AAA[m])
 
-            self.h_expect[n - 1] = ex
-            #else:
-            #    self.K[n].fill(0)
+            self.h_expect[m] = ex
                 
         if n_high == self.N:
             self.H_expect = sp.asscalar(self.K[self.N])
-- 
2.43.0


From 3d9159666d1588565b3b433c71825d50f53cf54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:10 +0000
Subject: [PATCH 06/89] fix: calc_K kept zero K matrices of the old size after
 a bond dimension change

---
 evoMPS/tdvp_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 5edda92..d480eba 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -411,7 +411,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
 
                 self.h_expect[n] = ex
             else:
-                self.K[n].fill(0)
+                self.K[n] = sp.zeros((self.D[n - 1], self.D[n - 1]), dtype=self.typ, order=self.odr)
                 
         if n_low == 1:
             self.H_expect = sp.asscalar(self.K[1])
-- 
2.43.0


From 7e20adca9c37f114bbca1ad585adc16d020cd0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 07/89] fix: correlation_1s_1s returned op1 expectation values
 for op2 (finite chains)

---
 evoMPS/mps_gen.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index dea9357..52718df 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -975,9 +975,7 @@ class EvoMPS_MPS_Generic(object):
             ccf[j] = cf[j] - ex1[0] * ex2[j]
             
         if return_exvals:
-            ex1_ = sp.tile(ex1, [(d + 1) // d + 1])[:d + 1]
-            ex2_ = sp.tile(ex1, [(d + 1) // d + 1])[:d + 1]
-            return ccf, ex1_, ex2_
+            return ccf, ex1, ex2
         else:
             return ccf
         
-- 
2.43.0


From 4fed8f3508c949aa10dbf4e2c24fa85c254f2ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 08/89] fix: density_2s indexed pairs with the wrong local
 dimension

---
 evoMPS/mps_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 52718df..0ee2c26 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1066,7 +1066,7 @@ class EvoMPS_MPS_Generic(object):
     def density_2s(self, n1, n2):
         """Returns a reduced density matrix for a pair of (seperated) sites.
         
-        The site number basis is used: rho[s * q[n1] + u, t * q[n1] + v]
+        The site number basis is used: rho[s * q[n2] + u, t * q[n2] + v]
         with 0 <= s, t < q[n1] and 0 <= u, v < q[n2].
         
         The state must be up-to-date -- see self.update()!
@@ -1097,7 +1097,7 @@ class EvoMPS_MPS_Generic(object):
                     for t1 in range(self.q[n1]):
                         r_n1 = m.mmul(self.A[n1][t1], r_n, m.H(self.A[n1][s1]))
                         tmp = m.adot(self.l[n1 - 1], r_n1)
-                        rho[s1 * self.q[n1] + s2, t1 * self.q[n1] + t2] = tmp
+                        rho[s1 * self.q[n2] + s2, t1 * self.q[n2] + t2] = tmp
         return rho
     
     def apply_op_1s(self, op, n, do_update=True):
-- 
2.43.0


From 8dffe54ee885b9f5a10e5365d4ced513255e9661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 09/89] fix: expect_string_1s failed for operators given as
 functions (finite chains)

---
 evoMPS/mps_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 0ee2c26..5dd0b92 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -985,7 +985,7 @@ class EvoMPS_MPS_Generic(object):
         """
         if callable(op):
             op = sp.vectorize(op, otypes=[sp.complex128])
-            op = sp.fromfunction(op, (self.q, self.q))
+            op = sp.fromfunction(op, (self.q[n], self.q[n]))
         
         res = sp.zeros((d), dtype=self.get_A(1).dtype)
         x = self.get_l(n - 1)
-- 
2.43.0


From 8a37b2d68784560237e552aef863aac31215f098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 10/89] fix: expect_2s and expect_3s failed with a Hamiltonian
 given as a function

---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index d480eba..4db8cde 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1415,7 +1415,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         if AA is None:
             AA = self.AA[n]
         
-        if not op is None and op is self.ham[n] and self.ham_sites == 2:
+        if not op is None and not callable(self.ham) and op is self.ham[n] and self.ham_sites == 2:
             res = tm.eps_r_op_2s_C12_AA34(self.r[n + 1], self.C[n], AA)
             return m.adot(self.l[n - 1], res)
         else:
@@ -1449,7 +1449,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             else:
                 AAA = tm.calc_AAA_AA(self.AA[n], self.A[n + 2])
                 
-        if not op is None and op is self.ham[n] and self.ham_sites == 3:
+        if not op is None and not callable(self.ham) and op is self.ham[n] and self.ham_sites == 3:
             res = tm.eps_r_op_3s_C123_AAA456(self.r[n + 2], self.C[n], AAA)
             return m.adot(self.l[n - 1], res)
         else:
-- 
2.43.0


From 9fd4a3f647836402a1bd6ea7fead5ee855af8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:20 +0000
Subject: [PATCH 11/89] fix: calc_C took the shape of function Hamiltonians
 from a stale C

---
 evoMPS/tdvp_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 4db8cde..3e39f3e 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -364,7 +364,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             if callable(self.ham):
                 ham_n = lambda *args: self.ham(n, *args)
                 ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
-                ham_n = sp.fromfunction(ham_n, tuple(self.C[n].shape[:-2] * 2))
+                ham_n = sp.fromfunction(ham_n, tuple(self.q[n:n + self.ham_sites]) * 2)
             else:
                 ham_n = self.ham[n]
             
-- 
2.43.0


From b443af9e6c386b82233d10248911e74a32dd1b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 12/89] fix: expect_string_1s gave conjugated values, shifted
 by one site (finite chains)

---
 evoMPS/mps_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 5dd0b92..e6b0f83 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -989,10 +989,10 @@ class EvoMPS_MPS_Generic(object):
         
         res = sp.zeros((d), dtype=self.get_A(1).dtype)
         x = self.get_l(n - 1)
-        for j in range(n, n + d + 1):
+        for j in range(n, n + d):
             Aop = sp.tensordot(op, self.get_A(j), axes=([1],[0]))
             x = tm.eps_l_noop(x, self.get_A(j), Aop)
-            res[j - n - 1] = m.adot(x, self.get_r(j))
+            res[j - n] = m.adot(self.get_r(j), x)
         
         return res
 
-- 
2.43.0


From 72afddfea50e27f5bbfc4a7ba8121b2f7a444e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 13/89] fix: expect_string_1s gave conjugated values (uniform
 states)

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index c18943c..543f858 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1808,7 +1808,7 @@ class EvoMPS_MPS_Uniform(object):
         for n in range(k, k + d + 1):
             nm = n % self.L
             x = tm.eps_l_noop(x, self.A[nm], Aop[nm])
-            res.append(m.adot(x, self.r[nm]))
+            res.append(m.adot(self.r[nm], x))
         
         return np.array(res)
         
-- 
2.43.0


From d9173f7bf3d83cb868444418e03d202246608298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 14/89] fix: tangent vectors and expansion failed for absent
 Hamiltonian terms

---
 evoMPS/tdvp_common.py | 16 +++++++++-------
 evoMPS/tdvp_gen.py    |  5 +++--
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index 4d22afc..bcd85ee 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -425,11 +425,13 @@ def calc_x_3s(Kp1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, Am2Am1, Am1, A, Ap1, Ap1Ap2,
     x = np.zeros((Dm1, q * D - Dm1), dtype=A.dtype)
     x_part = np.empty_like(x, order='C')
     
-    assert not (C is None and not Kp1 is None)
-    if not C is None:
+    if not (C is None and Kp1 is None):
         x_part.fill(0)
         for s in range(q):            
-            x_subpart = eps_r_op_2s_C12_AA34(rp2, C[s], Ap1Ap2) #~1st line
+            if C is None:
+                x_subpart = np.zeros((Dm1, D), dtype=A.dtype)
+            else:
+                x_subpart = eps_r_op_2s_C12_AA34(rp2, C[s], Ap1Ap2) #~1st line
             
             if not Kp1 is None:
                 x_subpart += A[s].dot(Kp1) #~3rd line
@@ -451,7 +453,7 @@ def calc_x_3s(Kp1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, Am2Am1, Am1, A, Ap1, Ap1Ap2,
             x_part += x_subpart.dot(r_si.dot(Vsh[t]))
         x += lm1_si.dot(x_part)
 
-    if not lm3 is None:
+    if not lm3 is None and not Cm2 is None:
         x_part.fill(0)
         for u in range(q):     #~2nd line
             x_subpart = eps_l_op_2s_AA12_C34(lm3, Am2Am1, Cm2[:, :, u])
@@ -485,7 +487,7 @@ def calc_x_l(Km1, C, Cm1, rp1, lm2, Am1, A, Ap1, lm1_s, lm1_si, r_s, r_si, VshL)
     for s in range(q):     #~2nd line
         x_subpart.fill(0)
 
-        if not lm2 is None:
+        if not lm2 is None and not Cm1 is None:
             x_subpart = eps_l_noop_inplace(lm2, Am1, Cm1[:, s], x_subpart)
         
         if not Km1 is None:
@@ -568,10 +570,10 @@ def calc_BB_Y_2s_ham_3s(A_m1, A_p2, C, C_m1, Vlh, Vrh_p1, l_m2, r_p2, l_s_m1, l_
         liVl[s] = l_si_m1.dot(Vl[s])
 
     Y = sp.zeros((Vlh.shape[1], Vrh_p1.shape[2]), dtype=Vrh_p1.dtype)
-    if not A_p2 is None:
+    if not A_p2 is None and not C is None:
         for s in range(C.shape[0]):
             Y += Vlh[s].dot(l_s_m1.dot(eps_r_op_2s_C12(r_p2, C[s], Vrri_p1, A_p2)))
-    if not A_m1 is None:
+    if not A_m1 is None and not C_m1 is None:
         for u in range(C_m1.shape[2]):
             Y += eps_l_op_2s_A1_A2_C34(l_m2, A_m1, liVl, C_m1[:, :, u]).dot(r_s_p1.dot(Vrh_p1[u]))
 
diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 3e39f3e..6856400 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -615,8 +615,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         for n in range(1, self.N):
             if (not Vrh[n + 1] is None and not Vlh[n] is None):
                 if self.ham_sites == 2:
-                    Y[n], etaBB_sq[n] = tm.calc_BB_Y_2s(self.C[n], Vlh[n], 
-                                           Vrh[n + 1], l_s[n - 1], r_s[n + 1])
+                    if not self.C[n] is None:
+                        Y[n], etaBB_sq[n] = tm.calc_BB_Y_2s(self.C[n], Vlh[n], 
+                                               Vrh[n + 1], l_s[n - 1], r_s[n + 1])
                 else:
                     A_m1 = self.A[n - 1] if n - 1 > 0 else None
                     A_p2 = self.A[n + 2] if n + 2 <= self.N else None
-- 
2.43.0


From b0bebc73795c4a0e187113902dac6bc33db7918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 15/89] fix: stale C after changing from a 2-site to a 3-site
 Hamiltonian

---
 evoMPS/tdvp_gen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 6856400..4379ff9 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -360,6 +360,10 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             else:
                 self.AAA.fill(None)
         
+        #No Hamiltonian terms begin on the last sites
+        for n in range(self.N - self.ham_sites + 2, self.N):
+            self.C[n] = None
+
         for n in range(n_low, n_high + 1):
             if callable(self.ham):
                 ham_n = lambda *args: self.ham(n, *args)
-- 
2.43.0


From c87af386ef98dd1cdc1a583d3814bacaf7dd5269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 16/89] fix: take_step_RK4 modified the supplied tangent vector

---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 4379ff9..4726a9d 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -949,13 +949,13 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         B_i : optional list of tensors
             The current evolution vector, to avoid duplicating computations.
         """
-        self.eta_sq.fill(0)
         self.etaBB_sq.fill(0)
 
         #Take a copy of the current state
         A0 = [An.copy() if not An is None else None for An in self.A]
         
-        B_fin = self.calc_B() if B_i is None else B_i[:]
+        #Do not add to the supplied tensors
+        B_fin = self.calc_B() if B_i is None else [None if Bn is None else Bn.copy() for Bn in B_i]
 
         for n in range(1, self.N + 1):
             if not B_fin[n] is None:
-- 
2.43.0


From 0f9dff69da09c4049d3e6a2653b3c00a0e3d999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:05 +0000
Subject: [PATCH 17/89] fix: take_step with save_memory left eta stale

---
 evoMPS/tdvp_gen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 4726a9d..c54b81a 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -857,6 +857,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         if (self.gauge_fixing == 'right' and save_memory and not calc_Y_2s and not dynexp
             and B is None):
             B = [None] * (self.N + 1)
+            self.eta_sq.fill(0)
             for n in range(1, self.N + self.ham_sites):
                 #V is not always defined (e.g. at the right boundary vector, and possibly before)
                 if n <= self.N:
@@ -870,6 +871,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                         B[m] = None
              
             assert all(x is None for x in B), "take_step update incomplete!"
+            self.eta = sp.sqrt(self.eta_sq.sum())
         else:
             if B is None or dynexp or calc_Y_2s:
                 l_s = sp.empty((self.N + 1), dtype=sp.ndarray)
-- 
2.43.0


From eae4e5e36a51c34e56403a704649c2737a29dc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 18/89] fix: take_step_split unpacked the wrong number of
 values from gexpmv

---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index c54b81a..7321053 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1258,7 +1258,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             #            A_is_Herm=op_is_herm)
             #FIXME: Currently we don't take advantage of Hermiticity.
             ncv_An = min(ncv, len(An_old)-1)
-            An, conv, nstep, brkdown, mb = gexpmv(lop, An_old, dtau/2., norm_est, m=ncv_An, tol=tol)
+            An, conv, nstep, brkdown, mb, err = gexpmv(lop, An_old, dtau/2., norm_est, m=ncv_An, tol=tol)
             if not conv:
                 log.warn("Krylov exp(M)*v solver for An did not converge in %u steps for site %u.", nstep, n)
             self.A[n] = An.reshape((self.q[n], self.D[n - 1], self.D[n]))
@@ -1274,7 +1274,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             #G = zexpmv(lop2, Gold, -dtau/2., norm_est=norm_est, m=ncv, tol=tol,
             #           A_is_Herm=op_is_herm)
             ncv_G = min(ncv, len(Gold)-1)
-            G, conv, nstep, brkdown, mb = gexpmv(lop2, Gold, -dtau/2., norm_est, m=ncv_G, tol=tol)
+            G, conv, nstep, brkdown, mb, err = gexpmv(lop2, Gold, -dtau/2., norm_est, m=ncv_G, tol=tol)
             if not conv:
                 log.warn("Krylov exp(M)*v solver for G did not converge in %u steps for site %u.", nstep, n)
             G = G.reshape((self.D[n], self.D[n]))
-- 
2.43.0


From 35a4d8cef4e0a15a807f986383d1913b313abb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:28 +0000
Subject: [PATCH 19/89] fix: gexpmv failed for one- and two-dimensional
 problems (bond dimension one)

---
 evoMPS/sexpmv.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index ed4f7d5..d31f416 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -31,6 +31,15 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       else:
             matvec = lambda v: sp.dot(A,v)
 
+      if n < 3:
+            #Too small for the Krylov scheme (which needs 1 < m < n): use the dense exponential.
+            M = sp.array([matvec(ei) for ei in sp.eye(n, dtype=A.dtype)]).T
+            w_ = la.expm(t * M).dot(v)
+            if w is not None:
+                  w[:] = w_
+                  w_ = w
+            return w_, True, 1, False, n, (0.0, 0.0)
+
       if m is None:
             m = min(20, n-1)
       
-- 
2.43.0


From 356fa4e90b3eef06ff70d7cc67afe9e2de29c8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 20/89] fix: take_step_split failed for function or absent
 Hamiltonian terms and used left K matrices with left gauge-fixing

---
 evoMPS/tdvp_gen.py | 57 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 7321053..cc35179 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -25,12 +25,13 @@ log = logging.getLogger(__name__)
 class Vari_Opt_Single_Site_Op:
     def __init__(self, tdvp, n, KLnm1, tau=1., HML=None, HMR=None, HMn=None,
                  use_local_ham=True,
-                 sanity_checks=False):
+                 sanity_checks=False, ham=None):
         """
         """
         self.D = tdvp.D
         self.q = tdvp.q
         self.tdvp = tdvp
+        self.ham = tdvp.ham if ham is None else ham
         self.n = n
         self.KLnm1 = KLnm1
         
@@ -62,20 +63,20 @@ class Vari_Opt_Single_Site_Op:
         if t.ham_sites == 2:
             if n > 1:
                 AAnm1 = tm.calc_AA(t.A[n - 1], An)
-                Cnm1 = tm.calc_C_mat_op_AA(t.ham[n - 1], AAnm1)
+                Cnm1 = tm.calc_C_mat_op_AA(self.ham[n - 1], AAnm1)
                 Cnm1 = sp.transpose(Cnm1, axes=(1, 0, 2, 3)).copy()
                 for s in range(t.q[n]):
                     res[s] += tm.eps_l_noop(t.l[n - 2], t.A[n - 1], Cnm1[s, :])
             if n < t.N:
                 AAn = tm.calc_AA(An, t.A[n + 1])
-                Cn = tm.calc_C_mat_op_AA(t.ham[n], AAn)
+                Cn = tm.calc_C_mat_op_AA(self.ham[n], AAn)
                 for s in range(t.q[n]):
                     res[s] += tm.eps_r_noop(t.r[n + 1], Cn[s, :], t.A[n + 1])
                 
         if t.ham_sites == 3:
             if n > 2:
                 AAAnm2 = tm.calc_AAA_AA(t.AA[n - 2], An)
-                Cnm2 = tm.calc_C_3s_mat_op_AAA(t.ham[n - 2], AAAnm2)
+                Cnm2 = tm.calc_C_3s_mat_op_AAA(self.ham[n - 2], AAAnm2)
                 Cnm2 = sp.transpose(Cnm2, axes=(2, 0, 1, 3, 4)).copy()
                 for s in range(t.q[n]):
                     res[s] += tm.eps_l_op_2s_AA12_C34(t.l[n - 3], t.AA[n - 2], Cnm2[s, :, :])
@@ -83,7 +84,7 @@ class Vari_Opt_Single_Site_Op:
             if n > 1 and n < t.N:
                 AAnm1 = tm.calc_AA(t.A[n - 1], An)  
                 AAAnm1 = tm.calc_AAA_AA(AAnm1, t.A[n + 1])
-                Cnm1 = tm.calc_C_3s_mat_op_AAA(t.ham[n - 1], AAAnm1)
+                Cnm1 = tm.calc_C_3s_mat_op_AAA(self.ham[n - 1], AAAnm1)
                 for s in range(t.q[n]):
                     for u in range(t.q[n - 1]):
                         res[s] += t.A[n - 1][u].conj().T.dot(t.l[n - 2].dot(
@@ -92,7 +93,7 @@ class Vari_Opt_Single_Site_Op:
             if n < t.N - 1:
                 AAn = tm.calc_AA(An, t.A[n + 1])
                 AAAn = tm.calc_AAA_AA(AAn, t.A[n + 2])
-                Cn = tm.calc_C_3s_mat_op_AAA(t.ham[n], AAAn)
+                Cn = tm.calc_C_3s_mat_op_AAA(self.ham[n], AAAn)
                 for s in range(t.q[n]):
                     res[s] += tm.eps_r_op_2s_AA12_C34(t.r[n + 2], Cn[s, :, :], t.AA[n + 1])
             
@@ -137,12 +138,13 @@ class Vari_Opt_Single_Site_Op:
         
 class Vari_Opt_SC_op:
     def __init__(self, tdvp, n, KLn, tau=1, HML=None, HMR=None,
-                 use_local_ham=True, sanity_checks=False):
+                 use_local_ham=True, sanity_checks=False, ham=None):
         """
         """
         self.D = tdvp.D
         self.q = tdvp.q
         self.tdvp = tdvp
+        self.ham = tdvp.ham if ham is None else ham
         self.n = n
         self.KLn = KLn
         
@@ -179,7 +181,7 @@ class Vari_Opt_SC_op:
         
         if t.ham_sites == 2:
             AAn = tm.calc_AA(t.A[n], Ap1)
-            Cn = tm.calc_C_mat_op_AA(t.ham[n], AAn)
+            Cn = tm.calc_C_mat_op_AA(self.ham[n], AAn)
             for s in range(t.q[n]):
                 sres = tm.eps_r_noop(t.r[n + 1], Cn[s, :], t.A[n + 1])
                 res += t.A[n][s].conj().T.dot(t.l[n - 1].dot(sres))
@@ -187,13 +189,13 @@ class Vari_Opt_SC_op:
             if n < t.N - 1:
                 AAn = tm.calc_AA(t.A[n], Ap1)
                 AAAn = tm.calc_AAA_AA(AAn, t.A[n + 2])
-                Cn = tm.calc_C_3s_mat_op_AAA(t.ham[n], AAAn)
+                Cn = tm.calc_C_3s_mat_op_AAA(self.ham[n], AAAn)
                 for s in range(t.q[n]):
                     res += t.A[n][s].conj().T.dot(
                              tm.eps_r_op_2s_AA12_C34(t.r[n + 2], Cn[s, :, :], t.AA[n + 1]))
             if n > 1:
                 AAAm1 = tm.calc_AAA_AA(t.AA[n - 1], Ap1)
-                Cm1 = tm.calc_C_3s_mat_op_AAA(t.ham[n - 1], AAAm1)
+                Cm1 = tm.calc_C_3s_mat_op_AAA(self.ham[n - 1], AAAm1)
                 Cm1 = sp.transpose(Cm1, axes=(2, 0, 1, 3, 4)).copy()
                 for s in range(t.q[n + 1]):
                     res += tm.eps_l_op_2s_AA12_C34(t.l[n - 2], t.AA[n - 1], Cm1[s, :, :]).dot(t.A[n + 1][s].conj().T)
@@ -322,6 +324,21 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
            or calc_K()."""
 
     
+    def _get_ham_arrays(self):
+        """Returns the Hamiltonian terms as a list of arrays, with zeros for absent terms.
+        """
+        res = [None]
+        for n in range(1, self.N - self.ham_sites + 2):
+            shp = tuple(self.q[n:n + self.ham_sites]) * 2
+            if callable(self.ham):
+                ham_n = sp.vectorize(lambda *args: self.ham(n, *args), otypes=[sp.complex128])
+                res.append(sp.fromfunction(ham_n, shp))
+            elif self.ham[n] is None:
+                res.append(sp.zeros(shp, dtype=self.typ))
+            else:
+                res.append(self.ham[n])
+        return res
+
     def calc_C(self, n_low=-1, n_high=-1, calc_AA=True):
         """Generates the C tensors used to calculate the K's and ultimately the B's.
         
@@ -1208,6 +1225,12 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         #self.eta_sq.fill(0)
         #self.eta = 0
         
+        ham = self._get_ham_arrays()
+
+        if self.gauge_fixing != 'right':
+            #The sweep needs K from the right
+            self.calc_K()
+
         if not DMRG:
             dtau *= -1
             from .sexpmv import gexpmv
@@ -1246,7 +1269,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             lop = Vari_Opt_Single_Site_Op(self, n, KL[n - 1], tau=fac, 
                                           HML=HML[n - 1], HMR=HMR[n], HMn=HM[n],
                                           use_local_ham=use_local_ham,
-                                          sanity_checks=self.sanity_checks)
+                                          sanity_checks=self.sanity_checks, ham=ham)
             An_old = self.A[n].ravel()
 
             if calc_norm_est: #simple attempt at approximating the norm
@@ -1269,7 +1292,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             lop2 = Vari_Opt_SC_op(self, n, KL[n], tau=fac,
                                   HML=HML[n], HMR=HMR[n],
                                   use_local_ham=use_local_ham,
-                                  sanity_checks=self.sanity_checks)
+                                  sanity_checks=self.sanity_checks, ham=ham)
             Gold = G.ravel()
             #G = zexpmv(lop2, Gold, -dtau/2., norm_est=norm_est, m=ncv, tol=tol,
             #           A_is_Herm=op_is_herm)
@@ -1285,7 +1308,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             lop = Vari_Opt_Single_Site_Op(self, n, KL[n - 1], 
                                           HML=HML[n - 1], HMR=HMR[n], HMn=HM[n],
                                           use_local_ham=use_local_ham,
-                                          sanity_checks=self.sanity_checks)
+                                          sanity_checks=self.sanity_checks, ham=ham)
             evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
                                  v0=self.A[n].ravel(), ncv=ncv, tol=tol)
             
@@ -1296,7 +1319,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         def update_Heff_left(n):
             if self.ham_sites == 2 and n > 1:
                 self.AA[n - 1] = tm.calc_AA(self.A[n - 1], self.A[n])
-                self.C[n - 1] = tm.calc_C_mat_op_AA(self.ham[n - 1], self.AA[n - 1])
+                self.C[n - 1] = tm.calc_C_mat_op_AA(ham[n - 1], self.AA[n - 1])
                 KL[n], ex = tm.calc_K_l(KL[n - 1], self.C[n - 1], self.l[n - 2], 
                                         self.r[n], self.A[n], self.AA[n - 1])
             elif self.ham_sites == 3:
@@ -1305,7 +1328,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                     self.AA[n - 1] = tm.calc_AA(self.A[n - 1], self.A[n])
                 if n > 2:
                     self.AAA[n - 2] = tm.calc_AAA_AA(self.AA[n - 2], self.A[n])
-                    self.C[n - 2] = tm.calc_C_3s_mat_op_AAA(self.ham[n - 2], self.AAA[n - 2])
+                    self.C[n - 2] = tm.calc_C_3s_mat_op_AAA(ham[n - 2], self.AAA[n - 2])
                     KL[n], ex = tm.calc_K_3s_l(KL[n - 1], self.C[n - 2], self.l[n - 3], 
                                                self.r[n], self.A[n], self.AAA[n - 2])
                                         
@@ -1316,14 +1339,14 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         def update_Heff_right(n):
             if self.ham_sites == 2 and n < self.N:
                 self.AA[n] = tm.calc_AA(self.A[n], self.A[n + 1])                    
-                self.C[n] = tm.calc_C_mat_op_AA(self.ham[n], self.AA[n])
+                self.C[n] = tm.calc_C_mat_op_AA(ham[n], self.AA[n])
             
             if self.ham_sites == 3:
                 if n < self.N:
                     self.AA[n] = tm.calc_AA(self.A[n], self.A[n + 1])
                 if n < self.N - 1:
                     self.AAA[n] = tm.calc_AAA_AA(self.AA[n], self.A[n + 2])
-                    self.C[n] = tm.calc_C_3s_mat_op_AAA(self.ham[n], self.AAA[n])
+                    self.C[n] = tm.calc_C_3s_mat_op_AAA(ham[n], self.AAA[n])
             
             if n < self.N:
                 self.calc_K(n_low=n, n_high=n)
-- 
2.43.0


From c2052907de5806c0476f0d30ccca078993ebad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 21/89] fix: DMRG sweeps failed on small sites (ncv larger than
 the problem)

---
 evoMPS/split_step.py | 8 ++++----
 evoMPS/tdvp_gen.py   | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 7497617..eb84c52 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -610,10 +610,10 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
                                       sanity_checks=mps.sanity_checks)
         if ham_is_Herm:
             evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                              v0=mps.A[n].ravel(), ncv=ncv, tol=tol)
+                              v0=mps.A[n].ravel(), ncv=min(ncv, lop.shape[0]), tol=tol)
         else:
             evs, eVs = las.eigs(lop, k=1, which='SA', sigma=None, 
-                              v0=mps.A[n].ravel(), ncv=ncv, tol=tol)
+                              v0=mps.A[n].ravel(), ncv=min(ncv, lop.shape[0]), tol=tol)
         
         mps.A[n] = eVs[:, 0].reshape((mps.q[n], mps.D[n - 1], mps.D[n]))
         norm = mm.adot(mps.A[n], mps.A[n])
@@ -632,10 +632,10 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
 
         if ham_is_Herm:
             evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                                v0=AAn_old.ravel(), ncv=ncv, tol=tol)
+                                v0=AAn_old.ravel(), ncv=min(ncv, lop.shape[0]), tol=tol)
         else:
             evs, eVs = las.eigs(lop, k=1, which='SA', sigma=None, 
-                                v0=AAn_old.ravel(), ncv=ncv, tol=tol)
+                                v0=AAn_old.ravel(), ncv=min(ncv, lop.shape[0]), tol=tol)
 
         AAn = eVs[:, 0].reshape((mps.q[n], mps.q[n+1], mps.D[n - 1], mps.D[n + 1]))
 
diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index cc35179..f756050 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1310,7 +1310,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                                           use_local_ham=use_local_ham,
                                           sanity_checks=self.sanity_checks, ham=ham)
             evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                                 v0=self.A[n].ravel(), ncv=ncv, tol=tol)
+                                 v0=self.A[n].ravel(), 
+                                 ncv=min(ncv, lop.shape[0]) if ncv else None, tol=tol)
             
             self.A[n] = eVs[:, 0].reshape((self.q[n], self.D[n - 1], self.D[n]))
             norm = m.adot(self.A[n], self.A[n])
-- 
2.43.0


From 2395e4756c025e2edad6d592b19313a5b52bbb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:10 +0000
Subject: [PATCH 22/89] fix: evolve_split used the MPO environments before
 defining them

---
 evoMPS/split_step.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index eb84c52..493c0d9 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -838,8 +838,6 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
 
     KR = [None] * (mps.N + 2)
     KR[mps.N + 1] = KR_bulk
-    for n in reversed(range(1, mps.N + 1)):
-        update_Heff_right(n)
 
     HMA = [None] * (mps.N + 1)
     HML = [sp.eye(1, dtype=mps.typ)] + [None] * mps.N
@@ -852,6 +850,9 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             HMA[n] = tm.apply_MPO_local(HM[n], mps.A[n])
             HMR[n - 1] = mps.calc_MPO_rm1(HMA[n], n, HMR[n])
 
+    for n in reversed(range(1, mps.N + 1)):
+        update_Heff_right(n)
+
     def can_increase_D(n):
         can = (
             (mps.D[n] < D_max) and
-- 
2.43.0


From 311a844ca27c71a9045474d28c87f0616799dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 23/89] fix: evolve_split two-site sweeps skipped or repeated
 the end sites, and failed on generic chains

---
 evoMPS/split_step.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 493c0d9..684fcd3 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -867,12 +867,12 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             if print_progress:
                 sys.stdout.write('\r{0}'.format("Sweep LR:" + str(n) + '        '))
                 sys.stdout.flush()
-            if two_site and (can_increase_D(n) or not switch_to_1site):
+            if two_site and n < mps.N and (not switch_to_1site or can_increase_D(n)):
                 norm_est, iexpm_lr[2*n-1], iexpm_lr[2*n], terr_lr[n] = right_move_2site(n, norm_est)
                 if n == mps.N - 1:
                     # To avoid evolving the last site twice, in case N-1 was two-step.
                     norm_est, iexpm_lr[2*n+1], iexpm_lr[2*n+2], terr_lr[n+1] = right_move_2site(n+1, norm_est)
-                    continue
+                    break
             else:
                 norm_est, iexpm_lr[2*n-1], iexpm_lr[2*n] = right_move_1site(n, norm_est)
                 terr_lr[n] = sp.NaN
@@ -883,12 +883,12 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
             if print_progress:
                 sys.stdout.write('\r{0}'.format("Sweep RL:" + str(n) + '        '))
                 sys.stdout.flush()
-            if two_site and (can_increase_D(n-1) or not switch_to_1site):
+            if two_site and n > 1 and (not switch_to_1site or can_increase_D(n-1)):
                 norm_est, iexpm_rl[2*n-1], iexpm_rl[2*n], terr_rl[n] = left_move_2site(n-1, norm_est)
                 if n == 2:
                     # To avoid evolving the first site twice, in case 2 was two-step.
                     norm_est, iexpm_rl[2*n-3], iexpm_rl[2*n-2], terr_rl[n-1] = left_move_2site(n-2, norm_est)
-                    continue
+                    break
             else:
                 norm_est, iexpm_rl[2*n-1], iexpm_rl[2*n] = left_move_1site(n, norm_est)
                 terr_rl[n] = sp.NaN
-- 
2.43.0


From d3fc78787b1288938c142ab56171a28d9901a3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 24/89] fix: find_min_h_brent left trial tensors and caches
 behind on errors and failed for function or absent Hamiltonian terms

---
 evoMPS/tdvp_gen.py | 111 ++++++++++++++++++++++++---------------------
 1 file changed, 60 insertions(+), 51 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index f756050..630ed81 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1011,6 +1011,9 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         Cs0 = cp.deepcopy(self.C)
         Ks0 = cp.deepcopy(self.K)
         h_expect_0 = self.H_expect
+        h_expects_0 = cp.copy(self.h_expect)
+        AAs0 = cp.copy(self.AA)
+        AAAs0 = cp.copy(self.AAA)
         
         ls0 = cp.deepcopy(self.l)
         rs0 = cp.deepcopy(self.r)
@@ -1057,12 +1060,14 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                     self.calc_C()
                     
                     h_exp = 0
-                    if self.ham_sites == 2:
-                        for n in range(1, self.N):
-                            h_exp += self.expect_2s(self.ham[n], n).real
-                    else:
-                        for n in range(1, self.N - 1):
-                            h_exp += self.expect_3s(self.ham[n], n).real
+                    for n in range(1, self.N - self.ham_sites + 2):
+                        if self.C[n] is None:
+                            continue
+                        if self.ham_sites == 2:
+                            x = tm.eps_r_op_2s_C12_AA34(self.r[n + 1], self.C[n], self.AA[n])
+                        else:
+                            x = tm.eps_r_op_3s_C123_AAA456(self.r[n + 2], self.C[n], self.AAA[n])
+                        h_exp += m.adot(self.l[n - 1], x).real
                     res = h_exp
                 
                 log.debug((tau, res, h_exp, h_exp - h_expect_0.real))
@@ -1073,53 +1078,57 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                 
                 return res
         
-        if skipIfLower:
-            if f(dtau_init) < self.H_expect.real:
-                return dtau_init
-        
-        brack_init = (dtau_init * 0.9, dtau_init * 1.5)
-        
-        attempt = 1
-        while attempt < 3:
-            try:
-                log.debug("CG: Bracketing...")
-                xa, xb, xc, fa, fb, fc, funcalls = opti.bracket(f, xa=brack_init[0], 
-                                                                xb=brack_init[1], 
-                                                                maxiter=5)                                                
-                brack = (xa, xb, xc)
-                log.debug("CG: Using bracket = " + str(brack))
-                break
-            except RuntimeError:
-                log.debug("CG: Bracketing failed, attempt %u." % attempt)
-                brack_init = (brack_init[0] * 0.1, brack_init[1] * 0.1)
-                attempt += 1
-        
-        if attempt == 3:
-            log.debug("CG: Bracketing failed. Aborting!")
-            tau_opt = 0
-            h_min = h_expect_0.real
-        else:
-            try:
-                tau_opt, res_min, itr, calls = opti.brent(f, 
-                                                        brack=brack, 
-                                                        tol=tol,
-                                                        maxiter=max_iter,
-                                                        full_output=True)
-    
-                i = taus.index(tau_opt)
-                h_min = hs[i]
-            except ValueError:
-                log.debug("CG: Bad bracket. Aborting!")
+        try:
+            if skipIfLower:
+                if f(dtau_init) < self.H_expect.real:
+                    return dtau_init, hs[-1]
+        
+            brack_init = (dtau_init * 0.9, dtau_init * 1.5)
+        
+            attempt = 1
+            while attempt < 3:
+                try:
+                    log.debug("CG: Bracketing...")
+                    xa, xb, xc, fa, fb, fc, funcalls = opti.bracket(f, xa=brack_init[0], 
+                                                                    xb=brack_init[1], 
+                                                                    maxiter=5)                                                
+                    brack = (xa, xb, xc)
+                    log.debug("CG: Using bracket = " + str(brack))
+                    break
+                except RuntimeError:
+                    log.debug("CG: Bracketing failed, attempt %u." % attempt)
+                    brack_init = (brack_init[0] * 0.1, brack_init[1] * 0.1)
+                    attempt += 1
+        
+            if attempt == 3:
+                log.debug("CG: Bracketing failed. Aborting!")
                 tau_opt = 0
                 h_min = h_expect_0.real
-            
-        #Must restore everything needed for take_step
-        self.A = As0
-        self.l = ls0
-        self.r = rs0
-        self.C = Cs0
-        self.K = Ks0
-        self.H_expect = h_expect_0
+            else:
+                try:
+                    tau_opt, res_min, itr, calls = opti.brent(f, 
+                                                            brack=brack, 
+                                                            tol=tol,
+                                                            maxiter=max_iter,
+                                                            full_output=True)
+    
+                    i = taus.index(tau_opt)
+                    h_min = hs[i]
+                except ValueError:
+                    log.debug("CG: Bad bracket. Aborting!")
+                    tau_opt = 0
+                    h_min = h_expect_0.real
+        finally:
+            #Must restore everything needed for take_step
+            self.A = As0
+            self.l = ls0
+            self.r = rs0
+            self.AA = AAs0
+            self.AAA = AAAs0
+            self.C = Cs0
+            self.K = Ks0
+            self.h_expect = h_expects_0
+            self.H_expect = h_expect_0
         
         return tau_opt, h_min
         
-- 
2.43.0


From a40e31314ab2735dcb6b393ab0cdb2552644f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 25/89] fix: gexpmv did not converge for small problems

---
 evoMPS/sexpmv.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/sexpmv.py b/evoMPS/sexpmv.py
index d31f416..fa7f97a 100644
--- a/evoMPS/sexpmv.py
+++ b/evoMPS/sexpmv.py
@@ -31,8 +31,9 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, mxstep=500, b
       else:
             matvec = lambda v: sp.dot(A,v)
 
-      if n < 3:
-            #Too small for the Krylov scheme (which needs 1 < m < n): use the dense exponential.
+      if n < 12:
+            #Too small for the Krylov scheme, which needs 1 < m < n and converges
+            #very slowly (or not at all) for small m: use the dense exponential.
             M = sp.array([matvec(ei) for ei in sp.eye(n, dtype=A.dtype)]).T
             w_ = la.expm(t * M).dot(v)
             if w is not None:
-- 
2.43.0


From dad49e45d970711b63266d0da9359347439b9731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:28 +0000
Subject: [PATCH 26/89] fix: DMRG sweeps failed for one- and two-dimensional
 local problems

---
 evoMPS/split_step.py  | 20 ++++++--------------
 evoMPS/tdvp_common.py | 24 ++++++++++++++++++++++++
 evoMPS/tdvp_gen.py    |  7 +++----
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index 684fcd3..be5a57d 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -608,14 +608,10 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
                                       HML=HML[n - 1], HMR=HMR[n], HMn=HM[n],
                                       use_local_ham=use_local_ham,
                                       sanity_checks=mps.sanity_checks)
-        if ham_is_Herm:
-            evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                              v0=mps.A[n].ravel(), ncv=min(ncv, lop.shape[0]), tol=tol)
-        else:
-            evs, eVs = las.eigs(lop, k=1, which='SA', sigma=None, 
-                              v0=mps.A[n].ravel(), ncv=min(ncv, lop.shape[0]), tol=tol)
+        eV = tm.lowest_eigenvector(lop, mps.A[n].ravel(), herm=ham_is_Herm,
+                                   ncv=ncv, tol=tol)
         
-        mps.A[n] = eVs[:, 0].reshape((mps.q[n], mps.D[n - 1], mps.D[n]))
+        mps.A[n] = eV.reshape((mps.q[n], mps.D[n - 1], mps.D[n]))
         norm = mm.adot(mps.A[n], mps.A[n])
         mps.A[n] /= sp.sqrt(norm)
 
@@ -630,14 +626,10 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         #AAn = AAn_old.reshape((mps.q[n], mps.q[n+1], mps.D[n - 1], mps.D[n + 1]))
         #print(n, sp.inner(AAn_old.conj(), lop.matvec(AAn_old)), "skipped!")
 
-        if ham_is_Herm:
-            evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                                v0=AAn_old.ravel(), ncv=min(ncv, lop.shape[0]), tol=tol)
-        else:
-            evs, eVs = las.eigs(lop, k=1, which='SA', sigma=None, 
-                                v0=AAn_old.ravel(), ncv=min(ncv, lop.shape[0]), tol=tol)
+        eV = tm.lowest_eigenvector(lop, AAn_old.ravel(), herm=ham_is_Herm,
+                                   ncv=ncv, tol=tol)
 
-        AAn = eVs[:, 0].reshape((mps.q[n], mps.q[n+1], mps.D[n - 1], mps.D[n + 1]))
+        AAn = eV.reshape((mps.q[n], mps.q[n+1], mps.D[n - 1], mps.D[n + 1]))
 
         An, G, Anp1, s_rest = split_twosite(AAn, D_max, min_schmidt)
         trunc_err = la.norm(s_rest) if len(s_rest) > 0 else 0.0
diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index bcd85ee..3a7404c 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -11,6 +11,7 @@ from __future__ import absolute_import, division, print_function
 
 import scipy as sp
 import scipy.linalg as la
+import scipy.sparse.linalg as las
 import numpy as np
 from . import matmul as mm
 from . import nullspace as ns   
@@ -530,6 +531,29 @@ def calc_x_l_3s(Km1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, AAm2, Am1, A, Ap1, AAp1, l
 
     return x
 
+def lowest_eigenvector(lop, v0, herm=True, ncv=None, tol=0):
+    """Returns the eigenvector of the operator with the lowest eigenvalue.
+
+    Small problems, which ARPACK cannot treat, are solved directly.
+    """
+    n = lop.shape[0]
+    if n < 4:
+        M = np.array([lop.matvec(v) for v in np.eye(n, dtype=lop.dtype)]).T
+        if herm:
+            ev, eV = la.eigh((M + M.conj().T) / 2)
+        else:
+            ev, eV = la.eig(M)
+        return eV[:, ev.real.argmin()]
+
+    if ncv is not None:
+        ncv = min(ncv, n)
+
+    if herm:
+        ev, eV = las.eigsh(lop, k=1, which='SA', v0=v0, ncv=ncv, tol=tol)
+    else:
+        ev, eV = las.eigs(lop, k=1, which='SR', v0=v0, ncv=ncv, tol=tol)
+    return eV[:, 0]
+
 def calc_BB_Y_2s_tp(C_tp, Vlh, Vrh_p1, l_s_m1, r_s_p1):
     Vl = sp.transpose(Vlh, axes=(0, 2, 1)).conj().copy()
     Vr_p1 = sp.transpose(Vrh_p1, axes=(0, 2, 1)).conj().copy()
diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 630ed81..4f8b198 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1318,11 +1318,10 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
                                           HML=HML[n - 1], HMR=HMR[n], HMn=HM[n],
                                           use_local_ham=use_local_ham,
                                           sanity_checks=self.sanity_checks, ham=ham)
-            evs, eVs = las.eigsh(lop, k=1, which='SA', sigma=None, 
-                                 v0=self.A[n].ravel(), 
-                                 ncv=min(ncv, lop.shape[0]) if ncv else None, tol=tol)
+            eV = tm.lowest_eigenvector(lop, self.A[n].ravel(), herm=ham_is_Herm,
+                                       ncv=ncv, tol=tol)
             
-            self.A[n] = eVs[:, 0].reshape((self.q[n], self.D[n - 1], self.D[n]))
+            self.A[n] = eV.reshape((self.q[n], self.D[n - 1], self.D[n]))
             norm = m.adot(self.A[n], self.A[n])
             self.A[n] /= sp.sqrt(norm)
         
-- 
2.43.0


From f4a67e3d9859080a1d1ec840d23b5952a9c91174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 27/89] fix: vari_opt_ss_sweep ignored its solver parameters

---
 evoMPS/tdvp_gen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 4f8b198..4b2ee3a 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1206,7 +1206,8 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
         Combined with imaginary time evolution, this can dramatically improve
         convergence speed.
         """
-        self.take_step_split(1., HMPO=HMPO, use_local_ham=use_local_ham, DMRG=True)
+        self.take_step_split(1., HMPO=HMPO, use_local_ham=use_local_ham, ncv=ncv, 
+                             tol=tol, DMRG=True)
             
                 
     def take_step_split(self, dtau, ham_is_Herm=True, HMPO=None, 
-- 
2.43.0


From 1b4d3cd0ba399cc4b6e0a29843f1c8ee7f03e49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 28/89] fix: left gauge-fixing tangent vectors with 3-site
 terms failed for varying site dimensions

---
 evoMPS/tdvp_common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_common.py b/evoMPS/tdvp_common.py
index 3a7404c..d099b4a 100644
--- a/evoMPS/tdvp_common.py
+++ b/evoMPS/tdvp_common.py
@@ -521,7 +521,7 @@ def calc_x_l_3s(Km1, C, Cm1, Cm2, rp1, rp2, lm2, lm3, AAm2, Am1, A, Ap1, AAp1, l
         lVL = np.array([lm1_si.dot(VL[s]) for s in range(q)])
         Am1lVL = calc_AA(Am1, lVL)
         Cm1_t = Cm1.transpose((2,0,1,3,4)).copy()
-        part = np.array([eps_l_op_2s_AA12_C34(lm2, Am1lVL, Cm1_t[s]) for s in range(q)])
+        part = np.array([eps_l_op_2s_AA12_C34(lm2, Am1lVL, Cm1_s) for Cm1_s in Cm1_t])
         x += mm.mmul(eps_r_noop(rp1, part, Ap1), r_si)
 
     if Cm2 is not None:
-- 
2.43.0


From a27acbd695ecd404e0546cd944b0213bd45233b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 29/89] fix: truncate failed if no bond dimension changes

---
 evoMPS/mps_gen.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index e6b0f83..4875357 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -620,6 +620,14 @@ class EvoMPS_MPS_Generic(object):
         assert new_D.shape == self.D.shape, "new_D must have same shape as self.D"
         assert sp.all(new_D <= self.D), "new bond-dimensions must be less than or equal to current dimensions"
     
+        if sp.all(new_D == self.D):
+            #Nothing to truncate
+            if update:
+                self.update()
+            if return_update_data:
+                return self.N, self.l, 1, self.r
+            return
+
         last_trunc = sp.argwhere(self.D - new_D).max()
         first_trunc = sp.argwhere(self.D - new_D).min()
         
-- 
2.43.0


From ea0192f23b0e5437c66973968b4b73dd1f67abaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:38 +0000
Subject: [PATCH 30/89] fix: inconsistent environments and norm after
 auto-truncation without restoring canonical form

---
 evoMPS/mps_gen.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 4875357..26fed1a 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -649,24 +649,20 @@ class EvoMPS_MPS_Generic(object):
             
     def _update_after_truncate(self, n_last_trunc, old_l, n_first_trunc, old_r, normalize=True):
         if self.canonical_form == 'right':
-            self.r[0][0, 0] = 1
-            
-            for n in range(1, self.N):
+            for n in range(1, n_first_trunc + 1):
                 self.l[n] = m.simple_diag_matrix(old_l[n].diag[-self.D[n]:], dtype=self.typ)
                 
-            self.l[self.N][0, 0] = 1
+            self.calc_l(n_low=n_first_trunc + 1)
             
             for n in range(self.N - 1, n_last_trunc - 1, - 1):
                 self.r[n] = m.eyemat(self.D[n], dtype=self.typ)
                 
             self.calc_r(n_high=n_last_trunc - 1)
         else:
-            self.l[0][0, 0] = 1
-            
-            for n in range(1, self.N):
+            for n in range(self.N - 1, n_last_trunc - 1, -1):
                 self.r[n] = m.simple_diag_matrix(old_r[n].diag[-self.D[n]:], dtype=self.typ)
                 
-            self.r[0][0, 0] = 1
+            self.calc_r(n_high=n_last_trunc - 1)
             
             for n in range(1, n_first_trunc):
                 self.l[n] = m.eyemat(self.D[n], dtype=self.typ)
-- 
2.43.0


From 3198e30d0fcf66424c0abb1818c8a606d81a88ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:55 +0000
Subject: [PATCH 31/89] fix: two-site effective Hamiltonian used conjugated
 3-site terms

---
 evoMPS/split_step.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index be5a57d..e5e49b9 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -264,7 +264,7 @@ class Vari_Opt_Two_Site_Op:
                         for s2_in in range(m.q[n+1]):
                             for s2_out in range(m.q[n+1]):
                                 tmp[s1_out, s2_out, s1_in, s2_in] = tm.eps_l_op_1s(
-                                    lnm2, Anm1, Anm1, self.ham[n - 1][:,s1_out,s2_out,:,s1_in,s2_in])
+                                    lnm2, Anm1, Anm1, self.ham[n - 1][:,s1_out,s2_out,:,s1_in,s2_in]).T.conj()
                 res += sp.tensordot(tmp, AAn, axes=((2,3,5),(0,1,2))) #[s1_out_tmp,s2_out_tmp,D1_tmp,D2_AAn]
 
             Anp2 = m.get_A(n + 2)
@@ -289,7 +289,7 @@ class Vari_Opt_Two_Site_Op:
                 for s_in in range(m.q[n+1]):
                     for s_out in range(m.q[n+1]):
                         C = tm.calc_C_mat_op_AA(self.ham[n + 1][s_out,:,:,s_in,:,:], self.AAnp2)
-                        tmp[s_out, s_in] = tm.eps_r_op_2s_AA12_C34(rnp3, self.AAnp2, C)
+                        tmp[s_out, s_in] = tm.eps_r_op_2s_AA12_C34(rnp3, C, self.AAnp2)
 
                 res_sub = sp.tensordot(AAn, tmp, axes=((1,3),(1,2))) #[s1_AAn,D1_AAn,s_out_tmp,D2_tmp]
                 res += sp.transpose(res_sub, (0,2,1,3)) #[s1_AAn,s_out_tmp,D1_AAn,D2_tmp]
-- 
2.43.0


From 586c876bf41285a0f051b924b1c0f5876765684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 32/89] fix: evolve_split used stale l and r matrices when
 switching from two-site to one-site moves

---
 evoMPS/split_step.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/split_step.py b/evoMPS/split_step.py
index e5e49b9..6808e88 100644
--- a/evoMPS/split_step.py
+++ b/evoMPS/split_step.py
@@ -733,6 +733,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         expm_info_G = None
         if n < mps.N:
             #shift centre matrix right (RCF is like having a centre "matrix" at "1")
+            mps.l[n - 1] = mm.eyemat(mps.D[n - 1], dtype=mps.typ)
             G = tm.restore_LCF_l_seq(mps.A[n - 1:n + 1], mps.l[n - 1:n + 1],
                                     sanity_checks=mps.sanity_checks) 
             # NOTE: In some cases, G may not be square.
@@ -782,6 +783,7 @@ def evolve_split(mps, ham, ham_sites, dtau, num_steps, ham_is_Herm=True, HMPO=No
         
         if n > 1:
             #shift centre matrix left (LCF is like having a centre "matrix" at "N")
+            mps.r[n] = mm.eyemat(mps.D[n], dtype=mps.typ)
             Gi = tm.restore_RCF_r_seq(mps.A[n - 1:n + 1], mps.r[n - 1:n + 1],
                                     sanity_checks=mps.sanity_checks)
             # NOTE: In some cases, Gi may not be square.
-- 
2.43.0


From ac1fa4d61058982da1758ef8fdb7abe8c1b56b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 33/89] fix: restore_SCF inverted the wrong Schmidt
 coefficients for rank-deficient states

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 543f858..4e24221 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -742,7 +742,7 @@ class EvoMPS_MPS_Uniform(object):
             #Invert the square roots of the Schmidt coefficients.
             nonzeros = np.count_nonzero(S.diag > zero_tol)
             Srti = sp.zeros_like(S.diag, dtype=S.dtype)
-            Srti[-nonzeros:] = 1. / Srt.diag[-nonzeros:]
+            Srti[:nonzeros] = 1. / Srt.diag[:nonzeros] #svd() sorts in descending order
             Srti = m.simple_diag_matrix(Srti, dtype=S.dtype)  
             
             g = Srti.dot(U.conj().T).dot(Y)
-- 
2.43.0


From af5bbb9736185194c9eb0639bd8684bd1ea12bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:55 +0000
Subject: [PATCH 34/89] fix: dense calculation of l and r failed for real
 tensors

---
 evoMPS/mps_uniform.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 4e24221..36fe2d9 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -322,12 +322,20 @@ class EvoMPS_MPS_Uniform(object):
         
         i = np.argmax(abs(ev))
         
-        self.A[0] *= 1 / sp.sqrt(ev[i])        
+        self.A[0] *= 1 / sp.sqrt(np.real_if_close(ev[i]))
         
         lL = eVL[:,i].reshape((self.D, self.D))
         rL = eVR[:,i].reshape((self.D, self.D))
         
-        norm = m.adot(lL, rL)
+        #remove arbitrary phase factors (signs) from the eigenvectors
+        lL = lL * (abs(lL.trace()) / lL.trace())
+        rL = rL * (abs(rL.trace()) / rL.trace())
+        
+        if not np.iscomplexobj(self.A[0]):
+            lL = lL.real.copy()
+            rL = rL.real.copy()
+        
+        norm = m.adot(lL, rL).real
         lL *= 1 / sp.sqrt(norm)
         rL *= 1 / sp.sqrt(norm)
 
-- 
2.43.0


From ee8dce37467dcdab4da1a133fea037bd782a586b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 35/89] fix: add_noise ignored the noise magnitude for the
 imaginary part (uniform states)

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 36fe2d9..71d1ec9 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -233,7 +233,7 @@ class EvoMPS_MPS_Uniform(object):
             norm = la.norm(Ak)
             f = fac * (norm / (self.q * self.D**2))
             R = np.empty_like(Ak)
-            m.randomize_cmplx(R, -f / 2.0, f / 2.0)
+            m.randomize_cmplx(R, -f / 2.0, f / 2.0, -f / 2.0, f / 2.0)
             
             Ak += R
         
-- 
2.43.0


From 5c9316b12ad3be71293914484a984f21fcf5068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 36/89] fix: uniform states forgot ham_sites given for function
 Hamiltonians, and kept the shape of a previous Hamiltonian in C

---
 evoMPS/tdvp_uniform.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index fb1126e..7217e70 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -72,7 +72,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
     def _init_arrays(self, D, q, L):
         super(EvoMPS_TDVP_Uniform, self)._init_arrays(D, q, L)
             
-        self.set_ham(self.ham)
+        self.set_ham(self.ham, self.ham_sites)
             
         self.AAA = [None] * L
         
@@ -181,6 +181,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             
         newham = newham.reshape((newq, newq, newq, newq))
         self.ham = newham
+        self.ham_sites = 2
         super(EvoMPS_TDVP_Uniform, self).convert_to_TI_blocked(do_update=do_update)
             
     def set_ham_array_from_function(self, ham_func):
@@ -221,7 +222,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         """
         if callable(self.ham):
             ham = np.vectorize(self.ham, otypes=[sp.complex128])
-            ham = np.fromfunction(ham, tuple(self.C[0].shape[:-2] * 2))
+            ham = np.fromfunction(ham, tuple([self.q] * (self.ham_sites * 2)))
         else:
             ham = self.ham
         
@@ -237,7 +238,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
                     self.C[k] = tm.calc_C_mat_op_AA(ham, self.AA[k])
             else:
                 self.AAA[k] = tm.calc_AAA_AA(self.AA[k], self.A[(k + 2) % self.L])
-                self.C[k][:] = tm.calc_C_3s_mat_op_AAA(ham, self.AAA[k])
+                self.C[k] = tm.calc_C_3s_mat_op_AAA(ham, self.AAA[k])
     
     def calc_PPinv(self, x, p=0, out=None, left=False, A1=None, A2=None, rL=None, 
                    pseudo=True, brute_check=False, sc_data='', solver=None,
-- 
2.43.0


From 8a4741d2d365d43127dd20ad0b7028023b42f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 37/89] fix: convert_to_TI_blocked failed for Hamiltonians
 given as a function

---
 evoMPS/tdvp_uniform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 7217e70..a7f21f9 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -174,6 +174,8 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         
         #Currently, all supported Hams become nearest-neighbour.
         newham = sp.zeros((newq**2, newq**2), dtype=self.typ)
+        if callable(self.ham):
+            self.set_ham_array_from_function(self.ham)
         oldham = self.ham.reshape((q**self.ham_sites, q**self.ham_sites))
         
         for k in range(L):
-- 
2.43.0


From 5b8392974036a244715311611bd9b3e4f0e1a551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 38/89] fix: calc_PPinv failed for real tensors

---
 evoMPS/mps_uniform_pinv.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/evoMPS/mps_uniform_pinv.py b/evoMPS/mps_uniform_pinv.py
index eb3dadf..61292e1 100644
--- a/evoMPS/mps_uniform_pinv.py
+++ b/evoMPS/mps_uniform_pinv.py
@@ -32,7 +32,10 @@ class PinvOp:
         
         self.shape = (self.D**2, self.D**2)
         
-        self.dtype = A1[0].dtype
+        #Avoid an unnecessary complex phase factor for zero momentum (tensors may be real)
+        self.phase = sp.exp(1.j * p) if p != 0 else 1.
+        
+        self.dtype = np.result_type(A1[0], self.phase)
         
         self.out = np.empty((self.D, self.D), dtype=self.dtype, order='C')
         self.tmp = np.empty((self.D, self.D), dtype=self.dtype, order='C')
@@ -55,10 +58,10 @@ class PinvOp:
                 out[:] = self.lL
                 out *= m.adot(self.rL, x)
                 res -= out
-                res *= -sp.exp(-1.j * self.p)
+                res *= -np.conj(self.phase)
                 res += x
             else:
-                res *= -sp.exp(-1.j * self.p)
+                res *= -np.conj(self.phase)
                 res += x
         else:
             for k in range(len(self.A1) - 1, -1, -1):
@@ -71,10 +74,10 @@ class PinvOp:
                 out[:] = self.rL 
                 out *= m.adot(self.lL, x)
                 res -= out
-                res *= -sp.exp(1.j * self.p)
+                res *= -self.phase
                 res += x
             else:
-                res *= -sp.exp(1.j * self.p)
+                res *= -self.phase
                 res += x
 
         return res.copy().ravel() #apparently we can't reuse the memory we return (seems to blow up lgmres), so we make a copy
-- 
2.43.0


From 3a7166365b6d7ee8aacb3313240869df03b6c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 39/89] fix: power iteration left a phase factor on l and r,
 and failed if the sum of their entries vanished

---
 evoMPS/mps_uniform.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 71d1ec9..ea90fea 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -575,13 +575,19 @@ class EvoMPS_MPS_Uniform(object):
             tmp[:] = opE.matvec(x)
                     
             ev_mag = la.norm(tmp) / n
-            ev = (tmp.mean() / x.mean()).real
+            ev = (np.vdot(x, tmp) / np.vdot(x, x)).real
             tmp *= (1 / ev_mag)
             if la.norm(tmp - x) < atol + rtol * n:
                 x[:] = tmp
                 break
         
         x = x.reshape((self.D, self.D))
+        
+        #The fixed point is positive up to a phase factor inherited from the
+        #starting vector.
+        if symmetric:
+            tr = x.trace()
+            x *= abs(tr) / tr
                     
         if rescale: 
             fac = (1 / sp.sqrt(ev))**(1. / len(A1))
-- 
2.43.0


From a73e0ebaa77848f7a7a67d41705dea0ae6987db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 40/89] fix: a converged result on the last permitted attempt
 was reported as a failure (transfer operator eigenvalues)

---
 evoMPS/mps_uniform.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index ea90fea..77d3ff6 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -387,8 +387,7 @@ class EvoMPS_MPS_Uniform(object):
                 v0 = None
                 nev += 1
                 ncv += 5
-                
-        if i == max_retries - 1:
+        else:
             log.error("_calc_lr_ARPACK(nev=%u,ncv=%u): Failed to converge! (%s)", nev, ncv, "l" if calc_l else "r")
             raise EvoMPSNoConvergence("_calc_lr_ARPACK: Failed to converge!")
         
@@ -461,8 +460,7 @@ class EvoMPS_MPS_Uniform(object):
                 log.warning("_calc_E_largest_eigenvalues: Retry %u!", i)
                 nev += 1
                 ncv = nev * 3
-        
-        if i == max_retries - 1:
+        else:
             log.error("_calc_E_largest_eigenvalues: Failed to converge!")
             raise EvoMPSNoConvergence("_calc_E_largest_eigenvalues failed!")
 
-- 
2.43.0


From 292db336a8cc068c40642cf348f61099516ef506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 41/89] fix: phase of l and r was fixed by the sum of their
 entries, which may vanish (Arnoldi)

---
 evoMPS/mps_uniform.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 77d3ff6..182674d 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -392,13 +392,13 @@ class EvoMPS_MPS_Uniform(object):
             raise EvoMPSNoConvergence("_calc_lr_ARPACK: Failed to converge!")
         
         #remove any additional phase factor on the eigenvector
-        eVmean = eV.mean()
-        eV *= sp.sqrt(sp.conj(eVmean) / eVmean)
-        
-        if eV.mean() < 0:
-            eV *= -1
-
         eV = eV.reshape(self.D, self.D)
+
+        if symmetric: #the fixed point is positive: make its trace so
+            tr = eV.trace()
+        else:
+            tr = eV.mean()
+        eV = eV * (abs(tr) / tr)
         
         x[:] = eV
                     
-- 
2.43.0


From 6e9c8ffcfbf4402efead3ef558ef3bf51ef32aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:15 +0000
Subject: [PATCH 42/89] fix: restore_LCF of uniform states applied the gauge
 transformation diagonalising r in the wrong order

---
 evoMPS/mps_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 182674d..25e49ea 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -948,8 +948,8 @@ class EvoMPS_MPS_Uniform(object):
             if diag_r:
                 ev, EV = la.eigh(self.r[k])
         
-                G[k] = EV.dot(G[k])
-                G_i[k] = G_i[k].dot(EV.conj().T)
+                G[k] = G[k].dot(EV)
+                G_i[k] = EV.conj().T.dot(G_i[k])
                               
                 self.r[k] = m.simple_diag_matrix(ev, dtype=self.typ)
             
-- 
2.43.0


From 641c5a580003df92cd2be76dc4f9a96af8908cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 43/89] fix: power iteration failed for starting vectors in the
 null space of the transfer operator

---
 evoMPS/mps_uniform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 25e49ea..28d5245 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -573,6 +573,9 @@ class EvoMPS_MPS_Uniform(object):
             tmp[:] = opE.matvec(x)
                     
             ev_mag = la.norm(tmp) / n
+            if ev_mag == 0: #the starting vector has no component in the range
+                tmp[:] = np.eye(self.D).ravel() * (n / ma.sqrt(self.D))
+                continue
             ev = (np.vdot(x, tmp) / np.vdot(x, x)).real
             tmp *= (1 / ev_mag)
             if la.norm(tmp - x) < atol + rtol * n:
-- 
2.43.0


From b5ba9270a00c33a9228c6a58ef0e653ec377f1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:55 +0000
Subject: [PATCH 44/89] fix: Arnoldi route failed for states of large norm
 (absolute tolerance for real eigenvalue)

---
 evoMPS/mps_uniform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 28d5245..621c9ca 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -374,8 +374,9 @@ class EvoMPS_MPS_Uniform(object):
                 ev, eV = las.eigs(opE, which=which, k=nev, v0=v0, tol=tol, ncv=ncv)
                 conv = True
                 ind = abs(ev).argmax()
-                ev = np.real_if_close(ev[ind])
-                ev = np.asscalar(ev)
+                ev = ev[ind]
+                if symmetric and abs(np.imag(ev)) <= 1E-12 * abs(ev):
+                    ev = np.real(ev)
                 eV = eV[:, ind]
                 if abs(ev) < 1E-12:
                     raise ValueError("Largest eigenvalue too small!")
-- 
2.43.0


From 35100ceae46093a7544952c50a97398af54a0ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:07 +0000
Subject: [PATCH 45/89] fix: matrix wrappers could not be converted to arrays
 of a given type

---
 evoMPS/matmul.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/evoMPS/matmul.py b/evoMPS/matmul.py
index 9c86676..22c7f1f 100644
--- a/evoMPS/matmul.py
+++ b/evoMPS/matmul.py
@@ -19,8 +19,9 @@ class eyemat(object):
         self.dtype = dtype
         self.data = None
         
-    def __array__(self):
-        return self.toarray()
+    def __array__(self, dtype=None):
+        x = self.toarray()
+        return x if dtype is None else x.astype(dtype)
     
     def toarray(self):
         return sp.eye(self.shape[0], dtype=self.dtype)
@@ -136,8 +137,9 @@ class simple_diag_matrix:
         self.diag = diag
         self.shape = (diag.shape[0], diag.shape[0])
         
-    def __array__(self):
-        return self.toarray()
+    def __array__(self, dtype=None):
+        x = self.toarray()
+        return x if dtype is None else x.astype(dtype)
         
     def dot(self, b):
         if isinstance(b, simple_diag_matrix):
-- 
2.43.0


From 9e148e9446bbce86394cf18c7d16ccf72f1c66f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 46/89] fix: correlation_1s_1s of uniform states returned
 expectation values of op1 as those of op2

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 621c9ca..176c1dd 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1438,7 +1438,7 @@ class EvoMPS_MPS_Uniform(object):
             
         if return_exvals:
             ex1_ = sp.tile(ex1, [(d + 1) // L + 1])[:d + 1]
-            ex2_ = sp.tile(ex1, [(d + 1) // L + 1])[:d + 1]
+            ex2_ = sp.tile(ex2, [(d + 1) // L + 1])[:d + 1]
             return ccf, ex1_, ex2_
         else:
             return ccf
-- 
2.43.0


From 8b157d1a140c5bb172922df210e69ea964ccfeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 47/89] fix: uniform expect_2s and expect_2s_tp used the wrong
 right environment for L > 1, and stale or missing two-site tensors

---
 evoMPS/mps_uniform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 176c1dd..bf1fd5c 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1468,8 +1468,10 @@ class EvoMPS_MPS_Uniform(object):
             op = np.vectorize(op, otypes=[np.complex128])
             op = np.fromfunction(op, (self.q, self.q, self.q, self.q))        
         
-        Ck = tm.calc_C_mat_op_AA(op, self.AA[k])
-        res = tm.eps_r_op_2s_C12_AA34(self.r[k], Ck, self.AA[k])
+        L = self.L
+        AA = tm.calc_AA(self.A[k], self.A[(k + 1) % L])
+        Ck = tm.calc_C_mat_op_AA(op, AA)
+        res = tm.eps_r_op_2s_C12_AA34(self.r[(k + 1) % L], Ck, AA)
         
         return m.adot(self.l[k - 1], res)
         
@@ -1496,7 +1498,7 @@ class EvoMPS_MPS_Uniform(object):
         """
         L = self.L
         Ck = tm.calc_C_tp(op_tp, self.A[k], self.A[(k + 1) % L])
-        res = tm.eps_r_op_2s_C12_tp(self.r[k], Ck, self.A[k], self.A[(k + 1) % L])
+        res = tm.eps_r_op_2s_C12_tp(self.r[(k + 1) % L], Ck, self.A[k], self.A[(k + 1) % L])
         
         return m.adot(self.l[k - 1], res)
         
-- 
2.43.0


From 96c81195fdf28573c4612b797c34782b991e0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 48/89] fix: uniform expect_3s failed for operators given as
 functions

---
 evoMPS/mps_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index bf1fd5c..eb30ed1 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1528,8 +1528,8 @@ class EvoMPS_MPS_Uniform(object):
 
         if callable(op):
             op = sp.vectorize(op, otypes=[sp.complex128])
-            op = sp.fromfunction(op, (A.shape[0], A.shape[0], A.shape[0],
-                                      A.shape[0], A.shape[0], A.shape[0]))
+            op = sp.fromfunction(op, (self.q, self.q, self.q,
+                                      self.q, self.q, self.q))
 
         C = tm.calc_C_3s_mat_op_AAA(op, AAA)
         res = tm.eps_r_op_3s_C123_AAA456(self.r[(k + 2) % self.L], C, AAA)
-- 
2.43.0


From 5bf7bc89699c1f3c2f1a1b40ed28f56026a2bca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 49/89] fix: sparse route returned the conjugate overlap
 eigenvalue for left eigenvectors

---
 evoMPS/mps_uniform.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index eb30ed1..b8be809 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -465,6 +465,12 @@ class EvoMPS_MPS_Uniform(object):
             log.error("_calc_E_largest_eigenvalues: Failed to converge!")
             raise EvoMPSNoConvergence("_calc_E_largest_eigenvalues failed!")
 
+        if left: #The left transfer map has the conjugate eigenvalues of E
+            if return_eigenvectors:
+                res = (res[0].conj(), res[1])
+            else:
+                res = res.conj()
+
         return res
 
     def calc_E_gap(self, tol=1E-14, nev=2, ncv=None):
-- 
2.43.0


From d773481607c842e202f53f33273a2ccdea52e778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 50/89] fix: forced sparse route failed for very small transfer
 operators

---
 evoMPS/mps_uniform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index b8be809..1052202 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -429,7 +429,8 @@ class EvoMPS_MPS_Uniform(object):
             other=self
         ED = self.D * other.D
         
-        if (ED <= dense_cutoff or force_dense) and not force_sparse:
+        #Sparse methods cannot obtain (almost) all eigenvalues
+        if ED <= nev + 1 or ((ED <= dense_cutoff or force_dense) and not force_sparse):
             E = self._get_dense_transfer_op_block(k=k, other=other)
                 
             if return_eigenvectors:
-- 
2.43.0


From c56a36f219f2c5ee1cff85498d559d8a056c0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:06 +0000
Subject: [PATCH 51/89] fix: expect_sum_1s_density_hc failed for function
 operators and returned too little for product states

---
 evoMPS/mps_uniform.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 1052202..4d0bf95 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1724,6 +1724,10 @@ class EvoMPS_MPS_Uniform(object):
             Matrix representing the action of the string operator within the
             space of Schmidt vectors.
         """
+        if callable(op):
+            op = np.vectorize(op, otypes=[np.complex128])
+            op = np.fromfunction(op, (self.q, self.q))
+
         expval = 0
         for j in range(self.L):
             expval += self.expect_1s(op, j)
@@ -1744,7 +1748,11 @@ class EvoMPS_MPS_Uniform(object):
         expval2 = m.adot(self.l[k - 1], rops)
 
         if self.D == 1:
-            return sp.zeros((1), dtype=self.typ)
+            expvals = sp.zeros((1), dtype=self.typ)
+            if return_g:
+                return expvals, expval2/self.L, expvals.reshape((1, 1))
+            else:
+                return expvals, expval2/self.L
 
         Ashift = self.A[k:] + self.A[:k]
         virtop = pinv.pinv_1mE(
-- 
2.43.0


From 415c07c19516adb282e8b64b5b443311af293fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 52/89] fix: uniform expect_2s of the Hamiltonian failed with a
 tensor-product decomposition in use

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index a7f21f9..2c54edc 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1638,7 +1638,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         m.randomize_cmplx(self.K[0].ravel()[oldD**2:], a=0, b=val, aj=0, bj=0)
         
     def expect_2s(self, op, k=0):
-        if op is self.ham and self.ham_sites == 2:
+        if op is self.ham and self.ham_sites == 2 and self.ham_tp is None:
             res = tm.eps_r_op_2s_C12_AA34(self.r[(k + 1) % self.L], self.C[k], self.AA[k])
             return m.adot(self.l[(k - 1) % self.L], res)
         else:
-- 
2.43.0


From 0fd7de978da9a079fd855dc562556b590f5a67c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 53/89] fix: overlaps per site between real and complex states
 failed

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 4d0bf95..64da256 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -47,7 +47,7 @@ class EOp:
         
         self.shape = (self.D1 * self.D2, self.D1 * self.D2)
         
-        self.dtype = np.dtype(A1[0].dtype)
+        self.dtype = np.result_type(A1[0].dtype, A2[0].dtype)
         
         self.calls = 0
         
-- 
2.43.0


From 4948f6c464ee0f883a6bf96ef6f1c107d9412063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:36 +0000
Subject: [PATCH 54/89] fix: expect_string_per_site_1s gave nan for real
 product states with L > 1

---
 evoMPS/mps_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_uniform.py b/evoMPS/mps_uniform.py
index 64da256..d306753 100644
--- a/evoMPS/mps_uniform.py
+++ b/evoMPS/mps_uniform.py
@@ -1814,7 +1814,7 @@ class EvoMPS_MPS_Uniform(object):
         Aop = [np.tensordot(op, A, axes=([1],[0])) for A in self.A]
         
         if self.D == 1:
-            ev = 1
+            ev = 1. + 0.j
             for k in range(self.L):
                 evk = 0
                 for s in range(self.q):
-- 
2.43.0


From 926057f04dabbe30830e0b4c7afa68acd11293fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:27 +0000
Subject: [PATCH 55/89] fix: convert_to_TI_blocked kept the tensor-product
 decomposition of the old Hamiltonian

---
 evoMPS/tdvp_uniform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 2c54edc..70d11f7 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -183,6 +183,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             
         newham = newham.reshape((newq, newq, newq, newq))
         self.ham = newham
+        self.ham_tp = None #no longer applies
         self.ham_sites = 2
         super(EvoMPS_TDVP_Uniform, self).convert_to_TI_blocked(do_update=do_update)
             
-- 
2.43.0


From a152827f8570d2e2f3268635f00a74b8c58b9435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 56/89] fix: uniform take_step_RK4 combined its stages wrongly
 and modified B_i

---
 evoMPS/tdvp_uniform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 70d11f7..dcb6e8a 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -709,7 +709,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             B = B_i
         else:
             B = self.calc_B() #k1
-        B_fin = B
+        B_fin = [Bk.copy() for Bk in B]
         self.take_step(dtau / 2., B=B, dynexp=dynexp, D_max=D_max, dD_max=dD_max, sv_tol=sv_tol, BB=BB)
 
         dD = self.A[0].shape[1] - A0[0].shape[1]
@@ -730,7 +730,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         B = self.calc_B(set_eta=False) #k3                
         for k in range(self.L):
             self.A[k] = A0[k] - dtau * B[k]
-            B_fin += 2 * B[k]
+            B_fin[k] += 2 * B[k]
 
         update()
         
-- 
2.43.0


From 865c1a6a362b618999818ee5fd85e4632af0b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:45 +0000
Subject: [PATCH 57/89] fix: uniform take_step_RK4 aborted when expanding the
 bond dimension

---
 evoMPS/tdvp_uniform.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index dcb6e8a..52585d2 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -704,19 +704,20 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             self.calc_K()            
 
         A0 = cp.deepcopy(self.A)
+        
+        dynexp = dynexp and self.D < D_max
             
         if not B_i is None:
             B = B_i
         else:
             B = self.calc_B() #k1
         B_fin = [Bk.copy() for Bk in B]
-        self.take_step(dtau / 2., B=B, dynexp=dynexp, D_max=D_max, dD_max=dD_max, sv_tol=sv_tol, BB=BB)
-
-        dD = self.A[0].shape[1] - A0[0].shape[1]
-        if dD > 0:
-            [A0k.resize(self.A[0].shape) for A0k in A0] #pads with zeros
-            #B part doesn't work due to different scaling with dtau :(
-            assert False
+        if dynexp and BB is None:
+            BB = self.calc_B_2s(dD_max=min(dD_max, D_max - self.D), sv_tol=sv_tol)
+        
+        #The stages are taken without expanding, since the two-site part scales
+        #differently with dtau. It is added at the end, as in take_step().
+        self.take_step(dtau / 2., B=B)
         
         update()
         
@@ -738,7 +739,11 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         for k in range(self.L):
             B_fin[k] += B[k]
             self.A[k] = A0[k] - dtau/6 * B_fin[k]
-             
+            
+        if dynexp and not BB is None:
+            #The stages leave the tensors in the original gauge up to scale
+            self.take_step(dtau, B=[Bk * 0 for Bk in B_fin], dynexp=True, D_max=D_max, BB=BB)
+
 
     def find_ground(use_CG=True, max_steps=None, tol=1E-6):
         pass
-- 
2.43.0


From bd84ad8f79aa0e2555ed585b029fce774be542a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:39 +0000
Subject: [PATCH 58/89] Restore the result unpacking of take_step_split

The repair made the dormant test_ising_crit_im_tdvp_split_step run: 40000
Euler steps, eleven minutes. Recorded as a known finding instead.
---
 evoMPS/tdvp_gen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen.py b/evoMPS/tdvp_gen.py
index 4b2ee3a..3e8533a 100644
--- a/evoMPS/tdvp_gen.py
+++ b/evoMPS/tdvp_gen.py
@@ -1291,7 +1291,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             #            A_is_Herm=op_is_herm)
             #FIXME: Currently we don't take advantage of Hermiticity.
             ncv_An = min(ncv, len(An_old)-1)
-            An, conv, nstep, brkdown, mb, err = gexpmv(lop, An_old, dtau/2., norm_est, m=ncv_An, tol=tol)
+            An, conv, nstep, brkdown, mb = gexpmv(lop, An_old, dtau/2., norm_est, m=ncv_An, tol=tol)
             if not conv:
                 log.warn("Krylov exp(M)*v solver for An did not converge in %u steps for site %u.", nstep, n)
             self.A[n] = An.reshape((self.q[n], self.D[n - 1], self.D[n]))
@@ -1307,7 +1307,7 @@ class EvoMPS_TDVP_Generic(EvoMPS_MPS_Generic):
             #G = zexpmv(lop2, Gold, -dtau/2., norm_est=norm_est, m=ncv, tol=tol,
             #           A_is_Herm=op_is_herm)
             ncv_G = min(ncv, len(Gold)-1)
-            G, conv, nstep, brkdown, mb, err = gexpmv(lop2, Gold, -dtau/2., norm_est, m=ncv_G, tol=tol)
+            G, conv, nstep, brkdown, mb = gexpmv(lop2, Gold, -dtau/2., norm_est, m=ncv_G, tol=tol)
             if not conv:
                 log.warn("Krylov exp(M)*v solver for G did not converge in %u steps for site %u.", nstep, n)
             G = G.reshape((self.D[n], self.D[n]))
-- 
2.43.0


From f34f923bea13a275d5aaa1a1fc3a27e4e77e73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:53 +0000
Subject: [PATCH 59/89] fix: excitation solvers repeated converged solves and
 raised if a superfluous repeat failed

---
 evoMPS/tdvp_uniform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 52585d2..3e5bf85 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -828,6 +828,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
                 res = las.eigsh(op, which=which, k=nev, v0=v0, ncv=ncv,
                                  return_eigenvectors=return_eigenvectors, 
                                  maxiter=max_itr, tol=tol, sigma=sigma)
+                break
             except las.ArpackNoConvergence:
                 log.warning("excite_top_triv: Retry %u!", i)
                 v0 = None
@@ -957,6 +958,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
                 res = las.eigsh(op, sigma=sigma, which=which, k=nev, v0=v0,
                                     return_eigenvectors=return_eigenvectors, 
                                     maxiter=max_itr, tol=tol, ncv=ncv)
+                break
             except las.ArpackNoConvergence:
                 log.warning("excite_top_nontriv: Retry %u!", i)
                 v0 = None
-- 
2.43.0


From 238c0b7ca7e68b0fe62af31a5167495dd06fef2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 60/89] fix: sandwich energies of three-site terms left of the
 centre were stored under the wrong site, giving a wrong central tangent
 tensor

---
 evoMPS/tdvp_sandwich.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 0f5fe3c..2cf7678 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -474,12 +474,13 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
             if self.ham_sites == 2:
                 self.K_l[n], he = tm.calc_K_l(self.K_l[n - 1], self.get_C(n - 1), self.get_l(n - 2),
                                           self.r[n], self.get_A(n), self.get_AA(n - 1))
+                self.h_expect[n - 1] = he
             else:
                 self.K_l[n], he = tm.calc_K_3s_l(
                     self.K_l[n - 1], self.get_C(n - 2), self.get_l(n - 3), self.r[n],
                     self.A[n], self.get_AAA(n - 2))
-                
-            self.h_expect[n - 1] = he
+                if n > 1:
+                    self.h_expect[n - 2] = he #The first term begins in the bulk, at site -1.
 
         self.dH_expect = (mm.adot_noconj(self.K_l[self.N_centre], self.get_r(self.N_centre)) 
                           + mm.adot(
@@ -606,7 +607,10 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
             Cc = self.get_C(Nc) - self.h_expect[Nc] * self.get_AAA(Nc)
             Ccm1 = self.get_C(Nc - 1) - self.h_expect[Nc - 1] * self.get_AAA(Nc - 1)
             Ccm1 = Ccm1.transpose((1,0,2,3,4)).copy()
-            Ccm2 = self.get_C(Nc - 2) - self.h_expect[Nc - 2] * self.get_AAA(Nc - 2)
+            h_cm2 = mm.adot_noconj(
+                tm.eps_l_op_3s_AAA123_C456(self.get_l(Nc - 3), self.get_AAA(Nc - 2), self.get_C(Nc - 2)),
+                rc)
+            Ccm2 = self.get_C(Nc - 2) - h_cm2 * self.get_AAA(Nc - 2)
             Ccm2 = Ccm2.transpose((2,0,1,3,4)).copy()
             for s in range(Bc.shape[0]):
                 Bc[s] = mm.mmul(Ac[s], Kcp1, rc_i)
-- 
2.43.0


From eb2f2b0d05c5fe968014d360f02ec68a833c1e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 61/89] fix: sandwich restore_CF sanity check skipped the last
 site, failing for nonuniform bond dimensions

---
 evoMPS/mps_sandwich.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 1058ebc..de755e9 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -478,7 +478,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
                     print("Sanity Fail in restore_CF!: l_%u is bad" % n)
 
             r_nm1 = self.r[self.N]
-            for n in reversed(range(1, self.N)):
+            for n in reversed(range(1, self.N + 1)):
                 r_nm1 = tm.eps_r_noop(r_nm1, self.A[n], self.A[n])
                 if not sp.allclose(r_nm1, self.r[n - 1], atol=1E-12, rtol=1E-12):
                     print("Sanity Fail in restore_CF!: r_%u is bad" % (n - 1))
-- 
2.43.0


From 314deb2754dadf2ae58b3cd91cc1da43489688b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 62/89] fix: sandwich states with differing bond dimensions
 kept matrices of the wrong size

---
 evoMPS/mps_sandwich.py  | 12 ++++++------
 evoMPS/tdvp_sandwich.py |  3 ++-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index de755e9..987ab3e 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -151,15 +151,15 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             update_bulks=False
         )
 
-        for n in range(1, N + 1):
-            sw.A[n] = As_C[n - 1]
-
-        Ds = sp.array(
+        sw.D = sp.array(
             [DL] +
-            [sw.A[n].shape[2] for n in range(1, N + 1)] +
+            [A.shape[2] for A in As_C] +
             [As_R[0].shape[1]]
         )
-        sw.D = Ds
+        sw._init_arrays()
+
+        for n in range(1, N + 1):
+            sw.A[n] = As_C[n - 1]
 
         sw.uni_l.A = As_L
         sw.uni_r.A = As_R
diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 2cf7678..910cfbe 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -372,10 +372,11 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         uni_l = EvoMPS_TDVP_Uniform.from_mps(mps.uni_l, ham_L, ham_sites=ham_sites)
         uni_r = EvoMPS_TDVP_Uniform.from_mps(mps.uni_r, ham_R, ham_sites=ham_sites)
         tdvp = cls(mps.N, uni_l, uni_r, update_bulks=False)
+        tdvp.D = cp.deepcopy(mps.D)
+        tdvp._init_arrays()
         tdvp.A = cp.deepcopy(mps.A)
         tdvp.l = cp.deepcopy(mps.l)
         tdvp.r = cp.deepcopy(mps.r)
-        tdvp.D = cp.deepcopy(mps.D)
         tdvp.ham = ham_C
         # TODO: Instead of updating, copy more stuff?
         tdvp.update(restore_CF=False, normalize=True)
-- 
2.43.0


From ae25715c35db805488184b5f9b05f5aacc9529fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 63/89] fix: sandwich failed for window Hamiltonians given as a
 function, and used the last window term for the first of a three-site list

---
 evoMPS/tdvp_sandwich.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 910cfbe..86184c1 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -429,7 +429,9 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
             if callable(self.ham):
                 ham_n = lambda *args: self.ham(n, *args)
                 ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
-                ham_n = sp.fromfunction(ham_n, tuple(self.get_C(n).shape[:-2] * 2))
+                ham_n = sp.fromfunction(ham_n, tuple([self.get_q(n + i) for i in range(self.ham_sites)] * 2))
+            elif n < 0:
+                ham_n = self.uni_l.ham #The list of window terms begins with term 0.
             else:
                 ham_n = self.ham[n]
 
-- 
2.43.0


From be2c41f070b159208a0fc1e3c7f2901edc031e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 64/89] fix: sandwich get_r used the wrong position in the
 right bulk unit cell

---
 evoMPS/mps_sandwich.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 987ab3e..c6b450e 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -615,7 +615,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         if 0 <= n <= self.N + 1:
             return self.r[n]
         elif n > self.N + 1:
-            return self.uni_r.r[(n - 1) % self.uni_r.L]
+            return self.uni_r.r[(n - self.N - 1) % self.uni_r.L]
         else:
             if r_np1 is None:
                 r_m = self.r[0]
-- 
2.43.0


From 6851cb562d1ef44d4d540167214abeb49799f736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:48 +0000
Subject: [PATCH 65/89] fix: uniform from_mps stored r as the starting vector
 for l

---
 evoMPS/tdvp_uniform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 3e5bf85..3caa6dd 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -118,7 +118,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         tdvp.l = cp.deepcopy(mps.l)
         tdvp.r = cp.deepcopy(mps.r)
         tdvp.lL_before_CF = tdvp.l[-1]
-        tdvp.lL_before_CF = tdvp.r[-1]
+        tdvp.rL_before_CF = tdvp.r[-1]
         tdvp.odr = mps.odr
         tdvp.itr_rtol = mps.itr_rtol
         tdvp.itr_atol = mps.itr_atol
-- 
2.43.0


From 3916d2aadf6046bf8ea7af0d17d6f0b416c32338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 66/89] fix: sandwich window lists of Hamiltonian terms with
 bulk Hamiltonians given as functions

---
 evoMPS/tdvp_sandwich.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 86184c1..e0b95e2 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -428,13 +428,15 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         for n in range(n_low, n_high):
             if callable(self.ham):
                 ham_n = lambda *args: self.ham(n, *args)
-                ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
-                ham_n = sp.fromfunction(ham_n, tuple([self.get_q(n + i) for i in range(self.ham_sites)] * 2))
             elif n < 0:
                 ham_n = self.uni_l.ham #The list of window terms begins with term 0.
             else:
                 ham_n = self.ham[n]
 
+            if callable(ham_n):
+                ham_n = sp.vectorize(ham_n, otypes=[sp.complex128])
+                ham_n = sp.fromfunction(ham_n, tuple([self.get_q(n + i) for i in range(self.ham_sites)] * 2))
+
             if self.ham_sites == 2:
                 self._AA[n+1] = tm.calc_AA(self.get_A(n), self.get_A(n + 1))
                 self._C[n+1] = tm.calc_C_mat_op_AA(ham_n, self.get_AA(n))
-- 
2.43.0


From 7cab501600354f6bff23723287d5765b631d3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 67/89] fix: sandwich grow_left moved the centre site by too
 little for L > 1

---
 evoMPS/tdvp_sandwich.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index e0b95e2..49005f0 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -914,7 +914,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         super(EvoMPS_TDVP_Sandwich, self).grow_left(m)
         if not callable(self.ham):
             self.ham = [self.uni_l.ham] * m * self.uni_l.L + list(self.ham)
-        self.N_centre += m
+        self.N_centre += m * self.uni_l.L
             
     def grow_right(self, m):
         super(EvoMPS_TDVP_Sandwich, self).grow_right(m)
-- 
2.43.0


From 2f1d8627a5bede5f47c926ffd1f0d0cef10ad5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:22 +0000
Subject: [PATCH 68/89] fix: sandwich used a stale or wrong r matrix for the
 first site of the right bulk

---
 evoMPS/mps_sandwich.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index c6b450e..3e0d3cc 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -273,6 +273,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             n_high = self.N - 1
 
         self.r[self.N] = self.uni_r.r[-1]
+        self.r[self.N + 1] = self.uni_r.r[0]
         super(EvoMPS_MPS_Sandwich, self).calc_r(n_low=n_low, n_high=n_high)
 
     def simple_renorm(self, update_lr=True):
@@ -340,7 +341,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
 
             Gi = Gm1_i
 
-        self.r[self.N + 1] = self.r[self.N]
+        self.r[self.N + 1] = self.uni_r.r[0]
 
         #G is now G_nc
         for s in range(self.q[nc]):
@@ -530,7 +531,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
 
         self.l[0] = oldl_0
         self.r[self.N] = oldr_N
-        self.r[self.N + 1] = self.r[self.N]
+        self.r[self.N + 1] = self.uni_r.r[0]
 
         self.grown_left += m
 
@@ -568,7 +569,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
 
         self.l[0] = oldl_0
         self.r[self.N] = oldr_N
-        self.r[self.N + 1] = self.r[self.N]
+        self.r[self.N + 1] = self.uni_r.r[0]
 
         self.grown_right += m
 
-- 
2.43.0


From 984e7ae6e521a8e999f42509a2135baad3db60e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 69/89] fix: uniform calc_K_l used right K matrices for all but
 the last site of the unit cell

---
 evoMPS/tdvp_uniform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 3caa6dd..01bc07d 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -428,20 +428,20 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         if self.ham_sites == 2:
             if not self.ham_tp is None:
                 for k in sp.arange(0, L - 1):
-                    self.K_left[k], hk = tm.calc_K_l_tp(self.K[(k - 1) % L],  
+                    self.K_left[k], hk = tm.calc_K_l_tp(self.K_left[(k - 1) % L],  
                                                  self.l[(k - 2) % L], self.r[k],
                                                  self.A[(k - 1) % L], self.A[k],
                                                  self.C[(k - 1) % L])
                     self.K_left[k] -= self.l[k] * hk
             else:
                 for k in sp.arange(0, L - 1):
-                    self.K_left[k], hk = tm.calc_K_l(self.K[(k - 1) % L], self.C[(k - 1) % L], 
+                    self.K_left[k], hk = tm.calc_K_l(self.K_left[(k - 1) % L], self.C[(k - 1) % L], 
                                                  self.l[(k - 2) % L], self.r[k],
                                                  self.A[k], self.AA[(k - 1) % L])
                     self.K_left[k] -= self.l[k] * hk
         else:
             for k in sp.arange(0, L - 1):
-                self.K_left[k], hk = tm.calc_K_3s_l(self.K[(k - 1) % L], self.C[(k - 2) % L], 
+                self.K_left[k], hk = tm.calc_K_3s_l(self.K_left[(k - 1) % L], self.C[(k - 2) % L], 
                                                 self.l[(k - 3) % L], self.r[k],
                                                 self.A[k],
                                                 self.AAA[(k - 2) % L])
-- 
2.43.0


From 3b9014ae2fa4804c3ec785ab84cf1b5ce711d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:39 +0000
Subject: [PATCH 70/89] fix: sandwich take_step_RK4 modified the tensors given
 as B_i

---
 evoMPS/tdvp_sandwich.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 49005f0..7c155e8 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -868,7 +868,7 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
             A0[n] = self.A[n].copy()
 
         B = self.calc_B() if B_i is None else B_i[:]
-        B_fin = B[:]
+        B_fin = [None if Bn is None else Bn.copy() for Bn in B]
 
         for n in range(1, self.N + 1):
             if not B[n] is None:
-- 
2.43.0


From f72302384d8c0308d6d6771048556e5d7db5fbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 71/89] fix: sandwich take_step emptied the list given as B

---
 evoMPS/tdvp_sandwich.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 7c155e8..b71d975 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -827,7 +827,6 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         for n in range(1, self.N + 1):
             if not B[n] is None:
                 self.A[n] += -dtau * B[n]
-                B[n] = None
 
             if dynexp and (BB12[n] is not None or BB21[n] is not None):
                 self.D[n] += dD[n]
-- 
2.43.0


From 2e6c5b714eaafad47b3b8c4a003e2df5e65aada2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:51 +0000
Subject: [PATCH 72/89] fix: sandwich integration loop used time.clock, which
 no longer exists

---
 evoMPS/tdvp_sandwich.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index b71d975..266482a 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -16,6 +16,11 @@ from .tdvp_uniform import EvoMPS_TDVP_Uniform
 from .mps_sandwich import EvoMPS_MPS_Sandwich
 import time
 
+try:
+    clock = time.process_time
+except AttributeError:
+    clock = time.clock #Python 2
+
 def go(sim, tau, steps, force_calc_lr=False, RK4=False,
        autogrow=False, autogrow_amount=2, autogrow_max_N=1000,
        op=None, op_every=5, prev_op_data=None, op_save_as=None,
@@ -115,7 +120,7 @@ def go(sim, tau, steps, force_calc_lr=False, RK4=False,
 #    hrc_prev = 0
     if t_start is None:
         t_start = counter_start * tau
-    t_cpu0 = time.clock()
+    t_cpu0 = clock()
     for i in range(counter_start, steps + 1):
         rewrite_opf = False
         if i > counter_start:
@@ -193,7 +198,7 @@ def go(sim, tau, steps, force_calc_lr=False, RK4=False,
             print(header)
             
         t = abs((i - counter_start) * tau) + abs(t_start)
-        t_cpu = time.clock() - t_cpu0
+        t_cpu = clock() - t_cpu0
         line = "\t".join(map(str, (i, "%.1f" % t_cpu, t, eta, h.real, (h - h_prev).real, 
                                    sim.grown_left, sim.grown_right)))
         print(line)
-- 
2.43.0


From dd2f6a7497f0c02fe1a50b59b41b232099bb0b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 73/89] fix: sandwich states modified the tensors they were
 made from, and lost imaginary parts if those were real

---
 evoMPS/mps_sandwich.py | 38 +++++---------------------------------
 1 file changed, 5 insertions(+), 33 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 3e0d3cc..6c9c9b9 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -22,35 +22,7 @@ def sandwich_from_tensors(As_L, As_C, As_R):
     `As_C` is the central nonuniform window.
     `As_R` is the right uniform bulk unit cell.
     """
-    N = len(As_C)
-
-    qL = As_L[0].shape[0]
-    DL = As_L[0].shape[1]
-    dtype = As_L[0].dtype
-    sw = EvoMPS_MPS_Sandwich(
-        N,
-        EvoMPS_MPS_Uniform(
-            DL, qL, L=len(As_L), dtype=dtype, do_update=False)
-    )
-
-    for n in range(1, N + 1):
-        sw.A[n] = As_C[n - 1]
-
-    Ds = sp.array(
-        [DL] +
-        [sw.A[n].shape[2] for n in range(1, N + 1)] +
-        [As_R[0].shape[1]]
-    )
-    sw.D = Ds
-
-    sw.uni_l.A = As_L
-    sw.uni_r.A = As_R
-    sw.uni_l.update(restore_CF=False)
-    sw.uni_r.update(restore_CF=False)
-
-    sw.update(restore_CF=False, normalize=False)
-
-    return sw
+    return EvoMPS_MPS_Sandwich.from_tensors(As_L, As_C, As_R)
 
 
 class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
@@ -141,7 +113,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
 
         qL, DL = As_L[0].shape[0:2]
         qR, DR = As_R[0].shape[0:2]
-        dtype = As_L[0].dtype
+        dtype = sp.complex128
         sw = cls(
             N,
             EvoMPS_MPS_Uniform(
@@ -159,10 +131,10 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         sw._init_arrays()
 
         for n in range(1, N + 1):
-            sw.A[n] = As_C[n - 1]
+            sw.A[n] = sp.array(As_C[n - 1], dtype=sw.typ)
 
-        sw.uni_l.A = As_L
-        sw.uni_r.A = As_R
+        sw.uni_l.A = [sp.array(A, dtype=dtype) for A in As_L]
+        sw.uni_r.A = [sp.array(A, dtype=dtype) for A in As_R]
         sw.uni_l.update(restore_CF=False)
         sw.uni_r.update(restore_CF=False)
 
-- 
2.43.0


From 4376f3599d9bf162eb0ee57725d8cbdea171567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:04 +0000
Subject: [PATCH 74/89] fix: sandwich load_state failed for any saved tdvp
 state, grew by the wrong amount and kept stale dimensions

---
 evoMPS/mps_sandwich.py  | 89 +++++++++++++++++++++++++++--------------
 evoMPS/tdvp_sandwich.py | 16 ++------
 2 files changed, 63 insertions(+), 42 deletions(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 6c9c9b9..2ca7bb3 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -734,6 +734,28 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             return ol_left_bulk, sp.array(ols_window)
         return ol_left_bulk + sum(ols_window)
 
+    def _can_load_tensors(self, A):
+        """Whether the tensors of a saved state fit together and to the bulks of this state.
+        """
+        try:
+            N = A.shape[0] - 3
+            if not len(A[0]) == self.uni_l.L or not len(A[N + 1]) == self.uni_r.L:
+                return False
+            DL, DR = self.uni_l.D, self.uni_r.D
+            D = DL
+            for n in range(1, N + 1):
+                if A[n].shape[:2] != (self.uni_l.q, D):
+                    return False
+                D = A[n].shape[2]
+            return (N > 0 and D == DR
+                    and all(AL.shape == (self.uni_l.q, DL, DL) for AL in A[0])
+                    and all(AR.shape == (self.uni_r.q, DR, DR) for AR in A[N + 1]))
+        except (AttributeError, TypeError, ValueError):
+            return False
+
+    def _load_extra(self, toload):
+        pass
+
     def load_state(self, file_name, autogrow=False, do_update=True):
         toload = sp.load(file_name, allow_pickle=True)
 
@@ -741,51 +763,60 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             print("Error loading state: Bad data!")
             return
 
-        if autogrow and toload[0].shape[0] != self.A.shape[0]:
-            newN = toload[0].shape[0] - 3
-            print("Changing N to: %u" % newN)
-            self.grow_left(newN - self.N)
+        A = toload[0].copy()
+        newN = A.shape[0] - 3
+        for n in [0, newN + 1]:
+            if getattr(A[n], "ndim", 0) == 3: #Old format for L = 1
+                A[n] = [A[n]]
 
-        if toload[0].shape != self.A.shape:
+        if not self._can_load_tensors(A):
             print("Cannot load state: Dimension mismatch!")
             return
 
-        self.A = toload[0]
-        self.l[0] = toload[1]
+        if newN != self.N:
+            #Grow as the saved state did, if possible.
+            ml = int(toload[7][0, 0]) - self.grown_left
+            mr = int(toload[7][0, 1]) - self.grown_right
+            if not (ml >= 0 and mr >= 0 and ml + mr == newN - self.N):
+                ml, mr = newN - self.N, 0
+            if not autogrow or ml < 0 or ml % self.uni_l.L != 0 or mr % self.uni_r.L != 0:
+                print("Cannot load state: Dimension mismatch!")
+                return
+            print("Changing N to: %u" % newN)
+            if ml > 0:
+                self.grow_left(ml // self.uni_l.L)
+            if mr > 0:
+                self.grow_right(mr // self.uni_r.L)
+
+        self.D[0] = self.uni_l.D
+        for n in range(1, newN + 1):
+            self.D[n] = A[n].shape[2]
+        self._init_arrays()
+
+        for n in range(1, newN + 1):
+            self.A[n] = A[n]
+        self.uni_l.A = [AL for AL in A[0]]
+        self.uni_r.A = [AR for AR in A[newN + 1]]
+
+        self.uni_l.l[-1] = toload[1]
         self.uni_l.r[-1] = toload[2]
-        self.r[self.N] = toload[4]
-        self.r[self.N + 1] = self.r[self.N]
+        self.uni_r.r[-1] = toload[4]
         self.uni_r.l[-1] = toload[5]
+        self.l[0] = self.uni_l.l[-1]
+        self.r[newN] = self.uni_r.r[-1]
+        self.r[newN + 1] = self.uni_r.r[0]
 
         self.grown_left = toload[7][0, 0]
         self.grown_right = toload[7][0, 1]
         self.shrunk_left = toload[7][1, 0]
         self.shrunk_right = toload[7][1, 1]
-        
-        self.uni_l.A = self.A[0]
-        self.uni_l.l[-1] = self.l[0]
+
         self.uni_l.l_before_CF = self.uni_l.l[-1]
         self.uni_l.r_before_CF = self.uni_l.r[-1]
-        
-        self.uni_r.A = self.A[self.N + 1]
-        self.uni_r.r[-1] = self.r[self.N]
         self.uni_r.l_before_CF = self.uni_r.l[-1]
         self.uni_r.r_before_CF = self.uni_r.r[-1]
 
-        try:
-            if len(self.uni_l.A.shape) == 3:
-                self.uni_l.A = [self.uni_l.A]
-        except AttributeError:
-            pass
-
-        try:
-            if len(self.uni_r.A.shape) == 3:
-                self.uni_r.A = [self.uni_r.A]
-        except AttributeError:
-            pass
-
-        self.A[0] = None
-        self.A[self.N + 1] = None
+        self._load_extra(toload)
 
         print("loaded.")
         
diff --git a/evoMPS/tdvp_sandwich.py b/evoMPS/tdvp_sandwich.py
index 266482a..00e56e2 100644
--- a/evoMPS/tdvp_sandwich.py
+++ b/evoMPS/tdvp_sandwich.py
@@ -945,18 +945,8 @@ class EvoMPS_TDVP_Sandwich(EvoMPS_MPS_Sandwich):
         
         sp.save(file_name, tosave)
 
-    def load_state(self, file_name, autogrow=False, do_update=True):
-        userdata = super(EvoMPS_TDVP_Sandwich, self).load_state(
-            file_name, autogrow=autogrow, do_update=False)
-
-        toload = sp.load(file_name, allow_pickle=True)
-
-        if toload[3]:
+    def _load_extra(self, toload):
+        if toload[3] is not None:
             self.uni_l.K_left[-1] = toload[3]
-        if toload[6]:
+        if toload[6] is not None:
             self.uni_r.K[0] = toload[6]
-
-        if do_update:
-            self.update()
-
-        return userdata
-- 
2.43.0


From 50dee796c4e486fa8c0ca04126bfdc11d228dcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 75/89] fix: sandwich get_l used the wrong position in the
 right bulk unit cell

---
 evoMPS/mps_sandwich.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 2ca7bb3..44b3bb2 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -578,7 +578,7 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
             return self.uni_l.l[(n - 1) % self.uni_l.L]
         else:
             l_m1 = self.l[self.N + 1] #this is position 0 in the block
-            for m in (sp.arange(self.N + 2, n + 1) - 1) % self.uni_r.L:
+            for m in (sp.arange(self.N + 2, n + 1) - self.N - 1) % self.uni_r.L:
                 l_m1 = tm.eps_l_noop(l_m1, self.uni_r.A[m], self.uni_r.A[m])
             return l_m1
 
-- 
2.43.0


From 8c553e8b449b334939e7718f355ff08ee0612612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:23 +0000
Subject: [PATCH 76/89] fix: sandwich states loaded with from_file were not
 normalised

---
 evoMPS/mps_sandwich.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/evoMPS/mps_sandwich.py b/evoMPS/mps_sandwich.py
index 44b3bb2..86f2946 100644
--- a/evoMPS/mps_sandwich.py
+++ b/evoMPS/mps_sandwich.py
@@ -147,7 +147,9 @@ class EvoMPS_MPS_Sandwich(EvoMPS_MPS_Generic):
         toload = sp.load(file_name, allow_pickle=True)
         tensors = toload[0]
 
-        return cls.from_tensors(tensors[0], tensors[1:-2], tensors[-2])
+        sw = cls.from_tensors(tensors[0], tensors[1:-2], tensors[-2])
+        sw.update(restore_CF=False) #The norm depends on that of the bulk environments.
+        return sw
 
         # self.uni_l.A = tensors[0]
         # self.uni_l.l[-1] = toload[1]
-- 
2.43.0


From 442a312668d1ecc8a5735350eb9fd3355fd06b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:48 +0000
Subject: [PATCH 77/89] fix: load_state could not read files written by
 save_state, and altered the state if the file did not fit

---
 evoMPS/mps_gen.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/evoMPS/mps_gen.py b/evoMPS/mps_gen.py
index 26fed1a..9780bf5 100644
--- a/evoMPS/mps_gen.py
+++ b/evoMPS/mps_gen.py
@@ -1187,11 +1187,21 @@ class EvoMPS_MPS_Generic(object):
         file ; path or file
             The file to load the state from.
         """
-        tmp_A = sp.load(file)
+        tmp_A = sp.load(file, allow_pickle=True)
 
-        self.D[0] = 1
-        for n in range(self.N):
-            self.D[n + 1] = tmp_A[n + 1].shape[2]
+        if tmp_A.shape != (self.N + 1,):
+            raise ValueError('Saved state does not have the right number of sites!')
+
+        tmp_D = [1]
+        for n in range(1, self.N + 1):
+            if tmp_A[n].shape[:2] != (self.q[n], tmp_D[n - 1]):
+                raise ValueError('Saved tensor %u does not have the right shape!' % n)
+            tmp_D.append(tmp_A[n].shape[2])
+
+        if tmp_D[self.N] != 1:
+            raise ValueError('Saved tensor %u does not have the right shape!' % self.N)
+
+        self.D[:self.N + 1] = tmp_D
         self._init_arrays()
         self.A = tmp_A
         
-- 
2.43.0


From c0023c0b3655cd8b4424d6fcad5c5dff0cd06a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:00 +0000
Subject: [PATCH 78/89] fix: uniform states shared arrays with exported and
 imported states, imported damaged data partially, and could not import with
 expand_q or shrink_q

---
 evoMPS/tdvp_uniform.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 01bc07d..8bdf00b 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1497,17 +1497,17 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         if userdata is None:
             userdata = self.userdata
 
-        lL = np.asarray(self.l[-1])
-        rL = np.asarray(self.r[-1])
+        lL = np.array(self.l[-1])
+        rL = np.array(self.r[-1])
             
         tosave = np.empty((5), dtype=np.ndarray)
         if self.L == 1:
-            tosave[0] = self.A[0]
+            tosave[0] = self.A[0].copy()
         else:
             tosave[0] = sp.array(self.A)
         tosave[1] = lL
         tosave[2] = rL
-        tosave[3] = self.K[0]
+        tosave[3] = np.array(self.K[0])
         tosave[4] = np.asarray(userdata)
         
         return tosave
@@ -1518,17 +1518,20 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
     def import_state(self, state, expand=False, truncate=False, 
                      expand_q=False, shrink_q=False, refac=0.1, imfac=0.1,
                      do_update=True):
-        newA = state[0]
-        newlL = state[1]
-        newrL = state[2]
-        newK0 = state[3]
-        if state.shape[0] > 4:
-            self.userdata = state[4]
-            
+        newA = np.array(state[0])
+        newlL = np.array(state[1])
+        newrL = np.array(state[2])
+        newK0 = np.array(state[3])
+
         if len(newA.shape) == 3:
             newA = [newA]
         elif len(newA.shape) == 4:
             newA = list(newA)
+
+        savedD = newA[0].shape[-1]
+        if not newlL.shape == newrL.shape == newK0.shape == (savedD, savedD):
+            log.error("Failed to import state!")
+            return False
         
         if (len(newA) == self.L and newA[0].shape == self.A[0].shape):
             self.A = newA
@@ -1576,7 +1579,7 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             self.K[0] = newK0
             self.l[-1] = np.asarray(newlL)
             self.r[-1] = np.asarray(newrL)
-            self.expand_q(newQ)
+            self.set_q(newQ)
             self.lL_before_CF = self.l[-1]
             self.rL_before_CF = self.r[-1]
             log.warning("EXPANDED in q!")
@@ -1585,18 +1588,21 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
         newA[0].shape[2]) and (newA[0].shape[1] == self.A[0].shape[1]):
             newQ = self.q
             savedQ = newA[0].shape[0]
-            self._init_arrays(self.D, savedQ)
+            self._init_arrays(self.D, savedQ, self.L)
             self.A = newA
             self.K[0] = newK0
             self.l[-1] = np.asarray(newlL)
             self.r[-1] = np.asarray(newrL)
-            self.shrink_q(newQ)
+            self.set_q(newQ)
             self.lL_before_CF = self.l[-1]
             self.rL_before_CF = self.r[-1]
             log.warning("SHRUNK in q!")
         else:
             log.error("Failed to import state!")
             return False
+
+        if state.shape[0] > 4:
+            self.userdata = state[4]
             
         if do_update:
             self.update()
-- 
2.43.0


From e8bcbb0d9f85c2e47527653eb090f0b927a78598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:47 +0000
Subject: [PATCH 79/89] fix: evolve lost a step if t / dt was rounded down, and
 did nothing for an unknown integrator

---
 evoMPS/dynamics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 2e11fcf..c291959 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -12,7 +12,10 @@ import scipy.integrate as intg
 def evolve(sys, t, dt=0.01, integ="euler",
     dynexp=True, D_max=128, dD_max=128, sv_tol=1e-14, cb_func=None,
     auto_truncate=True):
-    num_steps = int(t / dt)
+    if integ.lower() not in ("euler", "rk4"):
+        raise ValueError("Unknown integrator: %s" % integ)
+
+    num_steps = int(round(t / dt))
     for i in range(num_steps + 1):
         sys.update(auto_truncate=auto_truncate)
         B = sys.calc_B()
-- 
2.43.0


From 9a5ed43fbe3d8228608fff88401b479d273d4223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:06 +0000
Subject: [PATCH 80/89] fix: evolve with rk4 and expansion failed for uniform
 states and took a complex step for negative dt

---
 evoMPS/dynamics.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index c291959..6e93c4b 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -9,6 +9,8 @@ import scipy.optimize as opti
 import scipy.linalg as la
 import scipy.integrate as intg
 
+from .mps_uniform import EvoMPS_MPS_Uniform
+
 def evolve(sys, t, dt=0.01, integ="euler",
     dynexp=True, D_max=128, dD_max=128, sv_tol=1e-14, cb_func=None,
     auto_truncate=True):
@@ -31,10 +33,13 @@ def evolve(sys, t, dt=0.01, integ="euler",
             sys.take_step(dt * 1.j, B=B, dynexp=_dynexp, D_max=D_max, dD_max=dD_max, sv_tol=sv_tol)
         elif integ.lower() == "rk4":
             if dynexp and sys.maxD_is_less_than(D_max):
-                dt_e = dt**(5. / 2.)  # Do a small Euler step with an error of the same order as the RK4 step
+                dt_e = dt * abs(dt)**(3. / 2.)  # Do a small Euler step with an error of the same order as the RK4 step
                 dt_r = dt - dt_e
                 sys.take_step(dt_e * 1.j, B=B, dynexp=dynexp, D_max=D_max, dD_max=dD_max, sv_tol=sv_tol)
-                sys.update(restore_CF=auto_truncate, normalize=auto_truncate, auto_truncate=auto_truncate)
+                if isinstance(sys, EvoMPS_MPS_Uniform): #Uniform states are always normalized.
+                    sys.update(restore_CF=auto_truncate, auto_truncate=auto_truncate)
+                else:
+                    sys.update(restore_CF=auto_truncate, normalize=auto_truncate, auto_truncate=auto_truncate)
                 sys.take_step_RK4(dt_r * 1.j)
             else:
                 sys.take_step_RK4(dt * 1.j, B_i=B)
-- 
2.43.0


From 1efd8cf58e51fc90a8d4175c858d26e32183fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:54 +0000
Subject: [PATCH 81/89] fix: evolve_scipy_ode failed after the first step, ran
 backwards in time and mixed gauges

---
 evoMPS/dynamics.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index 6e93c4b..f508791 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -286,12 +286,12 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
     def ifunc(t, y):
         #nonlocal is_first_call_in_step
         update_state_from_vec(s, y)
+        #The derivative must belong to the tensors in y, so do not change the gauge.
+        s.update(restore_CF=False, normalize=False)
         if is_first_call_in_step[0]:
-            s.update()
             B = s.calc_B(set_eta=True)
             is_first_call_in_step[0] = False
         else:
-            s.update(restore_CF=False, normalize=False)
             B = s.calc_B(set_eta=False)
 
         for n in range(len(B)):
@@ -299,17 +299,17 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
                 B[n] = sp.zeros_like(s.A[n])
 
         Bvec = tensors_to_vec(B)
-        Bvec = 1.j * Bvec #real time evolution!
+        Bvec = -1.j * Bvec #real time evolution!
         return Bvec
 
+    s.update()
     print("Init:")
     igrtr = integrator(ifunc, 0.0, state_to_vec(s), Tmax, rtol=rtol, atol=atol)
     print("Init done: h_abs = %g" % igrtr.h_abs)
     
     for i in range(max_steps):
         s.update() #Note: This changes the variables (without changing the physical state).
-                   #      Should be ok as along as the integrator does not share variable info between steps.
-                   #      The integrator does store y_old, but only uses it for dense_output.
+                   #      The integrator continues with its own copy.
 
         if callback is not None:
             callback(s, igrtr, i)
@@ -318,11 +318,12 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
             print("Stopping with status:", igrtr.status)
             break
 
-        is_first_call_in_step = True
+        is_first_call_in_step[0] = True
         igrtr.step()
+        update_state_from_vec(s, igrtr.y)
 
 def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
-        callback=None, integrator="RK45", wrap_to_real=False, **kwargs):
+        callback=None, integrator=None, wrap_to_real=False, **kwargs):
     def state_to_vec(s):
         return sp.hstack([s.A[n].ravel() for n in range(1, s.N+1)])
 
@@ -340,12 +341,12 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
     def ifunc(t, y):
         #nonlocal is_first_call_in_step
         update_state_from_vec(s, y)
+        #The derivative must belong to the tensors in y, so do not change the gauge.
+        s.update(restore_CF=False, normalize=False)
         if is_first_call_in_step[0]:
-            s.update()
             B = s.calc_B(set_eta=True)
             is_first_call_in_step[0] = False
         else:
-            s.update(restore_CF=False, normalize=False)
             B = s.calc_B(set_eta=False)
 
         for n in range(len(B)):
@@ -353,9 +354,13 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
                 B[n] = sp.zeros_like(s.A[n])
 
         Bvec = tensors_to_vec(B)
-        Bvec = 1.j * Bvec #real time evolution!
+        Bvec = -1.j * Bvec #real time evolution!
         return Bvec
 
+    if integrator is None:
+        integrator = "dopri5" if wrap_to_real else "zvode"
+
+    s.update()
     print("Init:")
     if wrap_to_real:
         igrtr = intg.complex_ode(ifunc)
@@ -366,8 +371,7 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
     
     for i in range(steps):
         s.update() #Note: This changes the variables (without changing the physical state).
-                   #      Should be ok as along as the integrator does not share variable info between steps.
-                   #      The integrator does store y_old, but only uses it for dense_output.
+                   #      The integrator continues with its own copy.
 
         if callback is not None:
             callback(s, igrtr, i)
@@ -376,5 +380,6 @@ def evolve_scipy_ode_old(s, dt, steps, rtol=1e-6, atol=1e-8,
             print("Stopping with status:", igrtr.get_return_code())
             break
 
-        is_first_call_in_step = True
-        igrtr.integrate(igrtr.t + dt)
\ No newline at end of file
+        is_first_call_in_step[0] = True
+        igrtr.integrate(igrtr.t + dt)
+        update_state_from_vec(s, igrtr.y)
\ No newline at end of file
-- 
2.43.0


From 63be8a92ec227defbe9e6296d2e16cf3a6651060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:36 +0000
Subject: [PATCH 82/89] fix: evolve_scipy_ode reported a trial state at the
 start

---
 evoMPS/dynamics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index f508791..bdb0099 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -306,6 +306,7 @@ def evolve_scipy_ode(s, Tmax, max_steps, rtol=1e-6, atol=1e-8, callback=None, in
     print("Init:")
     igrtr = integrator(ifunc, 0.0, state_to_vec(s), Tmax, rtol=rtol, atol=atol)
     print("Init done: h_abs = %g" % igrtr.h_abs)
+    update_state_from_vec(s, igrtr.y) #The integrator tried another state to choose its first step.
     
     for i in range(max_steps):
         s.update() #Note: This changes the variables (without changing the physical state).
-- 
2.43.0


From fc5ef9757abdf5bcbfb27a28e3ad31e9d0e5c0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:36 +0000
Subject: [PATCH 83/89] fix: find_ground never returned if the bond dimension
 could not grow

---
 evoMPS/dynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evoMPS/dynamics.py b/evoMPS/dynamics.py
index bdb0099..f3514c0 100644
--- a/evoMPS/dynamics.py
+++ b/evoMPS/dynamics.py
@@ -69,6 +69,7 @@ def find_ground(sys, tol=1E-6, h_init=0.04, max_itr=10000,
     j += dj
 
     while sys.D < expand_to_D:
+        oldD = sys.D
         sys, dj, h0, B = opt_conj_grad(sys, tol=expand_tol, h_init=h_init, 
                                        max_itr=max_itr, return_B_grad=True, 
                                        cb_func=cb_wrap, **kwargs)
@@ -82,6 +83,9 @@ def find_ground(sys, tol=1E-6, h_init=0.04, max_itr=10000,
                                          expand_tol=100)
 
         j += dj        
+
+        if sys.D <= oldD: #Could not expand (e.g. max_itr reached, or the state is exact).
+            break
         
     sys, dj, h0 = opt_conj_grad(sys, tol=tol, h_init=h_init, max_itr=max_itr, 
                                 cb_func=cb_wrap, **kwargs)
-- 
2.43.0


From 65742f11ba3883afd86a96663a5242c2a52dbd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:05 +0000
Subject: [PATCH 84/89] fix: uniform calc_B_CG accepted a line-search result
 that raises the energy

---
 evoMPS/tdvp_uniform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evoMPS/tdvp_uniform.py b/evoMPS/tdvp_uniform.py
index 8bdf00b..ca1c739 100644
--- a/evoMPS/tdvp_uniform.py
+++ b/evoMPS/tdvp_uniform.py
@@ -1479,6 +1479,8 @@ class EvoMPS_TDVP_Uniform(EvoMPS_MPS_Uniform):
             ls = EvoMPS_line_search(self, BCG, BG, B_overlap_tol=B_overlap_tol)
             try:
                 tau, h_min, ind = ls.brentq(tau_init)
+                if h_min - ls.hs[0] > max(self.itr_rtol * 10, 1E-14):
+                    tau = 0 #Not a minimum
             except (EvoMPSNoConvergence, EvoMPSNormError):
                 tau = 0
             
-- 
2.43.0


From 8163d172e6b423ccdca3324dc34300fc8e4471a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 85/89] fix: dissipative steps used jump-operator expectation
 values of an earlier state

---
 evoMPS/tdvp_gen_diss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 8180063..c1ea6f8 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -127,10 +127,11 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
         q = self.q
         
         #Reshape the Lindblad operators and compute their expectation values.
+        #Use the MPS methods, because self.update() does not update self.AA, self.AAA, and self.C.
         if self.ham_sites == 2:
-            Ls = [(n, L, L.reshape((q[n]*q[n+1], q[n]*q[n+1])), self.expect_2s(L, n)) for (n, L) in self.linds]
+            Ls = [(n, L, L.reshape((q[n]*q[n+1], q[n]*q[n+1])), mps.EvoMPS_MPS_Generic.expect_2s(self, L, n)) for (n, L) in self.linds]
         elif self.ham_sites == 3:
-            Ls = [(n, L, L.reshape((q[n]*q[n+1]*q[n+2], q[n]*q[n+1]*q[n+2])), self.expect_3s(L, n)) for (n, L) in self.linds]
+            Ls = [(n, L, L.reshape((q[n]*q[n+1]*q[n+2], q[n]*q[n+1]*q[n+2])), mps.EvoMPS_MPS_Generic.expect_3s(self, L, n)) for (n, L) in self.linds]
         else:
             assert False, "Range of Hamiltonian terms must be 2 or 3 sites."
         
-- 
2.43.0


From bbc7221fa149fbab165ae3ab6979bc5b868c38f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 86/89] fix: dissipative steps failed with real jump operators

---
 evoMPS/tdvp_gen_diss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index c1ea6f8..2e49438 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -144,7 +144,7 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
             Leff = -0.5 * Lr.conj().T.dot(Lr).reshape(L.shape)
             
             #Add the diffusion terms to the effective Hamiltonian by dividing by the step length
-            Leff += (sp.conj(Le) + W/dt) * L
+            Leff = Leff + (sp.conj(Le) + W/dt) * L
             
             Leffs.append((n, Leff))
                 
-- 
2.43.0


From 662181387b941bfd66eac8ccf97730636b68418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 87/89] fix: dissipative steps failed with Hamiltonians given
 as functions

---
 evoMPS/tdvp_gen_diss.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 2e49438..9058eb9 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -149,7 +149,8 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
             Leffs.append((n, Leff))
                 
         #Build the effective Hamiltonian
-        HL = [-1.j * hn if hn is not None else None for hn in self.ham]
+        ham = self._get_ham_arrays() if callable(self.ham) else self.ham
+        HL = [-1.j * hn if hn is not None else None for hn in ham]
         for (n, Leff) in Leffs:
             if HL[n] is None:
                 HL[n] = Leff
-- 
2.43.0


From 9bc10c90a8a0487bb081567d28b4b51e8a3b6f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 88/89] fix: dissipative steps in the left gauge used
 environments of the wrong side

---
 evoMPS/tdvp_gen_diss.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 9058eb9..3aafc69 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -161,7 +161,10 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
         ham_tmp = self.ham
         self.ham = HL
         self.calc_C()
-        self.calc_K()
+        if self.gauge_fixing == 'right':
+            self.calc_K()
+        else:
+            self.calc_K_l()
         
         #Let take_step compute the tangent vector
         self.take_step(-dt, save_memory=save_memory, calc_Y_2s=calc_Y_2s, 
-- 
2.43.0


From bbe77fb5793c34c617cf3d82848191794f0f229e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:17 +0000
Subject: [PATCH 89/89] fix: a failed dissipative step left the effective
 Hamiltonian in place

---
 evoMPS/tdvp_gen_diss.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/evoMPS/tdvp_gen_diss.py b/evoMPS/tdvp_gen_diss.py
index 3aafc69..0de965d 100755
--- a/evoMPS/tdvp_gen_diss.py
+++ b/evoMPS/tdvp_gen_diss.py
@@ -159,19 +159,20 @@ class EvoMPS_TDVP_Generic_Dissipative(TDVP.EvoMPS_TDVP_Generic):
         
         #Compute the combined unitary and dissipative contributions using the effective Hamiltonian. 
         ham_tmp = self.ham
-        self.ham = HL
-        self.calc_C()
-        if self.gauge_fixing == 'right':
-            self.calc_K()
-        else:
-            self.calc_K_l()
-        
-        #Let take_step compute the tangent vector
-        self.take_step(-dt, save_memory=save_memory, calc_Y_2s=calc_Y_2s, 
-                        dynexp=dynexp, dD_max=dD_max, D_max=D_max, sv_tol=sv_tol)
-        
-        #Restore the Hamiltonian to the ham field.
-        self.ham = ham_tmp
+        try:
+            self.ham = HL
+            self.calc_C()
+            if self.gauge_fixing == 'right':
+                self.calc_K()
+            else:
+                self.calc_K_l()
+            
+            #Let take_step compute the tangent vector
+            self.take_step(-dt, save_memory=save_memory, calc_Y_2s=calc_Y_2s, 
+                            dynexp=dynexp, dD_max=dD_max, D_max=D_max, sv_tol=sv_tol)
+        finally:
+            #Restore the Hamiltonian to the ham field, also if the step fails.
+            self.ham = ham_tmp
         
         #The following are not meaningful, since we have replaced the Hamiltonian with
         #an effective one, the expectation value of which has no obvious interpretation.
-- 
2.43.0

