From 9ca84331d46ebe3137c1a99252fb3825355441e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 01/20] fix: zero-frequency block matrices no longer use the
 removed numpy alias np.float

---
 CasimirRio/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 6e4b0d9..d61d3cc 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -230,7 +230,7 @@ class SphereSphere:
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
         lss = np.arange(lmin, self.lssmax+1)[np.newaxis, np.newaxis, :]
-        sgn = (-1)**np.float(lss-l1)        
+        sgn = (-1.0)**(lss-l1)
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
         distance_dep = np.log(r1/r2) + l1*np.log(r1/L)+2*lss*np.log(L/r2) + l2*np.log(r1/L)
@@ -261,7 +261,7 @@ class SphereSphere:
         lmin = max(m, 1)
         l1 = np.arange(lmin, self.lmax+1)[:, np.newaxis, np.newaxis]
         l2 = l1.transpose(1,0,2)
-        lss = np.arange(lmin, self.lssmax+1, dtype = np.float)[np.newaxis, np.newaxis, :]
+        lss = np.arange(lmin, self.lssmax+1, dtype = float)[np.newaxis, np.newaxis, :]
         sgn = (-1)**(lss-l2)        
         a_TEsgn, a_TMsgn, a_ln = MieA
         b_TEsgn, b_TMsgn, b_ln = MieB
-- 
2.43.0


From e1590551df6b2f2b75ad3f558a43631da01339dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 02/20] fix: zero-frequency internal TE Mie coefficient of a
 plasma wall is the k -> 0 limit

---
 CasimirRio/scattering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 10306f7..44189ae 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -238,7 +238,7 @@ class scattering:
                 wPR_c = np.array([0])
             if not self.mat2.is_sigma_finite:
                 k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, :]
-                k_ratio = np.exp(k_wp[0:-1]-k_wp[1:])*wPR_c/(2*l-1)#k_wp[0:-1]/k_wp[1:]*wPR_c/(2*l-1)
+                k_ratio = np.exp(k_wp[lmin-1:-1]-k_wp[lmin:])
                 k_fracterm = -l-wPR_c*k_ratio
                 bTE = (-(mu0_e*l + mu0_i*k_fracterm )
                        /( (l+1)*mu0_e - mu0_i*k_fracterm )
-- 
2.43.0


From de484ac011b1305a1fa3e73294c63e5364f18c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:12 +0000
Subject: [PATCH 03/20] fix: round-trip elements of a channel m do not depend
 on which channel was evaluated first

---
 CasimirRio/geometry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index d61d3cc..98c610e 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -166,7 +166,7 @@ class SphereSphere:
                      ]
 
             V.extend(Vdiff)
-        return [mieA, mieB, V]
+        return [mieA[:, :, lmin-1::, :, :], mieB[:, :, :, :, lmin-1::], V]
 
     def roundTrip_elements_k0(self, m, k):
         """Collect all necessyary Mie-coefficients and translation matrices
@@ -198,14 +198,14 @@ class SphereSphere:
                 raise NotImplementedError("Evaluation of the zeroth Matsubara frequency"+
                                           " is not yet implemented for stratified spheres")
             self.MieA_k0 = scattering(self.mat1, self.mat3
-                                   ).mie_k0(lmin, self.lmax, self.r1
+                                   ).mie_k0(1, self.lmax, self.r1
                                          )[:, :, np.newaxis, np.newaxis]
             if not self.ext_flag:
                 self.MieB_k0 = scattering(self.mat3, self.mat2
-                    ).mie_internal_k0(lmin, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
+                    ).mie_internal_k0(1, self.lssmax, self.r2)[:, np.newaxis, np.newaxis,:]
             else:
                 self.MieB_k0 = scattering(self.mat2, self.mat3
-                             ).mie_k0(lmin, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
+                             ).mie_k0(1, self.lssmax, self.r2)[:,np.newaxis, np.newaxis,:]
             mieA_k0 = self.MieA_k0
             mieB_k0 = self.MieB_k0
         V_k0 = translation(self.lmax, self.lssmax, m, self.mat3, self.L, k,
@@ -217,7 +217,7 @@ class SphereSphere:
                                       "is not implemented, yet.")
 
             V.extend(Vdiff)
-        return [mieA_k0, mieB_k0, V_k0]
+        return [mieA_k0[:, lmin-1::, :, :], mieB_k0[:, :, :, lmin-1::], V_k0]
 
     def blockmatrices_k0_int(self, m):
         """ Returns a list of two blockmatrices corresponding to a subspace
-- 
2.43.0


From c31473b7a3c61af3fbf8cea47779e22ba3a8b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 04/20] fix: modified Bessel functions do not depend on the
 order of the arguments in the array

---
 CasimirRio/bessel_sk.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/bessel_sk.py b/CasimirRio/bessel_sk.py
index 655f4d9..b4f17f1 100644
--- a/CasimirRio/bessel_sk.py
+++ b/CasimirRio/bessel_sk.py
@@ -46,7 +46,7 @@ def fnu(x, nu):
 
     """
     Nmax = 80
-    if x[-1] > 100:
+    if x.max() > 100:
         Nmax = 140
     n = np.arange(1, Nmax+1).reshape(1, Nmax)
     x = x[..., np.newaxis]
@@ -71,8 +71,9 @@ def lniknu(x, lmax):
         i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
         i1sm = -np.log(3)+np.log(xsm)+0.1*xsm**2-xsm**4/700
         i1lg = -np.log(2*xlg) -np.log(xlg) + xlg + np.log(np.exp(-2*xlg)*(xlg+1)+xlg-1)
-        i0 = np.append(i0sm, i0lg, axis=0)
-        i1 = np.append(i1sm, i1lg, axis=0)
+        i0, i1 = np.empty(x.shape), np.empty(x.shape)
+        i0[sm], i0[lg] = i0sm, i0lg
+        i1[sm], i1[lg] = i1sm, i1lg
     else:
         if xsm.shape[0] == 0:
             i0lg = -np.log(2*xlg) + np.log(1-np.exp(-2*xlg)) + xlg
-- 
2.43.0


From 7f9ae835eb1421225c9082d4d2e05edf78e370ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 05/20] fix: plane-plane Casimir pressure is minus the distance
 derivative of the free energy (factor 2)

---
 CasimirRio/PFA.py     | 8 ++++----
 CasimirRio/raw_PFA.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 45c7cba..c88b0a1 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -41,8 +41,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def pressureRoundTrip(self, k_perp, kn, L):
@@ -54,8 +54,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE)+
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE)+
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index a4dcb1f..4ca9519 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -30,8 +30,8 @@ class SphereSpherePFA:
         k = sqrt(k_perp**2 + nMd2*kn**2)
         efactorTE = rTE1*rTE2 * np.exp(-2*k*L)
         efactorTM = rTM1*rTM2 * np.exp(-2*k*L)
-        return (-k*efactorTE / (1 - efactorTE), 
-                -k*efactorTM / (1 - efactorTM)
+        return (-2*k*efactorTE / (1 - efactorTE), 
+                -2*k*efactorTM / (1 - efactorTM)
                )
 
     def planeplaneFreeEnergyHT(self, L, n0_shielding = False):
-- 
2.43.0


From c145e732dfe006b5ff30cd5dc76f875f2ca138f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 06/20] fix: saving a result never overwrites an existing file

---
 CasimirRio/worker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 492fae1..cde965a 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -149,7 +149,7 @@ def save_result(result, foutput):
        was initially passed as the second command-line argument.
 
     """
-    if os.path.exists(foutput):
+    while os.path.exists(foutput):
         foutput += "1"
     outfile = open(foutput, "w")
     comment = job_infos()
-- 
2.43.0


From eaa232deabe811c5fbdb0c8d721eae92824cca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 07/20] fix: the analytic_n0 option of the job file is honoured

---
 CasimirRio/worker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index cde965a..19fed32 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -108,10 +108,12 @@ def do_calculation():
         if not nmax == "automatic":
             print("nmax has to be given as integer or \"automatic\"") 
     try:
-        analytic_n0 = config.get("geometry", "analytic_n0")
+        analytic_n0 = config.getboolean("geometry", "analytic_n0")
+    except ConfigParser.NoOptionError:
+        analytic_n0 = True
     except ValueError:
-        print("analytic_n0 is not given correctly: ", analytic_n0)
-    analytic_n0 = True
+        print("analytic_n0 has to be given as boolean")
+        analytic_n0 = True
     if type(geom.r1) == list or type(geom.r2) == list:
         analytic_n0 = False
     Tmax = config.getfloat("thermodynamics", "Tmax")
-- 
2.43.0


From 70a22df3ff6b08ff2de8566e034bf1bae500dbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 08/20] fix: PFA sphere-sphere force honours n0_shielding

---
 CasimirRio/PFA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index c88b0a1..13702c0 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -183,7 +183,8 @@ class SphereSpherePFA:
         nenner = r1+r2
         if d < r1+r2:
             nenner = max(r1, r2)-min(r1, r2)
-        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0))
+        force = 2*np.pi*r1*r2/nenner*self.planeplaneFreeEnergy(T, Lrho(0),
+                                                             n0_shielding)
         return force
 
     def distance(self, r1, r2, d, rho):
-- 
2.43.0


From d3e79e0c039053374c76ce1d321328082653aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 09/20] fix: free energy and entropy do not depend on whether
 the force was requested before

---
 CasimirRio/thermodynamics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index d88fe6a..085efbd 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -75,6 +75,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
 
         """
         if self.f_matsubaras is None:
+            self.forceFlag = 0
             self.f_matsubaras = self.get_f_matsubaras(0)
         Ts = self.deltaT*np.arange(1, self.maxstep+1)
         F_T = Ts*np.array([self.f_matsubaras[::i].sum()
@@ -98,6 +99,7 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
 
         """
         if self.f_matsubaras is None:# ??? Was ist wenn zunächst force berechnet wurde und forceFlag jetzt auf 1 steht?
+            self.forceFlag = 0
             self.f_matsubaras = self.get_f_matsubaras(0)
         S_T = - np.gradient(self.free_energy(), self.deltaT)
         return S_T
-- 
2.43.0


From f6a7cf73d5307d6afda6217b89bd374e2e477bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 10/20] fix: stratified Mie scattering does not shorten the
 caller's lists

---
 CasimirRio/stratified_sphere_scattering.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CasimirRio/stratified_sphere_scattering.py b/CasimirRio/stratified_sphere_scattering.py
index 8c0cb0d..89f08de 100644
--- a/CasimirRio/stratified_sphere_scattering.py
+++ b/CasimirRio/stratified_sphere_scattering.py
@@ -26,8 +26,8 @@ class StratifiedMieScattering(scattering):
     def __init__(self, mat_list, r_list):  # nCore, nCoating, nMedium
         try:
             if type(mat_list) == list and type(r_list) == list:
-                self.mat_list = mat_list
-                self.r_list = r_list
+                self.mat_list = list(mat_list)
+                self.r_list = list(r_list)
                 assert(len(r_list)==len(mat_list)-1)
                 scattering.__init__(self, mat_list[0], mat_list[1])
         except:
-- 
2.43.0


From 4a07a9af89dec3a6eeae514729bc03899db5b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 11/20] fix: single round-trip evaluation uses range instead of
 the Python 2 builtin xrange

---
 CasimirRio/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 98c610e..c4933ef 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -523,7 +523,7 @@ class SphereSphere:
         """
         A, B, C, D = self.blockmatrices(0, matsubaras)
         TrM_matsubaras_m = np.array([np.trace(A[i,:,:]+D[i,:,:]) 
-                    for i in xrange(len(matsubaras))])
+                    for i in range(len(matsubaras))])
         th_m_max = round(np.log(self.precision)/np.log(0.5))
         if mmax == "automatic":
             mmax = round(np.log(self.precision)/np.log(0.5))
@@ -535,11 +535,11 @@ class SphereSphere:
             sh = np.shape(A)
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                            for i in xrange(len(matsubaras))])
+                            for i in range(len(matsubaras))])
                 return TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
-                                    for i in xrange(len(matsubaras))])
+                                    for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
                 return TrM_matsubaras_m
         return TrM_matsubaras_m
-- 
2.43.0


From 48f6c3bf5079e62ceec942e698d1c3d94641c2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:49 +0000
Subject: [PATCH 12/20] fix: raw_PFA.get_f_matsubaras does not modify the
 caller's array of wavenumbers

---
 CasimirRio/raw_PFA.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/raw_PFA.py b/CasimirRio/raw_PFA.py
index 4ca9519..5bff68e 100644
--- a/CasimirRio/raw_PFA.py
+++ b/CasimirRio/raw_PFA.py
@@ -107,7 +107,7 @@ class SphereSpherePFA:
         """
         assert type(matsubaras) == np.ndarray
         if matsubaras[0] == 0:
-            matsubaras[0] = 1e-20
+            matsubaras = np.append(1e-20, matsubaras[1:])
         norm = 2*np.pi
         integralTE = lambda kn: quad(
                         lambda k_perp: k_perp/norm*self.roundTrips(k_perp, kn, L)[0], 
-- 
2.43.0


From 38856074eaeb0d02beefb59eef6b4b7379d05fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:14 +0000
Subject: [PATCH 13/20] fix: PFA sphere-sphere energy and distance do not
 depend on the order of the spheres

---
 CasimirRio/PFA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CasimirRio/PFA.py b/CasimirRio/PFA.py
index 13702c0..023f6cd 100644
--- a/CasimirRio/PFA.py
+++ b/CasimirRio/PFA.py
@@ -171,7 +171,7 @@ class SphereSpherePFA:
         """
         Lrho = lambda rho: self.distance(r1, r2, d, rho)
         freeE = quad(lambda rho: 2*np.pi*rho*self.planeplaneFreeEnergy(T, Lrho(rho),
-                                           n0_shielding), 0, r1)[0]
+                                           n0_shielding), 0, min(r1, r2))[0]
         return freeE
 
     def spheresphereForce(self, r1, r2, T, d, n0_shielding = False):
@@ -197,6 +197,7 @@ class SphereSpherePFA:
         if d > r1+r2:
             delta_z = d-r1*sqrt(1-(rho/r1)**2)-r2*sqrt(1-(rho/r2)**2)   
         else:
+            r1, r2 = min(r1, r2), max(r1, r2)
             delta_z = r2*sqrt(1-(rho/r2)**2)-d-r1*sqrt(1-(rho/r1)**2)   
         return delta_z
 
-- 
2.43.0


From fe569888b4a05d1bf49772f3ecf71728917d6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:14 +0000
Subject: [PATCH 14/20] fix: CoatedSphereSphere passes lmin, lssmax and
 forceFlag to the right parameters

---
 CasimirRio/geometry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index c4933ef..be42fe8 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -608,7 +608,8 @@ class CoatedSphereSphere(SphereSphere):
     def __init__(self, r1_i, r1_a, mat1_core, mat1_coat, r2_i, r2_a,
                  mat2_core, mat2_coat, L, matMd, lmax, lssmax, forceFlag=0):
         SphereSphere.__init__(self, r1_a, r2_a, L, mat1_coat, mat2_coat,
-                               matMd, lmax, lssmax, forceFlag)
+                               matMd, lmax, lssmax=lssmax,
+                               forceFlag=forceFlag)
         self.r1_i = r1_i
         self.r2_i = r2_i
         self.r1_a = r1_a
@@ -635,11 +636,11 @@ class CoatedSphereSphere(SphereSphere):
         else:
             self.MieA = coated_miescattering(
                 self.mat1core, self.mat1coat, self.matMd
-                ).mie_coated(k, self.lmax, self.r1_i,
+                ).mie_coated(k, 1, self.lmax, self.r1_i,
                              self.r1_a)[..., np.newaxis, np.newaxis]
             self.MieB = coated_miescattering(self.mat2core, self.mat2coat,
                                              self.matMd).mie_coated(
-                k, self.lssmax, self.r2_i, self.r2_a)
+                k, 1, self.lssmax, self.r2_i, self.r2_a)
             self.MieB = np.append(self.MieB[0:2][:, :, np.newaxis,
                                                  np.newaxis, :]**ext_VZ,
                                   self.MieB[2][np.newaxis, :, np.newaxis,
-- 
2.43.0


From 2a6ef64a0ca83cd7f81653f4fd1c5b703cafeed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:46 +0000
Subject: [PATCH 15/20] fix: single round-trip approximation of ln det(1-M) is
 minus the trace of M

---
 CasimirRio/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index be42fe8..4a431e8 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -536,13 +536,13 @@ class SphereSphere:
             if sh[1] == 1:
                 TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
                             for i in range(len(matsubaras))])
-                return TrM_matsubaras_m
+                return -TrM_matsubaras_m
 
             TrM_matsubaras_m += 2*np.array([np.trace(A[i]+D[i]) 
                                     for i in range(len(matsubaras))])
             if m >= 1 and m >= mmax:
-                return TrM_matsubaras_m
-        return TrM_matsubaras_m
+                return -TrM_matsubaras_m
+        return -TrM_matsubaras_m
 
     def mSum_roundtrips(self, matsubaras, order="automatic", forceFlag=0):
         m = 0
-- 
2.43.0


From 2731ad30944de3cce7997e6c894bc8ccc9ca920f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 16/20] fix: Matsubara slice consisting of the zero frequency
 only is evaluated without the analytic n=0 term

---
 CasimirRio/thermodynamics.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CasimirRio/thermodynamics.py b/CasimirRio/thermodynamics.py
index 085efbd..83cb670 100644
--- a/CasimirRio/thermodynamics.py
+++ b/CasimirRio/thermodynamics.py
@@ -158,6 +158,8 @@ class finiteT:# ??? Welche Methoden sind fuer den Benutzer gedacht?
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSumme(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSumme(matsubaras[1:])
             return np.append(F_n_0, F_n_alle)
         else:
@@ -193,6 +195,8 @@ class oneRoundtrip(finiteT):
         if matsubaras[0] == 0.:
             if not self.forceFlag:
                 F_n_0 = 0.5 * self.geometry.mSum_oneRoundtrip(np.array([1e-10]))
+                if len(matsubaras) == 1:
+                    return F_n_0
                 F_n_alle = self.geometry.mSum_oneRoundtrip(matsubaras[1:])
             else:
                 F_n_0 = 0.5 * self.geometry.mSum_trace_dot_oneRoundtrip(np.array([1e-10]))
-- 
2.43.0


From ae1b135c41b8836544f19d129acf05a27ee0a92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:48 +0000
Subject: [PATCH 17/20] fix: zero-frequency TE Mie coefficient uses every
 plasma oscillator and the static permeability of the conductor

---
 CasimirRio/scattering.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/CasimirRio/scattering.py b/CasimirRio/scattering.py
index 44189ae..823910c 100644
--- a/CasimirRio/scattering.py
+++ b/CasimirRio/scattering.py
@@ -59,11 +59,10 @@ class scattering:
         bTM = (l+1)/l
         if not self.mat1.is_perfect_conductor:
             mu0_sp = self.mat1.mu(k)
-            wPR_c = np.array([0])
-            try:
-                wPR_c = np.array([self.mat1.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
+            # all free-carrier (plasma) oscillators together, inside mat1
+            wP2 = sum([p[0]**2 for p in self.mat1.e_properties
+                                            if p[1] == 0 and p[2] == 0])
+            wPR_c = np.sqrt(mu0_sp*wP2)*R/2.998e14
             if not self.mat1.is_sigma_finite:
                 ifraction = bessel_sk.i_fraction(wPR_c, l-0.5)[:, 0]
                 i_frac_term = (-l + wPR_c * ifraction)
@@ -232,10 +231,10 @@ class scattering:
         sgn = (-1)**(l)
         bTM = l/(l+1)
         if not self.mat2.is_perfect_conductor:
-            try:
-                wPR_c = np.array([self.mat2.e_properties[0][0]*R/2.998e14]) 
-            except IndexError:
-                wPR_c = np.array([0])
+            # all free-carrier (plasma) oscillators together, inside mat2
+            wP2 = sum([p[0]**2 for p in self.mat2.e_properties
+                                            if p[1] == 0 and p[2] == 0])
+            wPR_c = np.sqrt(mu0_e*wP2)*R/2.998e14
             if not self.mat2.is_sigma_finite:
                 k_wp = bessel_sk.lnknu(wPR_c, lmax)[0, :]
                 k_ratio = np.exp(k_wp[lmin-1:-1]-k_wp[lmin:])
-- 
2.43.0


From 0c3b47320eff199edc7f3190d3e829747eecf3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:34 +0000
Subject: [PATCH 18/20] fix: job file with automatic lmax and no l_offset uses
 the default offset instead of failing

---
 CasimirRio/worker.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 19fed32..6a6051f 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -59,11 +59,6 @@ def return_geometry():
         lmax = config.getint("geometry", "lmax")
     except ValueError:
         lmax = config.get("geometry", "lmax")
-        if lmax == "automatic":
-            try:
-                l_offset = config.getint("geometry", "l_offset")
-            except ValueError:
-                l_offset = None      
         if not lmax == "automatic":
             print("lmax has to be given as integer or \"automatic\"") 
     try:
-- 
2.43.0


From 907658a32cc0a687288d348265b07ab5f7ae15dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:34 +0000
Subject: [PATCH 19/20] fix: settings spanning several lines of the job file
 stay inside the comment header of the result file

---
 CasimirRio/worker.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/CasimirRio/worker.py b/CasimirRio/worker.py
index 6a6051f..9c824d1 100644
--- a/CasimirRio/worker.py
+++ b/CasimirRio/worker.py
@@ -124,15 +124,17 @@ def job_infos():
        and prefixes it as a comment to the result-file.
 
     """
-    mat1 = config.get("materials", "mata")
-    mat2 = config.get("materials", "matb")
-    matMd = config.get("materials", "matmd")
+    # values may span several lines of the job file, comments may not
+    one_line = lambda sec, opt: " ".join(config.get(sec, opt).split())
+    mat1 = one_line("materials", "mata")
+    mat2 = one_line("materials", "matb")
+    matMd = one_line("materials", "matmd")
     log_data = ("# information on job: %s \n" %(finput)+
                 "# r1 = %s, r2 = %s, d = %s \n" %(geom.r1, geom.r2, geom.L)+
                 "# mat1 = %s, mat2 = %s, matMd = %s \n" %(mat1, mat2, matMd)+
                 "# lmax = %i, l_offset = %i, lssmax = %i, nmax = %i, deltaT= %.4f, Tmax = %.4f \n" %(geom.lmax, geom.l_offset, geom.lssmax, 
                                                         fclass.nmax, fclass.deltaT, fclass.Tmax)+
-                "# calculated quantity: %s \n" %(config.get("thermodynamics", "quantity"))+
+                "# calculated quantity: %s \n" %(one_line("thermodynamics", "quantity"))+
                 "# type of evaluation: %s \n" %(geom.evaluation)+
                 "# precision: %s \n" %(geom.precision))
     if geom.evaluation == "trace":
-- 
2.43.0


From 5db1c5c6e0f794caaba78a36db40b183750d72b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:50 +0000
Subject: [PATCH 20/20] fix: sln_det_blockdiagonal returns ln|det| for 1x1
 blocks with entries above 1

---
 CasimirRio/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CasimirRio/geometry.py b/CasimirRio/geometry.py
index 4a431e8..23e048f 100644
--- a/CasimirRio/geometry.py
+++ b/CasimirRio/geometry.py
@@ -765,7 +765,7 @@ def sln_det_blockdiagonal(A, B, conv = 0.9):
                          "%s and %s of A and B are not equal" %(A.shape, B.shape))
     assert len(A.shape) == 2
     if A.shape == (1,1):
-        return np.log((1-A)*(1-B))
+        return np.log(abs((1-A)*(1-B)))
     eins = np.eye(A.shape[0])
     bB, bA = balance(eins-B, conv), balance(eins-A, conv)
     return np.linalg.slogdet(bB)[1]+np.linalg.slogdet(bA)[1]
-- 
2.43.0

