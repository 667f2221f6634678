From 474d439ecc5f952378ff9990651d62fda6a769ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:41 +0000
Subject: [PATCH 01/28] fix: remove the duplicated definition of D_RUS, which
 stopped fluxes.cpp from compiling

---
 code/cpp/src/solvers/fv/fluxes.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/code/cpp/src/solvers/fv/fluxes.cpp b/code/cpp/src/solvers/fv/fluxes.cpp
index 3811872..abfef71 100644
--- a/code/cpp/src/solvers/fv/fluxes.cpp
+++ b/code/cpp/src/solvers/fv/fluxes.cpp
@@ -73,14 +73,3 @@ VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
   flux(f, qR, d, MP);
   return f;
 }
-
-VecV D_RUS(VecVr qL, VecVr qR, int d, Par &MP) {
-
-  double max1 = max_abs_eigs(qL, d, MP);
-  double max2 = max_abs_eigs(qR, d, MP);
-
-  VecV f = std::max(max1, max2) * (qL - qR);
-  flux(f, qL, d, MP);
-  flux(f, qR, d, MP);
-  return f;
-}
-- 
2.43.0


From b89d1e7577f1b7899e35afe88c46f95509ba739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 02/28] fix: start the oscillation indicator sums from zero,
 not from uninitialised memory

---
 code/cpp/src/solvers/weno/weno_matrices.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/weno/weno_matrices.cpp b/code/cpp/src/solvers/weno/weno_matrices.cpp
index 44e0ca7..6bbcccb 100644
--- a/code/cpp/src/solvers/weno/weno_matrices.cpp
+++ b/code/cpp/src/solvers/weno/weno_matrices.cpp
@@ -30,7 +30,7 @@ std::vector<MatN_N> coefficient_matrices(const std::vector<poly> &basis) {
 
 MatN_N oscillation_indicator(const std::vector<poly> &basis) {
   // Generate the oscillation indicator matrix from a set of basis polynomials
-  MatN_N ret;
+  MatN_N ret = MatN_N::Zero();
   for (int i = 0; i < N; i++)
     for (int j = 0; j < N; j++)
       for (int a = 1; a < N; a++) {
-- 
2.43.0


From 4f533f7ac92b6d8d2843564ed053952302bf74f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 03/28] fix: flux adds the concentration flux, as it does every
 other component

---
 code/cpp/src/system/equations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/equations.cpp b/code/cpp/src/system/equations.cpp
index 68603a6..9819435 100644
--- a/code/cpp/src/system/equations.cpp
+++ b/code/cpp/src/system/equations.cpp
@@ -43,7 +43,7 @@ void flux(VecVr ret, VecVr Q, int d, Par &MP) {
     ret(14 + d) += T;
   }
   if (MULTI) {
-    ret(mV) = Q(mV) * vd;
+    ret(mV) += Q(mV) * vd;
   }
 }
 
-- 
2.43.0


From 103604a62e31fa178e83b3d183f8963d0b3abc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 04/28] fix: slip_bcs fills YR from the right-hand state

---
 code/cpp/src/system/multi/conditions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/multi/conditions.cpp b/code/cpp/src/system/multi/conditions.cpp
index 1d3a1b4..6693cc3 100644
--- a/code/cpp/src/system/multi/conditions.cpp
+++ b/code/cpp/src/system/multi/conditions.cpp
@@ -37,7 +37,7 @@ void slip_bcs(Vecr x_, MatV_Vr RL, MatV_Vr RR, VecVr QL, VecVr QR, Vecr xL,
     Mat YL(2, n1);
     Mat YR(2, n1);
     YL << RL.block<1, n1>(11, 0), RL.block<1, n1>(14, 0);
-    YL << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
+    YR << RR.block<1, n1>(11, 0), RR.block<1, n1>(14, 0);
 
     Vec yL(2);
     Vec yR(2);
-- 
2.43.0


From 0f12dcdec3287a769ac21ebe9a86369e27c4772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 05/28] fix: stiff_initial_guess fills all NT nodes of each
 time level

---
 code/cpp/src/solvers/dg/initial_guess.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/dg/initial_guess.cpp b/code/cpp/src/solvers/dg/initial_guess.cpp
index f5e39f8..b2ddb9c 100644
--- a/code/cpp/src/solvers/dg/initial_guess.cpp
+++ b/code/cpp/src/solvers/dg/initial_guess.cpp
@@ -15,7 +15,8 @@ void standard_initial_guess2(Matr q, Matr w) {
 void stiff_initial_guess(Matr q, Matr w, int NT, double dt, Par &MP) {
   // Returns the initial guess found in DOI: 10.1007/s10915-010-9426-6
 
-  standard_initial_guess1(q, w);
+  for (int i = 0; i < N; i++)
+    q.block(i * NT, 0, NT, V) = w;
   /*
 Mat qt = w;
 
-- 
2.43.0


From e0e581aee4e37792296ac625059212b37adc5747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 06/28] fix: nonlin_solve tests the step it has just taken, not
 a shadowed variable

---
 code/cpp/src/scipy/newton_krylov.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/scipy/newton_krylov.cpp b/code/cpp/src/scipy/newton_krylov.cpp
index 7c5a5d4..5fff4b5 100644
--- a/code/cpp/src/scipy/newton_krylov.cpp
+++ b/code/cpp/src/scipy/newton_krylov.cpp
@@ -163,7 +163,7 @@ Vec nonlin_solve(VecFunc F, Vecr x, double f_tol, double f_rtol, double x_tol,
       break;
 
     double tol = std::min(eta, eta * Fx_norm);
-    Vec dx = -jacobian.solve(Fx, tol);
+    dx = -jacobian.solve(Fx, tol);
 
     _nonlin_line_search(F, x, Fx, dx);
     double Fx_norm_new = Fx.norm();
-- 
2.43.0


From 2fabd0d412709003e54534908611fcf0441679ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 07/28] fix: keep the two snapshots stored on NaN within the
 list of 100

---
 code/cpp/src/solvers/iterator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/solvers/iterator.cpp b/code/cpp/src/solvers/iterator.cpp
index 9bb70f3..d557caf 100644
--- a/code/cpp/src/solvers/iterator.cpp
+++ b/code/cpp/src/solvers/iterator.cpp
@@ -159,8 +159,8 @@ std::vector<Vec> iterator(Vecr u, double tf, iVecr nX, aVecr dX, double CFL,
     print(dt);
 
     if (u.array().isNaN().any()) {
-      ret[pushCount] = uprev;
-      ret[pushCount + 1] = u;
+      ret[std::min(pushCount, 98)] = uprev;
+      ret[std::min(pushCount + 1, 99)] = u;
       return ret;
     }
   }
-- 
2.43.0


From 14322f6650bb92a086a0e5a626aed60c5ac1fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:30 +0000
Subject: [PATCH 08/28] =?UTF-8?q?fix:=20pick=20the=20root=20of=20the=20rel?=
 =?UTF-8?q?axed=20stretches=20when=20=CE=94=20<=200?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 code/cpp/src/system/relaxation/analytic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 5268942..c281e93 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -108,7 +108,7 @@ void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
       double tmp = cbrt(54. * Δ);
       x1 = tmp / 6. + u / tmp + m;
     } else {
-      double θ = atan(sqrt(arg1) / (9. * Δ));
+      double θ = std::atan2(sqrt(arg1), 9. * Δ);
       x1 = sqrt(6. * u) / 3. * cos(θ / 3.) + m;
     }
     double tmp2 = 3. * m - x1;
-- 
2.43.0


From 9bb793d07d72ce983c69bfdc4f975cc0e05761e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:58 +0000
Subject: [PATCH 09/28] fix: solve for the predictor when its iteration runs
 out, instead of leaving it unset

---
 code/cpp/src/solvers/dg/dg1.cpp |  9 ++++++++-
 code/cpp/src/solvers/dg/dg2.cpp | 10 +++++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/solvers/dg/dg1.cpp b/code/cpp/src/solvers/dg/dg1.cpp
index 9732355..ff562c3 100644
--- a/code/cpp/src/solvers/dg/dg1.cpp
+++ b/code/cpp/src/solvers/dg/dg1.cpp
@@ -88,7 +88,8 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
         Mat q1(N * N, V);
         aMat absDiff(N * N, V);
 
-        for (int count = 0; count < DG_IT; count++) {
+        int count;
+        for (count = 0; count < DG_IT; count++) {
 
           q1 = DG_U1.solve(rhs1(q0, Ww, dt, dx, MP));
 
@@ -108,6 +109,12 @@ void predictor1(Vecr qh, Vecr wh, double dt, double dx, bool STIFF,
             break;
           }
         }
+        if (count == DG_IT) {
+          stiff_initial_guess(q0, wi, N, dt, MP);
+          VecMap q0v(q0.data(), N * N * V);
+          qh.segment<N * N * V>(ind * N * N * V) =
+              nonlin_solve(obj_bound, q0v, DG_TOL);
+        }
       }
     }
   }
diff --git a/code/cpp/src/solvers/dg/dg2.cpp b/code/cpp/src/solvers/dg/dg2.cpp
index 08234ac..03ca846 100644
--- a/code/cpp/src/solvers/dg/dg2.cpp
+++ b/code/cpp/src/solvers/dg/dg2.cpp
@@ -139,7 +139,8 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
         Mat q1(N * N * N, V);
         aMat absDiff(N * N * N, V);
 
-        for (int count = 0; count < DG_IT; count++)
+        int count;
+        for (count = 0; count < DG_IT; count++)
         {
 
           q1 = DG_U2.solve(rhs2(q0, Ww, dt, dx, dy, MP));
@@ -165,6 +166,13 @@ void predictor2(Vecr qh, Vecr wh, double dt, double dx, double dy, bool STIFF,
             break;
           }
         }
+        if (count == DG_IT)
+        {
+          stiff_initial_guess(q0, wi, N * N, dt, MP);
+          VecMap q0v(q0.data(), N * N * N * V);
+          qh.segment(ind * N * N * N * V, N * N * N * V) =
+              nonlin_solve(obj_bound, q0v, DG_TOL);
+        }
       }
     }
   }
-- 
2.43.0


From 78e99441384a3f1b089880f5d1407cd5caf19324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 10/28] fix: the split ODE solver leaves the distortion of an
 elastic solid as it is

---
 code/cpp/src/system/relaxation/analytic.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index c281e93..7f98e7e 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -19,6 +19,9 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
 
   // TODO: implement mixing of μ
 
+  if (MP.SOLID && !MP.POWER_LAW)
+    return 0.; // elastic
+
   if (MP.POWER_LAW) {
     double n = MP.n;
     double cs2 = c_s2(ρ, MP);
-- 
2.43.0


From 63c1c8aa5298de019b83319f7e51134a1d319a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 11/28] fix: relax the distortion of a fluid at the rate of the
 source term, with cs^2 at the current density

---
 code/cpp/src/system/relaxation/analytic.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index 7f98e7e..cd36eb4 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -62,13 +62,13 @@ double nondimensionalized_time(double ρ, double detA3, double m0, double u0,
                16. / 27. * a * a * a * b - 4. / 5. * a * a * b * b +
                16. / 33. * a * b * b * b - std::pow(b, 4.) / 9.);
 
-      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * MP.b02);
+      double τ1 = 6 * std::pow(MP.μ, 1. / n) / (MP.ρ0 * cs2);
       tmp1 = k * λ / τ1 * std::pow(detA3, 4. * k + 7.);
       tmp2 = std::pow(sqrt(c) * ρ * cs2 / (6. * sqrt(3.)), k);
       return 2. / (k * λ) * log(tmp1 * tmp2 * dt + 1.);
     }
   } else
-    return MP.ρ0 * MP.b02 * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
+    return MP.ρ0 * c_s2(ρ, MP) * std::pow(detA3, 7.) / (3. * MP.μ) * dt;
 }
 
 void analyticSolver_distortion(VecVr Q, double dt, Par &MP) {
-- 
2.43.0


From 50ce81435334402b2189806900bdfadd7c8abff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:16 +0000
Subject: [PATCH 12/28] fix: eigen takes the stress derivatives at cs^2 of the
 current density, as Xi1 does

---
 code/cpp/src/system/multi/eigenvecs.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/multi/eigenvecs.cpp b/code/cpp/src/system/multi/eigenvecs.cpp
index ff27325..263a686 100644
--- a/code/cpp/src/system/multi/eigenvecs.cpp
+++ b/code/cpp/src/system/multi/eigenvecs.cpp
@@ -6,6 +6,7 @@
 #include "../functions/vectors.h"
 #include "../objects.h"
 #include "../variables/state.h"
+#include "../waves/shear.h"
 
 MatV_V eigen(VecVr Q, int d, Par &MP)
 {
@@ -21,14 +22,14 @@ MatV_V eigen(VecVr Q, int d, Par &MP)
   Mat3_3Map A = get_A(Q);
   Mat3_3 G = A.transpose() * A;
   Mat3_3 A_devG = AdevG(A);
-  double b02 = MP.b02;
+  double cs2 = c_s2(ρ, MP);
 
   for (int i = 0; i < 3; i++)
     for (int j = 0; j < 3; j++)
     {
-      Π1(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 0);
-      Π2(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 1);
-      Π3(i, j) = dsigmadA(ρ, b02, A, G, A_devG, d, i, j, 2);
+      Π1(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 0);
+      Π2(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 1);
+      Π3(i, j) = dsigmadA(ρ, cs2, A, G, A_devG, d, i, j, 2);
     }
   Mat Ξ1 = Xi1(ρ, p, Q, MP, d);
   Mat Ξ2 = Xi2(ρ, p, Q, MP, d);
-- 
2.43.0


From 0d85e11bdf698345320a2e4be0aaf5dd78445094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:43 +0000
Subject: [PATCH 13/28] =?UTF-8?q?fix:=20dTd=CF=81=20includes=20the=20deriv?=
 =?UTF-8?q?ative=20of=20the=20reference=20temperature,=20Tref=20=CF=86(?=
 =?UTF-8?q?=CF=81)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 code/cpp/src/system/energy/mg.cpp | 6 +++---
 code/python/gpr/vars/mg.py        | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/energy/mg.cpp b/code/cpp/src/system/energy/mg.cpp
index d045dce..c0d2d6b 100644
--- a/code/cpp/src/system/energy/mg.cpp
+++ b/code/cpp/src/system/energy/mg.cpp
@@ -283,14 +283,14 @@ double dTdρ(double ρ, double p, Params &MP) {
 
   // TODO: update for multi (required for THERMAL mixtures)
 
-  // TODO: add Tref * dφ
-
   double cv = MP.cv;
   double Γ = Γ_MG(ρ, MP);
   double dΓ = dΓ_MG(ρ, MP);
   double pr = p_ref(ρ, MP);
   double dpr = dp_ref(ρ, MP);
-  return -(dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
+  double dφ = Γ * φ(ρ, MP) / ρ;
+  return MP.Tref * dφ -
+         (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / ((ρ * Γ) * (ρ * Γ)) / cv;
 }
 
 double dTdp(double ρ, Params &MP) {
diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index 1f599e7..b022555 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -277,7 +277,8 @@ def dTdρ(ρ, p, MP):
     dΓ = dΓ_MG(ρ, MP)
     pr = p_ref(ρ, MP)
     dpr = dp_ref(ρ, MP)
-    return - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
+    dφ = Γ * φ(ρ, MP) / ρ
+    return MP.Tref * dφ - (dpr * ρ * Γ + (Γ + ρ * dΓ) * (p - pr)) / (ρ * Γ)**2 / cv
 
 
 def dTdp(ρ, MP):
-- 
2.43.0


From 5b07198812a258a52fc0c7ecbbf3e0c2825a937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:43 +0000
Subject: [PATCH 14/28] =?UTF-8?q?fix:=20de=5Fref=20of=20the=20JWL=20and=20?=
 =?UTF-8?q?Cochran-Chan=20laws=20in=20the=20Python=20package=20is=20p=5Fre?=
 =?UTF-8?q?f=20/=20=CF=81=C2=B2?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 code/python/gpr/vars/mg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/mg.py b/code/python/gpr/vars/mg.py
index b022555..9bf30e7 100644
--- a/code/python/gpr/vars/mg.py
+++ b/code/python/gpr/vars/mg.py
@@ -195,7 +195,7 @@ def de_ref(ρ, MP):
         return c02 / (ρ * α) * (tmp - 1) * tmp
 
     elif EOS in [JWL, COCHRAN_CHAN]:
-        return e_ref(ρ, MP) / ρ**2
+        return p_ref(ρ, MP) / ρ**2
 
 
 def internal_energy(ρ, p, MP):
-- 
2.43.0


From 274af23fc55579e10d732fdf72760fcc2ad95b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:45 +0000
Subject: [PATCH 15/28] fix: Xi1 and Xi2 couple pressure and density to the
 velocity along d, in every direction

---
 code/cpp/src/system/eig.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/system/eig.cpp b/code/cpp/src/system/eig.cpp
index 07288dc..ce3d9a0 100644
--- a/code/cpp/src/system/eig.cpp
+++ b/code/cpp/src/system/eig.cpp
@@ -8,7 +8,7 @@
 Mat Xi1(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ1 = Mat::Zero(4, 5);
-  Ξ1(0, 1) = 1 / ρ;
+  Ξ1(d, 1) = 1 / ρ;
 
   if (VISCOUS) {
     Vec3 dσdρ = dsigmadρ(Q, MP, d);
@@ -32,7 +32,7 @@ Mat Xi2(double ρ, double p, VecVr Q, Par &MP, int d) {
 
   Mat Ξ2 = Mat::Zero(5, 4);
   double c0 = c_0(Q, MP);
-  Ξ2(0, 0) = ρ;
+  Ξ2(0, d) = ρ;
   Ξ2(1, d) = ρ * c0 * c0;
 
   if (VISCOUS) {
-- 
2.43.0


From 5eea0ab2bb57aa1ffb6fed82d8e36aba42d4fa32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:42 +0000
Subject: [PATCH 16/28] fix: leave every cell a stencil when weno2 reconstructs
 a grid one cell wide

---
 code/cpp/src/solvers/weno/weno.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/solvers/weno/weno.cpp b/code/cpp/src/solvers/weno/weno.cpp
index b6c2c38..84892b4 100644
--- a/code/cpp/src/solvers/weno/weno.cpp
+++ b/code/cpp/src/solvers/weno/weno.cpp
@@ -90,6 +90,9 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
   Mat tmp0(nx * N, V);
   MatMap tmp0Map(tmp0.data(), nx, N * V, OuterStride(N * V));
 
+  // on a narrow grid, leave every cell at least one stencil
+  int gap = std::min(N, nx / 2);
+
   for (int j = 0; j < ny + 2 * (N - 1); j++) {
     MatMap ubMap(ub.data() + j * V, nx + 2 * (N - 1), V,
                  OuterStride((ny + 2 * (N - 1)) * V));
@@ -97,7 +100,7 @@ void weno2(Matr wh, Matr ub, int nx, int ny) {
                  OuterStride((ny + 2 * (N - 1)) * N * V));
 
     if (NO_CORNERS && (j < N || j >= ny + 2 * (N - 1) - N))
-      weno1(tmp0, ubMap, nx, N);
+      weno1(tmp0, ubMap, nx, gap);
     else
       weno1(tmp0, ubMap, nx, 0);
     uxMap = tmp0Map;
-- 
2.43.0


From 994f990efe01165adaf26662889f0f3a52ec0171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:53 +0000
Subject: [PATCH 17/28] fix: rotate_distortion keeps the determinant of the
 distortion positive

---
 code/cpp/src/solvers/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/cpp/src/solvers/utils.cpp b/code/cpp/src/solvers/utils.cpp
index a681a34..911524b 100644
--- a/code/cpp/src/solvers/utils.cpp
+++ b/code/cpp/src/solvers/utils.cpp
@@ -35,6 +35,10 @@ void rotate_distortion(Vecr u, std::vector<Par> &MPs) {
       Vec3 s = svd.singularValues();
       A = svd.matrixV();
 
+      // V may be a reflection: keep the determinant of the distortion positive
+      if (A.determinant() < 0.)
+        A *= -1.;
+
       for (int j = 0; j < 3; j++)
         u.segment<3>(i * V + 5 + 3 * j) = s(j) * A.col(j);
     }
-- 
2.43.0


From 89129cf31bae0229b64f354c7224d088064db825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 18/28] fix: analytic heat-flux relaxation uses the temperature
 of the equation of state

solver_thermal took E - E_2A - E_3 for cv T + E_2J, which holds only when the
reference curve carries no energy (ideal gas without reaction).
---
 code/cpp/src/system/relaxation/analytic.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/cpp/src/system/relaxation/analytic.cpp b/code/cpp/src/system/relaxation/analytic.cpp
index cd36eb4..efc2646 100644
--- a/code/cpp/src/system/relaxation/analytic.cpp
+++ b/code/cpp/src/system/relaxation/analytic.cpp
@@ -6,6 +6,7 @@
 #include "../energy/eos.h"
 #include "../functions/matrices.h"
 #include "../functions/vectors.h"
+#include "../variables/state.h"
 #include "../waves/shear.h"
 
 double pos(double x) { return std::max(0., x); }
@@ -136,12 +137,11 @@ void analyticSolver_thermal(VecVr Q, double dt, Par &MP) {
   // TODO: implement mixing of κ
 
   double ρ = Q(0);
-  double E = Q(1) / ρ;
-  Vec3 v = get_ρv(Q) / ρ;
-  Mat3_3Map A = get_A(Q);
   Vec3Map ρJ = get_ρJ(Q);
+  Vec3 J = ρJ / ρ;
 
-  double c1 = E - E_2A(ρ, A, MP) - E_3(v);
+  // cv * T + E_2J is conserved, as only E_2J changes and T is linear in energy
+  double c1 = MP.cv * temperature(Q, MP) + E_2J(J, MP);
   double c2 = MP.cα2 / 2.;
   double k = 2 * MP.cα2 / (MP.κ * ρ * MP.cv);
   c1 *= k;
-- 
2.43.0


From 35a74ce9b6cdb4e7d976ae4a9f8066fc00e26a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:35 +0000
Subject: [PATCH 19/28] fix: ghost filling read cells outside of the grid near
 its edges

---
 code/cpp/src/multi/fill.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 540294a..64d39b8 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -6,7 +6,7 @@
 
 int iVec_to_ind(iVecr v) { return v(0) * V; }
 
-int iVec_to_ind(iVecr v, int ny) { return (v(0) * ny + v(1)) * V; }
+int iVec_to_ind(iVec v, int ny) { return (v(0) * ny + v(1)) * V; }
 
 void update_interface_mask(iVecr intMask, Vecr φ, int indL, int indR) {
   double φL = φ(indL);
@@ -93,6 +93,13 @@ int neighbor_index(iVecr intMask, int i, int j, int nx, int ny, int N0) {
   return indn;
 }
 
+iVec clamp_to_grid(iVec inds, iVecr nX) {
+  // Moves indexes lying outside of the grid to the cell at its edge
+  for (int d = 0; d < nX.size(); d++)
+    inds(d) = std::min(std::max(inds(d), 0), nX(d) - 1);
+  return inds;
+}
+
 BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   // Calculates indexes of the boundary states at position given by inds
 
@@ -105,9 +112,9 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
 
   BoundaryInds ret;
 
-  iVec xiVec = (xi / dX).cast<int>();
-  iVec xLVec = (xL / dX).cast<int>();
-  iVec xRVec = (xR / dX).cast<int>();
+  iVec xiVec = clamp_to_grid((xi / dX).cast<int>().matrix(), nX);
+  iVec xLVec = clamp_to_grid((xL / dX).cast<int>().matrix(), nX);
+  iVec xRVec = clamp_to_grid((xR / dX).cast<int>().matrix(), nX);
 
   int ndim = nX.size();
   switch (ndim) {
@@ -159,27 +166,27 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
 
     if (std::abs(n(0)) > std::abs(n(1))) {
       Linds(0) -= n0;
-      Lind = iVec_to_ind(Linds, nX(1));
+      Lind = iVec_to_ind(clamp_to_grid(Linds, nX), nX(1));
       if (get_material_index(grid.segment<V>(Lind)) == mat) {
         n(0) = n0;
         n(1) = 0.;
       } else {
         Linds(0) += n0;
         Linds(1) -= n1;
-        Lind = iVec_to_ind(Linds, nX(1));
+        Lind = iVec_to_ind(clamp_to_grid(Linds, nX), nX(1));
         n(0) = 0.;
         n(1) = n1;
       }
     } else {
       Linds(1) -= n1;
-      Lind = iVec_to_ind(Linds, nX(1));
+      Lind = iVec_to_ind(clamp_to_grid(Linds, nX), nX(1));
       if (get_material_index(grid.segment<V>(Lind)) == mat) {
         n(0) = 0.;
         n(1) = n1;
       } else {
         Linds(0) -= n0;
         Linds(1) += n1;
-        Lind = iVec_to_ind(Linds, nX(1));
+        Lind = iVec_to_ind(clamp_to_grid(Linds, nX), nX(1));
         n(0) = n0;
         n(1) = 0.;
       }
@@ -244,7 +251,7 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
   aVec n = normal(Δφi);
   aVec x = (inds.cast<double>().array() + 0.5) * dX;
   aVec xn = x - dX * n;
-  iVec newInds = (xn / dX).cast<int>();
+  iVec newInds = clamp_to_grid((xn / dX).cast<int>().matrix(), nX);
 
   switch (ndim) {
   case 1:
-- 
2.43.0


From 7846d1581ef0fba78349a58ddafa529c137a178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:01 +0000
Subject: [PATCH 20/28] fix: distance of a field without an interface was zero,
 which flipped the material of every cell

---
 code/cpp/src/multi/pfmm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/cpp/src/multi/pfmm.cpp b/code/cpp/src/multi/pfmm.cpp
index 233519c..88dc447 100644
--- a/code/cpp/src/multi/pfmm.cpp
+++ b/code/cpp/src/multi/pfmm.cpp
@@ -20,6 +20,8 @@ Vec distance(Vecr phi, aVecr dX, iVecr nX) {
   marcher = new distanceMarcher(phi.data(), dX.data(), FLAG.data(), dist.data(),
                                 ndim, nX.data(), TEST, ORDER, NARROW, PERIODIC);
   marcher->march();
+  if (marcher->getError() != 0) // there is no interface to measure from
+    dist = phi;
   delete marcher;
 
   return dist;
-- 
2.43.0


From 926f30695bc8ef78d139fdfaa3dd018773782f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:01 +0000
Subject: [PATCH 21/28] fix: ghost cells at the edge of the grid were filled
 from themselves

---
 code/cpp/src/multi/fill.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index 64d39b8..e95dfa8 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -265,8 +265,8 @@ void fill_neighbor_inner(Vecr grid, Vecr Δφi, iVecr inds, aVecr dX, iVecr nX,
     break;
   }
 
-  // must fill from a border cell
-  if (intMask(newInd / V) < 1)
+  // must fill from another cell, filled already
+  if (newInd == ind || intMask(newInd / V) < 1)
     newInd = indn * V;
   grid.segment<V - LSET>(ind) = grid.segment<V - LSET>(newInd);
 }
-- 
2.43.0


From e1579eee5eca9ccde109f34e3a8654c05d0356a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:35 +0000
Subject: [PATCH 22/28] fix: positive distances up to the machine epsilon came
 out negative

---
 code/cpp/include/skfmm/distance_marcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/cpp/include/skfmm/distance_marcher.cpp b/code/cpp/include/skfmm/distance_marcher.cpp
index 1cadfd6..38160fe 100644
--- a/code/cpp/include/skfmm/distance_marcher.cpp
+++ b/code/cpp/include/skfmm/distance_marcher.cpp
@@ -81,7 +81,7 @@ double distanceMarcher::solveQuadratic(int i, const double &a, const double &b,
   } else {
     return 0;
   }
-  if (phi_[i] > doubleEpsilon)
+  if (phi_[i] > 0)
     return r0;
   else
     return r1;
-- 
2.43.0


From efe5bf731af46e16707285b508ffbc67e1b41278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 23/28] fix: entropy_hyp used log without importing it

---
 code/python/gpr/vars/hyp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/python/gpr/vars/hyp.py b/code/python/gpr/vars/hyp.py
index 81edbe4..585f09e 100644
--- a/code/python/gpr/vars/hyp.py
+++ b/code/python/gpr/vars/hyp.py
@@ -1,4 +1,4 @@
-from numpy import dot, exp, eye, zeros
+from numpy import dot, exp, eye, log, zeros
 from numpy.linalg import det, inv
 
 from gpr.misc.functions import I_1, I_2, I_3, gram
-- 
2.43.0


From af5cd0390b8c3429401de05dd5f117f0709a0e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 24/28] fix: theta1inv and K_ing used names and densities that
 do not exist

---
 code/python/gpr/vars/sources.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/python/gpr/vars/sources.py b/code/python/gpr/vars/sources.py
index cb52065..be0daf9 100644
--- a/code/python/gpr/vars/sources.py
+++ b/code/python/gpr/vars/sources.py
@@ -33,7 +33,7 @@ def theta1inv(ρ, A, MP):
     else:
 
         n = MP.n
-        const = detA5_3 * ρ0 / (2 * μ**(1/n))
+        const = detA5_3 * MP.ρ0 / (2 * MP.μ**(1/n))
 
         if MP.POWER_LAW:  # power law fluid
 
@@ -93,15 +93,15 @@ def K_ing(ρ, λ, p, MP):
     x = MP.x
     y = MP.y
     z = MP.z
-    φIG = MP.φIG
+    φI = MP.φI
     φG1 = MP.φG1
     φG2 = MP.φG2
 
     φ = 1 - λ
 
     ret = 0
-    if φIG > φ:
-        ret += I * λ**b * (ρ - 1 - a)**x
+    if φI > φ:
+        ret += I * λ**b * (ρ / MP.ρ0 - 1 - a)**x
     if φG1 > φ:
         ret += G1 * λ**c * φ**d * p**y
     if φ > φG2:
-- 
2.43.0


From 888473b37bbf7ef2ea7ecb20ce23a02e2451d75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 25/28] fix: State.K compared reaction codes with letters and
 returned nothing

---
 code/python/gpr/misc/structures.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/python/gpr/misc/structures.py b/code/python/gpr/misc/structures.py
index 17244d5..059e294 100644
--- a/code/python/gpr/misc/structures.py
+++ b/code/python/gpr/misc/structures.py
@@ -3,6 +3,7 @@ from numpy import zeros
 import GPRpy
 
 from gpr.misc.functions import gram, sigma_norm
+from gpr.misc.objects import REACTION_CODES
 from gpr.vars.derivatives import dEdρ, dEdp, dEdA, dEdA_s, dEdJ, dTdρ, dTdp
 from gpr.vars.eos import total_energy
 from gpr.vars.sources import theta1inv, theta2inv, K_arr, K_dis, K_ing, f_δp
@@ -85,11 +86,11 @@ class State():
         return theta2inv(self.ρ, self.T(), self.MP)
 
     def K(self):
-        if self.MP.REACTION == 'a':
+        if self.MP.REACTION == REACTION_CODES['a']:
             return K_arr(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'd':
+        elif self.MP.REACTION == REACTION_CODES['d']:
             return K_dis(self.ρ, self.λ, self.T(), self.MP)
-        elif self.MP.REACTION == 'i':
+        elif self.MP.REACTION == REACTION_CODES['i']:
             return K_ing(self.ρ, self.λ, self.p(), self.MP)
 
     def f_body(self):
-- 
2.43.0


From 6f8d2cbe2a316ddda9b3bf759adc3aff9072a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:46 +0000
Subject: [PATCH 26/28] fix: the second material's parameters were filled by
 the first material's equation of state

---
 code/python/gpr/misc/objects.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/code/python/gpr/misc/objects.py b/code/python/gpr/misc/objects.py
index cc52910..013aecf 100644
--- a/code/python/gpr/misc/objects.py
+++ b/code/python/gpr/misc/objects.py
@@ -147,36 +147,37 @@ def params(MP, Rc, EOS,
             MP.MP2.cv = cv_2
             MP.MP2.Tref = Tref_2
 
-        if EOS == 'sg':
+        if EOS_2 == 'sg':
             MP.MP2.γ = γ_2
             MP.MP2.pINF = pINF_2
 
-        elif EOS == 'smg':
+        elif EOS_2 == 'smg':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.c02 = c0_2**2
             MP.MP2.s = s_2
 
-        elif EOS == 'gr':
+        elif EOS_2 == 'gr':
             MP.MP2.c02 = c0_2**2
             MP.MP2.α = α_2
             MP.MP2.β = β_2
             MP.MP2.γ = γ_2
 
-        elif EOS == 'jwl' or EOS == 'cc':
+        elif EOS_2 == 'jwl' or EOS_2 == 'cc':
             MP.MP2.Γ0 = Γ0_2
             MP.MP2.A = A_2
             MP.MP2.B = B_2
             MP.MP2.R1 = R1_2
             MP.MP2.R2 = R2_2
 
-        if b0 is not None:
+        if b0_2:
             MP.MP2.b02 = b0_2**2
             MP.MP2.β = β_2
-            MP.MP2.μ = μ_2
+            if μ_2:
+                MP.MP2.μ = μ_2
             if n_2:
                 MP.MP2.n = n_2
 
-        if cα:
+        if cα_2:
             MP.MP2.cα2 = cα_2**2
             MP.MP2.κ = κ_2
 
@@ -241,6 +242,9 @@ def material_params(EOS, ρ0,
         if β_2 is None:
             β_2 = 0
 
+        if γ_2 and (pINF_2 is None):
+            pINF_2 = 0
+
         if Pr_2:
             κ_2 = μ_2 * γ_2 * cv_2 / Pr_2
 
-- 
2.43.0


From de9c76f7ca8994cb5e90a1731e57cc7a52176958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:07 +0000
Subject: [PATCH 27/28] fix: pressure derivative of a mixture's energy held the
 densities of its materials fixed

---
 code/cpp/src/system/energy/derivatives.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/code/cpp/src/system/energy/derivatives.cpp b/code/cpp/src/system/energy/derivatives.cpp
index 0a8a284..a968393 100644
--- a/code/cpp/src/system/energy/derivatives.cpp
+++ b/code/cpp/src/system/energy/derivatives.cpp
@@ -55,10 +55,21 @@ double dEdp(VecVr Q, Par &MP) {
     double λ = Q(mV) / ρ;
 
     Vec3 sol = solve_multi(Q, MP);
+    double p = sol(0);
     double ρ1 = sol(1);
     double ρ2 = sol(2);
 
-    return λ * dedp(ρ1, MP) + (1 - λ) * dedp(ρ2, MP.MP2);
+    // the densities move with p so that the temperatures stay equal
+    double dT1 = dTdρ(ρ1, p, MP);
+    double dT2 = dTdρ(ρ2, p, MP.MP2);
+    double c1 = λ / (ρ1 * ρ1);
+    double c2 = (1 - λ) / (ρ2 * ρ2);
+    double c = (dTdp(ρ2, MP.MP2) - dTdp(ρ1, MP)) / (c1 * dT2 + c2 * dT1);
+
+    double tmp1 = λ * (dedp(ρ1, MP) + dedρ(ρ1, p, MP) * c2 * c);
+    double tmp2 = (1 - λ) * (dedp(ρ2, MP.MP2) - dedρ(ρ2, p, MP.MP2) * c1 * c);
+
+    return tmp1 + tmp2;
   } else {
     return dedp(ρ, MP);
   }
-- 
2.43.0


From 58743ca1f9847987f7a39e261364ccc85f7667d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:56 +0000
Subject: [PATCH 28/28] fix: ghost cells filled next to each other took each
 other's filled state for that of the other material

---
 code/cpp/src/multi/fill.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/code/cpp/src/multi/fill.cpp b/code/cpp/src/multi/fill.cpp
index e95dfa8..a4f77c2 100644
--- a/code/cpp/src/multi/fill.cpp
+++ b/code/cpp/src/multi/fill.cpp
@@ -138,10 +138,11 @@ BoundaryInds boundary_inds(iVec inds, double φi, aVecr n, aVecr dX, iVecr nX) {
   return ret;
 }
 
-void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
-                         int mat, std::vector<Par> &MPs, double dt, Vecr n,
-                         int indn) {
+void fill_boundary_inner(Vecr filled, Vecr grid, iVecr inds, aVecr dX, iVecr nX,
+                         double φi, int mat, std::vector<Par> &MPs, double dt,
+                         Vecr n, int indn) {
   // Attempts to fill the boundary cell at location given by inds.
+  // The states are those of grid, in which no boundary cell is filled yet.
   // TODO: handle case when QL is chosen to be an isolated point
 
   BoundaryInds bInds = boundary_inds(inds, φi, n, dX, nX);
@@ -198,10 +199,10 @@ void fill_boundary_inner(Vecr grid, iVecr inds, aVecr dX, iVecr nX, double φi,
   }
 
   VecV QL_ = left_star_state(QL, QR, MPs[mat], MPs[miR], dt, n);
-  grid.segment<V - LSET>(bInds.ind) = QL_.head<V - LSET>();
+  filled.segment<V - LSET>(bInds.ind) = QL_.head<V - LSET>();
 
   if (get_material_index(grid.segment<V>(bInds.interf)) != mat)
-    grid.segment<V - LSET>(bInds.interf) = QL_.head<V - LSET>();
+    filled.segment<V - LSET>(bInds.interf) = QL_.head<V - LSET>();
 }
 
 void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
@@ -209,6 +210,7 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
   int ndim = nX.size();
   int nx = nX(0);
   Vec n(ndim);
+  Vec grid0 = grid;
 
   switch (ndim) {
 
@@ -218,13 +220,13 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
         n = normal(Δφ.row(ind));
         iVec inds(1);
         inds << ind;
-        fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n, -1);
+        fill_boundary_inner(grid, grid0, inds, dX, nX, φ(ind), mat, MPs, dt, n,
+                            -1);
       }
     }
     break;
   case 2:
     int ny = nX(1);
-#pragma omp parallel for collapse(2) private(n)
     for (int i = 0; i < nx; i++)
       for (int j = 0; j < ny; j++) {
         int ind = i * ny + j;
@@ -233,8 +235,8 @@ void fill_boundary_cells(Vecr grid, iVecr intMask, int mat, Vecr φ, Matr Δφ,
           n = normal(Δφ.row(ind));
           iVec inds(2);
           inds << i, j;
-          fill_boundary_inner(grid, inds, dX, nX, φ(ind), mat, MPs, dt, n,
-                              indn);
+          fill_boundary_inner(grid, grid0, inds, dX, nX, φ(ind), mat, MPs, dt,
+                              n, indn);
         }
       }
     break;
-- 
2.43.0

