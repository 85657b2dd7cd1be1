From e067eaada862b302dadcc036956faf20df8ac60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 01/26] fix: add the missing fourth derivative of feature
 potentials

FeaturePotential inherited d4V from the featureless potential, so the feature
was silently dropped from the fourth derivative.
---
 primpy/potentials.py | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/primpy/potentials.py b/primpy/potentials.py
index 5d8c4a7..06aef21 100644
--- a/primpy/potentials.py
+++ b/primpy/potentials.py
@@ -1298,6 +1298,11 @@ class FeatureFunction(ABC):
     def d3F(x, x0, a, b):
         """Feature function 3rd derivative."""
 
+    @staticmethod
+    @abstractmethod
+    def d4F(x, x0, a, b):
+        """Feature function 4th derivative."""
+
 
 class GaussianDip(FeatureFunction):
     """Gaussian: `F(x) = -a * exp(-(x-x0)**2 / (2*b**2))`."""
@@ -1322,6 +1327,12 @@ class GaussianDip(FeatureFunction):
         """`F'''(x) = a/b**6 * (x-x0) * ((x-x0)**2 - 3*b**2) * exp(-(x-x0)**2 / (2*b**2))`."""
         return a / b**6 * (x - x0) * ((x - x0)**2 - 3 * b**2) * np.exp(-(x - x0)**2 / (2 * b**2))
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = -a/b**8 * ((x-x0)**4 - 6*b**2*(x-x0)**2 + 3*b**4) * exp(...)`."""
+        return (-a / b**8 * ((x - x0)**4 - 6 * b**2 * (x - x0)**2 + 3 * b**4)
+                * np.exp(-(x - x0)**2 / (2 * b**2)))
+
 
 class TanhStep(FeatureFunction):
     """Tanh step function: `F(x) = a * tanh((x - x0) / b)`."""
@@ -1349,6 +1360,12 @@ class TanhStep(FeatureFunction):
         tanh = np.tanh((x - x0) / b)
         return -2 * a / b**3 * (1 - 4 * tanh**2 + 3 * tanh**4)
 
+    @staticmethod
+    def d4F(x, x0, a, b):
+        """`F''''(x) = 8*a/b**4 * tanh((x-x0)/b) * (2 - 5*tanh(...)**2 + 3*tanh(...)**4)`."""
+        tanh = np.tanh((x - x0) / b)
+        return 8 * a / b**4 * tanh * (2 - 5 * tanh**2 + 3 * tanh**4)
+
 
 class FeaturePotential(InflationaryPotential, FeatureFunction):
     """Inflationary potential with a feature: `V(phi) = V0(phi) * (1+F(phi))`."""
@@ -1411,6 +1428,28 @@ class FeaturePotential(InflationaryPotential, FeatureFunction):
         d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
         return d3V0 * (1 + F) + 3 * d2V0 * dF + 3 * dV0 * d2F + V0 * d3F
 
+    def d4V(self, phi):
+        r"""Fourth derivative of the inflationary potential with a feature.
+
+        .. math::
+            V''''(\phi) = V_0''''(\phi) * (1 + F(\phi))
+                         + 4 * V_0'''(\phi) * F'(\phi)
+                         + 6 * V_0''(\phi) * F''(\phi)
+                         + 4 * V_0'(\phi) * F'''(\phi)
+                         + V_0(\phi) * F''''(\phi)
+        """
+        V0 = super().V(phi)
+        dV0 = super().dV(phi)
+        d2V0 = super().d2V(phi)
+        d3V0 = super().d3V(phi)
+        d4V0 = super().d4V(phi)
+        F = super().F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        dF = super().dF(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d2F = super().d2F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d3F = super().d3F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        d4F = super().d4F(phi, self.phi_feature, self.a_feature, self.b_feature)
+        return d4V0 * (1 + F) + 4 * d3V0 * dF + 6 * d2V0 * d2F + 4 * dV0 * d3F + V0 * d4F
+
 
 class StarobinskyGaussianDipPotential(FeaturePotential, StarobinskyPotential, GaussianDip):
     """Starobinsky potential with a Gaussian dip."""
-- 
2.43.0


From 4a69a43ef83e5ab2d11c9903b0c84f5cfcd686b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:39 +0000
Subject: [PATCH 02/26] fix: include curvature in the third time derivative of
 the field

In cosmic time d3phi/dt3 = -3 H d2phi - 3 dH dphi - d2V dphi. The code had
replaced dH by its flat-universe value -dphi**2/2.
---
 primpy/time/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/time/inflation.py b/primpy/time/inflation.py
index 5b6d8a9..1df001b 100644
--- a/primpy/time/inflation.py
+++ b/primpy/time/inflation.py
@@ -77,7 +77,7 @@ class InflationEquationsT(InflationEquations):
     @staticmethod
     def get_d3phi(H, dH, d2H, dphi, d2phi, dV, d2V):  # noqa: D102
         # here: d3phi/dt3
-        return -3 * H * d2phi - d2V * dphi + 3 * dphi**3 / 2
+        return -3 * H * d2phi - d2V * dphi - 3 * dH * dphi
 
     @staticmethod
     def get_d4phi(H, dH, d2H, d3H, dphi, d2phi, d3phi, dV, d2V, d3V):  # noqa: D102
-- 
2.43.0


From 8b42b28d588ee8582393234bf14e614ccdb5caee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:00 +0000
Subject: [PATCH 03/26] fix: shooting for initial conditions survives empty
 event lists

Comparing an empty event array with a number and taking its truth value is an
error in current numpy, so a collapsing universe or a failed step size ended in
an unrelated ValueError.
---
 primpy/initialconditions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/primpy/initialconditions.py b/primpy/initialconditions.py
index 8aef2fd..5abc77f 100644
--- a/primpy/initialconditions.py
+++ b/primpy/initialconditions.py
@@ -212,7 +212,7 @@ class ISIC_Nt(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N_tot, phi_i))
                 return sol._N[-1] - ic.N_i
             elif (np.size(sol._N_events['Collapse']) > 0 or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 return 0 - self.N_tot
             elif 'step size' in sol.message:
@@ -293,12 +293,12 @@ class ISIC_NsOk(InflationStartIC):
                 self.vprint("N_tot > %g for phi_i = %.15g" % (self.N0, phi_i))
                 return sol._N[-1]
             elif (np.size(sol._N_events['Collapse']) > 0 or sol.N_tot <= self.N_star or
-                  sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
+                  np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0])):
                 self.vprint("N_tot = %g for phi_i = %.15g" % (sol.N_tot, phi_i))
                 if sol.N_tot <= self.N_star:
                     self.vwarn(InflationWarning("Insufficient inflation: N_tot = %g < %g = N_star"
                                                 % (sol.N_tot, self.N_star)))
-                elif sol._N_events['Inflation_dir-1_term1'] == sol._N[0]:
+                elif np.any(sol._N_events['Inflation_dir-1_term1'] == sol._N[0]):
                     self.vwarn(InflationWarning("Universe has ended early: _N[0]=%g, _N_events=%s"
                                                 % (sol._N[0], sol._N_events)))
                 return 0 - self.N_star
-- 
2.43.0


From c7290099b98b0235bd31ece613466070516091c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 04/26] fix: copy the Hubble rate at the end of inflation from
 the calibrating background

---
 primpy/inflation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index a206ed5..abd607d 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -720,6 +720,7 @@ class InflationEquations(Equations, ABC):
                     sol._N_cross = background._N_cross
                     sol._N_reh = background._N_reh
                     sol._N_end = background._N_end
+                    sol.H_end = background.H_end
                     sol.N_star = background.N_star
 
                 sol.a0_Mpc = np.exp(sol._logaH_star) / K_STAR
-- 
2.43.0


From 9ae2614e2ff8d7d51205c6ca5ddd62865651443a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 05/26] fix: duration of reheating from w_reh and rho_reh_GeV
 in curved universes

---
 primpy/inflation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index abd607d..45d745b 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -806,7 +806,7 @@ class InflationEquations(Equations, ABC):
                         sol.w_reh = w_reh
                         sol.rho_reh_GeV = rho_reh_GeV
                         sol.rho_reh_mp4 = rho_reh_GeV**4 / mp_GeV * lp_iGeV**3
-                        sol.DeltaN_reh = -(1+w_reh) / 3 * np.log(2/3 * sol.rho_reh_mp4 / sol.V_end)
+                        sol.DeltaN_reh = np.log(3/2*sol.V_end/sol.rho_reh_mp4) / (3*(1+w_reh))
                         sol.DeltaN_minus1 = sol.DeltaN_reh / 4 * (1 - 3 * w_reh)
                         sol.N0 += sol.DeltaN_minus1
                         sol._N_reh = sol._N_end + sol.DeltaN_reh
-- 
2.43.0


From a380a95b0965a2d418d65c8f0b78a149281507a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:52 +0000
Subject: [PATCH 06/26] fix: reset the reheating energy density when
 calibrating with Omega_K0 only

---
 primpy/inflation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 45d745b..f3b27c0 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -752,6 +752,7 @@ class InflationEquations(Equations, ABC):
                     sol.N0 = np.log(sol.a0)
                     if rho_reh_GeV is None:
                         sol.rho_reh_GeV = np.nan
+                        sol.rho_reh_mp4 = np.nan
                         sol._N_reh = np.nan
                         sol.w_reh = np.nan
                         sol.DeltaN_reh = np.nan
-- 
2.43.0


From 5917425128c14914a58c9e5ecbd5f6e78ec80c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 07/26] fix: refuse N_star when calibrating flat universes from
 reheating

---
 primpy/inflation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index f3b27c0..17d77c8 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -611,6 +611,10 @@ class InflationEquations(Equations, ABC):
                             )
 
                     elif calibration_method == 'reheating':  # derive _N_cross from reheating
+                        if N_star is not None:
+                            raise ValueError(f"For calibration_method='reheating', `N_star` is a "
+                                             f"derived parameter, not an input parameter, but you "
+                                             f"requested N_star={N_star}.")
                         if (DeltaN_reh is not None and DeltaN_reh < 0 or
                                 w_reh is not None and w_reh < -1/3):
                             raise ValueError(f"DeltaN_reh must be positive (end of reheating "
-- 
2.43.0


From c70a77a93f474cfa3b1b03bc44bd4e9c09acb8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:43 +0000
Subject: [PATCH 08/26] fix: refuse DeltaN_minus1 when calibrating flat
 universes from N_star

---
 primpy/inflation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 17d77c8..13789c1 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -565,7 +565,11 @@ class InflationEquations(Equations, ABC):
                                              - np.log((45 / pi**2)**(1 / 4) * g0**(-1 / 3))
                                              - np.log(g_th) / 12
                                              - np.log(sol.V_end / T_CMB_Tp**4) / 4)
-                        if rho_reh_GeV is None and w_reh is None and DeltaN_reh is None:
+                        if DeltaN_minus1 is not None:
+                            raise ValueError(f"For calibration_method='N_star', `DeltaN_minus1` "
+                                             f"is a derived parameter, not an input parameter, "
+                                             f"but got DeltaN_minus1={DeltaN_minus1}.")
+                        elif rho_reh_GeV is None and w_reh is None and DeltaN_reh is None:
                             sol.rho_reh_GeV = np.nan
                             sol.rho_reh_mp4 = np.nan
                             sol._N_reh = np.nan
-- 
2.43.0


From cf5b9bcfb791b71949cc7e732847b7adc0a68602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 09/26] fix: refuse derived reheating parameters when
 calibrating with Omega_K0

---
 primpy/inflation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 13789c1..00cb8a9 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -754,6 +754,13 @@ class InflationEquations(Equations, ABC):
                     elif np.sign(Omega_K0) != -sol.K:
                         raise ValueError(f"The global geometry needs to match, but "
                                          f"Omega_K0={Omega_K0} whereas K={sol.K}.")
+                    elif (w_reh is not None or DeltaN_reh is not None
+                            or DeltaN_minus1 is not None):
+                        raise ValueError(f"For calibration_method='Omega_K0', `w_reh`, "
+                                         f"`DeltaN_reh`, and `DeltaN_minus1` are derived "
+                                         f"parameters, not input parameters, but got "
+                                         f"w_reh={w_reh}, DeltaN_reh={DeltaN_reh}, and "
+                                         f"DeltaN_minus1={DeltaN_minus1}.")
                     sol.Omega_K0 = Omega_K0
                     sol.a0_Mpc = c / (h * 100 * 1e3) * np.sqrt(-sol.K / Omega_K0)
                     sol.a0 = sol.a0_Mpc * Mpc_m / lp_m
-- 
2.43.0


From 8290742140a6cb8dc9794df34deb731af1968ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 10/26] fix: refuse DeltaN_minus1 when calibrating curved
 universes from reheating

---
 primpy/inflation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 00cb8a9..e895432 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -808,6 +808,10 @@ class InflationEquations(Equations, ABC):
                         sol.rho_reh_mp4 = 3/2 * sol.V_end
                         sol.rho_reh_GeV = (sol.rho_reh_mp4 * mp_GeV / lp_iGeV**3)**(1/4)
                         sol._N_reh = sol._N_end
+                    elif DeltaN_minus1 is not None:
+                        raise ValueError(f"For curved universes `DeltaN_minus1!=0` is a derived "
+                                         f"parameter, not an input parameter, but got "
+                                         f"DeltaN_minus1={DeltaN_minus1}.")
                     elif w_reh is not None and DeltaN_reh is not None and rho_reh_GeV is None:
                         # reheating from w_reh and DeltaN_reh
                         sol.w_reh = w_reh
-- 
2.43.0


From b1d0255541b28343e892ab1bf381352cf747c6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 11/26] fix: conformal time ratio of flat universes uses the
 calibrated scale factor

---
 primpy/bigbang.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/primpy/bigbang.py b/primpy/bigbang.py
index 560e3f7..23f1ac8 100644
--- a/primpy/bigbang.py
+++ b/primpy/bigbang.py
@@ -286,10 +286,10 @@ def conformal_time_ratio(Omega_m0, Omega_K0, h, b_forward, b_backward=None):
     else:
         eta_beg = b_backward.eta[-1]
     eta_end = b_forward.eta[-1]
-    conformal_time_before = eta_end - eta_beg
+    conformal_time_before = (eta_end - eta_beg) * np.exp(-b_forward.delta_N_calib)
 
     # after (from the end of inflation until today)
-    conformal_time_after = conformal_time(N_start=b_forward._N_end,
+    conformal_time_after = conformal_time(N_start=b_forward.N_end,
                                           N=np.log(b_forward.a0),
                                           Omega_m0=Omega_m0,
                                           Omega_K0=Omega_K0,
-- 
2.43.0


From 85db38bfd9c2f189254554e768e0c72cb286af3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 12/26] fix: compare base versions as versions in
 unit_incremented

---
 bin/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bin/utils.py b/bin/utils.py
index 0dcdba8..5a27106 100644
--- a/bin/utils.py
+++ b/bin/utils.py
@@ -13,16 +13,18 @@ def unit_incremented(a, b):
     """Check if a is one version larger than b."""
     a = version.parse(a)
     b = version.parse(b)
+    base_a = version.parse(a.base_version)
+    base_b = version.parse(b.base_version)
     if a.pre is not None and b.pre is not None:
         if a.pre[0] == b.pre[0]:
-            return a.pre[1] == b.pre[1]+1 and a.base_version == b.base_version
+            return a.pre[1] == b.pre[1]+1 and base_a == base_b
         else:
             return (a.pre[1] == 0 and a.pre[0] > b.pre[0]
-                    and a.base_version == b.base_version)
+                    and base_a == base_b)
     elif a.pre is not None:
-        return a.base_version > b.base_version and a.pre[1] == 0
+        return base_a > base_b and a.pre[1] == 0
     elif b.pre is not None:
-        return a.base_version == b.base_version
+        return base_a == base_b
     else:
         return (a.micro == b.micro+1 and
                 a.minor == b.minor and
-- 
2.43.0


From f8d2c80f1685be7e88aaaf6f61b497e1dedeb042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:39 +0000
Subject: [PATCH 13/26] fix: compare base versions as versions in the version
 check of the workflow

---
 .github/workflows/check_version.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/.github/workflows/check_version.py b/.github/workflows/check_version.py
index 59bb0bf..98b2c78 100644
--- a/.github/workflows/check_version.py
+++ b/.github/workflows/check_version.py
@@ -16,16 +16,18 @@ def unit_incremented(a, b):
     """Check if a is one version larger than b."""
     a = version.parse(a)
     b = version.parse(b)
+    base_a = version.parse(a.base_version)
+    base_b = version.parse(b.base_version)
     if a.pre is not None and b.pre is not None:
         if a.pre[0] == b.pre[0]:
-            return a.pre[1] == b.pre[1]+1 and a.base_version == b.base_version
+            return a.pre[1] == b.pre[1]+1 and base_a == base_b
         else:
             return (a.pre[1] == 0 and a.pre[0] > b.pre[0]
-                    and a.base_version == b.base_version)
+                    and base_a == base_b)
     elif a.pre is not None:
-        return a.base_version > b.base_version and a.pre[1] == 0
+        return base_a > base_b and a.pre[1] == 0
     elif b.pre is not None:
-        return a.base_version == b.base_version
+        return base_a == base_b
     else:
         return (a.micro == b.micro+1 and
                 a.minor == b.minor and
-- 
2.43.0


From a59333c8836c75cd8b771c5d4f08a82f8e43b630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 14/26] fix: no tensor running when only the tensor tilt is
 given to feature spectra

---
 cobaya_wrapper/feature_pps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 341d3ae..98d73d8 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -33,7 +33,7 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
         w_log = params_values_dict.get('w_log', None)
@@ -86,7 +86,7 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
         w_lin = params_values_dict.get('w_lin', None)
@@ -139,7 +139,7 @@ class CutoffPPS(ExternalPrimordialPowerSpectrum):
         n_runrun = params_values_dict.get('n_runrun', 0)
         A_t = params_values_dict.get('A_t', 0)
         n_t = params_values_dict.get('n_t', None)
-        n_t_run = params_values_dict.get('n_t_run', None)
+        n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         k_cut = params_values_dict.get('k_cut', 1e-3)
         s_cut = params_values_dict.get('s_cut', 2)
-- 
2.43.0


From e0153426b09eb0885fb252a41e9808bbb3cda413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:19 +0000
Subject: [PATCH 15/26] fix: oscillation spectra without frequency or phase
 parameters

---
 cobaya_wrapper/feature_pps.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cobaya_wrapper/feature_pps.py b/cobaya_wrapper/feature_pps.py
index 98d73d8..b7ebe0a 100644
--- a/cobaya_wrapper/feature_pps.py
+++ b/cobaya_wrapper/feature_pps.py
@@ -36,8 +36,8 @@ class LogOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_log = params_values_dict.get('A_log', 0)
-        w_log = params_values_dict.get('w_log', None)
-        p_log = params_values_dict.get('p_log', None)
+        w_log = params_values_dict.get('w_log', 0)
+        p_log = params_values_dict.get('p_log', 0)
 
         if n_t is None:
             # set from inflationary consistency
@@ -89,8 +89,8 @@ class LinOscillationPPS(ExternalPrimordialPowerSpectrum):
         n_t_run = params_values_dict.get('n_t_run', 0)
         r = params_values_dict.get('r', A_t/A_s)
         A_lin = params_values_dict.get('A_lin', 0)
-        w_lin = params_values_dict.get('w_lin', None)
-        p_lin = params_values_dict.get('p_lin', None)
+        w_lin = params_values_dict.get('w_lin', 0)
+        p_lin = params_values_dict.get('p_lin', 0)
 
         if n_t is None:
             # set from inflationary consistency
-- 
2.43.0


From e0e6259c30ae3fc570942c055bbe7e0d075809ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 16/26] fix: inflation start warning looks for the events under
 their actual names

---
 primpy/exceptionhandling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/primpy/exceptionhandling.py b/primpy/exceptionhandling.py
index 97615b4..7bbaf52 100644
--- a/primpy/exceptionhandling.py
+++ b/primpy/exceptionhandling.py
@@ -121,7 +121,7 @@ class InflationStartWarning(InflationWarning):
         events = kwargs.pop('events', None)
         if events is None:
             self.message = "%s. %s" % (self.header, message)
-        elif 'Inflation_dir+1_term1' not in events and 'Inflation_dir+1_term0' not in events:
+        elif 'Inflation_dir1_term1' not in events and 'Inflation_dir1_term0' not in events:
             extra_info = ("Not tracking `InflationEvent`. Events tracked are %s. In order to "
                           "determine the start of inflation `_N_beg`, make sure to track the "
                           "event `InflationEvent(equations, direction=+1)` defined in "
-- 
2.43.0


From 254c0d2e734440ecdc89ecbfb092f714a98428ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:26 +0000
Subject: [PATCH 17/26] fix: a terminal event marks the start of inflation like
 a non-terminal one

---
 primpy/inflation.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index e895432..99c0df8 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -416,13 +416,14 @@ class InflationEquations(Equations, ABC):
             sol._N_beg = sol._N[0]
             sol.H_beg = self.H(sol.x[0], sol.y[:, 0])
         # Case 2: there is a transition from non-inflating to inflating
-        elif ('Inflation_dir1_term0' in sol._N_events and
-              np.size(sol._N_events['Inflation_dir1_term0']) > 0):
-            sol._N_beg = sol._N_events['Inflation_dir1_term0'][0]
-            sol.H_beg = self.H(sol.x_events['Inflation_dir1_term0'][0],
-                               sol.y_events['Inflation_dir1_term0'][0])
         else:
-            self.vwarn(InflationStartWarning("", events=sol._N_events))
+            for key in ['Inflation_dir1_term1', 'Inflation_dir1_term0']:
+                if key in sol._N_events and np.size(sol._N_events[key]) > 0:
+                    sol._N_beg = sol._N_events[key][0]
+                    sol.H_beg = self.H(sol.x_events[key][0], sol.y_events[key][0])
+                    break
+            else:
+                self.vwarn(InflationStartWarning("", events=sol._N_events))
         sol._logaH_beg = sol._N_beg + np.log(sol.H_beg)
 
     def postprocessing_inflation_end(self, sol):
-- 
2.43.0


From 07597bbab47f8d7ebc85a395cf8c74a6775c3aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:56 +0000
Subject: [PATCH 18/26] fix: drop large scales of closed universes in every
 requested vacuum

---
 primpy/oscode_solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/primpy/oscode_solver.py b/primpy/oscode_solver.py
index f997563..d358686 100644
--- a/primpy/oscode_solver.py
+++ b/primpy/oscode_solver.py
@@ -125,7 +125,8 @@ def solve_oscode(background, k,
                 ))
         p.oscode_postprocessing(oscode_sol=oscode_sol, vacuum=vacuum)
         if ki < 1 and b.K == +1 and drop_closed_large_scales:
-            p.scalar.P_s_RST = 1e-30
+            for vac in vacuum:
+                setattr(p.scalar, 'P_s_%s' % vac, 1e-30)
         for vac in vacuum:
             getattr(PPS, 'P_s_%s' % vac)[i] = getattr(p.scalar, 'P_s_%s' % vac)
             getattr(PPS, 'P_t_%s' % vac)[i] = getattr(p.tensor, 'P_t_%s' % vac)
-- 
2.43.0


From 2084c10b33b72b53e41fc6a997b0ab41a6abfd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:43 +0000
Subject: [PATCH 19/26] fix: zeta(3) coefficients of the third order ARBDS
 power spectra

---
 primpy/inflation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 99c0df8..abc51a8 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1310,10 +1310,12 @@ class InflationEquations(Equations, ABC):
             as0_3 = (
                 - (-16 + 24 * alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) / 24 * (8 * e1**3 + e2**3)
                 + (-72*alpha + 36*alpha**2 + 13*pi**2 + 8*alpha*pi**2 - 36*Z) / 12 * e1**2 * e2
-                - (16+24*alpha-12*alpha**2-8*alpha**3-15*pi**2-6*alpha*pi**2+84*Z) / 24 * e1*e2**2
-                + (16 + 4*alpha**3 - alpha*pi**2 - 24*Z) / 24 * (e2*e3**2 + e2 * e3 * e4)
+                - (16 + 24*alpha - 12*alpha**2 - 8*alpha**3 - 15*pi**2 - 6*alpha*pi**2
+                   + 100*zeta(3)) / 24 * e1 * e2**2
+                + (16 + 4*alpha**3 - alpha*pi**2 - 8*zeta(3)) / 24 * (e2*e3**2 + e2 * e3 * e4)
                 + (48*alpha - 12*alpha**3 - 5*alpha*pi**2) / 24 * e2**2 * e3
-                + (-8+72*alpha-12*alpha**2-8*alpha**3+pi**2-6*alpha*pi**2-24*Z) / 12 * e1 * e2 * e3
+                + (-8 + 72*alpha - 12*alpha**2 - 8*alpha**3 + pi**2 - 6*alpha*pi**2
+                   - 8*zeta(3)) / 12 * e1 * e2 * e3
             )
             as1_1 = (
                 -2 * e1 - e2
@@ -1356,7 +1358,7 @@ class InflationEquations(Equations, ABC):
                 - 1/3 * (-16 + 24*alpha - 4*alpha**3 - 3*alpha*pi**2 + 6*Z) * e1**3
                 + 1/12 * (-96+72*alpha+36*alpha**2-24*alpha**3+13*pi**2-10*alpha*pi**2) * e1**2*e2
                 - 1/12 * (8 - 24 * alpha + 12 * alpha**2 - 4 * alpha**3 - pi**2
-                          + alpha * pi**2 + 24 * Z) * (e1 * e2**2 + e1 * e2 * e3)
+                          + alpha * pi**2 + 8 * zeta(3)) * (e1 * e2**2 + e1 * e2 * e3)
             )
             at1_1 = -2 * e1
             at1_2 = 2 * (-2 * alpha + 1) * e1**2 + (-2 + 2 * alpha) * e1 * e2
-- 
2.43.0


From 727720fa270f3937fbf325d94410392aa408c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:43 +0000
Subject: [PATCH 20/26] fix: expand ARBDS power spectra about -k*eta=1 at
 horizon crossing

---
 primpy/inflation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index abc51a8..a71fcdf 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1376,7 +1376,9 @@ class InflationEquations(Equations, ABC):
             at3_3 = 1/6 * (-8 * e1**3 + 12 * e1**2 * e2 - 2 * e1 * e2**2 - 2 * e1 * e2 * e3)
 
             # order 1
-            log_k_kstar = sol.logk - np.log(K_STAR)
+            # Expansion in ln(-k*eta), where eta is the conformal time when K_STAR=aH, i.e. when
+            # -K_STAR*eta = 1 + e1 + e1**2 + e1*e2 + ...
+            log_k_kstar = sol.logk - np.log(K_STAR) + e1 + e1**2 / 2 + e1 * e2
             P_s = Ps0 * (as0_1 + as1_1 * log_k_kstar)
             P_t = Pt0 * (at0_1 + at1_1 * log_k_kstar)
             mask = (P_s > 0) & (P_t > 0)
-- 
2.43.0


From bafdffe6b1dc30630839c6a7af1c61f218ea3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:43 +0000
Subject: [PATCH 21/26] fix: third order accuracy of the CGS power spectra at
 horizon crossing

---
 primpy/inflation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index a71fcdf..2eacf2c 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -963,7 +963,9 @@ class InflationEquations(Equations, ABC):
             # Choe, Gong & Stewart (2004), eq. (60)
             Ps0 = H**2 / (8 * pi**2 * e1)
             alpha = 2 - np.log(2) - np.euler_gamma
-            astar = alpha - e1  # from Choe, Gong & Stewart (2004) just after eq. (60)
+            # ln(aH/k) + alpha at -k*eta=1, cf. Choe, Gong & Stewart (2004) just after eq. (60),
+            # up to second order such that the spectra are correct up to third order
+            astar = alpha - e1 - 5 / 2 * e1**2 - 2 * e1 * d1
             order1_s = (1 + (4 * astar - 2) * e1 + 2 * astar * d1 + (-astar**2 + pi**2 / 12) * d2
                         + (1 / 3 * astar**3 - pi**2 / 12 * astar + 4 / 3 - 2 / 3 * zeta(3)) * d3)
             # (slight differences between SG and CGS in 2nd order numeric coefficients)
-- 
2.43.0


From f16ee581847b78647319c59b802573618e8b027f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:12 +0000
Subject: [PATCH 22/26] fix: approximate power spectra always belong to the
 current calibration

---
 primpy/inflation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 2eacf2c..412fae7 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -885,6 +885,11 @@ class InflationEquations(Equations, ABC):
             sol.cHH_Mpc = sol.a0 / (np.exp(sol.N) * sol.H) * lp_m / Mpc_m
             sol.cHH_end_Mpc = sol.a0 / (np.exp(sol.N_end) * sol.H_end) * lp_m / Mpc_m
 
+            # discard approximate primordial power spectra derived for a previous calibration
+            for key in list(sol):
+                if key.startswith(('P_s_approx_', 'P_t_approx_')):
+                    del sol[key]
+
             # derive approximate primordial power spectra
             if background is None:  # only derive if not copied from background
                 derive_approx_power(**kwargs)
@@ -1485,7 +1490,9 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
-                if order == 3:
+                if not hasattr(sol, "P_s_approx_CGS3"):
+                    derive_approx_power_CGS(order=order, **interp_kwargs)
+                if order is None or order == 3:
                     return sol.P_s_approx_CGS3(k)
                 elif order == 0:
                     return sol.P_s_approx_CGS0(k)
@@ -1539,6 +1546,8 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
+                if not hasattr(sol, "P_t_approx_CGS3"):
+                    derive_approx_power_CGS(order=order, **interp_kwargs)
                 if order is None or order == 3:
                     return sol.P_t_approx_CGS3(k)
                 elif order == 0:
-- 
2.43.0


From 96503991a4761f1010a87a064d07eede36302c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 23/26] fix: querying an approximate power spectrum keeps the
 reported one

---
 primpy/inflation.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 412fae7..05b5ca5 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -1464,6 +1464,14 @@ class InflationEquations(Equations, ABC):
 
         sol.derive_approx_power = derive_approx_power
 
+        def derive_missing(name, derive, **kwargs):
+            """Derive power spectra `name` unless available, keeping those already reported."""
+            if not hasattr(sol, name):
+                keys = ['P_scalar_approx', 'P_tensor_approx', 'logk2logP_s', 'logk2logP_t']
+                reported = {key: sol[key] for key in keys if key in sol}
+                derive(**kwargs)
+                sol.update(reported)
+
         def P_s_approx(k, method='CGS', order=3, **interp_kwargs):
             """Slow-roll approximation for the primordial power spectrum for scalar modes.
 
@@ -1490,8 +1498,7 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
-                if not hasattr(sol, "P_s_approx_CGS3"):
-                    derive_approx_power_CGS(order=order, **interp_kwargs)
+                derive_missing("P_s_approx_CGS3", derive_approx_power_CGS, **interp_kwargs)
                 if order is None or order == 3:
                     return sol.P_s_approx_CGS3(k)
                 elif order == 0:
@@ -1501,16 +1508,13 @@ class InflationEquations(Equations, ABC):
                 elif order == 2:
                     return sol.P_s_approx_CGS2(k)
             elif method == 'LLMS':
-                if not hasattr(sol, "P_s_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
+                derive_missing("P_s_approx_LLMS", derive_approx_power_LLMS, **interp_kwargs)
                 return sol.P_s_approx_LLMS(k)
             elif method == 'STE':
-                if not hasattr(sol, "P_s_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
+                derive_missing("P_s_approx_STE", derive_approx_power_STE, **interp_kwargs)
                 return sol.P_s_approx_STE(k)
             elif method == 'ARBDS':
-                if not hasattr(sol, "P_s_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
+                derive_missing("P_s_approx_ARBDS3", derive_approx_power_ARBDS, **interp_kwargs)
                 if order == 3:
                     return sol.P_s_approx_ARBDS3(k)
                 elif order == 1:
@@ -1546,8 +1550,7 @@ class InflationEquations(Equations, ABC):
 
             """
             if method == 'CGS':
-                if not hasattr(sol, "P_t_approx_CGS3"):
-                    derive_approx_power_CGS(order=order, **interp_kwargs)
+                derive_missing("P_t_approx_CGS3", derive_approx_power_CGS, **interp_kwargs)
                 if order is None or order == 3:
                     return sol.P_t_approx_CGS3(k)
                 elif order == 0:
@@ -1557,16 +1560,13 @@ class InflationEquations(Equations, ABC):
                 elif order == 2:
                     return sol.P_t_approx_CGS2(k)
             elif method == 'LLMS':
-                if not hasattr(sol, "P_t_approx_LLMS"):
-                    derive_approx_power_LLMS(**interp_kwargs)
+                derive_missing("P_t_approx_LLMS", derive_approx_power_LLMS, **interp_kwargs)
                 return sol.P_t_approx_LLMS(k)
             elif method == 'STE':
-                if not hasattr(sol, "P_t_approx_STE"):
-                    derive_approx_power_STE(**interp_kwargs)
+                derive_missing("P_t_approx_STE", derive_approx_power_STE, **interp_kwargs)
                 return sol.P_t_approx_STE(k)
             elif method == 'ARBDS':
-                if not hasattr(sol, "P_t_approx_ARBDS"):
-                    derive_approx_power_ARBDS(order=order, **interp_kwargs)
+                derive_missing("P_t_approx_ARBDS3", derive_approx_power_ARBDS, **interp_kwargs)
                 if order == 3:
                     return sol.P_t_approx_ARBDS3(k)
                 elif order == 1:
-- 
2.43.0


From 0b794c271b2c0668a22b040b4b7c68a031fb7c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:49 +0000
Subject: [PATCH 24/26] fix: refuse unknown methods or orders for the
 approximate power spectra

---
 primpy/inflation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/primpy/inflation.py b/primpy/inflation.py
index 05b5ca5..bc82ee7 100644
--- a/primpy/inflation.py
+++ b/primpy/inflation.py
@@ -898,7 +898,10 @@ class InflationEquations(Equations, ABC):
 
         def derive_approx_power(method='CGS', order=3, **interp1d_kwargs):
             """Derive the approximate primordial power spectra for scalar and tensor modes."""
-            if method == 'CGS':
+            if method in ['CGS', 'ARBDS'] and order not in [0, 1, 2, 3][method == 'ARBDS':]:
+                raise NotImplementedError(f"Unknown order={order} for method={method}, choose an "
+                                          f"order up to 3.")
+            elif method == 'CGS':
                 derive_approx_power_CGS(order=order, **interp1d_kwargs)
             elif method == 'LLMS':
                 derive_approx_power_LLMS(**interp1d_kwargs)
@@ -906,6 +909,9 @@ class InflationEquations(Equations, ABC):
                 derive_approx_power_STE(**interp1d_kwargs)
             elif method == 'ARBDS':
                 derive_approx_power_ARBDS(order=order, **interp1d_kwargs)
+            else:
+                raise NotImplementedError(f"Unknown method={method}, choose from 'CGS', 'LLMS', "
+                                          f"'STE', or 'ARBDS'.")
 
             dlogPdlogk_s = sol.logk2logP_s.derivatives(np.log(K_STAR))
             dlogPdlogk_t = sol.logk2logP_t.derivatives(np.log(K_STAR))
@@ -1522,7 +1528,8 @@ class InflationEquations(Equations, ABC):
                 elif order == 2:
                     return sol.P_s_approx_ARBDS2(k)
 
-            return np.exp(sol.logk2logP_s(np.log(k)))
+            raise NotImplementedError(f"Unknown method={method} or order={order}, choose from "
+                                      f"'CGS', 'LLMS', 'STE', or 'ARBDS' and an order up to 3.")
 
         def P_t_approx(k, method='CGS', order=3, **interp_kwargs):
             """Slow-roll approximation for the primordial power spectrum for tensor modes.
@@ -1574,7 +1581,8 @@ class InflationEquations(Equations, ABC):
                 elif order == 2:
                     return sol.P_t_approx_ARBDS2(k)
 
-            return np.exp(sol.logk2logP_t(np.log(k)))
+            raise NotImplementedError(f"Unknown method={method} or order={order}, choose from "
+                                      f"'CGS', 'LLMS', 'STE', or 'ARBDS' and an order up to 3.")
 
         sol.P_s_approx = P_s_approx
         sol.P_t_approx = P_t_approx
-- 
2.43.0


From 147e2b79081f8cff90ff8571123a1d15adbff2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:41 +0000
Subject: [PATCH 25/26] fix: energy density at the end of inflation in the
 slow-roll sampler

---
 cobaya_wrapper/slowroll_pps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index a6f5d23..498b0d4 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -65,8 +65,8 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                       atol=1e-18, rtol=2.22045e-14, method='DOP853')
             if not b.success:
                 raise StepSizeError(b.message)
-            rho_end_GeV = (1/3 * (1/2 * b.dphidt[b.inflation_mask][-1]**2
-                                  + b.potential.V(b.phi[b.inflation_mask][-1]))
+            rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
+                            + b.potential.V(b.phi[b.inflation_mask][-1]))
                            * mp_GeV / lp_iGeV**3)**(1/4)
             if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
                 raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
-- 
2.43.0


From c332e2f1e102f244c50b51088a4b25fc752ca19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:18 +0000
Subject: [PATCH 26/26] fix: slow-roll sampler judges the reheating density at
 the requested amplitude

---
 cobaya_wrapper/slowroll_pps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cobaya_wrapper/slowroll_pps.py b/cobaya_wrapper/slowroll_pps.py
index 498b0d4..06de4e0 100644
--- a/cobaya_wrapper/slowroll_pps.py
+++ b/cobaya_wrapper/slowroll_pps.py
@@ -65,11 +65,6 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                       atol=1e-18, rtol=2.22045e-14, method='DOP853')
             if not b.success:
                 raise StepSizeError(b.message)
-            rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
-                            + b.potential.V(b.phi[b.inflation_mask][-1]))
-                           * mp_GeV / lp_iGeV**3)**(1/4)
-            if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
-                raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
             with warnings.catch_warnings(action='ignore', category=PrimpyWarning):
                 if w_reh is not None and rho_reh_GeV is not None:
                     b.calibrate_scale_factor(calibration_method='reheating',
@@ -90,6 +85,11 @@ class SlowRollPPS(ExternalPrimordialPowerSpectrum):
                 Lambda = (A_s / b.A_s)**(1 / 4) * Lambda
             else:
                 raise PrimpyError("`A_s` shooting failed.")
+        rho_end_GeV = ((1/2 * b.dphidt[b.inflation_mask][-1]**2
+                        + b.potential.V(b.phi[b.inflation_mask][-1]))
+                       * mp_GeV / lp_iGeV**3)**(1/4)
+        if rho_reh_GeV is not None and rho_reh_GeV > rho_end_GeV:
+            raise PrimpyError(f"Unrealistic reheating scenario with rho_reh={rho_reh_GeV}.")
         if b.w_reh <= -1/3 or b.w_reh >= 1 or b.DeltaN_reh < 0 or b.N_reh > b.N0:
             raise PrimpyError(f"Unrealistic reheating scenario with w_reh={b.w_reh}, "
                               f"DeltaN_reh={b.DeltaN_reh}, N_star={b.N_star}, "
-- 
2.43.0

