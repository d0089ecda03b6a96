From fef94f66403cbaaf1619efed741bf48bfeb23beb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 01/39] fix: normal shock total pressure ratio honours gamma
 downstream of the shock

---
 aerokit/aero/ShockWave.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 98d1718..7e0f90b 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -90,7 +90,9 @@ def Pt_ratio(Mn, gamma=defg._gamma):
     Returns:
 
     """
-    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma)) / Is.PtPs_Mach(Mn, gamma)
+    return (
+        Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma), gamma) / Is.PtPs_Mach(Mn, gamma)
+    )
 
 
 def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
-- 
2.43.0


From f9e9e67e366c3d2df7f6442ecde4322e7265da6d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:23 +0000
Subject: [PATCH 02/39] fix: isentropic state keeps total pressure and gamma

---
 aerokit/aero/model1D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index 0b8d964..ff6a66c 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -50,9 +50,9 @@ class state:
 
     def state_isentropic_Mach(self, Mach):
         """return state defined by Mach number through isoenergetic isentropic transformation"""
-        ps = self.rTtot() / Is.PtPs_Mach(Mach, self._gamma)
+        ps = self.Ptot() / Is.PtPs_Mach(Mach, self._gamma)
         rts = self.rTtot() / Is.TtTs_Mach(Mach, self._gamma)
-        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps)
+        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_M(self, pt, rtt, M):
         ps = pt / Is.PtPs_Mach(M, self._gamma)
-- 
2.43.0


From 2712ad81e833c3f32252f0d0559b8f428b37d93a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:25 +0000
Subject: [PATCH 03/39] fix: 1D state keeps its gamma when recomputed or
 indexed

---
 aerokit/aero/model1D.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index ff6a66c..19d44d1 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -57,14 +57,14 @@ class state:
     def compute_from_pt_rtt_M(self, pt, rtt, M):
         ps = pt / Is.PtPs_Mach(M, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps)
+        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_u(self, pt, rtt, u):
         gam = self._gamma
         gsgmu = gam / (gam - 1.0)
         a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2
         ps = pt / (1.0 + 0.5 * u ** 2 / (gsgmu * rtt - 0.5 * u ** 2)) ** gsgmu
-        self.__init__(rho=gam * ps / a2, u=u, p=ps)
+        self.__init__(rho=gam * ps / a2, u=u, p=ps, gamma=gam)
 
     def compute_from_pt_rtt_p(self, pt, rtt, p):
         """Init state from Ptot r.Ttot and Ps (velocity sign is arbitrary and positive)
@@ -76,11 +76,12 @@ class state:
         """
         M = Is.Mach_PtPs(pt / p, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p)
+        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p, gamma=self._gamma)
 
     def __getitem__(self, i):
         assert isinstance(self.rho, np.ndarray)
-        return state(self.rho[i], self.u[i], self.p[i])
+        gamma = self._gamma[i] if np.ndim(self._gamma) > 0 else self._gamma
+        return state(self.rho[i], self.u[i], self.p[i], gamma)
 
     def asound(self):
         """returns speed of sound"""
-- 
2.43.0


From 30672f3343b5f858a935e022407d83d41dae9cff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 04/39] fix: sampled Riemann solution switches gas properties
 at the contact

---
 aerokit/instance/riemann.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 4086611..e4ec1fc 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -125,7 +125,7 @@ class riemann_pb:
             u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))
             p[i] = self._qR.p * ((xot[i] - u[i]) / self._qR.asound()) ** (2.0 * gam / gm1)
             rho[i] = self._qR.rho_through_isentropic(p[i])
-        return uq.unsteady_state(rho, u, p, np.where(xot < 0.0, self._qL._gamma, self._qR._gamma))
+        return uq.unsteady_state(rho, u, p, np.where(xot < self._waves[2], self._qL._gamma, self._qR._gamma))
 
     def left_fastest(self):
         return self._waves[0]
-- 
2.43.0


From c7336683e79fb85941948eaffde8427fb72beeb1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 05/39] fix: RKF45 keeps integrating when its last step is
 rejected

---
 aerokit/common/_ode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 3c921d2..563d413 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -86,5 +86,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
         if (h > 0.0) == ((x + hNext) >= xStop):
             hNext = xStop - x
             stopper = 1
+        else:
+            stopper = 0
         h = hNext
     return np.array(X), np.array(Y)
-- 
2.43.0


From 2741dd7e6e4778ca691e80d995a044c7363dcf82 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:01 +0000
Subject: [PATCH 06/39] fix: shock angle for negative or zero deflection

---
 aerokit/aero/ShockWave.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 7e0f90b..2b4683f 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -237,7 +237,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
 
     """
     if init is None:
-        sig0 = degree.asin(1.0 / Mach) + deflection
+        sig0 = degree.asin(1.0 / Mach) + np.abs(deflection)
     else:
         sig0 = init
 
@@ -252,7 +252,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
         """
         return deflection_Mach_sigma(Mach, sig, gamma)
 
-    return ITS.secant_solve(local_f, np.abs(deflection), sig0) * np.sign(deflection)
+    return np.copysign(ITS.secant_solve(local_f, np.abs(deflection), sig0), deflection)
 
 
 def dev_Max(Mach, gamma=defg._gamma):
-- 
2.43.0


From d06b4c3a4c3bf571611024a87bf7f9de073f0285 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 07/39] fix: strong shock angle without deflection is the
 normal shock

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 2b4683f..8a687ff 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -221,7 +221,7 @@ def strongsigma_Mach_deflection(Mach, deflection, gamma=defg._gamma):
     else:
         phi = np.arccos(-0.5 * ke / np.sqrt(kd ** 3)) + 4 * math.pi
         kf = 2.0 * np.sqrt(kd) * np.cos(phi / 3.0) - ka / 3.0
-        return degree.atan(1.0 / kf)
+        return degree.atan2(1.0, kf)
 
 
 def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
-- 
2.43.0


From a93713b53ba7f20b084656046b117f28a5cb3a43 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 08/39] fix: subsonic Mach from section ratio converges for
 every gamma

---
 aerokit/aero/MassFlow.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index ee3ce2b..d0bcbac 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -10,9 +10,7 @@ from ..common import defaultgas as defg
 
 # internal initialization (estimated) Mach for Sigma->Mach computations
 def __MachSub_sigma(sigma, gamma):
-    return 1.0 - np.sqrt(
-        (1.0 - 1.0 / sigma) * (4.0 * (gamma - 1.0) / (3.0 - gamma))
-    )  # (2./(gamma+1.))**(.5*(gamma+1.)/(gamma-1.))/sigma
+    return 1.0 - np.sqrt(1.0 - 1.0 / sigma)
 
 
 def __MachSup_sigma(sigma, gamma):
-- 
2.43.0


From 62102dd4564d8d94fffa690d1933270a0363f64f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 09/39] fix: inverse Prandtl-Meyer converges for every gamma

---
 aerokit/aero/Supersonic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/Supersonic.py b/aerokit/aero/Supersonic.py
index 0bca4e2..0906736 100644
--- a/aerokit/aero/Supersonic.py
+++ b/aerokit/aero/Supersonic.py
@@ -65,7 +65,9 @@ def Mach_PrandtlMeyer(omega, gamma=defg._gamma):
         return PrandtlMeyer_Mach(m, gamma) - omega
 
     # return IterativeSolve.secant_solve(omega_of_mach, omega, 2.)
-    result = newton(omega_of_mach, 2.0 + 0.0 * omega)
+    # initial guess from the relative turning (omega over its infinite Mach limit)
+    y = (omega / (90.0 * (np.sqrt((gamma + 1.0) / (gamma - 1.0)) - 1.0))) ** (2.0 / 3.0)
+    result = newton(omega_of_mach, 1.0 + 2.0 * y / (1.0 - y))
     return result if np.size(result) != 1 else result.item()
 
 
-- 
2.43.0


From 19e33c27828bdd2b04c4b4c522bd0ec5e17f925d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 10/39] fix: nozzle object honours its gamma and leaves the
 saved default gas alone

---
 aerokit/instance/nozzle.py | 47 ++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index f6a72be..b989598 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -58,7 +58,7 @@ def NPR_shock_at_exit(AsAc):
     return Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
 
 
-def _NPR_Ms_list(AsAc):
+def _NPR_Ms_list(AsAc, gamma=defg._gamma):
     """
     Computes all NPR limits and associated exit Mach number
 
@@ -75,15 +75,22 @@ def _NPR_Ms_list(AsAc):
             .. seealso:: NPR_choked_subsonic(), NPR_choked_supersonic(), NPR_shock_at_exit()
             .. note:: available for scalar or array (numpy) computations
     """
-    Msub = mf.MachSub_Sigma(AsAc)
-    NPR0 = Is.PtPs_Mach(Msub)
-    Msup = mf.MachSup_Sigma(AsAc)
-    Msh = sw.downstream_Mn(Msup)
-    NPRsw = Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
-    NPR1 = Is.PtPs_Mach(Msup)
+    Msub = mf.MachSub_Sigma(AsAc, gamma)
+    NPR0 = Is.PtPs_Mach(Msub, gamma)
+    Msup = mf.MachSup_Sigma(AsAc, gamma)
+    Msh = sw.downstream_Mn(Msup, gamma)
+    NPRsw = Is.PtPs_Mach(Msh, gamma) / sw.Pi_ratio(Msup, gamma)
+    NPR1 = Is.PtPs_Mach(Msup, gamma)
     return NPR0, NPRsw, NPR1, Msub, Msh, Msup
 
 
+def _Ms_shock_in_diffuser(AsAc, NPR, gamma):
+    """exit Mach number from mass flow conservation when the throat is choked and the exit is subsonic"""
+    gmu = gamma - 1.0
+    K = NPR / AsAc / ((gamma + 1.0) / 2) ** ((gamma + 1.0) / 2 / gmu)
+    return np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
+
+
 def Ms_from_AsAc_NPR(AsAc, NPR):
     """
     Computes Mach number at exit of a nozzle given As/Ac and NPR
@@ -108,9 +115,7 @@ def Ms_from_AsAc_NPR(AsAc, NPR):
     elif NPR > NPRsw:
         Ms = Msup
     else:
-        gmu = defg._gamma - 1.0
-        K = NPR / AsAc / ((defg._gamma + 1.0) / 2) ** ((defg._gamma + 1.0) / 2 / gmu)
-        Ms = np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
+        Ms = _Ms_shock_in_diffuser(AsAc, NPR, defg._gamma)
     return Ms
 
 
@@ -141,9 +146,7 @@ def Madapt_from_AsAc_NPR(AsAc, NPR):
     elif NPR > NPRsw:  # shock wave in jet
         Ms = sw.downstreamMach_Mach_ShockPsratio(Msup, NPR1 / NPR)
     else:
-        gmu = defg._gamma - 1.0
-        K = NPR / AsAc / ((defg._gamma + 1.0) / 2) ** ((defg._gamma + 1.0) / 2 / gmu)
-        Ms = np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
+        Ms = _Ms_shock_in_diffuser(AsAc, NPR, defg._gamma)
     return Ms
 
 
@@ -169,13 +172,11 @@ class nozzle:
             self.AsoAc = section[-1] / np.min(section)
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
-        defg.save_default()
-        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc)
+        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
             self.set_NPR(NPR)
-        defg.restore_default()
         return
 
     def set_NPR(self, NPR):
@@ -187,7 +188,7 @@ class nozzle:
         self._Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms), gamma=self.gamma)
+            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, self.gamma), gamma=self.gamma)
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
         else:
             self._M = np.ones_like(self.AxoAc)
@@ -195,14 +196,16 @@ class nozzle:
             self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
             if NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
-                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR)
-                Ptloss = Is.PtPs_Mach(Ms) / NPR
-                Msh = sw.Mn_Pi_ratio(Ptloss)
+                Ms = _Ms_shock_in_diffuser(self.AsoAc, NPR, self.gamma)
+                Ptloss = Is.PtPs_Mach(Ms, self.gamma) / NPR
+                Msh = sw.Mn_Pi_ratio(Ptloss, self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
                 ish = np.abs(self._M - Msh).argmin()
-                self._M[ish:] = mf.MachSub_Sigma(self.AxoAc[ish:] * mf.Sigma_Mach(Ms) / self.AsoAc)
+                self._M[ish:] = mf.MachSub_Sigma(
+                    self.AxoAc[ish:] * mf.Sigma_Mach(Ms, self.gamma) / self.AsoAc, gamma=self.gamma
+                )
                 self._Pt[ish:] = Ptloss
-            self._Ps = self._Pt / Is.PtPs_Mach(self._M)
+            self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
 
     def Mach(self):
         return self._M
-- 
2.43.0


From 5cd6822e19ae6c1d571548396315ac9dbdc00519 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 11/39] fix: nozzle section law never falls below its throat by
 round-off

---
 aerokit/instance/nozzle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index b989598..9b987a4 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -168,9 +168,11 @@ class nozzle:
         self.x = x
         if AsoAc:
             self.AsoAc = AsoAc
+            self.AxoAc = section * self.AsoAc / section[-1]
         else:
+            # exactly 1. at throat (no round-off below 1.)
             self.AsoAc = section[-1] / np.min(section)
-        self.AxoAc = section * self.AsoAc / section[-1]
+            self.AxoAc = section / np.min(section)
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
         self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, self.gamma)
         self._ref_rttot = ref_rttot
-- 
2.43.0


From abc4ad65c37cc81ad4ae3b3d22e2213cc828becb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:53 +0000
Subject: [PATCH 12/39] fix: nozzle shock snapped to a point which has a
 subsonic solution

---
 aerokit/instance/nozzle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 9b987a4..23216d5 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -203,6 +203,8 @@ class nozzle:
                 Msh = sw.Mn_Pi_ratio(Ptloss, self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
                 ish = np.abs(self._M - Msh).argmin()
+                if self.AxoAc[ish] * mf.Sigma_Mach(Ms, self.gamma) < self.AsoAc:
+                    ish += 1  # closest point is upstream of the shock and too narrow for a subsonic flow
                 self._M[ish:] = mf.MachSub_Sigma(
                     self.AxoAc[ish:] * mf.Sigma_Mach(Ms, self.gamma) / self.AsoAc, gamma=self.gamma
                 )
-- 
2.43.0


From ce3b406a9be66e4f63b20a3a8af37bba09f52a81 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:21 +0000
Subject: [PATCH 13/39] fix: selecting an unknown software keeps the current
 variable denomination

---
 aerokit/common/dicovar.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 041326e..720741b 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -103,11 +103,7 @@ class _DicoVar(object):
 
     def __init__(self, software):
 
-        # Internal variables definitions
-        self._dv = {}
-        self._softName = ''
-
-        # Setting database
+        # Setting database (an unknown software leaves the current one unchanged)
         softOK = False
         for soft in _dataBase:
             if software.lower() in soft[0]:
-- 
2.43.0


From a5b3ed9596daa24bf574c63ca3c58dcaf881a7c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:22 +0000
Subject: [PATCH 14/39] fix: variable denomination ignores capital letters as
 documented

---
 aerokit/common/dicovar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 720741b..5f95f8b 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -133,6 +133,10 @@ class _DicoVar(object):
         """
         if var in self._dv:
             return self._dv[var]
+        # no exact name: ignore capital letters
+        for key in self._dv:
+            if key.lower() == var.lower():
+                return self._dv[key]
         else:
             raise ValueError('{} variable not in {} database dictionnary'.format(var, self._softName))
 
-- 
2.43.0


From 0229c9065f171e89b055b9c80b28f1abadc3ea38 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 15/39] fix: import path in Propulsion

---
 aerokit/aero/Propulsion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index daf863b..ec807e0 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -3,7 +3,7 @@
 """
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
-import aerokit.IterativeSolve as ITS
+import aerokit.aero.IterativeSolve as ITS
 
 
 def ThrustFunction(Mach, gamma=1.4):
-- 
2.43.0


From a8cd096f46d918fb8cdbfffa95cd18d3325bda16 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 16/39] fix: import path in extendvar

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index 853aeef..6485726 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -13,7 +13,7 @@ Examples
 Notes
 -----
 """
-from dicovar import dicoVar as dico
+from .dicovar import dicoVar as dico
 
 # -----------------------------------------------------------------
 
-- 
2.43.0


From 1476777a3c2b41cd08641b12fb0cc96d99b496f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 17/39] fix: gas generator uses the combustion efficiency in
 the fuel air ratio

---
 aerokit/engine/gasgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index e315101..5bebe30 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -56,6 +56,7 @@ class base():
         self.r_cold    = r_cold
         self.r_hot     = r_hot
         self.xi_cc     = xi_cc
+        self.eta_cc    = eta_cc
         self.xi_inlet  = xi_inlet
         self.etapolCHP = etapolCHP
         self.etapolTHP = etapolTHP
@@ -80,7 +81,7 @@ class base():
         self.Pt4 = self.Pt3*self.xi_cc
         gh  = self.gam_hot
         cph = gh*self.r_hot/(gh-1.)
-        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.xi_cc*self.Pci - cph*self.Tt4)
+        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.eta_cc*self.Pci - cph*self.Tt4)
         self.Tt45 = self.Tt4 - cpc*(self.Tt3-self.Tt2)/(self.eta_shaft*cph*(1.+self.far))
         #print self.Tt3, self.Pt4, self.Tt45, self.Tt4, self.far
         self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolTHP))
-- 
2.43.0


From e16cc4c35cf78f561351fd457d8aa0eb1b281a47 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 18/39] fix: ideal low pressure turbine work of the gas
 generator

---
 aerokit/engine/gasgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index 5bebe30..0d09c0b 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -92,7 +92,7 @@ class base():
     def Wsp_TBP_ideal(self, P19=None):
         if P19 is None: P19=self.P0
         gogm1 = self.gam_hot/(self.gam_hot-1.)
-        return (1.+self.far)*gogm1*self.r_hot/(self.gam_hot-1.)*self.Tt45*((P19/self.Pt45)**(1./gogm1)-1.)
+        return (1.+self.far)*gogm1*self.r_hot*self.Tt45*(1.-(P19/self.Pt45)**(1./gogm1))
 
     def thermal_efficiency(self):
         return self.Wsp_TBP_ideal()/self.Wsp_cc()
-- 
2.43.0


From 46db97bfc32ec9200bd2edbb4e1c9fc3df937e2b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 19/39] fix: turbofan uses its nozzle pressure loss

---
 aerokit/engine/turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/turbofan.py b/aerokit/engine/turbofan.py
index 4b90a7a..766897b 100644
--- a/aerokit/engine/turbofan.py
+++ b/aerokit/engine/turbofan.py
@@ -51,7 +51,7 @@ class turbofan_adapt(tj.turbojet_opt):
                                  xi_inlet=1., xi_nozzle=1., xi_cc=1., eta_cc=1., Pci=42.8e6,
                                  etapolCHP=1., etapolTHP=1., etapolTBP=1., etapolfan=1., eta_shaft=1.):
         tj.turbojet_opt.__init__(self, OPR, Tt4, gam_cold=gam_cold, gam_hot=gam_hot, r_cold=r_cold, r_hot=r_hot,
-                                 xi_inlet=xi_inlet, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
+                                 xi_inlet=xi_inlet, xi_nozzle=xi_nozzle, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
                                  etapolCHP=etapolCHP, etapolTHP=etapolTHP, eta_shaft=eta_shaft)
         self.bpr            = bpr
         self.etapolfan      = etapolfan
-- 
2.43.0


From b7b0360cc83957812959765c0a7191d7edcd47ed Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 20/39] fix: fan compression uses the fan efficiency

---
 aerokit/engine/Cycle_Turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 61eb5b0..53468ee 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -178,7 +178,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
     def stage_13(self):
         if self.current_stage_corps >= 2:
             self.m_f = self.m * self.lambda_ / (self.lambda_ + 1.)
-            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_c)
+            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_f)
             self.Pt13 = self.Pt2 * self.pi_f
             self.wu_f = self.m_f * self.g.get_cp() * (self.Tt13 - self.Tt2)
             self.current_stage_fan = 13
-- 
2.43.0


From b2ae46be05839c251028418016a78ba58c864410 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 21/39] fix: stability operators follow the current base state
 and boundary conditions

---
 aerokit/stability/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 712e5f7..049cf34 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -27,6 +27,7 @@ class LinOperator:
     def set_basestate(self, state: Any):
         """set base state as it will be used by derived class"""
         self._basestate = state
+        self._B = None  # operators must be computed again
 
     def _check_BC(self, bc: Any):
         """BC should be a dict with at least a 'type' key"""
@@ -37,6 +38,7 @@ class LinOperator:
 
     def set_BC(self, Ltype: Any, Rtype: Any):
         self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]
+        self._B = None  # operators must be computed again
 
     def check_basestate(self):
         return self._basestate is not None
-- 
2.43.0


From 7daf2e3f0318a5f828ef132cd81c2eb29e5a9cd3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 22/39] fix: computing Euler boundary conditions keeps the user
 description

---
 aerokit/stability/Euler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/stability/Euler.py b/aerokit/stability/Euler.py
index d6f5428..083e1f5 100644
--- a/aerokit/stability/Euler.py
+++ b/aerokit/stability/Euler.py
@@ -75,10 +75,10 @@ class Euler1D(LinOperator):
             assert self._BC_type[1]["type"] == "per"
             self.setBC_per()
         else:
-            bcdict = self._BC_type[0]
+            bcdict = dict(self._BC_type[0])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](0, 0, **bcdict)
-            bcdict = self._BC_type[1]
+            bcdict = dict(self._BC_type[1])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](n - 1, n - 1, **bcdict)
 
-- 
2.43.0


From 5a8de14b9c2cfaf4745cb74ec813774bb9be9ce9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 23/39] fix: specific fuel consumption of turbofan cycles is in
 g/kN/s

---
 aerokit/engine/Cycle_Turbofan.py        | 4 ++--
 aerokit/engine/propu_be.py              | 2 +-
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 53468ee..7233435 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -214,7 +214,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
@@ -320,7 +320,7 @@ class cycle_taux_fan_calcule(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be.py b/aerokit/engine/propu_be.py
index 950afb9..99ad35d 100644
--- a/aerokit/engine/propu_be.py
+++ b/aerokit/engine/propu_be.py
@@ -74,7 +74,7 @@ def calculs(lambda_, pi_c, Tt4, pi_f, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 2296e5a..1cda39a 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -90,7 +90,7 @@ def calculs(lambda_, pi_c, Tt4, m, taux_meca):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = .5*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
@@ -217,7 +217,7 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
-- 
2.43.0


From 7a3c358cfe90b12434915c3ce0786f2e9fcc9005 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:56 +0000
Subject: [PATCH 24/39] fix: conical shock angle from wall deflection converges
 on the weak branch

---
 aerokit/aero/ShockWave.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 8a687ff..509eaf4 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -407,7 +407,9 @@ def conical_sigma_Mach_walldeflection(Mach, deflection, gamma=defg._gamma):
         """internal wrapping function to iterative solve"""
         return conical_deflection_Mach_sigma(Mach, sig, gamma)
 
-    return ITS.secant_solve(local_def, deflection, degree.asin(1.0 / Mach) + deflection)
+    # initial guess from hypersonic similarity of slender cones
+    sin2sig = 0.5 * (gamma + 1.0) * degree.sin(deflection) ** 2 + 1.0 / Mach ** 2
+    return ITS.secant_solve(local_def, deflection, degree.asin(np.sqrt(np.minimum(sin2sig, 1.0))))
 
 
 def conical_Mach_walldeflection_sigma(deflection, sigma, gamma=defg._gamma):
-- 
2.43.0


From a8cebd151098082b19d38559446da35f7527c887 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:08 +0000
Subject: [PATCH 25/39] fix: Riemann solver iterates from below the star
 pressure

---
 aerokit/instance/riemann.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index e4ec1fc..8a6fd12 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -183,5 +183,9 @@ class riemann_pb:
         def du(p):
             return self._delta_uL(p) + self._delta_uR(p) + self._qR.u - self._qL.u
 
-        self._pstar = newton(du, self._pstar_estimate_expansion(), rtol=1e-10)
+        # du is increasing and concave: always start below the solution
+        pinit = min(self._pstar_estimate_expansion(), self._qL.p, self._qR.p)
+        while pinit > 0.0 and du(pinit) > 0.0:
+            pinit = 0.5 * pinit
+        self._pstar = newton(du, pinit, rtol=1e-10)
         return
-- 
2.43.0


From df8a09db706891c27ae227c1bf63801e5ef423ea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:18 +0000
Subject: [PATCH 26/39] fix: speed of vanishing shocks in the Riemann problem

---
 aerokit/instance/riemann.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 8a6fd12..4a993e2 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -18,6 +18,7 @@
 import math
 import numpy as np
 from scipy.optimize import newton
+import aerokit.aero.ShockWave as sw
 import aerokit.aero.unsteady1D as uq
 
 # ===============================================================
@@ -50,7 +51,7 @@ class riemann_pb:
         # finalize qstarL state
         if self._pstar > self._qL.p:
             _rho = self._qL.rho_through_shock(self._pstar)
-            _wsh = (self._qL.massflow() - _rho * self._ustar) / (self._qL.rho - _rho)
+            _wsh = self._qL.u - self._qL.asound() * sw.Mn_Ps_ratio(self._pstar / self._qL.p, self._qL._gamma)
             self._waves[0] = _wsh
             self._waves[1] = _wsh
             self._qstarL = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qL._gamma)
@@ -63,7 +64,7 @@ class riemann_pb:
         # finalize qstarR state
         if self._pstar > self._qR.p:
             _rho = self._qR.rho_through_shock(self._pstar)
-            _wsh = (self._qR.massflow() - _rho * self._ustar) / (self._qR.rho - _rho)
+            _wsh = self._qR.u + self._qR.asound() * sw.Mn_Ps_ratio(self._pstar / self._qR.p, self._qR._gamma)
             self._waves[3] = _wsh
             self._waves[4] = _wsh
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
-- 
2.43.0


From 837da74ccb0a7d44940088ca3dfd61fef9105086 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:08 +0000
Subject: [PATCH 27/39] fix: Riemann solution sampled on the tail of the right
 expansion

---
 aerokit/instance/riemann.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 4a993e2..8e8a0fa 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -118,8 +118,8 @@ class riemann_pb:
             p[i] = self._qL.p * ((u[i] - xot[i]) / self._qL.asound()) ** (2.0 * gam / gm1)
             rho[i] = self._qL.rho_through_isentropic(p[i])
         # if right expansion
-        if self._pstar < self._qR.p:
-            i = np.logical_and((xot > self._waves[3]), (xot < self._waves[4]))
+        if self._pstar <= self._qR.p:
+            i = np.logical_and((xot >= self._waves[3]), (xot < self._waves[4]))
             gam = self._qR._gamma
             gp1 = gam + 1.0
             gm1 = gam - 1.0
-- 
2.43.0


From dac509d90e5723290da968ef8ce8342cd4a2bb59 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:13 +0000
Subject: [PATCH 28/39] fix: choked flow in a convergent nozzle

---
 aerokit/instance/nozzle.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 23216d5..5695020 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -195,7 +195,8 @@ class nozzle:
         else:
             self._M = np.ones_like(self.AxoAc)
             self._M[: self.ithroat + 1] = mf.MachSub_Sigma(self.AxoAc[: self.ithroat + 1], gamma=self.gamma)
-            self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
+            if self.ithroat + 1 < len(self._M):  # no supersonic part in a convergent nozzle
+                self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
             if NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
                 Ms = _Ms_shock_in_diffuser(self.AsoAc, NPR, self.gamma)
-- 
2.43.0


From 552c801ff71ccb1d31a87c906c1bbcdd3c068c29 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:15 +0000
Subject: [PATCH 29/39] fix: nozzle shock stays downstream of the throat

---
 aerokit/instance/nozzle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 5695020..5ba3ed2 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -203,8 +203,8 @@ class nozzle:
                 Ptloss = Is.PtPs_Mach(Ms, self.gamma) / NPR
                 Msh = sw.Mn_Pi_ratio(Ptloss, self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
-                ish = np.abs(self._M - Msh).argmin()
-                if self.AxoAc[ish] * mf.Sigma_Mach(Ms, self.gamma) < self.AsoAc:
+                ish = self.ithroat + np.abs(self._M[self.ithroat :] - Msh).argmin()
+                while ish < len(self._M) - 1 and self.AxoAc[ish] * mf.Sigma_Mach(Ms, self.gamma) < self.AsoAc:
                     ish += 1  # closest point is upstream of the shock and too narrow for a subsonic flow
                 self._M[ish:] = mf.MachSub_Sigma(
                     self.AxoAc[ish:] * mf.Sigma_Mach(Ms, self.gamma) / self.AsoAc, gamma=self.gamma
-- 
2.43.0


From cdad61e1241fbc6c728e9eb95f4dbd9939fbed91 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:09 +0000
Subject: [PATCH 30/39] fix: extended variable Mx uses the denomination of Vx

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index 6485726..110fdb1 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -34,6 +34,6 @@ def expressions_from_rhopv():
     extdico['V']    = 'mag('+dico['V']+')'
     extdico['a' ]   = _a
     extdico['Mach'] = 'mag('+dico['V']+')/'+_a
-    extdico['Mx']   = 'U_X/'+_a
+    extdico['Mx']   = dico['Vx']+'/'+_a
     extdico['alpha'] = 'atan('+dico['Vy']+'/'+dico['Vx']+')*180/acos(-1)'
     return extdico
\ No newline at end of file
-- 
2.43.0


From e1edaa9e1e2faa20879b05fe9bf8d1d5f05122b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:00 +0000
Subject: [PATCH 31/39] fix: stability operators left incomplete by a failure
 are not used

---
 aerokit/stability/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 049cf34..5e65d0a 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -51,7 +51,11 @@ class LinOperator:
 
     def get_RHS_time_matrices(self):
         if self._B is None:
-            self.compute_operators()
+            try:
+                self.compute_operators()
+            except Exception:
+                self._B = None  # operators are incomplete and must not be used
+                raise
         return self._B, self._At
 
     def solve_eig(self):
-- 
2.43.0


From a67dddfe448961e8849778639d8f51fa91cdb27d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 32/39] fix: eigenpair convergence iterates on the generalised
 problem

---
 aerokit/stability/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 5e65d0a..e2490ed 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -95,7 +95,7 @@ class LinOperator:
             # # since matrix becomes singular with convergence, lstsqr is prefered
             # w, *_ = nplin.lstsq(B-new_omega*M, new_eigm, rcond=None)
             try:
-                w = nplin.solve(B - new_omega * M, new_eigm)
+                w = nplin.solve(B - new_omega * M, M @ new_eigm)
                 new_eigm = w / nplin.norm(w)
                 new_omega = np.vdot(new_eigm, B @ new_eigm) / np.vdot(new_eigm, M @ new_eigm)
                 # print(i, nplin.norm((B-new_omega*M)@ new_eigm), new_omega)
-- 
2.43.0


From fb2a37f9d81b7de33c4bc3ff01c2bd63f6cc57c0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:25 +0000
Subject: [PATCH 33/39] fix: secant iteration starting from zero

---
 aerokit/aero/IterativeSolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/IterativeSolve.py b/aerokit/aero/IterativeSolve.py
index e72433c..3de1dab 100644
--- a/aerokit/aero/IterativeSolve.py
+++ b/aerokit/aero/IterativeSolve.py
@@ -11,7 +11,7 @@ def secant_solve(f, y, x, tol=0.00001):
     it    = 1
     old_x = x
     old_y = f(old_x)
-    new_x = x*0.999 
+    new_x = x*0.999 if x != 0. else 2.*tol
     #while (it < itmax) and np.any(abs(new_x-old_x) > np.maximum(tol,tol*abs(new_x))):
     while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x))):
         new_y = f(new_x)
-- 
2.43.0


From 332296371a902b9fd3945c17b005a408f524362a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 34/39] fix: RKF45 first step longer than the range

---
 aerokit/common/_ode.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 563d413..7d4cacd 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -66,6 +66,10 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
     X.append(x)
     Y.append(y)
     stopper = 0  # Integration stopper(0 = off, 1 = on)
+    # the first step stays within the range
+    if abs(h) >= abs(xStop - x):
+        h = xStop - x
+        stopper = 1
     for i in range(10000):
         dy, e = _rkf45(F, x, y, h)
         # Accept integration step if error e is within tolerance
-- 
2.43.0


From 97bf4ec070ff5bcbd7878bc45ff50d0d8d06e5a7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 35/39] fix: secant iteration stopped before its first step

---
 aerokit/aero/IterativeSolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/IterativeSolve.py b/aerokit/aero/IterativeSolve.py
index 3de1dab..4c1149b 100644
--- a/aerokit/aero/IterativeSolve.py
+++ b/aerokit/aero/IterativeSolve.py
@@ -13,7 +13,7 @@ def secant_solve(f, y, x, tol=0.00001):
     old_y = f(old_x)
     new_x = x*0.999 if x != 0. else 2.*tol
     #while (it < itmax) and np.any(abs(new_x-old_x) > np.maximum(tol,tol*abs(new_x))):
-    while (it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x))):
+    while (it == 1) or ((it < itmax) and (abs(new_x-old_x) > max(tol,tol*abs(new_x)))):
         new_y = f(new_x)
         next_x = new_x + (new_x-old_x)/(new_y-old_y)*(y-new_y)
         old_x = new_x
-- 
2.43.0


From 23ffe9bb15075ab02b6af194d87e3ba17eb9804d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 36/39] fix: optimal temperature ratio of the fan

---
 aerokit/engine/propu_be_double_corps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 1cda39a..1d5fc07 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -177,7 +177,7 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     tau_lambda = (cp_ * Tt4)/(cp * Tt0)
     tau_r = Tt0/T0
     tau_c = pi_c**((gamma - 1)/(eta_c * gamma))
-    tau_f = (tau_lambda*tau_r*(tau_c - 1) - (tau_lambda/(tau_r*tau_c)) + lambda_*tau_r + 1)/(tau_r*(1 + lambda_))
+    tau_f = (tau_lambda - tau_r*(tau_c - 1) - (tau_lambda/(tau_r*tau_c)) + lambda_*tau_r + 1)/(tau_r*(1 + lambda_))
     pi_f = tau_f**((eta_f*gamma)/(gamma - 1))
     Tt13 = Tt2 * tau_f
     Pt13 = Pt2 * pi_f
-- 
2.43.0


From 46a866c7dbf00bc7b8db6178c2976b6a58f508a0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:25 +0000
Subject: [PATCH 37/39] fix: restarting a staged cycle also restarts its fan
 flow

---
 aerokit/engine/Cycle_Turbofan.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 7233435..4959caf 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -102,6 +102,7 @@ class cycle_1_to_4:
         self.Tt0 = self.T0 * Is.TtTs_Mach(Mach=self.M0, gamma=self.g.gamma)
         self.V0 = self.M0 * np.sqrt(self.g.gamma * self.g.r * self.T0)
         self.current_stage_corps = 1
+        self.current_stage_fan = 0
         
     def stage_2(self):
         if self.current_stage_corps == 1:
-- 
2.43.0


From d055b8e49c0641f9273778918bf052248cdb91c9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:50 +0000
Subject: [PATCH 38/39] fix: Mach number of an area ratio found from any start
 of its branch, for arrays too

---
 aerokit/aero/MassFlow.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index d0bcbac..0ffe383 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -35,10 +35,10 @@ def Sigma_Mach(Mach, gamma=defg._gamma):
 
 
 def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):
-    if np.size(Mach) != 1:
-        Minit = np.where(Mach <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma))
-    else:
-        Minit = Mach
+    # the given Mach only selects the branch: a distant start may converge to the other one or diverge
+    Minit = np.where(
+        np.asarray(Mach) <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma)
+    )
 
     def sigma_of_mach(m):
         return Sigma_Mach(m, gamma) - sigma
-- 
2.43.0


From 23766dcaa3d0e5bd4d3b559cc35472e5333fe691 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:11 +0000
Subject: [PATCH 39/39] fix: star pressure of Riemann problems given in small
 units

---
 aerokit/instance/riemann.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 8e8a0fa..12336fb 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -188,5 +188,6 @@ class riemann_pb:
         pinit = min(self._pstar_estimate_expansion(), self._qL.p, self._qR.p)
         while pinit > 0.0 and du(pinit) > 0.0:
             pinit = 0.5 * pinit
-        self._pstar = newton(du, pinit, rtol=1e-10)
+        # relative to pinit: the first step and tolerance of newton are absolute
+        self._pstar = pinit * newton(lambda k: du(k * pinit), 1.0, rtol=1e-10)
         return
-- 
2.43.0

