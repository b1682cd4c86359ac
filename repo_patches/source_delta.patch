From ed63840a14bbcb14f4d80e9dbd5c2dbc347c8485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 01/22] fix: rkf45 multiplied its stages by the step twice and
 used 2197/4101

---
 pyqlaw/_integrate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 81d41ae..60c2b69 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -42,12 +42,12 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
         (np.array); state-vector at time t+h
     """
     k1 = h * rhs(t, y, p)
-    k2 = h * rhs(t + 1/4 * h,   y + 1/4*h * k1, p)
-    k3 = h * rhs(t + 3/8 * h,   y + 3/32*h*k1 + 9/32*h*k2, p)
-    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*h*k1 - 7200/2197*h*k2 + 7296/2197*h*k3, p)
-    k5 = h * rhs(t + h,         y + 439/216*h*k1 - 8*h*k2 + 3680/513*h*k3 - 845/4104*h*k4, p)
-    k6 = h * rhs(t + 1/2*h,     y - 8/27*h*k1 + 2*h*k2 - 3544/2565*h*k3 + 1859/4104*h*k4 - 11/40*h*k5, p)
-    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4101*k4 - 1/5*k5
+    k2 = h * rhs(t + 1/4 * h,   y + 1/4*k1, p)
+    k3 = h * rhs(t + 3/8 * h,   y + 3/32*k1 + 9/32*k2, p)
+    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)
+    k5 = h * rhs(t + h,         y + 439/216*k1 - 8*k2 + 3680/513*k3 - 845/4104*k4, p)
+    k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
+    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
     h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From cff73dbe85d9c0f34521136a3100066a8ac3bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 02/22] fix: J2 acceleration used z**2 in place of (z/r)**2

---
 pyqlaw/_perturbations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 2ead376..33c617d 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -44,9 +44,9 @@ def perturbation_J2(rECI, T_ECI2PA, mu, J2, Re):
     coeff = -3*mu*J2*Re**2/(2*r**5)
     rPA = T_ECI2PA @ rECI
     a_J2_PA = coeff * np.array([
-        (1 - 5*rPA[2]**2) * rPA[0],
-        (1 - 5*rPA[2]**2) * rPA[1],
-        (3 - 5*rPA[2]**2) * rPA[2]
+        (1 - 5*(rPA[2]/r)**2) * rPA[0],
+        (1 - 5*(rPA[2]/r)**2) * rPA[1],
+        (3 - 5*(rPA[2]/r)**2) * rPA[2]
     ])
     return T_ECI2PA.T @ a_J2_PA
 
-- 
2.43.0


From 0264900747fcbf0e3e8cec184551e478434b537e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 03/22] fix: wrap() took the remainder modulo 2 and not modulo
 2*pi

---
 pyqlaw/_transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_transformations.py b/pyqlaw/_transformations.py
index 5bb72df..21fca87 100644
--- a/pyqlaw/_transformations.py
+++ b/pyqlaw/_transformations.py
@@ -26,4 +26,4 @@ def rotmat3(phi):
 
 def wrap(alpha):
 	"""Wrap angle to be between -pi and pi"""
-	return (alpha + np.pi) % 2.0 * np.pi - np.pi
\ No newline at end of file
+	return (alpha + np.pi) % (2.0*np.pi) - np.pi
\ No newline at end of file
-- 
2.43.0


From b126cbf0e6db53bfdd8b7e3629939c73aa2b93a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 04/22] fix: true anomaly of the MEE law and dynamics ignored
 the quadrant of (f, g)

---
 pyqlaw/_eom.py      | 2 +-
 pyqlaw/_symbolic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_eom.py b/pyqlaw/_eom.py
index 443f548..101bd4d 100644
--- a/pyqlaw/_eom.py
+++ b/pyqlaw/_eom.py
@@ -84,7 +84,7 @@ def eom_mee_with_a_gauss(t, state, param):
     # compute additional parameters
     ecc = np.sqrt(f**2 + g**2)
     ang_mom = np.sqrt(sma*mu*(1-ecc**2))
-    ta = l - np.arctan(g/f)
+    ta = l - np.arctan2(g, f)
     r = ang_mom**2/(mu*(1+ecc*np.cos(ta)))
     p = sma*(1 - ecc**2)
 
diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 944bdbe..270dac3 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -222,7 +222,7 @@ def symbolic_qlaw_mee_with_a(cse = True):
         e = sym.sqrt(f**2 + g**2)
         ang_mom = sym.sqrt(a*mu*(1-e**2))
         rp = a*(1 - e)
-        ta = l - sym.atan(g/f)
+        ta = l - sym.atan2(g, f)
         r = ang_mom**2/(mu*(1+e*sym.cos(ta)))
         s_squared = 1 + h**2 + k**2
 
-- 
2.43.0


From f4f25b2a269192785cbf5760219984f117655f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 05/22] fix: elements_safety clamped the caller's array in
 place

---
 pyqlaw/_convergence.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_convergence.py b/pyqlaw/_convergence.py
index bb013c8..faa7aa7 100644
--- a/pyqlaw/_convergence.py
+++ b/pyqlaw/_convergence.py
@@ -58,7 +58,7 @@ def elements_safety(oe, oe_min, oe_max):
     Returns:
         (np.array): "cleaned" osculating elements
     """
-    oe_clean = oe
+    oe_clean = oe.copy()
     for idx in range(5):
         oe_clean[idx] = min(max(oe_min[idx], oe[idx]), oe_max[idx])
     return oe_clean
\ No newline at end of file
-- 
2.43.0


From 06cd8a017ce1c1e80f1185181a533a10ae7724a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 06/22] fix: a second solve kept the exit code and flag of the
 first

---
 pyqlaw/_qlaw.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f3e9539..8605cfd 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -338,6 +338,10 @@ class QLaw:
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
 
+        # status of this run
+        self.converge = False
+        self.exitcode = 0
+
         # initialize values for propagation
         t_iter = 0.0
         oe_iter = self.oe0
-- 
2.43.0


From b8bb734cdbfaf7f8a9d9d9fd3eecca18746c5bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 07/22] fix: coasting before the first thrust arc raised
 UnboundLocalError

---
 pyqlaw/_qlaw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 8605cfd..c54bdda 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -360,6 +360,7 @@ class QLaw:
         self.battery = [self.battery_initial,]
         n_relaxed_cleared = 0
         n_nan_angles = 0
+        alpha, beta = 0.0, 0.0      # recorded until the first thrust arc
 
         if self.verbosity >= 2:
             self.disable_tqdm = True
-- 
2.43.0


From 111601df735d411698e90a40d1404362522b7002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 08/22] fix: battery used the suggested rkf45 step and not the
 step taken

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index c54bdda..87e9e2d 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -549,7 +549,7 @@ class QLaw:
                 if throttle == 1:
                     mass_iter -= self.mdot*t_step_local  # update mass
                 oe_iter = oe_next
-                t_step_local = max(self.step_min, min(self.step_max,h_next))
+                t_step_next = max(self.step_min, min(self.step_max,h_next))    # suggestion only
             else:
                 raise ValueError("integrator name invalid!")
             
-- 
2.43.0


From 6a61383ed2a1fb2a43f46f5970b0c1a86779200c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 09/22] fix: Sundman step with a negative increment went
 forward almost a full period

---
 pyqlaw/_qlaw.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 87e9e2d..83cd6f6 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -395,10 +395,8 @@ class QLaw:
                 # compute mean anomaly
                 M0 = E0 - ecc_iter*np.sin(E0)
                 M1 = E1 - ecc_iter*np.sin(E1)
-                if M1 > M0:
-                    t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
-                else:
-                    t_step_local = (M1/(2*np.pi) + 1 - M0/(2*np.pi)) * period
+                # (M increases with E, so the time-step has the sign of the increment)
+                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
             else:
                 t_step_local = self.t_step
 
-- 
2.43.0


From 84e671112e5b01ff4144cf19e595edbc29674499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 10/22] fix: duty cycle never switched in backward propagation

---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 83cd6f6..ce8a207 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -401,11 +401,11 @@ class QLaw:
                 t_step_local = self.t_step
 
             # evaluate duty cycle
-            if ((t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
+            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
                 duty = False            # turn off duty cycle
                 t_last_OFF = t_iter     # latest time when we turn off
             
-            if ((t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
+            if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
                 duty = True             # turn on duty cycle
                 t_last_ON = t_iter      # latest time when we turn on
 
-- 
2.43.0


From 104f805877f522485572cbce68e851d459e2fe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 11/22] fix: effectivities were inverted in backward
 propagation

---
 pyqlaw/_qlaw.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index ce8a207..2535fdf 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -645,7 +645,8 @@ class QLaw:
                 )
             )
         # we return max and min since qdot is defined to be positive
-        return max(qdot_list), min(qdot_list)
+        # (it takes the sign of accel_thrust, so compare magnitudes)
+        return max(qdot_list, key=abs), min(qdot_list, key=abs)
     
 
     def interpolate_states(self, kind="quadratic"):
-- 
2.43.0


From dc241b6892ce32d243b6438b661b262c9dbdfd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 12/22] fix: mee2kep lost the argument of periapsis of
 equatorial orbits

---
 pyqlaw/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 7351e6a..9b650e2 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -264,7 +264,7 @@ def mee2kep(oe_mee):
     e = np.sqrt(f**2 + g**2)
     i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)
     raan = np.arctan2(k,h)
-    om = np.arctan2(g*h-f*k, f*h+g*k)
+    om = np.arctan2(g*np.cos(raan)-f*np.sin(raan), f*np.cos(raan)+g*np.sin(raan))
     ta = l - raan - om
     return np.array([a,e,i,raan,om,ta])
 
-- 
2.43.0


From 42fb2780c5335b419c513a47bf7a1b9aef996e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 13/22] fix: Keplerian solutions were exported as if they were
 SMA-MEE

---
 pyqlaw/_qlaw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 2535fdf..230fe73 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -22,6 +22,7 @@ from ._convergence import (
 from ._elements import (
     kep2sv,
     mee_with_a2sv,
+    kep2mee,
     get_orbit_coordinates, 
     mee_with_a2mee,
     mee2mee_with_a,
@@ -735,12 +736,13 @@ class QLaw:
         Args:
             filepath (str): filepath to json filename to save the dictionary
         """
+        to_mee = kep2mee if self.elements_type=="keplerian" else mee_with_a2mee
         initial_guess = {
             "t0": 0.0,
             "tf": self.times[-1],
             "times": self.times,
             "canonical_units": canonical_units,
-            "states": [list(mee_with_a2mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
+            "states": [list(to_mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
         }
         _controls = copy.deepcopy(self.controls)
         _controls.append([0,0,0])   # final step to match time-steps
-- 
2.43.0


From c0ccb11343481692ed6926c1aaec347bf041e28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 14/22] fix: eta_r of an invalid type was ignored and not
 refused

---
 pyqlaw/_qlaw.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 230fe73..7e1ca9b 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -339,6 +339,9 @@ class QLaw:
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
 
+        if not (isinstance(eta_r, float) or callable(eta_r)):
+            raise ValueError("Invalid type for `eta_r`. Expected float or callable function.")
+
         # status of this run
         self.converge = False
         self.exitcode = 0
-- 
2.43.0


From ac8a082c97c00d75679c43db453c7044cdac19a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 15/22] fix: gradient of the Keplerian Q was nan with node or
 periapsis on target

---
 pyqlaw/_symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 270dac3..e536575 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -51,8 +51,8 @@ def symbolic_qlaw_keplerian(cse = True):
         # -------- compute quotient Q -------- #
         doe = [
             a-aT, e-eT, i-iT, 
-            sym.acos(sym.cos(ra - raT)),
-            sym.acos(sym.cos(om - omT)),
+            sym.atan2(sym.sin(ra - raT), sym.cos(ra - raT)),
+            sym.atan2(sym.sin(om - omT), sym.cos(om - omT)),
             #sym.acos(sym.cos(ta - taT)),
         ]
 
-- 
2.43.0


From 510486d4f7afa3a8a209ff62aa78b36299180cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 16/22] fix: Keplerian scaling of the semi-major axis lacked
 the absolute value

---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index e536575..1c190af 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -81,7 +81,7 @@ def symbolic_qlaw_keplerian(cse = True):
         # compute periapsis radius constraint P
         p_rp = sym.exp(k_petro*(1.0 - rp/rpmin))
         # compute scaling for each element Soe
-        soe = [(1 + ((a-aT)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
+        soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
         # compute quotient Q
         #sum_term = 0
         #for idx in range(5):
-- 
2.43.0


From 365b0a02e7ac9361c0cafb65311f19660945d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 17/22] fix: purely out-of-plane direction raised
 ZeroDivisionError

---
 pyqlaw/_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_lyapunov.py b/pyqlaw/_lyapunov.py
index 6df8dd5..e9cc231 100644
--- a/pyqlaw/_lyapunov.py
+++ b/pyqlaw/_lyapunov.py
@@ -12,7 +12,7 @@ def _u_to_thrust_angles(u_float):
     u_float_norm = np.sqrt( u_float[0]**2 + u_float[1]**2 + u_float[2]**2 )
     u = u_float/u_float_norm
     alpha = np.arctan2(-u[0],-u[1])
-    beta = np.arctan(-u[2]/np.sqrt(u[0]**2 + u[1]**2))
+    beta = np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))
     return u, alpha, beta
 
 
-- 
2.43.0


From 078817ad98c851db8d39e4a7c44b619ed8e024c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 18/22] fix: rounding made inclination and argument of
 periapsis nan

---
 pyqlaw/_elements.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 9b650e2..ec57bb3 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -23,7 +23,7 @@ def get_inclination(state):
     # angular momentum
     h = np.cross(r,v)
     # inclination
-    inc = np.arccos(h[2] / la.norm(h))
+    inc = np.arccos(max(-1.0, min(1.0, h[2] / la.norm(h))))
     return inc
 
 
@@ -97,7 +97,8 @@ def get_omega(state, mu):
 
     # compute argument of periapsis
     if np.abs(la.norm(ndir)*la.norm(ecc)) >= 1e-12:
-        omega = np.arccos( np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)) )
+        cos_omega = np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc))
+        omega = np.arccos( max(-1.0, min(1.0, cos_omega)) )
         if ecc[2] < 0:
             omega = 2*np.pi - omega
     else:
-- 
2.43.0


From c2733ef5e2762189b1daa83baa689774968efd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 19/22] fix: without full recharge, thrust could outlast the
 stored charge

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 7e1ca9b..233888f 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -421,7 +421,7 @@ class QLaw:
             
             # overwrite time-step to time until we hit bottom of battery capacity
             elif (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]) and\
-                (charging is False):
+                ((charging is False) or (self.require_full_recharge is False)):
                 t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]
 
             # check if battery is full
-- 
2.43.0


From b05c96645e061c42d6b82b709954d1873b35f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 20/22] fix: perturbations without third bodies raised
 TypeError

---
 pyqlaw/_perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 33c617d..fa8567f 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -131,7 +131,7 @@ class SpicePerturbations:
         self.obs_id = obs_id
         self.frame_qlaw = frame_qlaw
         self.frame_PA = frame_PA
-        self.third_bodies_names = third_bodies_names
+        self.third_bodies_names = third_bodies_names if third_bodies_names is not None else []
         self.J2 = J2
         self.Re = Re_km / LU
         self.k_srp = P_SRP_SI * Cr_SRP * Am_SI / (1e3 * LU/TU**2)
@@ -147,7 +147,7 @@ class SpicePerturbations:
         if (third_bodies_gms is None) and (third_bodies_names is not None):
             self.third_bodies_gms = [spice.bodvrd(ID, "GM", 1)[1][0]/MU_REF for ID in third_bodies_names]
         else:
-            self.third_bodies_gms = third_bodies_gms
+            self.third_bodies_gms = third_bodies_gms if third_bodies_gms is not None else []
         return
     
     def get_perturbations_RTN(self, t, oe, elements_type):
-- 
2.43.0


From 2d2a56a0092068da33000ac639bdc0dbee40df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 21/22] fix: target elements of a wrong length were accepted

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 233888f..502a9ce 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -281,7 +281,7 @@ class QLaw:
         """
         assert len(oe0)==6, "oe6 must have 6 components"
         assert mass_min >= 1e-2, "mass should be above 0.01 to avoid numerical difficulties"
-        #assert len(oeT)==5, "oeT must have 5 components"
+        assert len(oeT) in (5, 6), "oeT must have 5 components (a 6th is ignored)"
         # weight parameters
         if woe is None:
             self.woe = np.array([1.0,1.0,1.0,1.0,1.0])
-- 
2.43.0


From 4e90ca9628dbda7357c5361676d43e39a6753a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:18 +0000
Subject: [PATCH 22/22] fix: rkf45 divided by zero when the two orders agree
 exactly

---
 pyqlaw/_integrate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 60c2b69..ee91a48 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -49,5 +49,6 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
     k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
     y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
-    h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
+    err = np.linalg.norm(z_next - y_next)
+    h_next = h*0.84*(tol/err)**(1/4) if err != 0.0 else h*np.inf
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0

