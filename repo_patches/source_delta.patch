From 79f750989a5679cad7f1b7d02146829814ca160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 01/26] fix: reset verdict at the start of every solve

A second solve() on the same object kept the exit code and converge flag of
the first one, so a run that failed after a successful one still reported
success.
---
 pyqlaw/_qlaw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f3e9539..e637706 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -340,6 +340,8 @@ class QLaw:
 
         # initialize values for propagation
         t_iter = 0.0
+        self.converge = False
+        self.exitcode = 0
         oe_iter = self.oe0
         mass_iter = self.mass0
         battery_iter = self.battery_initial
-- 
2.43.0


From a66dd13a3bc58aaca22a1accc233fa5b95532e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 02/26] fix: define thrust angles when thruster is off from the
 first step

A run starting with a depleted battery raised UnboundLocalError.
---
 pyqlaw/_qlaw.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index e637706..77340e1 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -368,6 +368,7 @@ class QLaw:
         t_last_ON  = 0.0
         t_last_OFF = 0.0
         charging = False
+        alpha, beta = 0.0, 0.0
 
         # iterate until nmax
         idx = 0
-- 
2.43.0


From 9ab8e6ca1bacd35d094689bd1ddee0fdde5e15c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:10 +0000
Subject: [PATCH 03/26] fix: do not modify the user's initial elements when
 solving

The Keplerian element safety clamps in place, which altered the array the
user passed to set_problem().
---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 77340e1..08912b1 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -342,7 +342,7 @@ class QLaw:
         t_iter = 0.0
         self.converge = False
         self.exitcode = 0
-        oe_iter = self.oe0
+        oe_iter = np.array(self.oe0, dtype=float)
         mass_iter = self.mass0
         battery_iter = self.battery_initial
 
-- 
2.43.0


From c94c9916a2be802fe9484ce0fd72675e48057680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 04/26] fix: reject invalid eta_r instead of silently ignoring
 it

An int eta_r was neither a float nor callable, so the threshold stayed nan
and the coasting mechanism was disabled without notice.
---
 pyqlaw/_qlaw.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 08912b1..594a8b6 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -337,6 +337,8 @@ class QLaw:
             pass
         else:
             raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
+        if not (isinstance(eta_r, float) or callable(eta_r)):
+            raise ValueError("Invalid type for `eta_r`. Expected float or callable function.")
 
         # initialize values for propagation
         t_iter = 0.0
-- 
2.43.0


From 5ca09a88640f4e23c0cf0625f5424f3cbb77f785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 05/26] fix: efficiency bounds in backward propagation

With a negative time step the Lyapunov rates are negative, so max/min picked
the worst rate as the best one and vice versa.
---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 594a8b6..61a4d14 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -647,7 +647,7 @@ class QLaw:
                 )
             )
         # we return max and min since qdot is defined to be positive
-        return max(qdot_list), min(qdot_list)
+        return max(qdot_list, key=abs), min(qdot_list, key=abs)
     
 
     def interpolate_states(self, kind="quadratic"):
-- 
2.43.0


From ca97fb5b030da7ddf46c1f6b3da6b47a8710c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 06/26] fix: apply duty cycle in backward propagation

Elapsed times are negative when propagating backwards, so the duty cycle
never switched.
---
 pyqlaw/_qlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 61a4d14..f740acb 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -403,11 +403,11 @@ class QLaw:
                 t_step_local = self.t_step
 
             # evaluate duty cycle
-            if ((t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
+            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):
                 duty = False            # turn off duty cycle
                 t_last_OFF = t_iter     # latest time when we turn off
             
-            if ((t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
+            if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):
                 duty = True             # turn on duty cycle
                 t_last_ON = t_iter      # latest time when we turn on
 
-- 
2.43.0


From b645c7a557b498f00ced3a2ab1f4c278b2709d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 07/26] fix: Sundman stepping in backward propagation

E1 = E0 + t_step is never wrapped, so M1 < M0 only happens for a negative
increment; adding a period then made the run step forward almost a full
revolution.
---
 pyqlaw/_qlaw.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index f740acb..bfa186f 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -395,10 +395,7 @@ class QLaw:
                 # compute mean anomaly
                 M0 = E0 - ecc_iter*np.sin(E0)
                 M1 = E1 - ecc_iter*np.sin(E1)
-                if M1 > M0:
-                    t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
-                else:
-                    t_step_local = (M1/(2*np.pi) + 1 - M0/(2*np.pi)) * period
+                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period
             else:
                 t_step_local = self.t_step
 
-- 
2.43.0


From 07258eab36c7493dab90e1f04d372c57c46e6d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 08/26] fix: Fehlberg stages and weights of rkf45

The stages already contain the step size, which was multiplied in twice, and
the fourth-stage weight is 2197/4104.
---
 pyqlaw/_integrate.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 81d41ae..60c2b69 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -42,12 +42,12 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
         (np.array); state-vector at time t+h
     """
     k1 = h * rhs(t, y, p)
-    k2 = h * rhs(t + 1/4 * h,   y + 1/4*h * k1, p)
-    k3 = h * rhs(t + 3/8 * h,   y + 3/32*h*k1 + 9/32*h*k2, p)
-    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*h*k1 - 7200/2197*h*k2 + 7296/2197*h*k3, p)
-    k5 = h * rhs(t + h,         y + 439/216*h*k1 - 8*h*k2 + 3680/513*h*k3 - 845/4104*h*k4, p)
-    k6 = h * rhs(t + 1/2*h,     y - 8/27*h*k1 + 2*h*k2 - 3544/2565*h*k3 + 1859/4104*h*k4 - 11/40*h*k5, p)
-    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4101*k4 - 1/5*k5
+    k2 = h * rhs(t + 1/4 * h,   y + 1/4*k1, p)
+    k3 = h * rhs(t + 3/8 * h,   y + 3/32*k1 + 9/32*k2, p)
+    k4 = h * rhs(t + 12/13 * h, y + 1932/2197*k1 - 7200/2197*k2 + 7296/2197*k3, p)
+    k5 = h * rhs(t + h,         y + 439/216*k1 - 8*k2 + 3680/513*k3 - 845/4104*k4, p)
+    k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
+    y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
     h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From 56eab1f253a7631ea972bb38064df6fdf28ed0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 09/26] fix: rkf45 with vanishing error estimate

A right-hand side integrated exactly raised ZeroDivisionError.
---
 pyqlaw/_integrate.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_integrate.py b/pyqlaw/_integrate.py
index 60c2b69..c7d9874 100644
--- a/pyqlaw/_integrate.py
+++ b/pyqlaw/_integrate.py
@@ -49,5 +49,8 @@ def rkf45(rhs, t, h, y, p, tol=1e-6):
     k6 = h * rhs(t + 1/2*h,     y - 8/27*k1 + 2*k2 - 3544/2565*k3 + 1859/4104*k4 - 11/40*k5, p)
     y_next = y + 25/216*k1 + 1408/2565*k3 + 2197/4104*k4 - 1/5*k5
     z_next = y + 16/135*k1 + 6656/12825*k3 + 28561/56430*k4 - 9/50*k5 + 2/55*k6
-    h_next = h*0.84*(tol/np.linalg.norm(z_next - y_next))**(1/4)
+    err = np.linalg.norm(z_next - y_next)
+    if err == 0.0:
+        return y_next, h        # step is exact, keep step-size
+    h_next = h*0.84*(tol/err)**(1/4)
     return y_next, h_next
\ No newline at end of file
-- 
2.43.0


From a3bd2914ebefc71cdb009e88bac69f772c1d49b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 10/26] fix: battery update uses the executed step with rkf45

The step length was overwritten by the suggested next one before the battery
was updated, and is chosen anew at the start of every iteration anyway.
---
 pyqlaw/_qlaw.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index bfa186f..036b369 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -534,7 +534,7 @@ class QLaw:
                 oe_iter = oe_next
 
             elif self.integrator == "rkf45":
-                oe_next, h_next = rkf45(
+                oe_next, _ = rkf45(
                     self.eom, 
                     t_iter,
                     t_step_local,
@@ -546,7 +546,6 @@ class QLaw:
                 if throttle == 1:
                     mass_iter -= self.mdot*t_step_local  # update mass
                 oe_iter = oe_next
-                t_step_local = max(self.step_min, min(self.step_max,h_next))
             else:
                 raise ValueError("integrator name invalid!")
             
-- 
2.43.0


From 05c0c0f348c7e270912832f84d68702eae3836ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 11/26] fix: true anomaly from MEE in all quadrants

atan(g/f) is off by pi for f < 0, which gave the radial sensitivity of the
semimajor axis the wrong sign, and is undefined for f = 0.
---
 pyqlaw/_eom.py      | 2 +-
 pyqlaw/_symbolic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_eom.py b/pyqlaw/_eom.py
index 443f548..101bd4d 100644
--- a/pyqlaw/_eom.py
+++ b/pyqlaw/_eom.py
@@ -84,7 +84,7 @@ def eom_mee_with_a_gauss(t, state, param):
     # compute additional parameters
     ecc = np.sqrt(f**2 + g**2)
     ang_mom = np.sqrt(sma*mu*(1-ecc**2))
-    ta = l - np.arctan(g/f)
+    ta = l - np.arctan2(g, f)
     r = ang_mom**2/(mu*(1+ecc*np.cos(ta)))
     p = sma*(1 - ecc**2)
 
diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 944bdbe..270dac3 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -222,7 +222,7 @@ def symbolic_qlaw_mee_with_a(cse = True):
         e = sym.sqrt(f**2 + g**2)
         ang_mom = sym.sqrt(a*mu*(1-e**2))
         rp = a*(1 - e)
-        ta = l - sym.atan(g/f)
+        ta = l - sym.atan2(g, f)
         r = ang_mom**2/(mu*(1+e*sym.cos(ta)))
         s_squared = 1 + h**2 + k**2
 
-- 
2.43.0


From b757602ad4795210e931c778344ca77252568dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 12/26] fix: Keplerian steering when RAAN or AOP is exactly at
 its target

The derivative of acos(cos(x)) is 0/0 at x = 0, so the thrust angles were nan
and the run could never leave such a state, even with zero weight on the
angle.
---
 pyqlaw/_symbolic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 270dac3..e536575 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -51,8 +51,8 @@ def symbolic_qlaw_keplerian(cse = True):
         # -------- compute quotient Q -------- #
         doe = [
             a-aT, e-eT, i-iT, 
-            sym.acos(sym.cos(ra - raT)),
-            sym.acos(sym.cos(om - omT)),
+            sym.atan2(sym.sin(ra - raT), sym.cos(ra - raT)),
+            sym.atan2(sym.sin(om - omT), sym.cos(om - omT)),
             #sym.acos(sym.cos(ta - taT)),
         ]
 
-- 
2.43.0


From 4abe2c924188dfd423bc675d1b5adf0b48ea2408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:10 +0000
Subject: [PATCH 13/26] fix: Keplerian scaling of semimajor axis uses the
 distance to the target

Without the absolute value, as in the MEE version, odd or fractional n_petro
gives a wrong or undefined quotient below the target.
---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index e536575..1c190af 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -81,7 +81,7 @@ def symbolic_qlaw_keplerian(cse = True):
         # compute periapsis radius constraint P
         p_rp = sym.exp(k_petro*(1.0 - rp/rpmin))
         # compute scaling for each element Soe
-        soe = [(1 + ((a-aT)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
+        soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0, 1.0, 1.0, 1.0]
         # compute quotient Q
         #sum_term = 0
         #for idx in range(5):
-- 
2.43.0


From 8be58769f36ce34b94aa3a412e003ff91eaf5601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 14/26] fix: argument of periapsis of equatorial orbits from
 MEE

With h = k = 0 the periapsis direction was lost (om = 0) although f and g
define it.
---
 pyqlaw/_elements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 7351e6a..9b650e2 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -264,7 +264,7 @@ def mee2kep(oe_mee):
     e = np.sqrt(f**2 + g**2)
     i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)
     raan = np.arctan2(k,h)
-    om = np.arctan2(g*h-f*k, f*h+g*k)
+    om = np.arctan2(g*np.cos(raan)-f*np.sin(raan), f*np.cos(raan)+g*np.sin(raan))
     ta = l - raan - om
     return np.array([a,e,i,raan,om,ta])
 
-- 
2.43.0


From 65f7da4e99ecce3fcba6ef3dbeeb856a54846b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 15/26] fix: Keplerian angles from Cartesian states of special
 orbits

Rounding of the arccos argument gave nan when periapsis lies on the line of
nodes, and for circular, near-equatorial and retrograde equatorial orbits the
returned angles described a different position.
---
 pyqlaw/_elements.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pyqlaw/_elements.py b/pyqlaw/_elements.py
index 9b650e2..1b90114 100644
--- a/pyqlaw/_elements.py
+++ b/pyqlaw/_elements.py
@@ -89,19 +89,18 @@ def get_omega(state, mu):
     v = state[3:6]
     # angular momentum
     h = np.cross(r,v)
-    # normal direction of xy-plane
-    zdir = np.array([0, 0, 1])
-    ndir = np.cross(zdir, h)
+    # direction of ascending node
+    raan = get_raan(state)
+    ndir = np.array([np.cos(raan), np.sin(raan), 0.0])
     # compute eccentricity vector
     ecc = (1/mu) * np.cross(v,h) - r/la.norm(r)
 
-    # compute argument of periapsis
-    if np.abs(la.norm(ndir)*la.norm(ecc)) >= 1e-12:
-        omega = np.arccos( np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)) )
-        if ecc[2] < 0:
-            omega = 2*np.pi - omega
-    else:
-        omega = np.arctan2(ecc[1], ecc[0])
+    # compute argument of periapsis, measured from node (zero if orbit is circular)
+    if la.norm(ecc) < 1e-8:
+        return 0.0
+    omega = np.arctan2(np.dot(np.cross(h,ndir),ecc)/la.norm(h), np.dot(ndir,ecc))
+    if omega < 0:
+        omega = omega + 2*np.pi
     return omega
 
 
@@ -123,6 +122,11 @@ def get_trueanom(state, mu):
     # radial velocity
     vr = np.dot(v,r)/la.norm(r)
     theta = np.arctan2(h*vr, h**2/la.norm(r) - mu)
+    # if orbit is circular, measure from node, consistently with `get_omega`
+    if la.norm(get_eccentricity(state, mu)) < 1e-8:
+        raan = get_raan(state)
+        ndir = np.array([np.cos(raan), np.sin(raan), 0.0])
+        theta = np.arctan2(np.dot(np.cross(np.cross(r,v),ndir),r)/h, np.dot(ndir,r))
     return theta
 
 
-- 
2.43.0


From 2e81d7f01f170aec0029da0ee3fb5d722bf0919c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 16/26] fix: J2 acceleration away from unit radius

The latitude term is 5 z^2/r^2; the radius was missing.
---
 pyqlaw/_perturbations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index 2ead376..c1aa7ca 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -44,9 +44,9 @@ def perturbation_J2(rECI, T_ECI2PA, mu, J2, Re):
     coeff = -3*mu*J2*Re**2/(2*r**5)
     rPA = T_ECI2PA @ rECI
     a_J2_PA = coeff * np.array([
-        (1 - 5*rPA[2]**2) * rPA[0],
-        (1 - 5*rPA[2]**2) * rPA[1],
-        (3 - 5*rPA[2]**2) * rPA[2]
+        (1 - 5*rPA[2]**2/r**2) * rPA[0],
+        (1 - 5*rPA[2]**2/r**2) * rPA[1],
+        (3 - 5*rPA[2]**2/r**2) * rPA[2]
     ])
     return T_ECI2PA.T @ a_J2_PA
 
-- 
2.43.0


From 3d3926212294edaadc0639b8329c0fe9ee169fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 17/26] fix: SpicePerturbations without third bodies

third_bodies_names=None raised TypeError at the first evaluation.
---
 pyqlaw/_perturbations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyqlaw/_perturbations.py b/pyqlaw/_perturbations.py
index c1aa7ca..bb341e1 100644
--- a/pyqlaw/_perturbations.py
+++ b/pyqlaw/_perturbations.py
@@ -131,7 +131,7 @@ class SpicePerturbations:
         self.obs_id = obs_id
         self.frame_qlaw = frame_qlaw
         self.frame_PA = frame_PA
-        self.third_bodies_names = third_bodies_names
+        self.third_bodies_names = [] if third_bodies_names is None else third_bodies_names
         self.J2 = J2
         self.Re = Re_km / LU
         self.k_srp = P_SRP_SI * Cr_SRP * Am_SI / (1e3 * LU/TU**2)
@@ -144,8 +144,8 @@ class SpicePerturbations:
         VU = LU / TU
         MU_REF = LU * VU**2
         self.obs_mu = spice.bodvrd(obs_id, "GM", 1)[1][0] / MU_REF
-        if (third_bodies_gms is None) and (third_bodies_names is not None):
-            self.third_bodies_gms = [spice.bodvrd(ID, "GM", 1)[1][0]/MU_REF for ID in third_bodies_names]
+        if third_bodies_gms is None:
+            self.third_bodies_gms = [spice.bodvrd(ID, "GM", 1)[1][0]/MU_REF for ID in self.third_bodies_names]
         else:
             self.third_bodies_gms = third_bodies_gms
         return
-- 
2.43.0


From a6649a6e9b2b9708221c5bf6a6cc3aa46802759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 18/26] fix: export Keplerian histories as MEE

save_to_dict() treated Keplerian states as SMA-MEE states.
---
 pyqlaw/_qlaw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index 036b369..df209d9 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -24,6 +24,7 @@ from ._elements import (
     mee_with_a2sv,
     get_orbit_coordinates, 
     mee_with_a2mee,
+    kep2mee,
     mee2mee_with_a,
     mee_with_a2kep,
     ta2ea,
@@ -732,12 +733,13 @@ class QLaw:
         Args:
             filepath (str): filepath to json filename to save the dictionary
         """
+        to_mee = kep2mee if self.elements_type == "keplerian" else mee_with_a2mee
         initial_guess = {
             "t0": 0.0,
             "tf": self.times[-1],
             "times": self.times,
             "canonical_units": canonical_units,
-            "states": [list(mee_with_a2mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
+            "states": [list(to_mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],
         }
         _controls = copy.deepcopy(self.controls)
         _controls.append([0,0,0])   # final step to match time-steps
-- 
2.43.0


From d2d145fb93c3a703005a70e257806fb6feb28316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 19/26] fix: operator precedence in wrap

wrap() did not return the angle it was given modulo a full turn.
---
 pyqlaw/_transformations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_transformations.py b/pyqlaw/_transformations.py
index 5bb72df..42c1bf8 100644
--- a/pyqlaw/_transformations.py
+++ b/pyqlaw/_transformations.py
@@ -26,4 +26,4 @@ def rotmat3(phi):
 
 def wrap(alpha):
 	"""Wrap angle to be between -pi and pi"""
-	return (alpha + np.pi) % 2.0 * np.pi - np.pi
\ No newline at end of file
+	return (alpha + np.pi) % (2.0 * np.pi) - np.pi
\ No newline at end of file
-- 
2.43.0


From 38200f6b7bc45f370143d1abc7f7aac492cc12ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 20/26] fix: thrust angles of a purely out-of-plane direction

The in-plane norm is zero there, which raised ZeroDivisionError.
---
 pyqlaw/_lyapunov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_lyapunov.py b/pyqlaw/_lyapunov.py
index 6df8dd5..e9cc231 100644
--- a/pyqlaw/_lyapunov.py
+++ b/pyqlaw/_lyapunov.py
@@ -12,7 +12,7 @@ def _u_to_thrust_angles(u_float):
     u_float_norm = np.sqrt( u_float[0]**2 + u_float[1]**2 + u_float[2]**2 )
     u = u_float/u_float_norm
     alpha = np.arctan2(-u[0],-u[1])
-    beta = np.arctan(-u[2]/np.sqrt(u[0]**2 + u[1]**2))
+    beta = np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))
     return u, alpha, beta
 
 
-- 
2.43.0


From 7043c9300bbe381813dc54fcd9c360a8924fd2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 21/26] fix: periapsis overlay for MEE histories

The second MEE element is not the eccentricity.
---
 pyqlaw/_plot_methods.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyqlaw/_plot_methods.py b/pyqlaw/_plot_methods.py
index 42705b6..fbd42be 100644
--- a/pyqlaw/_plot_methods.py
+++ b/pyqlaw/_plot_methods.py
@@ -73,7 +73,11 @@ def plot_elements_history(
 
     # overlay periapsis
     if plot_periapsis:
-        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - oes[1,:]))
+        if to_keplerian == False and self.elements_type=="mee_with_a":
+            eccs = np.sqrt(oes[1,:]**2 + oes[2,:]**2)
+        else:
+            eccs = oes[1,:]
+        axs[0,0].plot(np.array(self.times)*TU, oes[0,:]*(1 - eccs))
 
     # plot mass or TA
     if plot_mass:
-- 
2.43.0


From bbcb8d1b0bce0a81b84c961a44433619bb25605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:00 +0000
Subject: [PATCH 22/26] fix: shorten steps to the battery floor exactly when
 discharging

The step was also shortened while the thruster was off, and was never shortened
again after the first depletion without full recharge, so the thruster then
used energy the battery did not have.
---
 pyqlaw/_qlaw.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index df209d9..d45e7f0 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -414,17 +414,16 @@ class QLaw:
                 duty = False                # turn off
                 t_last_OFF = t_iter         # latest time when we turn off
                 charging = True
-            
-            # overwrite time-step to time until we hit bottom of battery capacity
-            elif (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]) and\
-                (charging is False):
-                t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]
 
             # check if battery is full
             if (self.require_full_recharge is True) and (charging is True) and\
                 (battery_iter < self.battery_capacity[1]):
                 duty = False                # turn off
 
+            # overwrite time-step to time until we hit bottom of battery capacity
+            if duty and (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]):
+                t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]
+
             # compute instantaneous acceleration magnitude due to thrust
             accel_thrust = np.sign(t_step_local) * self.tmax/mass_iter
 
-- 
2.43.0


From 5b51f36219d670364132bfd49a45cf2e4ebac3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:02 +0000
Subject: [PATCH 23/26] fix: Keplerian steering undefined at small eccentricity
 (cancellation)

---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 1c190af..291776a 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -60,7 +60,7 @@ def symbolic_qlaw_keplerian(cse = True):
         radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sym.sqrt((sinom**2))))  # FIXME
         cos_ta_xx_sqrt = sym.sqrt((1/4)*((1-e**2)/e**3)**2 + 1/27)
         ta_xx_term1 = ( (1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
-        ta_xx_term2 = (-(1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
+        ta_xx_term2 = 1/(3*ta_xx_term1)     # = (-(1-e**2)/(2*e**3) + cos_ta_xx_sqrt)**(1/3), without cancellation
         cos_ta_xx = ta_xx_term1 - ta_xx_term2 - 1/e
         r_xx = p / (1 + e*cos_ta_xx)
         omdot_i = f/(e*h)*sym.sqrt(
-- 
2.43.0


From e0e550ecf077b0ce6c9a78258ddb774dc91a969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:54 +0000
Subject: [PATCH 24/26] fix: Keplerian steering undefined at zero argument of
 periapsis

---
 pyqlaw/_symbolic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_symbolic.py b/pyqlaw/_symbolic.py
index 291776a..d757cef 100644
--- a/pyqlaw/_symbolic.py
+++ b/pyqlaw/_symbolic.py
@@ -57,7 +57,7 @@ def symbolic_qlaw_keplerian(cse = True):
         ]
 
         # compute RAdot and omdot
-        radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sym.sqrt((sinom**2))))  # FIXME
+        radot = p*f/(h*sini*(sym.sqrt(1 - e**2*cosom**2) - e*sym.Max(sinom, -sinom)))  # FIXME
         cos_ta_xx_sqrt = sym.sqrt((1/4)*((1-e**2)/e**3)**2 + 1/27)
         ta_xx_term1 = ( (1-e**2) / (2*e**3) + cos_ta_xx_sqrt)**(1/3)
         ta_xx_term2 = 1/(3*ta_xx_term1)     # = (-(1-e**2)/(2*e**3) + cos_ta_xx_sqrt)**(1/3), without cancellation
-- 
2.43.0


From 43ea17e91ee2ea12b2deafa2b60e210995417e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:37 +0000
Subject: [PATCH 25/26] fix: interpolated history of a short transfer does not
 cover it

---
 pyqlaw/_qlaw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyqlaw/_qlaw.py b/pyqlaw/_qlaw.py
index d45e7f0..73c1014 100644
--- a/pyqlaw/_qlaw.py
+++ b/pyqlaw/_qlaw.py
@@ -667,7 +667,7 @@ class QLaw:
             # interpolate orbital elements
             f_a, f_e, f_i, f_r, f_o, f_t = self.interpolate_states(kind=kind)
             if steps is None:
-                steps = min(8000, abs(int(round(self.times[-1]/0.01))))
+                steps = max(2, min(8000, abs(int(round(self.times[-1]/0.01)))))
                 print(f"Using {steps} steps for evaluation")
             t_evals = np.linspace(self.times[0], self.times[-1], steps)
             cart = np.zeros((6,steps))
-- 
2.43.0


From dfd7da9de4d8840f5b2d80f52fc55df540738fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:45 +0000
Subject: [PATCH 26/26] fix: plot_efficiency crashed on a run without recorded
 steps

---
 pyqlaw/_plot_methods.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyqlaw/_plot_methods.py b/pyqlaw/_plot_methods.py
index fbd42be..b48bc53 100644
--- a/pyqlaw/_plot_methods.py
+++ b/pyqlaw/_plot_methods.py
@@ -239,13 +239,15 @@ def plot_efficiency(self, figsize=(9,6), TU=1.0, time_unit_name="TU"):
     Returns:
         (tuple): figure and axis objects
     """
+    etas = np.array(self.etas).reshape(-1, 2)                   # also if no step was recorded
+    etas_bounds = np.array(self.etas_bounds).reshape(-1, 2)
     fig, axs = plt.subplots(2,1,figsize=figsize)
-    axs[0].plot(np.array(self.times[0:-1])*TU, np.array(self.etas)[:,0], label="eta_a")
-    axs[0].plot(np.array(self.times[0:-1])*TU, np.array(self.etas_bounds)[:,0], label="eta_a_min", linestyle='-', color='red')
+    axs[0].plot(np.array(self.times[0:-1])*TU, etas[:,0], label="eta_a")
+    axs[0].plot(np.array(self.times[0:-1])*TU, etas_bounds[:,0], label="eta_a_min", linestyle='-', color='red')
     axs[0].set(xlabel=f"Time, {time_unit_name}", ylabel="Absolute efficiency")
 
-    axs[1].plot(np.array(self.times[0:-1])*TU, np.array(self.etas)[:,1], label="eta_r")
-    axs[1].plot(np.array(self.times[0:-1])*TU, np.array(self.etas_bounds)[:,1], label="eta_r_min", linestyle='-', color='red')
+    axs[1].plot(np.array(self.times[0:-1])*TU, etas[:,1], label="eta_r")
+    axs[1].plot(np.array(self.times[0:-1])*TU, etas_bounds[:,1], label="eta_r_min", linestyle='-', color='red')
     axs[1].set(xlabel=f"Time, {time_unit_name}", ylabel="Relative efficiency")
     for ax in axs:
         ax.legend()
-- 
2.43.0

