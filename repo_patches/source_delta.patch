From eb9786bea5ca47b265079d343453753775e73f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 01/63] fix: misplaced parenthesis in Battin's u auxiliary
 variable

---
 src/lamberthub/p_solvers/battin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index b0a75a3..67ba104 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -375,7 +375,7 @@ def _u_at_B(B):
     This is equation (55) from the original report [1].
 
     """
-    u = -B / (2 * np.sqrt(1 + B) + 1)
+    u = -B / (2 * (np.sqrt(1 + B) + 1))
     return u
 
 
-- 
2.43.0


From 591abb67c03b308ed9d7055464ee2a7f378401c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 02/63] fix: initial values of the xi continued fraction in
 battin1984

The summation was stopped at its very first term because delta was null.
---
 src/lamberthub/p_solvers/battin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 67ba104..17cea71 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -435,10 +435,10 @@ def _xi_at_x(x, levels=125):
         sigma,
         m1,
     ) = (
-        0,
         1,
         1,
         1,
+        0,
     )
 
     while np.abs(u) > 1e-18 and m1 <= levels:
-- 
2.43.0


From 02f2571020f8cc52b40dae4b715f44aa9adab3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 03/63] fix: final velocity of gauss1809 when position norms
 are different

---
 src/lamberthub/p_solvers/gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 57d6f77..b67818d 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -153,7 +153,7 @@ def gauss1809(
     f_dot = (
         np.sqrt(mu / p)
         * np.tan(dtheta / 2)
-        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r1_norm)
+        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r2_norm)
     )
     g_dot = 1 - r1_norm * (1 - np.cos(dtheta)) / p
 
-- 
2.43.0


From 9f079956c8fd4709e41c29f7c72bc47f25f355fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 04/63] fix: parabolic and hyperbolic orbits in gauss1809

---
 src/lamberthub/p_solvers/gauss.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index b67818d..42100a8 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -129,22 +129,17 @@ def gauss1809(
         raise ValueError("Exceeded maximum number of iterations.")
 
     # Once the value of y has been found, the shape and nature of the orbit can
-    # be determined from the sign of x variable
-    if x > 0:
-        # The orbit is an ellipse, being deltaAnomaly = deltaE
-        deltaAnomaly = 2 * np.arccos(1 - 2 * x)
-    elif x == 0:
-        # The orbit is a parabola
-        pass
-    else:
-        # The orbit is an hyperbola, being deltaAnomaly = deltaF
-        deltaAnomaly = 2 * np.arccosh(1 - 2 * x)
+    # be determined from the sign of x variable: the orbit is an ellipse if it is
+    # positive, a parabola if it is null and an hyperbola otherwise. The cosine of
+    # half the change in eccentric anomaly (hyperbolic cosine of half the change in
+    # hyperbolic anomaly) is given by the same expression in all of the cases
+    cos_half_anomaly = 1 - 2 * x
 
     # Compute the orbital parameter
     p = (r1_norm * r2_norm * (1 - np.cos(dtheta))) / (
         r1_norm
         + r2_norm
-        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * np.cos(deltaAnomaly / 2)
+        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * cos_half_anomaly
     )
 
     # Evaluate f, g, f_dot and g_dot functions for future solving v1 and v2
-- 
2.43.0


From d0fecdf8f8dee9ec872476fc825bddd6f630be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 05/63] fix: reject spurious roots of gauss1809 out of the
 series convergence radius

---
 src/lamberthub/p_solvers/gauss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 42100a8..05a9baa 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -128,6 +128,11 @@ def gauss1809(
     else:
         raise ValueError("Exceeded maximum number of iterations.")
 
+    # The power series used in Gauss' second equation only converges if the
+    # absolute value of x is lower than the unity. Any other root is spurious
+    if not np.abs(x) < 1:
+        raise ValueError("Gauss' series does not converge for this transfer!")
+
     # Once the value of y has been found, the shape and nature of the orbit can
     # be determined from the sign of x variable: the orbit is an ellipse if it is
     # positive, a parabola if it is null and an hyperbola otherwise. The cosine of
-- 
2.43.0


From 691443e4a368f9df33f0ccdbaef7e85f70b88c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 06/63] fix: value of y for parabolic transfers in der2011

---
 src/lamberthub/universal_solvers/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 401c1bb..383fc94 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -148,7 +148,7 @@ def _find_path_parameter(
 ):
     """Solve for Der's path parameter with the Laguerre method."""
     if M == 0 and np.isclose(tau, tau_p, atol=atol, rtol=rtol):
-        return 1.0, sigma, 1
+        return 1.0, _compute_y(sigma, 1.0), 1
 
     is_elliptic = M > 0 or tau > tau_p
     tau_me = _compute_minimum_energy_time(sigma, M) if is_elliptic else None
-- 
2.43.0


From 23776adafbb70eba60a78f0cd456a3d534d00ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:29 +0000
Subject: [PATCH 07/63] fix: catastrophic cancellation near the parabola in
 der2011

---
 src/lamberthub/universal_solvers/der.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 383fc94..a10bd88 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -271,10 +271,30 @@ def _acoth_sun(u):
     return -np.arccosh(-u)
 
 
+@jit(cache=True, fastmath=True)
+def _tof_near_parabolic(sigma, one_minus_x2):
+    """Evaluate Sun's normalized time of flight in the vicinity of the parabola.
+
+    The closed form expressions for the elliptic and hyperbolic cases cancel out
+    when the path parameter approaches the unity. Their common power series on
+    ``1 - x**2`` is used instead.
+    """
+    one_minus_y2 = sigma**2 * one_minus_x2
+    coeff, x_power, y_power, tof = 2.0, 1.0, 1.0, 0.0
+    for k in range(12):
+        tof += coeff * (x_power - sigma**3 * y_power) / (2 * k + 3)
+        coeff *= (2 * k + 1) / (2 * k + 2)
+        x_power *= one_minus_x2
+        y_power *= one_minus_y2
+    return tof
+
+
 @jit(cache=True, fastmath=True)
 def _tof_elliptic(sigma, x, y, M):
     """Evaluate Sun's normalized elliptic time of flight."""
     one_minus_x2 = 1 - x**2
+    if M == 0 and x > 0 and one_minus_x2 < 0.02:
+        return _tof_near_parabolic(sigma, one_minus_x2)
     one_minus_y2 = 1 - y**2
     numerator = (
         _acot_elliptic_x(x)
@@ -290,6 +310,8 @@ def _tof_elliptic(sigma, x, y, M):
 def _tof_hyperbolic(sigma, x, y):
     """Evaluate Sun's normalized hyperbolic time of flight."""
     x2_minus_one = x**2 - 1
+    if x2_minus_one < 0.02:
+        return _tof_near_parabolic(sigma, -x2_minus_one)
     y2_minus_one = y**2 - 1
     numerator = (
         -_acoth_sun(x)
-- 
2.43.0


From 57f2cd4241287600a7e761f187c3315dfd12dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:47 +0000
Subject: [PATCH 08/63] fix: low and high path selection of multi-revolution
 transfers in der2011

Both paths were assumed to be at opposite sides of the minimum energy orbit,
while they are split by the minimum time one. This lead to exhausted
iterations or to the solution of the path not requested.
---
 src/lamberthub/universal_solvers/der.py | 38 +++++++++++++++++--------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index a10bd88..a8923f5 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -95,8 +95,9 @@ def der2011(
     if M > 0 and tau <= tau_p:
         raise ValueError("No feasible solution, try lower M!")
 
+    x_min = 0.0
     if M > 0:
-        tau_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
+        x_min, tau_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
         if tau < tau_min:
             raise ValueError("No feasible solution, try lower M!")
 
@@ -107,6 +108,7 @@ def der2011(
         tau_p,
         M,
         is_low_path,
+        x_min,
         maxiter,
         atol,
         rtol,
@@ -142,6 +144,7 @@ def _find_path_parameter(
     tau_p,
     M,
     is_low_path,
+    x_min,
     maxiter,
     atol,
     rtol,
@@ -153,31 +156,40 @@ def _find_path_parameter(
     is_elliptic = M > 0 or tau > tau_p
     tau_me = _compute_minimum_energy_time(sigma, M) if is_elliptic else None
 
+    # The region of the path parameter holding the solution is delimited by the
+    # minimum-energy orbit for direct transfers. If multiple revolutions are
+    # considered, it is the minimum time orbit the one splitting both paths
     if M == 0:
         x0 = -0.5 if is_elliptic and tau > tau_me else 0.5
+        x_split = 0.0
     else:
-        x0 = 0.5 if is_low_path else -0.5
+        x0 = 0.5 * (x_min + 1) if is_low_path else 0.5 * (x_min - 1)
+        x_split = x_min
 
     if is_elliptic:
-        return _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol)
+        return _solve_elliptic(sigma, tau, M, x0, x_split, maxiter, atol, rtol)
 
     return _solve_hyperbolic(sigma, tau, x0, maxiter, atol, rtol)
 
 
-def _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic(sigma, tau, M, x0, x_split, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation."""
     x, y, numiter, needs_fallback = _solve_elliptic_jit(
         sigma, tau, M, x0, maxiter, atol, rtol
     )
-    if needs_fallback:
-        return _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol)
+    # The iteration may have converged to the root of the other path
+    is_other_path = M > 0 and (x < x_split) != (x0 < x_split)
+    if needs_fallback or is_other_path:
+        return _solve_elliptic_bracketed(
+            sigma, tau, M, x0, x_split, maxiter, atol, rtol
+        )
     return x, y, numiter
 
 
-def _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic_bracketed(sigma, tau, M, x0, x_split, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation with Der's path-region bounds."""
     eps = 2.220446049250313e-16
-    lower, upper = (-1 + eps, 0.0) if x0 < 0 else (0.0, 1 - eps)
+    lower, upper = (-1 + eps, x_split) if x0 < x_split else (x_split, 1 - eps)
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
@@ -462,7 +474,10 @@ def _compute_minimum_energy_time(sigma, M):
 
 
 def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
-    """Compute the normalized minimum time for a multirevolution transfer."""
+    """Compute the minimum time orbit for a multirevolution transfer.
+
+    Returns its path parameter and its normalized time of flight.
+    """
 
     def minimum_time_equation(x):
         """Evaluate Der's minimum-time equation."""
@@ -481,8 +496,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
     except ValueError:
         x = 0.1
     else:
-        y = _compute_y(sigma, x)
-        return 2 * (1 / x - sigma**3 / y) / 3
+        return x, _tof_elliptic(sigma, x, _compute_y(sigma, x), M)
 
     for _ in range(maxiter):
         y = _compute_y(sigma, x)
@@ -490,7 +504,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         dphi = 2 * (1 - x**2) * (1 - sigma**5 * x**3 / y**3) / (3 * x**2)
 
         if np.abs(phi) <= atol + rtol * M * np.pi:
-            return 2 * (1 / x - sigma**3 / y) / 3
+            return x, _tof_elliptic(sigma, x, y, M)
 
         x -= phi / dphi
         x = np.clip(x, 2.220446049250313e-16, 0.999999)
-- 
2.43.0


From b5c40a6a40a833dc6cafe43e2d0730f8a1a56d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 09/63] fix: prograde and retrograde transfers were the same
 one for polar orbits

Both senses of motion selected the long way transfer, contrary to izzo2015 and
thorne2004, which consider polar orbits to be prograde ones.
---
 src/lamberthub/utils/angles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 3a1318a..103a187 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -51,7 +51,7 @@ def get_transfer_angle(r1, r2, is_prograde):
 
     # Fix the value of theta if necessary
     if is_prograde is True:
-        dtheta = theta0 if alpha > 0 else 2 * np.pi - theta0
+        dtheta = theta0 if alpha >= 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
 
@@ -90,7 +90,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
     if is_prograde is True:
-        i_h = i_h if alpha > 0 else -i_h
+        i_h = i_h if alpha >= 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
 
-- 
2.43.0


From 413540cc43719e5e752ec1962ad0e034ed446035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 10/63] fix: boolean flags were ignored if not being the True
 and False singletons

NumPy booleans, for example, silently selected the opposite sense of motion,
the opposite path or no full output.
---
 src/lamberthub/ecc_solvers/avanzini.py        | 2 +-
 src/lamberthub/p_solvers/battin.py            | 2 +-
 src/lamberthub/p_solvers/gauss.py             | 2 +-
 src/lamberthub/p_solvers/jiang.py             | 2 +-
 src/lamberthub/p_solvers/pan.py               | 2 +-
 src/lamberthub/regularization/delatorre.py    | 2 +-
 src/lamberthub/series_solvers/thorne.py       | 6 +++---
 src/lamberthub/universal_solvers/arora.py     | 4 ++--
 src/lamberthub/universal_solvers/der.py       | 2 +-
 src/lamberthub/universal_solvers/gooding.py   | 4 ++--
 src/lamberthub/universal_solvers/izzo.py      | 4 ++--
 src/lamberthub/universal_solvers/mcelreath.py | 2 +-
 src/lamberthub/universal_solvers/negrete.py   | 2 +-
 src/lamberthub/universal_solvers/vallado.py   | 2 +-
 src/lamberthub/utils/angles.py                | 4 ++--
 15 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 23dda8e..3668721 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -139,7 +139,7 @@ def avanzini2008(
     # Compute the velocity vectors from the classic orbital elements
     (_, v1), (_, v2) = [coe2rv(mu, p, ecc, inc, raan, argp, nu) for nu in [nu_1, nu_2]]
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True)
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 17cea71..ee4497a 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -157,7 +157,7 @@ def battin1984(
     v1 = -r11 * (s11 * (r1 - r2) - t11 * r1 / r1_norm)
     v2 = -r11 * (s11 * (r1 - r2) + t11 * r2 / r2_norm)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 05a9baa..08a86e1 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -161,7 +161,7 @@ def gauss1809(
     v1 = (r2 - f * r1) / g
     v2 = f_dot * r1 + g_dot * v1
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index f754adc..3e3c2d4 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -122,7 +122,7 @@ def jiang2016(
         tpi = 0.0
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, theta, p)
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 42a1b4a..534b93b 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -140,7 +140,7 @@ def pan2016(
     elements = _elements_at_omega(geometry, omega)
     v1, v2 = _reconstruct_velocities(mu, geometry, elements)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _get_planar_geometry(r1, r2, theta, is_prograde):
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index f176ad6..54a9abf 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -97,7 +97,7 @@ def delatorre2018(
     tac = time.perf_counter()
     tpi = (tac - tic) / numiter
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _find_z(P, Q, mu, tof, M, is_low_path, maxiter, atol, rtol):
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index daa81ec..8e48cb1 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -114,7 +114,7 @@ def thorne2004(
     y = get_y_from_x(x, r1, r2, semiperimeter, c_norm, is_prograde)
     v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, is_prograde)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def get_parabolic_tof(mu, s, c, mp):
@@ -304,7 +304,7 @@ def get_lambda(r1, r2, s, c, is_prograde):
     if i_h[2] < 0:
         ll = -ll
 
-    return -ll if is_prograde is False else ll
+    return ll if is_prograde else -ll
 
 
 def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
@@ -321,7 +321,7 @@ def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
     else:
         i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
 
-    if is_prograde is False:
+    if not is_prograde:
         ll, i_t1, i_t2 = -ll, -i_t1, -i_t2
 
     gamma = np.sqrt(mu * s / 2)
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 447ef50..b0d3b08 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -323,7 +323,7 @@ def arora2013(
     v1 = (r2_hat - f * r1_hat) / g * (L_ref / T_ref)
     v2 = (g_dot * r2_hat - r1_hat) / g * (L_ref / T_ref)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 def _get_multirev_k_guess(tof, tau, S, M, is_low_path, atol, rtol):
@@ -392,7 +392,7 @@ def _get_multirev_k_guess(tof, tau, S, M, is_low_path, atol, rtol):
     if abs(tof - tof_min) <= atol:
         return k_min
 
-    lower, upper = (k_min, k_right) if is_low_path is True else (k_left, k_min)
+    lower, upper = (k_min, k_right) if is_low_path else (k_left, k_min)
     return brentq(
         lambda k: tof_at(k) - tof,
         lower,
diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index a8923f5..9df0bd5 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -117,7 +117,7 @@ def der2011(
 
     v1, v2 = _reconstruct_velocities(mu, r1, r2, r1_norm, r2_norm, c_norm, m, n, x, y)
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 5d5a76a..1ad1f34 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -134,7 +134,7 @@ def gooding1990(
     v1 = vr1 * i_r1 + vt1 * i_t1
     v2 = vr2 * i_r2 + vt2 * i_t2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
@@ -660,7 +660,7 @@ def vlamb(
 
     # Filter the solution
     if n_sol > 1:
-        if is_low_path is True:
+        if is_low_path:
             x_sol = np.max([x1_sol, x2_sol])
         else:
             x_sol = np.min([x1_sol, x2_sol])
diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0e293b8..beeffe8 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -106,7 +106,7 @@ def izzo2015(
 
     # Correct transfer angle parameter and tangential vectors regarding orbit's
     # inclination
-    ll, i_t1, i_t2 = (-ll, -i_t1, -i_t2) if is_prograde is False else (ll, i_t1, i_t2)
+    ll, i_t1, i_t2 = (ll, i_t1, i_t2) if is_prograde else (-ll, -i_t1, -i_t2)
 
     # Non dimensional time of flight
     T = np.sqrt(2 * mu / s**3) * tof
@@ -287,7 +287,7 @@ def _initial_guess(T, ll, M, is_low_path):
         # Filter out the solution
         x_0 = (
             np.max(np.array([x_0l, x_0r]))
-            if is_low_path is True
+            if is_low_path
             else np.min(np.array([x_0l, x_0r]))
         )
 
diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index d6f6010..bf30c26 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -117,7 +117,7 @@ def mcelreath2025(
     v1 = v_c * i_c + v_r * i_r1
     v2 = v_c * i_c - v_r * i_r2
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index dc51967..e2e8bbd 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -101,7 +101,7 @@ def negrete2024(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 344f24f..bf2d3db 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -142,7 +142,7 @@ def vallado2013(
     v1 = (r2 - f * r1) / g
     v2 = (gdot * r2 - r1) / g
 
-    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 103a187..e6df9b9 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -50,7 +50,7 @@ def get_transfer_angle(r1, r2, is_prograde):
     theta0 = np.arccos(dot(r1, r2) / (r1_norm * r2_norm))
 
     # Fix the value of theta if necessary
-    if is_prograde is True:
+    if is_prograde:
         dtheta = theta0 if alpha >= 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
@@ -89,7 +89,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
 
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
-    if is_prograde is True:
+    if is_prograde:
         i_h = i_h if alpha >= 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
-- 
2.43.0


From 6bfb5394be124c3d669a4731d9d8c06568d5a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 11/63] fix: accuracy and domain of the transfer angle for
 almost collinear vectors

---
 src/lamberthub/utils/angles.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index e6df9b9..738b43f 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -44,10 +44,9 @@ def get_transfer_angle(r1, r2, is_prograde):
     # Compute the projection of the normal vector onto the reference plane.
     alpha = dot(K_AXIS, h)
 
-    # Get the minimum angle (0 <= dtheta <= pi) between r1 and r2.
-    r1_norm = norm(r1)
-    r2_norm = norm(r2)
-    theta0 = np.arccos(dot(r1, r2) / (r1_norm * r2_norm))
+    # Get the minimum angle (0 <= dtheta <= pi) between r1 and r2. The arctangent
+    # does not loose accuracy nor leaves its domain for almost collinear vectors.
+    theta0 = np.arctan2(norm(cross_r1r2), dot(r1, r2))
 
     # Fix the value of theta if necessary
     if is_prograde:
-- 
2.43.0


From 67d7655c4e20f4aeace27b39267c9e0740634bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 12/63] fix: overflow of the dot and cross products for integer
 vectors

---
 src/lamberthub/linalg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/linalg.py b/src/lamberthub/linalg.py
index 591521d..c4b7c65 100644
--- a/src/lamberthub/linalg.py
+++ b/src/lamberthub/linalg.py
@@ -26,7 +26,7 @@ def dot(v1, v2):
     this issue: https://github.com/numba/numba/issues/8676
 
     """
-    return v1[0] * v2[0] + v1[1] * v2[1] + v1[2] * v2[2]
+    return 1.0 * v1[0] * v2[0] + 1.0 * v1[1] * v2[1] + 1.0 * v1[2] * v2[2]
 
 
 @jit(cache=True, fastmath=True)
@@ -46,7 +46,7 @@ def cross(v1, v2):
         Resultant vector of the cross product between the two vectors.
 
     """
-    return np.cross(v1, v2)
+    return np.cross(1.0 * v1, 1.0 * v2)
 
 
 @jit(cache=True, fastmath=True)
-- 
2.43.0


From 705c9bae10694943bce628975c3cf2d2b88f2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 13/63] fix: inclination of retrograde orbits coplanar with the
 fundamental plane

---
 src/lamberthub/utils/angles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 738b43f..d091c8c 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -126,7 +126,7 @@ def get_orbit_inc_and_raan_from_position_vectors(r1, r2, is_prograde):
     # If the orbit is coplanar with fundamental plane, neither inc or raan are
     # defined. TODO: use atol and rtol instead of pure floating zero comparison
     if i_h[0] == 0 and i_h[1] == 0:
-        inc, raan = 0, 0
+        inc, raan = (0.0, 0.0) if i_h[2] > 0 else (np.pi, 0.0)
     else:
         # Inclination is always bounded between [0, pi], so no correction is
         # needed
-- 
2.43.0


From 5c090a79423037952d8fc847fd5586aab6838956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:45 +0000
Subject: [PATCH 14/63] fix: argument of periapsis of equatorial orbits in
 avanzini2008

---
 src/lamberthub/ecc_solvers/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index b44ec73..401f0bd 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -512,7 +512,7 @@ def coe_at_eccT(ecc_T, r1, r2, sense):
     inc, raan = get_orbit_inc_and_raan_from_position_vectors(r1, r2, sense)
 
     # Get a vector in the direction of the line of nodes
-    n = np.cross(np.array([0, 0, 1]), i_h)
+    n = np.array([np.cos(raan), np.sin(raan), 0.0])
     px = r1.dot(n)
     py = r1.dot(cross(i_h, n)) / norm(i_h)
     argp = (np.arctan2(py, px) - nu_1) % (2 * np.pi)
-- 
2.43.0


From bd7f597fc6c3bff0e8bdb4ec7cc2524736b7b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 15/63] fix: readjustment of psi in vallado2013

The sum of the position norms is required instead of their product.
---
 src/lamberthub/universal_solvers/vallado.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index bf2d3db..809763f 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -113,7 +113,7 @@ def vallado2013(
                 psi = (
                     0.8
                     * (1.0 / c3(psi))
-                    * (1.0 - (r1_norm * r2_norm) * np.sqrt(c2(psi)) / A)
+                    * (1.0 - (r1_norm + r2_norm) * np.sqrt(c2(psi)) / A)
                 )
                 y = _y_at_psi(psi, r1_norm, r2_norm, A)
 
-- 
2.43.0


From 3ac7e74b07e10bb2a02966a6b27c98d3a2ac19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 16/63] fix: reject multiple revolutions in battin1984,
 gauss1809 and vallado2013

The direct transfer was silently returned.
---
 src/lamberthub/p_solvers/battin.py          | 6 ++++++
 src/lamberthub/p_solvers/gauss.py           | 6 ++++++
 src/lamberthub/universal_solvers/vallado.py | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index ee4497a..9c0933e 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -83,6 +83,12 @@ def battin1984(
     Technology).
 
     """
+    # Check proper value of multi-revolution
+    if M > 0:
+        raise ValueError(
+            "Battin is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 08a86e1..d6824f7 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -86,6 +86,12 @@ def gauss1809(
     Fundamentals of astrodynamics. Courier Dover Publications.
 
     """
+    # Check proper value of multi-revolution
+    if M > 0:
+        raise ValueError(
+            "Gauss is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 809763f..b12bf5e 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -86,6 +86,12 @@ def vallado2013(
     (Vol. 12). Springer Science & Business Media.
 
     """
+    # Check proper value of multi-revolution
+    if M > 0:
+        raise ValueError(
+            "Vallado is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
-- 
2.43.0


From b5a84933fc0ae5708197b39f1a4ada0a450f98fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:26 +0000
Subject: [PATCH 17/63] fix: final position vector was never validated

---
 src/lamberthub/utils/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 8b78fbe..7cff373 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -87,7 +87,7 @@ def assert_position_vectors_are_valid(r1, r2):
     """
     # Check if position vectors have proper dimensions
     for r in [r1, r2]:
-        assert_position_vector_is_valid(r1)
+        assert_position_vector_is_valid(r)
 
     # Check both vectors are different
     if np.all(np.equal(r1, r2)):
-- 
2.43.0


From 06436549a3bc53e1a44c4ed15360a850d9ed5776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:29 +0000
Subject: [PATCH 18/63] fix: endless loop in jiang2016 near the minimum energy
 transfer

The bracket for the semi-major axis did not include the minimum energy one, so
transfer times close to its time of flight were never enclosed.
---
 src/lamberthub/p_solvers/jiang.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 3e3c2d4..6b05c12 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -319,8 +319,7 @@ def _find_and_solve_elliptic(
     Combines bracket expansion and the Newton-bisection iteration into a single
     JIT-compiled function, removing all Python closure overhead.
     """
-    eps = 1.4901161193847656e-08
-    lower = a_min * (1 + eps)
+    lower = a_min
     upper = max(2 * lower, 1.0)
 
     f_lower = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
@@ -459,8 +458,7 @@ def _get_elliptic_bracket(mu, tof, a_min, s, c, theta, long_period):
     dynamic upper bound so the solver is scale independent.
 
     """
-    eps = 1.4901161193847656e-08
-    lower = a_min * (1 + eps)
+    lower = a_min
     upper = max(2 * lower, 1.0)
 
     def residual(axis):
-- 
2.43.0


From d0dd52370c1d5d9b59266113f87e616655b62fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:11 +0000
Subject: [PATCH 19/63] fix: izzo2015 neither validated its input nor supported
 full_output

The validation was commented out, so that invalid input produced NaN or
zeros. The full_output argument documented for every solver was missing.
---
 src/lamberthub/universal_solvers/izzo.py | 48 +++++++++++++++++++-----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index beeffe8..0c70ec9 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -1,13 +1,20 @@
 """A module hosting all algorithms devised by Izzo"""
 
+import time
+
 from numba import njit as jit
 import numpy as np
 from numpy import cross, pi
 
 from lamberthub.linalg import norm
+from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
-@jit(cache=True, fastmath=True)
 def izzo2015(
     mu,
     r1,
@@ -19,6 +26,7 @@ def izzo2015(
     maxiter=35,
     atol=1e-5,
     rtol=1e-7,
+    full_output=False,
 ):
     r"""
     Solves Lambert problem using Izzo's devised algorithm.
@@ -43,6 +51,8 @@ def izzo2015(
         Absolute tolerance.
     rtol: float
         Relative tolerance.
+    full_output: bool
+        If True, the number of iterations is also returned.
 
     Returns
     -------
@@ -50,8 +60,10 @@ def izzo2015(
         Initial velocity vector.
     v2: numpy.array
         Final velocity vector.
-    numiter: list
+    numiter: int
         Number of iterations.
+    tpi: float
+        Time per iteration in seconds.
 
     Notes
     -----
@@ -80,8 +92,26 @@ def izzo2015(
 
     """
     # Check that input parameters are safe
-    # assert_parameters_are_valid(mu, r1, r2, tof, M)
+    assert_parameters_are_valid(mu, r1, r2, tof, M)
+
+    # The orbital plane is not defined if the position vectors are collinear
+    dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
+
+    # Solve the problem and measure the time per iteration
+    tic = time.perf_counter() if full_output else 0.0
+    v1, v2, numiter = _izzo2015(
+        mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol
+    )
+    tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
+
+    return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
+
+@jit(cache=True, fastmath=True)
+def _izzo2015(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol):
+    """Solves for the velocity vectors and the number of iterations."""
     # Chord
     c = r2 - r1
     c_norm, r1_norm, r2_norm = norm(c), norm(r1), norm(r2)
@@ -112,7 +142,7 @@ def izzo2015(
     T = np.sqrt(2 * mu / s**3) * tof
 
     # Find solutions and filter them
-    x, y = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
+    x, y, numiter = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
 
     # Reconstruct
     gamma = np.sqrt(mu * s / 2)
@@ -126,7 +156,7 @@ def izzo2015(
     # Solve for the initial and final velocity
     v1 = V_r1 * (r1 / r1_norm) + V_t1 * i_t1
     v2 = V_r2 * (r2 / r2_norm) + V_t2 * i_t2
-    return v1, v2
+    return v1, v2, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -163,10 +193,10 @@ def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
     x_0 = _initial_guess(T, ll, M, is_low_path)
 
     # Start Householder iterations from x_0 and find x, y
-    x = _householder(x_0, T, ll, M, atol, rtol, maxiter)
+    x, numiter = _householder(x_0, T, ll, M, atol, rtol, maxiter)
     y = _compute_y(x, ll)
 
-    return x, y
+    return x, y, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -332,7 +362,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
     this module and is not really reusable.
 
     """
-    for _ in range(1, maxiter + 1):
+    for numiter in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
@@ -347,7 +377,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         )
 
         if abs(p - p0) < rtol * np.abs(p0) + atol:
-            return p
+            return p, numiter
         p0 = p
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From f1266d8b518864f4b59642167197004d23f60921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 20/63] fix: minimum time of flight of multi-revolution
 transfers in izzo2015

The time of flight was frozen at the one of the initial guess during the
Halley iteration, so the stationary point was not the minimum and feasible
transfers slightly above the minimum time were rejected.
---
 src/lamberthub/universal_solvers/izzo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0c70ec9..3a5b116 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -278,8 +278,7 @@ def _compute_T_min(ll, M, maxiter, atol, rtol):
         else:
             # Set x_i > 0 to avoid problems at ll = -1
             x_i = 0.1
-            T_i = _tof_equation(x_i, 0.0, ll, M)
-            x_T_min = _halley(x_i, T_i, ll, atol, rtol, maxiter)
+            x_T_min = _halley(x_i, ll, M, atol, rtol, maxiter)
             T_min = _tof_equation(x_T_min, 0.0, ll, M)
 
     return [x_T_min, T_min]
@@ -325,7 +324,7 @@ def _initial_guess(T, ll, M, is_low_path):
 
 
 @jit(cache=True, fastmath=True)
-def _halley(p0, T0, ll, atol, rtol, maxiter):
+def _halley(p0, ll, M, atol, rtol, maxiter):
     """Find a minimum of time of flight equation using the Halley method.
 
     Note
@@ -336,6 +335,7 @@ def _halley(p0, T0, ll, atol, rtol, maxiter):
     """
     for _ in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
+        T0 = _tof_equation_y(p0, y, 0.0, ll, M)
         fder = _tof_equation_p(p0, y, T0, ll)
         fder2 = _tof_equation_p2(p0, y, T0, fder, ll)
         if fder2 == 0:
-- 
2.43.0


From 9b49a1da2441243170247eb8d623d2b738da4781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 21/63] fix: iteration limit and minimum time exit of
 multi-revolutions in gooding1990

---
 src/lamberthub/universal_solvers/gooding.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 1ad1f34..caffb6b 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -448,9 +448,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # desired range
             if np.abs(xmold - xm) < rtol * np.abs(xmold) + atol:
                 break
-
-        # Check last
-        if (numiter + 1) == maxiter:
+        else:
             raise ValueError("Exceeded max iterations!")
 
         # Now proceed from T(min) to full starter
@@ -464,7 +462,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # Found minimum time condition
             x = xm
             n = 1
-            return n, x, None, numiter
+            return n, x, xpl, numiter, 0.0
 
         else:
             n = 3
-- 
2.43.0


From 4cb8b46f4178bab3d72b1192be7b33caa96d379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 22/63] fix: gooding1990 returned not converged solutions and
 divided by zero

The transfers of minimum energy (x = 0) raised a ZeroDivisionError and those
exhausting the number of iterations were returned as if they were right.
---
 src/lamberthub/universal_solvers/gooding.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index caffb6b..81c4c79 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -549,7 +549,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
 def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
     """Run the Halley iteration for the independent variable in Gooding's method.
 
-    Returns (x, numiter) once convergence is reached or maxiter is exhausted.
+    Returns (x, numiter) once convergence is reached.
     """
     xold = x
     for numiter in range(1, maxiter + 1):
@@ -560,11 +560,12 @@ def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
             xold = x
             x = x + t * dt / (dt * dt + t * d2t / 2.0)
 
-        x_atol, x_rtol = np.abs(x - xold), np.abs(x / xold - 1)
-        if x_atol <= atol and x_rtol <= rtol:
+        # The solution may be x = 0, so the relative error cannot be a quotient
+        x_err = np.abs(x - xold)
+        if x_err <= atol and x_err <= rtol * max(np.abs(xold), 1.0):
             return x, numiter
 
-    return x, maxiter
+    raise ValueError("Exceeded max iterations!")
 
 
 def vlamb(
-- 
2.43.0


From 7f7cc19fc6a9b4c16ed5f842a5cc8cd4977966fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 23/63] fix: solvers returned NaN for collinear position
 vectors

The orbital plane is not defined if the position vectors are collinear. The
failure was only reported by some of the solvers.
---
 src/lamberthub/ecc_solvers/utils.py         | 6 +++++-
 src/lamberthub/p_solvers/battin.py          | 6 +++++-
 src/lamberthub/regularization/delatorre.py  | 8 +++++++-
 src/lamberthub/series_solvers/thorne.py     | 8 +++++++-
 src/lamberthub/universal_solvers/arora.py   | 2 ++
 src/lamberthub/universal_solvers/gooding.py | 4 +++-
 6 files changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index 401f0bd..a47f619 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -26,7 +26,10 @@ from lamberthub.utils.angles import (
     get_orbit_normal_vector,
     get_transfer_angle,
 )
-from lamberthub.utils.assertions import assert_transfer_angle_not_zero
+from lamberthub.utils.assertions import (
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 from lamberthub.utils.kepler import kepler_from_nu
 
 
@@ -63,6 +66,7 @@ def get_geometry(r1, r2, is_prograde):
     # Compute angles
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     w_c = get_transfer_angle(r1, (r2 - r1), is_prograde)
 
     return r1_norm, r2_norm, c_norm, dtheta, w_c
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 9c0933e..9d1dd06 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -6,7 +6,10 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+)
 
 
 def battin1984(
@@ -96,6 +99,7 @@ def battin1984(
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     semiperimeter = (r1_norm + r2_norm + c_norm) / 2
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Compute the auxiliary lambda parameter. The variable _lambda is used here
     # as lambda is a reserved keyword in Python for declaring inline functions.
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index 54a9abf..813f5b7 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -6,7 +6,11 @@ import time
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def delatorre2018(
@@ -78,6 +82,8 @@ def delatorre2018(
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     P = r1_norm + r2_norm
     Q = 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 8e48cb1..125cab8 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -8,7 +8,11 @@ from scipy.special import factorial, poch
 
 from lamberthub.linalg import cross, norm
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def thorne2004(
@@ -97,6 +101,8 @@ def thorne2004(
 
     # Compute the cosine of the transfer angle and check
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Thorne uses the upper sign for transfers greater than 180 degrees and the
     # lower sign for transfers lower than 180 degrees in equations (1)-(5).
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index b0d3b08..74c44cb 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -10,6 +10,7 @@ from scipy.optimize import brentq, minimize_scalar
 from lamberthub.utils.angles import get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -93,6 +94,7 @@ def arora2013(
     # Compute the transfer angle and the transfer angle parameter
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     d = 1 if dtheta <= np.pi else -1
 
     # Compute the characteristic length and time variables
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 81c4c79..3182e35 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -9,6 +9,7 @@ from numpy.linalg import norm
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -102,9 +103,10 @@ def gooding1990(
     i_r1, i_r2 = [r / r_norm for r, r_norm in zip([r1, r2], [r1_norm, r2_norm])]
 
     # Compute the real transfer angle according to sense of motion. Raise an
-    # exception its value is found to be the zero.
+    # exception if its value is found to be zero or 180 degrees.
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
+    assert_transfer_angle_not_pi(theta)
 
     # Include additional revolutions if necessary.
     dtheta = 2.0 * np.pi * M + theta
-- 
2.43.0


From 92677d1ef3964093c4c1c3fe19ec4f52be05e1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 24/63] fix: minimum energy and almost parabolic transfers in
 thorne2004

The lower bound of the semi-major axis excluded the transfers close to the
minimum energy one. The parabola was detected by an absolute tolerance, so
that the outcome depended on the system of units.
---
 src/lamberthub/series_solvers/thorne.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 125cab8..1caf661 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -215,9 +215,12 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
         Number of iterations performed by the scalar solver.
 
     """
-    if np.isclose(tof, t_p, atol=atol, rtol=rtol):
+    if np.isclose(tof, t_p, atol=0.0, rtol=rtol):
         return np.inf, "P", 1
 
+    if np.isclose(tof, t_min, atol=0.0, rtol=4 * np.finfo(float).eps):
+        return s / 2, "A", 1
+
     if tof < t_p:
         branch = "H"
         lower = -s / 2
@@ -225,11 +228,11 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
         lower = expand_lower_hyperbolic_bound(mu, s, c, tof, mp, lower)
     elif tof < t_min:
         branch = "A"
-        lower = s / 2 * (1 + np.finfo(float).eps)
+        lower = s / 2
         upper = expand_upper_elliptic_bound(mu, s, c, tof, mp, branch, s)
     else:
         branch = "B"
-        lower = s / 2 * (1 + np.finfo(float).eps)
+        lower = s / 2
         upper = expand_upper_elliptic_bound(mu, s, c, tof, mp, branch, s)
 
     def f(a):
-- 
2.43.0


From cf0f319fb0f1e7d7f3e02fbc1779f3081717aa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:41 +0000
Subject: [PATCH 25/63] fix: accuracy of thorne2004 depended on the system of
 units

The semi-major axis has dimensions, so an absolute tolerance is meaningless
for small length units. It is now bounded by the relative one.
---
 src/lamberthub/series_solvers/thorne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 1caf661..f8062bc 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -240,7 +240,7 @@ def get_semimajor_axis(mu, s, c, tof, t_p, t_min, mp, maxiter, atol, rtol):
         return lagrange_tof(mu, s, c, a, mp, branch) - tof
 
     a, r = brentq(
-        f, lower, upper, xtol=atol, rtol=rtol, maxiter=maxiter, full_output=True
+        f, lower, upper, xtol=min(atol, rtol * s), rtol=rtol, maxiter=maxiter, full_output=True
     )
     if r.converged is False:
         raise ValueError("Exceeded maximum number of iterations!")
-- 
2.43.0


From de0c203c110a7eb6519f26a219fdaad7f5e7e458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 26/63] fix: accuracy of jiang2016 depended on the system of
 units

Times of flight were compared against an absolute tolerance and the bounds and
steps of the semi-major axis against the unit length, so that wrong velocities
were silently returned for small units of time or distance.
---
 src/lamberthub/p_solvers/jiang.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 6b05c12..fcfc422 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -98,7 +98,11 @@ def jiang2016(
     tof_parabolic = _tof_parabolic(mu, s, c, theta)
 
     tic = time.perf_counter() if full_output else 0.0
-    if np.isclose(tof, tof_parabolic, rtol=rtol, atol=atol):
+    # The residuals have units of time, so an absolute tolerance is meaningless for
+    # small ones unless it is bounded by the relative one.
+    atol = min(atol, rtol * tof)
+
+    if np.isclose(tof, tof_parabolic, rtol=rtol, atol=0.0):
         p = _parabolic_p(r1_norm, r2_norm, c, s, theta)
         numiter = 0
     elif tof > tof_parabolic:
@@ -320,7 +324,7 @@ def _find_and_solve_elliptic(
     JIT-compiled function, removing all Python closure overhead.
     """
     lower = a_min
-    upper = max(2 * lower, 1.0)
+    upper = 2 * lower
 
     f_lower = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
     f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
@@ -342,7 +346,7 @@ def _find_and_solve_elliptic(
             lower = x
             f_lower_iter = f_x
 
-        step = 1.4901161193847656e-08 * max(1.0, np.abs(x))
+        step = 1.4901161193847656e-08 * np.abs(x)
         x_minus = max(lower, x - step)
         x_plus = min(upper, x + step)
         if x_plus != x_minus:
@@ -359,7 +363,7 @@ def _find_and_solve_elliptic(
 
         f_new = _tof_elliptic(mu, x_new, s, c, theta, long_period) - tof
         if np.abs(f_new) <= atol or (
-            np.abs(x_new - x) <= atol + rtol * np.abs(x_new)
+            np.abs(x_new - x) <= rtol * np.abs(x_new)
             and np.abs(f_new) <= np.abs(f_x)
         ):
             return x_new, numiter
@@ -377,8 +381,8 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
     JIT-compiled function, removing all Python closure overhead.
     """
     eps = 1.4901161193847656e-08
-    lower = -max(s, c, 1.0)
-    upper = -eps * max(s, c, 1.0)
+    lower = -max(s, c)
+    upper = -eps * max(s, c)
 
     while (_tof_hyperbolic(mu, lower, s, c, theta) - tof) < 0:
         lower *= 2
@@ -397,7 +401,7 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
             lower = x
             f_lower_iter = f_x
 
-        step = 1.4901161193847656e-08 * max(1.0, np.abs(x))
+        step = 1.4901161193847656e-08 * np.abs(x)
         x_minus = max(lower, x - step)
         x_plus = min(upper, x + step)
         if x_plus != x_minus:
@@ -414,7 +418,7 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
 
         f_new = _tof_hyperbolic(mu, x_new, s, c, theta) - tof
         if np.abs(f_new) <= atol or (
-            np.abs(x_new - x) <= atol + rtol * np.abs(x_new)
+            np.abs(x_new - x) <= rtol * np.abs(x_new)
             and np.abs(f_new) <= np.abs(f_x)
         ):
             return x_new, numiter
@@ -459,7 +463,7 @@ def _get_elliptic_bracket(mu, tof, a_min, s, c, theta, long_period):
 
     """
     lower = a_min
-    upper = max(2 * lower, 1.0)
+    upper = 2 * lower
 
     def residual(axis):
         """Evaluate the elliptic time-of-flight residual at ``axis``."""
@@ -502,8 +506,8 @@ def _get_hyperbolic_bracket(mu, tof, s, c, theta):
 
     """
     eps = 1.4901161193847656e-08
-    lower = -max(s, c, 1.0)
-    upper = -eps * max(s, c, 1.0)
+    lower = -max(s, c)
+    upper = -eps * max(s, c)
 
     def residual(axis):
         """Evaluate the hyperbolic time-of-flight residual at ``axis``."""
@@ -569,7 +573,7 @@ def _solve_semimajor_axis(function, lower, upper, maxiter, atol, rtol):
 
         f_new = function(x_new)
         if np.abs(f_new) <= atol or (
-            np.abs(x_new - x) <= atol + rtol * np.abs(x_new)
+            np.abs(x_new - x) <= rtol * np.abs(x_new)
             and np.abs(f_new) <= np.abs(f_x)
         ):
             return x_new, numiter
@@ -599,7 +603,7 @@ def _numerical_derivative(function, x, lower, upper):
         Centered finite-difference derivative clipped to the active bracket.
 
     """
-    step = 1.4901161193847656e-08 * max(1.0, np.abs(x))
+    step = 1.4901161193847656e-08 * np.abs(x)
     x_minus = max(lower, x - step)
     x_plus = min(upper, x + step)
 
-- 
2.43.0


From be8e5a26db3db7b1e81b00148e4b11905232b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 27/63] fix: cancellation of the Stumpff functions in
 delatorre2018

The closed form of the functions looses its accuracy well before the switch to
the series, so almost parabolic transfers did not converge.
---
 src/lamberthub/regularization/delatorre.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index 813f5b7..a692538 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -244,19 +244,19 @@ def _tof_equation_y(P, Q, mu, z, M):
 
 def _stumpff0(z):
     """Evaluate the zeroth Stumpff function."""
-    if z > 1e-8:
+    if z > 1.0:
         return np.cos(np.sqrt(z))
-    if z < -1e-8:
+    if z < -1.0:
         return np.cosh(np.sqrt(-z))
     return _stumpff(0, z)
 
 
 def _stumpff1(z):
     """Evaluate the first Stumpff function."""
-    if z > 1e-8:
+    if z > 1.0:
         sqrt_z = np.sqrt(z)
         return np.sin(sqrt_z) / sqrt_z
-    if z < -1e-8:
+    if z < -1.0:
         sqrt_neg_z = np.sqrt(-z)
         return np.sinh(sqrt_neg_z) / sqrt_neg_z
     return _stumpff(1, z)
@@ -264,19 +264,19 @@ def _stumpff1(z):
 
 def _stumpff2(z):
     """Evaluate the second Stumpff function."""
-    if z > 1e-8:
+    if z > 1.0:
         return (1 - np.cos(np.sqrt(z))) / z
-    if z < -1e-8:
+    if z < -1.0:
         return (np.cosh(np.sqrt(-z)) - 1) / (-z)
     return _stumpff(2, z)
 
 
 def _stumpff3(z):
     """Evaluate the third Stumpff function."""
-    if z > 1e-8:
+    if z > 1.0:
         sqrt_z = np.sqrt(z)
         return (sqrt_z - np.sin(sqrt_z)) / (z * sqrt_z)
-    if z < -1e-8:
+    if z < -1.0:
         sqrt_neg_z = np.sqrt(-z)
         return (np.sinh(sqrt_neg_z) - sqrt_neg_z) / (-z * sqrt_neg_z)
     return _stumpff(3, z)
-- 
2.43.0


From 4a7c6537ada9b233f439a5c0d7b39ee72ca5b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 28/63] fix: absolute tolerances of delatorre2018 and
 mcelreath2025 for small units

Wrong velocities were silently returned if the time of flight was comparable
to the absolute tolerance in the chosen system of units.
---
 src/lamberthub/regularization/delatorre.py    | 4 ++++
 src/lamberthub/universal_solvers/mcelreath.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index a692538..c1abd4b 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -88,6 +88,10 @@ def delatorre2018(
     P = r1_norm + r2_norm
     Q = 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
 
+    # The residual has units of time, so the absolute tolerance is meaningless if
+    # the characteristic time of the problem is a small fraction of the unit.
+    atol = atol * min(1.0, np.sqrt(P**3 / mu))
+
     z, numiter = _find_z(P, Q, mu, tof, M, is_low_path, maxiter, atol, rtol)
 
     V = P - Q * _stumpff0(z)
diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index bf30c26..9fb7027 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -90,6 +90,10 @@ def mcelreath2025(
     m = (-1) ** M * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
     tof = np.sqrt(mu) * tof
 
+    # The residual is not dimensionless, so the absolute tolerance is meaningless if
+    # the characteristic time of the problem is a small fraction of the unit.
+    atol = atol * min(1.0, (r1_norm + r2_norm) ** 1.5)
+
     tic = time.perf_counter() if full_output else 0.0
     x, numiter = _find_x(
         tof, r1_norm, r2_norm, m, dtheta, M, is_low_path, maxiter, atol, rtol
-- 
2.43.0


From 4b0852a8ff68596fd891a96c75443a7184f40707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 29/63] fix: convergence criteria of pan2016

The iteration stopped because of short steps far from the root, because of the
units of the time of flight or at a discontinuity of the first bracket, so that
velocities not solving the problem were returned.
---
 src/lamberthub/p_solvers/pan.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 534b93b..47170d1 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -94,7 +94,7 @@ def pan2016(
     assert_transfer_angle_not_zero(theta)
     assert_transfer_angle_not_pi(theta)
 
-    if np.isclose(norm(r1), norm(r2), rtol=1e-8, atol=atol):
+    if np.isclose(norm(r1), norm(r2), rtol=1e-5, atol=0.0):
         return vallado2013(
             mu,
             r1,
@@ -177,14 +177,24 @@ def _find_argument_of_periapsis(mu, geometry, tof, maxiter, atol, rtol):
     if not brackets:
         raise ValueError("No feasible solution, try lower M!")
 
-    omega_low, omega_high = brackets[0]
-
     def residual(omega):
         """Evaluate the transfer-time residual for the current bracket."""
         return _tof_at_omega(mu, geometry, omega) - tof
 
-    omega, numiter = _bezier_root(residual, omega_low, omega_high, maxiter, atol, rtol)
-    return omega, numiter
+    # The residual has units of time, so its absolute tolerance is bounded by the
+    # relative one. Brackets may hold a discontinuity instead of a root.
+    atol = min(atol, rtol * tof)
+    for omega_low, omega_high in brackets:
+        try:
+            omega, numiter = _bezier_root(
+                residual, omega_low, omega_high, maxiter, atol, rtol
+            )
+        except ValueError:
+            continue
+        if np.abs(residual(omega)) <= atol:
+            return omega, numiter
+
+    raise ValueError("No feasible solution, try lower M!")
 
 
 def _get_omega_brackets(mu, geometry, tof):
@@ -217,7 +227,6 @@ def _safe_tof_residual(mu, geometry, omega, tof):
 
 def _bezier_root(function, lower, upper, maxiter, atol, rtol):
     """Solve a monotonic scalar equation with non-rational Bézier updates."""
-    previous = upper
     f_lower, f_upper = function(lower), function(upper)
 
     for numiter in range(1, maxiter + 1):
@@ -225,18 +234,16 @@ def _bezier_root(function, lower, upper, maxiter, atol, rtol):
         root = np.clip(root, lower, upper)
         f_root = function(root)
 
-        if np.abs(f_root) <= atol or np.abs(root - previous) <= atol + rtol * np.abs(
-            root
-        ):
+        if np.abs(f_root) <= atol:
             return root, numiter
 
-        previous = root
         if f_lower * f_root <= 0:
             upper, f_upper = root, f_root
         else:
             lower, f_lower = root, f_root
 
-    root = brentq(function, lower, upper, xtol=atol, rtol=rtol, maxiter=maxiter)
+    eps = np.finfo(float).eps
+    root = brentq(function, lower, upper, xtol=eps, rtol=4 * eps, maxiter=maxiter)
     return root, maxiter
 
 
-- 
2.43.0


From 272addd5feb88867badf9929844c084cf47431ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:43 +0000
Subject: [PATCH 30/63] fix: arora2013 did not report unfeasible
 multi-revolution transfers faster than the parabolic one

---
 src/lamberthub/universal_solvers/arora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 74c44cb..5051537 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -122,7 +122,7 @@ def arora2013(
     tof_p = S * np.sqrt(1 - np.sqrt(2) * tau) * (tau + np.sqrt(2)) / 3
 
     # Compare actual and parabolic TOF to generate the initial guess
-    if tof <= tof_p:
+    if M == 0 and tof <= tof_p:
         # The final orbit is expected to be hyperbolic. The initial guess is
         # determined by the formulae given by (TABLE 2) from official report.
         # Three regions, depending on the transfer angle are possible: one where
-- 
2.43.0


From 51aab5fa25599c5ceea14a6f11cb5c4ffbdbcd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 31/63] fix: backslashes in the benchmark report were taken as
 regular expression templates

---
 scripts/generate_benchmark_report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 73523d4..d165fb9 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -271,7 +271,7 @@ def update_readme(readme_path, section):
             rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
             flags=re.DOTALL,
         )
-        updated = pattern.sub(generated_content, content)
+        updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
 
-- 
2.43.0


From f9dc822e3e1f9ce66889e96b8208ffdf4082ad2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 32/63] fix: true anomaly of parabolic orbits in rv2coe

---
 src/lamberthub/utils/elements.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/lamberthub/utils/elements.py b/src/lamberthub/utils/elements.py
index a36e43f..0dddc53 100644
--- a/src/lamberthub/utils/elements.py
+++ b/src/lamberthub/utils/elements.py
@@ -20,7 +20,6 @@ import numpy as np
 from numpy import cos, cross, sin, sqrt
 
 from lamberthub.linalg import dot
-from lamberthub.utils.angles import E_to_nu, H_to_nu
 
 
 @jit(cache=True)
@@ -231,7 +230,6 @@ def rv2coe(k, r, v, tol=1e-8):
     h = cross(r, v)
     n = cross(np.array([0.0, 0.0, 1.0]), h)
     r_norm = sqrt(dot(r, r))
-    v_norm = sqrt(dot(v, v))
     h_norm = sqrt(dot(h, h))
     e = ((dot(v, v) - k / r_norm) * r - dot(r, v) * v) / k
     ecc = sqrt(dot(e, e))
@@ -255,17 +253,8 @@ def rv2coe(k, r, v, tol=1e-8):
         argp = 0
         nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude
     else:
-        a = p / (1 - (ecc**2))
-        ka = k * a
-        if a > 0:
-            e_se = dot(r, v) / sqrt(ka)
-            e_ce = r_norm * dot(v, v) / k - 1
-            nu = E_to_nu(np.arctan2(e_se, e_ce), ecc)
-        else:
-            e_sh = dot(r, v) / sqrt(-ka)
-            e_ch = r_norm * (v_norm**2) / k - 1
-            nu = H_to_nu(np.log((e_ch + e_sh) / (e_ch - e_sh)) / 2, ecc)
-
+        # Neither the eccentric nor the hyperbolic anomalies exist for parabolas
+        nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
         px = dot(r, n)
         py = dot(r, cross(h, n)) / h_norm
-- 
2.43.0


From f051b8cf6cbb63d8dfb5796a8e04d488c4ab2d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:33 +0000
Subject: [PATCH 33/63] fix: angular elements of retrograde equatorial orbits
 in rv2coe

---
 src/lamberthub/utils/elements.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/utils/elements.py b/src/lamberthub/utils/elements.py
index 0dddc53..53b5f87 100644
--- a/src/lamberthub/utils/elements.py
+++ b/src/lamberthub/utils/elements.py
@@ -237,11 +237,13 @@ def rv2coe(k, r, v, tol=1e-8):
     inc = np.arccos(h[2] / h_norm)
 
     circular = ecc < tol
-    equatorial = abs(inc) < tol
+    equatorial = abs(inc) < tol or abs(inc - np.pi) < tol
+    # Angles within the fundamental plane are measured in the sense of motion
+    sense = 1.0 if h[2] >= 0 else -1.0
 
     if equatorial and not circular:
         raan = 0
-        argp = np.arctan2(e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
+        argp = np.arctan2(sense * e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
         nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
     elif not equatorial and circular:
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
@@ -251,7 +253,7 @@ def rv2coe(k, r, v, tol=1e-8):
     elif equatorial and circular:
         raan = 0
         argp = 0
-        nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude
+        nu = np.arctan2(sense * r[1], r[0]) % (2 * np.pi)  # True longitude
     else:
         # Neither the eccentric nor the hyperbolic anomalies exist for parabolas
         nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
-- 
2.43.0


From bc9e5515af6b37e61a1b676c9554038b694ecc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 34/63] fix: negrete2024 returned solutions which do not
 satisfy the time of flight

---
 src/lamberthub/universal_solvers/negrete.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index e2e8bbd..e45750a 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -93,6 +93,15 @@ def negrete2024(
     z = _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol)
     tpi = (time.perf_counter() - tic) / (3 * numiter) if full_output else 0.0
 
+    # The contour integrals do not converge to a root if another one (or a
+    # singularity) is close to the contour
+    tof_error = abs(_tof_at_z(z, mu, r1_norm, r2_norm, A) - tof)
+    revs_are_valid = z < (2.0 * (M + 1) * np.pi) ** 2 and (
+        M == 0 or z > (2.0 * M * np.pi) ** 2
+    )
+    if not (revs_are_valid and tof_error <= max(rtol, 1e-7) * tof):
+        raise ValueError("Contour integral did not return a valid solution!")
+
     y = _y_at_z(np.complex128(z), r1_norm, r2_norm, A).real
     f = 1.0 - y / r1_norm
     g = A * np.sqrt(y / mu)
-- 
2.43.0


From 014ee6ad697685cc9c6c3f2f59f6962b18b4327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 35/63] fix: parabolic transfers in izzo2015

---
 src/lamberthub/universal_solvers/izzo.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 3a5b116..39d91df 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -366,15 +366,20 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
-        fder = _tof_equation_p(p0, y, T, ll)
-        fder2 = _tof_equation_p2(p0, y, T, fder, ll)
-        fder3 = _tof_equation_p3(p0, y, T, fder, fder2, ll)
-
-        # Householder step (quartic)
-        p = p0 - fval * (
-            (fder**2 - fval * fder2 / 2)
-            / (fder * (fder**2 - fval * fder2) + fder3 * fval**2 / 6)
-        )
+        if M == 0 and abs(1 - p0) < 1e-7:
+            # The derivatives are indeterminate for the parabolic transfer: take a
+            # Newton step with the limit of the first one
+            p = p0 - fval / (2 / 5 * (ll**5 - 1))
+        else:
+            fder = _tof_equation_p(p0, y, T, ll)
+            fder2 = _tof_equation_p2(p0, y, T, fder, ll)
+            fder3 = _tof_equation_p3(p0, y, T, fder, fder2, ll)
+
+            # Householder step (quartic)
+            p = p0 - fval * (
+                (fder**2 - fval * fder2 / 2)
+                / (fder * (fder**2 - fval * fder2) + fder3 * fval**2 / 6)
+            )
 
         if abs(p - p0) < rtol * np.abs(p0) + atol:
             return p, numiter
-- 
2.43.0


From f9b2062afa1173c67ff55a8a1906c911beed648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:51 +0000
Subject: [PATCH 36/63] fix: mcelreath2025 did not converge for almost
 parabolic transfers

---
 src/lamberthub/universal_solvers/mcelreath.py | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 9fb7027..194ca50 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -350,18 +350,32 @@ def _tof_at_x(x, r1_norm, r2_norm, m):
     return (2 * u1_star * m + u3).real
 
 
+@jit(cache=True, fastmath=True)
+def _x_minus_sin(x):
+    """Evaluate x - sin(x) without cancellation."""
+    if abs(x) > 1.0:
+        return x - np.sin(x)
+    x2 = x * x
+    term = x * x2 / 6
+    total = term
+    for k in range(2, 12):
+        term = -term * x2 / ((2 * k) * (2 * k + 1))
+        total = total + term
+    return total
+
+
 @jit(cache=True, fastmath=True)
 def _tof_equation(x, r_norm_sum, m):
     """Evaluate the reference scaled transfer-time function (complex result)."""
     u0 = np.cos(x)
     u0_star = np.cos(0.5 * x)
-    alpha = (1 - u0) / (r_norm_sum - 2 * m * u0_star)
+    alpha = 2 * np.sin(0.5 * x) ** 2 / (r_norm_sum - 2 * m * u0_star)
     alpha_inv = 1 / alpha
     alpha_sqrt = np.sqrt(alpha)
     alpha_sqrt_inv = 1 / alpha_sqrt
 
     u1_star = np.sin(0.5 * x) * alpha_sqrt_inv
-    u3 = (x * alpha_sqrt_inv - np.sin(x) * alpha_sqrt_inv) * alpha_inv
+    u3 = _x_minus_sin(x) * alpha_sqrt_inv * alpha_inv
     return 2 * u1_star * m + u3
 
 
@@ -370,15 +384,15 @@ def _tof_equation_full(x, r_norm_sum, m):
     """Evaluate the reference scaled transfer-time function and derivatives."""
     u0 = np.cos(x)
     u0_star = np.cos(0.5 * x)
-    alpha = (1 - u0) / (r_norm_sum - 2 * m * u0_star)
+    alpha = 2 * np.sin(0.5 * x) ** 2 / (r_norm_sum - 2 * m * u0_star)
     alpha_inv = 1 / alpha
     alpha_sqrt = np.sqrt(alpha)
     alpha_sqrt_inv = 1 / alpha_sqrt
 
     u1 = np.sin(x) * alpha_sqrt_inv
     u1_star = np.sin(0.5 * x) * alpha_sqrt_inv
-    u2 = (1 - u0) * alpha_inv
-    u3 = (x * alpha_sqrt_inv - u1) * alpha_inv
+    u2 = r_norm_sum - 2 * m * u0_star
+    u3 = _x_minus_sin(x) * alpha_sqrt_inv * alpha_inv
     tof_current = 2 * u1_star * m + u3
 
     u1_star_inv = 1 / u1_star
-- 
2.43.0


From 629572b353925b85f1eb86db8881f68d4af059ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:40 +0000
Subject: [PATCH 37/63] fix: hyperbolic and parabolic transfers in compiled
 mcelreath2025

---
 src/lamberthub/universal_solvers/mcelreath.py | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 194ca50..e380695 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -100,9 +100,7 @@ def mcelreath2025(
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
-    _, _, u0_star, _ = _alpha_and_universal_values(
-        np.complex128(x), r1_norm, r2_norm, m
-    )
+    u0_star = np.cos(0.5 * np.complex128(x))
     p = (
         r1_norm
         * r2_norm
@@ -156,16 +154,14 @@ def _find_single_revolution_x(tof, r_norm_sum, m, dtheta, maxiter, atol, rtol):
         x_tau = 1j * np.log(tau + np.sqrt(tau**2 - 1))
         x_1 = x_tau * np.exp(-2.5)
         tof_x1 = _tof_equation(np.complex128(x_1), r_norm_sum, m)
-        tof_p_16 = np.complex128(tof_p) ** 1.6
-        tof_x1_16 = np.complex128(tof_x1) ** 1.6
-        exponent = 2.5 / (np.log(-tof_p_16) - np.log(tof_x1_16 - tof_p_16))
+        exponent = -2.5 / np.log(1 - (tof_x1.real / tof_p) ** 1.6)
         x_0 = x_tau * (1 - (tof / tof_p) ** 1.6) ** exponent
         x_0 = np.complex128(1j * x_0.imag)
         lo, hi = 0.0, x_tau.imag
     else:
         tof_theta = _tof_equation(np.complex128(1j * dtheta), r_norm_sum, m)
         x_0 = np.complex128(
-            1j * dtheta * np.sqrt(np.log(tof / tof_p) / np.log(tof_theta / tof_p))
+            1j * dtheta * np.sqrt(np.log(tof / tof_p) / np.log(tof_theta.real / tof_p))
         )
         lo, hi = 0.0, np.inf
 
@@ -350,6 +346,14 @@ def _tof_at_x(x, r1_norm, r2_norm, m):
     return (2 * u1_star * m + u3).real
 
 
+@jit(cache=True, fastmath=True)
+def _alpha_sqrt(alpha):
+    """Evaluate the root of alpha, away from the branch cut for hyperbolic orbits."""
+    if alpha.real < 0:
+        return 1j * np.sqrt(-alpha)
+    return np.sqrt(alpha)
+
+
 @jit(cache=True, fastmath=True)
 def _x_minus_sin(x):
     """Evaluate x - sin(x) without cancellation."""
@@ -371,7 +375,7 @@ def _tof_equation(x, r_norm_sum, m):
     u0_star = np.cos(0.5 * x)
     alpha = 2 * np.sin(0.5 * x) ** 2 / (r_norm_sum - 2 * m * u0_star)
     alpha_inv = 1 / alpha
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _alpha_sqrt(alpha)
     alpha_sqrt_inv = 1 / alpha_sqrt
 
     u1_star = np.sin(0.5 * x) * alpha_sqrt_inv
@@ -386,7 +390,7 @@ def _tof_equation_full(x, r_norm_sum, m):
     u0_star = np.cos(0.5 * x)
     alpha = 2 * np.sin(0.5 * x) ** 2 / (r_norm_sum - 2 * m * u0_star)
     alpha_inv = 1 / alpha
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _alpha_sqrt(alpha)
     alpha_sqrt_inv = 1 / alpha_sqrt
 
     u1 = np.sin(x) * alpha_sqrt_inv
@@ -454,7 +458,7 @@ def _alpha_and_universal_values(x, r1_norm, r2_norm, m):
     u0 = np.cos(x)
     u0_star = np.cos(x / 2)
     alpha = (1 - u0) / (r1_norm + r2_norm - 2 * m * u0_star)
-    alpha_sqrt = np.sqrt(alpha)
+    alpha_sqrt = _alpha_sqrt(alpha)
     u1_star = np.sin(x / 2) / alpha_sqrt
     u3 = (x - np.sin(x)) / (alpha * alpha_sqrt)
     return alpha, u1_star, u0_star, u3
-- 
2.43.0


From 3927381f93d355b9d29a69727671a320555a987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:15 +0000
Subject: [PATCH 38/63] fix: bracket of hyperbolic transfers in negrete2024

---
 src/lamberthub/universal_solvers/negrete.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index e45750a..c2f3639 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -275,13 +275,20 @@ def _tof_at_z(z, mu, r1_norm, r2_norm, A):
 def _hyperbolic_contour(mu, r1_norm, r2_norm, A, tof):
     """Build a negative-z contour for hyperbolic single-revolution transfers."""
     z_low = -1.0
+    z_high = 0.0
+    z_unfeasible = -np.inf
     success = False
     for _ in range(64):
         y = _y_at_z(np.complex128(z_low), r1_norm, r2_norm, A).real
-        if y > 0.0 and _tof_at_z(z_low, mu, r1_norm, r2_norm, A) < tof:
+        if not y > 0.0:
+            z_unfeasible = z_low
+        elif _tof_at_z(z_low, mu, r1_norm, r2_norm, A) < tof:
             success = True
             break
-        z_low *= 2.0
+        else:
+            z_high = z_low
+        # y vanishes before any time of flight is reached: do not go past it
+        z_low = max(2.0 * z_low, 0.5 * (z_unfeasible + z_high))
 
     center = 0.5 * z_low
     radius = abs(center) * (1.0 - 1e-6)
-- 
2.43.0


From a72b7c7e7d2c60bb7ca45212020cb821fdfcd033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 39/63] fix: delatorre2018 did not converge below the round-off
 of the time of flight

---
 src/lamberthub/regularization/delatorre.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index c1abd4b..d49173f 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -177,6 +177,9 @@ def _solve_bracketed(P, Q, mu, tof, M, z_low, z_high, maxiter, atol, rtol):
         if not np.isfinite(z_new) or z_new <= z_low or z_new >= z_high:
             z_new = 0.5 * (z_low + z_high)
 
+        if abs(z_new - z) <= min(rtol, 1e-13) * abs(z):
+            # The time of flight cannot be computed more accurately
+            return z_new, numiter
         z = z_new
 
     raise ValueError("Exceeded maximum number of iterations!")
-- 
2.43.0


From 5f894b2586a8e7439b290ca2b020b4a79aca3042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:45 +0000
Subject: [PATCH 40/63] fix: gauss1809 accepted roots out of the range of its
 truncated series

---
 src/lamberthub/p_solvers/gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index d6824f7..77fea4c 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -136,7 +136,7 @@ def gauss1809(
 
     # The power series used in Gauss' second equation only converges if the
     # absolute value of x is lower than the unity. Any other root is spurious
-    if not np.abs(x) < 1:
+    if not np.abs(x) < 1 or np.abs(_X_at_x(x, 100) - _X_at_x(x)) > atol:
         raise ValueError("Gauss' series does not converge for this transfer!")
 
     # Once the value of y has been found, the shape and nature of the orbit can
-- 
2.43.0


From 8911956fd801eb4115cfd4992c8620a5eac2f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:46 +0000
Subject: [PATCH 41/63] fix: parabolic branch of pan2016 was used far from the
 parabola

---
 src/lamberthub/p_solvers/pan.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 47170d1..5c6969a 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -297,15 +297,18 @@ def _tof_from_elements(mu, theta, elements):
     """Compute time of flight from conic elements and terminal anomalies."""
     semi_major_axis, eccentricity, _, f1, f2 = elements
 
+    # Close to the parabola, the eccentric and hyperbolic anomalies suffer from
+    # cancellation. It is as large as the terms neglected here when they are 1e-4.
+    D_max = max(1.0, np.abs(np.tan(f1 / 2)), np.abs(np.tan(f2 / 2)))
+    if np.abs(eccentricity - 1) * D_max**2 < 1e-8:
+        p = semi_major_axis * (1 - eccentricity**2)
+        return _parabolic_tof(mu, p, f1, f2)
+
     if eccentricity < 1:
         if semi_major_axis <= 0:
             raise ValueError("Invalid elliptic semi-major axis.")
         return _elliptic_tof(mu, semi_major_axis, eccentricity, f1, f2)
 
-    if np.isclose(eccentricity, 1.0):
-        p = semi_major_axis * (1 - eccentricity**2)
-        return _parabolic_tof(mu, p, f1, f2)
-
     if semi_major_axis >= 0:
         raise ValueError("Invalid hyperbolic semi-major axis.")
     return _hyperbolic_tof(mu, semi_major_axis, eccentricity, f1, f2)
-- 
2.43.0


From c42a051a55f083f96ae6ef02ee54bd3df48040d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 42/63] fix: angle of the chord of polar orbits in avanzini2008

---
 src/lamberthub/ecc_solvers/utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index a47f619..b8fbb98 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -69,6 +69,11 @@ def get_geometry(r1, r2, is_prograde):
     assert_transfer_angle_not_pi(dtheta)
     w_c = get_transfer_angle(r1, (r2 - r1), is_prograde)
 
+    # Chord and final position vector lie in the same side of the initial one,
+    # although rounding errors may hide it if the orbit is a polar one.
+    if (w_c > np.pi) != (dtheta > np.pi):
+        w_c = 2 * np.pi - w_c
+
     return r1_norm, r2_norm, c_norm, dtheta, w_c
 
 
-- 
2.43.0


From c338cec57e5239f2e644bcd731b2c1c8f0d0eff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:55 +0000
Subject: [PATCH 43/63] fix: path of multi-revolution solutions in
 mcelreath2025

---
 src/lamberthub/universal_solvers/mcelreath.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index e380695..0d6ae3b 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -207,7 +207,12 @@ def _find_multi_revolution_x(
     g_short, g_long = _multi_revolution_initial_guesses(
         tof, tof_min, x_min, r_norm_sum, m, dtheta, M
     )
-    x_0 = np.complex128(g_short if is_low_path else g_long)
+
+    # Each one of the two solutions lies on its own side of the minimum
+    if is_low_path:
+        x_0, hi = np.complex128(g_short), x_min
+    else:
+        x_0, lo = np.complex128(g_long), x_min
     x, desired_iterations = _solve_desired_x(
         x_0, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol
     )
-- 
2.43.0


From 0d6df8f9115c8c2b77baf3cca393117e4274eef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 44/63] fix: both roots of negrete2024 could be refined to the
 same one

---
 src/lamberthub/universal_solvers/negrete.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index c2f3639..4ee3e9c 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -176,6 +176,17 @@ def _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol):
     refined_hi = _refine_single_root(
         r2r, z_min, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
     )
+
+    # Close roots may be refined to the same one: keep each in its own side
+    z_mid = 0.5 * (r1r + r2r)
+    if refined_lo > z_mid:
+        refined_lo = _refine_single_root(
+            r1r, z_min, r2r, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+        )
+    if refined_hi < z_mid:
+        refined_hi = _refine_single_root(
+            r2r, r1r, z_max, mu, r1_norm, r2_norm, A, tof, numiter, atol, rtol
+        )
     if refined_lo > refined_hi:
         refined_lo, refined_hi = refined_hi, refined_lo
     return refined_lo if is_low_path else refined_hi
-- 
2.43.0


From 211bd4df76c0f7b022ebf13009394ba5a8132425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:20 +0000
Subject: [PATCH 45/63] fix: minimum time of mcelreath2025 could be far from
 the actual one

---
 src/lamberthub/universal_solvers/mcelreath.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 0d6ae3b..370dc1d 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -192,7 +192,7 @@ def _find_multi_revolution_x(
         )
 
     x_min, minimum_iterations = _solve_minimum_x(
-        np.complex128(x_min), tof, r_norm_sum, m, M, lo, hi, maxiter
+        np.complex128(x_min), r_norm_sum, m, M, lo, hi, maxiter
     )
     tof_min = _tof_equation(np.complex128(x_min), r_norm_sum, m).real
 
@@ -223,14 +223,13 @@ def _find_multi_revolution_x(
 
 
 @jit(cache=True, fastmath=True)
-def _solve_minimum_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter):
+def _solve_minimum_x(x, r_norm_sum, m, M, lo, hi, maxiter):
     """Solve for the multi-revolution minimum transfer-time location."""
     two_pi_revs = 2 * np.pi * M
-    tolerance = 1e-2
+    # Steps are short too far from the minimum, where tof grows without limit
+    tolerance = 1e-8
     for numiter in range(1, maxiter + 1):
-        tof_current, tof_prime, tof_2prime, tof_3prime = _tof_equation_full(
-            x, r_norm_sum, m
-        )
+        _, tof_prime, tof_2prime, tof_3prime = _tof_equation_full(x, r_norm_sum, m)
         step = (
             -2 * tof_prime * tof_2prime / (2 * tof_2prime**2 - tof_prime * tof_3prime)
         )
@@ -241,9 +240,6 @@ def _solve_minimum_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter):
             x = x_old - tof_prime / tof_2prime
 
         err = abs((x - x_old) / (x - two_pi_revs + 2 * np.pi))
-        relative_gap = (tof - tof_current.real) / tof
-        if relative_gap < 1e-4:
-            tolerance = 1e-8
         if err < tolerance:
             return x.real, numiter
 
-- 
2.43.0


From a49a95b9ee57b4435222deee58b51a4a45b9df25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:31 +0000
Subject: [PATCH 46/63] fix: number of iterations of the bracketed search in
 der2011

---
 src/lamberthub/universal_solvers/der.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 9df0bd5..0053655 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -197,19 +197,20 @@ def _solve_elliptic_bracketed(sigma, tau, M, x0, x_split, maxiter, atol, rtol):
         return _tof_elliptic(sigma, x, y, M) - tau
 
     try:
-        x = brentq(
+        x, root = brentq(
             elliptic_equation,
             lower,
             upper,
             xtol=atol,
             rtol=rtol,
             maxiter=maxiter,
+            full_output=True,
         )
     except ValueError as exc:
         raise ValueError("Exceeded maximum number of iterations.") from exc
 
     y = _compute_y(sigma, x)
-    return x, y, maxiter
+    return x, y, max(1, root.iterations)
 
 
 def _solve_hyperbolic(sigma, tau, x0, maxiter, atol, rtol):
@@ -236,19 +237,20 @@ def _solve_hyperbolic_bracketed(sigma, tau, maxiter, atol, rtol):
         upper *= 2
 
     try:
-        x = brentq(
+        x, root = brentq(
             hyperbolic_equation,
             lower,
             upper,
             xtol=atol,
             rtol=rtol,
             maxiter=maxiter,
+            full_output=True,
         )
     except ValueError as exc:
         raise ValueError("Exceeded maximum number of iterations.") from exc
 
     y = _compute_y(sigma, x)
-    return x, y, maxiter
+    return x, y, max(1, root.iterations)
 
 
 @jit(cache=True, fastmath=True)
-- 
2.43.0


From f3ab0ef4eb9fc93f2cb1c86b00499310fcb7b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 47/63] fix: collinear position vectors were not noticed in
 compiled mode

---
 src/lamberthub/utils/angles.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index d091c8c..dc7af4d 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -31,11 +31,12 @@ def get_transfer_angle(r1, r2, is_prograde):
         Transfer angle in radians.
 
     """
-    # Check if both position vectors are collinear. If so, check if the transfer
-    # angle is 0 or pi.
+    # Check if both position vectors are collinear, up to the round-off of their
+    # cross product. If so, check if the transfer angle is 0 or pi.
     cross_r1r2 = cross(r1, r2)
-    if np.all(cross_r1r2 == 0):
-        return 0 if np.all(np.sign(r1) == np.sign(r2)) else np.pi
+    round_off = 4 * 2.220446049250313e-16 * norm(r1) * norm(r2)
+    if np.all(np.abs(cross_r1r2) <= round_off):
+        return 0.0 if dot(r1, r2) > 0 else np.pi
 
     # Solve for a unitary vector normal to the vector plane. Its direction and
     # sense the one given by the cross product (right-hand) from r1 to r2.
-- 
2.43.0


From f5f32ff48510e4778bac6915a6805937de05c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 48/63] fix: series of gooding1990 never ended when the time of
 flight was not a number

---
 src/lamberthub/universal_solvers/gooding.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 3182e35..f51bc1f 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -242,7 +242,8 @@ def tlamb(m, q, qsqfm1, x, n):
                     told = t
                     t = t + term / twoi1
 
-                    while t != told:
+                    # At most 1000 terms, a NaN never settles
+                    while t != told and twoi1 < 2000.0:
                         twoi1 = twoi1 + 2.0
                         term = term * fg1sq
                         told = t
@@ -315,8 +316,9 @@ def tlamb(m, q, qsqfm1, x, n):
         if l3:
             d3t = d3t + tqterm * u3i * (p - 1.0) * (p - 2.0)
 
-        # The loop starts below this line in its second iteration.
-        while i < n or t != told:
+        # The loop starts below this line in its second iteration. At most 1000
+        # terms, a NaN never settles.
+        while i < n or (t != told and i < 1000):
             i = i + 1
             p = i
             u0i = u0i * u
-- 
2.43.0


From 23e05e2dfd3b9afde93ba0d585e26dcbad7d0118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 49/63] fix: gooding1990 counted the number of revolutions one
 by one

---
 src/lamberthub/universal_solvers/gooding.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index f51bc1f..bd1be5c 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -628,13 +628,8 @@ def vlamb(
     # The following yields m = 0 when th = 2pi exactly
     # Neither this nor the original code works for
     # th < 0.0
-    thr2 = dtheta
-    m = 0
-
-    while thr2 > 2 * np.pi:
-        thr2 = thr2 - 2 * np.pi
-        m = m + 1
-    thr2 = thr2 / 2.0
+    m = max(int(np.ceil(dtheta / (2 * np.pi))) - 1, 0)
+    thr2 = (dtheta - 2 * np.pi * m) / 2.0
 
     # Compute auxiliary parameters
     dr = r1_norm - r2_norm
-- 
2.43.0


From 2f667df6175497ed30de000fb61b30f30fb4da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 50/63] fix: bracket of jiang2016 grew forever when the time of
 flight cannot be reached

---
 src/lamberthub/p_solvers/jiang.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index fcfc422..37d9ced 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -329,6 +329,8 @@ def _find_and_solve_elliptic(
     f_lower = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
     f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
     while f_lower * f_upper > 0:
+        if upper > 1e300:
+            raise ValueError("No solution found for given time of flight!")
         upper *= 2
         f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
 
@@ -385,6 +387,8 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
     upper = -eps * max(s, c)
 
     while (_tof_hyperbolic(mu, lower, s, c, theta) - tof) < 0:
+        if lower < -1e300:
+            raise ValueError("No solution found for given time of flight!")
         lower *= 2
 
     x = (lower + upper) / 2
-- 
2.43.0


From cbf7eacf586bd1bab0ff03b38c4e04eab91cbdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 51/63] fix: parameters which are infinite or not a number were
 taken as valid

---
 src/lamberthub/utils/assertions.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 7cff373..166581b 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -41,8 +41,8 @@ def assert_gravitational_parameter_is_positive(mu):
     ValueError
 
     """
-    # Check positive gravitational parameter
-    if mu <= 0:
+    # Check positive gravitational parameter, which is false for NaN
+    if not 0 < mu < np.inf:
         raise ValueError("Gravitational parameter must be positive!")
     else:
         return True
@@ -64,6 +64,9 @@ def assert_position_vector_is_valid(r):
     if r.shape != (3,):
         raise ValueError("Vector must be three-dimensional!")
 
+    if not np.all(np.isfinite(r)):
+        raise ValueError("Position vector must be finite!")
+
     if np.all(r == 0):
         raise ValueError("Position vector cannot be the null vector [0,0,0]!")
 
@@ -109,7 +112,7 @@ def assert_time_of_flight_is_positive(tof):
     ValueError
 
     """
-    if tof <= 0:
+    if not 0 < tof < np.inf:
         raise ValueError("Time of flight must be positive!")
     else:
         return True
-- 
2.43.0


From 964298fb4b6096fa3d03143fff111241c974bb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 52/63] fix: bracket of delatorre2018 grew forever for almost
 equal positions

---
 src/lamberthub/regularization/delatorre.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index d49173f..d51c4f3 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -139,6 +139,9 @@ def _initial_bracket(P, Q, mu, tof):
         z_low = z_floor + max(1e-12, abs(z_floor) * 1e-12)
 
     while _tof_equation_y(P, Q, mu, z_low, 0) > tof:
+        if not -1e6 < z_low < 0:
+            # The hyperbolic functions overflow
+            raise ValueError("No feasible solution, try lower M!")
         z_low *= 2
 
     if _tof_equation_y(P, Q, mu, z_high, 0) < tof:
-- 
2.43.0


From 73517c1bc4d63b9481815a0bb9379c01879e4006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 53/63] fix: endless readjustment of psi in vallado2013 for
 almost equal positions

---
 src/lamberthub/universal_solvers/vallado.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index b12bf5e..8516f47 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -121,6 +121,9 @@ def vallado2013(
                     * (1.0 / c3(psi))
                     * (1.0 - (r1_norm + r2_norm) * np.sqrt(c2(psi)) / A)
                 )
+                if not psi > psi_low:
+                    # No progress, y is negative just because of round-off
+                    raise ValueError("Cannot compute orbit, positions are too close")
                 y = _y_at_psi(psi, r1_norm, r2_norm, A)
 
         X = _X_at_psi(psi, y)
-- 
2.43.0


From 9253a54ae1477e16693a4e677415da22d1f34857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 54/63] fix: lower bound of delatorre2018 was not a number for
 almost equal positions

---
 src/lamberthub/regularization/delatorre.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index d51c4f3..f359485 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -135,7 +135,7 @@ def _initial_bracket(P, Q, mu, tof):
     z_low = -1.0
 
     if Q > 0:
-        z_floor = -(np.arccosh(P / Q) ** 2)
+        z_floor = -(np.arccosh(max(P / Q, 1.0)) ** 2)
         z_low = z_floor + max(1e-12, abs(z_floor) * 1e-12)
 
     while _tof_equation_y(P, Q, mu, z_low, 0) > tof:
-- 
2.43.0


From 586d8ceecea7c8c9230c10c2b3187e8dc3b421c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:46 +0000
Subject: [PATCH 55/63] fix: time of flight and semi-latus rectum of the
 parabola in pan2016

Barker's equation was a factor sqrt(2) off, and the semi-latus rectum was
computed from a semi-major axis that does not exist for the parabola. Transfers
whose parabola lies on a sample of the argument of periapsis were answered with
that parabola instead of the requested orbit.
---
 src/lamberthub/p_solvers/pan.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 5c6969a..9ba9e72 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -255,7 +255,7 @@ def _linear_bezier_estimate(lower, upper, f_lower, f_upper):
 def _tof_at_omega(mu, geometry, omega):
     """Compute the transfer time associated with an argument of periapsis."""
     elements = _elements_at_omega(geometry, omega)
-    return _tof_from_elements(mu, geometry["theta"], elements)
+    return _tof_from_elements(mu, geometry, elements)
 
 
 def _elements_at_omega(geometry, omega):
@@ -293,7 +293,7 @@ def _elements_at_omega(geometry, omega):
     return semi_major_axis, eccentricity, omega, f1, f2
 
 
-def _tof_from_elements(mu, theta, elements):
+def _tof_from_elements(mu, geometry, elements):
     """Compute time of flight from conic elements and terminal anomalies."""
     semi_major_axis, eccentricity, _, f1, f2 = elements
 
@@ -301,7 +301,7 @@ def _tof_from_elements(mu, theta, elements):
     # cancellation. It is as large as the terms neglected here when they are 1e-4.
     D_max = max(1.0, np.abs(np.tan(f1 / 2)), np.abs(np.tan(f2 / 2)))
     if np.abs(eccentricity - 1) * D_max**2 < 1e-8:
-        p = semi_major_axis * (1 - eccentricity**2)
+        p = _semi_latus_rectum(geometry, eccentricity, f1)
         return _parabolic_tof(mu, p, f1, f2)
 
     if eccentricity < 1:
@@ -341,7 +341,13 @@ def _parabolic_tof(mu, semi_latus_rectum, f1, f2):
     if semi_latus_rectum <= 0:
         raise ValueError("Invalid parabolic semi-latus rectum.")
     D1, D2 = np.tan(f1 / 2), np.tan(f2 / 2)
-    return np.sqrt(semi_latus_rectum**3 / (2 * mu)) * (D2 + D2**3 / 3 - D1 - D1**3 / 3)
+    delta_M = D2 + D2**3 / 3 - D1 - D1**3 / 3
+    return 0.5 * np.sqrt(semi_latus_rectum**3 / mu) * delta_M
+
+
+def _semi_latus_rectum(geometry, eccentricity, f1):
+    """Compute the semi-latus rectum, which exists for the parabola as well."""
+    return geometry["r1_norm"] * (1 + eccentricity * np.cos(f1))
 
 
 def _true_to_eccentric_anomaly(true_anomaly, eccentricity):
@@ -364,10 +370,8 @@ def _true_to_hyperbolic_anomaly(true_anomaly, eccentricity):
 
 def _reconstruct_velocities(mu, geometry, elements):
     """Reconstruct inertial terminal velocities from the solved conic."""
-    semi_major_axis, eccentricity, omega, f1, f2 = elements
-    p = semi_major_axis * (1 - eccentricity**2)
-    if p <= 0:
-        p = semi_major_axis * (eccentricity**2 - 1)
+    _, eccentricity, omega, f1, f2 = elements
+    p = _semi_latus_rectum(geometry, eccentricity, f1)
     if p <= 0:
         raise ValueError("Invalid semi-latus rectum.")
 
-- 
2.43.0


From b8491edf8df4345a687fcfe575f9183d8e2559f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 56/63] fix: markers without their counterpart in the benchmark
 report of the README

---
 scripts/generate_benchmark_report.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index d165fb9..a1db89d 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -264,13 +264,12 @@ def build_section(reports):
 def update_readme(readme_path, section):
     """Replace or append the generated performance section in the README."""
     content = readme_path.read_text(encoding="utf-8")
-    if START_MARKER in content and END_MARKER in content:
+    # A marker without its counterpart does not delimit a section
+    start, end = re.escape(START_MARKER), re.escape(END_MARKER)
+    pattern = re.compile(rf"{start}(?:(?!{start}).)*?{end}\n?", flags=re.DOTALL)
+    if pattern.search(content):
         generated_content = section.split(f"{START_MARKER}\n\n", maxsplit=1)[1]
         generated_content = f"{START_MARKER}\n\n{generated_content}"
-        pattern = re.compile(
-            rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
-            flags=re.DOTALL,
-        )
         updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
-- 
2.43.0


From 54e7fb1fbd68d6132853ca6d499944297eac51ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 57/63] fix: sense of motion of polar orbits in thorne2004

---
 src/lamberthub/series_solvers/thorne.py | 37 +++++++++----------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index f8062bc..d838034 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -117,8 +117,8 @@ def thorne2004(
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
     x = get_x_from_semimajor_axis(a, semiperimeter, branch)
-    y = get_y_from_x(x, r1, r2, semiperimeter, c_norm, is_prograde)
-    v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, is_prograde)
+    y = get_y_from_x(x, semiperimeter, c_norm, dtheta)
+    v1, v2 = reconstruct(x, y, mu, r1, r2, semiperimeter, c_norm, dtheta)
 
     return (v1, v2, numiter, tpi) if full_output else (v1, v2)
 
@@ -296,42 +296,31 @@ def get_x_from_semimajor_axis(a, s, branch):
     return -x if branch == "B" else x
 
 
-def get_y_from_x(x, r1, r2, s, c, is_prograde):
+def get_y_from_x(x, s, c, dtheta):
     """Compute the Lancaster-Blanchard y variable for the transfer geometry."""
-    ll = get_lambda(r1, r2, s, c, is_prograde)
+    ll = get_lambda(s, c, dtheta)
     return np.sqrt(1 - ll**2 * (1 - x**2))
 
 
-def get_lambda(r1, r2, s, c, is_prograde):
+def get_lambda(s, c, dtheta):
     """Compute the signed transfer-angle parameter."""
-    i_r1 = r1 / norm(r1)
-    i_r2 = r2 / norm(r2)
-    i_h = cross(i_r1, i_r2)
-    i_h = i_h / norm(i_h)
-
     ll = np.sqrt(1 - c / s)
-    if i_h[2] < 0:
-        ll = -ll
-
-    return ll if is_prograde else -ll
+    return ll if dtheta < np.pi else -ll
 
 
-def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
+def reconstruct(x, y, mu, r1, r2, s, c, dtheta):
     """Reconstruct initial and final velocities from geometry and x-y values."""
     r1_norm, r2_norm = norm(r1), norm(r2)
     i_r1, i_r2 = r1 / r1_norm, r2 / r2_norm
     i_h = cross(i_r1, i_r2)
     i_h = i_h / norm(i_h)
 
-    ll = np.sqrt(1 - c / s)
-    if i_h[2] < 0:
-        ll = -ll
-        i_t1, i_t2 = cross(i_r1, i_h), cross(i_r2, i_h)
-    else:
-        i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
-
-    if not is_prograde:
-        ll, i_t1, i_t2 = -ll, -i_t1, -i_t2
+    # The sense of motion is the one of the transfer angle: the vertical component
+    # of the normal of a polar orbit is nothing but rounding errors.
+    ll = get_lambda(s, c, dtheta)
+    if dtheta > np.pi:
+        i_h = -i_h
+    i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
 
     gamma = np.sqrt(mu * s / 2)
     rho = (r1_norm - r2_norm) / c
-- 
2.43.0


From e57d175f32d0e5c97749fd31768b69be15096f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:02 +0000
Subject: [PATCH 58/63] fix: mcelreath2025 failed to converge for transfers of
 almost a whole turn

---
 src/lamberthub/universal_solvers/mcelreath.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 370dc1d..8d3f93f 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -294,6 +294,16 @@ def _solve_desired_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol):
         x_old = x
         x = x + step
 
+        # The transfer time is monotonic between the bounds, so every iterate is a
+        # new one: this keeps the next ones from jumping back and forth.
+        rt = -(residual / tof_prime)
+        sign = np.sign(rt.real + rt.imag)
+        coordinate = x_old.real + x_old.imag
+        if sign > 0:
+            lo = coordinate
+        elif sign < 0:
+            hi = coordinate
+
         if _outside_bounds(x, lo, hi):
             x = x_old - 2 * residual * tof_prime / (
                 2 * tof_prime**2 - residual * tof_2prime
@@ -301,10 +311,8 @@ def _solve_desired_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol):
             if _outside_bounds(x, lo, hi):
                 x = x_old - residual / tof_prime
                 if _outside_bounds(x, lo, hi):
-                    rt = -(residual / tof_prime)
-                    sign = np.sign(rt.real + rt.imag)
                     boundary = hi if sign > 0 else lo
-                    x = x_old + 0.5 * (boundary - x_old)
+                    x = x_old * (0.5 + 0.5 * boundary / coordinate)
 
         err = abs((x - x_old) / (x - two_pi_revs + 2 * np.pi))
         if err < tolerance:
-- 
2.43.0


From 9d029f227a4dcaea3e659369805ed1b1a6a582fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:36 +0000
Subject: [PATCH 59/63] fix: minimum time of flight of mcelreath2025 for almost
 null transfer angles

---
 src/lamberthub/universal_solvers/mcelreath.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index 8d3f93f..d8788fb 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -184,6 +184,9 @@ def _find_multi_revolution_x(
             - (1 / 3) ** sqrt_revs
             + two_pi_revs
         )
+        if x_min <= lo:
+            # The fit leaves the bounds if the transfer angle is almost null
+            x_min = lo + 2 * dtheta ** (2 / 3)
     else:
         x_min = (
             -2 * (-dtheta + two_pi + 0.05**sqrt_revs) ** 0.4
@@ -236,8 +239,16 @@ def _solve_minimum_x(x, r_norm_sum, m, M, lo, hi, maxiter):
         x_old = x
         x = x + step
 
+        # The transfer time decreases before its minimum and increases after it
+        if tof_prime.real < 0:
+            lo = x_old.real
+        else:
+            hi = x_old.real
+
         if _outside_bounds(x, lo, hi):
             x = x_old - tof_prime / tof_2prime
+            if _outside_bounds(x, lo, hi):
+                x = np.complex128(0.5 * (lo + hi))
 
         err = abs((x - x_old) / (x - two_pi_revs + 2 * np.pi))
         if err < tolerance:
-- 
2.43.0


From b14b3f3bbc387d776cc02eb5630b7e6c133f305c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:18 +0000
Subject: [PATCH 60/63] fix: rank and speed-up of benchmarks measured more than
 once

---
 scripts/generate_benchmark_report.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index a1db89d..069a639 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -152,33 +152,31 @@ def machine_summary(report):
 
 
 def _rank_within_case(benchmarks):
-    """Return a dict mapping (case_key, solver_name) -> rank within that case."""
+    """Return a dict mapping id(benchmark) -> rank within its case."""
     by_case: dict[tuple, list] = {}
     for b in benchmarks:
         by_case.setdefault(case_key(b), []).append(b)
 
     ranks = {}
-    for key, entries in by_case.items():
+    for entries in by_case.values():
         sorted_entries = sorted(entries, key=lambda b: b["stats"]["median"])
         for rank, entry in enumerate(sorted_entries, start=1):
-            ranks[(key, solver_name(entry))] = rank
+            ranks[id(entry)] = rank
     return ranks
 
 
 def _speedup_within_case(benchmarks):
-    """Return a dict mapping (case_key, solver_name) -> speedup vs slowest."""
+    """Return a dict mapping id(benchmark) -> speedup vs slowest of its case."""
     by_case: dict[tuple, list] = {}
     for b in benchmarks:
         by_case.setdefault(case_key(b), []).append(b)
 
     speedups = {}
-    for key, entries in by_case.items():
+    for entries in by_case.values():
         slowest = max(e["stats"]["median"] for e in entries)
         for entry in entries:
             median = entry["stats"]["median"]
-            speedups[(key, solver_name(entry))] = (
-                slowest / median if median > 0 else 1.0
-            )
+            speedups[id(entry)] = slowest / median if median > 0 else 1.0
     return speedups
 
 
@@ -240,9 +238,8 @@ def build_section(reports):
                 case = benchmark["params"]["case"]
                 name = solver_name(benchmark)
                 stats = benchmark["stats"]
-                key = case_key(benchmark)
-                rank = ranks.get((key, name), 0)
-                speedup = speedups.get((key, name), 1.0)
+                rank = ranks[id(benchmark)]
+                speedup = speedups[id(benchmark)]
                 lines.append(
                     f"| {rank} | "
                     f"`{name}` | "
-- 
2.43.0


From a93879f7fc199e58c32247c0b238360bbe4e78fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:18 +0000
Subject: [PATCH 61/63] fix: line endings of the document updated with the
 benchmark report

---
 scripts/generate_benchmark_report.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 069a639..3d2c721 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -260,10 +260,13 @@ def build_section(reports):
 
 def update_readme(readme_path, section):
     """Replace or append the generated performance section in the README."""
-    content = readme_path.read_text(encoding="utf-8")
+    # The line endings of the document are kept as they are
+    with readme_path.open(encoding="utf-8", newline="") as file_handler:
+        content = file_handler.read()
+
     # A marker without its counterpart does not delimit a section
     start, end = re.escape(START_MARKER), re.escape(END_MARKER)
-    pattern = re.compile(rf"{start}(?:(?!{start}).)*?{end}\n?", flags=re.DOTALL)
+    pattern = re.compile(rf"{start}(?:(?!{start}).)*?{end}(?:\r?\n)?", flags=re.DOTALL)
     if pattern.search(content):
         generated_content = section.split(f"{START_MARKER}\n\n", maxsplit=1)[1]
         generated_content = f"{START_MARKER}\n\n{generated_content}"
@@ -271,7 +274,7 @@ def update_readme(readme_path, section):
     else:
         updated = content.rstrip() + "\n\n" + section
 
-    readme_path.write_text(updated, encoding="utf-8")
+    readme_path.write_text(updated, encoding="utf-8", newline="")
 
 
 def main():
-- 
2.43.0


From 50eac739a028006aabb3123c124269589fe2e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:15 +0000
Subject: [PATCH 62/63] fix: number of revolutions that is a fraction or not a
 number

---
 src/lamberthub/utils/assertions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 166581b..0b7ccf6 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -131,8 +131,10 @@ def assert_number_of_revolutions_not_negative(M):
     ValueError
 
     """
-    if M < 0:
+    if not M >= 0:
         raise ValueError("Number of revolutions must be equal or greater than zero!")
+    elif M % 1 != 0:
+        raise ValueError("Number of revolutions must be an integer!")
     else:
         return True
 
-- 
2.43.0


From b9c5aa033c16835b51bcfab5fc7b93cacc168601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:15 +0000
Subject: [PATCH 63/63] fix: overflow and loss of precision for arguments of
 other numeric types

---
 src/lamberthub/ecc_solvers/avanzini.py        |  2 ++
 src/lamberthub/p_solvers/battin.py            |  2 ++
 src/lamberthub/p_solvers/gauss.py             |  2 ++
 src/lamberthub/p_solvers/jiang.py             |  2 ++
 src/lamberthub/p_solvers/pan.py               |  2 ++
 src/lamberthub/regularization/delatorre.py    |  2 ++
 src/lamberthub/series_solvers/thorne.py       |  2 ++
 src/lamberthub/universal_solvers/arora.py     |  2 ++
 src/lamberthub/universal_solvers/der.py       |  2 ++
 src/lamberthub/universal_solvers/gooding.py   |  2 ++
 src/lamberthub/universal_solvers/izzo.py      |  2 ++
 src/lamberthub/universal_solvers/mcelreath.py |  2 ++
 src/lamberthub/universal_solvers/negrete.py   |  2 ++
 src/lamberthub/universal_solvers/vallado.py   |  2 ++
 src/lamberthub/utils/arguments.py             | 32 +++++++++++++++++++
 15 files changed, 60 insertions(+)
 create mode 100644 src/lamberthub/utils/arguments.py

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 3668721..bbde3d7 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -41,6 +41,7 @@ from lamberthub.ecc_solvers.utils import (
     get_fundamental_ellipse_properties,
     get_geometry,
 )
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import assert_parameters_are_valid
 from lamberthub.utils.elements import coe2rv
 
@@ -112,6 +113,7 @@ def avanzini2008(
 
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     # Start by computing an auxiliary set of geometric parameters
     geometry = get_geometry(r1, r2, is_prograde)
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 9d1dd06..f684e83 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -6,6 +6,7 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -94,6 +95,7 @@ def battin1984(
 
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 77fea4c..f205260 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -7,6 +7,7 @@ import numpy as np
 from numpy.linalg import norm
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -94,6 +95,7 @@ def gauss1809(
 
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     # Norm of the initial and final position vectors
     r1_norm, r2_norm = [norm(r) for r in [r1, r2]]
diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index 37d9ced..c77f6c0 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -7,6 +7,7 @@ import numpy as np
 from numpy.linalg import norm
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -86,6 +87,7 @@ def jiang2016(
         )
 
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 9ba9e72..add1b84 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -8,6 +8,7 @@ from scipy.optimize import brentq
 
 from lamberthub.universal_solvers.vallado import vallado2013
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -89,6 +90,7 @@ def pan2016(
         )
 
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index f359485..94d0886 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -6,6 +6,7 @@ import time
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -76,6 +77,7 @@ def delatorre2018(
 
     """
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     tic = time.perf_counter()
 
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index d838034..8959f60 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -8,6 +8,7 @@ from scipy.special import factorial, poch
 
 from lamberthub.linalg import cross, norm
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -94,6 +95,7 @@ def thorne2004(
 
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     # Norm of the initial and final position vectors
     r1_norm, r2_norm, c_norm = [norm(r) for r in [r1, r2, r2 - r1]]
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 5051537..cb4d145 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -8,6 +8,7 @@ from numpy.linalg import norm
 from scipy.optimize import brentq, minimize_scalar
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -84,6 +85,7 @@ def arora2013(
     """
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     # Norm of the initial and final position vectors
     r1_norm, r2_norm, c_norm = [norm(r) for r in [r1, r2, (r2 - r1)]]
diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 0053655..79f2870 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -8,6 +8,7 @@ from numpy.linalg import norm
 from scipy.optimize import brentq
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -80,6 +81,7 @@ def der2011(
 
     """
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     r1_norm, r2_norm, c_norm = [norm(vec) for vec in (r1, r2, r2 - r1)]
     psi = get_transfer_angle(r1, r2, is_prograde)
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index bd1be5c..481ef51 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -7,6 +7,7 @@ import numpy as np
 from numpy.linalg import norm
 
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -97,6 +98,7 @@ def gooding1990(
     """
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     # Norm of the initial and final position vectors.
     r1_norm, r2_norm = [norm(r) for r in [r1, r2]]
diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 39d91df..529ca2d 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -8,6 +8,7 @@ from numpy import cross, pi
 
 from lamberthub.linalg import norm
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -93,6 +94,7 @@ def izzo2015(
     """
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     # The orbital plane is not defined if the position vectors are collinear
     dtheta = get_transfer_angle(r1, r2, is_prograde)
diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index d8788fb..0ece17f 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -6,6 +6,7 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_zero,
@@ -78,6 +79,7 @@ def mcelreath2025(
         and Dynamical Astronomy, 137, 22.
     """
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index 4ee3e9c..d3277fc 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -7,6 +7,7 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_zero,
@@ -78,6 +79,7 @@ def negrete2024(
         Using Contour Integrals.
     """
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 8516f47..3860408 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -6,6 +6,7 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.arguments import to_native_types
 from lamberthub.utils.assertions import assert_parameters_are_valid
 from lamberthub.utils.stumpff import c2, c3
 
@@ -94,6 +95,7 @@ def vallado2013(
 
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
+    mu, r1, r2, tof, M = to_native_types(mu, r1, r2, tof, M)
 
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
diff --git a/src/lamberthub/utils/arguments.py b/src/lamberthub/utils/arguments.py
new file mode 100644
index 0000000..0154885
--- /dev/null
+++ b/src/lamberthub/utils/arguments.py
@@ -0,0 +1,32 @@
+"""Module containing routines for preparing the arguments of the solvers."""
+
+import numpy as np
+
+
+def to_native_types(mu, r1, r2, tof, M):
+    """Convert the parameters of the problem to native types.
+
+    Fixed size integers overflow in the formulas of the solvers, and numbers of
+    less than double precision spread their lack of digits.
+
+    Parameters
+    ----------
+    mu : float
+        Gravitational parameter.
+    r1 : np.array
+        Initial position vector.
+    r2 : np.array
+        Final position vector.
+    tof: float
+        Time of flight.
+    M : int
+        Number of revolutions
+
+    Returns
+    -------
+    tuple
+        The same parameters as floats, arrays of floats and an integer.
+
+    """
+    r1, r2 = [np.asarray(r, dtype=np.float64) for r in (r1, r2)]
+    return float(mu), r1, r2, float(tof), int(M)
-- 
2.43.0

