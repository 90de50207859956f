From aea754896735a8da19a4f293953a6366cd414059 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 16:06:27 +0000
Subject: [PATCH 01/11] fix: evaluate universal functions by power series near
 alpha*chi^2 = 0

The closed forms cancel catastrophically on near-parabolic orbits (alpha not
exactly 0), so e.g. prop.kepler was wrong by tens of percent for v = sqrt(2).
---
 src/astrodynx/twobody/_uniformulas.py | 41 +++++++++++++++++++++++++++
 1 file changed, 41 insertions(+)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 5cc3c85..3604750 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -1,3 +1,6 @@
+from collections.abc import Callable
+from functools import wraps
+from math import factorial
 import jax.numpy as jnp
 import jax
 from jax.typing import ArrayLike, DTypeLike
@@ -6,6 +9,38 @@ from jax import Array
 """Universal functions for two-body orbital mechanics."""
 
 
+def _series_near_zero(n: int) -> Callable:
+    r"""Evaluates $U_n$ by its power series where $|\alpha \chi^2| < 1$.
+
+    The closed forms subtract nearly equal numbers and divide by powers of $\alpha$, so they lose all their digits as $\alpha \chi^2$ approaches 0, e.g. on near-parabolic orbits. The power series does not:
+    $$
+    U_n(\chi, \alpha) = \chi^n \sum_{k=0}^{\infty} \frac{(-\alpha \chi^2)^k}{(n + 2k)!}
+    $$
+
+    References:
+        Battin, 1999, pp.175.
+    """
+
+    def decorator(closed_form: Callable) -> Callable:
+        @wraps(closed_form)
+        def ufunc(chi: ArrayLike, alpha: DTypeLike) -> Array:
+            psi = alpha * chi**2
+            near = jnp.abs(psi) < 1
+            series = 1.0
+            for k in range(9, 0, -1):
+                series = 1.0 - psi * series / ((n + 2 * k - 1) * (n + 2 * k))
+            # Where the series is used, keep the closed form away from 0/0 and overflow.
+            alpha_ = jnp.where(jnp.all(near), 1.0, alpha)
+            chi_ = jnp.where(near, 1 / jnp.sqrt(jnp.abs(alpha_)), chi)
+            return jnp.where(
+                near, chi**n * series / factorial(n), closed_form(chi_, alpha_)
+            )
+
+        return ufunc
+
+    return decorator
+
+
 def sigma_fn(pos_vec: ArrayLike, vel_vec: ArrayLike, mu: ArrayLike = 1) -> Array:
     r"""The sigma function
 
@@ -50,6 +85,7 @@ def sigma_fn(pos_vec: ArrayLike, vel_vec: ArrayLike, mu: ArrayLike = 1) -> Array
     return jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True) / jnp.sqrt(mu)
 
 
+@_series_near_zero(0)
 def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""The universal function U0
 
@@ -102,6 +138,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
     )
 
 
+@_series_near_zero(1)
 def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""The universal function U1
 
@@ -154,6 +191,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
     )
 
 
+@_series_near_zero(2)
 def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""The universal function U2
 
@@ -206,6 +244,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
     )
 
 
+@_series_near_zero(3)
 def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""The universal function U3
 
@@ -262,6 +301,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
     )
 
 
+@_series_near_zero(4)
 def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""The universal function U4
 
@@ -316,6 +356,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
     )
 
 
+@_series_near_zero(5)
 def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
     r"""The universal function U5
 
-- 
2.43.0


From f549c6ad6872e0c4ab66179d2cbee18fbf7ac296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:10 +0000
Subject: [PATCH 02/11] fix: make the Kepler equation solvers converge on all
 conics

Newton's iteration diverged for e >= 0.999 or e - 1 <= 1e-5 and on long
hyperbolic arcs, was never entered in float32 for |M| >= 64, and under vmap
could run forever because the residual was recomputed in cond_fn with another
rounding than in body_fn.
---
 src/astrodynx/twobody/_kep_equ.py | 67 +++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 21 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index a91572c..be262a3 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -345,6 +345,17 @@ def generalized_anomaly(
     return alpha * jnp.sqrt(mu) * deltat + sigma - sigma0
 
 
+def _laguerre_step(f: Array, df: Array, d2f: Array) -> Array:
+    r"""Returns the Laguerre-Conway correction (of degree 5) to a root of f.
+
+    Newton's correction $f/f'$ overshoots, and the iteration diverges, where $f'$ almost vanishes, e.g. close to the periapsis of a near-parabolic orbit. The Laguerre-Conway correction stays bounded there.
+
+    References:
+        Conway, 1986, An improved algorithm due to Laguerre for the solution of Kepler's equation.
+    """
+    return 5 * f / (df + jnp.sqrt(jnp.abs(16 * df**2 - 20 * f * d2f)))
+
+
 def solve_kepler_elps(
     M: DTypeLike, e: DTypeLike, tol: DTypeLike = 1e-6, max_iter: int = 20
 ) -> Array:
@@ -390,10 +401,10 @@ def solve_kepler_elps(
     def body_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, E, _ = val
         f = E - e * jnp.sin(E) - M
-        E_new = E - f / dE(E, e)
+        E_new = E - _laguerre_step(f, dE(E, e), e * jnp.sin(E))
         return (iter_count + 1, E_new, E)
 
-    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + 2 * tol))
+    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + jnp.inf))
     return E
 
 
@@ -431,23 +442,38 @@ def solve_kepler_hypb(
         >>> adx.solve_kepler_hypb(N,e)
         Array(3.463..., dtype=float32, weak_type=True)
     """
-    H0 = jnp.log(2 * N / e + jnp.sqrt((2 * N / e) ** 2 + 1))
+    H0 = jnp.arcsinh(2 * N / e)
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, H, _ = val
-        not_converged = jnp.abs(kepler_equ_hypb(H, e, N)) > tol
+        iter_count, _, f = val
+        not_converged = jnp.abs(f) > tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, H, _ = val
-        H_new = H - kepler_equ_hypb(H, e, N) / dH(H, e)
-        return (iter_count + 1, H_new, H)
+        iter_count, H, f = val
+        H_new = H - _laguerre_step(f, dH(H, e), e * jnp.sinh(H))
+        return (iter_count + 1, H_new, kepler_equ_hypb(H_new, e, N))
 
-    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, H0 + 2 * tol))
+    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, kepler_equ_hypb(H0, e, N)))
     return H
 
 
+def _chi_guess(sqrtmu_dt: Array, alpha: DTypeLike) -> Array:
+    r"""Returns the initial guess of the generalized anomaly.
+
+    On an ellipse it is the mean value $\alpha \sqrt{\mu} \Delta t$. On a parabola or hyperbola, where $\chi$ grows only like the cube root or the logarithm of the time, it is an upper bound of $|\chi|$ which does not overflow the universal functions.
+    """
+    T = jnp.abs(sqrtmu_dt)
+    beta = jnp.sqrt(jnp.where(alpha < 0, -alpha, 1.0))
+    bound = jnp.where(
+        alpha < 0,
+        2 / beta * jnp.arcsinh(beta**3 * T / 2 + beta * jnp.cbrt(3 * T)),
+        jnp.cbrt(24 * T),
+    )
+    return jnp.where(alpha > 0, alpha * sqrtmu_dt, jnp.sign(sqrtmu_dt) * bound)
+
+
 def solve_kepler_uni(
     deltat: DTypeLike,
     alpha: DTypeLike,
@@ -498,22 +524,21 @@ def solve_kepler_uni(
         >>> assert adx.kepler_equ_uni(chi,alpha,r0, sigma0, deltat, mu) < 1e-6
     """
 
-    chi0 = jnp.sqrt(mu) * jnp.abs(alpha) * deltat
+    chi0 = _chi_guess(jnp.sqrt(mu) * deltat, alpha)
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        not_converged = (
-            jnp.abs(kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu)) > tol
-        )
+        iter_count, _, f = val
+        not_converged = jnp.abs(f) > tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
     def body_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, _ = val
-        chi_new = chi - kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu) / dchi(
-            chi, alpha, r0, sigma0
-        )
-        return (iter_count + 1, chi_new, chi)
-
-    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, chi0 + 2 * tol))
+        iter_count, chi, f = val
+        d2chi = sigma0 * ufunc0(chi, alpha) + (1 - alpha * r0) * ufunc1(chi, alpha)
+        chi_new = chi - _laguerre_step(f, dchi(chi, alpha, r0, sigma0), d2chi)
+        f_new = kepler_equ_uni(chi_new, alpha, r0, sigma0, deltat, mu)
+        return (iter_count + 1, chi_new, f_new)
+
+    f0 = kepler_equ_uni(chi0, alpha, r0, sigma0, deltat, mu)
+    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, f0))
     return chi
-- 
2.43.0


From d05c58d7e5c61daaf588f7b9c4961d3d13941e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:00 +0000
Subject: [PATCH 03/11] fix: differentiate the Kepler equation solvers
 implicitly

Differentiating the iterations gave the derivative of the initial guess when it
already met the tolerance (e.g. at deltat = 0), a derivative one iteration behind
the root otherwise, and no reverse mode at all.
---
 src/astrodynx/twobody/_kep_equ.py | 32 ++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index be262a3..e794d62 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -1,3 +1,4 @@
+from collections.abc import Callable
 import jax.numpy as jnp
 from jax.typing import ArrayLike, DTypeLike
 from jax import Array
@@ -356,6 +357,16 @@ def _laguerre_step(f: Array, df: Array, d2f: Array) -> Array:
     return 5 * f / (df + jnp.sqrt(jnp.abs(16 * df**2 - 20 * f * d2f)))
 
 
+def _implicit_root(f: Callable, x0: Array, solve: Callable) -> Array:
+    r"""Returns the root of f found by `solve`, differentiable by the implicit function theorem.
+
+    Differentiating the iterations instead gives the derivative of the initial guess whenever the guess already satisfies the tolerance, and a derivative one iteration behind the root otherwise.
+    """
+    return jax.lax.custom_root(
+        f, jax.lax.stop_gradient(x0), solve, lambda g, y: y / g(jnp.ones_like(y))
+    )
+
+
 def solve_kepler_elps(
     M: DTypeLike, e: DTypeLike, tol: DTypeLike = 1e-6, max_iter: int = 20
 ) -> Array:
@@ -404,8 +415,10 @@ def solve_kepler_elps(
         E_new = E - _laguerre_step(f, dE(E, e), e * jnp.sin(E))
         return (iter_count + 1, E_new, E)
 
-    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + jnp.inf))
-    return E
+    def solve(_: Callable, E0: Array) -> Array:
+        return jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + jnp.inf))[1]
+
+    return _implicit_root(lambda E: kepler_equ_elps(E, e, M), E0, solve)
 
 
 def solve_kepler_hypb(
@@ -455,8 +468,10 @@ def solve_kepler_hypb(
         H_new = H - _laguerre_step(f, dH(H, e), e * jnp.sinh(H))
         return (iter_count + 1, H_new, kepler_equ_hypb(H_new, e, N))
 
-    _, H, _ = jax.lax.while_loop(cond_fn, body_fn, (0, H0, kepler_equ_hypb(H0, e, N)))
-    return H
+    def solve(f: Callable, H0: Array) -> Array:
+        return jax.lax.while_loop(cond_fn, body_fn, (0, H0, f(H0)))[1]
+
+    return _implicit_root(lambda H: kepler_equ_hypb(H, e, N), H0, solve)
 
 
 def _chi_guess(sqrtmu_dt: Array, alpha: DTypeLike) -> Array:
@@ -539,6 +554,9 @@ def solve_kepler_uni(
         f_new = kepler_equ_uni(chi_new, alpha, r0, sigma0, deltat, mu)
         return (iter_count + 1, chi_new, f_new)
 
-    f0 = kepler_equ_uni(chi0, alpha, r0, sigma0, deltat, mu)
-    _, chi, _ = jax.lax.while_loop(cond_fn, body_fn, (0, chi0, f0))
-    return chi
+    def solve(f: Callable, chi0: Array) -> Array:
+        return jax.lax.while_loop(cond_fn, body_fn, (0, chi0, f(chi0)))[1]
+
+    return _implicit_root(
+        lambda chi: kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu), chi0, solve
+    )
-- 
2.43.0


From b0d339c39d7ed48d93cb26d4d7794a53fd9b6bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:00 +0000
Subject: [PATCH 04/11] fix: keep prop.kepler traceable

.item() made jit and vmap over the state fail and jacfwd silently drop the
sensitivity of the generalized anomaly to the initial state.
---
 src/astrodynx/prop/_kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index e29e81b..43c98f1 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -97,7 +97,7 @@ def kepler(
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
-        jnp.atleast_1d(ts), alpha.item(), r0.item(), sigma0.item(), mu
+        jnp.atleast_1d(ts), alpha, r0, sigma0[0], mu
     )
     F = lagrange_F(ufunc2(chi, alpha), r0)
     G = lagrange_G(
-- 
2.43.0


From df51612de75ab9f3ca889175426683c362308209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:31 +0000
Subject: [PATCH 05/11] fix: return argp and true anomaly in the right quadrant
 from rv2coe

Both were taken from the norm of a cross product, hence always in [0, pi], so
the inbound half of every orbit (and every periapsis south of the node) came
back mirrored; equatorial and circular orbits lost their phase altogether.
---
 src/astrodynx/twobody/_orb_elements.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index bbe096e..5a8dc5e 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -104,6 +104,15 @@ def argument_of_periapsis(node_vec: ArrayLike, e_vec: ArrayLike) -> Array:
     return jnp.where(argp < 0, 2 * jnp.pi + argp, argp)
 
 
+def _angle_in_orbit(from_vec: Array, to_vec: Array, h_dir: Array) -> Array:
+    """Returns the angle in [0, 2*pi) from one vector of the orbit plane to another, measured in the direction of motion."""
+    angle = jnp.arctan2(
+        jnp.sum(jnp.cross(from_vec, to_vec) * h_dir, axis=-1, keepdims=True),
+        jnp.sum(from_vec * to_vec, axis=-1, keepdims=True),
+    )
+    return jnp.where(angle < 0, 2 * jnp.pi + angle, angle)
+
+
 def rv2coe(
     pos_vec: ArrayLike, vel_vec: ArrayLike, mu: ArrayLike = 1
 ) -> tuple[Array, Array, Array, Array, Array, Array]:
@@ -127,8 +136,8 @@ def rv2coe(
         i &= \arccos(h_z / h) \\
         \boldsymbol{N} &= \boldsymbol{k} \times \boldsymbol{h} \\
         \Omega &= \arctan2(N_y, N_x) \\
-        \omega &= \arctan2(\|\boldsymbol{N}\times \boldsymbol{e}\|, \boldsymbol{N} \cdot \boldsymbol{e}) \\
-        f &= \arctan2(\|\boldsymbol{e}\times \boldsymbol{r}\|, \boldsymbol{e} \cdot \boldsymbol{r})
+        \omega &= \arctan2((\boldsymbol{N}\times \boldsymbol{e}) \cdot \boldsymbol{h} / h, \boldsymbol{N} \cdot \boldsymbol{e}) \\
+        f &= \arctan2((\boldsymbol{e}\times \boldsymbol{r}) \cdot \boldsymbol{h} / h, \boldsymbol{e} \cdot \boldsymbol{r})
         \end{aligned}
         $$
         where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly.
@@ -168,9 +177,13 @@ def rv2coe(
     p = semiparameter(h_mag, mu)
     incl = inclination(h_vec)
     N = node_vec(h_vec)
+    # The angles are undefined on equatorial and circular orbits. By convention, measure
+    # them from the x-axis if there is no node, and from the node if there is no periapsis.
+    N = jnp.where(jnp.any(N != 0, axis=-1, keepdims=True), N, jnp.array([1, 0, 0]))
+    e_dir = jnp.where(e_mag > 0, e_vec, N)
     raan = right_ascension(N)
-    argp = argument_of_periapsis(N, e_vec)
-    true_anom = true_anomaly(pos_vec, e_vec)
+    argp = _angle_in_orbit(N, e_dir, h_vec / h_mag)
+    true_anom = _angle_in_orbit(e_dir, pos_vec, h_vec / h_mag)
     return (
         jnp.squeeze(p, axis=-1),
         jnp.squeeze(e_mag, axis=-1),
-- 
2.43.0


From bff6d9043a3587672677c52a5daafe96d4f1189a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:28 +0000
Subject: [PATCH 06/11] fix: compute the inclination without arccos

Under jit, h_z / h can round to above 1, so rv2coe returned a NaN inclination
for about 2% of equatorial orbits; arccos also kept only half of the digits of
small inclinations.
---
 src/astrodynx/twobody/_orb_elements.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index 5a8dc5e..c98ed55 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -22,11 +22,13 @@ def inclination(h_vec: ArrayLike) -> Array:
     Notes
         The inclination is calculated using equation:
         $$
-        i = \arccos(h_z / h)
+        i = \arctan2(\sqrt{h_x^2 + h_y^2}, h_z)
         $$
-        where $i$ is the inclination, $h_z$ is the z-component of the specific angular momentum vector, and $h$ is the norm of the specific angular momentum vector.
+        where $i$ is the inclination, and $h_x$, $h_y$ and $h_z$ are the components of the specific angular momentum vector.
     """
-    return jnp.arccos(h_vec[..., 2:3] / vector_norm(h_vec, axis=-1, keepdims=True))
+    return jnp.arctan2(
+        vector_norm(h_vec[..., :2], axis=-1, keepdims=True), h_vec[..., 2:3]
+    )
 
 
 def true_anomaly(pos_vec: ArrayLike, e_vec: ArrayLike) -> Array:
@@ -133,7 +135,7 @@ def rv2coe(
         \boldsymbol{h} &= \boldsymbol{r} \times \boldsymbol{v} \\
         p &= \frac{h^2}{\mu} \\
         \boldsymbol{e} &= \frac{\boldsymbol{v} \times \boldsymbol{h}}{\mu} - \frac{\boldsymbol{r}}{r} \\
-        i &= \arccos(h_z / h) \\
+        i &= \arctan2(\sqrt{h_x^2 + h_y^2}, h_z) \\
         \boldsymbol{N} &= \boldsymbol{k} \times \boldsymbol{h} \\
         \Omega &= \arctan2(N_y, N_x) \\
         \omega &= \arctan2((\boldsymbol{N}\times \boldsymbol{e}) \cdot \boldsymbol{h} / h, \boldsymbol{N} \cdot \boldsymbol{e}) \\
-- 
2.43.0


From 1e5421c6eca5c4cebfc7d19382e7c49e95453c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:18 +0000
Subject: [PATCH 07/11] fix: broadcast e and true_anom in coe2rv

An array of eccentricities with a scalar true anomaly failed to stack, although
any broadcast-compatible shapes are documented.
---
 src/astrodynx/twobody/_orb_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index c98ed55..8abff91 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -270,6 +270,7 @@ def coe2rv(
         >>> assert jnp.allclose(pos_vec[1], jnp.array([6525.3677, 6861.5317, 6449.117]))
         >>> assert jnp.allclose(vel_vec[1], jnp.array([4.902279, 5.5331397, -1.9757109]))
     """
+    e, true_anom = jnp.broadcast_arrays(e, true_anom)
     r_pf = jnp.expand_dims(p / (1 + e * jnp.cos(true_anom)), axis=-1) * jnp.stack(
         [jnp.cos(true_anom), jnp.sin(true_anom), jnp.zeros_like(true_anom)], axis=-1
     )
-- 
2.43.0


From 6e42a0a6220cf8856ef2996182da29639603ab13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:27 +0000
Subject: [PATCH 08/11] fix: bracket the generalized anomaly in
 solve_kepler_uni

Far out on an inbound hyperbolic leg the terms of the equation cancel, so a
step could leave the neighbourhood of the root for good or give NaN (also by
overflow in float32).
---
 src/astrodynx/twobody/_kep_equ.py | 49 ++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index e794d62..b87685f 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -354,7 +354,8 @@ def _laguerre_step(f: Array, df: Array, d2f: Array) -> Array:
     References:
         Conway, 1986, An improved algorithm due to Laguerre for the solution of Kepler's equation.
     """
-    return 5 * f / (df + jnp.sqrt(jnp.abs(16 * df**2 - 20 * f * d2f)))
+    newton = f / df
+    return 5 * newton / (1 + jnp.sqrt(jnp.abs(16 - 20 * newton * (d2f / df))))
 
 
 def _implicit_root(f: Callable, x0: Array, solve: Callable) -> Array:
@@ -362,9 +363,7 @@ def _implicit_root(f: Callable, x0: Array, solve: Callable) -> Array:
 
     Differentiating the iterations instead gives the derivative of the initial guess whenever the guess already satisfies the tolerance, and a derivative one iteration behind the root otherwise.
     """
-    return jax.lax.custom_root(
-        f, jax.lax.stop_gradient(x0), solve, lambda g, y: y / g(jnp.ones_like(y))
-    )
+    return jax.lax.custom_root(f, x0, solve, lambda g, y: y / g(jnp.ones_like(y)))
 
 
 def solve_kepler_elps(
@@ -474,19 +473,27 @@ def solve_kepler_hypb(
     return _implicit_root(lambda H: kepler_equ_hypb(H, e, N), H0, solve)
 
 
-def _chi_guess(sqrtmu_dt: Array, alpha: DTypeLike) -> Array:
-    r"""Returns the initial guess of the generalized anomaly.
+def _chi_bracket(sqrtmu_dt: Array, alpha: DTypeLike) -> tuple[Array, Array, Array]:
+    r"""Returns an initial guess of the generalized anomaly, and a lower and upper bound.
 
-    On an ellipse it is the mean value $\alpha \sqrt{\mu} \Delta t$. On a parabola or hyperbola, where $\chi$ grows only like the cube root or the logarithm of the time, it is an upper bound of $|\chi|$ which does not overflow the universal functions.
+    On an ellipse $\chi$ is within $2 / \sqrt{\alpha}$ of its mean value $\alpha \sqrt{\mu} \Delta t$. On a parabola or hyperbola it grows only like the cube root or the logarithm of the time, so the guess is an upper bound of $|\chi|$ which does not overflow the universal functions.
     """
     T = jnp.abs(sqrtmu_dt)
-    beta = jnp.sqrt(jnp.where(alpha < 0, -alpha, 1.0))
-    bound = jnp.where(
+    beta = jnp.sqrt(jnp.where(alpha == 0, 1.0, jnp.abs(alpha)))
+    guess = jnp.where(
         alpha < 0,
         2 / beta * jnp.arcsinh(beta**3 * T / 2 + beta * jnp.cbrt(3 * T)),
         jnp.cbrt(24 * T),
     )
-    return jnp.where(alpha > 0, alpha * sqrtmu_dt, jnp.sign(sqrtmu_dt) * bound)
+    guess = jnp.where(alpha > 0, alpha * T, guess)
+    width = jnp.where(alpha > 0, 2 / beta, guess)
+    near, far = jnp.maximum(guess - 1.01 * width, 0), guess + 1.01 * width
+    sign = jnp.sign(sqrtmu_dt)
+    return (
+        sign * guess,
+        jnp.where(sign < 0, -far, near),
+        jnp.where(sign < 0, -near, far),
+    )
 
 
 def solve_kepler_uni(
@@ -539,23 +546,31 @@ def solve_kepler_uni(
         >>> assert adx.kepler_equ_uni(chi,alpha,r0, sigma0, deltat, mu) < 1e-6
     """
 
-    chi0 = _chi_guess(jnp.sqrt(mu) * deltat, alpha)
+    chi0, lower0, upper0 = _chi_bracket(
+        *jax.lax.stop_gradient((jnp.sqrt(mu) * deltat, alpha))
+    )
 
-    def cond_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, _, f = val
+    def cond_fn(val: tuple[int, Array, Array, Array, Array]) -> Array:
+        iter_count, _, f, _, _ = val
         not_converged = jnp.abs(f) > tol
         under_max_iter = iter_count < max_iter
         return not_converged & under_max_iter
 
-    def body_fn(val: tuple[int, Array, Array]) -> Array:
-        iter_count, chi, f = val
+    def body_fn(val: tuple[int, Array, Array, Array, Array]) -> tuple:
+        iter_count, chi, f, lower, upper = val
+        lower = jnp.where(f < 0, chi, lower)
+        upper = jnp.where(f > 0, chi, upper)
         d2chi = sigma0 * ufunc0(chi, alpha) + (1 - alpha * r0) * ufunc1(chi, alpha)
         chi_new = chi - _laguerre_step(f, dchi(chi, alpha, r0, sigma0), d2chi)
+        # f increases with chi, so bisect whenever rounding throws the step out.
+        inside = (lower <= chi_new) & (chi_new <= upper)
+        chi_new = jnp.where(inside, chi_new, (lower + upper) / 2)
         f_new = kepler_equ_uni(chi_new, alpha, r0, sigma0, deltat, mu)
-        return (iter_count + 1, chi_new, f_new)
+        return (iter_count + 1, chi_new, f_new, lower, upper)
 
     def solve(f: Callable, chi0: Array) -> Array:
-        return jax.lax.while_loop(cond_fn, body_fn, (0, chi0, f(chi0)))[1]
+        val = (0, chi0, f(chi0), lower0, upper0)
+        return jax.lax.while_loop(cond_fn, body_fn, val)[1]
 
     return _implicit_root(
         lambda chi: kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu), chi0, solve
-- 
2.43.0


From 1ebfc63d3295a56a9927ce090ccfdf496af491ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:41 +0000
Subject: [PATCH 09/11] fix: convert integer arguments to floating point before
 squares and products overflow

---
 src/astrodynx/events/radius.py          |  2 +-
 src/astrodynx/gravity/_general.py       | 11 +++++++----
 src/astrodynx/prop/_kepler.py           |  4 ++--
 src/astrodynx/twobody/_kep_equ.py       |  4 ++--
 src/astrodynx/twobody/_orb_elements.py  | 10 +++++-----
 src/astrodynx/twobody/_orb_integrals.py | 12 ++++++------
 src/astrodynx/twobody/_path_check.py    |  6 +++---
 src/astrodynx/twobody/_state_trans.py   | 18 +++++++++---------
 src/astrodynx/twobody/_uniformulas.py   |  2 +-
 9 files changed, 36 insertions(+), 33 deletions(-)

diff --git a/src/astrodynx/events/radius.py b/src/astrodynx/events/radius.py
index f426e0a..6254749 100644
--- a/src/astrodynx/events/radius.py
+++ b/src/astrodynx/events/radius.py
@@ -30,4 +30,4 @@ def radius_islow(
         This event can be used to terminate the propagation of an orbit when the radius falls below a certain threshold.
     """
     rmin = args["rmin"]
-    return jnp.linalg.vector_norm(x[:3]) - rmin
+    return jnp.linalg.vector_norm(1.0 * x[:3]) - rmin
diff --git a/src/astrodynx/gravity/_general.py b/src/astrodynx/gravity/_general.py
index edb44d7..77af053 100644
--- a/src/astrodynx/gravity/_general.py
+++ b/src/astrodynx/gravity/_general.py
@@ -38,7 +38,7 @@ def point_mass_grav(
         Array([-0.1924...,  0.1924..., -0.1924...], dtype=float32)
     """
     mu = args["mu"]
-    mu_ = mu / jnp.linalg.vector_norm(x[:3]) ** 3
+    mu_ = mu / jnp.linalg.vector_norm(1.0 * x[:3]) ** 3
     return jnp.stack([-mu_ * x[0], -mu_ * x[1], -mu_ * x[2]])
 
 
@@ -82,7 +82,8 @@ def j2_acc(
     """
     mu = args["mu"]
     J2 = args["J2"]
-    R_eq = args["R_eq"]
+    R_eq = 1.0 * args["R_eq"]
+    x = 1.0 * x
     r = jnp.linalg.vector_norm(x[:3])
     zsq_over_rsq = (x[2] / r) ** 2
     factor = -1.5 * mu * J2 * R_eq**2 / r**5
@@ -135,7 +136,8 @@ def j3_acc(
     """
     mu = args["mu"]
     J3 = args["J3"]
-    R_eq = args["R_eq"]
+    R_eq = 1.0 * args["R_eq"]
+    x = 1.0 * x
     r = jnp.linalg.vector_norm(x[:3])
     z3_over_rsq = x[2] ** 3 / r**2
     factor = -2.5 * mu * J3 * R_eq**3 / r**7
@@ -188,7 +190,8 @@ def j4_acc(
     """
     mu = args["mu"]
     J4 = args["J4"]
-    R_eq = args["R_eq"]
+    R_eq = 1.0 * args["R_eq"]
+    x = 1.0 * x
     r = jnp.linalg.vector_norm(x[:3])
     zsq_over_rsq = (x[2] / r) ** 2
     factor = 1.875 * mu * J4 * R_eq**4 / r**7
diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index 43c98f1..f0fcd45 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -91,8 +91,8 @@ def kepler(
         >>> assert r_vec.shape == (12, 3)
         >>> assert v_vec.shape == (12, 3)
     """
-    r0 = jnp.linalg.vector_norm(r0_vec)
-    v0 = jnp.linalg.vector_norm(v0_vec)
+    r0 = jnp.linalg.vector_norm(1.0 * r0_vec)
+    v0 = jnp.linalg.vector_norm(1.0 * v0_vec)
     alpha = 1.0 / semimajor_axis(r0, v0, mu)
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index b87685f..dd9a573 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -175,7 +175,7 @@ def mean_anomaly_elps(a: ArrayLike, deltat: ArrayLike, mu: ArrayLike = 1) -> Arr
         >>> adx.mean_anomaly_elps(a, deltat, mu)
         Array([1. , 0.5], dtype=float32)
     """
-    return jnp.sqrt(mu / a**3) * deltat
+    return jnp.sqrt(mu / (1.0 * a) ** 3) * deltat
 
 
 def mean_anomaly_hypb(a: ArrayLike, deltat: ArrayLike, mu: ArrayLike = 1) -> Array:
@@ -218,7 +218,7 @@ def mean_anomaly_hypb(a: ArrayLike, deltat: ArrayLike, mu: ArrayLike = 1) -> Arr
         >>> adx.mean_anomaly_hypb(a, deltat, mu)
         Array([1. , 0.5], dtype=float32)
     """
-    return jnp.sqrt(mu / -(a**3)) * deltat
+    return jnp.sqrt(mu / -((1.0 * a) ** 3)) * deltat
 
 
 def kepler_equ_uni(
diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index 8abff91..b6194f0 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -27,7 +27,7 @@ def inclination(h_vec: ArrayLike) -> Array:
         where $i$ is the inclination, and $h_x$, $h_y$ and $h_z$ are the components of the specific angular momentum vector.
     """
     return jnp.arctan2(
-        vector_norm(h_vec[..., :2], axis=-1, keepdims=True), h_vec[..., 2:3]
+        vector_norm(1.0 * h_vec[..., :2], axis=-1, keepdims=True), h_vec[..., 2:3]
     )
 
 
@@ -52,8 +52,8 @@ def true_anomaly(pos_vec: ArrayLike, e_vec: ArrayLike) -> Array:
         Vallado, 2013, pp.118.
     """
     true_anom = jnp.arctan2(
-        vector_norm(jnp.cross(e_vec, pos_vec), axis=-1, keepdims=True),
-        jnp.sum(e_vec * pos_vec, axis=-1, keepdims=True),
+        vector_norm(jnp.cross(1.0 * e_vec, pos_vec), axis=-1, keepdims=True),
+        jnp.sum(1.0 * e_vec * pos_vec, axis=-1, keepdims=True),
     )
     return jnp.where(true_anom < 0, 2 * jnp.pi + true_anom, true_anom)
 
@@ -100,8 +100,8 @@ def argument_of_periapsis(node_vec: ArrayLike, e_vec: ArrayLike) -> Array:
         where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector.
     """
     argp = jnp.arctan2(
-        vector_norm(jnp.cross(node_vec, e_vec), axis=-1, keepdims=True),
-        jnp.sum(node_vec * e_vec, axis=-1, keepdims=True),
+        vector_norm(jnp.cross(1.0 * node_vec, e_vec), axis=-1, keepdims=True),
+        jnp.sum(1.0 * node_vec * e_vec, axis=-1, keepdims=True),
     )
     return jnp.where(argp < 0, 2 * jnp.pi + argp, argp)
 
diff --git a/src/astrodynx/twobody/_orb_integrals.py b/src/astrodynx/twobody/_orb_integrals.py
index b3b6711..890f4ec 100644
--- a/src/astrodynx/twobody/_orb_integrals.py
+++ b/src/astrodynx/twobody/_orb_integrals.py
@@ -43,7 +43,7 @@ def orb_period(a: ArrayLike, mu: ArrayLike = 1) -> Array:
         >>> adx.orb_period(a, mu)
         Array([ 6.2831855, 12.566371 ], dtype=float32)
     """
-    return 2 * jnp.pi * jnp.sqrt(a**3 / mu)
+    return 2 * jnp.pi * jnp.sqrt((1.0 * a) ** 3 / mu)
 
 
 def a_from_period(orbperiod: ArrayLike, mu: ArrayLike = 1) -> Array:
@@ -80,7 +80,7 @@ def a_from_period(orbperiod: ArrayLike, mu: ArrayLike = 1) -> Array:
         >>> mu = jnp.array([1.0, 2.0])
         >>> assert jnp.allclose(adx.a_from_period(orbperiod, mu), jnp.array([1.0, 2.0]))
     """
-    return jnp.cbrt(orbperiod**2 * mu / 4 / jnp.pi**2)
+    return jnp.cbrt((1.0 * orbperiod) ** 2 * mu / 4 / jnp.pi**2)
 
 
 def angular_momentum(pos_vec: ArrayLike, vel_vec: ArrayLike) -> Array:
@@ -122,7 +122,7 @@ def angular_momentum(pos_vec: ArrayLike, vel_vec: ArrayLike) -> Array:
         Array([[0., 0., 1.],
                [0., 0., 4.]], dtype=float32)
     """
-    return jnp.cross(pos_vec, vel_vec)
+    return jnp.cross(1.0 * pos_vec, vel_vec)
 
 
 def semimajor_axis(r_mag: ArrayLike, v_mag: ArrayLike, mu: ArrayLike = 1) -> ArrayLike:
@@ -166,7 +166,7 @@ def semimajor_axis(r_mag: ArrayLike, v_mag: ArrayLike, mu: ArrayLike = 1) -> Arr
         >>> adx.semimajor_axis(r, v, mu)
         Array([ 1., -1.], dtype=float32)
     """
-    return 1 / (2 / r_mag - v_mag**2 / mu)
+    return 1 / (2 / r_mag - (1.0 * v_mag) ** 2 / mu)
 
 
 def eccentricity_vector(
@@ -215,7 +215,7 @@ def eccentricity_vector(
     """
     h = angular_momentum(pos_vec, vel_vec)
     return jnp.cross(vel_vec, h) / mu - pos_vec / jnp.linalg.vector_norm(
-        pos_vec, axis=-1, keepdims=True
+        1.0 * pos_vec, axis=-1, keepdims=True
     )
 
 
@@ -257,7 +257,7 @@ def semiparameter(h_mag: ArrayLike, mu: ArrayLike = 1) -> ArrayLike:
         >>> adx.semiparameter(h, mu)
         Array([1., 2.], dtype=float32)
     """
-    return h_mag**2 / mu
+    return (1.0 * h_mag) ** 2 / mu
 
 
 def mean_motion(P: ArrayLike) -> ArrayLike:
diff --git a/src/astrodynx/twobody/_path_check.py b/src/astrodynx/twobody/_path_check.py
index a5ab849..5e5addc 100644
--- a/src/astrodynx/twobody/_path_check.py
+++ b/src/astrodynx/twobody/_path_check.py
@@ -83,7 +83,7 @@ def is_short_way(r1: ArrayLike, v1: ArrayLike, r2: ArrayLike) -> Array:
         >>> adx.twobody.is_short_way(r1, v1, r2)
         Array(True, dtype=bool)
     """
-    return jnp.inner(jnp.cross(r1, v1), jnp.cross(r1, r2)) > 0
+    return jnp.inner(jnp.cross(1.0 * r1, v1), jnp.cross(1.0 * r1, r2)) > 0
 
 
 def pass_perigee(
@@ -128,8 +128,8 @@ def pass_perigee(
         Array(False, dtype=bool)
     """
     e = adx.eccentricity_vector(r1, v1, mu)
-    b1 = jnp.inner(jnp.cross(r1, r2), jnp.cross(r1, e)) > 0
-    b2 = jnp.inner(jnp.cross(r1, r2), jnp.cross(e, r2)) > 0
+    b1 = jnp.inner(jnp.cross(1.0 * r1, r2), jnp.cross(r1, e)) > 0
+    b2 = jnp.inner(jnp.cross(1.0 * r1, r2), jnp.cross(e, r2)) > 0
     return jnp.logical_and(b1, b2) == is_short_way(r1, v1, r2)
 
 
diff --git a/src/astrodynx/twobody/_state_trans.py b/src/astrodynx/twobody/_state_trans.py
index 5f20988..52c3b8d 100644
--- a/src/astrodynx/twobody/_state_trans.py
+++ b/src/astrodynx/twobody/_state_trans.py
@@ -80,9 +80,9 @@ def prpr0(
     References:
         Battin, 1999, pp.467.
     """
-    r0_mag = vector_norm(r0_vec)
+    r0_mag = vector_norm(1.0 * r0_vec)
     return (
-        vector_norm(r_vec) / mu * jnp.outer(v_vec - v0_vec, v_vec - v0_vec)
+        vector_norm(1.0 * r_vec) / mu * jnp.outer(v_vec - v0_vec, v_vec - v0_vec)
         + (1 - F) * jnp.outer(r_vec / r0_mag, r0_vec / r0_mag)
         + C / r0_mag**2 * jnp.outer(v_vec, r0_vec / r0_mag)
         + F * jnp.eye(3)
@@ -128,7 +128,7 @@ def prpv0(
         Battin, 1999, pp.467.
     """
     return (
-        vector_norm(r0_vec)
+        vector_norm(1.0 * r0_vec)
         / mu
         * (1 - F)
         * (jnp.outer(r_vec - r0_vec, v0_vec) - jnp.outer(v_vec - v0_vec, r0_vec))
@@ -179,8 +179,8 @@ def pvpr0(
     References:
         Battin, 1999, pp.467.
     """
-    r0_mag = vector_norm(r0_vec)
-    r_mag = vector_norm(r_vec)
+    r0_mag = vector_norm(1.0 * r0_vec)
+    r_mag = vector_norm(1.0 * r_vec)
     return (
         -jnp.outer(v_vec - v0_vec, r0_vec / r0_mag**2)
         - jnp.outer(r_vec / r_mag**2, v_vec - v0_vec)
@@ -230,8 +230,8 @@ def pvpv0(
         + G_t \boldsymbol{I}
         $$
     """
-    r0_mag = vector_norm(r0_vec)
-    r_mag = vector_norm(r_vec)
+    r0_mag = vector_norm(1.0 * r0_vec)
+    r_mag = vector_norm(1.0 * r_vec)
     return (
         r0_mag / mu * jnp.outer(v_vec - v0_vec, v_vec - v0_vec)
         + (1 - F) * jnp.outer(r_vec / r_mag, r0_vec / r_mag) * r0_mag / r_mag
@@ -295,8 +295,8 @@ def dxdx0(
         >>> jnp.allclose(adx.twobody.dxdx0(r_vec, v_vec, r0_vec, v0_vec, deltat), expected)
         Array(True, dtype=bool)
     """
-    r0_mag, r_mag = vector_norm(r0_vec), vector_norm(r_vec)
-    alpha = 1.0 / adx.semimajor_axis(r0_mag, vector_norm(v0_vec), mu)
+    r0_mag, r_mag = vector_norm(1.0 * r0_vec), vector_norm(1.0 * r_vec)
+    alpha = 1.0 / adx.semimajor_axis(r0_mag, vector_norm(1.0 * v0_vec), mu)
     chi = adx.generalized_anomaly(
         alpha, sigma_fn(r_vec, v_vec, mu), sigma_fn(r0_vec, v0_vec, mu), deltat, mu
     )
diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 3604750..1c2a5e2 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -82,7 +82,7 @@ def sigma_fn(pos_vec: ArrayLike, vel_vec: ArrayLike, mu: ArrayLike = 1) -> Array
         Array([[0.],
                [0.]], dtype=float32)
     """
-    return jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True) / jnp.sqrt(mu)
+    return jnp.sum(1.0 * pos_vec * vel_vec, axis=-1, keepdims=True) / jnp.sqrt(mu)
 
 
 @_series_near_zero(0)
-- 
2.43.0


From 3da284fa0b909726bdbe29e8f31862957f0a1419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:38 +0000
Subject: [PATCH 10/11] fix: differentiate kepler and dxdx0 through parabolic
 orbits

---
 src/astrodynx/prop/_kepler.py         | 5 +++--
 src/astrodynx/twobody/_state_trans.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index f0fcd45..f088d6f 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -4,7 +4,7 @@ from jax.typing import ArrayLike, DTypeLike
 from jax import Array
 from astrodynx.twobody._kep_equ import solve_kepler_uni
 from astrodynx.twobody._uniformulas import sigma_fn, ufunc0, ufunc1, ufunc2
-from astrodynx.twobody._orb_integrals import semimajor_axis, equ_of_orb_uvi
+from astrodynx.twobody._orb_integrals import equ_of_orb_uvi
 from astrodynx.twobody._lagrange import lagrange_F, lagrange_G, lagrange_Ft, lagrange_Gt
 
 
@@ -93,7 +93,8 @@ def kepler(
     """
     r0 = jnp.linalg.vector_norm(1.0 * r0_vec)
     v0 = jnp.linalg.vector_norm(1.0 * v0_vec)
-    alpha = 1.0 / semimajor_axis(r0, v0, mu)
+    # not 1 / semimajor_axis, whose derivative is undefined on parabolas
+    alpha = 2 / r0 - v0**2 / mu
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
diff --git a/src/astrodynx/twobody/_state_trans.py b/src/astrodynx/twobody/_state_trans.py
index 52c3b8d..30ea04f 100644
--- a/src/astrodynx/twobody/_state_trans.py
+++ b/src/astrodynx/twobody/_state_trans.py
@@ -296,7 +296,8 @@ def dxdx0(
         Array(True, dtype=bool)
     """
     r0_mag, r_mag = vector_norm(1.0 * r0_vec), vector_norm(1.0 * r_vec)
-    alpha = 1.0 / adx.semimajor_axis(r0_mag, vector_norm(1.0 * v0_vec), mu)
+    # not 1 / semimajor_axis, whose derivative is undefined on parabolas
+    alpha = 2 / r0_mag - vector_norm(1.0 * v0_vec) ** 2 / mu
     chi = adx.generalized_anomaly(
         alpha, sigma_fn(r_vec, v_vec, mu), sigma_fn(r0_vec, v0_vec, mu), deltat, mu
     )
-- 
2.43.0


From bcfdbeadc9c503d80a9dfc1068fb5dc69c30060c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:42 +0000
Subject: [PATCH 11/11] fix: let radius_islow be called as the root finder of
 an event calls it

diffrax evaluates an event's condition with the state as the keyword y when
it looks for the crossing, so an Event(radius_islow, root_finder) raised a
TypeError.
---
 src/astrodynx/events/radius.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/events/radius.py b/src/astrodynx/events/radius.py
index 6254749..5052b99 100644
--- a/src/astrodynx/events/radius.py
+++ b/src/astrodynx/events/radius.py
@@ -6,7 +6,10 @@ from typing import Any
 
 
 def radius_islow(
-    t: DTypeLike, x: ArrayLike, args: PyTree[Any] = {"rmin": 0.0}, **kwargs: Any
+    t: DTypeLike,
+    x: ArrayLike | None = None,
+    args: PyTree[Any] = {"rmin": 0.0},
+    **kwargs: Any,
 ) -> Array:
     r"""Returns the difference between the radius and the minimum radius.
 
@@ -14,7 +17,7 @@ def radius_islow(
         t: The time.
         x: (N,) The state vector, where the first 3 elements are the position vector.
         args: Static arguments, which must contain a key "rmin" with the minimum radius.
-        kwargs: Any additional arguments.
+        kwargs: Any additional arguments. The root finder of an event passes the state vector as `y`.
 
     Returns:
         The difference between the radius and the minimum radius.
@@ -30,4 +33,5 @@ def radius_islow(
         This event can be used to terminate the propagation of an orbit when the radius falls below a certain threshold.
     """
     rmin = args["rmin"]
+    x = kwargs["y"] if x is None else x
     return jnp.linalg.vector_norm(1.0 * x[:3]) - rmin
-- 
2.43.0

