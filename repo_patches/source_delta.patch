From 9a9335858fb1536958227b4a1d9f65ee16a88b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 1/9] fix: solve_kepler_elps always refines its starting guess

E0 + 2*tol rounds to E0 in float32 once |E0| >= 64, so the loop ended before
the first Newton step and the unrefined guess was returned.
---
 src/astrodynx/twobody/_kep_equ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index a91572c..b12913e 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -393,7 +393,7 @@ def solve_kepler_elps(
         E_new = E - f / dE(E, e)
         return (iter_count + 1, E_new, E)
 
-    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + 2 * tol))
+    _, E, _ = jax.lax.while_loop(cond_fn, body_fn, (0, E0, E0 + jnp.inf))
     return E
 
 
-- 
2.43.0


From cd0e1e1f7c3e23875da1a8e09fa6f3a75783ba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 2/9] fix: solve_kepler_hypb starts from a finite guess for
 large negative N

log(q + sqrt(q^2 + 1)) cancels to log(0) in float32 for large negative q;
arcsinh is the same function without the cancellation.
---
 src/astrodynx/twobody/_kep_equ.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/twobody/_kep_equ.py b/src/astrodynx/twobody/_kep_equ.py
index b12913e..005963d 100644
--- a/src/astrodynx/twobody/_kep_equ.py
+++ b/src/astrodynx/twobody/_kep_equ.py
@@ -431,7 +431,7 @@ def solve_kepler_hypb(
         >>> adx.solve_kepler_hypb(N,e)
         Array(3.463..., dtype=float32, weak_type=True)
     """
-    H0 = jnp.log(2 * N / e + jnp.sqrt((2 * N / e) ** 2 + 1))
+    H0 = jnp.arcsinh(2 * N / e)
 
     def cond_fn(val: tuple[int, Array, Array]) -> Array:
         iter_count, H, _ = val
-- 
2.43.0


From 99d6f29861bf85496c4ef9b2781242e24dc107a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:45 +0000
Subject: [PATCH 3/9] fix: prop.kepler can be traced under jit, vmap and jvp

.item() forces concrete values and raises ConcretizationTypeError on tracers.
---
 src/astrodynx/prop/_kepler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index e29e81b..fd3bb4a 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -97,7 +97,7 @@ def kepler(
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
-        jnp.atleast_1d(ts), alpha.item(), r0.item(), sigma0.item(), mu
+        jnp.atleast_1d(ts), alpha, r0, jnp.squeeze(sigma0), mu
     )
     F = lagrange_F(ufunc2(chi, alpha), r0)
     G = lagrange_G(
-- 
2.43.0


From bdfc6e107f42ae3e57c28b091080426572595c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:09 +0000
Subject: [PATCH 4/9] fix: rv2coe resolves the quadrant of argument of
 periapsis and true anomaly

Both angles come from arctan2 of a norm, which only covers [0, pi]: periapsis
south of the equator and states past apoapsis were mapped to the mirrored
angle, so coe2rv(rv2coe(r, v)) did not return (r, v).
---
 src/astrodynx/twobody/_orb_elements.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index bbe096e..426d12d 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -95,13 +95,13 @@ def argument_of_periapsis(node_vec: ArrayLike, e_vec: ArrayLike) -> Array:
         $$
         \omega = \arctan2(\|\boldsymbol{N}\times \boldsymbol{e}\|, \boldsymbol{N} \cdot \boldsymbol{e})
         $$
-        where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector.
+        where $\omega$ is the argument of periapsis, $\boldsymbol{N}$ is the node vector, and $\boldsymbol{e}$ is the eccentricity vector. If $e_z < 0$, $\omega$ is replaced by $2\pi - \omega$.
     """
     argp = jnp.arctan2(
         vector_norm(jnp.cross(node_vec, e_vec), axis=-1, keepdims=True),
         jnp.sum(node_vec * e_vec, axis=-1, keepdims=True),
     )
-    return jnp.where(argp < 0, 2 * jnp.pi + argp, argp)
+    return jnp.where(e_vec[..., 2:3] < 0, 2 * jnp.pi - argp, argp)
 
 
 def rv2coe(
@@ -131,7 +131,7 @@ def rv2coe(
         f &= \arctan2(\|\boldsymbol{e}\times \boldsymbol{r}\|, \boldsymbol{e} \cdot \boldsymbol{r})
         \end{aligned}
         $$
-        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly.
+        where $p$ is the semiparameter, $e$ is the eccentricity vector, $i$ is the inclination, $\Omega$ is the right ascension of the ascending node, $\omega$ is the argument of periapsis, and $f$ is the true anomaly. If $e_z < 0$, $\omega$ is replaced by $2\pi - \omega$; if $\boldsymbol{r} \cdot \boldsymbol{v} < 0$, $f$ is replaced by $2\pi - f$.
 
     References
         Vallado, 2013, pp.114.
@@ -171,6 +171,8 @@ def rv2coe(
     raan = right_ascension(N)
     argp = argument_of_periapsis(N, e_vec)
     true_anom = true_anomaly(pos_vec, e_vec)
+    r_dot_v = jnp.sum(pos_vec * vel_vec, axis=-1, keepdims=True)
+    true_anom = jnp.where(r_dot_v < 0, 2 * jnp.pi - true_anom, true_anom)
     return (
         jnp.squeeze(p, axis=-1),
         jnp.squeeze(e_mag, axis=-1),
-- 
2.43.0


From f865050a7932fbcd6152ae330a40a6f48365322e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:09 +0000
Subject: [PATCH 5/9] fix: coe2rv broadcasts eccentricity against true anomaly

An eccentricity array with a scalar true anomaly, documented as broadcasting,
failed in jnp.stack with mismatched shapes.
---
 src/astrodynx/twobody/_orb_elements.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/astrodynx/twobody/_orb_elements.py b/src/astrodynx/twobody/_orb_elements.py
index 426d12d..d50d4c3 100644
--- a/src/astrodynx/twobody/_orb_elements.py
+++ b/src/astrodynx/twobody/_orb_elements.py
@@ -257,6 +257,7 @@ def coe2rv(
         >>> assert jnp.allclose(pos_vec[1], jnp.array([6525.3677, 6861.5317, 6449.117]))
         >>> assert jnp.allclose(vel_vec[1], jnp.array([4.902279, 5.5331397, -1.9757109]))
     """
+    e, true_anom = jnp.broadcast_arrays(e, true_anom)
     r_pf = jnp.expand_dims(p / (1 + e * jnp.cos(true_anom)), axis=-1) * jnp.stack(
         [jnp.cos(true_anom), jnp.sin(true_anom), jnp.zeros_like(true_anom)], axis=-1
     )
-- 
2.43.0


From 672ea7f6dbc727d1a543722cb4e72e2c4cc12283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:23 +0000
Subject: [PATCH 6/9] fix: prop.kepler is differentiated as the root of
 Kepler's equation

---
 src/astrodynx/prop/_kepler.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index fd3bb4a..a246017 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -2,7 +2,7 @@ import jax.numpy as jnp
 import jax
 from jax.typing import ArrayLike, DTypeLike
 from jax import Array
-from astrodynx.twobody._kep_equ import solve_kepler_uni
+from astrodynx.twobody._kep_equ import kepler_equ_uni, solve_kepler_uni
 from astrodynx.twobody._uniformulas import sigma_fn, ufunc0, ufunc1, ufunc2
 from astrodynx.twobody._orb_integrals import semimajor_axis, equ_of_orb_uvi
 from astrodynx.twobody._lagrange import lagrange_F, lagrange_G, lagrange_Ft, lagrange_Gt
@@ -46,6 +46,22 @@ def _lagrange_prop(
     return F * r0_vec + G * v0_vec, Ft * r0_vec + Gt * v0_vec
 
 
+def _solve_anomaly(
+    deltat: DTypeLike, alpha: DTypeLike, r0: DTypeLike, sigma0: DTypeLike, mu: DTypeLike
+) -> Array:
+    """Generalized anomaly, differentiated as the root of the universal Kepler's equation.
+
+    Differentiating the iterations instead would be wrong when none are taken, that is
+    when the starting guess already solves the equation (circular orbits, zero time).
+    """
+    return jax.lax.custom_root(
+        lambda chi: kepler_equ_uni(chi, alpha, r0, sigma0, deltat, mu),
+        jnp.sqrt(mu) * jnp.abs(alpha) * deltat,
+        lambda _, chi0: solve_kepler_uni(deltat, alpha, r0, sigma0, mu),
+        lambda slope, y: y / slope(jnp.ones_like(y)),
+    )
+
+
 def kepler(
     ts: ArrayLike, r0_vec: ArrayLike, v0_vec: ArrayLike, mu: DTypeLike = 1.0
 ) -> tuple[Array, Array]:
@@ -96,7 +112,7 @@ def kepler(
     alpha = 1.0 / semimajor_axis(r0, v0, mu)
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
-    chi = jax.vmap(solve_kepler_uni, in_axes=(0, None, None, None, None))(
+    chi = jax.vmap(_solve_anomaly, in_axes=(0, None, None, None, None))(
         jnp.atleast_1d(ts), alpha, r0, jnp.squeeze(sigma0), mu
     )
     F = lagrange_F(ufunc2(chi, alpha), r0)
-- 
2.43.0


From 044e2d77c6d5881e12953fd7d71f16d9bc8f72db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:17 +0000
Subject: [PATCH 7/9] fix: universal functions keep their derivative with
 respect to alpha on parabolic orbits

The alpha = 0 branch was constant in alpha, so forward-mode derivatives with
respect to alpha were 0 there instead of -chi^(n+2)/(n+2)!. The first-order term
leaves the value unchanged.
---
 src/astrodynx/twobody/_uniformulas.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/astrodynx/twobody/_uniformulas.py b/src/astrodynx/twobody/_uniformulas.py
index 5cc3c85..acd2def 100644
--- a/src/astrodynx/twobody/_uniformulas.py
+++ b/src/astrodynx/twobody/_uniformulas.py
@@ -97,7 +97,7 @@ def ufunc0(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.cosh(jnp.sqrt(-alpha) * chi),
-            lambda: jnp.ones_like(chi),
+            lambda: 1 - alpha * chi**2 / 2,
         ),
     )
 
@@ -149,7 +149,7 @@ def ufunc1(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: jnp.sinh(jnp.sqrt(-alpha) * chi) / jnp.sqrt(-alpha),
-            lambda: chi,
+            lambda: chi * (1 - alpha * chi**2 / 6),
         ),
     )
 
@@ -201,7 +201,7 @@ def ufunc2(chi: ArrayLike, alpha: DTypeLike) -> Array:
         lambda: jax.lax.cond(
             alpha < 0,
             lambda: (jnp.cosh(jnp.sqrt(-alpha) * chi) - 1) / -alpha,
-            lambda: chi**2 / 2,
+            lambda: chi**2 / 2 * (1 - alpha * chi**2 / 12),
         ),
     )
 
@@ -257,7 +257,7 @@ def ufunc3(chi: ArrayLike, alpha: DTypeLike) -> Array:
             lambda: (jnp.sqrt(-alpha) * chi - jnp.sinh(jnp.sqrt(-alpha) * chi))
             / alpha
             / jnp.sqrt(-alpha),
-            lambda: chi**3 / 6,
+            lambda: chi**3 / 6 * (1 - alpha * chi**2 / 20),
         ),
     )
 
@@ -311,7 +311,7 @@ def ufunc4(chi: ArrayLike, alpha: DTypeLike) -> Array:
             alpha < 0,
             lambda: (alpha * chi**2 - 2 + 2 * jnp.cosh(jnp.sqrt(-alpha) * chi))
             / (2 * alpha**2),
-            lambda: chi**4 / 24,
+            lambda: chi**4 / 24 * (1 - alpha * chi**2 / 30),
         ),
     )
 
@@ -373,6 +373,6 @@ def ufunc5(chi: ArrayLike, alpha: DTypeLike) -> Array:
                 - 6 * jnp.sqrt(-alpha) * jnp.sinh(jnp.sqrt(-alpha) * chi)
             )
             / (6 * alpha**3),
-            lambda: chi**5 / 120,
+            lambda: chi**5 / 120 * (1 - alpha * chi**2 / 42),
         ),
     )
-- 
2.43.0


From 0f8288a52f238430df435badf6cbb855fda63114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:14 +0000
Subject: [PATCH 8/9] fix: prop.kepler is differentiable at parabolic initial
 states

The reciprocal semimajor axis was computed as 1 / (1 / x) with x = 0, whose
derivative is not finite; use x = 2 / r0 - v0^2 / mu itself.
---
 src/astrodynx/prop/_kepler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/astrodynx/prop/_kepler.py b/src/astrodynx/prop/_kepler.py
index a246017..e9ef057 100644
--- a/src/astrodynx/prop/_kepler.py
+++ b/src/astrodynx/prop/_kepler.py
@@ -4,7 +4,7 @@ from jax.typing import ArrayLike, DTypeLike
 from jax import Array
 from astrodynx.twobody._kep_equ import kepler_equ_uni, solve_kepler_uni
 from astrodynx.twobody._uniformulas import sigma_fn, ufunc0, ufunc1, ufunc2
-from astrodynx.twobody._orb_integrals import semimajor_axis, equ_of_orb_uvi
+from astrodynx.twobody._orb_integrals import equ_of_orb_uvi
 from astrodynx.twobody._lagrange import lagrange_F, lagrange_G, lagrange_Ft, lagrange_Gt
 
 
@@ -109,7 +109,7 @@ def kepler(
     """
     r0 = jnp.linalg.vector_norm(r0_vec)
     v0 = jnp.linalg.vector_norm(v0_vec)
-    alpha = 1.0 / semimajor_axis(r0, v0, mu)
+    alpha = 2.0 / r0 - v0**2 / mu
     sigma0 = sigma_fn(r0_vec, v0_vec, mu)
 
     chi = jax.vmap(_solve_anomaly, in_axes=(0, None, None, None, None))(
-- 
2.43.0


From 983a9ca8563a9a03476d5fe5b93e84c6f2a625dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:37 +0000
Subject: [PATCH 9/9] fix: j2_acc does not overflow in single precision

r**5 exceeds the float32 range for radii above 5e7 length units, and the acceleration came out as exactly zero.
---
 src/astrodynx/gravity/_general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynx/gravity/_general.py b/src/astrodynx/gravity/_general.py
index edb44d7..d455625 100644
--- a/src/astrodynx/gravity/_general.py
+++ b/src/astrodynx/gravity/_general.py
@@ -85,7 +85,7 @@ def j2_acc(
     R_eq = args["R_eq"]
     r = jnp.linalg.vector_norm(x[:3])
     zsq_over_rsq = (x[2] / r) ** 2
-    factor = -1.5 * mu * J2 * R_eq**2 / r**5
+    factor = -1.5 * mu * J2 * (R_eq / r) ** 2 / r**3
     ax = factor * x[0] * (1 - 5 * zsq_over_rsq)
     ay = factor * x[1] * (1 - 5 * zsq_over_rsq)
     az = factor * x[2] * (3 - 5 * zsq_over_rsq)
-- 
2.43.0

