From c22465adc9eadd84d4989d208f24c7d27c293369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 01/42] fix: ObjectStack.vmap honours negative in_axes when
 looping over objects

The loop used for objects with different Pytree structures indexed axis 0
for every negative in_axes, unlike jax.vmap.
---
 src/jaxoplanet/object_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/object_stack.py b/src/jaxoplanet/object_stack.py
index 6668edf..ad81b57 100644
--- a/src/jaxoplanet/object_stack.py
+++ b/src/jaxoplanet/object_stack.py
@@ -130,7 +130,7 @@ def index_helper(n, arg, axis):
     if axis is None:
         return arg
     else:
-        idx = (slice(None),) * axis + (n,)
+        idx = (slice(None),) * (axis % jnpu.ndim(arg)) + (n,)
         return arg[idx]
 
 
-- 
2.43.0


From 9331ba580ef687d9922615311f84b16bd809621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 02/42] fix: scale a body's stored RV semi-amplitude in
 velocity and relative_velocity

With radial_velocity_semiamplitude set on the body, both methods returned the
central's velocity, while passing the same semi-amplitude as an argument did not.
---
 src/jaxoplanet/orbits/keplerian.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 77fc96a..2a728a9 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -472,6 +472,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``R_sun/day``.
         """
+        if semiamplitude is None and self.mass is not None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.central.mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
@@ -515,6 +517,8 @@ class OrbitalBody(eqx.Module):
             The components of the velocity vector at ``t`` in units of
             ``M_sun/day``.
         """
+        if semiamplitude is None and self.mass is not None:
+            semiamplitude = self.radial_velocity_semiamplitude
         if semiamplitude is None:
             mass: Quantity = -self.total_mass  # type: ignore
             return self._get_position_and_velocity(t, mass=mass)[1]
-- 
2.43.0


From cad5e0cda2d75e9b4a37a2527dc491fcf4cea062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:05 +0000
Subject: [PATCH 03/42] fix: integrate passes keyword arguments through to the
 light curve function

They were mapped over their leading axis along with the exposure stencil.
---
 src/jaxoplanet/light_curves/transforms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 6c2a0e9..7dad2e1 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -3,7 +3,7 @@
 
 __all__ = ["integrate", "interpolate"]
 
-from functools import wraps
+from functools import partial, wraps
 from typing import Any
 
 import jax
@@ -106,9 +106,11 @@ def integrate(
                 "on GitHub demonstrating the problem"
             )
 
-        f = lu.wrap_init(jax.vmap(func, in_axes=(0,) + (None,) * len(args)))
+        # bind 'kwargs' here, because 'vmap' would map over their leading axes
+        f = jax.vmap(partial(func, **kwargs), in_axes=(0,) + (None,) * len(args))
+        f = lu.wrap_init(f)
         f = apply_exposure_time_integration(f, stencil, dt)  # type: ignore
-        return f.call_wrapped(time, args, kwargs)  # type: ignore
+        return f.call_wrapped(time, args, {})  # type: ignore
 
     return wrapped
 
-- 
2.43.0


From cefe7d0c6a711b2c8e981cccaa70a18f2c004da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 04/42] fix: integrate contracts the stencil axis of higher
 dimensional outputs

Light curve functions returning two or more dimensions per time had the wrong
axis contracted (or failed) because of the semantics of 'dot'.
---
 src/jaxoplanet/light_curves/transforms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 7dad2e1..1a2f9fc 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -118,7 +118,9 @@ def integrate(
 @lu.transformation  # type: ignore
 def apply_exposure_time_integration(stencil, dt, time, args, kwargs):
     result = yield (time + dt,) + args, kwargs
-    yield jnpu.dot(stencil, result)
+    # the stencil axis comes first, and 'dot' would only contract that for ndim <= 2
+    stencil = jnp.reshape(stencil, (-1,) + (1,) * (jnpu.ndim(result) - 1))
+    yield jnpu.sum(result * stencil, axis=0)
 
 
 @units.quantity_input(period=ureg.day, time_transit=ureg.day, duration=ureg.day)
-- 
2.43.0


From 41c4f27b6b0cd146b5fa87a950c2bc363308b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 05/42] fix: integrate uses at least three samples for the
 trapezoid and Simpson's rules

With num_samples=1, these schemes only evaluated the model at the start of the
exposure.
---
 src/jaxoplanet/light_curves/transforms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index 1a2f9fc..b883d96 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -73,6 +73,9 @@ def integrate(
     # Ensure 'num_samples' is an odd number
     num_samples = int(num_samples)
     num_samples += 1 - num_samples % 2
+    if order > 0:
+        # The trapezoid and Simpson's rules always include both ends of the exposure
+        num_samples = max(num_samples, 3)
     stencil = jnp.ones(num_samples)
 
     # Construct exposure time integration stencil
-- 
2.43.0


From e43d841dfc0499a9403512136a25ed1fcdf2553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 06/42] fix: interpolate supports light curve functions with
 more than one output

The light curve of a keplerian System has one column per body, but 'jnp.interp'
only accepts one dimensional models.
---
 src/jaxoplanet/light_curves/transforms.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/light_curves/transforms.py b/src/jaxoplanet/light_curves/transforms.py
index b883d96..4136e83 100644
--- a/src/jaxoplanet/light_curves/transforms.py
+++ b/src/jaxoplanet/light_curves/transforms.py
@@ -190,14 +190,21 @@ def interpolate(
             + 0.5 * period
             + time_transit
         )
-        flux = jnp.interp(
-            time_wrapped.magnitude,
-            time_grid.magnitude,
-            flux_magnitude,
-            left=flux_magnitude[0],
-            right=flux_magnitude[-1],
-            period=period.magnitude,
-        )
+
+        def interp(grid: Array) -> Array:
+            return jnp.interp(
+                time_wrapped.magnitude,
+                time_grid.magnitude,
+                grid,
+                left=grid[0],
+                right=grid[-1],
+                period=period.magnitude,
+            )
+
+        for _ in jnp.shape(flux_magnitude)[1:]:
+            interp = jax.vmap(interp, in_axes=-1, out_axes=-1)
+        flux = interp(flux_magnitude)
+
         if flux_units is None:
             return flux
         else:
-- 
2.43.0


From fa41a87d5c50420ddeca35017749c0fa24296600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 07/42] fix: TTVOrbit converts transit_times and ttvs
 quantities to days

Quantities in any other time unit were stripped of their unit.
---
 src/jaxoplanet/orbits/ttv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index c4f9864..5bad10a 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -133,7 +133,7 @@ class TTVOrbit(TransitOrbit):
         # CASE 1: transit_times are provided
         if transit_times is not None:
             self.transit_times = tuple(
-                jnp.atleast_1d(ensure_quantity(tt, ureg.d).magnitude)
+                jnp.atleast_1d(ensure_quantity(tt, ureg.d).to(ureg.d).magnitude)
                 for tt in transit_times
             )
             if transit_inds is None:
@@ -181,8 +181,8 @@ class TTVOrbit(TransitOrbit):
             # In the TTVs branch of __init__
             self.ttvs = tuple(
                 jnp.atleast_1d(
-                    ensure_quantity(ttv, ureg.d).magnitude
-                    - jnp.mean(ensure_quantity(ttv, ureg.d).magnitude)
+                    ensure_quantity(ttv, ureg.d).to(ureg.d).magnitude
+                    - jnp.mean(ensure_quantity(ttv, ureg.d).to(ureg.d).magnitude)
                 )
                 for ttv in ttvs
             )
-- 
2.43.0


From e723b91e9d911d48b55775ee12a3fd7264ae33c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 08/42] fix: TTVOrbit accepts ttvs under jit and for several
 planets with the default t0

The reconstruction of the transit times called '.item()', which needs concrete
single element arrays.
---
 src/jaxoplanet/orbits/ttv.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/jaxoplanet/orbits/ttv.py b/src/jaxoplanet/orbits/ttv.py
index 5bad10a..a4bcd73 100644
--- a/src/jaxoplanet/orbits/ttv.py
+++ b/src/jaxoplanet/orbits/ttv.py
@@ -200,16 +200,9 @@ class TTVOrbit(TransitOrbit):
             transit_times_list = []
             for ttv, inds in zip(self.ttvs, self.transit_inds, strict=False):
                 # Handle single-planet t0 and period versus multi-planet cases.
-                if self.t0.ndim > 0 and self.t0.shape[0] > 1:
-                    t0_i = self.t0[len(transit_times_list)]
-                    period_i = self.ttv_period[len(transit_times_list)]
-                else:
-                    t0_i = self.t0.item() if hasattr(self.t0, "item") else self.t0
-                    period_i = (
-                        self.ttv_period.item()
-                        if hasattr(self.ttv_period, "item")
-                        else self.ttv_period
-                    )
+                n = len(transit_times_list)
+                t0_i = self.t0[n if self.t0.shape[0] > 1 else 0]
+                period_i = self.ttv_period[n if self.ttv_period.shape[0] > 1 else 0]
                 transit_times_list.append(t0_i + period_i * inds + ttv)
             self.transit_times = tuple(transit_times_list)
 
-- 
2.43.0


From e12a371c5c0108998b4a1c443cf5a3c3cccf710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 09/42] fix: apply the surface amplitude to the light curve of
 an occulted uniform map

The shortcut for ydeg=0 ignored the amplitude, unlike every other code path (and
the same surface without an occultor). See issue #268.
---
 src/jaxoplanet/starry/light_curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index c8ac0b8..3bf514c 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,7 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return 1.0 + jnp.where(b_occ, lc, 0)
+            return surface.amplitude * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From 79ea84921411fa842520fb0d654f74db96d452a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 10/42] fix: apply the amplitude of the central surface in the
 emission light curve

The central was the only surface of the system whose amplitude was ignored.
---
 src/jaxoplanet/light_curves/emission.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index f97da38..1a0856c 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -40,7 +40,7 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
 
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
         lc = lc_func(b.magnitude, r.magnitude)
-        lc = jnp.where(z > 0, lc, 0.0).sum(0) + 1
+        lc = system.central_surface.amplitude * (jnp.where(z > 0, lc, 0.0).sum(0) + 1)
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
-- 
2.43.0


From fccb23708368567186ee9d494980ced1d69a9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 11/42] fix: emission light curve supports bodies without a
 surface

Such bodies contribute zero flux in every other observable of a SurfaceSystem.
---
 src/jaxoplanet/light_curves/emission.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index 1a0856c..e370e97 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -44,6 +44,11 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
 
         bodies_lc = []
         for body, surface in zip(system.bodies, system.body_surfaces, strict=False):
+            # a body without a surface doesn't emit
+            if surface is None:
+                bodies_lc.append(0.0)
+                continue
+
             x, y, z = body.relative_position(time)
             b = jnpu.sqrt(x**2 + y**2) / body.radius
             r = r_star / body.radius
-- 
2.43.0


From fd8e4a1be0a0985d3a3a7aefefab5e4057f4306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 12/42] fix: the equatorial velocity of a surface without a
 period is None

The Doppler expansion treats a velocity of None as no rotation, but evaluating it
for a map that doesn't rotate raised a TypeError.
---
 src/jaxoplanet/starry/surface.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 6a93648..33206ee 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -137,6 +137,8 @@ class Surface(eqx.Module):
     @property
     def veq(self):
         """Equatorial velocity of the map in Rsun/day."""
+        if self.period is None:
+            return None
         return 2 * jnp.pi * self.radius / self.period
 
     def _poly_basis(self, rv=False):
-- 
2.43.0


From 23ee5439713a1cfe19c7743f83827306824b7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 13/42] fix: radial_velocity of a SurfaceSystem for any number
 of bodies and time shape

Only the orbit of the first body contributed to the central's velocity, a system
without bodies failed, and so did any time that wasn't one dimensional.
---
 src/jaxoplanet/starry/doppler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 7a9ab36..13af6b0 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -173,7 +173,10 @@ def radial_velocity(system, order=20):
 
     def impl(time):
         rvs = bodies_rv(time)
-        rvs = rvs.at[:, 0].set(rvs[:, 0] + system.radial_velocity(time)[0].magnitude)
-        return rvs
+        if len(system.bodies) == 0:
+            return rvs
+        # the reflex motion of the central is the sum over the orbits of all bodies
+        orbital_rv = system.radial_velocity(time).magnitude.sum(0)
+        return rvs.at[..., 0].add(orbital_rv)
 
     return impl
-- 
2.43.0


From 2a1b20f5213321d4db8a235e0c085c875207f715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 14/42] fix: dot_rotation_matrix honours the sign of z for
 rotations about the z axis

A rotation about -z was applied about +z, which made right_project wrong for a map
with an obliquity and no inclination.
---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index c819e8d..5883338 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -40,7 +40,7 @@ def dot_rotation_matrix(ydeg, x, y, z, theta):
         if z is None:
             raise ValueError("Either x, y, or z must be specified")
 
-        return dot_rz(ydeg, theta)
+        return dot_rz(ydeg, jnp.sign(z) * theta)
 
     x = 0.0 if x is None else x
     y = 0.0 if y is None else y
-- 
2.43.0


From e36cc5b0e244d40069f19cf12978d9b17df67504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 15/42] fix: multiprecision left_project with a non zero
 theta_z

The rotation axis was passed as three arguments, raising a TypeError.
---
 src/jaxoplanet/starry/multiprecision/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/multiprecision/rotation.py b/src/jaxoplanet/starry/multiprecision/rotation.py
index 54637a0..bacef70 100644
--- a/src/jaxoplanet/starry/multiprecision/rotation.py
+++ b/src/jaxoplanet/starry/multiprecision/rotation.py
@@ -211,7 +211,7 @@ def left_project(deg, inc, obl, theta, theta_z, x):
     )(x)
 
     if theta_z != 0:
-        x = dot_rotation_matrix(deg, 0, 0, 1.0, -theta_z)(x)
+        x = dot_rotation_matrix(deg, (0.0, 0.0, 1.0), -theta_z)(x)
     return x.T
 
 
-- 
2.43.0


From 11453695d7951d26abbf5e09a2c47bba3df45681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:58 +0000
Subject: [PATCH 16/42] fix: Ylm.normalize raises the documented ValueError for
 a zero (0, 0) coefficient

It returned infinities or nans instead, or raised a KeyError when the coefficient
was missing.
---
 src/jaxoplanet/starry/ylm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index b85cdb2..c93271d 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -110,7 +110,10 @@ class Ylm(eqx.Module):
         Raises:
             ValueError: if the (0, 0) coefficient is zero.
         """
-        data = {k: v / self.data[(0, 0)] for k, v in self.data.items()}
+        y00 = self.data.get((0, 0), 0.0)
+        if not isinstance(y00, jax.core.Tracer) and jnp.all(y00 == 0.0):
+            raise ValueError("Cannot normalize when the (0, 0) coefficient is zero")
+        data = {k: v / y00 for k, v in self.data.items()}
         return Ylm(data=data)
 
     def tosparse(self) -> BCOO:
-- 
2.43.0


From bd6a7fc85f352f4d1eb5f6c8ece7949472fe4e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:21 +0000
Subject: [PATCH 17/42] fix: the product of two Ylm maps is the map of the
 product of their intensities

The product left out the (0, 0, 0) Wigner 3j symbols, so that it was wrong for
everything but l=0, and it used the selection rules of the complex spherical
harmonics for the coefficients of real ones.
---
 src/jaxoplanet/starry/ylm.py | 40 ++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index c93271d..4881114 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -177,7 +177,41 @@ class Ylm(eqx.Module):
 
 
 def _mul(f: Ylm, g: Ylm) -> Ylm:
-    """
+    # For m=0, the real and complex spherical harmonics are the same
+    if f.diagonal and g.diagonal:
+        return _mul_complex(f, g)
+    return _complex_to_real(_mul_complex(_real_to_complex(f), _real_to_complex(g)))
+
+
+def _real_to_complex(y: Ylm) -> Ylm:
+    """Coefficients of a real map in the basis of complex spherical harmonics"""
+    data = {}
+    for ell, m in {(ell, abs(m)) for ell, m in y.data}:
+        if m == 0:
+            data[(ell, 0)] = y.data[(ell, 0)]
+        else:
+            cos = y.data.get((ell, m), 0.0) / math.sqrt(2)
+            sin = y.data.get((ell, -m), 0.0) / math.sqrt(2)
+            data[(ell, m)] = (-1) ** m * (cos - 1j * sin)
+            data[(ell, -m)] = cos + 1j * sin
+    return Ylm(data)
+
+
+def _complex_to_real(y: Ylm) -> Ylm:
+    """The inverse of ``_real_to_complex``, for a map that is known to be real"""
+    data = {}
+    for (ell, m), value in y.data.items():
+        if m == 0:
+            data[(ell, 0)] = jnp.real(value)
+        elif m < 0:
+            data[(ell, -m)] = math.sqrt(2) * jnp.real(value)
+            data[(ell, m)] = math.sqrt(2) * jnp.imag(value)
+    return Ylm(data)
+
+
+def _mul_complex(f: Ylm, g: Ylm) -> Ylm:
+    """The product of two maps in the basis of complex spherical harmonics
+
     Based closely on the implementation from the MIT-licensed spherical package:
 
     https://github.com/moble/spherical/blob/0aa81c309cac70b90f8dfb743ce35d2cc9ae6dee/
@@ -187,6 +221,7 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
     ellmax_g = g.deg
     ellmax_fg = ellmax_f + ellmax_g
     fg = defaultdict(lambda *_: 0.0)
+    s_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
     m_calculator = Wigner3jCalculator(ellmax_f, ellmax_g)
     for ell1 in range(ellmax_f + 1):
         sqrt1 = math.sqrt((2 * ell1 + 1) / (4 * math.pi))
@@ -197,7 +232,7 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
             sum1 = sqrt1 * f.data[idx1]
             for ell2 in range(ellmax_g + 1):
                 sqrt2 = math.sqrt(2 * ell2 + 1)
-                # w3j_s = s_calculator.calculate(ell1, ell2, s_f, s_g)
+                w3j_s = s_calculator.calculate(ell1, ell2, 0, 0)
                 for m2 in range(-ell2, ell2 + 1):
                     idx2 = (ell2, m2)
                     if idx2 not in g.data:
@@ -214,6 +249,7 @@ def _mul(f: Ylm, g: Ylm) -> Ylm:
                             (
                                 math.pow(-1, ell1 + ell2 + ell3 + m3)
                                 * math.sqrt(2 * ell3 + 1)
+                                * w3j_s[ell3]  # Wigner3j(ell1, ell2, ell3, 0, 0, 0)
                                 * w3j_m[ell3]  # Wigner3j(ell1, ell2, ell3, m1, m2, -m3)
                             )
                             * sum1
-- 
2.43.0


From 62a49a04cd48d6a0c37dd38b56d53b433c68c46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:37 +0000
Subject: [PATCH 18/42] fix: reference anomaly of a transit at an argument of
 periastron of -pi/2

With sin_omega_peri=-1 and cos_omega_peri=0 both arguments of arctan2 vanished,
which put the transit at periastron instead of apastron, and close to that the
transit geometry lost half of the significant digits to cancellation.
---
 src/jaxoplanet/orbits/keplerian.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/orbits/keplerian.py b/src/jaxoplanet/orbits/keplerian.py
index 2a728a9..4558df0 100644
--- a/src/jaxoplanet/orbits/keplerian.py
+++ b/src/jaxoplanet/orbits/keplerian.py
@@ -321,10 +321,9 @@ class OrbitalBody(eqx.Module):
         else:
             assert self.sin_omega_peri is not None
             assert self.cos_omega_peri is not None
-            opsw = 1 + self.sin_omega_peri
-            E0 = 2 * jnpu.arctan2(
-                jnpu.sqrt(1 - self.eccentricity) * self.cos_omega_peri,
-                jnpu.sqrt(1 + self.eccentricity) * opsw,
+            E0 = jnpu.arctan2(
+                jnpu.sqrt(1 - self.eccentricity**2) * self.cos_omega_peri,
+                self.eccentricity + self.sin_omega_peri,
             )
             M0 = E0 - self.eccentricity * jnpu.sin(E0)
 
-- 
2.43.0


From 4855b44616e4f8ebb7ed102ac8b85cfffe1458cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 19/42] fix: limb darkened flux and gradients when the limbs
 coincide or touch exactly

At (b, r) = (0, 1), a full occultation by a body of the same size, only the flux of a
uniform star was blocked, and the gradients at (0, 1) and (1, 0) were NaN.
---
 src/jaxoplanet/core/limb_dark.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index f6bb92b..c08cc9f 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -105,7 +105,12 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array, Array]:
     cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(cond, b, jnp.ones_like(b))
     area: Array = jnp.where(cond, kite_area(r, b_, jnp.ones_like(r)), jnp.zeros_like(r))
-    return area, jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+    # The signs of these select 0 or pi when the limbs don't intersect, but one of them is
+    # exactly zero for (b, r) = (1, 0), no occultation, and (0, 1), a full occultation
+    x0, x1 = b2 + factor, b2 - factor
+    x0 = jnp.where(jnp.logical_or(cond, x0 != 0), x0, jnp.ones_like(x0))
+    x1 = jnp.where(jnp.logical_or(cond, x1 != 0), x1, -jnp.ones_like(x1))
+    return area, jnp.arctan2(area, x0), jnp.arctan2(area, x1)
 
 
 def s0s2(
-- 
2.43.0


From a536f59be8ca962ab3dce1dffd20e235d11cd6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 20/42] fix: gradients of the light curves for exactly
 concentric discs

The derivative of the projected separation was NaN when it is exactly zero, which is what
the default impact parameter gives at mid transit.
---
 src/jaxoplanet/light_curves/emission.py  | 12 +++++++-----
 src/jaxoplanet/light_curves/limb_dark.py |  8 +++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/jaxoplanet/light_curves/emission.py b/src/jaxoplanet/light_curves/emission.py
index e370e97..6681bd2 100644
--- a/src/jaxoplanet/light_curves/emission.py
+++ b/src/jaxoplanet/light_curves/emission.py
@@ -10,6 +10,7 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.starry.orbit import SurfaceSystem
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity], Array]:
@@ -33,13 +34,14 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
         r_star = system.central.radius
         x, y, z = system.relative_position(time)
 
-        b = jnpu.sqrt(x**2 + y**2) / r_star
-        assert b.units == ureg.dimensionless
+        b2 = (x**2 + y**2) / r_star**2
+        assert b2.units == ureg.dimensionless
+        b = zero_safe_sqrt(b2.magnitude)
         r = system.radius / r_star
         assert r.units == ureg.dimensionless
 
         lc_func = partial(_limb_dark_light_curve, system.central_surface.u, order=order)
-        lc = lc_func(b.magnitude, r.magnitude)
+        lc = lc_func(b, r.magnitude)
         lc = system.central_surface.amplitude * (jnp.where(z > 0, lc, 0.0).sum(0) + 1)
 
         bodies_lc = []
@@ -50,11 +52,11 @@ def light_curve(system: SurfaceSystem, order: int = 10) -> Callable[[Quantity],
                 continue
 
             x, y, z = body.relative_position(time)
-            b = jnpu.sqrt(x**2 + y**2) / body.radius
+            b = zero_safe_sqrt(((x**2 + y**2) / body.radius**2).magnitude)
             r = r_star / body.radius
 
             lc_func = partial(_limb_dark_light_curve, surface.u, order=order)
-            lc_body = lc_func(b.magnitude, r.magnitude)
+            lc_body = lc_func(b, r.magnitude)
             lc_body = surface.amplitude * (1 + jnp.where(z < 0, lc_body, 0))
 
             bodies_lc.append(lc_body)
diff --git a/src/jaxoplanet/light_curves/limb_dark.py b/src/jaxoplanet/light_curves/limb_dark.py
index 018b662..276172f 100644
--- a/src/jaxoplanet/light_curves/limb_dark.py
+++ b/src/jaxoplanet/light_curves/limb_dark.py
@@ -12,6 +12,7 @@ from jaxoplanet.light_curves.utils import vectorize
 from jaxoplanet.proto import LightCurveOrbit
 from jaxoplanet.types import Array, Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 def light_curve(
@@ -53,13 +54,14 @@ def light_curve(
         r_star = orbit.central_radius
         x, y, z = orbit.relative_position(time)
 
-        b = jnpu.sqrt(x**2 + y**2) / r_star
-        assert b.units == ureg.dimensionless
+        b2 = (x**2 + y**2) / r_star**2
+        assert b2.units == ureg.dimensionless
+        b = zero_safe_sqrt(b2.magnitude)
         r = orbit.radius / r_star
         assert r.units == ureg.dimensionless
 
         lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
-        lc = lc_func(b.magnitude, r.magnitude)
+        lc = lc_func(b, r.magnitude)
         lc = jnp.where(z > 0, lc, 0)
 
         return lc
-- 
2.43.0


From 826de2d73adad4140ce85fd7773ac1b314ea3f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 21/42] fix: keep the line integral of the linear term at the
 limb of the star

The integrand was dropped where z**2 underflows the safe threshold, which costs
sqrt(eps) at the contact points (1e-3 in single precision) and the whole linear term for
an occultor of the same size close to the centre.
---
 src/jaxoplanet/core/limb_dark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index c08cc9f..8a55ee7 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -172,7 +172,7 @@ def p_integral(
         z2 = 1 - omz2
         m = jnp.less(z2, 10 * jnp.finfo(omz2.dtype).eps)
         z2 = jnp.where(m, jnp.ones_like(z2), z2)
-        z3 = z2 * zero_safe_sqrt(z2)
+        z3 = jnp.where(m, jnp.zeros_like(z2), z2 * zero_safe_sqrt(z2))
         cond = jnp.less(omz2, 10 * jnp.finfo(omz2.dtype).eps)
         omz2 = jnp.where(cond, jnp.ones_like(z2), omz2)
         result = 2 * r * (r - b * c) * (1 - z3) / (3 * omz2)
-- 
2.43.0


From fc87e2858f993c54ce73d322429f9afd1f565d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 22/42] fix: a fully occulted star is either fully or partially
 occulted for all terms

When b and r - 1 agree to rounding, the two conditions could disagree, and the linear term
was then off by sqrt(eps).
---
 src/jaxoplanet/core/limb_dark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index 8a55ee7..063525b 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -58,7 +58,8 @@ def solution_vector(l_max: int, order: int = 10) -> Callable[[Array, Array], Arr
         area, kappa0, kappa1 = kappas(b, r)
 
         no_occ = jnp.greater_equal(b, 1 + r)
-        full_occ = jnp.less_equal(1 + b, r)
+        # rounded like the condition for a partial occultation in 'kappas'
+        full_occ = jnp.less_equal(b, r - 1)
         cond = jnp.logical_or(no_occ, full_occ)
         b_: Array = jnp.where(cond, jnp.ones_like(b), b)
 
-- 
2.43.0


From e6c5c0c536524878b6cee3ec0ea1f4665833a949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 23/42] fix: latitude and longitude given to Surface.intensity
 point north and east

---
 src/jaxoplanet/starry/surface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index 33206ee..a3937d8 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -215,8 +215,8 @@ class Surface(eqx.Module):
         Returns:
             float: intensity of the map at the given latitude and longitude
         """
-        lon = lon + jnp.pi / 2  # convention, 0 lon faces the observer
-        lat = jnp.pi / 2 - lat  # convention, latitude 0 is equator
+        lon = jnp.pi / 2 - lon  # convention, 0 lon faces the observer, east is +x
+        lat = jnp.pi / 2 + lat  # convention, latitude 0 is equator, north is +y
         x = jnp.sin(lat) * jnp.cos(lon)
         y = jnp.sin(lat) * jnp.sin(lon)
         z = jnp.cos(lat) * jnp.ones_like(x)
-- 
2.43.0


From 4d9507a4a42834382c54dcb208d735ce28098869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 24/42] fix: a map seen from the pole is rolled by its
 obliquity like any other map

---
 src/jaxoplanet/starry/core/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 5883338..1be55b0 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -157,7 +157,7 @@ def sky_projection_axis_angle(inc: float | None, obl: float | None):
         return 1.0, None, None, inc
 
     elif inc is None:
-        return None, None, 1.0, obl
+        return None, None, -1.0, obl
 
     else:
         co = jnp.cos(obl / 2)
-- 
2.43.0


From c3706b4152ccc9d06bf707907d2b335b66a024a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:07 +0000
Subject: [PATCH 25/42] fix: apply the (0, 0) coefficient of an occulted
 uniform map that is not normalized

---
 src/jaxoplanet/starry/light_curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index 3bf514c..de7dbb6 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -91,7 +91,7 @@ def surface_light_curve(
 
             lc_func = partial(_limb_dark_light_curve, ld_u, order=order)
             lc = lc_func(b, r)
-            return surface.amplitude * (1.0 + jnp.where(b_occ, lc, 0))
+            return surface.amplitude * surface.y[(0, 0)] * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
             theta_z = jnp.arctan2(x, y)
-- 
2.43.0


From a4cb6c79e7e963f758075bba61dff9c43106e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:04 +0000
Subject: [PATCH 26/42] fix: the occultation of a mapped surface by a
 concentric body of its size is total

---
 src/jaxoplanet/starry/core/solution.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index 8536bac..5b34ab7 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -33,7 +33,12 @@ def kappas(b: Array, r: Array) -> tuple[Array, Array]:
     b_cond = jnp.logical_and(jnp.greater(b, jnp.abs(1 - r)), jnp.less(b, 1 + r))
     b_ = jnp.where(b_cond, b, 1)
     area = jnp.where(b_cond, kite_area(r, b_, 1), 0)
-    return jnp.arctan2(area, b2 + factor), jnp.arctan2(area, b2 - factor)
+    # The signs of these select 0 or pi when the limbs don't intersect, but one of them is
+    # exactly zero for (b, r) = (1, 0), no occultation, and (0, 1), a full occultation
+    x0, x1 = b2 + factor, b2 - factor
+    x0 = jnp.where(jnp.logical_or(b_cond, x0 != 0), x0, 1)
+    x1 = jnp.where(jnp.logical_or(b_cond, x1 != 0), x1, -1)
+    return jnp.arctan2(area, x0), jnp.arctan2(area, x1)
 
 
 def q_integral(l_max: int, lam: Array) -> Array:
-- 
2.43.0


From 99667fa2b74c607b4ca4a082a015baa3cc8e7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:00 +0000
Subject: [PATCH 27/42] fix: polynomial_product_matrix derives the degree of
 the polynomial from its size

---
 src/jaxoplanet/starry/core/polynomials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/polynomials.py b/src/jaxoplanet/starry/core/polynomials.py
index 26acbad..336aeab 100644
--- a/src/jaxoplanet/starry/core/polynomials.py
+++ b/src/jaxoplanet/starry/core/polynomials.py
@@ -180,7 +180,7 @@ def polynomial_product_matrix(p, degree):
         Array: The polynomial product matrix.
     """
     p = jnp.array(p)
-    deg_p = int(np.floor(np.sqrt(len(p))))
+    deg_p = int(np.floor(np.sqrt(len(p)))) - 1
     M = jnp.zeros(
         ((deg_p + degree + 1) * (deg_p + degree + 1), (degree + 1) * (degree + 1))
     )
-- 
2.43.0


From f2c7579bec69a2b0eb6c0db47169d1e62b82efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:26 +0000
Subject: [PATCH 28/42] fix: surfaces with differential rotation have a radial
 velocity

---
 src/jaxoplanet/starry/doppler.py | 4 ++--
 src/jaxoplanet/starry/surface.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 13af6b0..d1876a6 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -26,7 +26,7 @@ def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
     sq3 = jnp.sqrt(3)
 
     if veq is None:
-        return jnp.array([0.0, 0.0, 0.0, 0.0])
+        return jnp.zeros(4 if alpha is None else 16)
 
     if alpha is None:
         return jnp.array([0.0, veq * sq3 * B / 3, 0, veq * sq3 * A / 3]) * jnp.pi
@@ -147,7 +147,7 @@ def surface_radial_velocity(
 
     # the radial velocity map
     y_rv = rv_map_expansion(
-        inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=None
+        inc=surface._inc, obl=surface._obl, veq=surface.veq, alpha=surface.shear
     )
 
     # rotated to account for the occultor
diff --git a/src/jaxoplanet/starry/surface.py b/src/jaxoplanet/starry/surface.py
index a3937d8..bfa9a54 100644
--- a/src/jaxoplanet/starry/surface.py
+++ b/src/jaxoplanet/starry/surface.py
@@ -159,7 +159,7 @@ class Surface(eqx.Module):
     @property
     def vdeg(self) -> int:
         if self.shear is not None:
-            return
+            return 3
         else:
             return 1
 
@@ -179,7 +179,7 @@ class Surface(eqx.Module):
 
         if rv:
             y_rv = starry.doppler.rv_map_expansion(
-                inc=self._inc, obl=self._obl, veq=self.veq, alpha=None
+                inc=self._inc, obl=self._obl, veq=self.veq, alpha=self.shear
             )
             p_rv = Pijk.from_dense(
                 jax.experimental.sparse.BCOO.from_scipy_sparse(A1(self.vdeg)).todense()
-- 
2.43.0


From 8647435fbddebc99f616dd3f9f76bd056b5ac2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:39 +0000
Subject: [PATCH 29/42] fix: a surface seen from the pole has no rotational
 velocity along the line of sight

---
 src/jaxoplanet/starry/doppler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index d1876a6..ffeda3b 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -13,8 +13,8 @@ from jaxoplanet.starry.system_observable import system_observable
 
 
 def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
-    cosi = jnp.cos(inc) if inc is not None else 0.0
-    sini = jnp.sin(inc) if inc is not None else 1.0
+    cosi = jnp.cos(inc) if inc is not None else 1.0
+    sini = jnp.sin(inc) if inc is not None else 0.0
     cosl = jnp.cos(obl) if obl is not None else 1.0
     sinl = jnp.sin(obl) if obl is not None else 0.0
     A = sini * cosl
-- 
2.43.0


From db2d63702b8bc3e3f76f7d90129973e77ddfd3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 30/42] fix: full_rotation_axis_angle resolves small angles and
 whole turns

---
 src/jaxoplanet/starry/core/rotation.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 1be55b0..149963a 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -119,21 +119,19 @@ def full_rotation_axis_angle(
     numerator1 = f * (-si * cm + ci * cp)
     numerator2 = f * (-si * sm + sp * ci)
     numerator3 = f * (si * sm + sp * ci)
-    arg = si * cm + ci * cp
-    denominator = jnp.sqrt(1 - 0.5 * arg**2)
-
-    farg = f * arg
-    zero_angle = jnp.allclose(farg, 1.0, atol=get_dtype_eps(farg))
-    angle = jnp.where(zero_angle, 0.0, 2 * jnp.arccos(farg))
-
-    non_zero_angle = jnp.logical_not(zero_angle)
+    cos_half_angle = f * (si * cm + ci * cp)
+
+    # the arccos of cos_half_angle would not resolve small angles
+    sin2_half_angle = numerator1**2 + numerator2**2 + numerator3**2
+    non_zero_angle = sin2_half_angle > 0.0
+    sin_half_angle = jnp.sqrt(jnp.where(non_zero_angle, sin2_half_angle, 1.0))
+    angle = jnp.where(
+        non_zero_angle, 2 * jnp.arctan2(sin_half_angle, cos_half_angle), 0.0
+    )
 
-    # this is mostly useful for the float32 case, where
-    # (1 - 0.5 * arg**2) in denominator can be negative due to numerical error
-    positive_arg = arg**2 < 2.0
-    axis_x = jnp.where(positive_arg & non_zero_angle, numerator1 / denominator, 1.0)
-    axis_y = jnp.where(positive_arg & non_zero_angle, numerator2 / denominator, 0.0)
-    axis_z = jnp.where(positive_arg & non_zero_angle, numerator3 / denominator, 0.0)
+    axis_x = jnp.where(non_zero_angle, numerator1 / sin_half_angle, 1.0)
+    axis_y = jnp.where(non_zero_angle, numerator2 / sin_half_angle, 0.0)
+    axis_z = jnp.where(non_zero_angle, numerator3 / sin_half_angle, 0.0)
 
     return axis_x, axis_y, axis_z, angle
 
-- 
2.43.0


From 3478cf76978f209ed93bca7ecc8da56abb92415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:54 +0000
Subject: [PATCH 31/42] fix: normalize checks for a zero (0, 0) coefficient
 also while other values are traced

---
 src/jaxoplanet/starry/ylm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index 4881114..747a8fe 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -111,7 +111,7 @@ class Ylm(eqx.Module):
             ValueError: if the (0, 0) coefficient is zero.
         """
         y00 = self.data.get((0, 0), 0.0)
-        if not isinstance(y00, jax.core.Tracer) and jnp.all(y00 == 0.0):
+        if not isinstance(y00, jax.core.Tracer) and np.all(np.asarray(y00) == 0.0):
             raise ValueError("Cannot normalize when the (0, 0) coefficient is zero")
         data = {k: v / y00 for k, v in self.data.items()}
         return Ylm(data=data)
-- 
2.43.0


From c4e33ecf00a69098fe8422e46ae0837f5d4a3799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 32/42] fix: poly_basis (and so Surface.intensity) has reverse
 mode derivatives

---
 src/jaxoplanet/starry/core/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/core/basis.py b/src/jaxoplanet/starry/core/basis.py
index 3d8e323..20bfcb6 100644
--- a/src/jaxoplanet/starry/core/basis.py
+++ b/src/jaxoplanet/starry/core/basis.py
@@ -369,7 +369,7 @@ def poly_basis(deg):
 
         p = jnp.array(xarr) * jnp.array(yarr)
         if len(inds):
-            return p.at[np.array(inds)].multiply(z)
+            return p.at[np.array(inds)].multiply(z, unique_indices=True)
         else:
             return p
 
-- 
2.43.0


From 63c8585811806e27b18e533dc59bdfee25c7bc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 33/42] fix: ylm_spot can be set up inside a traced function

---
 src/jaxoplanet/starry/ylm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index 747a8fe..9c0c567 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -271,8 +271,9 @@ def Bp(ydeg, npts: int = 1000, eps: float = 1e-9, smoothing=None):
         else:
             smoothing = 2.0 / ydeg
 
-    theta = jnp.linspace(0, jnp.pi, npts)
-    cost = jnp.cos(theta)
+    # not jax.numpy: the Legendre polynomials need concrete values, also under jit
+    theta = np.linspace(0, np.pi, npts)
+    cost = np.cos(theta)
     B = jnp.hstack(
         [
             jnp.sqrt(2 * l + 1) * LegendreP(l)(cost).reshape(-1, 1)
-- 
2.43.0


From da7cfb09a5ff1ade1cd333a23a537241e10387ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:54 +0000
Subject: [PATCH 34/42] fix: Ylm.from_limb_darkening works with traced
 coefficients

---
 src/jaxoplanet/starry/ylm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index 9c0c567..69a5240 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -168,9 +168,9 @@ class Ylm(eqx.Module):
         Spherical harmonics coefficients from limb darkening coefficients.
         """
         deg = len(u)
-        _u = np.array([1, *u])
+        _u = jnp.array([1, *u])
         pu = _u @ basis.U(deg)
-        yu = np.array(np.linalg.inv(basis.A1(deg).todense()) @ pu)
+        yu = jnp.linalg.inv(basis.A1(deg).todense()) @ pu
         yu = Ylm.from_dense(yu.flatten(), normalize=False)
         norm = 1 / (Pijk.from_dense(pu, degree=deg).tosparse() @ solution.rT(deg))
         return yu * norm
-- 
2.43.0


From a4caf742e378f81eca7506d75ff8a737374e2df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 35/42] fix: observables of surfaces do not multiply batched
 sparse constants, which XLA folds wrongly

---
 src/jaxoplanet/starry/doppler.py      | 2 +-
 src/jaxoplanet/starry/light_curves.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index ffeda3b..0e81262 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -163,7 +163,7 @@ def surface_radial_velocity(
 
     n_deg = (surface.deg + 1) ** 2
 
-    intensity = (p_yu.tosparse() @ design_matrix_p[0:n_deg]) * norm
+    intensity = (p_yu.todense() @ design_matrix_p[0:n_deg]) * norm
 
     return surface.amplitude * rv * norm / intensity
 
diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index de7dbb6..d137b9d 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -137,7 +137,7 @@ def surface_light_curve(
     p_yu = p_y * p_u
     norm = np.pi / (p_u.tosparse() @ rT(surface.udeg))
 
-    return surface.amplitude * (p_yu.tosparse() @ design_matrix_p) * norm
+    return surface.amplitude * (p_yu.todense() @ design_matrix_p) * norm
 
 
 def light_curve(system, order=20):
-- 
2.43.0


From 4c9900f4a224260ac90cd90d21711b463a527241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 36/42] fix: keep derivatives of spots finite when the
 exponential of the edge overflows

---
 src/jaxoplanet/starry/ylm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jaxoplanet/starry/ylm.py b/src/jaxoplanet/starry/ylm.py
index 69a5240..ecfb63f 100644
--- a/src/jaxoplanet/starry/ylm.py
+++ b/src/jaxoplanet/starry/ylm.py
@@ -293,7 +293,8 @@ def spot_profile(theta, radius, spot_fac=300):
 
     """
     z = spot_fac * (theta - radius)
-    return 1 / (1 + jnp.exp(-z)) - 1
+    # 1 / (1 + exp(-z)) - 1, without overflow of the exponential
+    return -jax.nn.sigmoid(-z)
 
 
 def ylm_spot(ydeg: int, npts=300, spot_fac=300) -> callable:
-- 
2.43.0


From f3618542d86a49b6103e96a517540fdcfcb1abb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 37/42] fix: finite derivatives of transit orbits that miss the
 star

---
 src/jaxoplanet/orbits/transit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/orbits/transit.py b/src/jaxoplanet/orbits/transit.py
index c6f1021..02d278b 100644
--- a/src/jaxoplanet/orbits/transit.py
+++ b/src/jaxoplanet/orbits/transit.py
@@ -5,6 +5,7 @@ import jpu.numpy as jnpu
 from jaxoplanet import units
 from jaxoplanet.types import Quantity
 from jaxoplanet.units import unit_registry as ureg
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 class TransitOrbit(eqx.Module):
@@ -84,10 +85,12 @@ class TransitOrbit(eqx.Module):
             self.radius_ratio = radius_ratio
 
         x2 = jnpu.square(1 + self.radius_ratio) - jnpu.square(self.impact_param)
+        # planets that miss the star have no chord, nor derivatives through it
+        chord = 2 * zero_safe_sqrt(jnp.maximum(0.0, x2.magnitude)) * ureg.dimensionless
         if duration is None:
-            self.duration = 2 * jnpu.sqrt(jnpu.maximum(0, x2)) / self.speed
+            self.duration = chord / self.speed
         else:
-            self.speed = 2 * jnpu.sqrt(jnpu.maximum(0, x2)) / self.duration
+            self.speed = chord / self.duration
 
     @property
     def shape(self) -> tuple[int, ...]:
-- 
2.43.0


From 5ad2e2bccb8a064589be7e470437c64957dfa1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 38/42] fix: derivatives of rotations about z and of the
 rotation by zero

The matrices were differentiated through Euler angles, which are singular there:
the derivative by the angle at zero was zero, and those by the axis of a rotation
about z were wrong.
---
 src/jaxoplanet/starry/core/s2fft_rotation.py | 72 ++++++++++++++++----
 1 file changed, 57 insertions(+), 15 deletions(-)

diff --git a/src/jaxoplanet/starry/core/s2fft_rotation.py b/src/jaxoplanet/starry/core/s2fft_rotation.py
index 6c2e75f..52446c3 100644
--- a/src/jaxoplanet/starry/core/s2fft_rotation.py
+++ b/src/jaxoplanet/starry/core/s2fft_rotation.py
@@ -26,6 +26,7 @@ from functools import partial
 
 import jax
 import jax.numpy as jnp
+import numpy as np
 from jax.scipy.spatial.transform import Rotation
 
 
@@ -132,7 +133,9 @@ def _generate_rotate_dls(L: int, beta: float) -> jnp.ndarray:
     return jnp.stack(dls, axis=0)
 
 
-def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
+def _complex_to_real(deg):
+    """Compute the complete transformation matrix from complex to real Ylms.
+    This part is from starry"""
 
     def kron(m, n):
         """Kronecker delta. Can we do better?"""
@@ -144,7 +147,7 @@ def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
         if n < 0:
             term1 = 1j
         elif n == 0:
-            term1 = jnp.sqrt(2) / 2
+            term1 = np.sqrt(2) / 2
         else:
             term1 = 1
         if (m > 0) and (n < 0) and (n % 2 == 0):
@@ -153,19 +156,32 @@ def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
             term2 = -1
         else:
             term2 = 1
-        return term1 * term2 * 1 / jnp.sqrt(2) * (kron(m, n) + kron(m, -n) + 0j)
-
-    def U(l):
-        """Compute the complete U transformation matrix.. This part is from starry"""
-        res = jnp.zeros((2 * l + 1, 2 * l + 1)) + 0j
-        for m in range(-l, l + 1):
-            for n in range(-l, l + 1):
-                res = res.at[m + l, n + l].set(Umn(m, n))
-        return res
-
+        return term1 * term2 * 1 / np.sqrt(2) * (kron(m, n) + kron(m, -n) + 0j)
+
+    res = np.zeros((2 * deg + 1, 2 * deg + 1)) + 0j
+    for m in range(-deg, deg + 1):
+        for n in range(-deg, deg + 1):
+            res[m + deg, n + deg] = Umn(m, n)
+    return res
+
+
+def _generators(deg):
+    """The matrices of infinitesimal rotations about x, y and z in real Ylms"""
+    l = np.arange(deg + 1)[:, None, None]
+    N = np.arange(-deg, deg + 1)
+    row, col = N[:, None], N[None, :]
+    step = 0.5 * np.sqrt(np.maximum(l * (l + 1) - row * col, 0))
+    step *= (row == col - 1) * 1.0 - (row == col + 1) * 1.0
+    u = _complex_to_real(deg)
+    gy = np.real(np.conj(u.T) @ step @ u)
+    gz = np.real(np.conj(u.T) @ (np.diag(-1j * N) * (np.abs(N) <= l)) @ u)
+    return np.stack([gy @ gz - gz @ gy, gy, gz])
+
+
+@partial(jax.custom_jvp, nondiff_argnums=(0,))
+def _rotation_matrices(deg, x, y, z, theta):
     def euler(x, y, z, theta):
         """axis-angle to euler angles"""
-        # the jnp where for theta == 0 is to avoid nans when computing grad
         axis = jnp.array([jnp.where(theta == 0.0, 1.0, x), y, z])
         _theta = jnp.where(theta == 0.0, 1.0, theta)
         axis = axis / jnp.linalg.norm(axis)
@@ -178,11 +194,37 @@ def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
     m, mp = jnp.meshgrid(N, N)
     Dlm = jnp.exp(-1j * (m * alpha + mp * gamma)) * dls
 
-    u = U(deg)
+    u = _complex_to_real(deg)
     u_inv = jnp.conj(u.T)
 
+    return jnp.real(u_inv[None, :] @ Dlm @ u[None, :])
+
+
+@_rotation_matrices.defjvp
+def _rotation_matrices_jvp(deg, primals, tangents):
+    # the Euler angles are singular for rotations about z, for which the matrices
+    # are not: differentiate with the angular velocity of the rotation instead
+    *axis, theta = primals
+    *axis_dot, theta_dot = tangents
+    axis, axis_dot = jnp.stack(axis), jnp.stack(axis_dot)
+    norm2 = jnp.sum(axis**2)
+    norm = jnp.sqrt(jnp.where(norm2 > 0.0, norm2, 1.0))
+    u = axis / norm
+    u_dot = (axis_dot - u * jnp.dot(u, axis_dot)) / norm
+    velocity = (
+        theta_dot * u
+        + jnp.sin(theta) * u_dot
+        + (1 - jnp.cos(theta)) * jnp.cross(u, u_dot)
+    )
+    Rs = _rotation_matrices(deg, *primals)
+    return Rs, jnp.einsum("k,klij->lij", velocity, _generators(deg)) @ Rs
+
+
+def compute_rotation_matrices(deg, x, y, z, theta, homogeneous=False):
+    x, y, z, theta = (jnp.asarray(v, dtype=float) for v in (x, y, z, theta))
+
     # The output of generate_rotate_dls has shape (L, 2L+1, 2L+1)
-    Rs_full = jnp.real(u_inv[None, :] @ Dlm @ u[None, :])
+    Rs_full = _rotation_matrices(deg, x, y, z, theta)
 
     if homogeneous:
         Rs = Rs_full
-- 
2.43.0


From 2fbc7e0221ac517726b760e660baf67b546e7936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:35 +0000
Subject: [PATCH 39/42] fix: derivatives by inclination and obliquity of maps
 seen pole-on

---
 src/jaxoplanet/starry/core/rotation.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/jaxoplanet/starry/core/rotation.py b/src/jaxoplanet/starry/core/rotation.py
index 149963a..e6d4ffd 100644
--- a/src/jaxoplanet/starry/core/rotation.py
+++ b/src/jaxoplanet/starry/core/rotation.py
@@ -206,10 +206,14 @@ def left_project(
     m_theta = -theta if theta is not None else theta
     m_theta_z = -theta_z if theta_z is not None else theta_z
 
-    axis_x, axis_y, axis_z, angle = sky_projection_axis_angle(inc, obl)
+    m_obl = -obl if obl is not None else obl
+
+    # the rotations of sky_projection_axis_angle one by one, as the axis of both is
+    # not differentiable for maps seen pole-on
     y = dot_rotation_matrix(ydeg, 1.0, None, None, -0.5 * jnp.pi)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta)(y)
-    y = dot_rotation_matrix(ydeg, axis_x, axis_y, axis_z, angle)(y)
+    y = dot_rotation_matrix(ydeg, 1.0, None, None, inc)(y)
+    y = dot_rotation_matrix(ydeg, None, None, 1.0, m_obl)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, m_theta_z)(y)
     return y
 
@@ -235,13 +239,11 @@ def right_project(
     Returns:
         Array: rotated spherical harmonic map coefficients
     """
-    axis_x, axis_y, axis_z, angle = sky_projection_axis_angle(inc, obl)
-    m_axis_x = -axis_x if axis_x is not None else axis_x
-    m_axis_y = -axis_y if axis_y is not None else axis_y
-    m_axis_z = -axis_z if axis_z is not None else axis_z
+    m_inc = -inc if inc is not None else inc
 
     y = dot_rotation_matrix(ydeg, None, None, 1.0, theta_z)(y)
-    y = dot_rotation_matrix(ydeg, m_axis_x, m_axis_y, m_axis_z, angle)(y)
+    y = dot_rotation_matrix(ydeg, None, None, 1.0, obl)(y)
+    y = dot_rotation_matrix(ydeg, 1.0, None, None, m_inc)(y)
     y = dot_rotation_matrix(ydeg, None, None, 1.0, theta)(y)
     y = dot_rotation_matrix(ydeg, 1.0, None, None, 0.5 * jnp.pi)(y)
     return y
-- 
2.43.0


From c6249a93c24cbaad81342e92762ecf347d9fde40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:53 +0000
Subject: [PATCH 40/42] fix: forward mode derivatives of occulted surfaces by
 an occultor of zero radius

---
 src/jaxoplanet/starry/core/solution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jaxoplanet/starry/core/solution.py b/src/jaxoplanet/starry/core/solution.py
index 5b34ab7..19e2941 100644
--- a/src/jaxoplanet/starry/core/solution.py
+++ b/src/jaxoplanet/starry/core/solution.py
@@ -173,8 +173,8 @@ def p_integral(order: int, l_max: int, b: Array, r: Array, kappa0: Array) -> Arr
                 f = (
                     2
                     * (2 * r) ** (l + 2)
-                    * low_a1 ** (0.25 * (mu + 4))
-                    * low_a2 ** (0.5 * nu)
+                    * low_a1 ** ((mu + 4) // 4)
+                    * low_a2 ** (nu // 2)
                 )
                 low_integrand.append(2 * f)
                 low_indices.append(n)
@@ -194,7 +194,7 @@ def p_integral(order: int, l_max: int, b: Array, r: Array, kappa0: Array) -> Arr
                     2
                     * high_fa3
                     * high_a1 ** ((mu - 1) // 4)
-                    * high_a2 ** (0.5 * (nu - 1))
+                    * high_a2 ** ((nu - 1) // 2)
                 )
                 high_integrand.append(2 * f)
                 high_indices.append(n)
-- 
2.43.0


From 0b742ad9bfe1dd4a60b12bc187d9273d5abe9106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:53 +0000
Subject: [PATCH 41/42] fix: derivatives of occulted surfaces where the discs
 are concentric

---
 src/jaxoplanet/starry/doppler.py      |  4 ++--
 src/jaxoplanet/starry/light_curves.py |  8 ++++++--
 src/jaxoplanet/starry/utils.py        | 13 +++++++++++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/jaxoplanet/starry/doppler.py b/src/jaxoplanet/starry/doppler.py
index 0e81262..57abb52 100644
--- a/src/jaxoplanet/starry/doppler.py
+++ b/src/jaxoplanet/starry/doppler.py
@@ -10,6 +10,7 @@ from jaxoplanet.starry.core.rotation import dot_rz, left_project
 from jaxoplanet.starry.core.solution import rT, solution_vector
 from jaxoplanet.starry.surface import Surface
 from jaxoplanet.starry.system_observable import system_observable
+from jaxoplanet.starry.utils import occultor_polar_coordinates
 
 
 def rv_map_expansion(veq=None, inc=None, obl=None, alpha=None):
@@ -94,10 +95,9 @@ def surface_radial_velocity(
 
     # occulting body
     else:
-        b = jnp.sqrt(jnp.square(x) + jnp.square(y))
+        b, theta_z = occultor_polar_coordinates(x, y)
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
-        theta_z = jnp.arctan2(x, y)
 
         # trick to avoid nan `x=jnp.where...` grad caused by nan sT
         r = jnp.where(b_rot, 1.0, r)
diff --git a/src/jaxoplanet/starry/light_curves.py b/src/jaxoplanet/starry/light_curves.py
index d137b9d..150f241 100644
--- a/src/jaxoplanet/starry/light_curves.py
+++ b/src/jaxoplanet/starry/light_curves.py
@@ -12,6 +12,8 @@ from jaxoplanet.starry.core.rotation import left_project
 from jaxoplanet.starry.core.solution import rT, solution_vector
 from jaxoplanet.starry.surface import Surface
 from jaxoplanet.starry.system_observable import system_observable
+from jaxoplanet.starry.utils import occultor_polar_coordinates
+from jaxoplanet.utils import zero_safe_sqrt
 
 
 def surface_light_curve(
@@ -73,7 +75,10 @@ def surface_light_curve(
 
     # occulting body
     else:
-        b = jnp.sqrt(jnp.square(x) + jnp.square(y))
+        if surface.ydeg == 0:
+            b, theta_z = zero_safe_sqrt(jnp.square(x) + jnp.square(y)), 0.0
+        else:
+            b, theta_z = occultor_polar_coordinates(x, y)
         b_rot = jnp.logical_or(jnp.greater_equal(b, 1.0 + r), jnp.less_equal(z, 0.0))
         b_occ = jnp.logical_not(b_rot)
 
@@ -94,7 +99,6 @@ def surface_light_curve(
             return surface.amplitude * surface.y[(0, 0)] * (1.0 + jnp.where(b_occ, lc, 0))
 
         else:
-            theta_z = jnp.arctan2(x, y)
             sT = solution_vector(total_deg, order=order)(b, r)
 
         if total_deg > 0:
diff --git a/src/jaxoplanet/starry/utils.py b/src/jaxoplanet/starry/utils.py
index 4c636d4..0a62bba 100644
--- a/src/jaxoplanet/starry/utils.py
+++ b/src/jaxoplanet/starry/utils.py
@@ -6,6 +6,7 @@ import numpy as np
 from scipy.spatial.transform import Rotation
 
 from jaxoplanet.units import unit_registry as u
+from jaxoplanet.utils import get_dtype_eps
 
 RSUN_DAY_TO_M_S = ((1 * u.R_sun / u.day).to(u.m / u.s)).magnitude
 
@@ -23,6 +24,18 @@ def ortho_grid(res: int):
     return (lat, lon), (x, y, z)
 
 
+def occultor_polar_coordinates(x, y):
+    """Distance and position angle of an occultor, from the center of the map.
+
+    These are not differentiable where the discs are concentric, where observables are,
+    so there the occultor is displaced by a distance which is negligible for observables.
+    """
+    tiny = get_dtype_eps(jnp.sqrt(x * 0.0 + y * 0.0)) ** (2 / 3)
+    concentric = jnp.square(x) + jnp.square(y) < tiny**2
+    y = y + jnp.where(concentric, jnp.where(y < 0, -tiny, tiny), 0.0)
+    return jnp.sqrt(jnp.square(x) + jnp.square(y)), jnp.arctan2(x, y)
+
+
 def lon_lat_lines(n: int = 6, pts: int = 100, radius: float = 1.0):
     assert isinstance(n, int) or len(n) == 2
 
-- 
2.43.0


From 1511c24f412c537ffa9fa6076046e9d30d6269e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:22 +0000
Subject: [PATCH 42/42] fix: limb darkened flux of integer separations and
 radii

---
 src/jaxoplanet/core/limb_dark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jaxoplanet/core/limb_dark.py b/src/jaxoplanet/core/limb_dark.py
index 063525b..bf0a534 100644
--- a/src/jaxoplanet/core/limb_dark.py
+++ b/src/jaxoplanet/core/limb_dark.py
@@ -53,8 +53,8 @@ def solution_vector(l_max: int, order: int = 10) -> Callable[[Array, Array], Arr
     @partial(jnp.vectorize, signature=f"(),()->({n_max})")
     def impl(b: Array, r: Array) -> Array:
         # TODO: Are all of these conditions necessary?
-        b = jnp.abs(b)
-        r = jnp.abs(r)
+        b = jnp.fabs(b)
+        r = jnp.fabs(r)
         area, kappa0, kappa1 = kappas(b, r)
 
         no_occ = jnp.greater_equal(b, 1 + r)
-- 
2.43.0

