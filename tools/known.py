"""Writes known_findings.json (the committed list; checks never write it)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
 ("C05","c22465a","ObjectStack.vmap ignored negative in_axes for objects of different structure"),
 ("C04","9331ba5","velocity and relative_velocity did not scale a stored RV semi-amplitude"),
 ("C11","cad5e0c","integrate mapped keyword arguments over their leading axis"),
 ("C11","cefe7d0","integrate contracted the wrong axis of outputs with two or more dimensions"),
 ("C11","41c4f27","integrate with one sample and order 1 or 2 did not preserve constants / crashed"),
 ("C12","e43d841","interpolate failed for functions with more than one output"),
 ("C10","fa41a87","TTVOrbit used transit_times and ttvs quantities without conversion to days"),
 ("C10","e723b91","TTVOrbit with ttvs failed under jit and for several planets with default t0"),
 ("C15","e12a371","amplitude ignored for an occulted uniform surface"),
 ("C08","79ea849","amplitude of the central surface ignored by the emission light curve"),
 ("C08","fccb237","emission light curve failed for bodies without a surface"),
 ("C21","fd8e4a1","equatorial velocity of a surface without a period raised TypeError"),
 ("C21","23ee543","doppler radial_velocity wrong for several bodies, non scalar times, empty systems"),
 ("C16","2a1b20f","rotation about -z rotated the wrong way"),
 ("C24","e36cc5b","multiprecision left_project failed for theta_z != 0"),
 ("C18","1145369","Ylm.normalize divided by zero instead of the documented ValueError"),
 ("C18","bd6a7fc","product of two Ylm maps was not the map of the product of intensities"),
 ("C03","62a49a0","nan or wrong epoch for argument of periastron -pi/2"),
 ("C06","4855b44","flux wrong and gradients nan when limbs coincide (b=0, r=1) or touch at (1, 0)"),
 ("C07","a536f59","nan gradient of light curves for exactly concentric discs"),
 ("C06","826de2d","linear term dropped within sqrt(10 eps) of the limb: 1e-8 errors at contacts"),
 ("C06","fc87e28","covered star reported partially occulted for higher terms (r >> 1, b = r - 1)"),
 ("C20","e6c5c0c","Surface.intensity evaluated the map at the opposite latitude and longitude"),
 ("C14","a4cb6c7","flux of the unocculted map reported for (b, r) = (0, 1), a total occultation"),
 ("C14","4d9507a","inc=None with an obliquity rolled the map the wrong way (inc=0 and images disagree)"),
 ("C14","c3706b4","(0, 0) coefficient of a not normalized uniform map ignored when occulted"),
 ("C17","99667fa","polynomial_product_matrix overestimated the degree of its argument (wrong shape and values)"),
 ("C21","f2c7579","surfaces with differential rotation (shear) failed in radial velocities and velocity images"),
 ("C21","8647435","inc=None (seen from the pole) gave the velocity of a surface seen from the equator"),
 ("C16","db2d637","full_rotation_axis_angle ignored angles below 9e-3 rad, not a unit axis or nan at whole turns (also C20: intensity near the pole)"),
 ("C18","3478cf7","Surface() and normalize() failed under jit after the check for a zero (0, 0) coefficient"),
 ("C23","c4e33ec","no reverse mode derivative of poly_basis, Surface.intensity and rendered maps"),
 ("C23","63c8585","ylm_spot(degree) failed inside traced functions"),
 ("C23","a4caf74","light curves and radial velocities of constant surfaces under jit(vmap) were wrong (batched sparse product folded wrongly by XLA)"),
 ("C23","da7cfb0","Ylm.from_limb_darkening failed with traced coefficients"),
 ("C19","4c9900f","nan derivatives of spots when the exponential of the edge overflows (mostly single precision)"),
 ("C26","f361854","nan derivatives of the duration of a transit orbit that misses the star"),
 ("C16","5ad2e2b","derivatives of rotations in the angle 0 at a rotation by zero and wrong about the z axis"),
 ("C25","2fbc7e0","derivatives in inc and obl of surfaces seen exactly pole-on nan or wrong"),
 ("C25","c6249a9","forward mode derivatives nan for an occultor of zero radius"),
 ("C06","1511c24","integer separations and radii failed"),
 ("C25","0b742ad","derivatives nan where the centres of the discs coincide"),
]
FINDINGS = [
]
json.dump({"findings": FINDINGS, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in FIXED]},
          open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
