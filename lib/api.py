"""Lazy access to the public names of the code under test.

Only names that the repository's documentation, tutorials or tests use are listed, so
that internal helpers can be renamed or moved freely.  Nothing is imported before first
use, so that a broken tree is reported by the worker that needs it.
"""

import importlib

_N = {
    "kepler": "core.kepler",
    "ld_light_curve": ("core.limb_dark", "light_curve"),
    "ld_solution_vector": ("core.limb_dark", "solution_vector"),
    "zero_safe_sqrt": "utils",
    "ObjectStack": "object_stack",
    "Central": "orbits.keplerian",
    "Body": "orbits.keplerian",
    "OrbitalBody": "orbits.keplerian",
    "System": "orbits.keplerian",
    "TransitOrbit": "orbits.transit",
    "TTVOrbit": "orbits.ttv",
    "compute_expected_transit_times": "orbits.ttv",
    "limb_dark_light_curve": ("light_curves.limb_dark", "light_curve"),
    "emission_light_curve": ("light_curves.emission", "light_curve"),
    "integrate": "light_curves.transforms",
    "interpolate": "light_curves.transforms",
    "vectorize": "light_curves.utils",
    "quantity_input": "units",
    "units_field": ("units", "field"),
    "ureg": ("units", "unit_registry"),
    "Ylm": "starry.ylm",
    "ylm_spot": "starry.ylm",
    "Surface": "starry.surface",
    "SurfaceSystem": "starry.orbit",
    "SurfaceBody": "starry.orbit",
    "surface_light_curve": "starry.light_curves",
    "system_light_curve": ("starry.light_curves", "light_curve"),
    "surface_radial_velocity": "starry.doppler",
    "radial_velocity": "starry.doppler",
    "A1": "starry.core.basis",
    "A2_inv": "starry.core.basis",
    "basis": ("starry.core.basis", "basis"),
    "U": "starry.core.basis",
    "poly_basis": "starry.core.basis",
    "Pijk": "starry.core.polynomials",
    "polynomial_product_matrix": "starry.core.polynomials",
    "rT": "starry.core.solution",
    "st_solution_vector": ("starry.core.solution", "solution_vector"),
    "dot_rotation_matrix": "starry.core.rotation",
    "dot_rz": "starry.core.rotation",
    "left_project": "starry.core.rotation",
    "right_project": "starry.core.rotation",
    "full_rotation_axis_angle": "starry.core.rotation",
    "sky_projection_axis_angle": "starry.core.rotation",
    "compute_rotation_matrices": "starry.core.rotation",
    "fast_direct_left_project": "starry.core.rotation",
    "s2fft_compute_rotation_matrices": (
        "starry.core.s2fft_rotation",
        "compute_rotation_matrices",
    ),
    "Wigner3jCalculator": "starry.core.wigner3j",
    "Wigner3j": "starry.core.wigner3j",
    "clebsch_gordan": "starry.core.wigner3j",
    "show_surface": "starry.visualization",
}


def __getattr__(name):
    if name not in _N:
        raise AttributeError(name)
    where = _N[name]
    mod, attr = where if isinstance(where, tuple) else (where, name)
    value = getattr(importlib.import_module("jaxoplanet." + mod), attr)
    globals()[name] = value
    return value


def module(path):
    return importlib.import_module("jaxoplanet." + path)
