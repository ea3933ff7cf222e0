"""Reference two-body geometry and generators for Keplerian bodies."""

import numpy as np

from lib import ref

# IAU 2015 nominal values, independent of the unit registry under test
GM_SUN = 1.3271244e20  # m^3 s^-2
R_SUN = 6.957e8  # m
AU = 149597870700.0  # m
DAY = 86400.0
G = GM_SUN * DAY**2 / R_SUN**3  # R_sun^3 / (M_sun day^2)
R_SUN_AU = R_SUN / AU


def t_peri_offset(P, e, sw, cw):
    """t_peri - t_transit for the inferior conjunction f = pi/2 - omega."""
    E0 = np.arctan2(np.sqrt(1 - e * e) * cw, e + sw)
    return -(E0 - e * np.sin(E0)) * P / (2 * np.pi)


def state(t, P, a, e, w, i, Om, tp):
    """Relative position and velocity of the body (observer at +z)."""
    n = 2 * np.pi / P
    # mean anomaly reduced in extended precision
    M = (np.asarray(t, np.longdouble) - tp) * (2 * ref.PI / np.asarray(P, np.longdouble))
    sf, cf, _ = (x.astype(float) for x in ref.kepler(M, e))
    sw, cw = np.sin(w), np.cos(w)
    su, cu = sw * cf + cw * sf, cw * cf - sw * sf
    r = a * (1 - e * e) / (1 + e * cf)
    k = n * a / np.sqrt(1 - e * e)
    si, ci, so, co = np.sin(i), np.cos(i), np.sin(Om), np.cos(Om)

    def rot(x1, y1):
        return np.array(
            [-(co * x1 - so * ci * y1), -(so * x1 + co * ci * y1), si * y1]
        )

    pos = rot(r * cu, r * su)
    vel = rot(-k * (su + e * sw), k * (cu + e * cw))
    return pos, vel


def draw(rng, n, emax=0.95, dt=np.float64):
    """Physically sensible canonical elements (dict of arrays)."""
    e = np.where(rng.random(n) < 0.5, rng.uniform(0, emax, n), rng.beta(0.8, 3, n) * emax)
    e = np.where(rng.random(n) < 0.08, 0.0, e)
    w = rng.uniform(-2 * np.pi, 2 * np.pi, n)
    special = rng.random(n) < 0.15
    w = np.where(special, rng.integers(-4, 5, n) * np.pi / 2, w)
    inc = np.where(rng.random(n) < 0.5, rng.uniform(0.02, np.pi - 0.02, n),
                   np.pi / 2 + rng.normal(0, 0.02, n))
    Om = np.where(rng.random(n) < 0.2, rng.integers(-2, 4, n) * np.pi / 2,
                  rng.uniform(-np.pi, 2 * np.pi, n))
    M = 10 ** rng.uniform(-1, 1.2, n)
    m = M * 10 ** rng.uniform(-6, 0.3, n)
    P = 10 ** rng.uniform(-0.5, 3, n)
    R = 10 ** rng.uniform(-1, 1, n) * 0.2
    T0 = np.where(rng.random(n) < 0.15, 0.0, rng.uniform(-1.5, 1.5, n) * P)
    rr = R * 10 ** rng.uniform(-2.5, 0.2, n)
    out = dict(P=P, e=e, w=w, i=inc, Om=Om, M=M, m=m, R=R, T0=T0, r=rr)
    return {k: v.astype(dt) for k, v in out.items()}


TIMES = ("transit", "peri", "none")
SIZES = ("period", "semimajor")
INCS = ("inclination", "impact", "none")
ECCS = ("none", "omega", "sincos")
NODES = ("none", "node", "sincos")
MASSES = ("mass", "none")


def all_combos():
    return [
        dict(time=t, size=s, inc=i, ecc=c, node=o, mass=m)
        for t in TIMES for s in SIZES for i in INCS for c in ECCS for o in NODES
        for m in MASSES
    ]


def canonical(p, combo):
    """The reference elements of a body specified with `combo` from the draw `p`."""
    e = p["e"] if combo["ecc"] != "none" else 0.0 * p["e"]
    w = p["w"] if combo["ecc"] != "none" else 0.0 * p["w"]
    Om = p["Om"] if combo["node"] != "none" else 0.0 * p["Om"]
    i = p["i"] if combo["inc"] != "none" else 0.0 * p["i"] + np.pi / 2
    m = p["m"] if combo["mass"] == "mass" else 0.0 * p["m"]
    a = np.cbrt(G * (p["M"] + m) * p["P"] ** 2 / (4 * np.pi**2))
    off = t_peri_offset(p["P"], e, np.sin(w), np.cos(w))
    T0 = p["T0"] if combo["time"] != "none" else 0.0 * p["T0"]
    b = a * (1 - e * e) / (1 + e * np.sin(w)) * np.cos(i) / p["R"]
    return dict(P=p["P"], a=a, e=e, w=w, i=i, Om=Om, tp=T0 + off, T0=T0, m=m, M=p["M"],
                R=p["R"], b=b)


def kwargs(p, c, combo, xp=np):
    """Keyword arguments of Body for the parametrisation `combo`."""
    kw = {}
    if combo["time"] == "transit":
        kw["time_transit"] = c["T0"]
    elif combo["time"] == "peri":
        kw["time_peri"] = c["tp"]
    if combo["size"] == "period":
        kw["period"] = c["P"]
    else:
        kw["semimajor"] = c["a"]
    if combo["inc"] == "inclination":
        kw["inclination"] = c["i"]
    elif combo["inc"] == "impact":
        kw["impact_param"] = c["b"]
    if combo["ecc"] != "none":
        kw["eccentricity"] = c["e"]
        if combo["ecc"] == "omega":
            kw["omega_peri"] = c["w"]
        else:
            kw["sin_omega_peri"] = xp.sin(c["w"])
            kw["cos_omega_peri"] = xp.cos(c["w"])
    if combo["node"] == "node":
        kw["asc_node"] = c["Om"]
    elif combo["node"] == "sincos":
        kw["sin_asc_node"] = xp.sin(c["Om"])
        kw["cos_asc_node"] = xp.cos(c["Om"])
    if combo["mass"] == "mass":
        kw["mass"] = c["m"]
    kw["radius"] = p["r"]
    return kw


def mag(q):
    """Plain magnitudes of a quantity, array, or (nested) tuple of those, as float64."""
    if isinstance(q, tuple | list):
        return np.array([mag(x) for x in q])
    return np.asarray(getattr(q, "magnitude", q), dtype=float)


def unit_of(q):
    return str(q.units) if hasattr(q, "units") else None
