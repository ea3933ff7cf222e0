"""Independent reference for spherical harmonic maps: synthesis, geometry, disc integrals.

Frame: x right, y up (the pole of an inc = pi/2, obl = 0 map), z towards the observer.  The
harmonics are real, without Condon-Shortley phase, polar axis z, scaled so that the intensity
of the (0, 0) term is 1/pi; m >= 0 goes with cos(m phi), m < 0 with sin(|m| phi).
"""

import numpy as np


def legendre(lmax, z):
    """Orthonormal (over the sphere, without the azimuthal factor) P_lm / sin^m, m >= 0."""
    P = {(0, 0): np.full_like(z, np.sqrt(1 / (4 * np.pi)))}
    for m in range(1, lmax + 1):
        P[m, m] = P[m - 1, m - 1] * np.sqrt((2 * m + 1) / (2 * m))
    for m in range(lmax):
        P[m + 1, m] = np.sqrt(2 * m + 3) * z * P[m, m]
    for m in range(lmax + 1):
        for l in range(m + 2, lmax + 1):
            a = np.sqrt((4 * l * l - 1) / (l * l - m * m))
            b = np.sqrt(((l - 1) ** 2 - m * m) / (4 * (l - 1) ** 2 - 1))
            P[l, m] = a * (z * P[l - 1, m] - b * P[l - 2, m])
    return P


def harmonics(lmax, x, y, z):
    """All Y_lm at unit vectors, shape ((lmax+1)^2, ...), index l^2 + l + m."""
    x, y, z = np.broadcast_arrays(*(np.asarray(v, float) for v in (x, y, z)))
    P = legendre(lmax, z)
    out = np.empty(((lmax + 1) ** 2, *x.shape))
    c, s = np.ones_like(x), np.zeros_like(x)  # sin^m cos(m phi), sin^m sin(m phi)
    k = 2 / np.sqrt(np.pi)
    for m in range(lmax + 1):
        for l in range(m, lmax + 1):
            f = k * P[l, m] * (np.sqrt(2) if m else 1.0)
            out[l * l + l + m] = f * c
            if m:
                out[l * l + l - m] = f * s
        c, s = c * x - s * y, s * x + c * y
    return out


def degree(y):
    return int(round(np.sqrt(np.size(y)))) - 1


def synth(coef, x, y, z):
    """Intensity of the map with these coefficients at unit vectors of its own frame."""
    return np.tensordot(np.asarray(coef, float), harmonics(degree(coef), x, y, z), 1)


def body_to_sky(inc, obl, theta):
    """3x3 matrix taking map-frame vectors to the sky frame."""
    inc = 0.0 if inc is None else inc
    obl = 0.0 if obl is None else obl
    theta = 0.0 if theta is None else theta
    c, s = np.cos(theta), np.sin(theta)
    spin = np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    ci, si = np.cos(inc), np.sin(inc)
    tilt = np.array([[1, 0, 0], [0, si, -ci], [0, ci, si]])
    co, so = np.cos(obl), np.sin(obl)
    roll = np.array([[co, -so, 0], [so, co, 0], [0, 0, 1]])
    return roll @ tilt @ spin


def limb(u, z):
    """1 - sum u_n (1 - z)^n."""
    return 1 - sum(un * (1 - z) ** (n + 1) for n, un in enumerate(u))


def limb_total(u):
    """Disc integral of the limb darkening profile / pi."""
    return 1 - sum(2 * un / ((n + 2) * (n + 3)) for n, un in enumerate(u))


def sky_intensity(coef, u, Q, x, y, z):
    p = np.stack([x, y, z])
    b = np.tensordot(Q.T, p, 1)
    return synth(coef, *b) * limb(u, z)


_t = np.linspace(-3.3, 3.3, 100)
_s = np.sinh(_t) * np.pi / 2
DP, DQ = 1 / (1 + np.exp(-2 * _s)), 1 / (1 + np.exp(2 * _s))
DW = (_t[1] - _t[0]) * np.pi * np.cosh(_t) * DP * DQ


def disc(r=None, x=0.0, y=0.0, nphi=None, deg=8):
    """Nodes and weights (px, py, pz, w) over the visible disc not hidden by (x, y, r)."""
    nphi = nphi or (deg + 16)
    g, gw = np.polynomial.legendre.leggauss(nphi)
    b = float(np.hypot(x, y))
    alpha = np.arctan2(y, x)
    if r is None or b >= 1 + r:
        segs = [(0.0, 1.0, "open")]
    elif b <= r - 1:
        segs = []
    else:
        segs = []
        if r < b:  # rings inside the gap between the centre and the occultor are open
            segs.append((0.0, min(b - r, 1.0), "open"))
        lo, hi = min(abs(b - r), 1.0), min(b + r, 1.0)
        if hi > lo and b > 0:
            segs.append((lo, hi, "arc"))
        if b + r < 1:
            segs.append((b + r, 1.0, "open"))
    out = []
    for lo, hi, kind in segs:
        d = hi - lo
        if d <= 0:
            continue
        rho = np.where(DP < 0.5, lo + d * DP, hi - d * DQ)
        # 1 - rho without cancellation next to the limb
        om = (1 - hi) + d * DQ
        z = np.sqrt(np.maximum(om * (1 + rho), 0))
        if kind == "open":
            half = np.full_like(rho, 0.0)
        else:
            # cos(phi0) = (b^2 + rho^2 - r^2) / (2 b rho); half angle from exact differences
            if b >= r:
                # rho - (b - r) and (b + r) - rho
                a1 = rho - (b - r) if lo != b - r else d * DP
                a2 = (b + r) - rho if hi != b + r else d * DQ
                # (r - (b - rho)) (r + (b - rho))
                num = a1 * (r + b - rho) if hi != b + r else a1 * a2
                s2 = num / (4 * b * rho)
            else:
                a1 = rho + b - r
                num = a1 * 0 + (r - (b - rho)) * (r + (b - rho))
                if hi == b + r:
                    num = (r - b + rho) * d * DQ
                s2 = num / (4 * b * rho)
            s2 = np.clip(s2, 0, 1)
            # near full coverage use the complement (rho - (r - b)) (rho + r + b) / (4 b rho)
            base = d * DP if lo == r - b else rho - (r - b)
            c2 = np.clip(base * (rho + r + b) / (4 * b * rho), 0, 1) if r > b else \
                np.clip(((b + rho) - r) * ((b + rho) + r) / (4 * b * rho), 0, 1)
            half = 2 * np.arctan2(np.sqrt(s2), np.sqrt(c2))
        span = 2 * np.pi - 2 * half
        phi = alpha + half[:, None] + span[:, None] * (g + 1) / 2
        w = (DW * d * rho * span)[:, None] * gw / 2
        px, py = rho[:, None] * np.cos(phi), rho[:, None] * np.sin(phi)
        out.append((px.ravel(), py.ravel(), np.broadcast_to(z[:, None], px.shape).ravel(),
                    w.ravel()))
    if not out:
        e = np.zeros(0)
        return e, e, e, e
    return tuple(np.concatenate(v) for v in zip(*out, strict=True))


def flux(coef, u=(), inc=np.pi / 2, obl=0.0, theta=0.0, r=None, x=0.0, y=0.0, z=1.0, nodes=None):
    """Flux of a unit amplitude surface."""
    if r is not None and z <= 0:
        r = None
    px, py, pz, w = nodes or disc(r, x, y, deg=degree(coef) + len(u))
    I = sky_intensity(coef, u, body_to_sky(inc, obl, theta), px, py, pz)
    return float(w @ I) / limb_total(u)
