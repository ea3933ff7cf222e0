"""Independent limb darkened occultation: double-exponential ring quadrature, 80 bit."""

import numpy as np

LD = np.longdouble


def _nodes(n=240, tmax=3.35):
    t = np.linspace(-tmax, tmax, n, dtype=LD)
    h = t[1] - t[0]
    s = np.sinh(t) * np.pi / 2
    p, q = 1 / (1 + np.exp(-2 * s)), 1 / (1 + np.exp(2 * s))
    return p, q, h * np.pi * np.cosh(t) * p * q


P, Q, W = _nodes()


def intensity(u, mu):
    """1 - sum u_n (1 - mu)^n; u has shape (deg,) or (n, deg) against mu (n, nodes)."""
    u = np.atleast_1d(np.asarray(u, LD))
    out = np.ones_like(mu)
    pw = 1 - mu
    for k in range(u.shape[-1]):
        c = u[..., k]
        out = out - (c[:, None] if u.ndim > 1 else c) * pw
        pw = pw * (1 - mu)
    return out


def total(u):
    """Disc integral of the intensity / pi, closed form."""
    u = np.asarray(u, float)
    k = np.arange(1, u.shape[-1] + 1)
    return 1 - (2 * u / ((k + 1) * (k + 2))).sum(-1)


def scale(u):
    """How far rounding and quadrature errors of the individual terms are amplified."""
    u = np.asarray(u, float)
    k = np.arange(1, u.shape[-1] + 1)
    return (1 + (np.abs(u) * 2.0**k).sum(-1)) / np.abs(total(u))


def _prep(b, r):
    b, r = np.broadcast_arrays(np.abs(np.asarray(b, LD)), np.abs(np.asarray(r, LD)))
    return b.ravel()[:, None], r.ravel()[:, None], b.shape


def _chunks(fn, u, b, r):
    """Apply fn in blocks of 4000 rows so that memory stays small."""
    b, r, shape = _prep(b, r)
    u = np.asarray(u)
    outs = []
    for i in range(0, len(b), 4000):
        s = slice(i, i + 4000)
        outs.append(fn(u[s] if u.ndim > 1 else u, b[s], r[s]))
    if isinstance(outs[0], tuple):
        return tuple(np.concatenate(x).astype(float).reshape(shape)
                     for x in zip(*outs, strict=True))
    return np.concatenate(outs).astype(float).reshape(shape)


def blocked(u, b, r):
    """Fraction of the star's flux hidden by a disc of radius r at separation b."""

    def fn(u, b, r):
        tot = total(u) / 2
        full = np.clip(r - b, 0, 1)  # rings inside the occultor
        m0 = np.sqrt((1 - full) * (1 + full))
        span = full * full / (1 + m0)
        m = m0 + span * P
        blk = (intensity(u, m) * m * W * span).sum(-1)
        near = np.abs(b - r)
        lo, hi = np.minimum(near, 1), np.minimum(b + r, 1)
        d = np.maximum(hi - lo, 0)
        rho = lo + d * P
        area = (b + r + rho) * ((b + r - hi) + d * Q) * ((lo - near) + d * P) * (rho + near)
        kap = np.arctan2(np.sqrt(np.maximum(area, 0)), rho**2 + (b - r) * (b + r))
        mu = np.sqrt(np.maximum(((1 - hi) + d * Q) * (1 + rho), 0))
        blk = blk + (intensity(u, mu) * rho * kap / np.pi * W * d).sum(-1)
        return blk / tot

    return _chunks(fn, u, b, r)


def gradient(u, b, r):
    """d blocked / d b and d blocked / d r: integrals along the occultor's limb."""

    def fn(u, b, r):
        tot = np.pi * total(u)
        br = np.where(b * r > 0, 4 * b * r, 1e-300)
        s2 = (1 - (b - r)) * (1 + (b - r)) / br
        pm = 2 * np.arcsin(np.sqrt(np.clip(s2, 0, 1)))
        psi = pm * P  # angle from the inward direction
        m2 = np.where(s2 >= 1, (1 - (b - r) ** 2) - 4 * b * r * np.sin(psi / 2) ** 2,
                      4 * b * r * np.sin(pm * Q / 2) * np.sin((pm + psi) / 2))
        w = W * pm * intensity(u, np.sqrt(np.maximum(m2, 0))) * 2 * r
        return (-w * np.cos(psi)).sum(-1) / tot, w.sum(-1) / tot

    return _chunks(fn, u, b, r)


def geometries(rng, n, dt=np.float64, rmax=300.0):
    """(b, r) strata: generic, planets, contacts, equal discs, concentric, far, inside."""
    eps = float(np.finfo(dt).eps)
    u = rng.random(n)
    r = np.where(u < 0.5, 10 ** rng.uniform(-3, -0.3, n),
                 np.where(u < 0.75, rng.uniform(0.3, 2, n),
                          np.where(u < 0.9, 10 ** rng.uniform(0, np.log10(rmax), n),
                                   10 ** rng.uniform(-5, -3, n))))
    r = np.where(rng.random(n) < 0.03, 1.0, r)
    k = rng.integers(0, 8, n)
    d = 10 ** rng.uniform(np.log10(eps), 0, n) * rng.choice([-1.0, 1.0], n)
    d = np.where(rng.random(n) < 0.1, 0.0, d)
    lo, hi = np.abs(1 - r), 1 + r
    b = np.select(
        [k == 0, k == 1, k == 2, k == 3, k == 4, k == 5],
        [rng.uniform(0, 1, n) * hi, r * (1 + d), lo + d * np.minimum(r, 1),
         hi + d * np.minimum(r, 1), np.abs(d) * 0.5, hi * (1 + np.abs(d))],
        lo + (hi - lo) * rng.random(n),
    )
    b, r = np.abs(b).astype(dt), r.astype(dt)
    return b, r, k


SPECIAL = [(0, .1), (0, 1), (0, 2), (.1, .1), (.5, .5), (1, 1), (.9, .1), (1.1, .1), (1, 0),
           (0, 0), (.3, 0), (2, 1), (1, 2), (.25, .75), (3, 2), (0, .5), (.75, .25),
           (1.25, .25), (1, .5), (1, 1e-3), (100, 99), (99, 100), (101, 100), (100, 100),
           (50, 3), (1e6, .1), (0, 1e-9), (.5, 1e-9), (1, 1e-9)]


def profile(rng, deg, kind=None):
    """Coefficients of a positive limb darkening profile of the given degree."""
    if deg == 0:
        return np.zeros(0)
    for _ in range(200):
        if deg == 1:
            u = rng.uniform(-0.2, 1.0, 1)
        elif deg == 2:
            q1, q2 = rng.random(2)
            u = np.array([2 * np.sqrt(q1) * q2, np.sqrt(q1) * (1 - 2 * q2)])
        else:
            u = rng.normal(size=deg) * 0.8 / np.arange(1, deg + 1)
        if rng.random() < 0.15:
            u[int(rng.integers(deg))] = 0.0
        mu = np.linspace(0, 1, 201)[None]
        if intensity(u, mu.astype(LD)).min() > 0.0:
            return u
    return 0 * u
