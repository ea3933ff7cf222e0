"""Independent reference computations (numpy longdouble / scipy / mpmath only)."""

import numpy as np

LD = np.longdouble
PI = LD("3.14159265358979323846264338327950288")
TWO_PI = 2 * PI


def kepler(M, e):
    """Exact-as-possible sin f, cos f and E (extended precision, bracketed Newton)."""
    M = np.asarray(M, LD)
    e = np.asarray(e, LD)
    M, e = np.broadcast_arrays(M, e)
    m = np.remainder(M, TWO_PI)
    m = np.where(m > PI, m - TWO_PI, m)
    s = np.where(m < 0, LD(-1), LD(1))
    m = np.abs(m)
    lo = np.zeros_like(m)
    hi = np.full_like(m, PI)
    E = np.minimum(m + e, PI)
    for _ in range(80):
        f = (E - e * np.sin(E)) - m
        lo = np.where(f < 0, E, lo)
        hi = np.where(f >= 0, E, hi)
        new = E - f / (1 - e * np.cos(E))
        bad = ~((new > lo) & (new < hi))
        E = np.where(bad, (lo + hi) / 2, new)
    h = E / 2
    # 1 - e cos E without cancellation
    d = (1 - e) + 2 * e * np.sin(h) ** 2
    sinf = s * np.sqrt((1 - e) * (1 + e)) * np.sin(E) / d
    cosf = (np.cos(E) - e) / d
    return sinf, cosf, s * E
