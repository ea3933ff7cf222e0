"""Systems of bodies with surfaces: structures, draws, construction and reference observables."""

import numpy as np

from lib import api, ldref, orb, st


def surf(y=0, u=0, period=True, inc=True, obl=True, shear=False):
    return dict(y=y, u=u, period=period, inc=inc, obl=obl, shear=shear)


def draw_surface(rng, n, s, rv=False):
    c = rng.normal(size=(n, (s["y"] + 1) ** 2)) * (0.15 if rv else 0.4)
    c[:, 0] = 1.0 if rv else rng.uniform(0.5, 2, n)
    p = dict(c=c, amp=np.ones(n) if rv else rng.uniform(0.1, 5, n),
             phase=rng.uniform(-4, 4, n))
    p["u"] = np.stack([ldref.profile(rng, s["u"]) for _ in range(n)]) if s["u"] else np.zeros((n, 0))
    if rv and s["u"]:
        p["u"] = np.abs(p["u"]) / (1.5 * s["u"])
    if s["period"]:
        p["period"] = 10 ** rng.uniform(-0.5, 1.5, n)
    if s["inc"]:
        p["inc"] = rng.uniform(0, np.pi, n)
    if s["obl"]:
        p["obl"] = rng.uniform(-4, 4, n)
    if s["shear"]:
        p["shear"] = rng.uniform(-0.5, 0.5, n)
    p["radius"] = rng.uniform(0.3, 3, n)
    return p


def make_surface(s, p):
    kw = {k: p[k] for k in ("period", "obl", "shear") if k in p}
    if "inc" in p:
        kw["inc"] = p["inc"]
    elif s["inc"] is None:
        kw["inc"] = None
    return api.Surface(y=api.Ylm.from_dense(p["c"], normalize=False), phase=p["phase"],
                       u=[p["u"][i] for i in range(s["u"])], normalize=False, amplitude=p["amp"],
                       radius=p["radius"], **kw)


def orientation(s, p, i, t):
    """Matrix from the map to the sky frame at time t."""
    inc = p["inc"][i] if "inc" in p else (0.0 if s["inc"] is None else np.pi / 2)
    obl = p["obl"][i] if "obl" in p else 0.0
    theta = 2 * np.pi * t / p["period"][i] + p["phase"][i] if "period" in p else 0.0
    return inc, obl, theta


BODY = {
    "plain": dict(ecc=False, node=False, inc="impact"),
    "inc": dict(ecc=False, node=True, inc="inclination"),
    "ecc": dict(ecc=True, node=True, inc="impact"),
    "eccinc": dict(ecc=True, node=False, inc="inclination"),
}


def draw_body(rng, n, kind, M, R):
    o = BODY[kind]
    P = 10 ** rng.uniform(0, 1.3, n)
    e = rng.uniform(0, 0.5, n) if o["ecc"] else np.zeros(n)
    w = rng.uniform(-4, 4, n) if o["ecc"] else np.zeros(n)
    Om = rng.uniform(-3, 3, n) if o["node"] else np.zeros(n)
    m = 10 ** rng.uniform(-4, -0.5, n)
    a = np.cbrt(orb.G * (M + m) * P**2 / (4 * np.pi**2))
    b = rng.uniform(-1.1, 1.1, n)
    r = R * np.where(rng.random(n) < 0.3, rng.uniform(0.3, 1.5, n), rng.uniform(0.05, 0.3, n))
    if not o["ecc"]:
        # some so close that the discs still overlap behind the plane of the other
        close = rng.random(n) < 0.15
        r = np.where(close, R * rng.uniform(0.3, 0.9, n), r)
        m = np.where(close, 1e-4, m)
        a = np.where(close, (R + r) * rng.uniform(0.75, 0.98, n), a)
        P = np.where(close, 2 * np.pi * np.sqrt(a**3 / (orb.G * (M + m))), P)
        b = np.where(close, b * 0.6, b)
    T0 = rng.normal(size=n) * 0.03
    cosi = b * R * (1 + e * np.sin(w)) / (a * (1 - e * e))
    i = np.arccos(np.clip(cosi, -1, 1))
    return dict(P=P, e=e, w=w, Om=Om, m=m, a=a, b=b, r=r, T0=T0, i=i,
                tp=T0 + orb.t_peri_offset(P, e, np.sin(w), np.cos(w)))


def make_body(kind, p):
    o = BODY[kind]
    kw = dict(period=p["P"], radius=p["r"], mass=p["m"], time_transit=p["T0"])
    if o["inc"] == "impact":
        kw["impact_param"] = p["b"]
    else:
        kw["inclination"] = p["i"]
    if o["ecc"]:
        kw.update(eccentricity=p["e"], omega_peri=p["w"])
    if o["node"]:
        kw["asc_node"] = p["Om"]
    return api.Body(**kw)


def draw(rng, n, struct, rv=False):
    """struct: (central surface or None, [(body kind, surface or None), ...])."""
    M, R = rng.uniform(0.3, 2, n), rng.uniform(0.3, 2, n)
    out = dict(M=M, R=R, central=draw_surface(rng, n, struct[0], rv) if struct[0] else {})
    out["bodies"] = [draw_body(rng, n, k, M, R) for k, _ in struct[1]]
    out["surfaces"] = [draw_surface(rng, n, s, rv) if s else {} for _, s in struct[1]]
    return out


def times(rng, p, nt):
    """Times in and around transits and eclipses of each body, and elsewhere."""
    n = len(p["M"])
    t = rng.uniform(-10, 10, (n, nt))
    for j, b in enumerate(p["bodies"]):
        dur = (p["R"] + b["r"]) / (2 * np.pi * b["a"] / b["P"])
        for k in range(nt):
            if k % (len(p["bodies"]) + 1) == j:
                # eclipses of eccentric orbits are elsewhere: found from the conjunction
                sw, cw = -np.sin(b["w"]), -np.cos(b["w"])
                ecl = b["tp"] - orb.t_peri_offset(b["P"], b["e"], sw, cw)
                t[:, k] = np.where(rng.random(n) < 0.5, b["T0"], ecl) + rng.uniform(-1, 1, n) * dur * np.where(
                    b["a"] < p["R"] + b["r"], 1.8, 1.3)
                t[:, k] += b["P"] * rng.integers(-2, 3, n)
    return t


def build(struct, p, how="init"):
    central = api.Central(mass=p["M"], radius=p["R"])
    cs = make_surface(struct[0], p["central"]) if struct[0] else None
    bodies = [make_body(k, b) for (k, _), b in zip(struct[1], p["bodies"], strict=True)]
    surfaces = [make_surface(s, q) if s else None
                for (_, s), q in zip(struct[1], p["surfaces"], strict=True)]
    if how == "init":
        return api.SurfaceSystem(central, cs, bodies=list(zip(bodies, surfaces, strict=True)))
    out = api.SurfaceSystem(central, cs)
    for b, s in zip(bodies, surfaces, strict=True):
        out = out.add_body(b, s)
    return out


DEFAULT = dict(c=np.ones((1, 1)), u=np.zeros((1, 0)), amp=np.ones(1), phase=np.zeros(1),
               radius=np.ones(1))


def positions(p, i, t):
    """Positions and velocities of each body relative to the centre."""
    return [orb.state(np.array(t), *(b[k][i] for k in ("P", "a", "e", "w", "i", "Om", "tp")))
            for b in p["bodies"]]


def pairs(struct, p, i, t):
    """(owner index, structure, surface parameters, row, orientation, occultor) of every term.

    Owner 0 is the star.  The occultor is None or (r, x, y, z) in units of the owner's radius.
    """
    pos = positions(p, i, t)
    s0, c0, row = (struct[0], p["central"], i) if struct[0] else (surf(period=False), DEFAULT, 0)
    R = p["R"][i]
    out = [(0, s0, c0, row, orientation(s0, c0, row, t), None)]
    for b, (x, _) in zip(p["bodies"], pos, strict=True):
        occ = (b["r"][i] / R, *(float(v) / R for v in x))
        out.append((0, s0, c0, row, orientation(s0, c0, row, t), occ))
    for j, (b, (x, _), (_, s), q) in enumerate(
            zip(p["bodies"], pos, struct[1], p["surfaces"], strict=True)):
        if s:
            r = b["r"][i]
            occ = (R / r, *(-float(v) / r for v in x))
            out.append((j + 1, s, q, i, orientation(s, q, i, t), occ))
    return out


def flux(term):
    _, s, q, i, (inc, obl, th), occ = term
    r, x, y, z = occ if occ else (None, 0.0, 0.0, 1.0)
    return q["amp"][i] * st.flux(q["c"][i], q["u"][i], inc, obl, th, r, x, y, z)


def flux_error(term, order=20):
    """Tolerance of the light curve of this term (see C14)."""
    _, s, q, i, _, occ = term
    sc = np.abs(q["c"][i]).sum() * abs(q["amp"][i])
    if s["u"]:
        sc *= (1 + np.abs(q["u"][i]).sum()) / st.limb_total(q["u"][i])
    d = s["y"] + s["u"]
    r = occ[0] if occ else 0.0
    return sc * (3e-8 if order == 20 else 1e-10) * (1 + d) ** 2 * max(1.0, (r / 3) ** 0.5)


def light_curves(struct, p, i, t):
    """Reference (flux of the star, flux of each body) and tolerance."""
    n = len(struct[1])
    out, tol = np.zeros(n + 1), np.zeros(n + 1)
    for term in pairs(struct, p, i, t):
        k = term[0]
        w = 1.0
        if k == 0:  # sum of the deficits of each body
            w = 1.0 - n if term[5] is None and n else 1.0
        out[k] += w * flux(term)
        tol[k] += abs(w) * flux_error(term)
    return out, tol


def doppler(coef, u, inc, obl, th, P, R, shear=None, r=None, x=0.0, y=0.0, z=1.0):
    """Mean radial velocity (receding positive, length of R per time of P) and visible flux."""
    if r is not None and z <= 0:
        r = None
    px, py, pz, w = st.disc(r, x, y, deg=st.degree(coef) + len(u) + 4)
    if len(w) == 0:
        return 0.0, 0.0, 0.0
    Q = st.body_to_sky(inc, obl, th)
    q = np.tensordot(Q.T, np.stack([px, py, pz]), 1)
    I = st.synth(coef, *q) * st.limb(u, pz)
    omega = 0.0 if P is None else 2 * np.pi * R / P * (1 - (shear or 0.0) * q[1] ** 2)
    ax = Q[:, 1]
    v = -omega * (ax[0] * py - ax[1] * px)
    F = float(w @ I)
    return (float(w @ (I * v)) / F if F else 0.0), F / st.limb_total(u), float(np.abs(w).sum())


def doppler_term(term):
    _, s, q, i, (inc, obl, th), occ = term
    r, x, y, z = occ if occ else (None, 0.0, 0.0, 1.0)
    P = q["period"][i] if "period" in q else None
    sh = q["shear"][i] if "shear" in q else None
    v, F, _ = doppler(q["c"][i], q["u"][i], inc, obl, th, P, q["radius"][i], sh, r, x, y, z)
    veq = 0.0 if P is None else 2 * np.pi * q["radius"][i] / P * (1 + abs(sh or 0.0))
    err = flux_error((0, dict(s, y=s["y"] + (3 if sh is not None else 1)), dict(q, amp=np.ones(len(q["amp"]))),
                      i, None, occ))
    return v, F, veq * 2 * err / max(F, 1e-300)


def velocities(struct, p, i, t):
    """Reference radial velocities, tolerances and whether they are defined."""
    n = len(struct[1])
    out, tol, ok = np.zeros(n + 1), np.zeros(n + 1), np.ones(n + 1, bool)
    for term in pairs(struct, p, i, t):
        k = term[0]
        w = 1.0
        if k == 0:
            w = 1.0 - n if term[5] is None and n else 1.0
        v, F, e = doppler_term(term)
        ok[k] &= F > 1e-3
        out[k] += w * v
        tol[k] += abs(w) * e
    for b, (_, vel) in zip(p["bodies"], positions(p, i, t), strict=True):
        v = float(vel[2]) * b["m"][i] / (p["M"][i] + b["m"][i])
        out[0] += v
        tol[0] += 1e-9 * abs(v) + 1e-9 * float(np.abs(vel).max()) * b["m"][i] / p["M"][i]
    return out, tol, ok
