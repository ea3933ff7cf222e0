"""C19: a spot darkens the stated place by the stated contrast and size."""

import numpy as np

from lib import api, st
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one (degree, contrast, radius, latitude, longitude, number of fit points, edge "
    "sharpness); poles, the date line, the centre of the disc and contrasts of either sign "
    "included. Non-trivial: the contrast is not zero. Oracle: least squares Legendre expansion "
    "of the smoothed profile about the stated centre, synthesised at points of the sphere; "
    "rotation symmetry and linearity between calls."
)
ASSUMPTIONS = []
REQUIRED = [
    "profile", "symmetry", "placement", "linear", "zero-contrast", "centre", "away", "outer-angle",
    "options", "jit", "container", "surface", "degree", "extremum", "defaults", "derivative",
    "derivative-finite",
]


def centre(lat, lon):
    return np.stack([np.cos(lat) * np.sin(lon), np.sin(lat), np.cos(lat) * np.cos(lon)], -1)


def legendre_fit(ydeg, r, npts=300, fac=300.0, slope=False):
    """Smoothed least squares coefficients of the circular region in sqrt(2l+1) P_l."""
    t = np.linspace(0, np.pi, npts)
    z = np.clip(fac * (t - r), -700, 700)
    b = -1 / (1 + np.exp(z))
    if slope:  # with respect to the radius
        b = b * (1 + b) * fac
    l = np.arange(ydeg + 1)
    V = np.polynomial.legendre.legvander(np.cos(t), ydeg) * np.sqrt(2 * l + 1)
    c = np.linalg.lstsq(V, b, rcond=None)[0]
    s = 0.5 if ydeg < 4 else 2.0 / ydeg
    return c * np.exp(-0.5 * l * (l + 1) * s**2)


def profile(coef, cosg):
    n = len(coef)
    return np.polynomial.legendre.legval(cosg, coef * np.sqrt(2 * np.arange(n) + 1))


def ring(c, gamma, phi):
    """Points at angular distance gamma from the unit vector c."""
    a = np.eye(3)[int(np.argmin(np.abs(c)))]
    e = np.cross(c, a)
    e /= np.linalg.norm(e)
    f = np.cross(c, e)
    g, p = np.broadcast_arrays(gamma, phi)
    return (np.cos(g)[..., None] * c
            + np.sin(g)[..., None] * (np.cos(p)[..., None] * e + np.sin(p)[..., None] * f))


def places(rng, n):
    lat = rng.uniform(-np.pi / 2, np.pi / 2, n)
    lon = rng.uniform(-np.pi, np.pi, n)
    k = rng.integers(0, 6, n)
    lat = np.select([k == 0, k == 1, k == 2], [np.zeros(n), rng.choice([-1, 1], n) * np.pi / 2,
                                               rng.choice([-1, 1], n) * (np.pi / 2 - 1e-9)], lat)
    k = rng.integers(0, 6, n)
    lon = np.select([k == 0, k == 1, k == 2],
                    [np.zeros(n), rng.integers(-2, 3, n) * np.pi / 2, rng.uniform(-20, 20, n)], lon)
    return lat, lon


@JOBS(shards=(6, 8))
def expansion(mon, rng, ctx):
    import jax

    for ydeg in ctx.mine([4, 5, 10, 7, 3, 8, 1, 2, 6, 12, 15][: ctx.n(9, 11)] + ([18, 20] if ctx.thorough else [])):
        n = ctx.n(24, 200)
        lat, lon = places(rng, n)
        con = np.where(rng.random(n) < 0.1, 0.0, rng.uniform(-1, 1.2, n))
        r = np.where(rng.random(n) < 0.1, 10 ** rng.uniform(-3, -1, n), rng.uniform(0.05, 2.5, n))
        npts, fac = (300, 300) if ydeg % 2 else (int(rng.integers(100, 800)), float(rng.uniform(20, 500)))
        kw = {} if ydeg % 2 else {"npts": npts, "spot_fac": fac}
        make = mon.call("profile", api.ylm_spot, ydeg, **kw)
        f = jax.jit(jax.vmap(lambda a, b, c, d, make=make: make(a, b, c, d).todense()))
        C = np.asarray(mon.call("profile", f, con, r, lat, lon))
        mon.check("degree", C.shape == (n, (ydeg + 1) ** 2), f"shape {C.shape}", ydeg=ydeg)
        mon.cases_from(np.full(n, ydeg), con, r, lat, lon, nontrivial=con != 0)
        tol = 1e-6 * (1 + ydeg)
        for i in range(n):
            fit = legendre_fit(ydeg, r[i], npts, fac)
            c = centre(lat[i], lon[i])
            g = np.linspace(0, np.pi, 25)
            p = ring(c, g, rng.uniform(0, 6.3, 25))
            got = np.pi * st.synth(C[i], *p.T)
            w = dict(ydeg=ydeg, contrast=con[i], radius=r[i], lat=lat[i], lon=lon[i])
            mon.close("profile" if not kw else "options", got, 1 + con[i] * profile(fit, np.cos(g)),
                      atol=tol, **w)
            q = ring(c, np.full(8, g[7]), np.arange(8) * np.pi / 4)
            v = np.pi * st.synth(C[i], *q.T)
            mon.close("symmetry", v, np.full(8, v.mean()), atol=tol, **w)
            if con[i] == 0:
                e = np.zeros(C.shape[1])
                e[0] = 1
                mon.close("zero-contrast", C[i], e, atol=1e-12, **w)
            # where the intensity is lowest (highest) is the stated place
            if abs(con[i]) > 0.2 and ydeg >= 4 and 0.3 < r[i] < 1.2:
                s = rng.normal(size=(400, 3))
                s /= np.linalg.norm(s, axis=1)[:, None]
                all_ = np.pi * st.synth(C[i], *np.vstack([c[None], s]).T)
                d = np.sign(con[i]) * (1 - all_)
                k = int(np.argmax(d))
                ang = np.arccos(np.clip(np.vstack([c[None], s])[k] @ c, -1, 1))
                mon.check("extremum", ang < r[i] + 1.5 / ydeg, f"deepest {ang} away from the centre", **w)
        # a longitude or latitude is a rotation of the spot at the origin
        base = np.asarray(f(con, r, np.zeros(n), np.zeros(n)))
        for i in range(n):
            p = rng.normal(size=(6, 3))
            p /= np.linalg.norm(p, axis=1)[:, None]
            ca, sa = np.cos(lat[i]), np.sin(lat[i])
            co, so = np.cos(lon[i]), np.sin(lon[i])
            up = np.array([[1, 0, 0], [0, ca, sa], [0, -sa, ca]])  # z to (0, sin lat, cos lat)
            east = np.array([[co, 0, so], [0, 1, 0], [-so, 0, co]])  # z to (sin lon, 0, cos lon)
            back = p @ (east @ up)
            mon.close("placement", np.pi * st.synth(C[i], *p.T), np.pi * st.synth(base[i], *back.T),
                      atol=tol, lat=lat[i], lon=lon[i], ydeg=ydeg)
        twice = np.asarray(f(2 * con, r, lat, lon))
        e = np.zeros(C.shape[1])
        e[0] = 1
        mon.close("linear", twice - e, 2 * (C - e), atol=1e-10, ydeg=ydeg)
        m = np.arange(n)
        mon.close("jit", np.asarray(jax.jit(f)(con[::-1], r[::-1], lat[::-1], lon[::-1]))[m[::-1]], C,
                  atol=1e-10, ydeg=ydeg)
        # what a user reads off: the centre reaches the contrast, away from it nothing changes
        if ydeg >= 5:
            for rad in np.linspace(5.0 / ydeg, 1.3, 4):
                lat0, lon0, k = rng.uniform(-1.5, 1.5), rng.uniform(-3, 3), rng.uniform(0.2, 1.0)
                C0 = np.asarray(f(np.array([k]), np.array([rad]), np.array([lat0]), np.array([lon0])))[0]
                c = centre(lat0, lon0)
                at = np.pi * float(st.synth(C0, *c))
                mon.close("centre", at, 1 - k, atol=0.25 * k, ydeg=ydeg, radius=rad, contrast=k)
                g = np.linspace(min(rad + 5.0 / ydeg, 3.0), np.pi, 8)
                p = ring(c, g, rng.uniform(0, 6.3, 8))
                mon.close("away", np.pi * st.synth(C0, *p.T), np.ones(8), atol=0.12 * k, ydeg=ydeg, radius=rad)
                # half of the contrast at the stated radius
                p = ring(c, np.full(6, rad), np.arange(6.0))
                mon.close("outer-angle", np.pi * st.synth(C0, *p.T), np.full(6, 1 - k / 2),
                          atol=0.25 * k, ydeg=ydeg, radius=rad)


@JOBS(shards=(2, 4))
def usage(mon, rng, ctx):
    """Eager calls as in the tutorial, and the surface made from the spot."""
    for ydeg in ctx.mine([5, 4, 8, 10][: ctx.n(2, 4)]):
        make = api.ylm_spot(ydeg)
        con, r, lat, lon = 0.8, rng.uniform(0.4, 0.9), rng.uniform(-1.2, 1.2), rng.uniform(-3, 3)
        y = mon.call("container", make, con, r, lat, lon)
        mon.check("container", isinstance(y, api.Ylm) and y.deg == ydeg, f"{type(y)}")
        fit = legendre_fit(ydeg, r)
        c = centre(lat, lon)
        g = np.linspace(0, np.pi, 20)
        p = ring(c, g, rng.uniform(0, 6, 20))
        v = np.asarray(y.todense())
        mon.close("container", np.pi * st.synth(v, *p.T), 1 + con * profile(fit, np.cos(g)), atol=1e-5)
        kw = mon.call("container", make, contrast=con, r=r, lat=lat, lon=lon)
        mon.close("container", np.asarray(kw.todense()), v, atol=1e-12)
        d = np.asarray(mon.call("defaults", make, con, r).todense())
        mon.close("defaults", d, np.asarray(make(con, r, 0.0, 0.0).todense()), atol=1e-12)
        p0 = ring(np.array([0.0, 0, 1]), g, rng.uniform(0, 6, 20))
        mon.close("defaults", np.pi * st.synth(d, *p0.T), 1 + con * profile(fit, np.cos(g)), atol=1e-5)
        inc, obl = rng.uniform(0.5, 2.5), rng.uniform(-2, 2)
        s = api.Surface(y=y, inc=inc, obl=obl, normalize=False)
        mon.close("surface", float(s.intensity(lat, lon)), float(st.synth(v, *c)), atol=1e-9)
        for th in (0.0, rng.uniform(-3, 3)):
            got = float(mon.call("surface", api.surface_light_curve, s, theta=th))
            mon.close("surface", got, st.flux(v, (), inc, obl, th), atol=1e-8)
        flat = np.asarray(make(0.0, r, lat, lon).todense())
        mon.close("zero-contrast", flat, np.eye(len(flat))[0], atol=1e-12)


@JOBS(shards=(3, 6))
def derivatives(mon, rng, ctx):
    """Derivatives of the map in the properties of the spot, forwards and backwards, in both precisions."""
    import jax
    import jax.numpy as jnp

    for ydeg in ctx.mine([4, 7, 10, 2, 5, 12][: ctx.n(3, 6)]):
        n = ctx.n(40, 300)
        lat, lon = places(rng, n)
        con = np.where(rng.random(n) < 0.1, 0.0, rng.uniform(-1, 1.2, n))
        r = np.where(rng.random(n) < 0.1, 10 ** rng.uniform(-3, -1, n), rng.uniform(0.05, 3.0, n))
        args = [np.asarray(np.asarray(v, np.float32), float) for v in (con, r, lat, lon)]
        con, r, lat, lon = args
        make = api.ylm_spot(ydeg)
        mode = jax.jacrev if ydeg % 2 else jax.jacfwd

        def jac(*q, make=make, mode=mode):
            return mode(lambda *v: jnp.asarray(make(*v).todense()), argnums=(0, 1, 2, 3))(*q)

        double = [np.asarray(v) for v in mon.call("derivative", jax.jit(jax.vmap(jac)), *args)]
        with jax.experimental.disable_x64():
            make = api.ylm_spot(ydeg)
            single = [np.asarray(v) for v in mon.call(
                "derivative", jax.jit(jax.vmap(lambda *q, make=make: jac(*q, make=make))),
                *[v.astype(np.float32) for v in args])]
        for i in range(n):
            w = dict(ydeg=ydeg, contrast=con[i], radius=r[i], lat=lat[i], lon=lon[i])
            fit, slope = legendre_fit(ydeg, r[i]), legendre_fit(ydeg, r[i], slope=True)
            c = centre(lat[i], lon[i])
            sa, ca, so, co = np.sin(lat[i]), np.cos(lat[i]), np.sin(lon[i]), np.cos(lon[i])
            dlat, dlon = np.array([-sa * so, ca, -sa * co]), np.array([ca * co, 0, -ca * so])
            g = np.linspace(0.02, np.pi - 0.02, 15)
            p = ring(c, g, rng.uniform(0, 6.3, 15))
            cg = p @ c
            k = np.sqrt(2 * np.arange(ydeg + 1) + 1)
            grow = np.polynomial.legendre.legval(cg, np.polynomial.legendre.legder(fit * k))
            want = [profile(fit, cg), con[i] * profile(slope, cg), con[i] * grow * (p @ dlat),
                    con[i] * grow * (p @ dlon)]
            size = (1 + ydeg) ** 2 * (1 + np.abs(fit).sum() + np.abs(slope).sum())
            for out, tol in ((double, 1e-6), (single, 3e-4)):
                for name, d, v in zip(("contrast", "radius", "lat", "lon"), out, want, strict=True):
                    mon.finite("derivative-finite", d[i], parameter=name, precision=str(d.dtype), **w)
                    got = np.pi * st.synth(np.nan_to_num(d[i].astype(float)), *p.T)
                    mon.close("derivative", got, v, atol=tol * size, parameter=name,
                              precision=str(d.dtype), **w)
        mon.cases_from(np.full(n, ydeg + 0.5), con, r, lat, lon, nontrivial=con != 0)
