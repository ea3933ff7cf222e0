"""C20: reported intensities and rendered images agree with the map."""

import numpy as np

from lib import api, ldref, st, whole
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one (map, limb darkening, orientation, phase) with the latitude and longitude "
    "asked for, or the resolution of the image; poles, date line, faces, orientations left out "
    "and special angles included. Non-trivial: the map is not uniform. Oracle: harmonics "
    "synthesised at the point, rotated to the sky by an independent matrix."
)
ASSUMPTIONS = []
REQUIRED = [
    "intensity", "intensity-eager", "intensity-array", "none-orientation", "normalized", "render",
    "outside", "grid", "render-default", "render-none", "flux-consistent", "shown", "graticule",
    "orientation-sense", "poles",
    "whole-numbers",
]


def kernel(ydeg, udeg, what, res=None):
    def make(c, u, inc, obl, amp):
        return api.Surface(y=api.Ylm.from_dense(c, normalize=False), inc=inc, obl=obl,
                           u=[u[i] for i in range(udeg)], normalize=False, amplitude=amp)

    if what == "intensity":
        return lambda c, u, inc, obl, amp, lat, lon: make(c, u, inc, obl, amp).intensity(lat, lon)
    return lambda c, u, inc, obl, amp, th: make(c, u, inc, obl, amp).render(theta=th, res=res)


def draw(rng, n, ydeg, udeg):
    c = rng.normal(size=(n, (ydeg + 1) ** 2))
    c *= np.where(rng.random((n, 1)) < 0.2, rng.random(c.shape) < 0.3, 1)
    c[:, 0] = np.where(rng.random(n) < 0.7, 1.0, c[:, 0])
    u = np.stack([ldref.profile(rng, udeg) for _ in range(n)]) if udeg else np.zeros((n, 0))
    inc = np.where(rng.random(n) < 0.25, rng.choice([0, np.pi / 2, np.pi], n), rng.uniform(0, np.pi, n))
    obl = np.where(rng.random(n) < 0.25, rng.choice([0.0, np.pi / 2, np.pi], n), rng.uniform(-7, 7, n))
    amp = np.where(rng.random(n) < 0.5, 1.0, rng.uniform(0.1, 20, n))
    th = np.where(rng.random(n) < 0.2, rng.integers(-2, 3, n) * np.pi / 2, rng.uniform(-9, 9, n))
    return c, u, inc, obl, amp, th


def places(rng, n):
    lat, lon = rng.uniform(-np.pi / 2, np.pi / 2, n), rng.uniform(-np.pi, np.pi, n)
    lat = np.where(rng.random(n) < 0.1, rng.choice([-1, 0, 1], n) * np.pi / 2, lat)
    lon = np.where(rng.random(n) < 0.2, rng.integers(-3, 4, n) * np.pi / 2, lon)
    return lat, lon


def body(lat, lon):
    return np.stack([np.cos(lat) * np.sin(lon), np.sin(lat), np.cos(lat) * np.cos(lon)])


def reference(c, u, inc, obl, amp, lat, lon):
    q = body(lat, lon)
    z = (st.body_to_sky(inc, obl, 0.0) @ q)[2]
    return amp * float(st.synth(c, *q)) * (st.limb(u, z) if len(u) else 1.0), z


def image(c, u, inc, obl, th, amp, res):
    g = np.linspace(-1, 1, res)
    X, Y = np.meshgrid(g, g)
    z2 = 1 - X**2 - Y**2
    with np.errstate(invalid="ignore"):
        Z = np.sqrt(z2)
    out = np.full((res, res), np.nan)
    m = z2 >= 0
    out[m] = amp * st.sky_intensity(c, u, st.body_to_sky(inc, obl, th), X[m], Y[m], Z[m])
    return out, z2


def size(c, u, amp):
    return (1 + np.abs(c).sum(-1)) * (1 + np.abs(u).sum(-1)) * (1 + np.abs(amp))


def judge_image(mon, rule, got, c, u, inc, obl, th, amp, **kw):
    res = got.shape[0]
    mon.check("grid", got.shape == (res, res), f"shape {got.shape}")
    want, z2 = image(c, u, inc, obl, th, amp, res)
    inside, outside = z2 > 1e-9, z2 < -1e-9
    # the slope of the intensity with z is infinite at the limb
    # (rounding of the pixel's coordinates is 1e-16, hence of z at most 1e-8)
    t = np.broadcast_to(size(c, u, amp) * 3e-7 * len(c), got.shape)
    if inside.any():
        mon.close(rule, got[inside], want[inside], atol=t[inside], inc=inc, obl=obl, theta=th, **kw)
    if outside.any():
        mon.all("outside", np.isnan(got[outside]), "a number outside of the disc", **kw)
    edge = ~inside & ~outside
    if edge.any():
        g = got[edge]
        mon.all("outside", np.isnan(g) | (np.abs(g) <= size(c, u, amp) * len(c)), "edge", **kw)


@JOBS(shards=(4, 8))
def intensities(mon, rng, ctx):
    import jax

    combos = [(1, 0), (2, 2), (3, 1), (5, 0), (4, 3), (0, 2), (8, 1), (6, 2)]
    if ctx.thorough:
        combos += [(y, u) for y in (0, 1, 2, 3, 4, 7, 10) for u in (0, 1, 2, 4)]
    for ydeg, udeg in ctx.mine(combos):
        n = ctx.n(300, 3000)
        c, u, inc, obl, amp, th = draw(rng, n, ydeg, udeg)
        lat, lon = places(rng, n)
        f = jax.jit(jax.vmap(kernel(ydeg, udeg, "intensity")))
        got = np.asarray(mon.call("intensity", f, c, u, inc, obl, amp, lat, lon))
        ref = [reference(*a) for a in zip(c, u, inc, obl, amp, lat, lon, strict=True)]
        want, z = np.array(ref).T
        ok = (z > -1e-7) | (udeg == 0)  # limb darkening has no meaning on the far side
        w = dict(c=c, u=u, inc=inc, obl=obl, lat=lat, lon=lon, amp=amp)
        mon.close("intensity", got[ok], want[ok], atol=(size(c, u, amp) * 3e-7 * (1 + ydeg) ** 2)[ok],
                  **{k: v[ok] for k, v in w.items()})
        p = np.abs(np.abs(lat) - np.pi / 2) < 1e-9
        if (p & ok).any():
            mon.close("poles", got[p & ok], want[p & ok],
                      atol=(size(c, u, amp) * 3e-7 * (1 + ydeg) ** 2)[p & ok])
        mon.cases_from(c[:, :4], inc, obl, lat, lon, nontrivial=np.abs(c[:, 1:]).sum(1) > 0)
        mon.fact("intensity_near_side", (z > 0).sum())
        mon.fact("intensity_far_side", (z < 0).sum())


@JOBS(shards=(4, 8))
def images(mon, rng, ctx):
    import jax

    combos = [(2, 1), (1, 0), (3, 2), (5, 0), (4, 2), (0, 2), (7, 1), (6, 0)]
    if ctx.thorough:
        combos += [(y, u) for y in (0, 1, 2, 4, 8, 10) for u in (0, 1, 3)]
    for ydeg, udeg in ctx.mine(combos):
        for res in (int(rng.integers(2, 12)), int(rng.integers(13, 40))):
            n = ctx.n(12, 60)
            c, u, inc, obl, amp, th = draw(rng, n, ydeg, udeg)
            f = jax.jit(jax.vmap(kernel(ydeg, udeg, "render", res)))
            got = np.asarray(mon.call("render", f, c, u, inc, obl, amp, th))
            if got.shape != (n, res, res):
                mon.check("grid", False, f"shape {got.shape}", res=res)
                continue
            for i in range(n):
                judge_image(mon, "render", got[i], c[i], u[i], inc[i], obl[i], th[i], amp[i], res=res)
            mon.cases_from(c[:, :4], inc, obl, th, np.full(n, res),
                           nontrivial=np.abs(c[:, 1:]).sum(1) > 0)
            mon.fact("pixels", got.size)


@JOBS(shards=(4, 6))
def usage(mon, rng, ctx):
    """Eager calls with orientations left out, normalised maps, the displayed image."""
    todo = ["none", "array", "sense", "shown", "flux", "default"] * ctx.n(1, 4)
    for kind in ctx.mine(todo):
        ydeg, udeg = int(rng.integers(1, 4)), int(rng.integers(0, 3))
        c, u, inc, obl, amp, th = (v[0] for v in draw(rng, 1, ydeg, udeg))
        lat, lon = (float(v[0]) for v in places(rng, 1))
        if c[0] == 0:
            c[0] = 0.7
        inc, obl, th = float(inc), float(obl), float(th)
        y = api.Ylm.from_dense(c, normalize=False)
        if kind == "none":
            for i, o in ((None, obl), (inc, None), (None, None)):
                s = api.Surface(y=y, inc=i, obl=o, u=list(u))
                got = mon.call("render-none", s.render, theta=None if o is None else th, res=15)
                judge_image(mon, "render-none", np.asarray(got), c, u, i or 0.0, o or 0.0,
                            0.0 if o is None else th, 1.0)
                want, z = reference(c, u, i or 0.0, o or 0.0, 1.0, lat, lon)
                if z > 0 or udeg == 0:
                    got = float(mon.call("none-orientation", s.intensity, lat, lon))
                    mon.close("none-orientation", got, want, atol=1e-5 * size(c, u, 1.0))
                else:
                    lat2, lon2 = 1.5, 0.1 if i is None else 0.0
                    want, z = reference(c, u, i or 0.0, o or 0.0, 1.0, lat2, lon2)
                    if z > 0:
                        mon.close("none-orientation", float(s.intensity(lat2, lon2)), want,
                                  atol=1e-5 * size(c, u, 1.0))
        elif kind == "array":
            s = api.Surface(y=y, inc=inc, obl=obl)  # normalised: intensity of the map as given
            la, lo = places(rng, 7)
            got = np.asarray(mon.call("intensity-array", s.intensity, la, lo))
            want = np.array([reference(c, (), inc, obl, 1.0, *p)[0] for p in zip(la, lo, strict=True)])
            mon.close("intensity-array", got, want, atol=1e-5 * size(c, u, 1.0))
            # one latitude for several longitudes and the reverse
            for pa, po in ((la[:3], lon), (lat, lo[:3])):
                got = np.asarray(mon.call("intensity-array", s.intensity, pa, po))
                want = np.array([reference(c, (), inc, obl, 1.0, *p)[0] for p in
                                 zip(*np.broadcast_arrays(pa, po), strict=True)])
                mon.close("intensity-array", got.reshape(want.shape), want,
                          atol=1e-5 * size(c, u, 1.0))
            mon.close("normalized", float(s.amplitude), c[0], rtol=1e-12)
            got = float(mon.call("intensity-eager", s.intensity, lat, lon))
            want = reference(c, (), inc, obl, 1.0, lat, lon)[0]
            mon.close("intensity-eager", got, want, atol=1e-5 * size(c, u, 1.0))
        elif kind == "sense":
            # a bright cap on the equator at the meridian 0 that faces the observer at phase 0
            # moves to the right as the phase grows; a northern one is up
            for lat0, lon0, phase, where in ((0.0, 0.0, 0.0, (0, 0)), (0.0, 0.0, 0.8, (1, 0)),
                                             (0.0, 0.0, -0.8, (-1, 0)), (0.8, 0.0, 0.0, (0, 1)),
                                             (0.0, 0.8, 0.0, (1, 0)), (-0.8, 0.0, 0.0, (0, -1))):
                spot = api.ylm_spot(6)(-1.0, 0.4, lat0, lon0)
                im = np.asarray(api.Surface(y=spot, normalize=False).render(theta=phase, res=41))
                k = np.nanargmax(im)
                row, col = divmod(int(k), 41)
                px, py = np.linspace(-1, 1, 41)[[col, row]]
                e = np.sin(0.8)
                ok = np.hypot(px - e * where[0], py - e * where[1]) < 0.25
                mon.check("orientation-sense", ok, f"brightest at {px, py}", lat=lat0, lon=lon0,
                          phase=phase)
        elif kind == "shown":
            import matplotlib

            matplotlib.use("Agg")
            import matplotlib.pyplot as plt

            fig, ax = plt.subplots()
            s = api.Surface(y=y, inc=inc, obl=obl, u=list(u), phase=0.4, period=2.0)
            im = mon.call("shown", api.show_surface, s, theta=th, res=25, ax=ax, return_im=True)
            got = np.ma.filled(np.asarray(im.get_array(), float), np.nan)
            arr = im.get_array()
            if np.ma.isMaskedArray(arr):
                got = np.where(np.ma.getmaskarray(arr), np.nan, np.asarray(arr.data, float))
            judge_image(mon, "shown", got, c, u, inc, obl, th + 0.4, 1.0)
            mon.check("shown", im.origin == "lower" and list(im.get_extent()) == [-1, 1, -1, 1],
                      f"{im.origin} {im.get_extent()}")
            # every line drawn inside of the disc is a parallel or meridian of the shown map
            Q = st.body_to_sky(inc, obl, th + 0.4)
            count = 0
            for line in ax.get_lines():
                xy = np.asarray(line.get_xydata(), float)
                xy = xy[np.isfinite(xy).all(1)]
                rho2 = (xy**2).sum(1)
                inner = rho2 < 0.98
                if inner.sum() < 5:
                    continue
                X = np.c_[xy[inner], np.sqrt(1 - rho2[inner])]
                q = X @ Q
                la, lo = np.arcsin(np.clip(q[:, 1], -1, 1)), np.arctan2(q[:, 0], q[:, 2])
                d1 = np.abs(la / (np.pi / 6) - np.round(la / (np.pi / 6))).max()
                away = np.abs(la) < 1.5
                f = lo[away] / (np.pi / 6)
                d2 = np.abs(f - np.round(f)).max() if away.any() else 0
                mon.check("graticule", min(d1, d2) < 1e-5, f"off the grid by {min(d1, d2)}",
                          inc=inc, obl=obl, theta=th)
                count += 1
            mon.check("graticule", count >= 5, f"only {count} lines")
            plt.close(fig)
        elif kind == "flux":
            # the image summed over the disc is the light curve
            s = api.Surface(y=y, inc=inc, obl=obl)
            im = np.asarray(s.render(theta=th, res=201))
            got = np.nansum(im) * (2 / 200) ** 2
            flux = float(api.surface_light_curve(s, theta=th))
            mon.close("flux-consistent", got, flux, atol=0.03 * size(c, (), 1.0))
        else:
            s = api.Surface(y=y, u=list(u))
            judge_image(mon, "render-default", np.asarray(mon.call("render-default", s.render, res=12)),
                        c, u, np.pi / 2, 0.0, 0.0, 1.0)
            im = mon.call("render-default", s.render)
            judge_image(mon, "render-default", np.asarray(im), c, u, np.pi / 2, 0.0, 0.0, 1.0)
            d = mon.call("render-default", api.Surface().render, theta=1.0, res=7)
            judge_image(mon, "render-default", np.asarray(d), np.ones(1), np.zeros(0), 0.0, 0.0, 0.0, 1.0)


JOBS(shards=(1, 1))(whole.job(whole.images))
