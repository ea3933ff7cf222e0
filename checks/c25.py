"""C25: surface observables have the right finite derivatives."""

import numpy as np

from lib import api, ldref, st, systems as S
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one surface (map, limb darkening, orientation, phase) and one geometry of the "
    "occultor, at random and at default values (edge-on, no obliquity, zero phase, on the axes), with "
    "the gradient of the observable in all of its parameters. Non-trivial: the map is not uniform or "
    "something is occulted. Oracle: five point differences of the independent quadrature."
)
ASSUMPTIONS = ["contacts are at least 0.02 away; next to concentric discs (|b| < 1e-6) the derivatives in "
               "the position are those of a point within 1e-10, with 1e-5 of relative accuracy"]
REQUIRED = [
    "flux-finite", "flux", "flux-forward", "default-orientation", "no-overlap", "total", "behind",
    "velocity", "velocity-finite", "intensity", "intensity-finite", "pole", "spot", "amplitude",
    "concentric", "no-radius",
]

STRUCTS = [(1, 0), (2, 1), (3, 2), (0, 2), (2, 0), (4, 0)]


def draw(rng, n, y, u):
    c = rng.normal(size=(n, (y + 1) ** 2)) * 0.4
    c[:, 0] = rng.uniform(0.5, 2, n)
    p = dict(c=c, u=np.stack([ldref.profile(rng, u) for _ in range(n)]) if u else np.zeros((n, 0)))
    p["inc"] = rng.uniform(0.05, np.pi - 0.05, n)
    p["obl"] = rng.uniform(-4, 4, n)
    p["th"] = rng.uniform(-8, 8, n)
    k = np.arange(n) % 6
    p["inc"] = np.where((k == 1) | (k == 3), np.pi / 2, p["inc"])
    p["obl"] = np.where((k == 2) | (k == 3), 0.0, p["obl"])
    p["th"] = np.where((k == 4) | (k == 3), 0.0, p["th"])
    k = np.arange(n) % 11
    p["obl"] = np.where(k == 5, rng.choice([np.pi, -np.pi / 2, 2 * np.pi], n), p["obl"])
    p["th"] = np.where(k == 6, rng.choice([np.pi, -np.pi / 2, 2 * np.pi], n), p["th"])
    return p


def geometry(rng, n):
    """Occultors of every kind, away from contacts; kinds: 0 open, 1 inside or partial, 2 total."""
    r = np.where(rng.random(n) < 0.7, rng.uniform(0.03, 0.9, n), rng.uniform(1.1, 6, n))
    d = 0.02
    lo, hi = np.abs(1 - r), 1 + r
    kind = rng.choice(4, n, p=[0.12, 0.1, 0.33, 0.45])
    b = np.empty(n)
    for i in range(n):
        k = kind[i]
        if k == 0:
            b[i] = hi[i] + rng.uniform(d, 2)
        elif k == 1:  # covered or, for a small occultor, inside of the disc
            b[i] = rng.uniform(d, max(lo[i] - d, 2 * d))
            if not lo[i] > 3 * d:
                b[i] = rng.uniform(lo[i] + d, hi[i] - d)
        elif k == 2 and lo[i] > 3 * d and r[i] < 1:
            b[i] = rng.uniform(d, lo[i] - d)
        else:
            b[i] = rng.uniform(lo[i] + d, hi[i] - d)
        if rng.random() < 0.1 and abs(r[i] - 1) > d:  # the same centre, or almost
            b[i] = rng.choice([0.0, 0.0, 10 ** rng.uniform(-17, -9)])
        elif rng.random() < 0.06:
            r[i], b[i] = 0.0, rng.choice([rng.uniform(0.02, 0.97), rng.uniform(1.03, 2), 0.0])
        elif abs(b[i] - r[i]) < 0.01:  # only the quadrature of the reference needs this
            b[i] += 0.02 if b[i] + 0.02 < hi[i] - d else -0.02
    a = rng.uniform(-np.pi, np.pi, n)
    a = np.where(rng.random(n) < 0.25, rng.integers(-1, 3, n) * np.pi / 2, a)
    x, y = b * np.cos(a), b * np.sin(a)
    x[np.abs(x) < 1e-9 * b] = 0.0
    y[np.abs(y) < 1e-9 * b] = 0.0
    z = np.where(rng.random(n) < 0.1, -1.0, 1.0) * rng.uniform(0.5, 9, n)
    return dict(r=r, x=x, y=y), z


def difference(f, p, keys, h=3e-4):
    """Gradient of f(p) by five point differences, as a dict of arrays."""
    out = {}
    for k in keys:
        v = np.asarray(p[k], float)
        g = np.empty(v.size)
        for j in range(v.size):
            if k == "r" and v == 0:  # the hidden part is quadratic in the radius
                g[j] = 0.0
                continue
            s = 0.0
            for m, w in ((1, 8.0), (-1, -8.0), (2, -1.0), (-2, 1.0)):
                q = v.copy().ravel()
                q[j] += m * h
                s += w * f({**p, k: q.reshape(v.shape) if v.ndim else float(q[0])})
            g[j] = s / (12 * h)
        out[k] = g.reshape(v.shape)
    return out


def scale(r):
    return max(1.0, 0.1 / r if r else 1.0, r)


def make(p, u, **kw):
    return api.Surface(y=api.Ylm.from_dense(p["c"], normalize=False), u=[p["u"][k] for k in range(u)],
                       inc=p["inc"], obl=p["obl"], normalize=False, **kw)


def rows(p, i):
    return {k: np.asarray(v)[i] for k, v in p.items()}


def compare(mon, rule, got, want, tol, i, **w):
    q = w["p"]
    tiny = "x" in q and np.hypot(q["x"], q["y"]) < 1e-6
    for k in want:
        if tiny or ("r" in q and q["r"] == 0):
            mon.close("concentric" if tiny else "no-radius", np.asarray(got[k])[i], want[k],
                      atol=2000 * tol if tiny else tol, parameter=k, **w)
            continue
        mon.close(rule, np.asarray(got[k])[i], want[k], atol=tol, parameter=k, **w)


@JOBS(shards=(6, 8))
def flux(mon, rng, ctx):
    import jax

    for ydeg, udeg in ctx.mine(STRUCTS):
        n = ctx.n(60, 500)
        p = draw(rng, n, ydeg, udeg)
        g, z = geometry(rng, n)
        p = {**p, **g}
        p["amp"] = rng.uniform(0.2, 3, n)

        def f(p, z, udeg=udeg):
            s = make(p, udeg, amplitude=p["amp"])
            return api.surface_light_curve(s, p["r"], p["x"], p["y"], z, p["th"], 60)

        rev = jax.jit(jax.vmap(jax.grad(f)))
        G = {k: np.asarray(v) for k, v in mon.call("flux-finite", rev, p, z).items()}
        for k in G:
            mon.finite("flux-finite", G[k].reshape(n, -1).sum(1) if G[k].size else np.zeros(1),
                       parameter=k, inc=p["inc"], obl=p["obl"], th=p["th"], r=p["r"], x=p["x"], y=p["y"])
        t = {k: rng.normal(size=np.shape(v)) for k, v in p.items()}
        fwd = jax.jit(jax.vmap(lambda p, z, t: jax.jvp(lambda p: f(p, z), (p,), (t,))[1]))
        F = np.asarray(mon.call("flux-forward", fwd, p, z, t))
        dot = sum((G[k] * t[k]).reshape(n, -1).sum(1) for k in G)
        size = sum(np.abs(G[k] * t[k]).reshape(n, -1).sum(1) for k in G)
        b = np.hypot(p["x"], p["y"])
        mon.close("flux-forward", F, dot, atol=np.where(b < 1e-6, 2e-4, 1e-9) * (1 + size), b=b, r=p["r"])
        keys = ["c", "u", "inc", "obl", "th", "r", "x", "y", "amp"]
        for i in range(n):
            q = rows(p, i)

            def ref(v, z=z[i]):
                return float(v["amp"]) * st.flux(v["c"], v["u"], v["inc"], v["obl"], v["th"], v["r"],
                                                 v["x"], v["y"], z)

            want = difference(ref, q, keys)
            b = np.hypot(q["x"], q["y"])
            sc = np.abs(q["c"]).sum() * q["amp"] * (1 + np.abs(q["u"]).sum()) / st.limb_total(q["u"])
            tol = 3e-9 * sc * (1 + ydeg + udeg) ** 2 * scale(q["r"])
            w = dict(p=q, z=z[i], ydeg=ydeg, udeg=udeg)
            hidden = z[i] > 0 and b < 1 + q["r"]
            compare(mon, "flux", G, want, tol, i, **w)
            if not hidden:
                for k in ("r", "x", "y"):
                    mon.close("behind" if z[i] <= 0 else "no-overlap", G[k][i], 0.0, atol=1e-13 * sc if b > 1e-6 else 1e-4 * sc,
                              parameter=k, **w)
            elif b < q["r"] - 1:
                for k in keys:
                    mon.close("total", G[k][i], np.zeros(np.shape(G[k][i])), atol=1e-13 * sc, parameter=k,
                              **w)
            if q["inc"] == np.pi / 2 or q["obl"] == 0 or q["th"] == 0:
                mon._rule("default-orientation")["events"] += 1
            mon._rule("amplitude")["events"] += 1
        mon.cases_from(p["inc"], p["obl"], p["th"], p["r"], p["x"], p["y"], nontrivial=True)


@JOBS(shards=(3, 5))
def velocity(mon, rng, ctx):
    import jax

    for ydeg, udeg in ctx.mine([(1, 0), (2, 1), (0, 2), (3, 0), (1, 2)]):
        n = ctx.n(30, 200)
        p = draw(rng, n, ydeg, udeg)
        p["c"][:, 1:] *= 0.4 / (1 + ydeg)
        p["c"][:, 0] = 1.0
        if udeg:
            p["u"] = np.abs(p["u"]) / (1.5 * udeg)
        g, z = geometry(rng, n)
        big = g["r"] > 1  # next to total the mean velocity is not defined
        b = np.hypot(g["x"], g["y"])
        for i in np.flatnonzero(big):
            if b[i] < g["r"][i] + 0.1:
                g["x"][i], g["y"][i] = [(g["r"][i] + 0.1, 0.0), (0.0, -g["r"][i] - 0.1)][i % 2]
        edge = np.abs(np.hypot(g["x"], g["y"]) - 1 - g["r"]) < 0.02
        g["x"][edge] *= 1.1
        g["y"][edge] *= 1.1
        p = {**p, **g, "P": 10 ** rng.uniform(0, 1.5, n)}

        def f(p, z, udeg=udeg):
            s = make(p, udeg, period=p["P"], radius=0.8)
            v = api.surface_radial_velocity(s, p["r"], p["x"], p["y"], z, p["th"], 60)
            return getattr(v, "magnitude", v)

        G = {k: np.asarray(v) for k, v in
             mon.call("velocity-finite", jax.jit(jax.vmap(jax.grad(f))), p, z).items()}
        for k in G:
            mon.finite("velocity-finite", G[k].reshape(n, -1).sum(1) if G[k].size else np.zeros(1),
                       parameter=k, inc=p["inc"], obl=p["obl"], th=p["th"], r=p["r"], x=p["x"], y=p["y"])
        for i in range(n):
            q = rows(p, i)

            def ref(v, z=z[i]):
                return S.doppler(v["c"], v["u"], v["inc"], v["obl"], v["th"], v["P"], 0.8, None, v["r"],
                                 v["x"], v["y"], z)[0]

            want = difference(ref, q, ["c", "u", "inc", "obl", "th", "r", "x", "y", "P"])
            _, F, _ = S.doppler(q["c"], q["u"], q["inc"], q["obl"], q["th"], q["P"], 0.8, None, q["r"],
                                q["x"], q["y"], z[i])
            veq = 2 * np.pi * 0.8 / q["P"]
            tol = 2e-8 * veq * (2 + ydeg + udeg) ** 2 * scale(q["r"]) / min(1, F) ** 2
            compare(mon, "velocity", G, want, tol, i, p=q, z=z[i], ydeg=ydeg, udeg=udeg)
        mon.cases_from(p["inc"], p["obl"], p["th"], p["r"], p["x"], p["y"], nontrivial=True)


@JOBS(shards=(2, 3))
def intensity(mon, rng, ctx):
    import jax

    for ydeg, udeg in ctx.mine([(1, 0), (2, 1), (3, 0)] if not ctx.thorough else
                               [(1, 0), (2, 1), (3, 0), (5, 0), (1, 3), (0, 2)]):
        n = ctx.n(40, 300)
        p = draw(rng, n, ydeg, udeg)
        # points on the near side, so that the limb darkening is defined
        p["lat"], p["lon"] = rng.uniform(-1.3, 1.3, n), rng.uniform(-3, 3, n)
        Q = [st.body_to_sky(p["inc"][i], p["obl"][i], 0.0) for i in range(n)]

        def point(lat, lon):
            return np.array([np.cos(lat) * np.sin(lon), np.sin(lat), np.cos(lat) * np.cos(lon)])

        for i in range(n):
            for _ in range(100):
                if (Q[i] @ point(p["lat"][i], p["lon"][i]))[2] > 0.1:
                    break
                p["lat"][i], p["lon"][i] = rng.uniform(-1.3, 1.3), rng.uniform(-3, 3)

        def f(p, udeg=udeg):
            return make(p, udeg).intensity(p["lat"], p["lon"])

        G = {k: np.asarray(v) for k, v in
             mon.call("intensity-finite", jax.jit(jax.vmap(jax.grad(f))), p).items()}

        def ref(v):
            q = point(v["lat"], v["lon"])
            z = (st.body_to_sky(v["inc"], v["obl"], 0.0) @ q)[2]
            return float(st.synth(v["c"], *q[:, None])[0] * st.limb(v["u"], z))

        del p["th"]
        val = np.asarray(jax.jit(jax.vmap(f))(p))
        base = np.array([ref(rows(p, i)) for i in range(n)])
        sizes = np.array([np.abs(c).sum() * (1 + np.abs(u).sum()) for c, u in zip(p["c"], p["u"], strict=True)])
        mon.close("intensity", val, base, atol=1e-7 * sizes)
        for i in range(n):
            q = rows(p, i)
            want = difference(ref, q, ["c", "u", "inc", "obl", "lat", "lon"])
            for k in want:
                mon.finite("intensity-finite", G[k][i], parameter=k, p=q)
            sc = np.abs(q["c"]).sum() * (1 + np.abs(q["u"]).sum()) 
            compare(mon, "intensity", G, want, 1e-7 * sc * (1 + ydeg + udeg) ** 2, i, p=q, ydeg=ydeg,
                    udeg=udeg)
        mon.cases_from(p["inc"], p["obl"], p["lat"], p["lon"], nontrivial=ydeg > 0)


@JOBS()
def special(mon, rng, ctx):
    """Seen exactly from a pole; spots."""
    import jax

    n = ctx.n(20, 100)
    p = draw(rng, n, 2, 1)
    g, z = geometry(rng, n)
    p = {**p, **g}
    p["inc"] = np.where(np.arange(n) % 2, 0.0, np.pi)

    def f(p, z):
        return api.surface_light_curve(make(p, 1), p["r"], p["x"], p["y"], z, p["th"], 60)

    G = {k: np.asarray(v) for k, v in mon.call("pole", jax.jit(jax.vmap(jax.grad(f))), p, z).items()}
    for i in range(n):
        q = rows(p, i)

        def ref(v, z=z[i]):
            return st.flux(v["c"], v["u"], v["inc"], v["obl"], v["th"], v["r"], v["x"], v["y"], z)

        want = difference(ref, q, ["c", "u", "th", "r", "x", "y", "inc", "obl"])
        tol = 1e-7 * np.abs(q["c"]).sum() * 20 * (1 + np.abs(q["u"]).sum()) / st.limb_total(q["u"]) \
            * scale(q["r"])
        if np.hypot(q["x"], q["y"]) < 1e-6:
            tol *= 1e3
        for k in want:
            mon.close("pole", G[k][i], want[k], atol=tol, parameter=k, p=q, z=z[i])
    mon.cases_from(p["obl"], p["th"], p["r"], p["x"])
    # spots: derivative of the map in its contrast, radius and place
    deg = 4
    m = ctx.n(12, 60)
    q = dict(c=rng.uniform(0.1, 0.9, m), r=rng.uniform(0.2, 1.0, m), lat=rng.uniform(-1.2, 1.2, m),
             lon=rng.uniform(-3, 3, m))
    cot = rng.normal(size=(deg + 1) ** 2)
    make_spot = api.ylm_spot(deg)
    h = lambda q: make_spot(q["c"], q["r"], q["lat"], q["lon"]).todense() @ cot
    H = jax.jit(jax.vmap(jax.grad(h)))
    G = {k: np.asarray(v) for k, v in mon.call("spot", H, q).items()}
    val = jax.jit(jax.vmap(h))
    for k in q:
        mon.finite("spot", G[k], parameter=k, **q)
        # the edge of a spot is 1/300 wide
        e = 1e-4 if k != "r" else 2e-5
        d = lambda s, k=k: np.asarray(val({**q, k: q[k] + s}))
        num = (8 * (d(e) - d(-e)) - (d(2 * e) - d(-2 * e))) / (12 * e)
        mon.close("spot", G[k], num, atol=1e-5 * (1 + np.abs(num)), parameter=k, **q)
    mon.cases_from(q["c"], q["r"], q["lat"], q["lon"])
