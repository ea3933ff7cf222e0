"""C15: surface flux is linear in the map, scales with the amplitude, and is frame independent."""

import numpy as np

from checks import c14
from lib import api, ldref, st
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one pair (or small family) of executions on related inputs: combinations of "
    "maps, amplitudes, simultaneous rotations or reflections of map and occultor, whole turns, "
    "occultors moved behind the surface or across a contact, uniform maps against the limb "
    "darkened light curve. Non-trivial: the related inputs differ. Oracle: the relation between "
    "the two executions; the area of the region by which their occultations differ."
)
ASSUMPTIONS = []
REQUIRED = [
    "linear", "amplitude", "normalized", "roll", "mirror", "turns", "half-turn", "behind",
    "no-overlap", "uniform-occulted", "uniform-embedded", "continuity", "monotone", "amplitude-unocculted",
    "beyond-degree", "sparse-map", "amplitude-uniform", "surface-api",
]


def parity(ydeg):
    """Signs of the coefficients under the reflection x -> -x."""
    return np.array([(-1.0) ** abs(m) * (1 if m >= 0 else -1)
                     for l in range(ydeg + 1) for m in range(-l, l + 1)])


def lens(b, r):
    """Area of the overlap with the unit disc."""
    b, r = np.asarray(b, float), np.asarray(r, float)
    out = np.zeros(b.shape)
    full = b <= np.abs(1 - r)
    out = np.where(full, np.pi * np.minimum(1, r) ** 2, 0.0)
    m = ~full & (b < 1 + r)
    bb, rr = np.where(m, b, 1.0), np.where(m, r, 1.0)
    a1 = 2 * np.arccos(np.clip((bb**2 + 1 - rr**2) / (2 * bb), -1, 1))
    a2 = 2 * np.arccos(np.clip((bb**2 + rr**2 - 1) / (2 * bb * rr), -1, 1))
    seg = 0.5 * (a1 - np.sin(a1)) + 0.5 * rr**2 * (a2 - np.sin(a2))
    return np.where(m, seg, out)


def bound(args, udeg):
    """An upper limit of |intensity| over the disc, normalised as the flux is."""
    c, u = args[0], args[1]
    l = np.floor(np.sqrt(np.arange(c.shape[1]) + 0.5))
    s = (np.abs(c) * np.sqrt(2 * l + 1) * np.sqrt(2)).sum(1) / np.pi
    if udeg:
        s = s * (1 + np.abs(u).sum(1)) / np.array([st.limb_total(v) for v in u])
    return s


@JOBS(shards=(4, 8))
def relations(mon, rng, ctx):
    import jax

    combos = [(1, 0), (2, 2), (3, 1), (4, 0), (5, 2), (0, 2), (0, 0), (2, 0)]
    if ctx.thorough:
        combos += [(y, u) for y in range(7) for u in range(4) if (y, u) not in combos]
    for ydeg, udeg in ctx.mine(combos):
        n = ctx.n(250, 2000)
        f = jax.jit(jax.vmap(c14.kernel(ydeg, udeg, 20)))
        f0 = jax.jit(jax.vmap(c14.kernel(ydeg, udeg, occ=False)))

        def run(rule, args, f=f):
            return np.asarray(mon.call(rule, f, *args))

        def moved(args, **kw):
            names = ["c", "u", "inc", "obl", "th", "r", "x", "y", "z", "amp"]
            out = list(args)
            for k, v in kw.items():
                out[names.index(k)] = v
            return out

        args = c14.draw(rng, n, ydeg, udeg)
        c, u, inc, obl, th, r, x, y, z, amp = args
        S = c14.scale(args, udeg)
        b = np.hypot(x, y)
        w = dict(c=c, u=u, inc=inc, obl=obl, theta=th, r=r, x=x, y=y, z=z)
        base = run("linear", args)
        mon.cases_from(c[:, :4], inc, obl, th, r, x, y, z)

        # linear in the coefficients, for any sign of the weights
        c2 = rng.normal(size=c.shape) * (rng.random(c.shape) < 0.7)
        p, q = rng.normal(size=(2, n, 1))
        g2 = run("linear", moved(args, c=c2))
        comb = run("linear", moved(args, c=p * c + q * c2))
        rnd = 1e-11 * (1 + r) ** max(1, min(ydeg + udeg, 4)) * (1 + ydeg)
        rnd = np.minimum(rnd, 1e-7)
        size = c14.scale([np.abs(p * c) + np.abs(q * c2), u], udeg) + 1e-300
        mon.close("linear", comb, p[:, 0] * base + q[:, 0] * g2, atol=size * rnd, **w)

        # the amplitude multiplies every observed flux
        amp2 = rng.choice([0.0, -2.5, 1e-3, 7.0, 1e6], n) * rng.uniform(0.5, 2, n)
        got = run("amplitude", moved(args, amp=amp2))
        mon.close("amplitude" if ydeg else "amplitude-uniform", got, amp2 * base,
                  atol=np.abs(amp2) * S * 1e-13, amplitude=amp2, **w)
        free = run("amplitude", args, f0)
        got = run("amplitude", moved(args, amp=amp2), f0)
        mon.close("amplitude-unocculted", got, amp2 * free, atol=np.abs(amp2) * S * 1e-13,
                  amplitude=amp2, **w)

        # rolling map and occultor together
        d = np.where(rng.random(n) < 0.3, rng.choice([np.pi / 2, -np.pi, 2 * np.pi], n),
                     rng.uniform(-6, 6, n))
        xr, yr = x * np.cos(d) - y * np.sin(d), x * np.sin(d) + y * np.cos(d)
        got = run("roll", moved(args, obl=obl + d, x=xr, y=yr))
        # the two separations agree to rounding only: where that changes the flux is bounded by
        # the area between the limbs
        db = 4e-16 * (1 + b)
        area = np.abs(lens(b + db, r) - lens(np.maximum(b - db, 0), r)) + 2 * db * (
            np.minimum(r, 1) + np.minimum(b, 2))
        slack = S * (rnd + 1e-9 * (1 + ydeg + udeg)) + bound(args, udeg) * area
        mon.close("roll", got, base, atol=slack, roll=d, **w)

        # the mirror image
        got = run("mirror", moved(args, c=c * parity(ydeg), obl=-obl, th=-th, x=-x))
        mon.close("mirror", got, base, atol=slack, **w)

        # whole turns of phase and obliquity, and the other description of the same orientation
        k = rng.integers(-3, 4, n) * 2 * np.pi
        got = run("turns", moved(args, th=th + k, obl=obl + rng.integers(-1, 2, n) * 2 * np.pi))
        mon.close("turns", got, base, atol=slack + S * 1e-12, **w)
        # looking at the opposite pole: pi - inc, half a turn of phase and of obliquity,
        # with the map turned upside down (x -> -x, y -> -y)
        flip = np.array([(-1.0) ** abs(m) for l in range(ydeg + 1) for m in range(-l, l + 1)])
        got = run("half-turn", moved(args, c=c * flip, inc=np.pi - inc, obl=obl + np.pi,
                                     th=-th))
        mon.close("half-turn", got, base, atol=slack, **w)

        # occultors behind the surface or beside it change nothing
        got = run("behind", moved(args, z=-np.abs(z)))
        mon.close("behind", got, free, atol=S * rnd, **w)
        far = (1 + r) * (1 + 10 ** rng.uniform(-12, 2, n)) / np.maximum(b, 1e-300)
        ok = b > 1e-3
        got = run("no-overlap", moved(args, x=x * far, y=y * far, z=np.abs(z)))
        mon.close("no-overlap", got[ok], free[ok], atol=(S * rnd)[ok], factor=far[ok],
                  **{k: v[ok] for k, v in w.items()})

        # continuity across contacts, bounded by the light of the area that differs
        side = np.where(rng.random(n) < 0.5, 1 + r, np.abs(1 - r))
        d1, d2 = 10 ** rng.uniform(-12, -3, (2, n)) * rng.choice([-1, 1], (2, n))
        b1, b2 = np.abs(side + d1 * np.minimum(r, 1)), np.abs(side + d2 * np.minimum(r, 1))
        pos = rng.uniform(-np.pi, np.pi, n)
        g = [run("continuity", moved(args, x=v * np.cos(pos), y=v * np.sin(pos),
                                     z=np.abs(z) + 1e-3)) for v in (b1, b2)]
        # region between two shifted discs, cut by the unit disc
        r1 = np.minimum(r, 1)
        area = 2 * np.abs(b1 - b2) * r1 + np.abs(lens(b1, r) - lens(b2, r)) + 1e-15
        quad = S * c14.tol(20, ydeg, udeg, r)
        mon.close("continuity", g[0], g[1], atol=bound(args, udeg) * area + quad, b1=b1, b2=b2,
                  position_angle=pos, **{k: w[k] for k in ("c", "u", "inc", "obl", "theta", "r")})

        # a positive map gets fainter when the occultor grows
        cp = c.copy()
        cp[:, 0] = 1.0
        m = bound([cp[:, 1:] if ydeg else np.zeros((n, 1)), u], 0) * np.pi
        if ydeg:
            l = np.floor(np.sqrt(np.arange(1, c.shape[1]) + 0.5))
            m = (np.abs(cp[:, 1:]) * np.sqrt(2 * (2 * l + 1))).sum(1)
            cp[:, 1:] *= (0.9 / np.maximum(m, 0.9))[:, None]
        small = run("monotone", moved(args, c=cp, r=r * rng.uniform(0.3, 1, n), z=np.abs(z) + 1e-3))
        large = run("monotone", moved(args, c=cp, z=np.abs(z) + 1e-3))
        q2 = 4 * c14.tol(20, ydeg, udeg, r) * c14.scale([cp, u], udeg)
        mon.all("monotone", large <= small + q2, large=large, small=small, **w)
        mon.fact("degree_pairs")


@JOBS(shards=(2, 4))
def uniform(mon, rng, ctx):
    """Uniform maps against the limb darkened light curve."""
    import jax

    for udeg in ctx.mine([0, 1, 2, 3, 4]):
        n = ctx.n(300, 3000)
        args = c14.draw(rng, n, 0, udeg)
        args[0][:] = 1.0
        c, u, inc, obl, th, r, x, y, z, amp = args
        amp = args[9] = 10 ** rng.uniform(-2, 2, n)
        b = np.hypot(x, y)
        order = 20
        got = np.asarray(mon.call("uniform-occulted",
                                  jax.jit(jax.vmap(c14.kernel(0, udeg, order))), *args))
        ld = jax.jit(jax.vmap(lambda u, b, r: api.ld_light_curve(u, b, r, order=order)))
        lc = np.asarray(ld(u, b, r))
        want = amp * (1 + np.where(z > 0, lc, 0.0))
        S = ldref.scale(u) if udeg else np.ones(n)
        w = dict(u=u, r=r, x=x, y=y, z=z, amplitude=amp)
        mon.close("uniform-occulted", got, want, atol=amp * S * 1e-12, **w)
        mon.cases_from(u if udeg else x, r, x, y, z)
        # the same uniform map written at a higher degree
        ydeg = int(rng.integers(1, 3))
        a2 = list(args)
        a2[0] = np.zeros((n, (ydeg + 1) ** 2))
        a2[0][:, 0] = 1.0
        emb = np.asarray(mon.call("uniform-embedded",
                                  jax.jit(jax.vmap(c14.kernel(ydeg, udeg, order))), *a2))
        # limb darkening at the quadrature order 20 of both
        mon.close("uniform-embedded", emb, want,
                  atol=amp * S * (c14.tol(20, ydeg, udeg, r) + 1e-6), ydeg=ydeg, **w)


@JOBS(shards=(6, 6))
def objects(mon, rng, ctx):
    """The same flux through differently built surfaces."""
    import jax
    import jax.numpy as jnp

    lc = jax.jit(api.surface_light_curve)
    for it in ctx.mine(range(ctx.n(6, 40))):
        ydeg, udeg = [(2, 1), (3, 0), (0, 2), (1, 1), (0, 0), (4, 2)][it % 6]
        c = rng.normal(size=(ydeg + 1) ** 2)
        c[0] = float(rng.choice([0.3, 5.0, 1.0]))
        u = [float(v) for v in ldref.profile(rng, udeg)]
        inc, obl, th = rng.uniform(0, 3), rng.uniform(-3, 3), rng.uniform(-3, 3)
        pos = [(0.3, 0.4, 0.2, 1.0), (1.5, 0.2, -0.9, 1.0), (0.2, 0.1, 0.1, -1.0), None]
        raw = api.Surface(y=api.Ylm.from_dense(jnp.asarray(c), normalize=False), inc=inc, obl=obl,
                          u=u, normalize=False)
        normed = api.Surface(y=api.Ylm.from_dense(jnp.asarray(c), normalize=False), inc=inc,
                             obl=obl, u=u)
        keys = [(l, m) for l in range(ydeg + 1) for m in range(-l, l + 1)]
        order = rng.permutation(len(keys))
        mixed = api.Surface(y=api.Ylm({keys[i]: float(c[i]) for i in order}), inc=inc, obl=obl,
                            u=tuple(u), normalize=False)
        padded = api.Surface(
            y=api.Ylm.from_dense(jnp.asarray(np.concatenate([c, np.zeros(2 * ydeg + 3)])),
                                 normalize=False), inc=inc, obl=obl, u=u, normalize=False)
        mon.check("surface-api", raw.ydeg == ydeg and raw.udeg == udeg and raw.deg == ydeg + udeg
                  and padded.ydeg == ydeg + 1, f"{raw.ydeg} {raw.udeg} {raw.deg}")
        mon.close("surface-api", np.asarray(normed.amplitude), np.asarray(c[0]), atol=1e-14)
        mon.close("surface-api", np.asarray(normed.y.todense()), c / c[0], atol=1e-13)
        S = c14.scale([c[None], np.array(u)[None]], udeg)[0]
        for p in pos:
            kw = dict(theta=th) if p is None else dict(r=p[0], x=p[1], y=p[2], z=p[3], theta=th)
            ref = np.asarray(mon.call("normalized", lc, raw, **kw))
            for rule, s, t in (("normalized", normed, 1e-12), ("sparse-map", mixed, 1e-12),
                               ("beyond-degree", padded, c14.tol(20, ydeg + 1, udeg, 1.0) + 1e-6 * (ydeg == 0))):
                got = np.asarray(mon.call(rule, lc, s, **kw))
                mon.close(rule, got, ref, atol=S * t, c=c, occultor=p, u=u, inc=inc, obl=obl)
            mon.case("object", it, p)
