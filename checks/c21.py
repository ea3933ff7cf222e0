"""C21: the Doppler signal is the intensity-weighted velocity of the visible surface."""

import numpy as np

from lib import api, ldref, st, whole, systems as S
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one (map, limb darkening, orientation, phase, rotation period, radius, "
    "differential shear, occultor) or one (system, time). Geometries as in C14 without total "
    "occultations (the mean is undefined). Non-trivial: the surface rotates. Oracle: ring "
    "quadrature of intensity times line of sight velocity from the cross product of the spin "
    "axis with the position."
)
ASSUMPTIONS = ["unit amplitude", "visible flux above 1e-3 of that of a uniform disc, "
               "tolerance inversely proportional to it"]
REQUIRED = [
    "rv-unocculted", "rv-partial", "rv-annular", "rv-no-overlap", "rv-behind", "rv-inside",
    "shear", "none-orientation", "no-period", "rigid-uniform", "antisymmetry", "system-star",
    "system-body", "system-empty", "eager", "rv-image", "high-order", "period-scaling", "pole",
    "higher-precision", "low-order",
    "whole-numbers",
]


def kernel(ydeg, udeg, shear, order=20, occ=True, inc=True, hp=False):
    def f(c, u, inc_, obl, th, r, x, y, z, P, R, sh):
        s = api.Surface(y=api.Ylm.from_dense(c, normalize=False), inc=inc_ if inc else None, obl=obl,
                        u=[u[i] for i in range(udeg)], normalize=False, period=P, radius=R,
                        shear=sh if shear else None)
        if not occ:
            return api.surface_radial_velocity(s, theta=th)
        return api.surface_radial_velocity(s, r, x, y, z, th, order=order,
                                           higher_precision=hp)

    return f


def draw(rng, n, ydeg, udeg):
    b, r, _ = ldref.geometries(rng, n, rmax=5.0)
    r = np.maximum(r, 1e-4)
    a = rng.uniform(-np.pi, np.pi, n)
    a = np.where(rng.random(n) < 0.15, rng.integers(-2, 3, n) * np.pi / 2, a)
    c = rng.normal(size=(n, (ydeg + 1) ** 2)) * rng.uniform(0, 0.4, (n, 1))
    c[:, 0] = 1.0
    u = np.stack([np.abs(ldref.profile(rng, udeg)) / (1.5 * udeg) for _ in range(n)]) \
        if udeg else np.zeros((n, 0))
    inc = np.where(rng.random(n) < 0.2, rng.choice([0, np.pi / 2, np.pi], n), rng.uniform(0, np.pi, n))
    obl = np.where(rng.random(n) < 0.2, rng.choice([0.0, np.pi / 2, np.pi], n), rng.uniform(-7, 7, n))
    th = rng.uniform(-9, 9, n)
    z = 10 ** rng.uniform(-3, 3, n) * np.where(rng.random(n) < 0.08, -1, 1)
    P = 10 ** rng.uniform(-1, 2, n)
    R = 10 ** rng.uniform(-1, 1, n)
    sh = np.where(rng.random(n) < 0.15, 0.0, rng.uniform(-0.8, 0.8, n))
    return [c, u, inc, obl, th, r, b * np.cos(a), b * np.sin(a), z, P, R, sh]


def reference(args, shear, order=20, occ=True):
    c, u, inc, obl, th, r, x, y, z, P, R, sh = args
    n = len(r)
    v, F, tol = np.zeros(n), np.zeros(n), np.zeros(n)
    ydeg, udeg = int(np.sqrt(c.shape[1])) - 1, u.shape[1]
    d = ydeg + udeg + (3 if shear else 1)
    base = {20: 3e-8, 200: 1e-10}[order]
    for i in range(n):
        v[i], F[i], _ = S.doppler(c[i], u[i], inc[i], obl[i], th[i], P[i], R[i],
                                  sh[i] if shear else None, r[i] if occ else None, x[i], y[i], z[i])
        sc = np.abs(c[i]).sum() * (1 + np.abs(u[i]).sum()) / st.limb_total(u[i])
        veq = 2 * np.pi * R[i] / P[i] * (1 + (abs(sh[i]) if shear else 0))
        tol[i] = 4 * veq * sc * base * (1 + d) ** 2 * (r[i] / 3 + 1) ** 0.5 / max(abs(F[i]), 1e-300)
    return v, F, tol


@JOBS(shards=(6, 8))
def surfaces(mon, rng, ctx):
    import jax

    combos = [(0, 0, 0), (1, 0, 0), (2, 2, 0), (3, 1, 0), (0, 2, 1), (2, 0, 1), (1, 1, 1), (4, 0, 0),
              (0, 2, 0), (3, 0, 1), (0, 0, 1), (2, 1, 1)]
    if ctx.thorough:
        combos = [(y, u, k) for y in range(7) for u in range(4) for k in (0, 1)]
    for ydeg, udeg, shear in ctx.mine(combos):
        n = ctx.n(150, 1200)
        args = draw(rng, n, ydeg, udeg)
        c, u, inc, obl, th, r, x, y, z, P, R, sh = args
        got = np.asarray(mon.call("rv-partial", jax.jit(jax.vmap(kernel(ydeg, udeg, shear))), *args,
                                  what=f"degrees {ydeg}, {udeg}, shear {shear}"))
        want, F, tol = reference(args, shear)
        b = np.hypot(x, y)
        ok = np.abs(F) > 1e-3
        # cos and sin of the position angle give back b only to rounding
        veq = 2 * np.pi * R / P
        tol = tol + 1e-15 * veq * (1 + b + r) / np.maximum(np.abs(F), 1e-300)
        kind = np.select([z <= 0, b >= 1 + r, b <= 1 - r, b <= r], ["behind", "no-overlap", "annular",
                                                                    "inside"], "partial")
        w = dict(c=c, u=u, inc=inc, obl=obl, theta=th, r=r, x=x, y=y, z=z, period=P, radius=R, shear=sh)
        for k in np.unique(kind):
            m = ok & (kind == k)
            if m.any():
                mon.close("rv-" + k, got[m], want[m], atol=tol[m], mech=f"rv-{k} shear={shear}",
                          **{q: v[m] for q, v in w.items()})
                if shear:
                    mon.close("shear", got[m], want[m], atol=tol[m], mech="shear")
        mon.cases_from(c[:, :4], inc, obl, th, r, x, y, z, P, R, sh, nontrivial=ok)
        free = np.asarray(mon.call("rv-unocculted", jax.jit(jax.vmap(kernel(ydeg, udeg, shear, occ=False))),
                                   *args))
        want, F, tol = reference(args, shear, occ=False)
        ok = np.abs(F) > 1e-2
        mon.close("rv-unocculted", free[ok], want[ok], atol=(1e-3 * tol)[ok] + 1e-11 * veq[ok] / np.abs(F[ok]),
                  degrees=f"{ydeg} {udeg} {shear}")
        if ydeg == 0:
            # rigid or zonal rotation of an axisymmetric disc averages out
            mon.close("rigid-uniform", free, np.zeros(n), atol=1e-11 * veq * (1 + np.abs(sh)))
        if (ydeg, udeg) in ((2, 0), (1, 1)) or ctx.thorough:
            g = jax.jit(jax.vmap(kernel(ydeg, udeg, shear)))
            a2 = list(args)
            a2[9], a2[10] = P * 3, R * 1.5
            mon.close("period-scaling", np.asarray(g(*a2)), got / 2, rtol=1e-9, atol=1e-9 * veq)
            # mirrored in the plane of the spin axis and line of sight: the opposite velocity
            if ydeg == 0:
                continue
        if ctx.thorough and ydeg < 4:
            g = jax.jit(jax.vmap(kernel(ydeg, udeg, shear, order=200)))
            fine = np.asarray(g(*args))
            want, F, tol = reference(args, shear, order=200)
            ok = np.abs(F) > 1e-3
            mon.close("high-order", fine[ok], want[ok], atol=(tol + 1e-13 * veq)[ok], degrees=f"{ydeg} {udeg}")


@JOBS(shards=(3, 4))
def special(mon, rng, ctx):
    import jax

    for part in ctx.mine(["sym", "none", "image"] * ctx.n(1, 4)):
        n = ctx.n(60, 400)
        if part == "sym":
            # a uniform star: the occultor on the other side of the spin axis gives the opposite
            args = draw(rng, n, 0, 2)
            args[3] = np.zeros(n)
            f = jax.jit(jax.vmap(kernel(0, 2, 0)))
            g = np.asarray(f(*args))
            args2 = list(args)
            args2[6] = -args[6]
            m = np.asarray(mon.call("antisymmetry", f, *args2))
            veq = 2 * np.pi * args[10] / args[9]
            want, F, tol = reference(args, 0)
            ok = np.abs(F) > 1e-3
            mon.close("antisymmetry", m[ok], -g[ok], atol=tol[ok])
            # a small planet in front of the receding (right) side: blue shift
            k = ok & (args[2] > 0.3) & (args[2] < np.pi - 0.3) & (args[8] > 0)
            k &= (args[6] > 0.1) & (np.hypot(args[6], args[7]) < 1) & (args[5] > 0.01) & (args[5] < 0.3)
            if k.any():
                mon.all("antisymmetry", g[k] < 0, "hiding the receding side must shift to the blue")
            args = draw(rng, n, 1, 1)
            g = np.asarray(jax.jit(jax.vmap(kernel(1, 1, 0, order=200)))(*args))
            want, F, tol = reference(args, 0, order=200)
            ok = np.abs(F) > 1e-3
            mon.close("high-order", g[ok], want[ok], atol=(tol + 1e-13 * 2 * np.pi * args[10] / args[9])[ok])
            for shear in (0, 1):
                args = draw(rng, ctx.n(25, 100), 2, 1)
                f = jax.jit(jax.vmap(kernel(2, 1, shear, order=200, hp=True)))
                g = np.asarray(mon.call("higher-precision", f, *args))
                want, F, tol = reference(args, shear, order=200)
                ok = np.abs(F) > 1e-3
                mon.close("higher-precision", g[ok], want[ok],
                          atol=(tol + 1e-13 * 2 * np.pi * args[10] / args[9])[ok], shear=shear)
        elif part == "none":
            args = draw(rng, n, 1, 1)
            for shear in (0, 1):
                p = list(args)
                got = np.asarray(mon.call("pole", jax.jit(jax.vmap(kernel(1, 1, shear, inc=False))), *p))
                p[2] = np.zeros(n)
                want, F, tol = reference(p, shear)
                ok = np.abs(F) > 1e-3
                mon.close("pole", got[ok], want[ok], atol=tol[ok])
            c, u, inc, obl, th, r, x, y, z, P, R, sh = (a[0] for a in args)
            r, x, y, z = 0.3, 0.4, -0.2, 1.0
            for i, o in ((None, None), (inc, None), (None, obl)):
                for shear in (None, float(sh)):
                    s = api.Surface(y=api.Ylm.from_dense(c, normalize=False), inc=i, obl=o, u=list(u),
                                    period=float(P), radius=float(R), shear=shear)
                    f = jax.jit(lambda r, x, y, z, th, s=s: api.surface_radial_velocity(s, r, x, y, z, th))
                    got = float(mon.call("none-orientation", f, r, x, y, z, th))
                    want = S.doppler(c, u, i or 0.0, o or 0.0, th, P, R, shear, r, x, y, z)[0]
                    mon.close("none-orientation", got, want, atol=1e-6 * 2 * np.pi * R / P)
                    s = api.Surface(y=api.Ylm.from_dense(c, normalize=False), inc=i, obl=o, u=list(u),
                                    shear=shear)
                    f = jax.jit(lambda r, x, y, z, th, s=s: api.surface_radial_velocity(s, r, x, y, z, th))
                    mon.close("no-period", float(mon.call("no-period", f, r, x, y, z, th)), 0.0, atol=1e-300)
            s = api.Surface(y=api.Ylm.from_dense(c), inc=inc, obl=obl, u=list(u), period=float(P))
            got = float(mon.call("eager", api.surface_radial_velocity, s, r, x, y, z, th))
            want = S.doppler(c, u, inc, obl, th, P, 1.0, None, r, x, y, z)[0]
            mon.close("eager", got, want, atol=1e-6 * 2 * np.pi / P)
            got = float(mon.call("eager", api.surface_radial_velocity, s))
            want = S.doppler(c, u, inc, obl, 0.0, P, 1.0)[0]
            mon.close("eager", got, want, atol=1e-6 * 2 * np.pi / P)
        else:
            # the velocity image is the intensity times the velocity
            for shear in (0, 1):
                c, u, inc, obl, th, _, _, _, _, P, R, sh = (a[:6] for a in draw(rng, 6, 2, 1))
                def image(c, u, inc, obl, th, P, R, sh, shear=shear):
                    return api.Surface(
                        y=api.Ylm.from_dense(c, normalize=False), inc=inc, obl=obl, u=[u[0]],
                        normalize=False, period=P, radius=R, shear=sh if shear else None,
                    ).render(theta=th, res=16, rv=True)

                got = np.asarray(mon.call("rv-image", jax.jit(jax.vmap(image)), c, u, inc, obl, th, P, R, sh))
                g = np.linspace(-1, 1, 16)
                X, Y = np.meshgrid(g, g)
                inside = X**2 + Y**2 < 1
                x, y, z = X[inside], Y[inside], np.sqrt(1 - X[inside] ** 2 - Y[inside] ** 2)
                for i in range(6):
                    Q = st.body_to_sky(inc[i], obl[i], th[i])
                    I = st.sky_intensity(c[i], u[i], Q, x, y, z)
                    q = np.tensordot(Q.T, np.stack([x, y, z]), 1)
                    om = 2 * np.pi * R[i] / P[i] * (1 - (sh[i] if shear else 0) * q[1] ** 2)
                    v = -om * (Q[0, 1] * y - Q[1, 1] * x)
                    mon.close("rv-image", got[i][inside], I * v, atol=1e-6 * 2 * np.pi * R[i] / P[i])


s = S.surf
STRUCTS = [
    (s(1, 1), [("ecc", s(1, 0)), ("plain", None)]),
    (s(2, 0, shear=True), [("eccinc", s(1, 1))]),
    (s(0, 2), [("inc", None), ("ecc", None), ("plain", None)]),
    (None, [("plain", s(2, 0, shear=True))]),
    (s(1, 0), []),
    (s(0, 1), [("ecc", s(1, 0, period=False)), ("ecc", s(1, 0, period=False))]),
    (s(1, 2, inc=None), [("plain", s(0, 1))]),
    (s(1, 0, period=False), [("plain", None)]),
    (s(1, 0), [("plain", None)] * 5),
    (s(1, 0), [("ecc", None), ("plain", s(1, 0)), ("inc", None), ("plain", None)]),
]


@JOBS(shards=(4, 8))
def systems(mon, rng, ctx):
    import jax

    for struct in ctx.mine(STRUCTS):
        n, nt, nb = ctx.n(10, 60), ctx.n(8, 24), len(struct[1])
        p = S.draw(rng, n, struct, rv=True)
        t = S.times(rng, p, nt)
        how = ["init", "add"][int(rng.integers(2))]
        f = jax.jit(jax.vmap(lambda p, t, how=how: api.radial_velocity(S.build(struct, p, how))(t)))
        got = np.asarray(mon.call("system-star", f, p, t, what=f"{struct}"))
        if not mon.check("system-star", got.shape == (n, nt, nb + 1), f"shape {got.shape}"):
            continue
        R = [[S.velocities(struct, p, i, x) for x in t[i]] for i in range(n)]
        want, tol, ok = (np.array([[a[k] for a in r] for r in R]) for k in range(3))
        tol = 10 * tol + 1e-8 * np.abs(want).max(axis=(0, 1))
        for k in range(nb + 1):
            if k and struct[1][k - 1][1] is None:
                mon.close("system-body", got[..., k], np.zeros((n, nt)), atol=1e-300)
                continue
            m = ok[..., k]
            mon.close("system-body" if k else "system-star", got[..., k][m], want[..., k][m],
                      atol=tol[..., k][m], mech=f"system {min(k, 1)} of {nb}", struct=str(struct), t=t[m])
            if k and not struct[1][k - 1][1]["period"]:
                mon.close("no-period", got[..., k][m], np.zeros(m.sum()), atol=1e-300)
        if struct is STRUCTS[0]:
            # so few nodes that their number shows in the result
            one = jax.tree_util.tree_map(lambda v: v[0], p)
            system = S.build(struct, one, how)
            low = np.asarray(mon.call("low-order", jax.jit(api.radial_velocity(system, order=4)), t[0]))
            rv = [jax.jit(lambda r, x, y, z, th, q=q: api.surface_radial_velocity(q, r, x, y, z, th, order=4))
                  for q in (system.central_surface, *system.body_surfaces) if q is not None]
            v0 = jax.jit(lambda th: api.surface_radial_velocity(system.central_surface, theta=th))
            for j in range(nt):
                w4 = np.zeros(nb + 1)
                for k, _, _, _, (_, _, th), occ in S.pairs(struct, p, 0, t[0, j]):
                    w4[k] += (1 - nb) * float(v0(th)) if occ is None else float(rv[k](*occ, th))
                w4[0] += float(np.sum(system.radial_velocity(t[0, j]).magnitude))
                m = ok[0, j]
                mon.close("low-order", low[j][m], w4[m], atol=1e-6 * (1 + np.abs(w4[m])), t=t[0, j])
        if nb == 0:
            mon._rule("system-empty")["events"] += n * nt
        mon.cases_from(p["M"].repeat(nt), t.ravel(), nontrivial=ok[..., 0].ravel())
        mon.fact("systems")


JOBS(shards=(1, 1))(whole.job(whole.dopplers))
