"""C14: the surface light curve is the projected intensity integrated over the visible disc."""

import numpy as np

from lib import api, ldref, st, whole
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one (map coefficients, limb darkening, inclination, obliquity, phase, occultor "
    "radius and position) tuple; geometries are stratified over no overlap, grazing, partial, "
    "annular, complete, concentric, equal and larger discs, exact contacts and points within "
    "rounding of them, in front of and behind the surface. Non-trivial: the map is not uniform "
    "or the occultor covers some of the disc. Oracle: spherical harmonics synthesised at the "
    "nodes of a ring quadrature of the visible disc."
)
ASSUMPTIONS = []
REQUIRED = [
    "flux-partial", "flux-annular", "flux-no-overlap", "flux-covered", "flux-inside", "behind",
    "unocculted", "none-orientation", "higher-precision", "defaults", "scalar-call", "special",
    "positive-map",
    "whole-numbers",
]


def kernel(ydeg, udeg, order=20, hp=False, occ=True):
    def f(c, u, inc, obl, th, r, x, y, z, amp):
        s = api.Surface(y=api.Ylm.from_dense(c, normalize=False), inc=inc, obl=obl,
                        u=[u[i] for i in range(udeg)], normalize=False, amplitude=amp)
        if not occ:
            return api.surface_light_curve(s, theta=th)
        return api.surface_light_curve(s, r, x, y, z, th, order=order, higher_precision=hp)

    return f


def draw(rng, n, ydeg, udeg, rmax=30.0):
    b, r, _ = ldref.geometries(rng, n, rmax=rmax)
    r = np.maximum(r, 1e-4)
    a = rng.uniform(-np.pi, np.pi, n)
    a = np.where(rng.random(n) < 0.15, rng.integers(-2, 3, n) * np.pi / 2, a)
    x, y = b * np.cos(a), b * np.sin(a)
    c = rng.normal(size=(n, (ydeg + 1) ** 2))
    c *= np.where(rng.random((n, 1)) < 0.2, rng.random(c.shape) < 0.3, 1)
    c[:, 0] = np.where(rng.random(n) < 0.9, 1.0, c[:, 0])
    u = np.stack([ldref.profile(rng, udeg) for _ in range(n)]) if udeg else np.zeros((n, 0))
    inc = np.where(rng.random(n) < 0.2, rng.choice([0, np.pi / 2, np.pi], n),
                   rng.uniform(0, np.pi, n))
    obl = np.where(rng.random(n) < 0.2, rng.choice([0.0, np.pi / 2, np.pi], n),
                   rng.uniform(-7, 7, n))
    th = np.where(rng.random(n) < 0.1, 0.0, rng.uniform(-9, 9, n))
    z = 10 ** rng.uniform(-3, 3, n)
    z = np.where(rng.random(n) < 0.08, -z, z)
    z = np.where(rng.random(n) < 0.02, 0.0, z)
    return [c, u, inc, obl, th, r, x, y, z, np.ones(n)]


def reference(args, udeg, occ=True):
    c, u, inc, obl, th, r, x, y, z, amp = args
    return amp * np.array([
        st.flux(c[i], u[i, :udeg], inc[i], obl[i], th[i], r[i] if occ else None, x[i], y[i], z[i])
        for i in range(len(r))])


def scale(args, udeg):
    """Sum of the magnitudes of the terms that are added."""
    c, u = args[0], args[1]
    s = np.abs(c).sum(1)
    if udeg:
        s = s * (1 + np.abs(u).sum(1)) / np.array([st.limb_total(v) for v in u])
    return s


def tol(order, ydeg, udeg, r):
    """Relative to the sum of the terms; order 20 quadrature of the highest terms."""
    base = {20: 3e-8, 100: 1e-10, 200: 1e-10}[order]
    d = ydeg + udeg
    return base * (1 + d) ** 2 * np.maximum(1.0, (r / 3) ** 0.5)


def judge(mon, got, args, udeg, ydeg, order, prefix="flux"):
    c, u, inc, obl, th, r, x, y, z, amp = args
    want = reference(args, udeg)
    b = np.hypot(x, y)
    t = scale(args, udeg) * tol(order, ydeg, udeg, r)
    # cos and sin of the position angle give back b only to rounding
    edge = 4e-16 * (1 + b + r)
    front = z > 0
    kind = np.select(
        [~front, b >= 1 + r, b <= r - 1, b <= 1 - r, b <= r],
        ["behind", "no-overlap", "covered", "annular", "inside"], "partial")
    for k in np.unique(kind):
        m = kind == k
        name = "behind" if k == "behind" else f"{prefix}-{k}"
        mon.close(name, got[m], want[m], atol=t[m] + edge[m], c=c[m], u=u[m], inc=inc[m],
                  obl=obl[m], theta=th[m], r=r[m], b=b[m], x=x[m], y=y[m], z=z[m],
                  mech=f"{name} ydeg={min(ydeg, 1)} udeg={min(udeg, 1)}")
        mon.fact(f"geometry_{k}", m.sum())
    mon.cases_from(c[:, :4], inc, obl, th, r, x, y, z,
                   nontrivial=(np.abs(c[:, 1:]).sum(1) > 0) | (b < 1 + r))
    return want


@JOBS(shards=(4, 8))
def flux(mon, rng, ctx):
    import jax

    combos = [(y, u) for y in (0, 1, 2, 3, 5) for u in (0, 2)] + [(1, 1), (4, 3), (2, 1), (6, 0)]
    if ctx.thorough:
        combos = [(y, u) for y in range(9) for u in range(4)] + [(10, 0), (12, 2), (4, 5)]
    for ydeg, udeg in ctx.mine(sorted(combos, key=lambda q: (q[0] + q[1], q))):
        for order in ctx.n((20,), (20, 100)):
            args = draw(rng, ctx.n(150, 1500), ydeg, udeg)
            f = jax.jit(jax.vmap(kernel(ydeg, udeg, order)))
            got = np.asarray(mon.call("flux-partial", f, *args, what=f"degree {ydeg}, {udeg}"))
            judge(mon, got, args, udeg, ydeg, order)
            mon.fact("degree_pairs")
        # no occultor
        f = jax.jit(jax.vmap(kernel(ydeg, udeg, occ=False)))
        got = np.asarray(mon.call("unocculted", f, *args))
        mon.close("unocculted", got, reference(args, udeg, occ=False),
                  atol=1e-11 * scale(args, udeg) * (1 + ydeg), ydeg=ydeg, udeg=udeg)


@JOBS(shards=(3, 4))
def forms(mon, rng, ctx):
    """None orientations, missing occultor coordinates, eager scalars, high precision matrices."""
    import jax

    for it in ctx.mine(range(ctx.n(6, 40))):
        ydeg, udeg = [(2, 1), (3, 0), (1, 2), (0, 1), (0, 0), (4, 0)][it % 6]
        args = draw(rng, 6, ydeg, udeg, rmax=3)
        c, u, inc, obl, th, r, x, y, z, amp = args
        for k in range(4 if ydeg else 1):
            ni, no = [(None, None), (None, obl[k]), (inc[k], None), (inc[k], obl[k])][k]
            kw = {} if it % 2 and ni is not None else {"inc": ni}
            s = api.Surface(y=api.Ylm.from_dense(c[k], normalize=False), obl=no,
                            u=list(u[k]), normalize=False, **kw)
            if "inc" not in kw:
                ni = np.pi / 2  # the documented default
            tt = None if k == 1 else float(th[k])
            got = mon.call("none-orientation", api.surface_light_curve, s, float(r[k]),
                           float(x[k]), float(y[k]), 1.0, tt)
            want = st.flux(c[k], u[k], ni, no, tt, r[k], x[k], y[k], 1.0)
            t = scale([c[k:k + 1], u[k:k + 1]], udeg)[0] * tol(20, ydeg, udeg, r[k])
            mon.close("none-orientation", np.asarray(got), np.asarray(want), atol=t,
                      inc=ni, obl=no, theta=tt, r=r[k], x=x[k], y=y[k], c=c[k])
            mon.check("scalar-call", np.shape(got) == (), f"shape {np.shape(got)}")
            got = mon.call("unocculted", api.surface_light_curve, s, theta=tt)
            mon.close("unocculted", np.asarray(got),
                      np.asarray(st.flux(c[k], u[k], ni, no, tt)), atol=1e-11 * (1 + ydeg) * t / tol(20, ydeg, udeg, r[k]))
            mon.case("form", it, k)
        # coordinates left out are zero
        s = api.Surface(y=api.Ylm.from_dense(c[4], normalize=False), inc=inc[4], obl=obl[4],
                        u=list(u[4]), normalize=False)
        full = st.flux(c[4], u[4], inc[4], obl[4], 0.0)
        t = scale([c[4:5], u[4:5]], udeg)[0] * 1e-6
        for kw, xx, yy, zz in [({"x": .3, "z": 1.0}, .3, 0, 1.), ({"y": .6, "z": 2.0}, 0, .6, 2.),
                               ({"x": .2, "y": .3}, .2, .3, 0.)]:
            got = mon.call("defaults", api.surface_light_curve, s, r=0.3, theta=0.0, **kw)
            want = st.flux(c[4], u[4], inc[4], obl[4], 0.0, 0.3, xx, yy, zz) if zz else full
            mon.close("defaults", np.asarray(got), np.asarray(want), atol=t, given=kw, c=c[4])
    ones = api.Surface()
    mon.close("defaults", np.asarray(api.surface_light_curve(ones)), np.asarray(1.0), atol=1e-13)
    for it in ctx.mine(range(ctx.n(3, 12))):
        ydeg, udeg = [(2, 1), (3, 0), (1, 2)][it % 3]
        args = draw(rng, ctx.n(25, 80), ydeg, udeg, rmax=5)
        f = jax.jit(jax.vmap(kernel(ydeg, udeg, 100, hp=True)))
        got = np.asarray(mon.call("higher-precision", f, *args))
        mon.close("higher-precision", got, reference(args, udeg),
                  atol=scale(args, udeg) * tol(100, ydeg, udeg, args[5]) + 1e-15)


@JOBS(shards=(2, 4))
def special(mon, rng, ctx):
    """Exact special positions, and maps that are positive everywhere."""
    import jax

    spec = [(b, r) for b, r in ldref.SPECIAL if 1e-4 <= r <= 60 and b <= 60]
    for ydeg, udeg in ctx.mine([(2, 2), (4, 0), (1, 0), (3, 1)]):
        n = len(spec)
        args = draw(rng, n * ctx.n(3, 12), ydeg, udeg)
        k = len(args[0]) // n
        b, r = np.tile(np.array(spec, float).T, k)
        d = np.tile([0, 1, 2, 3], len(b))[: len(b)]
        args[5], args[6], args[7] = (r, b * np.array([1, 0, -1, 0])[d],
                                     b * np.array([0, 1, 0, -1])[d])
        args[8] = np.abs(args[8]) + 1e-3
        f = jax.jit(jax.vmap(kernel(ydeg, udeg, 100)))
        got = np.asarray(mon.call("special", f, *args))
        want = reference(args, udeg)
        mon.close("special", got, want,
                  atol=scale(args, udeg) * tol(100, ydeg, udeg, r) + 1e-15, r=r, b=b,
                  x=args[6], y=args[7], c=args[0])
        mon.cases_from(args[0][:, :4], r, args[6], args[7])
        # squares of maps would need products: shrink the non-uniform part instead
        args = draw(rng, ctx.n(120, 600), ydeg, udeg)
        c = args[0]
        c[:, 0] = 1.0
        c[:, 1:] *= (0.45 / np.maximum(1e-9, np.sqrt(2) * (np.abs(c[:, 1:]) * np.sqrt(
            2 * np.floor(np.sqrt(np.arange(1, c.shape[1]))) + 1)).sum(1)))[:, None]
        args[8] = np.abs(args[8]) + 1e-3
        got = np.asarray(f(*args))
        full = np.asarray(jax.jit(jax.vmap(kernel(ydeg, udeg, occ=False)))(*args))
        slack = 20 * tol(100, ydeg, udeg, args[5])
        mon.all("positive-map", (got >= -slack) & (got <= full + slack), got=got, full=full,
                r=args[5], x=args[6], y=args[7])


JOBS(shards=(1, 1))(whole.job(whole.fluxes))
