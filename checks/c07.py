"""C07: the limb darkened flux is differentiable, with the right derivatives, everywhere."""

import numpy as np

from lib import api, ldref
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one geometry (b, r) with one limb darkening profile of degree 0..8; strata as "
    "for C06 (planets, equal and larger occultors, contacts, concentric). Non-trivial: partial "
    "overlap. Oracle: closed form of the derivative as an integral along the occultor's limb, "
    "in 80-bit arithmetic; exact linear dependence on the coefficients for theirs."
)
ASSUMPTIONS = ["x87 80-bit long double arithmetic for the reference integrals"]
REQUIRED = [
    "d-separation", "d-radius", "d-coefficients", "finite", "flat-outside", "forward-mode",
    "finite-difference", "special-points", "single-precision", "through-orbit",
]


def grads(order):
    import jax

    def f(b, r, u):
        return api.ld_light_curve(u, b, r, order=order)

    return jax.jit(jax.vmap(jax.grad(f, argnums=(0, 1, 2)), in_axes=(0, 0, None)))


def ref_du(u, b, r):
    """d flux / d u_k, using that flux = - N(u) / T(u) with N and T linear in u."""
    N = ldref.blocked(u, b, r) * ldref.total(u)
    T = ldref.total(u)
    zero = np.zeros(u.size)
    N0, T0 = ldref.blocked(zero, b, r), 1.0
    out = []
    for k in range(u.size):
        e = zero.copy()
        e[k] = 1.0
        Tk = ldref.total(e) - T0
        Nk = ldref.blocked(e, b, r) * ldref.total(e) - N0
        out.append(-(Nk * T - N * Tk) / T**2)
    return np.stack(out, -1) if out else np.zeros((b.size, 0))


def values(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    degs = [2, 0, 1, 3, 4, 2, 6, 8]
    for it in range(ctx.n(3, 24)):
        deg = degs[(it * ctx.nshards + ctx.shard) % len(degs)]
        u = ldref.profile(rng, deg)
        n = ctx.n(1200, 4000)
        b, r, k = ldref.geometries(rng, n, rmax=30)
        mon.cases_from(b, r, np.full(n, deg), nontrivial=(b < 1 + r) & (b > np.abs(1 - r)))
        S = np.maximum(1.0, ldref.scale(u) / 4)
        wit = dict(b=b, r=r, u=u, stratum=k)
        near = np.minimum(np.abs(b - np.abs(1 - r)), np.abs(b - (1 + r)))
        # away from contacts, where the derivative has a square root singularity
        ok = (near > 1e-5 * np.minimum(1, r)) & (b > 1e-6) & (r >= 1e-3)
        db, dr = ldref.gradient(u, b, r)
        rr = np.minimum(1, r)
        for order, c in ((10, 6e-5), (100, 1e-8)):
            g = mon.call("d-separation", grads(order), jnp.asarray(b), jnp.asarray(r),
                         jnp.asarray(u))
            gb, gr, gu = (np.asarray(x) for x in g)
            # (1 - z^3) / (1 - z^2) loses digits for tiny bodies near the centre
            tol = S * rr * (c + 1e-12 / np.maximum(b + r, 1e-6) ** 2) + 1e-13 * S * np.maximum(1, r) ** 4 + S * rr * 1e-9 * (
                np.where(near < 1e-2 * rr, 1e-2 * rr / np.maximum(near, 1e-30), 0))
            w = {q: v[ok] if np.ndim(v) and q != "u" else v for q, v in wit.items()}
            mon.close("d-separation", gb[ok], -db[ok], atol=tol[ok], order=order, **w)
            mon.close("d-radius", gr[ok], -dr[ok], atol=tol[ok], order=order, **w)
            for x, name in ((gb, "b"), (gr, "r"), (gu, "u")):
                fin = np.isfinite(x) if x.ndim == 1 else np.isfinite(x).all(-1)
                mon.all("finite", fin, f"derivative by {name} not finite", order=order, **wit)
            flat = (b > (1 + r) * (1 + 1e-12)) | (b < (r - 1) * (1 - 1e-12))
            for x in (gb, gr):
                mon.close("flat-outside", x[flat], 0 * x[flat], atol=1e-13 * S,
                          b=b[flat], r=r[flat], u=u)
            if deg:
                m = 300
                want = ref_du(u, b[:m], r[:m])
                tolu = (S * rr * (4e-6 if order == 10 else 1e-9) + 1e-13 * S * np.maximum(
                    1, r) ** 4)[:m, None] * np.maximum(1, 2.0 ** np.arange(1, deg + 1) / 4)
                tolu = tolu / abs(ldref.total(u)) + (near[:m, None] < 1e-8) * 1e-7 * S
                mon.close("d-coefficients", gu[:m], want, atol=tolu, order=order,
                          b=b[:m], r=r[:m])
        mon.sample(u=u, b=float(b[0]), r=float(r[0]), db=float(gb[0]), want=float(-db[0]))
        # forward mode along a random direction agrees with reverse mode
        near_ok = np.nonzero(ok)[0][:200]
        vb, vr = rng.normal(size=(2, near_ok.size))
        vu = rng.normal(size=u.size)

        def fwd(b, r, vb, vr, u=u, vu=vu):
            return jax.jvp(lambda b, r, u: api.ld_light_curve(u, b, r, order=100), (b, r, u),
                           (vb, vr, vu))[1]

        out = np.asarray(mon.call("forward-mode", jax.vmap(fwd), b[near_ok], r[near_ok], vb, vr))
        x, y, z = gb[near_ok], gr[near_ok], gu[near_ok]
        size = np.abs(x * vb) + np.abs(y * vr) + np.abs(z) @ np.abs(vu)
        tol = 1e-12 * S + 1e-7 * size + (tol / rr)[near_ok] * 0.1
        mon.close("forward-mode", out, x * vb + y * vr + z @ vu, atol=tol, b=b[near_ok],
                  r=r[near_ok], u=u)
        # central differences of the reported flux itself
        pick = np.nonzero(ok & (near > 1e-2 * rr) & (b > 1e-2 * rr) & (r > 3e-3) & (r < 5))[0][:200]
        h = 1e-5 * rr[pick]
        f = lambda b, r: np.asarray(api.ld_light_curve(u, b, r, order=100))  # noqa: B023, E731
        B, R = b[pick], r[pick]
        mon.close("finite-difference", gb[pick], (f(B + h, R) - f(B - h, R)) / (2 * h),
                  atol=S * rr[pick] * 1e-5, b=B, r=R, u=u)
        mon.close("finite-difference", gr[pick], (f(B, R + h) - f(B, R - h)) / (2 * h),
                  atol=S * rr[pick] * 1e-5, b=B, r=R, u=u)
        bs, rs = np.array(ldref.SPECIAL, float).T
        g = mon.call("special-points", grads(10), jnp.asarray(bs), jnp.asarray(rs),
                     jnp.asarray(u))
        mon.all("special-points", np.all([np.isfinite(x).all(-1) if x.ndim > 1 else
                                          np.isfinite(x) for x in map(np.asarray, g)], axis=0),
                "derivative not finite", b=bs, r=rs, u=u)


def orbits(mon, rng, ctx):
    """Exactly central transits and quadratures of the built-in orbits stay finite."""
    import jax
    import jax.numpy as jnp

    for it in range(ctx.n(6, 40)):
        P, dur = float(rng.uniform(1, 20)), float(rng.uniform(0.05, 0.3))
        t0, ror = float(rng.choice([0.0, 1.0, -2.5])), float(rng.choice([0.0, 0.1, 1.0]))
        u = ldref.profile(rng, int(rng.integers(0, 4)))
        mon.case("orbit", P, dur, t0, ror)

        def f(par, t, t0=t0, u=u):
            P, dur, ror, b, u_ = par
            o = api.TransitOrbit(period=P, duration=dur, radius_ratio=ror, time_transit=t0,
                                 impact_param=b)
            return api.limb_dark_light_curve(o, *u_)(t)

        def k(par, t, t0=t0, u=u):
            P, dur, ror, b, u_ = par
            s = api.System().add_body(period=P, radius=ror, impact_param=b, time_transit=t0)
            return api.limb_dark_light_curve(s, *u_)(t).sum()

        for fn in (f, k):
            for t in (t0, t0 + P, t0 + P / 2, t0 + dur / 2, t0 + P / 4, t0 + 0.3 * dur):
                g = mon.call("through-orbit", jax.grad(fn, argnums=(0, 1)),
                             (P, dur, ror, 0.0, [jnp.asarray(x) for x in u]), t)
                flat = np.array([float(x) for x in jax.tree_util.tree_leaves(g)])
                mon.check("through-orbit", np.isfinite(flat).all(), "derivative not finite",
                          P=P, dur=dur, ror=ror, t=t, t0=t0, u=u, grad=flat)


def single(mon, rng, ctx):
    import jax.numpy as jnp

    for it in range(ctx.n(3, 20)):
        deg = [2, 0, 4, 1][it % 4]
        u = ldref.profile(rng, deg).astype(np.float32)
        b, r, _ = ldref.geometries(rng, ctx.n(1200, 4000), np.float32, rmax=30)
        mon.cases_from(b, r, np.full(b.size, deg), nontrivial=b < 1 + r)
        g = mon.call("finite", grads(10), jnp.asarray(b), jnp.asarray(r), jnp.asarray(u))
        gb, gr, gu = (np.asarray(x) for x in g)
        fin = np.isfinite(gb) & np.isfinite(gr) & np.isfinite(gu).all(-1)
        mon.all("finite", fin, "derivative not finite", b=b, r=r, u=u)
        near = np.minimum(np.abs(b - np.abs(1 - r)), np.abs(b - (1 + r)))
        ok = (r > 5e-3) & (r < 0.5) & (near > 3e-2 * r) & (b > 0.05)
        db, dr = ldref.gradient(u.astype(float), b[ok].astype(float), r[ok].astype(float))
        S = np.maximum(1.0, ldref.scale(u) / 4)
        mon.close("single-precision", gb[ok], -db, atol=3e-3 * S * r[ok], b=b[ok], r=r[ok], u=u)
        mon.close("single-precision", gr[ok], -dr, atol=3e-3 * S * r[ok], b=b[ok], r=r[ok], u=u)
        bs, rs = np.array(ldref.SPECIAL, np.float32).T
        g = mon.call("special-points", grads(10), jnp.asarray(bs), jnp.asarray(rs),
                     jnp.asarray(u))
        for x in map(np.asarray, g):
            mon.all("special-points", np.isfinite(x).reshape(len(bs), -1).all(-1),
                    "derivative not finite", b=bs, r=rs, u=u)


JOBS(shards=(5, 8))(values)
JOBS(shards=(1, 2), both=True)(orbits)
JOBS(x64=False, shards=(1, 2))(single)
