"""C06: the limb darkened flux is one minus the light the occultor hides."""

import numpy as np

from lib import api, ldref
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one geometry (b, r) with one limb darkening profile of degree 0..10; strata "
    "cover planets, equal and larger occultors, grazing, internal and external contacts down "
    "to one ulp, concentric and distant discs. Non-trivial: the discs overlap partially. "
    "Oracle: double exponential quadrature over rings of the star in 80-bit arithmetic."
)
ASSUMPTIONS = ["x87 80-bit long double arithmetic for the reference integral"]
REQUIRED = [
    "default-order", "small-planets", "converged", "uniform", "unocculted", "covered",
    "bounds", "special-points", "broadcasting", "separation-sign", "single-precision", "number-types",
]


def near_contact(b, r):
    return np.minimum(np.abs(b - np.abs(1 - r)), np.abs(b - (1 + r)))


def rounding(S, r, eps=2.2e-16):
    """Rounding of the closed form terms: those of even order grow like r^4."""
    return S * (500 * eps * np.maximum(1, r) + 2 * eps * r**4)


def values(mon, rng, ctx):
    degs = [0, 1, 2, 2, 3, 4, 5, 6, 8, 10]
    for it in range(ctx.n(8, 60)):
        deg = degs[(it * ctx.nshards + ctx.shard) % len(degs)]
        u = ldref.profile(rng, deg)
        n = ctx.n(1500, 4000)
        b, r, k = ldref.geometries(rng, n)
        mon.cases_from(b, r, np.full(n, deg), nontrivial=(b < 1 + r) & (b > np.abs(1 - r)))
        want = -ldref.blocked(u, b, r)
        S = np.maximum(1.0, ldref.scale(u) / 4)
        rr = np.minimum(1.0, r)
        wit = dict(b=b, r=r, u=u, stratum=k)
        got = np.asarray(mon.call("default-order", api.ld_light_curve, u, b, r))
        mon.check("default-order", got.dtype == np.float64, f"dtype {got.dtype}")
        base = rounding(S, r)
        tol = base + 2e-6 * S * rr
        mon.close("default-order", got, want, atol=tol, order="default", **wit)
        small = r < 0.2
        mon.close("small-planets", got[small], want[small], atol=(tol - 1.3e-6 * S * rr)[small],
                  b=b[small], r=r[small], u=u)
        for order in (30, 100, 200)[: ctx.n(2, 3)]:
            conv = np.asarray(mon.call("converged", api.ld_light_curve, u, b, r, order=order))
            tol = base + (2e-8 if order < 100 else 2e-11) * S * rr
            mon.close("converged", conv, want, atol=tol, order=order, **wit)
        if deg == 0:
            mon.close("uniform", got, want, atol=1e-13 * np.maximum(1, r), **wit)
        out, cov = b >= 1 + r, 1 + b <= r
        mon.close("unocculted", got[out], 0 * got[out], atol=1e-13 * S, b=b[out], r=r[out], u=u)
        mon.close("covered", got[cov], 0 * got[cov] - 1, atol=1e-13 * S, b=b[cov], r=r[cov],
                  u=u)
        mon.all("bounds", (got <= 2e-6 * S) & (got >= -1 - 2e-6 * S), "flux out of bounds",
                got=got, **wit)
        mon.fact("partial", int(((b < 1 + r) & (b > np.abs(1 - r))).sum()))
        mon.fact("inside", int((b <= 1 - r).sum()))
        mon.fact("covered", int(cov.sum()))
        mon.fact("contacts-within-1e-9", int((near_contact(b, r) < 1e-9).sum()))
        neg = np.asarray(mon.call("separation-sign", api.ld_light_curve, u, -b[:64], r[:64]))
        mon.close("separation-sign", neg, got[:64], atol=1e-13 * S, b=b[:64], r=r[:64])
        mon.sample(u=u, b=float(b[0]), r=float(r[0]), flux=float(got[0]), want=float(want[0]))
        # several separations against several radii
        B, R = b[:5, None], r[None, :4]
        g2 = np.asarray(mon.call("broadcasting", api.ld_light_curve, u, B, R))
        tol = 2e-6 * S * np.minimum(1, R) + rounding(S, R)
        mon.close("broadcasting", g2, -ldref.blocked(u, B, R), atol=tol, u=u)
        bs, rs = np.array(ldref.SPECIAL, float).T
        gs = np.asarray(mon.call("special-points", api.ld_light_curve, u, bs, rs))
        ws = -ldref.blocked(u, bs, rs)
        mon.close("special-points", gs, ws, atol=2e-6 * S * np.minimum(1, rs) + rounding(S, rs),
                  b=bs, r=rs, u=u)
        for j in rng.choice(len(bs), 3, replace=False):
            one = mon.call("special-points", api.ld_light_curve, u, float(bs[j]), float(rs[j]))
            mon.close("special-points", np.asarray(one), ws[j],
                      atol=2e-6 * S * min(1, rs[j]) + rounding(S, rs[j]), b=bs[j], r=rs[j], u=u)


def types(mon, rng, ctx):
    """Whole numbers, lists and tuples are numbers like any other."""
    import jax.numpy as jnp

    b, r = (x.ravel() for x in np.meshgrid([0, 1, 2, 3, 40, -1], [0, 1, 2, 3, 60]))
    forms = {
        "python": lambda x: int(x), "numpy": lambda x: np.int64(x), "jax": lambda x: jnp.asarray(int(x)),
        "float": lambda x: float(x), "zero-dim": lambda x: np.asarray(int(x)),
    }
    for it in range(ctx.n(6, 40)):
        deg = it % 5
        u = rng.integers(-1, 2, deg) if it % 2 else np.round(ldref.profile(rng, deg), 3)
        if deg and abs(ldref.total(u)) < 0.2:
            u = np.zeros(deg, u.dtype)
        want = -ldref.blocked(u.astype(float), b.astype(float), r.astype(float)) if deg else \
            -ldref.blocked(np.zeros(1), b.astype(float), r.astype(float))
        S = np.maximum(1.0, ldref.scale(u.astype(float)) / 4) if deg else 1.0
        tol = 2e-6 * S * np.minimum(1, r) + rounding(S, r.astype(float))
        us = {"array": u, "list": u.tolist(), "tuple": tuple(u.tolist()), "jax": jnp.asarray(u)}
        for name, v in us.items():
            if deg == 0 and name != "array":
                continue
            got = np.asarray(mon.call("number-types", api.ld_light_curve, v, b, r))
            mon.check("number-types", got.dtype == np.float64, f"dtype {got.dtype}")
            mon.close("number-types", got, want, atol=tol, b=b, r=r, u=u, how=name)
            got = np.asarray(mon.call("number-types", api.ld_light_curve, v, b, r + 0.0))
            mon.close("number-types", got, want, atol=tol, b=b, r=r, u=u, how=name)
        for name, f in forms.items():
            j = int(rng.integers(b.size))
            got = mon.call("number-types", api.ld_light_curve, u, f(b[j]), f(r[j]))
            mon.close("number-types", np.asarray(got), want[j], atol=tol[j], b=b[j], r=r[j], u=u, how=name)
        mon.case("types", it, *u.tolist())


def single(mon, rng, ctx):
    for it in range(ctx.n(4, 30)):
        deg = [0, 1, 2, 3, 4][it % 5]
        u = ldref.profile(rng, deg).astype(np.float32)
        b, r, k = ldref.geometries(rng, ctx.n(1500, 4000), np.float32, rmax=2.0)
        ok = r < 0.5
        b, r = b[ok], r[ok]
        mon.cases_from(b, r, np.full(b.size, deg), nontrivial=b < 1 + r)
        want = -ldref.blocked(u.astype(float), b.astype(float), r.astype(float))
        got = np.asarray(mon.call("single-precision", api.ld_light_curve, u, b, r))
        S = np.maximum(1.0, ldref.scale(u) / 4)
        mon.close("single-precision", got, want, atol=8e-6 * S, b=b, r=r, u=u)


JOBS(shards=(6, 8))(values)
JOBS(shards=(1, 1))(types)
JOBS(x64=False, shards=(1, 4))(single)
