"""C01: Kepler's equation is solved to the accuracy the inputs permit, with derivatives."""

import numpy as np

from lib import api, ref, whole
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one (M, e) pair sampled from strata: uniform phases, near and exactly at "
    "multiples of pi, log-uniformly small |M|, many revolutions, e=0, tiny e, uniform e, "
    "e -> 1. Non-trivial: e > 0 and sin(M) != 0, so that the equation has to be solved. "
    "Oracle: bracketed Newton in 80-bit precision; tolerance 8 eps times the condition "
    "number of the exact solution."
)
ASSUMPTIONS = ["x87 80-bit long double arithmetic for the reference solution"]
REQUIRED = [
    "true-anomaly", "unit-circle", "odd-symmetry", "periodicity", "jvp-M", "jvp-e",
    "grad", "second-derivative", "batching", "exact-apsides",
    "whole-numbers",
]


def points(rng, n, dt):
    top = 1 - (1e-6 if dt == np.float64 else 1e-4)
    e = np.concatenate([
        rng.uniform(0, 1, n // 2),
        1 - 10 ** rng.uniform(-6, 0, n // 4),
        10 ** rng.uniform(-12, 0, n - n // 2 - n // 4),
    ])
    e = np.clip(rng.permutation(e), 0, top)
    e[rng.random(n) < 0.03] = 0.0
    kind = rng.integers(0, 6, n)
    sgn = rng.choice([-1.0, 1.0], n)
    small = sgn * 10 ** rng.uniform(-10, 0.5, n)
    M = np.select(
        [kind == 0, kind == 1, kind == 2, kind == 3, kind == 4],
        [
            rng.uniform(-np.pi, np.pi, n),
            small,
            rng.integers(-6, 7, n) * np.pi + small * 1e-2,
            rng.integers(-6, 7, n) * np.pi,
            rng.uniform(-3000, 3000, n),
        ],
        rng.uniform(0, 2 * np.pi, n),
    )
    return M.astype(dt), e.astype(dt)


def dfdM(e, cosf):
    return (1 + e * cosf) ** 2 / ((1 - e) * (1 + e)) ** 1.5


def dfde(e, sinf, cosf):
    return (2 + e * cosf) * sinf / ((1 - e) * (1 + e))


def _values(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    dt = np.float64 if jax.config.jax_enable_x64 else np.float32
    eps = float(np.finfo(dt).eps)
    for _ in range(ctx.n(4, 20)):
        n = ctx.n(60_000, 200_000)
        M, e = points(rng, n, dt)
        # measuring distinctness of a subsample keeps the evidence small
        mon.cases_from(M[:4000], e[:4000], nontrivial=(e[:4000] > 0) & (np.sin(M[:4000]) != 0))
        mon.cases += n - 4000
        s, c = mon.call("true-anomaly", api.kepler, M, e, what="kepler(array, array)")
        s, c = np.asarray(s), np.asarray(c)
        mon.check("true-anomaly", s.dtype == dt and c.dtype == dt, f"dtype {s.dtype}")
        rs, rc, E = (x.astype(float) for x in ref.kepler(M, e))
        Ml, el = M.astype(float), e.astype(float)
        amp = dfdM(el, rc)
        # error of reducing M to one revolution, and of the folding about pi
        inM = np.where((M >= 0) & (M <= np.pi), np.abs(Ml), 2 * np.pi + np.abs(Ml))
        tol = 8 * eps * (1 + amp * inM + 0.3 / (1 - el) * (inM < 1) )
        mon.close("true-anomaly", s, rs, atol=tol, M=M, e=e, component="sin f")
        mon.close("true-anomaly", c, rc, atol=tol, M=M, e=e, component="cos f")
        mon.close("unit-circle", s.astype(float) ** 2 + c.astype(float) ** 2,
                  np.ones(n), atol=8 * eps, M=M, e=e)
        mon.fact("high_eccentricity_cases", (el > 0.99).sum())
        mon.fact("periastron_cases", (rc > 0.99).sum())
        mon.fact("apastron_cases", (rc < -0.99).sum())
    mon.sample(M=M[:3], e=e[:3], sinf=s[:3], cosf=c[:3])

    # symmetry and periodicity, with the same conditioned tolerance
    s2, c2 = map(np.asarray, mon.call("odd-symmetry", api.kepler, -M, e))
    tol2 = 16 * eps * (1 + amp * (2 * np.pi + np.abs(Ml)))
    mon.close("odd-symmetry", s2, -rs, atol=tol2, M=M, e=e)
    mon.close("odd-symmetry", c2, rc, atol=tol2, M=M, e=e)
    k = rng.integers(-5, 6, n)
    Mk = (M + (2 * np.pi * k).astype(dt)).astype(dt)
    s3, c3 = map(np.asarray, mon.call("periodicity", api.kepler, Mk, e))
    tol3 = 16 * eps * (1 + amp * (2 * np.pi + np.abs(Ml) + 2 * np.pi * np.abs(k)))
    mon.close("periodicity", s3, rs, atol=tol3, M=M, k=k, e=e)
    mon.close("periodicity", c3, rc, atol=tol3, M=M, k=k, e=e)

    # exactly at the apsides and for circular orbits
    ee = np.linspace(0, 0.99, 34).astype(dt)
    s4, c4 = map(np.asarray, mon.call("exact-apsides", api.kepler, np.zeros_like(ee), ee))
    mon.close("exact-apsides", s4, np.zeros(34), atol=0, e=ee)
    mon.close("exact-apsides", c4, np.ones(34), atol=0, e=ee)
    s4, c4 = map(np.asarray, mon.call("exact-apsides", api.kepler,
                                      np.full(34, np.pi, dt), ee))
    mon.close("exact-apsides", c4, -np.ones(34), atol=8 * eps, e=ee)
    mon.close("exact-apsides", s4, np.zeros(34), atol=1e4 * eps, e=ee)
    mm = rng.uniform(-10, 10, 500).astype(dt)
    s5, c5 = map(np.asarray, mon.call("exact-apsides", api.kepler, mm, np.zeros(500, dt)))
    mon.close("exact-apsides", s5, np.sin(mm.astype(float)), atol=40 * eps, M=mm)
    mon.close("exact-apsides", c5, np.cos(mm.astype(float)), atol=40 * eps, M=mm)

    # scalar, broadcast, jit and vmap calls see the same solution
    Ms, es = M[:64], e[:64]
    base_s, base_c = s[:64], c[:64]
    t64 = tol2[:64]
    for name, f in {
        "scalars": lambda: np.array([[np.asarray(v) for v in api.kepler(a, b)]
                                     for a, b in zip(Ms, es, strict=True)]).T,
        "python-floats": lambda: np.array(
            [[np.asarray(v) for v in api.kepler(float(a), float(b))]
             for a, b in zip(Ms[:16], es[:16], strict=True)]).T,
        "vmap": lambda: np.array(jax.vmap(api.kepler)(Ms, es)),
        "jit": lambda: np.array(jax.jit(api.kepler)(Ms, es)),
        "2d": lambda: np.array(api.kepler(Ms.reshape(8, 8), es.reshape(8, 8))).reshape(2, 64),
    }.items():
        out = mon.call("batching", f, what=name)
        m = out.shape[1]
        mon.close("batching", out[0], base_s[:m], atol=t64[:m], M=Ms[:m], e=es[:m], how=name)
        mon.close("batching", out[1], base_c[:m], atol=t64[:m], M=Ms[:m], e=es[:m], how=name)
    one = dt(0.37)
    out = np.array(mon.call("batching", api.kepler, Ms, one, what="scalar e"))
    r1 = np.array([x.astype(float) for x in ref.kepler(Ms, one)[:2]])
    mon.close("batching", out, r1, atol=40 * eps * (1 + np.abs(Ms.astype(float))) + 1e3*eps)
    out = np.array(mon.call("batching", api.kepler, one, es, what="scalar M"))
    r1 = np.array([x.astype(float) for x in ref.kepler(one, es)[:2]])
    mon.close("batching", out, r1, atol=16 * eps * (10 + dfdM(es.astype(float), r1[1])))
    jnp.zeros(())


def _derivatives(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    dt = np.float64 if jax.config.jax_enable_x64 else np.float32
    eps = float(np.finfo(dt).eps)
    n = ctx.n(30_000, 300_000)
    M, e = points(rng, n, dt)
    e = np.minimum(e, dt(1 - (1e-4 if dt == np.float64 else 1e-2)))
    mon.cases_from(M[:4000], e[:4000], nontrivial=(e[:4000] > 0) & (np.sin(M[:4000]) != 0))
    mon.cases += n - 4000
    rs, rc, _ = (x.astype(float) for x in ref.kepler(M, e))
    el, Ml = e.astype(float), np.abs(M.astype(float))
    aM, ae = dfdM(el, rc), dfde(el, rs, rc)
    # first order propagation of the error of f itself into the derivatives
    df = eps * (1 + aM * (2 * np.pi + Ml) + 1 / (1 - el))
    ome2 = (1 - el) * (1 + el)
    d_aM = 2 * (1 + el * rc) * el / ome2**1.5 * (np.abs(rs) + df)
    d_ae = (2 + el) / ome2
    rel = eps * (4 + 4 / (1 - el))
    tolM = 16 * (df * (d_aM + aM) + rel * np.abs(aM)) + 1e-300
    tole = 16 * (df * (d_ae + np.abs(ae)) + rel * np.abs(ae)) + 16 * eps

    one, zero = np.ones_like(M), np.zeros_like(M)
    _, (ds, dc) = mon.call("jvp-M", jax.jvp, api.kepler, (M, e), (one, zero), what="jvp")
    mon.close("jvp-M", ds, rc * aM, atol=tolM, M=M, e=e)
    mon.close("jvp-M", dc, -rs * aM, atol=tolM, M=M, e=e)
    _, (ds, dc) = mon.call("jvp-e", jax.jvp, api.kepler, (M, e), (zero, one), what="jvp")
    mon.close("jvp-e", ds, rc * ae, atol=tole, M=M, e=e)
    mon.close("jvp-e", dc, -rs * ae, atol=tole, M=M, e=e)

    m = ctx.n(3000, 20000)
    for i in (0, 1):
        g = mon.call("grad", jax.vmap(jax.grad(lambda a, b, i=i: api.kepler(a, b)[i],
                                               argnums=(0, 1))), M[:m], e[:m], what="grad")
        w = (rc, -rs)[i]
        mon.close("grad", g[0], (w * aM)[:m], atol=tolM[:m], M=M[:m], e=e[:m], output=i)
        mon.close("grad", g[1], (w * ae)[:m], atol=tole[:m], M=M[:m], e=e[:m], output=i)
    # differentiating with respect to one argument only, under jit, forward over reverse
    g = mon.call("grad", jax.jit(jax.vmap(jax.grad(lambda a, b: api.kepler(a, b)[0]))),
                 M[:m], e[:m], what="jit grad")
    mon.close("grad", g, (rc * aM)[:m], atol=tolM[:m], M=M[:m], e=e[:m])
    g = mon.call("grad", jax.vmap(jax.jacfwd(lambda b, a: api.kepler(a, b)[1])),
                 e[:m], M[:m], what="jacfwd")
    mon.close("grad", g, (-rs * ae)[:m], atol=tole[:m], M=M[:m], e=e[:m])

    # f''(M) for moderate eccentricities
    q = el[:m] < 0.9
    Mq, eq, sq, cq, aq = M[:m][q], e[:m][q], rs[:m][q], rc[:m][q], aM[:m][q]
    elq = eq.astype(float)
    g2 = mon.call("second-derivative",
                  jax.vmap(jax.grad(jax.grad(lambda a, b: api.kepler(a, b)[0]))), Mq, eq,
                  what="grad grad")
    f2 = -2 * (1 + elq * cq) * elq * sq / ((1 - elq**2) ** 1.5) * aq
    want = cq * f2 - sq * aq**2
    tol = 2000 * eps * (1 + aq) ** 3 * (1 + Ml[:m][q]) / (1 - elq) ** 2
    mon.close("second-derivative", g2, want, atol=tol, M=Mq, e=eq)
    mon.sample(M=M[0], e=e[0], dsinf_dM=ds[0])
    jnp.zeros(())


JOBS(both=True, shards=(1, 4))(_values)
JOBS(both=True, shards=(1, 2))(_derivatives)


JOBS(shards=(1, 1))(whole.job(whole.kepler))
