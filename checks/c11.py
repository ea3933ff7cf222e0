"""C11: exposure integration is the stated quadrature of the light curve over the exposure."""

import numpy as np

from lib import api, orb
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one integrated function: a generated probe (smooth, oscillating, polynomial, "
    "discontinuous or random; scalar, vector, N-d, with units, with positional and keyword "
    "arguments) or a real light curve, with one exposure time, rule and number of samples, "
    "evaluated at times of one shape and unit. Non-trivial: positive exposure time. Oracle: the "
    "rule applied by numpy to direct evaluations of the same function."
)
ASSUMPTIONS = []
REQUIRED = [
    "stencil", "constant", "polynomial-exact", "mean", "linear", "arguments", "units", "shape",
    "no-exposure", "zero-exposure", "rejects", "nested", "light-curve", "gradient", "jit-vmap",
    "receives-days", "with-interpolate", "exposure-units",
]


def rule(order, n):
    n = int(n)
    n += 1 - n % 2
    if order == 0:
        return (np.arange(n) + 0.5) / n - 0.5, np.full(n, 1 / n)
    n = max(n, 3)
    x = np.linspace(-0.5, 0.5, n)
    w = np.full(n, 2.0)
    if order == 2:
        w[1::2] = 4
    w[0] = w[-1] = 1
    return x, w / w.sum()


KINDS = ["sin", "fast", "poly", "step", "exp"]
OUTS = [(), (3,), (1,), (2, 3), (2, 1, 3), (2, 2, 2, 2)]


def probe(rng, kind, out, unit, log):
    """A function of a time quantity and the same in numpy (time in days, any shape)."""
    import jax.numpy as jnp

    size = int(np.prod(out, dtype=int))
    c = rng.normal(size=(4, size))

    def core(xp, t, c, a, k):
        tt = t[..., None]
        if kind == "sin":
            y = c[0] + c[1] * xp.sin(c[2] * tt + c[3])
        elif kind == "fast":
            y = c[0] * xp.cos(37.0 * c[1] * tt + c[2])
        elif kind == "poly":
            y = c[0] + c[1] * tt + c[2] * tt**2 + c[3] * tt**3
        elif kind == "step":
            y = xp.where(xp.sin(5 * c[0] * tt + c[1]) > 0, c[2], c[3])
        else:
            y = c[0] * xp.exp(-xp.abs(tt - c[1]))
        y = (a * y + k).reshape(t.shape + out)
        return y

    def func(time, a=1.0, b=0.0, *, k=0.0):
        log.append((str(time.units), tuple(time.shape)))
        y = core(jnp, time.magnitude, jnp.asarray(c), a, k) + b * time.magnitude.reshape(
            time.shape + (1,) * len(out))
        return y if unit is None else y * unit

    def ref(t, a=1.0, b=0.0, k=0.0):
        return core(np, t, c, a, k) + b * t.reshape(t.shape + (1,) * len(out))

    return func, ref


def reference(ref, ts, x, w, e, **kw):
    """sum_k w_k ref(ts + x_k e) with the stencil axis contracted."""
    ev = [wk * ref(ts + xk * e, **kw) for xk, wk in zip(x, w, strict=True)]
    return np.sum(ev, axis=0)


SHAPES = [(), (5,), (1,), (2, 3), (0,), (2, 1, 2)]


def times(rng, shape, style):
    ts = rng.uniform(-3, 3, shape)
    if style == 0:
        return (float(ts) if shape == () else ts), ts
    if style == 1:
        return ts * 24.0 * api.ureg.hour, ts
    if style == 2:
        return ts * 86400.0 * api.ureg.s, ts
    i = rng.integers(-4, 5, shape)
    return (int(i) if shape == () else i), np.asarray(i, float)


def probes(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    for it in range(ctx.n(40, 400)):
        kind = KINDS[int(rng.integers(5))]
        out = OUTS[int(rng.integers(len(OUTS)))]
        unit = [None, None, api.ureg.m, api.ureg.dimensionless][int(rng.integers(4))]
        log = []
        func, ref = probe(rng, kind, out, unit, log)
        order = int(rng.integers(3))
        ns = int(rng.choice([1, 2, 3, 4, 5, 7, 8, 20, 51]))
        e = float(10 ** rng.uniform(-3, 0.5))
        est = int(rng.integers(4))
        eq = [e, e * 24 * api.ureg.hour, e * 1440 * api.ureg.min, jnp.asarray(e)][est]
        kw = {}
        if order or rng.random() < 0.5:
            kw["order"] = order
        if ns != 7 or rng.random() < 0.5:
            kw["num_samples"] = ns
        f = mon.call("shape", api.integrate, func, exposure_time=eq, **kw)
        shape = SHAPES[int(rng.integers(len(SHAPES)))]
        tq, ts = times(rng, shape, int(rng.integers(4)))
        args, akw = [], {}
        am = int(rng.integers(5))
        if am == 1:
            args = [2.5]
        elif am == 2:
            args, akw = [jnp.asarray(-1.5), 0.7], dict(k=0.3)
        elif am == 3:
            akw = dict(b=jnp.asarray(2.0), k=jnp.asarray(1.0))
        elif am == 4:
            akw = dict(a=0.5, k=np.arange(1.0, 1.0 + int(np.prod(out, dtype=int))))
        bound = dict(zip(("a", "b"), args, strict=False))
        bound.update(akw)
        bound = {k: np.asarray(v) for k, v in bound.items()}
        wit = dict(kind=kind, out=str(out), order=order, ns=ns, e=e, shape=str(shape),
                   args=str(bound))
        mon.case(it, kind, out, order, ns, e, shape, am)
        got = mon.call("arguments" if am else "stencil", f, tq, *args,
                       what=str(wit), **akw)
        mon.check("units", (str(got.units) == str(unit)) if unit is not None
                  else not hasattr(got, "units"), f"unit {getattr(got, 'units', None)}", **wit)
        got = orb.mag(got)
        mon.check("shape", got.shape == shape + out, f"{got.shape} for time {shape}", **wit)
        x, w = rule(order, ns)
        want = reference(ref, ts, x, w, e, **bound) if ts.size else np.zeros(shape + out)
        tol = 1e-12 * (1 + np.abs(want).max(initial=0)) * 40
        ok = np.ones(want.shape, bool)
        if kind == "step":  # samples on a discontinuity are ambiguous
            d = 1e-9
            lo = [reference(ref, ts + s, x, w, e, **{**bound, "b": 0.0}) for s in (-d, 0, d)] \
                if ts.size else [want] * 3
            ok = (np.abs(lo[0] - lo[1]) < 1e-8) & (np.abs(lo[2] - lo[1]) < 1e-8)
        if ok.any():
            mon.close("arguments" if am else "stencil", got[ok], want[ok], atol=tol, **wit)
        if est in (1, 2):
            mon.close("exposure-units", got[ok], want[ok], atol=tol, **wit)
        mon.all("receives-days", [u == "day" for u, _ in log], f"{log[:3]}")
        mon.fact("function evaluations traced", len(log))
        if it % 5 == ctx.shard % 5 or ctx.thorough and it % 2:
            relations(mon, rng, func, ref, kind, out, unit, e, order, ns, wit)
        mon.sample(**wit)
    c = rejections(mon)
    return c


def relations(mon, rng, func, ref, kind, out, unit, e, order, ns, wit):
    import jax
    import jax.numpy as jnp

    ts = rng.uniform(-2, 2, 4)
    kw = dict(order=order, num_samples=ns)
    deu = orb.mag

    # constants and low order polynomials
    c = rng.normal(size=out + (4,))
    x, w = rule(order, ns)

    def poly(time, deg):
        t = time.magnitude.reshape(time.shape + (1,) * len(out))
        return sum(jnp.asarray(c[..., k]) * t**k for k in range(deg + 1))

    g = api.integrate(lambda t: poly(t, 0), e, **kw)
    mon.close("constant", g(ts), np.broadcast_to(c[..., 0], (4, *out)), atol=1e-13, **wit)
    deg = 3 if order == 2 else 1
    g = api.integrate(lambda t: poly(t, deg), e, **kw)

    def anti(t):
        t = t.reshape(t.shape + (1,) * len(out))
        return sum(c[..., k] * t ** (k + 1) / (k + 1) for k in range(deg + 1))

    mean = (anti(ts + e / 2) - anti(ts - e / 2)) / e
    mon.close("polynomial-exact", g(ts), mean, atol=1e-11 * (1 + 1 / e) * (1 + np.abs(mean).max()),
              **wit)
    # the true mean
    if kind in ("sin", "exp"):
        m = 401
        g = api.integrate(func, e, order=order, num_samples=m)
        gx, gw = np.polynomial.legendre.leggauss(60)
        seg = np.linspace(-0.5, 0.5, 41)
        xs = np.concatenate([(a + b) / 2 + (b - a) / 2 * gx for a, b in zip(seg, seg[1:], strict=False)])
        ws = np.concatenate([(b - a) / 2 * gw for a, b in zip(seg, seg[1:], strict=False)])
        mean = reference(ref, ts, xs, ws, e)
        mon.close("mean", deu(g(ts)), mean, atol=1e-4 * (1 + e) * (1 + np.abs(mean).max()), **wit)
    g = api.integrate(func, 0.0, **kw)
    mon.close("zero-exposure", deu(mon.call("zero-exposure", g, ts)), ref(ts), atol=1e-12 * (1 + np.abs(ref(ts)).max()),
              **wit) if kind != "step" else None
    mon.check("no-exposure", api.integrate(func, None, **kw) is func
              or np.array_equal(deu(api.integrate(func, None, **kw)(jnp.asarray(ts) * api.ureg.d)),
                                deu(func(jnp.asarray(ts) * api.ureg.d))), "changed", **wit)
    mon.check("no-exposure", api.integrate(func) is func
              or np.array_equal(deu(api.integrate(func)(jnp.asarray(ts) * api.ureg.d)),
                                deu(func(jnp.asarray(ts) * api.ureg.d))), "changed", **wit)
    if kind == "step":
        return
    # linearity in the light curve
    a, b = (float(v) for v in rng.normal(size=2))
    h = api.integrate(lambda t: a * func(t) + b * func(t, 2.0, 1.0), e, **kw)
    f1, f2 = api.integrate(func, e, **kw), api.integrate(func, e, **kw)
    want = a * deu(f1(ts)) + b * deu(f2(ts, 2.0, 1.0))
    mon.close("linear", deu(h(ts)), want, atol=1e-11 * (1 + np.abs(want).max()), **wit)
    # exposures nest
    e2 = e * 0.3
    o2 = int(rng.integers(3))
    n2 = int(rng.choice([1, 3, 5]))
    h = mon.call("nested", api.integrate, api.integrate(func, e, **kw), e2, order=o2,
                 num_samples=n2)
    x2, w2 = rule(o2, n2)
    want = reference(lambda t: reference(ref, t, x, w, e), ts, x2, w2, e2)
    mon.close("nested", deu(h(ts)), want, atol=1e-11 * (1 + np.abs(want).max()), **wit)
    # transformations
    f = api.integrate(func, e, **kw)
    base = deu(f(ts))
    j = jax.jit(lambda t, f=f: deu_j(f(t)))
    mon.close("jit-vmap", mon.call("jit-vmap", j, ts), base, atol=1e-12 * (1 + np.abs(base).max()), **wit)
    mon.close("jit-vmap", jax.vmap(lambda t, f=f: deu_j(f(t)))(jnp.asarray(ts)), base,
              atol=1e-12 * (1 + np.abs(base).max()), **wit)
    ex = jnp.asarray([0.5, 1.0, 2.0]) * e
    got = mon.call("jit-vmap", jax.vmap(lambda z: deu_j(api.integrate(func, z, **kw)(ts))), ex)
    want = np.array([reference(ref, ts, x, w, float(z)) for z in ex])
    mon.close("jit-vmap", got, want, atol=1e-11 * (1 + np.abs(want).max()), **wit)
    if kind != "exp":
        d = 1e-5
        gt = jax.jacfwd(lambda t: deu_j(f(t)))(ts[0])
        want = (reference(ref, ts[:1] + d, x, w, e) - reference(ref, ts[:1] - d, x, w, e)) / (2 * d)
        sc = 1 + np.abs(want).max()
        mon.close("gradient", gt, want[0], atol=3e-4 * sc, **wit)
        ge = mon.call("gradient", jax.jacrev(lambda z: deu_j(api.integrate(func, z, **kw)(ts[0]))), e)
        want = (reference(ref, ts[:1], x, w, e + d) - reference(ref, ts[:1], x, w, e - d)) / (2 * d)
        mon.close("gradient", ge, want[0], atol=3e-4 * sc + 3e-4 * np.abs(want).max(), **wit)
        ga = jax.jacfwd(lambda a: deu_j(f(ts[0], a)))(1.0)
        mon.close("gradient", ga, base[0], atol=1e-11 * (1 + np.abs(base).max()), **wit)


def deu_j(x):
    return getattr(x, "magnitude", x)


def rejections(mon):
    f = lambda t: t.magnitude  # noqa: E731
    for bad in (np.array([0.1]), np.array([0.1, 0.2]), np.ones((2, 2)),
                np.array([0.1, 0.2]) * api.ureg.hour):
        mon.rejects("rejects", lambda b=bad: api.integrate(f, b), (ValueError,),
                    what="exposure time of shape " + str(np.shape(bad)))
    for bad in (3, -1, 10):
        mon.rejects("rejects", lambda b=bad: api.integrate(f, 0.1, order=b), (ValueError,),
                    what=f"order {bad}")
    mon.rejects("rejects", lambda: api.integrate(f, 0.1 * api.ureg.m), (Exception,),
                what="exposure in metres")


def lightcurves(mon, rng, ctx):
    """Real light curves: the integrated flux is the mean of direct evaluations."""
    import jax.numpy as jnp

    for it in range(ctx.n(8, 60)):
        kind = it % 4
        P = 10 ** rng.uniform(0, 1)
        u = [0.3, 0.2]
        if kind == 0:
            o = api.TransitOrbit(period=P, duration=0.1 * P, radius_ratio=0.1, impact_param=0.2)
            lc = api.limb_dark_light_curve(o, u)
        elif kind == 1:
            o = api.TransitOrbit(period=np.array([P, 1.7 * P]), duration=0.05 * P * np.ones(2),
                                 radius_ratio=np.array([0.1, 0.02]))
            lc = api.limb_dark_light_curve(o, u)
        elif kind == 2:
            s = api.System(api.Central())
            for k in range(3):
                s = s.add_body(period=P * (1 + k), radius=0.1 / (1 + k), time_transit=0.0)
            lc = api.limb_dark_light_curve(s, u)
        else:
            s = api.SurfaceSystem(api.Central(), api.Surface())
            s = s.add_body(api.Body(period=P, radius=0.1, time_transit=0.0),
                           api.Surface(amplitude=1e-2))
            lc = api.emission_light_curve(s)
        order, ns = int(rng.integers(3)), int(rng.choice([3, 7, 11]))
        e = 0.03 * P
        f = api.integrate(lc, e, order=order, num_samples=ns)
        ts = np.concatenate([rng.uniform(-0.06, 0.06, 7) * P, rng.uniform(-0.5, 0.5, 3) * P])
        x, w = rule(order, ns)
        got = np.asarray(mon.call("light-curve", f, ts))
        want = sum(wk * np.asarray(lc(jnp.asarray(ts + xk * e))) for xk, wk in zip(x, w, strict=True))
        mon.case("lc", kind, P, order, ns)
        mon.close("light-curve", got, want, atol=1e-9, kind=kind, order=order, ns=ns, P=P)
        mon.check("light-curve", np.ptp(want.reshape(ts.size, -1)[:, 0]) > 1e-7, "the transit was not observed")
        if kind == 0:
            n = 2001
            g = api.interpolate(f, period=P, time_transit=0.0, num_samples=n)
            h = api.integrate(api.interpolate(lc, period=P, time_transit=0.0, num_samples=n),
                              e, order=order, num_samples=ns)
            mon.close("with-interpolate", np.asarray(g(ts)), want, atol=5e-4)
            mon.close("with-interpolate", np.asarray(h(ts)), want, atol=5e-4)


JOBS(shards=(5, 8))(probes)
JOBS(shards=(2, 4))(lightcurves)
