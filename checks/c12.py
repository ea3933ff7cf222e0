"""C12: a pre-computed light curve is the linear interpolation of its grid, wrapped."""

import numpy as np

from lib import api, orb
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one interpolated function (generated probe with scalar, vector or N-d output, "
    "units, bound arguments; or a real light curve) with one period, epoch, window and number of "
    "samples, evaluated inside the window, on grid points, outside it and many periods away. "
    "Non-trivial: at least 3 samples. Oracle: linear interpolation written in numpy."
)
ASSUMPTIONS = []
REQUIRED = [
    "inside", "outside", "grid-points", "periodic", "linear-exact", "shape", "units",
    "arguments", "evaluated-once", "grid-asked", "gradient", "jit-vmap", "light-curve",
    "keywords-in-units", "default-window",
]
EPS = 2.3e-16
OUTS = [(), (3,), (1,), (2, 3), (2, 1, 2)]
SHAPES = [(6,), (), (2, 3), (1,), (0,), (2, 1, 2)]


def probes(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    for it in range(ctx.n(36, 320)):
        out = OUTS[int(rng.integers(len(OUTS)))]
        size = int(np.prod(out, dtype=int))
        c = rng.normal(size=(4, size))
        unit = [None, None, api.ureg.m, api.ureg.dimensionless][int(rng.integers(4))]
        log = []
        P = float(10 ** rng.uniform(-1, 2))
        t0 = float(rng.uniform(-20, 20) * P) if rng.random() < 0.8 else 0.0
        D = float(P * rng.uniform(0.02, 0.98)) if rng.random() < 0.7 else None
        ns = int(rng.choice([2, 3, 4, 5, 10, 33, 100]))
        W = P if D is None else D
        w = rng.uniform(0.5, 3) * 2 * np.pi / W
        lin = it % 6 == 0 and D is not None
        if D is None:  # a grid over the whole period is for periodic functions
            w, c[3] = int(rng.integers(1, 3)) * 2 * np.pi / P, 0.0

        def core(xp, t, a, k, lin=lin, c=c, w=w, t0=t0, W=W, out=out):
            tt = t[..., None]
            if lin:
                y = c[0] + c[1] * (tt - t0) / W
            else:
                y = c[0] + c[1] * xp.sin(w * (tt - t0) + c[2]) + c[3] * ((tt - t0) / W) ** 2
            return (a * y + k).reshape(t.shape + out)

        def func(time, a=1.0, *, k=0.0, log=log, core=core, unit=unit):
            log.append((str(time.units), np.array(time.magnitude)))
            y = core(jnp, time.magnitude, a, k)
            return y if unit is None else y * unit

        am = int(rng.integers(4))
        bound = [{}, dict(args=(2.0,)), dict(kwargs=dict(k=0.5)),
                 dict(args=(jnp.asarray(-1.5),), kwargs=dict(k=1.0))][am]
        a, k = [(1, 0), (2, 0), (1, 0.5), (-1.5, 1.0)][am]
        style = it % 3
        ur = api.ureg

        def q(v, style=style, ur=ur):
            return v if style == 0 else v * 24 * ur.hour if style == 1 else v * 1440.0 * ur.min

        kw = dict(period=q(P), time_transit=q(t0), num_samples=ns)
        if D is not None:
            kw["duration"] = q(D)
        f = mon.call("shape", api.interpolate, func, **kw, **bound)
        wit = dict(P=P, t0=t0, D=D, ns=ns, out=str(out), am=am, style=style)
        mon.case(it, P, t0, D, ns, out, nontrivial=ns > 2)
        grid = np.linspace(-0.5, 0.5, ns) * W
        vals = core(np, t0 + grid, a, k)
        te = 16 * EPS * (abs(t0) + P)
        mon.check("evaluated-once", len(log) == 1, f"{len(log)} evaluations", **wit)
        if log:
            mon.check("receives-days", log[0][0] == "day", log[0][0])
            mon.close("grid-asked", log[0][1].astype(float), t0 + grid, atol=te, **wit)

        def ref(ph, grid=grid, vals=vals, P=P, W=W):
            """ph in [-P/2, P/2): phase in days relative to the transit."""
            ph = np.asarray(ph, float)
            flat = vals.reshape(len(grid), -1)
            res = np.empty((ph.size, flat.shape[1]))
            for i, p in enumerate(ph.ravel()):
                if abs(p) <= W / 2:
                    j = int(np.clip(np.searchsorted(grid, p) - 1, 0, len(grid) - 2))
                    s = (p - grid[j]) / (grid[j + 1] - grid[j])
                    res[i] = (1 - s) * flat[j] + s * flat[j + 1]
                else:  # from the last value to the first one of the next period
                    p = p if p > 0 else p + P
                    s = (p - W / 2) / (P - W)
                    res[i] = (1 - s) * flat[-1] + s * flat[0]
            return res.reshape(ph.shape + vals.shape[1:])

        slope = np.abs(np.diff(vals, axis=0)).max() / (W / (ns - 1)) + \
            (np.abs(vals[0] - vals[-1]).max() / max(P - W, 1e-3 * P))
        for rule in ("inside", "outside", "grid-points", "periodic"):
            shape = SHAPES[int(rng.integers(len(SHAPES)))]
            if rule == "outside":
                if D is None or D > 0.95 * P:
                    continue
                ph = rng.uniform(W / 2, P / 2, shape) * rng.choice([-1, 1], shape)
                m = np.zeros(shape)
            elif rule == "grid-points":
                lo, hi = (0, ns) if D is not None else (1, ns - 1)
                if hi <= lo:
                    continue
                ph = grid[rng.integers(lo, hi, shape)]
                m = rng.integers(-2, 3, shape)
            else:
                ph = rng.uniform(-W / 2, W / 2, shape)
                m = 0 * ph if rule == "inside" else rng.integers(-2000, 2000, shape)
            ts = t0 + ph + m * P
            terr = 16 * EPS * (np.abs(ts) + abs(t0) + P) if ts.size else 0.0
            tq = [ts if shape else float(ts), ts * 24 * ur.hour, ts * 86400.0 * ur.s][
                int(rng.integers(3))]
            got = mon.call(rule, f, tq, what=str(wit))
            mon.check("units", str(getattr(got, "units", None)) == str(unit),
                      f"{getattr(got, 'units', None)} expected {unit}", **wit)
            g = orb.mag(got)
            mon.check("shape", g.shape == shape + out, f"{g.shape} for times {shape}", **wit)
            # a kink or the wrap inside the rounding of the phase is bounded by the slope
            tol = 1e-12 * (1 + np.abs(vals).max()) + np.max(terr, initial=0) * slope
            edge = np.abs(np.abs(ph) - P / 2) > 4 * terr
            want = ref(ph)
            for r in {rule} | ({"arguments"} if am else set()) | (
                    {"keywords-in-units"} if style else set()) | (
                    {"default-window"} if D is None else set()):
                mon.close(r, g[edge], want[edge], atol=tol, ts=ts, **wit)
            if lin and rule in ("inside", "periodic"):
                mon.close("linear-exact", g[edge], core(np, (t0 + ph)[edge], a, k), atol=tol, **wit)
        mon.check("evaluated-once", len(log) == 1, f"{len(log)} evaluations after calls", **wit)
        if it % 3 == 1:
            ph = rng.uniform(-W / 2, W / 2, 5) * 0.999
            j = np.searchsorted(grid, ph) - 1
            ts = t0 + ph + P * rng.integers(-3, 4, 5)
            away = np.abs(ph[:, None] - grid).min(axis=1) > 1e-6 * P
            d = jax.vmap(jax.jacfwd(lambda t, f=f: jm(f(t))))(jnp.asarray(ts))
            want = (vals[j + 1] - vals[j]) / (W / (ns - 1))
            mon.close("gradient", np.asarray(d)[away], want[away],
                      atol=1e-9 * (np.abs(want).max() + np.abs(vals).max() / (W / (ns - 1))), **wit)
            b = orb.mag(f(ts))
            tol = 1e-10 * (1 + np.abs(b).max()) + slope * te
            mon.close("jit-vmap", jax.jit(lambda t, f=f: jm(f(t)))(ts), b, atol=tol, **wit)
            mon.close("jit-vmap", jax.vmap(lambda t, f=f: jm(f(t)))(jnp.asarray(ts)), b,
                      atol=tol, **wit)

        mon.sample(**wit)


def jm(x):
    return getattr(x, "magnitude", x)


def lightcurves(mon, rng, ctx):
    import jax.numpy as jnp

    for it in range(ctx.n(6, 40)):
        P = float(10 ** rng.uniform(0, 1))
        t0 = float(rng.uniform(-3, 3))
        if it % 2:
            o = api.TransitOrbit(period=P, duration=0.1 * P, radius_ratio=0.1, time_transit=t0)
        else:
            s = api.System(api.Central())
            o = s.add_body(period=P, radius=0.1, time_transit=t0)
            o = o.add_body(period=P, radius=0.05, time_transit=t0) if it % 4 else o
        lc = api.limb_dark_light_curve(o, [0.3, 0.2])
        D = 0.15 * P if it % 3 else None
        ns = 400
        f = mon.call("light-curve", api.interpolate, lc, period=P, time_transit=t0,
                     num_samples=ns, **({} if D is None else dict(duration=D)))
        W = D or P
        ph = rng.uniform(-0.5, 0.5, 60) * np.where(rng.random(60) < 0.7, 0.15, 1.0) * P
        ts = t0 + ph + P * rng.integers(-5, 6, 60)
        h = W / (ns - 1)
        k = np.floor((ph + W / 2) / h)
        lo, hi = (np.asarray(lc(jnp.asarray(t0 - W / 2 + h * (k + d)))) for d in (0, 1))
        got = np.asarray(f(ts))
        s = ((ph + W / 2) / h - k).reshape((-1,) + (1,) * (got.ndim - 1))
        want = (1 - s) * lo + s * hi
        if D is not None:
            want = np.where((np.abs(ph) > W / 2).reshape(s.shape), 0.0, want)
        mon.case("lc", it, P, t0)
        mon.close("light-curve", got, want, atol=1e-8, P=P, t0=t0, D=D, ph=ph)
        mon.check("light-curve", np.ptp(want) > 1e-4, "no transit observed")


JOBS(shards=(4, 8))(probes)
JOBS(shards=(2, 4))(lightcurves)
