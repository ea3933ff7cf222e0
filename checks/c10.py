"""C10: timing variations put the transits at the stated times."""

import numpy as np

from lib import api, orb, whole
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one orbit with timing variations (1..4 planets, 2..30 transits each, given as "
    "transit times or as offsets, default or gapped transit numbers, plain or with units) "
    "observed at, around, between, before and after its transits, or one ephemeris whose "
    "transits inside an interval are listed. Non-trivial: the offsets are not all zero. "
    "Oracle: nearest stated transit in extended precision; least squares by numpy."
)
ASSUMPTIONS = []
REQUIRED = [
    "mid-transit", "position", "in-front", "before-after", "halfway", "ephemeris", "residuals",
    "transit-times", "offsets-zero-mean", "attributes", "units", "scalar-vs-array", "jit",
    "gradient", "light-curve", "rejects", "expected-times", "expected-empty", "roundtrip",
    "delta-log-period",
    "whole-numbers",
]
EPS = 2.3e-16


def draw(rng, n, gaps):
    out = []
    for _ in range(n):
        m = int(rng.choice([2, 3, 4, 7, 15, 30]))
        P = 10 ** rng.uniform(-0.3, 2)
        t0 = rng.uniform(-3, 3) * P
        if gaps == 0:
            inds = np.arange(m)
        elif gaps == 1:
            inds = np.sort(rng.choice(np.arange(-5, m + 20), m, replace=False))
        else:
            inds = np.arange(m) + int(rng.integers(-20, 40))
        kind = rng.integers(4)
        ttv = {0: rng.uniform(-0.2, 0.2, m), 1: 0.15 * np.sin(0.7 * inds + 1),
               2: np.where(rng.random(m) < 0.3, 0.3 * rng.random(m), 0.0),
               3: 1e-3 * rng.normal(size=m)}[int(kind)] * P
        out.append((P, t0, inds, ttv))
    return out


def lsq(tt, inds):
    x = inds.astype(np.longdouble)
    t = tt.astype(np.longdouble)
    xm, tm = x.mean(), t.mean()
    s = ((x - xm) * (t - tm)).sum() / ((x - xm) ** 2).sum()
    return float(tm - s * xm), float(s)


def model(t, tt, P, v, b, d):
    """Nearest stated transit; the orbit's period wraps the distance to it."""
    mid = 0.5 * (tt[1:] + tt[:-1])
    k = np.searchsorted(mid, t)
    dt = t - tt[k]
    dtw = dt - P * np.round(dt / P)
    edge = np.min(np.abs(t[:, None] - mid[None, :]), axis=1) if mid.size else np.full(t.size, np.inf)
    return k, dtw, np.minimum(edge, P / 2 - np.abs(dtw))


def build(mon, rng, planets, mode, gaps, style, kw):
    n = len(planets)
    ud, fd = api.ureg.hour, 24.0

    def q(a):
        if style == 1:
            return np.asarray(a) * fd * ud
        if style == 2 and rng.random() < 0.5:
            return np.asarray(a) * 86400.0 * api.ureg.s
        return np.asarray(a)

    inds = tuple(np.asarray(p[2]) for p in planets)
    args = dict(kw)
    if mode == "times":
        args["transit_times"] = [q(p[1] + p[0] * p[2] + p[3]) for p in planets]
    else:
        args["ttvs"] = tuple(q(p[3]) for p in planets)
        args["period"] = q(np.array([p[0] for p in planets]) if n > 1 or rng.random() < 0.5
                           else planets[0][0])
        args["time_transit"] = q(np.array([p[1] for p in planets]) if n > 1 or
                                 rng.random() < 0.5 else planets[0][1])
    if gaps:
        args["transit_inds"] = inds
    return mon.call("attributes", api.TTVOrbit, what=f"TTVOrbit({mode})", **args), args


def orbits(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    for it in range(ctx.n(26, 220)):
        n = [1, 1, 2, 3, 1, 4][it % 6]
        gaps = int(rng.integers(3))
        planets = draw(rng, n, gaps)
        mode = "times" if it % 2 else "ttvs"
        style = int(rng.integers(3))
        ror = 10 ** rng.uniform(-2, -0.5, n)
        b = rng.uniform(-0.9, 0.9, n)
        dur = np.array([p[0] * 10 ** rng.uniform(-2, -1) for p in planets])
        bydur = rng.random() < 0.7
        half = np.sqrt((1 + ror) ** 2 - b**2)
        v = 2 * half / dur
        one = (n == 1) and rng.random() < 0.5

        def s(a, one=one):
            return float(a[0]) if one else a

        kw = dict(impact_param=s(b), radius_ratio=s(ror))
        kw["duration" if bydur else "speed"] = s(dur if bydur else v)
        o, args = build(mon, rng, planets, mode, gaps, style, kw)
        mon.case(it, mode, *[p[3].tolist() for p in planets])
        fits, tts = [], []
        for p in planets:
            P, t0, inds, ttv = p
            if mode == "times":
                tt = t0 + P * inds + ttv
                fits.append(lsq(tt, inds))
            else:
                tt = t0 + P * inds + (ttv - ttv.mean())
                fits.append((t0, P))
            tts.append(tt)
        wit = dict(mode=mode, gaps=gaps, style=style, planets=[(p[0], p[1], p[2], p[3])
                                                                 for p in planets])
        lt, lp = np.atleast_1d(orb.mag(o.linear_t0)), np.atleast_1d(orb.mag(o.linear_period))
        for k in range(n):
            P, t0, inds, ttv = planets[k]
            tt = tts[k]
            big = np.abs(tt).max() + P
            X = np.vstack([np.ones(inds.size), inds])
            cond = np.linalg.cond(X @ X.T) if mode == "times" else 1.0
            te = 40 * EPS * big * cond
            i0 = max(np.abs(inds).max(), 1)
            mon.close("ephemeris", [lt[k % lt.size], lp[k % lp.size]], fits[k],
                      atol=np.array([te, te]), planet=k, **wit)
            got = np.asarray(o.ttvs[k])
            want = tt - fits[k][0] - fits[k][1] * inds
            mon.close("residuals" if mode == "times" else "offsets-zero-mean", got, want,
                      atol=te * (1 + i0), planet=k, **wit)
            mon.close("transit-times", np.asarray(o.transit_times[k]), tt,
                      atol=40 * EPS * big * (1 + i0), **wit)
        Po = np.broadcast_to(orb.mag(o.period), (n,))
        mon.close("attributes", Po, [f[1] for f in fits],
                  rtol=1e-6 if mode == "times" else 1e-14, **wit)
        mon.close("attributes", np.broadcast_to(orb.mag(o.speed), (n,)), v, rtol=1e-11, **wit)
        mon.close("attributes", np.broadcast_to(orb.mag(o.duration), (n,)), dur, rtol=1e-11, **wit)
        # positions
        for k in range(n):
            P, t0, inds, ttv = planets[k]
            tt = tts[k]
            f = jax.jit(lambda t, o=o: [c.magnitude for c in o.relative_position(t)])
            inside = rng.choice(tt, 12) + rng.uniform(-0.7, 0.7, 12) * dur[k]
            span = rng.uniform(tt[0] - 3 * P, tt[-1] + 3 * P, 14)
            m = rng.integers(1, 5, 8)
            outer = np.where(rng.random(8) < 0.5, tt[0] - m * Po[k], tt[-1] + m * Po[k]) \
                + rng.uniform(-0.5, 0.5, 8) * dur[k] * rng.choice([0, 1], 8)
            j = rng.integers(0, tt.size - 1, 4)
            mid = 0.5 * (tt[j] + tt[j + 1])
            near = 1e-6 * P
            ts = np.concatenate([tt, inside, span, outer, mid - near, mid + near])
            rule = (["mid-transit"] * tt.size + ["position"] * 26 + ["before-after"] * 8
                    + ["halfway"] * 8)
            rule = np.array(rule)
            if n == 1 and it % 3 == 0:
                x, y, z = (np.asarray(a) for a in f(jnp.asarray(ts)))
                for t1 in rng.choice(ts, 3):
                    w1 = orb.mag(o.relative_position(float(t1)))
                    i1 = int(np.argmax(ts == t1))
                    mon.check("scalar-vs-array", w1.shape == (3,), f"{w1.shape}")
                    mon.close("scalar-vs-array", w1, [x[i1], y[i1], z[i1]],
                              atol=1e-9 * (1 + abs(x[i1])), t=t1, **wit)
            else:
                # jitted per scalar time, as the light curves call it
                vals = np.array([np.asarray(f(float(t))) for t in ts])
                mon.check("scalar-vs-array", vals.shape == ((ts.size, 3, n) if n > 1 else
                                                            (ts.size, 3)), f"{vals.shape}")
                vals = vals.reshape(ts.size, 3, n)
                x, y, z = vals[:, 0, k], vals[:, 1, k], vals[:, 2, k]
            _, dt, margin = model(ts, tt, Po[k], v[k], b[k], dur[k])
            # wrapping accumulates rounding of the fitted period over the revolutions
            cond = 1 if mode == "ttvs" else np.linalg.cond(
                np.vstack([np.ones(inds.size), inds]) @ np.vstack([np.ones(inds.size), inds]).T)
            te = 200 * EPS * (np.abs(ts).max() + np.abs(t0) + P * 40) * min(cond, 1e4)
            ok = margin > 2 * te
            for r in np.unique(rule):
                i = ok & (rule == r)
                if i.any():
                    mon.close(r, x[i], (v[k] * dt)[i], atol=v[k] * te + 1e-12 * np.abs(v[k] * dt[i]),
                              planet=k, t=ts[i], **wit)
            mon.close("position", y, 0 * y + b[k], atol=1e-13, **wit)
            i = ok & (np.abs(np.abs(dt) - dur[k] / 2) > 2 * te)
            mon.all("in-front", ((z > 0) == (np.abs(dt) < dur[k] / 2))[i], "wrong side",
                    t=ts[i], planet=k, **wit)
        q = o.relative_position(float(ts[0]))
        for c in q:
            mon.check("units", str(c.units) == "dimensionless", str(c.units))
        th = float(ts[0]) * 24 * api.ureg.hour
        mon.close("units", orb.mag(o.relative_position(th)), orb.mag(q),
                  atol=1e-8 * (1 + np.abs(orb.mag(q))), **wit)
        if it % 3 == 0:
            transforms(mon, rng, planets, tts, mode, kw, v, dur, b, n, wit)
        if it % 4 == 1 and mode == "times":
            d = rng.normal() * 0.01
            o2 = mon.call("delta-log-period", api.TTVOrbit, delta_log_period=d,
                          transit_times=[jnp.asarray(t) for t in tts], **kw,
                          transit_inds=tuple(p[2] for p in planets))
            mon.close("delta-log-period", np.broadcast_to(orb.mag(o2.period), (n,)),
                      np.array([f[1] for f in fits]) * np.exp(d), rtol=1e-6, **wit)
            mon.close("delta-log-period", np.atleast_1d(orb.mag(o2.linear_period)),
                      [f[1] for f in fits], rtol=1e-6, **wit)
            o3 = mon.call("attributes", api.TTVOrbit, period=np.array([f[1] for f in fits]) * 1.01,
                          transit_times=[jnp.asarray(t) for t in tts], **kw,
                          transit_inds=tuple(p[2] for p in planets))
            mon.close("attributes", np.broadcast_to(orb.mag(o3.period), (n,)),
                      np.array([f[1] for f in fits]) * 1.01, rtol=1e-9, **wit)
            for oo in (o2, o3):
                j = [int(rng.integers(len(t))) for t in tts]
                for k in range(n):
                    pos = orb.mag(oo.relative_position(float(tts[k][j[k]]))).reshape(3, n)
                    mon.close("mid-transit", pos[0, k], 0.0, atol=v[k] * te, **wit)
        # the two ways of stating the same transits
        if n == 1 and it % 2 == 0:
            o4 = mon.call("roundtrip", api.TTVOrbit, transit_times=o.transit_times,
                          transit_inds=o.transit_inds, period=o.period, **kw)
            t1 = np.concatenate([inside, span])
            a, c = (orb.mag(w.relative_position(jnp.asarray(t1))) for w in (o, o4))
            i = ok[tt.size:tt.size + 26] & (np.abs(np.abs(dt) - dur[0] / 2) > 4 * te)[
                tt.size:tt.size + 26]
            mon.close("roundtrip", c[:, i], a[:, i], atol=v[0] * 4 * te + 1e-12, **wit)
        mon.sample(mode=mode, n=n, gaps=gaps, tt=tts[0][:5])


def transforms(mon, rng, planets, tts, mode, kw, v, dur, b, n, wit):
    import jax
    import jax.numpy as jnp

    inds = tuple(jnp.asarray(p[2]) for p in planets)
    P = jnp.array([p[0] for p in planets])
    t0 = jnp.array([p[1] for p in planets])
    kw = {k: jnp.broadcast_to(jnp.asarray(x), (n,)) for k, x in kw.items()}

    def pos(arrs, t):
        if mode == "times":
            o = api.TTVOrbit(transit_times=list(arrs), transit_inds=inds, **kw)
        else:
            o = api.TTVOrbit(ttvs=tuple(arrs), transit_inds=inds, period=P, time_transit=t0, **kw)
        return jnp.stack([jnp.broadcast_to(c.magnitude, (n,)) for c in o.relative_position(t)])

    arrs = [jnp.asarray(t if mode == "times" else p[3]) for t, p in zip(tts, planets, strict=True)]
    k = int(rng.integers(n))
    j = int(rng.integers(len(tts[k])))
    t = float(tts[k][j] + 0.3 * dur[k] * rng.uniform(-1, 1))
    a = mon.call("jit", pos, arrs, t)
    c = mon.call("jit", jax.jit(pos), arrs, t)
    mon.close("jit", np.asarray(c), np.asarray(a), atol=1e-7 * (1 + np.abs(np.asarray(a))),
              mech=None, **wit)
    g = mon.call("gradient", jax.grad(lambda z: pos(z, t)[0, k]), arrs)
    for kk in range(n):
        want = np.zeros(len(tts[kk]))
        if kk == k:
            want[j] = -v[k]
            if mode == "ttvs":
                want += v[k] / want.size
        mon.close("gradient", np.asarray(g[kk]), want, atol=1e-6 * v[k], **wit)
    # light curve at the transit
    from lib import ldref

    u = [0.4, 0.2]
    if mode == "times":
        o = api.TTVOrbit(transit_times=list(arrs), transit_inds=inds, **kw)
    else:
        o = api.TTVOrbit(ttvs=tuple(arrs), transit_inds=inds, period=P, time_transit=t0, **kw)
    rr = np.asarray(kw["radius_ratio"])
    bb = np.hypot(b[k], v[k] * (t - tts[k][j]))
    lc = np.asarray(mon.call("light-curve", api.limb_dark_light_curve(o, u), jnp.array([t])))
    mon.check("light-curve", lc.shape == (1, n), f"shape {lc.shape}", **wit)
    want = -ldref.blocked(np.array(u), bb, rr[k])
    mon.close("light-curve", lc.reshape(-1)[k], float(want), atol=1e-6, **wit)


def expected(mon, rng, ctx):
    import jax.numpy as jnp

    for it in range(ctx.n(150, 1500)):
        n = int(rng.integers(1, 4))
        exact = it % 3 == 0
        if exact:  # representable: both ends of the interval can be transit times
            P = rng.integers(1, 40, n) / 8.0
            t0 = rng.integers(-80, 80, n) / 8.0
            lo = float(t0[0] + P[0] * rng.integers(-6, 6))
            hi = float(t0[-1] + P[-1] * rng.integers(-6, 12))
            lo, hi = min(lo, hi), max(lo, hi)
        else:
            P = 10 ** rng.uniform(-0.5, 1.5, n)
            t0 = rng.uniform(-30, 30, n)
            lo = rng.uniform(-40, 40)
            hi = lo + rng.choice([0.3, 5.0, 60.0])
        if n == 1 and it % 2:
            got = mon.call("expected-times", api.compute_expected_transit_times, lo, hi,
                           float(P[0]), float(t0[0]))
        else:
            got = mon.call("expected-times", api.compute_expected_transit_times, lo, hi,
                           jnp.asarray(P) if it % 2 else P, jnp.asarray(t0) if it % 2 else t0)
        mon.check("expected-times", isinstance(got, tuple) and len(got) == n,
                  f"{type(got)} of {len(got)}")
        some = 0
        for k in range(n):
            g = np.asarray(got[k])
            i = np.arange(-400, 401)
            tt = t0[k] + P[k] * i
            tol = 0.0 if exact else 1e-11
            must = tt[(tt >= lo + tol) & (tt <= hi - tol)]
            may = tt[(tt >= lo - tol) & (tt <= hi + tol)]
            some += must.size
            mon.check("expected-times", g.ndim == 1, f"{g.shape}")
            if must.size == may.size:
                mon.close("expected-times" if must.size else "expected-empty", g, must,
                          atol=1e-11, P=P[k], t0=t0[k], lo=lo, hi=hi)
                if not must.size:
                    mon.check("expected-empty", g.size == 0, f"{g}", lo=lo, hi=hi)
        mon.case(P.tolist(), t0.tolist(), lo, hi, nontrivial=bool(some))
    mon.rejects("rejects", lambda: api.TTVOrbit(period=1.0, duration=0.1), (ValueError,),
                what="neither times nor offsets")
    tt = (np.array([0.0, 1.0, 2.1]),)
    mon.rejects("rejects", lambda: api.TTVOrbit(period=1.0, duration=0.1, ttvs=tt,
                                                transit_times=tt), (ValueError,),
                what="both times and offsets")
    mon.rejects("rejects", lambda: api.TTVOrbit(duration=0.1, ttvs=tt), (ValueError,),
                what="offsets without a period")


JOBS(shards=(6, 8))(orbits)
JOBS(shards=(1, 1))(expected)


JOBS(shards=(1, 1))(whole.job(whole.timings))
