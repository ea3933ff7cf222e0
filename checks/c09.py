"""C09: the transit-parametrised orbit moves as its period, duration and shape say."""

import numpy as np

from lib import api, orb, whole
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one orbit (1..5 planets or scalars; duration or speed; every optional "
    "parameter given or defaulted; plain numbers or compatible units) observed at random "
    "times, in transit, at contacts and near the wrap at half a period. Non-trivial: the "
    "impact parameter allows a transit. Oracle: closed form in float64."
)
ASSUMPTIONS = []
REQUIRED = [
    "position", "in-front", "contact-separation", "duration-speed", "attributes", "defaults",
    "periodicity", "units", "shape", "rejects", "velocity", "no-transit",
    "whole-numbers",
]


def orbits(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    f32 = jnp.zeros(1).dtype == jnp.float32
    eps = 1.2e-7 if f32 else 2.3e-16
    for it in range(ctx.n(60, 500)):
        n = [0, 1, 2, 5][it % 4]
        size = () if n == 0 else (n,)
        P = 10 ** rng.uniform(-1, 2.5, size)
        dur = P * 10 ** rng.uniform(-2.5, -0.05, size)
        by = "duration" if rng.random() < 0.5 else "speed"
        have = {k: rng.random() < 0.7 for k in ("time_transit", "impact_param", "radius_ratio")}
        t0 = rng.uniform(-2, 2, size) * P if have["time_transit"] else np.zeros(size)
        ror = 10 ** rng.uniform(-2, 0.3, size) if have["radius_ratio"] else np.zeros(size)
        b = (rng.uniform(-1, 1, size) * (1 + ror) * rng.choice([0.0, 0.95, 1.3])
             if have["impact_param"] else np.zeros(size))
        half = np.sqrt(np.maximum(0, (1 + ror) ** 2 - b**2))
        speed = 2 * half / dur
        if by == "speed":  # never a transit longer than the period
            speed = np.where(half > 0, speed, rng.uniform(2.1, 40, size) / P)
            dur = 2 * half / speed
            speed = np.asarray(speed)
        kw = {"period": P, by: dur if by == "duration" else speed}
        kw.update({k: v for k, v in (("time_transit", t0), ("impact_param", b),
                                     ("radius_ratio", ror)) if have[k]})
        style = it % 3
        units = dict(period="hour", duration="minute", speed="1 / hour", time_transit="year")
        if style:
            q = {}
            for k, v in kw.items():
                unit = units.get(k)
                if unit is None or (style == 2 and rng.random() < 0.5):
                    q[k] = v if style == 1 else v * api.ureg.dimensionless if unit is None \
                        else jnp.asarray(v)
                    continue
                fac = {"hour": 24.0, "minute": 1440.0, "1 / hour": 1 / 24, "year": 1 / 365.25}
                q[k] = (v * fac[unit]) * api.ureg(unit).units
        else:
            q = {k: (float(v) if n == 0 else v) for k, v in kw.items()}
        rule = "units" if style else "attributes"
        o = mon.call(rule, api.TransitOrbit, what=str(q), **q)
        tr = half > 0
        mon.case(P.tolist(), dur.tolist(), b.tolist(), by, nontrivial=bool(np.any(tr)))
        wit = dict(P=str(P), dur=str(dur), b=str(b), ror=str(ror), t0=str(t0), by=by)
        R = 64 * eps
        want = dict(period=P, duration=dur, speed=speed, time_transit=t0, impact_param=b,
                    radius_ratio=ror, radius=ror)
        dim = dict(period="day", duration="day", speed="1 / day", time_transit="day")
        # at grazing impact parameters the chord is badly conditioned
        chord = R * (1 + ((1 + ror) ** 2 + b**2) / np.maximum(np.abs((1 + ror) ** 2 - b**2), eps))
        for k, w in want.items():
            v = getattr(o, k)
            rt = chord if k in ("duration", "speed") else R
            r2 = rule if have.get(k, True) else "defaults"
            mon.close(r2, orb.mag(v) + 0 * w, w, atol=rt * np.abs(w) + R * 1e-3, attr=k, **wit)
            mon.check("units", str(v.units) == dim.get(k, "dimensionless"), f"{k}: {v.units}")
        mon.check("shape", tuple(o.shape) == size, f"{o.shape} {size}")
        mon.close("attributes", orb.mag(o.central_radius), np.ones(size), atol=0)
        mon.close("duration-speed", orb.mag(o.duration) * orb.mag(o.speed) + 0 * P, 2 * half,
                  atol=R * (1 + ror) + chord * half, **wit)
        if np.any(~tr):
            j = ~np.atleast_1d(tr)
            obs = orb.mag(o.speed if by == "duration" else o.duration) + 0 * P
            mon.close("no-transit", np.atleast_1d(obs)[j], np.zeros(j.sum()), atol=0, **wit)
        # observe at several times per planet
        for k in range(max(n, 1)):
            p, d, v, bb, rr, tt = (float(np.ravel(x)[k]) for x in (P, dur, speed, b, ror, t0))
            # the values the orbit stores, so that rounding of the inputs is not judged twice
            frac = np.concatenate([rng.uniform(-0.5, 0.5, 8), rng.uniform(-0.6, 0.6, 6) * d / p,
                                   [0.0, 0.4999, -0.4999], np.array([0.5, -0.5]) * d / p])
            m = rng.integers(-3, 4, frac.size)
            ts = tt + (m + frac) * p
            if n:
                got = [mon.call("position", o.relative_position, float(x)) for x in ts]
                xs = np.array([orb.mag(g) for g in got])  # (times, 3, n)
                mon.check("shape", xs.shape == (ts.size, 3, n), f"{xs.shape}")
                x, y, z = xs[:, 0, k], xs[:, 1, k], xs[:, 2, k]
            else:
                tq = ts.reshape(1, -1, 1) * 24 * api.ureg.hour if it % 2 else jnp.asarray(ts)
                g = mon.call("position", o.relative_position, tq)
                mon.check("shape", g[0].shape == tq.shape, f"{g[0].shape}")
                x, y, z = (np.ravel(orb.mag(c)) for c in g)
            for c in (got[0] if n else g):
                mon.check("units", str(c.units) == "dimensionless", str(c.units))
            dt = frac * p
            terr = 8 * eps * (np.abs(ts) + abs(tt) + 4 * p)
            ok = (0.5 - np.abs(frac)) * p > 10 * terr
            mon.close("position", x[ok], (v * dt)[ok],
                      atol=(v * terr + chord.ravel()[k] * v * np.abs(dt))[ok], t=ts[ok], **wit)
            mon.close("position", y, 0 * y + bb, atol=R * abs(bb), **wit)
            edge = np.abs(np.abs(dt) - d / 2) < 10 * terr + chord.ravel()[k] * d
            mon.all("in-front", ((z > 0) == (np.abs(dt) < d / 2))[~edge],
                    "wrong side of the star", t=ts[~edge], **wit)
            mon.all("in-front", np.isin(z, (-1.0, 1.0)), "z is not +-1", z=z)
            if d > 0 and v > 0:
                sep = np.hypot(x[-2:], y[-2:])
                mon.close("contact-separation", sep, 0 * sep + 1 + rr,
                          atol=v * terr[-2:] + chord.ravel()[k] * 4 * (1 + rr), **wit)
            if n == 0:
                s2 = o.relative_position(jnp.asarray(ts + 3 * p))[0]
                mon.close("periodicity", np.ravel(orb.mag(s2))[ok], x[ok],
                          atol=4 * v * terr[ok] + v * 16 * eps * p, t=ts[ok], **wit)
                dx = jax.vmap(jax.grad(lambda t, o=o: o.relative_position(t)[0].magnitude))(
                    jnp.asarray(ts[ok]))
                mon.close("velocity", np.asarray(dx), 0 * ts[ok] + v,
                          atol=(R + chord.ravel()[k]) * v, **wit)
        mon.sample(kw={k: np.asarray(v).tolist() for k, v in kw.items()})
    mon.rejects("rejects", lambda: api.TransitOrbit(period=1.0), (ValueError,),
                what="neither duration nor speed")
    mon.rejects("rejects", lambda: api.TransitOrbit(period=1.0 * api.ureg.m, speed=1.0),
                (Exception,), what="period in metres")
    mon.rejects("rejects", lambda: api.TransitOrbit(period=1.0, duration=1.0 * api.ureg.kg),
                (Exception,), what="duration in kg")


JOBS(shards=(2, 6), both=True)(orbits)


JOBS(shards=(1, 1))(whole.job(whole.transits))
