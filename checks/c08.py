"""C08: a system's light curve is the flux its own geometry implies, at every time."""

import numpy as np

from lib import api, ldref, orb, whole
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one system (0..6 bodies on Keplerian or transit-parametrised orbits, limb "
    "darkening of degree 0..4, optionally emitting bodies) observed at times concentrated on "
    "transits, eclipses and conjunctions. Non-trivial: at least one observed time is inside a "
    "transit or eclipse. Oracle: reference orbit plus ring quadrature of the hidden light."
)
ASSUMPTIONS = ["IAU 2015 nominal GM_sun and R_sun"]
REQUIRED = [
    "transit-flux", "eclipse-is-flat", "transit-orbit-flux", "shape", "time-units",
    "coefficient-packing", "emission-central", "emission-bodies", "order", "rejects",
    "time-scalar", "jit", "bodies-independent",
    "whole-numbers",
]


def make_bodies(rng, n, M, R, full, close=False):
    """Reference elements of n transiting bodies and their keyword arguments."""
    out = []
    for _ in range(n):
        P = float(10 ** rng.uniform(0, 1.6))
        m = float(rng.choice([0.0, 10 ** rng.uniform(-4, -0.3)]))
        e = float(rng.choice([0.0, rng.uniform(0, 0.7)]))
        w = float(rng.uniform(-np.pi, np.pi)) if e else 0.0
        T0 = float(rng.choice([0.0, rng.uniform(-1, 1) * P]))
        a = float(np.cbrt(orb.G * (M + m) * P**2 / (4 * np.pi**2)))
        r = float(R * 10 ** rng.uniform(-2, 0.3))
        if close:
            # so close that the discs overlap on both sides of the quadratures
            m, e, w = 0.0, 0.0, 0.0
            r = float(R * rng.uniform(0.2, 1.0))
            a = float(R * rng.uniform(0.7, 0.99) * (1 + r / R))
            P = float(2 * np.pi * np.sqrt(a**3 / (orb.G * M)))
            T0 = float(rng.uniform(-1, 1) * P)
        if a * (1 - e) < 1.5 * R:
            e, w = 0.0, 0.0
        b = float(rng.choice([0.0, rng.uniform(-1, 1) * (1 + 0.8 * r / R)]))
        cosi = b * R * (1 + e * np.sin(w)) / (a * (1 - e * e))
        if abs(cosi) > 1:
            b, cosi = 0.0, 0.0
        Om = float(rng.choice([0.0, rng.uniform(0, 2 * np.pi)]))
        tp = T0 + orb.t_peri_offset(P, e, np.sin(w), np.cos(w))
        ref = dict(P=P, a=a, e=e, w=w, i=float(np.arccos(cosi)), Om=Om, tp=float(tp))
        kw = dict(period=P, radius=r, time_transit=T0)
        if full or b or rng.random() < 0.5:
            kw["impact_param"] = b
        if full or m:
            kw["mass"] = m
        if full or e:
            kw.update(eccentricity=e, omega_peri=w)
        if full or Om:
            kw["asc_node"] = Om
        sup = tp - orb.t_peri_offset(P, e, np.sin(w + np.pi), np.cos(w + np.pi))
        dur = (R + r) / (2 * np.pi * a / P)
        out.append(dict(ref=ref, kw=kw, r=r, T0=T0, sup=float(sup), dur=dur))
    return out


def times(rng, bodies, n):
    ts = [rng.uniform(-30, 30, n)]
    for q in bodies:
        k = rng.integers(-3, 4, n) * q["ref"]["P"]
        ts.append(q["T0"] + k + rng.uniform(-1.3, 1.3, n) * q["dur"] / 2)
        ts.append(q["sup"] + k + rng.uniform(-1.3, 1.3, n) * q["dur"])
        ts.append(np.array([q["T0"], q["sup"], q["T0"] + q["ref"]["P"]]))
    return np.concatenate(ts)


def geometry(q, t, R):
    pos, _ = orb.state(t, **q["ref"])
    return np.hypot(pos[0], pos[1]), pos[2]


def pack(rng, u):
    """The same coefficients as separate arguments, one array, or a mixture."""
    k = int(rng.integers(3))
    if len(u) == 0:
        return ()
    if k == 0:
        return tuple(float(x) for x in u)
    if k == 1:
        return (np.asarray(u),)
    return (float(u[0]), np.asarray(u[1:])) if len(u) > 1 else ([float(u[0])],)


def close_flux(mon, rule, got, want, ld, sep, rr, zz, order=10, extra=0.0, **w):
    """Observations within rounding of z = 0 or of a contact with infinite slope are kept:
    the flux is continuous there to the tolerance unless the sign of z flips it."""
    S = np.maximum(1.0, ldref.scale(ld) / 4)
    tol = S * np.minimum(1, rr) * (2e-6 if order == 10 else 1e-9) + 3e-10 * S + extra
    tol = tol * np.ones_like(want)
    flip = np.abs(zz) < 1e-9 * (1 + np.abs(sep))
    tol = np.where(flip & (sep < 1 + rr), 3.0, tol)
    mon.close(rule, got, want, atol=tol, **w)


def keplerian(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    for it in range(ctx.n(6, 60)):
        n = [1, 2, 3, 6, 4][it % 5]
        full = bool(it % 2)
        M, R = float(rng.uniform(0.3, 2)), float(rng.uniform(0.3, 2))
        close = it % 6 == 4
        q = make_bodies(rng, n, M, R, full, close)
        u = ldref.profile(rng, int(rng.integers(0, 5)))
        s = api.System(api.Central(mass=M, radius=R))
        for x in q:
            s = s.add_body(**x["kw"])
        t = times(rng, q, 40)
        order = 10 if it % 3 else 100
        uk = pack(rng, u)
        f = (api.limb_dark_light_curve(s, *uk) if order == 10 else
             api.limb_dark_light_curve(s, *uk, order=order))
        got = np.asarray(mon.call("transit-flux", f, jnp.asarray(t)))
        mon.check("shape", got.shape == (t.size, n), f"{got.shape}")
        hit = False
        for k, x in enumerate(q):
            d, z = geometry(x, t, R)
            b, r = d / R, x["r"] / R
            blk = ldref.blocked(u, b, r)
            want = np.where(z > 0, -blk, 0.0)
            hit |= bool((want < 0).any())
            w = dict(t=t, b=b, z=z, body=str(x["kw"]), u=u, R=R)
            close_flux(mon, "transit-flux", got[:, k], want, u, b, r, z, order, **w)
            beh = (z < -1e-6) & (b < 1 + r)
            mon.fact("behind", int(beh.sum()))
            mon.fact("in-front", int(((z > 0) & (b < 1 + r)).sum()))
            mon.close("eclipse-is-flat", got[beh, k], 0 * got[beh, k], atol=1e-13, t=t[beh],
                      body=str(x["kw"]))
            # a body's curve doesn't depend on its companions
            one = api.limb_dark_light_curve(
                api.System(api.Central(mass=M, radius=R)).add_body(**x["kw"]), *uk, order=order)
            mon.close("bodies-independent", np.asarray(one(jnp.asarray(t[:50])))[:, 0],
                      got[:50, k], atol=1e-11, body=str(x["kw"]))
            if order != 10:
                mon.close("order", got[:, k], np.asarray(
                    api.limb_dark_light_curve(s, *uk)(jnp.asarray(t)))[:, k],
                    atol=4e-6 * np.maximum(1, ldref.scale(u) / 4))
        mon.case("kepler", q[0]["kw"], R, u.tolist(), nontrivial=hit)
        mon.sample(body=q[0]["kw"], R=R, u=u)
        # every way to pass the coefficients and the time means the same
        for alt in (tuple(u), (u,), (u[:1], u[1:]), (list(u),)):
            if len(u) and all(np.size(v) for v in alt):
                g = mon.call("coefficient-packing", api.limb_dark_light_curve(
                    s, *alt, order=order), jnp.asarray(t[:40]))
                mon.close("coefficient-packing", np.asarray(g), got[:40], atol=1e-14)
        day = api.ureg.day
        for tt in (jnp.asarray(t) * day, (jnp.asarray(t) * 24) * api.ureg.hour,
                   (jnp.asarray(t) / 365.25) * api.ureg.year):
            g = mon.call("time-units", f, tt)
            mon.close("time-units", np.asarray(g), got, atol=3e-9 * np.maximum(
                1, ldref.scale(u)), unit=str(tt.units))
        g = mon.call("shape", f, jnp.asarray(t[:24]).reshape(2, 3, 4))
        mon.close("shape", np.asarray(g), got[:24].reshape(2, 3, 4, n), atol=1e-12)
        for j in (0, -1, -3):
            g = mon.call("time-scalar", f, float(t[j]))
            mon.close("time-scalar", np.asarray(g), got[j], atol=1e-12)
        g = mon.call("jit", jax.jit(f), jnp.asarray(t))
        mon.close("jit", np.asarray(g), got, atol=1e-9)
    mon.rejects("rejects", lambda: f(1.0 * api.ureg.meter), (Exception,), what="time in metres")


def transit(mon, rng, ctx):
    import jax.numpy as jnp

    f32 = jnp.zeros(1).dtype == jnp.float32
    for it in range(ctx.n(10, 80)):
        n = [0, 1, 3][it % 3]  # 0: scalar parameters
        size = () if n == 0 else (n,)
        P = rng.uniform(1, 20, size)
        dur = P * rng.uniform(0.01, 0.2, size)
        ror = 10 ** rng.uniform(-2, 0.3, size)
        b = rng.uniform(-1, 1, size) * (1 + 0.9 * ror)
        if it % 4 == 0:
            b = 0 * b
        t0 = rng.choice([0.0, 1.0], size) * rng.uniform(-5, 5, size)
        u = ldref.profile(rng, int(rng.integers(0, 4)))
        half = np.sqrt((1 + ror) ** 2 - b * b)
        speed = 2 * half / dur
        kw = dict(period=P, time_transit=t0, impact_param=b, radius_ratio=ror)
        kw["duration" if it % 2 else "speed"] = dur if it % 2 else speed
        o = mon.call("transit-orbit-flux", api.TransitOrbit, **kw)
        f = api.limb_dark_light_curve(o, *pack(rng, u))
        near = (np.ravel(t0)[:, None] + np.ravel(P)[:, None] * rng.integers(-2, 3, 60)
                + np.ravel(dur)[:, None] * rng.uniform(-0.7, 0.7, 60)).ravel()
        t = np.concatenate([near, np.ravel(t0), rng.uniform(-20, 20, 30)])
        got = np.asarray(mon.call("transit-orbit-flux", f, jnp.asarray(t)))
        mon.check("shape", got.shape == t.shape + size, f"{got.shape}")
        mon.case("transit", P.tolist(), ror.tolist(), b.tolist())
        got = got.reshape(t.size, -1)
        for k in range(max(n, 1)):
            p, d, rr, bb, tt, v = (np.ravel(x)[k] for x in (P, dur, ror, b, t0, speed))
            dt = np.mod(t - tt + p / 2, p) - p / 2
            sep = np.hypot(v * dt, bb)
            want = np.where(np.abs(dt) < d / 2, -ldref.blocked(u, sep, rr), 0.0)
            # |dt| = duration / 2 is a contact: the flux is continuous there
            S = np.maximum(1.0, ldref.scale(u) / 4)
            tol = S * min(1, rr) * 2e-6 + 1e-9 * S
            if f32:
                # single precision times: slope times their rounding
                tol = S * (1e-5 + 8 * rr * v * 1.2e-7 * (np.abs(t).max() + p))
                # close to +-duration/2 the rounding of the contact matters as its root
                tol = tol + np.where(np.abs(np.abs(dt) - d / 2) < 1e-4 * d, 1e-3 * rr, 0)
            mon.close("transit-orbit-flux", got[:, k], want, atol=tol, t=t, b=sep, r=rr, u=u)


def emission(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    for it in range(ctx.n(6, 60)):
        n = [1, 2, 3][it % 3]
        M, R = float(rng.uniform(0.3, 2)), float(rng.uniform(0.3, 2))
        q = make_bodies(rng, n, M, R, bool(it % 2), it % 6 == 4)
        u = ldref.profile(rng, int(rng.integers(0, 4)))
        A = float(rng.choice([1.0, 10 ** rng.uniform(-2, 2)]))
        s = api.SurfaceSystem(api.Central(mass=M, radius=R),
                              api.Surface(u=tuple(u), amplitude=A, normalize=False))
        surf = []
        for x in q:
            v = ldref.profile(rng, int(rng.integers(0, 3)))
            amp = float(10 ** rng.uniform(-3, 1))
            present = rng.random() < 0.8
            surf.append((v, amp) if present else None)
            s = s.add_body(**x["kw"], surface=api.Surface(
                u=tuple(v), amplitude=amp, normalize=False) if present else None)
        t = times(rng, q, 30)
        f = api.emission_light_curve(s)
        got = np.asarray(mon.call("emission-central", f, jnp.asarray(t)))
        if not mon.check("shape", got.shape == (t.size, n + 1), f"{got.shape}"):
            continue
        cen = np.ones(t.size)
        tolc = 1e-9
        flip = np.zeros(t.size, bool)
        for k, x in enumerate(q):
            d, z = geometry(x, t, R)
            r = x["r"] / R
            cen -= np.where(z > 0, ldref.blocked(u, d / R, r), 0.0)
            tolc += 2e-6 * np.maximum(1, ldref.scale(u) / 4) * min(1, r) + 1e-9
            near = (np.abs(z) < 1e-8) & (d < R + x["r"])
            flip |= near
            if surf[k] is None:
                want, tol = 0 * t, 1e-300
            else:
                v, amp = surf[k]
                blk = ldref.blocked(v, d / x["r"], R / x["r"])
                want = amp * (1 - np.where(z < 0, blk, 0.0))
                rb = R / x["r"]
                S = np.maximum(1, ldref.scale(v) / 4)
                tol = amp * S * (2e-6 * min(1, rb) + 1e-15 * rb**4 + 1e-9 * rb)
                mon.fact("eclipsed", int(((z < 0) & (blk > 0)).sum()))
            mon.close("emission-bodies", got[~near, k + 1], want[~near], atol=tol,
                      t=t[~near], body=str(x["kw"]), surface=str(surf[k]), R=R)
        mon.close("emission-central", got[~flip, 0], A * cen[~flip], atol=A * tolc, t=t[~flip],
                  bodies=str([x["kw"] for x in q]), u=u, A=A, R=R)
        mon.case("emission", q[0]["kw"], R, A, nontrivial=bool((cen < 1).any()))
        g = mon.call("time-units", f, jnp.asarray(t) * 24 * api.ureg.hour)
        mon.close("time-units", np.asarray(g), got, atol=1e-8 * np.abs(got).max())
        g = mon.call("time-scalar", f, float(t[-1]))
        mon.close("time-scalar", np.asarray(g), got[-1], atol=1e-12 * np.abs(got).max())
        g = mon.call("jit", jax.jit(f), jnp.asarray(t))
        mon.close("jit", np.asarray(g), got, atol=1e-9 * np.abs(got).max())


JOBS(shards=(3, 8))(keplerian)
JOBS(shards=(1, 2), both=True)(transit)
JOBS(shards=(2, 6))(emission)


JOBS(shards=(1, 1))(whole.job(whole.curves))
