"""C02: the positions and velocities of a two-body orbit obey Newtonian dynamics."""

import numpy as np

from lib import api, orb
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one massive two-body system (random masses, period or semi-major axis, "
    "eccentricity 0..0.95, argument of periastron incl. exact multiples of pi/2, "
    "inclination, node, epoch) observed at 24 times over several orbits. Non-trivial: "
    "e > 0. Oracles: closed-form orbit in extended precision, numerical time derivative of "
    "the observed positions, and conservation laws of the observed trajectory."
)
ASSUMPTIONS = ["IAU 2015 nominal GM_sun and R_sun"]
REQUIRED = [
    "kepler-third-law", "position", "velocity", "barycentre", "momentum",
    "relative-is-difference", "velocity-is-derivative", "energy", "angular-momentum",
    "eccentricity-vector", "newton-second-law", "separation-range", "periodicity",
    "angles", "parallax", "units",
]


def setup(combo):
    import jax

    names = sorted(orb.kwargs(orb.draw(np.random.default_rng(0), 1),
                              orb.canonical(orb.draw(np.random.default_rng(0), 1), combo),
                              combo))

    def build(M, R, kw):
        central = api.Central(mass=M, radius=R)
        return api.System(central).add_body(**kw).bodies[0]

    def observe(M, R, kw, t):
        b = build(M, R, kw)
        out = {}
        for name in ("position", "central_position", "relative_position", "velocity",
                     "central_velocity", "relative_velocity"):
            out[name] = tuple(x.magnitude for x in getattr(b, name)(t))
        out["angles"] = tuple(x.magnitude for x in b.relative_angles(t))
        out["a"] = b.semimajor.magnitude
        out["P"] = b.period.magnitude
        return out

    def acc(M, R, kw, t):
        b = build(M, R, kw)

        def pos(s):
            return tuple(x.magnitude for x in b.relative_position(s))

        def vel(s):
            return jax.jvp(pos, (s,), (s * 0 + 1,))[1]

        v, a = jax.jvp(vel, (t,), (t * 0 + 1,))
        return v, a

    f = jax.jit(jax.vmap(observe, in_axes=(0, 0, 0, 0)))
    g = jax.jit(jax.vmap(jax.vmap(acc, in_axes=(None, None, None, 0))))
    return names, f, g


def dynamics(mon, rng, ctx):
    import jax

    x64 = jax.config.jax_enable_x64
    dt = np.float64 if x64 else np.float32
    eps = float(np.finfo(dt).eps)
    combos = [dict(c, mass="mass") for c in orb.all_combos() if c["mass"] == "mass"]
    rng0 = np.random.default_rng([mon.seed, 77])
    order = rng0.permutation(len(combos))
    pick = [combos[i] for i in order[: ctx.n(24, 81)]]
    # the most general and the simplest ones are always included
    pick = [
        dict(time="transit", size="period", inc="inclination", ecc="omega", node="node",
             mass="mass"),
        dict(time="peri", size="semimajor", inc="impact", ecc="sincos", node="sincos",
             mass="mass"),
        dict(time="none", size="period", inc="none", ecc="none", node="none", mass="mass"),
    ] + pick
    for combo in ctx.mine(pick):
        mon.part(_one, mon, rng, ctx, combo, dt, eps)


def _one(mon, rng, ctx, combo, dt, eps):
    n, nt = ctx.n(400, 4000), 24
    p = orb.draw(rng, n, emax=0.95 if dt == np.float64 else 0.7)
    c = orb.canonical(p, combo)
    kw = orb.kwargs(p, c, combo)
    t = c["T0"][:, None] + rng.uniform(-3, 3, (n, nt)) * c["P"][:, None]
    t[:, 0] = c["T0"]
    t[:, 1] = c["tp"]
    cast = lambda x: np.asarray(x, dt)  # noqa: E731
    kwd = {k: cast(v) for k, v in kw.items()}
    t = cast(t).astype(float)
    names, f, g = setup(combo)
    mon.cases_from(p["P"], p["e"], p["w"], nontrivial=c["e"] > 0)
    mon.fact("combos_" + ("f64" if dt == np.float64 else "f32"))
    out = mon.call("position", f, cast(p["M"]), cast(p["R"]), kwd, cast(t), what=str(combo))
    out = {k: np.asarray(v, float) for k, v in out.items()}
    wit = dict(e=c["e"], w=c["w"], P=c["P"], M=c["M"], m=c["m"], i=c["i"], combo=str(combo))

    mon.close("kepler-third-law", out["a"], c["a"], rtol=1e-7 + 20 * eps, **wit)
    mon.close("kepler-third-law", out["P"], c["P"], rtol=1e-7 + 20 * eps, **wit)
    # from here on the scale is the reported one, so that only the shape is judged
    a, P = out["a"], out["P"]
    col = lambda x: x[:, None]  # noqa: E731
    e = c["e"]
    # reference epoch consistent with the reported period
    if combo["time"] == "peri":
        tp = c["tp"]
    else:
        tp = c["T0"] + orb.t_peri_offset(P, e, np.sin(c["w"]), np.cos(c["w"]))
    inc = c["i"]
    if combo["inc"] == "impact":
        cosi = c["b"] * p["R"] / a * (1 + e * np.sin(c["w"])) / (1 - e**2)
        inc = np.arccos(np.clip(cosi, -1, 1))
    pos, vel = orb.state(t, col(P), col(a), col(e), col(c["w"]), col(inc), col(c["Om"]),
                         col(tp))
    # conditioning: phase error (rounding of t, epochs and the mean anomaly) times speed
    phase = eps * (np.abs(t) + np.abs(col(tp)) + np.abs(col(c["T0"])) + 4 * col(P)) / col(P)
    rp = 1 - e
    si = np.maximum(np.abs(np.sin(inc)), 1e-3)
    # impact parameter -> inclination loses accuracy close to face-on
    incerr = eps * (8 / si if combo["inc"] == "impact" else 8)
    vmax = 2 * np.pi * a / P * np.sqrt((1 + e) / (1 - e))
    amax = (2 * np.pi / P) ** 2 * a / rp**2
    atol_p = 16 * (phase * col(vmax * P) + col(a * 2 * (incerr + eps / (1 - e))))
    atol_v = 16 * (phase * col(amax * P) + col(vmax * (incerr + 6 * eps / (1 - e))))
    wit2 = dict(wit, t=t)
    M, m = col(p["M"]), col(c["m"])
    tot = M + m
    rel = out["relative_position"]
    for k in range(3):
        mon.close("position", rel[k], pos[k], atol=atol_p, component="xyz"[k], **wit2)
        mon.close("velocity", out["relative_velocity"][k], vel[k], atol=atol_v,
                  component="xyz"[k], **wit2)
        mon.close("barycentre", (M * out["central_position"][k]
                  + m * out["position"][k]) / tot, 0 * pos[k],
                  atol=32 * eps * col(a * 2), component="xyz"[k], **wit2)
        mon.close("momentum", (M * out["central_velocity"][k]
                  + m * out["velocity"][k]) / tot, 0 * vel[k],
                  atol=32 * eps * col(vmax), component="xyz"[k], **wit2)
        mon.close("relative-is-difference",
                  out["position"][k] - out["central_position"][k], rel[k],
                  atol=32 * eps * col(a * 2), component="xyz"[k], **wit2)
        mon.close("relative-is-difference",
                  out["velocity"][k] - out["central_velocity"][k],
                  out["relative_velocity"][k],
                  atol=32 * eps * col(vmax), component="xyz"[k], **wit2)
        # the split between both bodies, judged separately from the relative orbit
        mon.close("position", out["position"][k], pos[k] * M / tot, atol=atol_p, **wit2)
        mon.close("velocity", out["velocity"][k], vel[k] * M / tot, atol=atol_v, **wit2)
        mon.close("velocity", out["central_velocity"][k], -vel[k] * m / tot, atol=atol_v,
                  **wit2)

    # conservation laws of the observed relative trajectory
    v = out["relative_velocity"]
    mu = col((2 * np.pi / P) ** 2 * a**3)
    r = np.sqrt((rel**2).sum(0))
    v2 = (v**2).sum(0)
    escale = mu / col(a * rp)
    mon.close("energy", v2 / 2 - mu / r, np.broadcast_to(-mu / (2 * col(a)), r.shape),
              atol=200 * eps * escale / col(rp), **wit2)
    h = np.cross(rel, v, axis=0)
    hn = np.sqrt(mu[:, 0] * a * (1 - e**2))
    # orientation of the orbit: the body passes the node moving away from the observer
    want = [-np.sin(inc) * np.sin(c["Om"]), np.sin(inc) * np.cos(c["Om"]), np.cos(inc)]
    sign = np.array([-1, 1, 1])[:, None]
    want = -np.array([want[0], want[1], want[2]]) * sign * -1
    ref_h = np.cross(pos, vel, axis=0)[:, :, 0] / hn
    for k in range(3):
        mon.close("angular-momentum", h[k] / col(hn), np.broadcast_to(col(ref_h[k]), r.shape),
                  atol=col(200 * (eps / rp**2 + incerr)), component="xyz"[k], **wit2)
    mon.close("angular-momentum", np.sqrt((h**2).sum(0)), np.broadcast_to(col(hn), r.shape),
              atol=200 * eps * col(hn / rp**2), **wit2)
    lrl = np.cross(v, h, axis=0) / mu - rel / r
    mon.close("eccentricity-vector", np.sqrt((lrl**2).sum(0)),
              np.broadcast_to(col(e), r.shape), atol=400 * eps / col(rp) ** 2, **wit2)
    if dt == np.float64:
        for k in range(3):
            mon.close("eccentricity-vector", lrl[k], np.broadcast_to(lrl[k][:, 1:2], r.shape),
                      atol=col(400 * (eps / rp**2 + incerr)), **wit2)
    mon.all("separation-range", (r >= col(a * rp) * (1 - 400 * eps / col(rp)))
            & (r <= col(a * (1 + e)) * (1 + 400 * eps)), "r outside [a(1-e), a(1+e)]", **wit2)
    mon.close("separation-range", r[:, 1], a * rp, atol=a * (3000 * eps + 4 * (
        phase[:, 1] * 6.3) ** 2 / rp**2 + 16 * phase[:, 1] * np.sqrt((1 + e) / rp) * (
            combo["time"] != "peri")), **wit)

    # sky-plane separation and position angle
    rho, th = out["angles"]
    mon.close("angles", rho * np.cos(th), rel[0], atol=32 * eps * col(2 * a), **wit2)
    mon.close("angles", rho * np.sin(th), rel[1], atol=32 * eps * col(2 * a), **wit2)

    # time derivative: automatic (of the code under test) ...
    sub = slice(0, ctx.n(60, 400))
    va, aa = mon.call("newton-second-law", g, cast(p["M"])[sub], cast(p["R"])[sub],
                      {k: x[sub] for k, x in kwd.items()}, cast(t)[sub], what=str(combo))
    w3 = {k: (x[sub] if np.ndim(x) else x) for k, x in wit2.items()}
    pa = (2 * np.pi / P) ** 2 * a / rp**2
    for k in range(3):
        mon.close("velocity-is-derivative", np.asarray(va[k], float), v[k][sub],
                  atol=(atol_v + 64 * eps * col(vmax / rp))[sub], **w3)
        mon.close("newton-second-law", np.asarray(aa[k], float),
                  (-mu * rel[k] / r**3)[sub],
                  atol=(200 * (phase * 6.3 + eps) * col(pa / rp**1.5) + 200 * col(
                      eps * pa / rp + incerr * pa))[sub], **w3)
    # ... and numerical, which does not trust any derivative rule
    if dt == np.float64:
        s = 2e-4 * (rp**1.5)[:, None] * col(P)
        tt = np.concatenate([t + j * s for j in (-2, -1, 1, 2)], axis=1)
        o2 = mon.call("velocity-is-derivative", f, p["M"], p["R"], kwd, tt)
        q = np.asarray(o2["relative_position"]).reshape(3, n, 4, nt)
        s_ = s
        fd = (q[:, :, 0] - 8 * q[:, :, 1] + 8 * q[:, :, 2] - q[:, :, 3]) / (12 * s_)
        for k in range(3):
            mon.close("velocity-is-derivative", v[k], fd[k],
                      atol=col(vmax) * 1e-6 + atol_p / s_ * 2, **wit2)
        # one revolution later the system is in the same state
        o3 = mon.call("periodicity", f, p["M"], p["R"], kwd, t + col(P))
        for k in range(3):
            mon.close("periodicity", np.asarray(o3["position"][k]), out["position"][k],
                      atol=2 * atol_p, **wit2)
            mon.close("periodicity", np.asarray(o3["velocity"][k]), out["velocity"][k],
                      atol=2 * atol_v, **wit2)
    mon.sample(combo=combo, e=e[0], P=P[0], t=t[0, 2], r=rel[:, 0, 2], v=v[:, 0, 2])


def eager(mon, rng, ctx):
    """Plain calls with quantities: units of the outputs and the parallax scaling."""
    from lib.api import ureg

    u = ureg
    for i in range(ctx.n(6, 60)):
        p = {k: v[0] for k, v in orb.draw(rng, 1).items()}
        combo = dict(time="transit", size="period", inc="inclination",
                     ecc=("none", "omega")[i % 2], node=("none", "node")[(i // 2) % 2],
                     mass="mass")
        c = orb.canonical(p, combo)
        kw = orb.kwargs(p, c, combo)
        central = api.Central(mass=p["M"] * u.M_sun, radius=p["R"] * u.R_sun)
        b = api.System(central).add_body(**kw).bodies[0]
        t = c["T0"] + np.linspace(-1, 1, 7) * c["P"]
        mon.case(i, p["P"], p["e"])
        base = {}
        for name, unit in {
            "position": u.R_sun, "central_position": u.R_sun, "relative_position": u.R_sun,
            "velocity": u.R_sun / u.day, "central_velocity": u.R_sun / u.day,
            "relative_velocity": u.R_sun / u.day,
        }.items():
            val = mon.call("units", getattr(b, name), t * u.day, what=name)
            for x in val:
                mon.check("units", getattr(x, "units", None) == unit,
                          f"{name} has units {getattr(x, 'units', None)}, expected {unit}")
            base[name] = orb.mag(val)
            # plain numbers are days
            mon.close("units", orb.mag(mon.call("units", getattr(b, name), t)), base[name],
                      rtol=1e-14, atol=1e-300)
            hrs = mon.call("units", getattr(b, name), (t * 24) * u.hour)
            mon.close("units", orb.mag(hrs), base[name], atol=1e-9 * np.abs(base[name]).max())
        plx = float(10 ** rng.uniform(-3, 0))
        for name in ("position", "central_position", "relative_position"):
            got = mon.call("parallax", getattr(b, name), t, parallax=plx * u.arcsec)
            for x in got:
                mon.check("parallax", x.units == u.arcsec, f"{name} in {x.units}")
            mon.close("parallax", orb.mag(got), base[name] * orb.R_SUN_AU * plx,
                      rtol=1e-7, atol=1e-12 * plx, plx=plx)
            got = mon.call("parallax", getattr(b, name), t,
                           parallax=plx * 1000 * u.milliarcsecond)
            mon.close("parallax", orb.mag(got), base[name] * orb.R_SUN_AU * plx,
                      rtol=1e-7, atol=1e-12 * plx, plx=plx)
        # stored on the body: positions and velocities are then angular
        bp = api.System(central).add_body(**kw, parallax=plx).bodies[0]
        for name in base:
            got = mon.call("parallax", getattr(bp, name), t)
            mon.close("parallax", orb.mag(got), base[name] * orb.R_SUN_AU * plx,
                      rtol=1e-7, atol=1e-12 * plx * np.abs(base[name]).max(), plx=plx,
                      what=name)
        rho, th = mon.call("parallax", b.relative_angles, t, parallax=plx)
        x, y = base["relative_position"][:2] * orb.R_SUN_AU * plx
        mon.close("parallax", orb.mag(rho), np.hypot(x, y), rtol=1e-7)
        mon.close("angles", np.sin(orb.mag(th) - np.arctan2(y, x)), 0 * x, atol=1e-9)


JOBS(both=True, shards=(3, 8))(dynamics)
JOBS(x64=True, shards=(1, 2))(eager)
