"""C03: every accepted parametrisation describes the documented orbit; others are refused."""

import numpy as np

from lib import api, orb, whole
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one orbit written in one of the 324 accepted parametrisations (epoch of "
    "transit / periastron / default; period / semi-major axis; inclination / impact "
    "parameter / edge-on; circular / omega / its sine and cosine; node likewise; with and "
    "without mass), plain or in randomly chosen compatible units. Non-trivial: e > 0 or "
    "inclined. Oracle: closed-form reference orbit built from the physical elements."
)
ASSUMPTIONS = ["IAU 2015 nominal GM_sun and R_sun"]
REQUIRED = [
    "position", "conjunction-in-front", "conjunction-separation", "periastron-distance",
    "attr-inclination", "attr-impact", "attr-omega", "attr-time-peri", "attr-time-transit",
    "attr-period", "attr-semimajor", "rejects-invalid", "central-density", "third-law",
    "rejects-array", "default-central",
    "whole-numbers",
]


def ang_close(mon, rule, got, want, atol, **w):
    d = np.asarray(got, float) - np.asarray(want, float)
    mon.close(rule, np.remainder(d + np.pi, 2 * np.pi) - np.pi, 0 * d, atol=atol, **w)


def tolerances(c, inc, P, a, t, eps, combo):
    e = c["e"]
    col = lambda x: np.asarray(x)[..., None]  # noqa: E731
    phase = eps * (np.abs(t) + np.abs(col(c["tp"])) + np.abs(col(c["T0"])) + 4 * col(P)) / col(P)
    si = np.maximum(np.abs(np.sin(inc)), 1e-3)
    incerr = eps * (8 / si if combo["inc"] == "impact" else 8)
    vmax = 2 * np.pi * a * np.sqrt((1 + e) / (1 - e))
    return 16 * (phase * col(vmax) + col(a * 2 * (incerr + eps / (1 - e)))), incerr


def judge(mon, combo, p, c, out, t, eps, **w):
    """Compare one batch of observed bodies with the reference orbit."""
    e, P, a = c["e"], c["P"], c["a"]
    cosi = np.cos(c["i"])
    inc = c["i"]
    atol, incerr = tolerances(c, inc, P, a, t, eps, combo)
    col = lambda x: np.asarray(x)[..., None]  # noqa: E731
    w = dict(w, combo=str(combo), e=e, w=c["w"], i=inc, P=P, m=c["m"], M=c["M"])
    mon.close("attr-period", out["P"], P, rtol=1e-9 + 20 * eps, **w)
    mon.close("attr-semimajor", out["a"], a, rtol=1e-9 + 20 * eps, **w)
    # the sign convention of the body sits in front (z > 0) at the time of transit
    ang_close(mon, "attr-inclination", out["inc"], inc, 4 * incerr + 1e-9 * (
        combo["inc"] == "impact") / np.maximum(np.abs(np.sin(inc)), 1e-3), **w)
    with np.errstate(all="ignore"):
        b = c["b"]
        mon.close("attr-impact", out["b"], b if combo["inc"] != "none" else 0 * b,
                  atol=np.abs(a / p["R"] / (1 - e)) * 40 * eps + 1e-9 * np.abs(b), **w)
    if combo["ecc"] != "none":
        ang_close(mon, "attr-omega", out["omega"], c["w"], 8 * eps * (1 + np.abs(c["w"])), **w)
    terr = 64 * eps * (np.abs(c["T0"]) + np.abs(c["tp"]) + P / np.sqrt(1 - e)) + 1e-9 * P
    # an epoch that was given is reported as such; a derived one is defined modulo P
    for rule, key, given in (("attr-time-transit", "T0", "transit"),
                             ("attr-time-peri", "tp", "peri")):
        d = out[key] - c[key]
        if combo["time"] != given:
            d = d - P * np.round(d / P)
        mon.close(rule, d, 0 * d, atol=terr, **w)
    pos, _ = orb.state(t, col(P), col(a), col(e), col(c["w"]), col(inc), col(c["Om"]),
                       col(c["tp"]))
    for k in range(3):
        mon.close("position", out["pos"][k], pos[k],
                  atol=atol + 1e-8 * np.abs(a)[..., None] / (1 - col(e)), component="xyz"[k],
                  t=t, **w)
    # geometry at the reference epochs that the object itself reports
    x, y, z = out["pos_T0"]
    r = a * (1 - e * e) / (1 + e * np.sin(c["w"]))
    atol0 = atol[..., 0] + 1e-9 * a
    mon.close("conjunction-separation", np.hypot(x, y), np.abs(r * cosi),
              atol=atol0 / np.sqrt(1 - e), **w)
    mon.close("conjunction-separation", np.hypot(x, y), np.abs(out["b"]) * p["R"],
              atol=atol0 / np.sqrt(1 - e), **w)
    mon.close("conjunction-in-front", z, r * np.sin(inc), atol=atol0 / np.sqrt(1 - e), **w)
    d = np.sqrt(sum(q * q for q in out["pos_tp"]))
    mon.close("periastron-distance", d, a * (1 - e), atol=atol0, **w)


def build(M, R, kw):
    central = api.Central(mass=M, radius=R)
    return api.System(central).add_body(**kw).bodies[0]


def observe(b, t):
    m = lambda q: q.magnitude  # noqa: E731
    out = dict(P=m(b.period), a=m(b.semimajor), inc=m(b.inclination), b=m(b.impact_param),
               T0=m(b.time_transit), tp=m(b.time_peri),
               pos=tuple(map(m, b.relative_position(t))),
               pos_T0=tuple(map(m, b.relative_position(b.time_transit))),
               pos_tp=tuple(map(m, b.relative_position(b.time_peri))))
    if b.omega_peri is not None:
        out["omega"] = m(b.omega_peri)
    return out


def batched(mon, rng, ctx):
    import jax

    x64 = jax.config.jax_enable_x64
    dt = np.float64 if x64 else np.float32
    eps = float(np.finfo(dt).eps)
    combos = orb.all_combos()
    order = np.random.default_rng([mon.seed, 31]).permutation(len(combos))
    pick = [combos[i] for i in order[: ctx.n(54, 324)]]
    f = jax.jit(jax.vmap(lambda M, R, kw, t: observe(build(M, R, kw), t)))
    for combo in ctx.mine(pick):
        n, nt = ctx.n(300, 2000), 5
        p = orb.draw(rng, n, emax=0.97 if x64 else 0.7)
        c = orb.canonical(p, combo)
        kw = orb.kwargs(p, c, combo)
        t = c["T0"][:, None] + rng.uniform(-2, 2, (n, nt)) * c["P"][:, None]
        t = t.astype(dt).astype(float)
        mon.cases_from(p["P"], p["e"], p["i"], nontrivial=(c["e"] > 0) | (combo["inc"] != "none"))
        mon.fact("parametrisations")
        cast = lambda x: np.asarray(x, dt)  # noqa: E731
        out = mon.part(mon.call, "position", f, cast(p["M"]), cast(p["R"]),
                       {k: cast(v) for k, v in kw.items()}, cast(t), what=str(combo))
        if out is None:
            continue
        out = jax.tree_util.tree_map(lambda x: np.asarray(x, float), out)
        mon.part(judge, mon, combo, p, c, out, t, eps)
        mon.sample(combo=combo, P=c["P"][0], e=c["e"][0], b=out["b"][0])


UNITS = {
    "time_transit": ("day", "hour", "second"), "time_peri": ("day", "minute"),
    "period": ("day", "hour", "year"), "semimajor": ("R_sun", "au", "km"),
    "inclination": ("radian", "degree"), "impact_param": ("dimensionless",),
    "eccentricity": ("dimensionless",), "omega_peri": ("radian", "degree"),
    "asc_node": ("radian", "degree"), "mass": ("M_sun", "M_jupiter", "kg"),
    "radius": ("R_sun", "R_earth", "m"),
}
BASE = {
    "time_transit": "day", "time_peri": "day", "period": "day", "semimajor": "R_sun",
    "inclination": "radian", "impact_param": "dimensionless",
    "eccentricity": "dimensionless", "omega_peri": "radian", "asc_node": "radian",
    "mass": "M_sun", "radius": "R_sun",
}


def eager(mon, rng, ctx):
    """All parametrisations, outside of any transformation, in mixed units."""
    u = api.ureg
    for combo in ctx.mine(orb.all_combos() * ctx.n(1, 6)):
        p = {k: v[0] for k, v in orb.draw(rng, 1, emax=0.95).items()}
        c = orb.canonical(p, combo)
        kw = {}
        for k, v in orb.kwargs(p, c, combo).items():
            names = UNITS.get(k, ("dimensionless",))
            q = (v * u(BASE.get(k, "dimensionless")).units)
            unit = names[int(rng.integers(len(names)))]
            style = rng.integers(3)
            kw[k] = float(v) if style == 0 else q.to(unit)
        M, R = p["M"] * u.M_sun, p["R"] * u.R_sun
        style = int(rng.integers(4))
        rho = 3 * p["M"] / (4 * np.pi * p["R"] ** 3)
        if style == 0:
            central = dict(mass=M.to("kg"), radius=R.to("km"))
        elif style == 1:
            central = dict(mass=p["M"], density=rho)
        elif style == 2:
            central = dict(density=(rho * u.M_sun / u.R_sun**3).to("g/cm^3"), radius=p["R"])
        else:
            central = dict(mass=p["M"], radius=p["R"])
        t = c["T0"] + rng.uniform(-2, 2, 5) * c["P"]
        mon.case(str(combo), p["P"], p["e"], nontrivial=combo["ecc"] != "none"
                 or combo["inc"] != "none")

        def go(central=central, kw=kw, t=t, combo=combo):
            cen = api.Central(**central)
            mon.close("central-density", [orb.mag(cen.mass), orb.mag(cen.radius),
                      orb.mag(cen.density)], [p["M"], p["R"], rho], rtol=1e-8)
            b = api.System(cen).add_body(**kw).bodies[0]
            return observe(b, t * u.day)

        out = mon.part(mon.call, "position", go, what=f"{combo} {kw} {central}")
        if out is None:
            continue
        out = {k: (tuple(np.asarray(x, float) for x in v) if isinstance(v, tuple)
                   else np.asarray(v, float)) for k, v in out.items()}
        mon.part(judge, mon, combo, p, c, out, t, 2.3e-16, kw=str(kw))


def refusals(mon, rng, ctx):
    u = api.ureg
    for _ in range(ctx.n(3, 30)):
        x = float(rng.uniform(0.1, 0.9))
        P = float(10 ** rng.uniform(-1, 3))
        w = float(rng.uniform(-3, 3))
        s, c = np.sin(w), np.cos(w)
        bad = [
            {},
            dict(period=P, semimajor=P),
            dict(period=P, inclination=x, impact_param=x),
            dict(period=P, time_transit=x, time_peri=x),
            dict(period=P, eccentricity=x),
            dict(period=P, eccentricity=0.0),
            dict(period=P, omega_peri=w),
            dict(period=P, sin_omega_peri=s, cos_omega_peri=c),
            dict(period=P, eccentricity=x, sin_omega_peri=s),
            dict(period=P, eccentricity=x, cos_omega_peri=c),
            dict(period=P, eccentricity=x, omega_peri=w, sin_omega_peri=s, cos_omega_peri=c),
            dict(period=P, eccentricity=x, omega_peri=w, cos_omega_peri=c),
            dict(period=P, asc_node=w, sin_asc_node=s, cos_asc_node=c),
            dict(period=P, asc_node=w, sin_asc_node=s),
            dict(period=P, sin_asc_node=s),
            dict(period=P, cos_asc_node=c),
            dict(inclination=x, eccentricity=x, omega_peri=w),
        ]
        for kw in bad:
            mon.case("bad", sorted(kw), P)
            for as_q in (False, True):
                kk = {k: (v * u(BASE.get(k, "dimensionless")).units if as_q else v)
                      for k, v in kw.items()}
                mon.rejects("rejects-invalid", lambda kk=kk: api.Body(**kk), what=str(kk))
                mon.rejects("rejects-invalid",
                            lambda kk=kk: api.System(api.Central()).add_body(**kk), what=str(kk))
        ok = dict(period=P, time_transit=x, inclination=1.5, eccentricity=0.1, omega_peri=w,
                  asc_node=w, mass=0.1, radius=0.1, radial_velocity_semiamplitude=1.0,
                  parallax=0.1)
        mon.call("position", api.Body, **ok)
        variants = [ok, {**{k: v for k, v in ok.items() if k not in (
            "period", "omega_peri", "asc_node", "inclination", "time_transit")},
            "semimajor": 10.0, "sin_omega_peri": s, "cos_omega_peri": c,
            "sin_asc_node": s, "cos_asc_node": c, "impact_param": 0.1, "time_peri": x}]
        for base in variants:
            for k in base:
                for shape in ((1,), (3,), (2, 2)):
                    kk = dict(base, **{k: np.full(shape, base[k])})
                    mon.case("array", k, shape, P)
                    mon.rejects("rejects-array", lambda kk=kk: api.Body(**kk),
                                what=f"{k} of shape {shape}")
        for kw in (dict(mass=x), dict(radius=x), dict(mass=x, radius=x, density=x)):
            mon.rejects("rejects-invalid", lambda kw=kw: api.Central(**kw), what=str(kw))
        for kw in (dict(mass=np.ones(2), radius=1.0), dict(mass=1.0, radius=np.ones(1)),
                   dict(mass=1.0, density=np.ones(2))):
            mon.rejects("rejects-array", lambda kw=kw: api.Central(**kw), what=str(kw))
        for kw in (dict(period=np.ones(2), semimajor=1.0), dict(period=1.0, semimajor=np.ones(2)),
                   dict(period=1.0, semimajor=9.0, body_mass=np.ones(2))):
            mon.rejects("rejects-array",
                        lambda kw=kw: api.Central.from_orbital_properties(**kw), what=str(kw))
    # defaults and derived central bodies
    cen = mon.call("default-central", api.Central)
    mon.close("default-central", [orb.mag(cen.mass), orb.mag(cen.radius), orb.mag(cen.density)],
              [1, 1, 3 / (4 * np.pi)], rtol=1e-12)
    for _ in range(ctx.n(20, 200)):
        P, R = 10 ** rng.uniform(-1, 3), 10 ** rng.uniform(-1, 1)
        a = R * 10 ** rng.uniform(0.3, 3)
        m = 4 * np.pi**2 * a**3 / (orb.G * P**2)
        mp = m * 10 ** rng.uniform(-6, -0.5)
        mon.case("orbital", P, a)
        for bm in (None, mp):
            kw = dict(period=P * u.day, semimajor=(a * u.R_sun).to("au"))
            if bm is not None:
                kw["body_mass"] = (bm * u.M_sun).to("M_earth")
            if rng.random() < 0.5:
                kw["radius"] = R * u.R_sun
            cen = mon.call("third-law", api.Central.from_orbital_properties, **kw)
            mon.close("third-law", orb.mag(cen.mass.to("M_sun")), m - (bm or 0.0), rtol=1e-7)
            mon.close("third-law", orb.mag(cen.radius.to("R_sun")), R if "radius" in kw else 1.0,
                      rtol=1e-12)
            body = api.System(cen).add_body(period=P, mass=bm).bodies[0]
            mon.close("third-law", orb.mag(body.semimajor), a, rtol=1e-9)
            body = api.System(cen).add_body(semimajor=a, mass=bm).bodies[0]
            mon.close("third-law", orb.mag(body.period), P, rtol=1e-9)


JOBS(both=True, shards=(2, 8))(batched)
JOBS(x64=True, shards=(3, 8))(eager)
JOBS(x64=True, shards=(1, 4))(refusals)


JOBS(shards=(1, 1))(whole.job(whole.orbits))
