"""C04: radial velocities follow rv = K [cos(omega + f) + e cos(omega)], redshift positive."""

import numpy as np

from lib import api, orb, ref
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one orbit (masses, period, e 0..0.95, omega, inclination, node, epoch) with "
    "the semi-amplitude implied by the masses, stored on the body or passed to the call, "
    "observed at 32 times of one revolution plus random ones. Non-trivial: e > 0. Oracle: "
    "closed-form radial velocity of the reference orbit."
)
ASSUMPTIONS = ["IAU 2015 nominal GM_sun and R_sun"]
REQUIRED = [
    "rv-from-masses", "rv-stored-K", "rv-explicit-K", "rv-half-amplitude", "rv-zero-mean",
    "rv-is-minus-vz", "body-reflex-ratio", "relative-reflex-ratio", "node-independent",
    "units", "explicit-overrides-stored", "system-rv",
]
COMBOS = [
    dict(time="transit", size="period", inc="inclination", ecc="omega", node="node",
         mass="mass"),
    dict(time="peri", size="semimajor", inc="impact", ecc="sincos", node="sincos",
         mass="mass"),
    dict(time="none", size="period", inc="none", ecc="none", node="none", mass="mass"),
    dict(time="transit", size="semimajor", inc="inclination", ecc="none", node="node",
         mass="mass"),
    dict(time="none", size="semimajor", inc="none", ecc="omega", node="none", mass="mass"),
    dict(time="peri", size="period", inc="impact", ecc="sincos", node="none", mass="mass"),
    # without a mass the semi-amplitude has to be given
    dict(time="transit", size="period", inc="none", ecc="omega", node="none", mass="none"),
    dict(time="peri", size="period", inc="inclination", ecc="sincos", node="node",
         mass="none"),
]


def shape(t, P, e, w, tp):
    """rv / K of the star, and its conditioning."""
    M = (np.asarray(t, np.longdouble) - tp) * (2 * ref.PI / np.asarray(P, np.longdouble))
    sf, cf, _ = (x.astype(float) for x in ref.kepler(M, e))
    return np.cos(w) * (cf + e) - np.sin(w) * sf


def batched(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    x64 = jax.config.jax_enable_x64
    dt = np.float64 if x64 else np.float32
    eps = float(np.finfo(dt).eps)
    m_ = lambda q: getattr(q, "magnitude", q)  # noqa: E731

    def observe(M, R, kw, t, K, mode):
        kw = dict(kw)
        if mode != "mass":
            kw["radial_velocity_semiamplitude"] = K
        b = api.System(api.Central(mass=M, radius=R)).add_body(**kw).bodies[0]
        out = dict(P=m_(b.period), a=m_(b.semimajor), rv=m_(b.radial_velocity(t)))
        if b.mass is None:
            return out
        for n in ("central_velocity", "velocity", "relative_velocity"):
            out[n] = tuple(m_(x) for x in getattr(b, n)(t))
        return out

    def explicit(M, R, kw, t, K, stored):
        kw = dict(kw)
        if stored:
            kw["radial_velocity_semiamplitude"] = 3.3 * K + 0.1
        b = api.System(api.Central(mass=M, radius=R)).add_body(**kw).bodies[0]
        out = dict(P=m_(b.period), rv=m_(b.radial_velocity(t, semiamplitude=K)))
        if b.mass is None:
            return out
        for n in ("central_velocity", "velocity", "relative_velocity"):
            out[n] = tuple(m_(x) for x in getattr(b, n)(t, semiamplitude=K))
        return out

    fs = {mode: jax.jit(jax.vmap(lambda *a, mode=mode: observe(*a, mode)))
          for mode in ("mass", "stored")}
    fe = {s: jax.jit(jax.vmap(lambda *a, s=s: explicit(*a, s))) for s in (False, True)}
    del jnp
    for ci, combo in enumerate(ctx.mine(COMBOS)):
        n, nt = ctx.n(250, 3000), 32
        p = orb.draw(rng, n, emax=0.95 if x64 else 0.7)
        c = orb.canonical(p, combo)
        kw = orb.kwargs(p, c, combo)
        cast = lambda x: np.asarray(x, dt)  # noqa: E731
        grid = (np.arange(nt) + rng.random((n, 1))) / nt
        t = c["T0"][:, None] + (grid + rng.integers(-3, 3, (n, 1))) * c["P"][:, None]
        extra = c["T0"][:, None] + rng.uniform(-3, 3, (n, 16)) * c["P"][:, None]
        t = np.concatenate([t, extra], axis=1).astype(dt).astype(float)
        K = 10 ** rng.uniform(-4, 2, n)
        K = np.where(rng.random(n) < 0.1, -K, K).astype(dt).astype(float)
        mon.cases_from(p["P"], p["e"], K, nontrivial=c["e"] > 0)
        kwd = {k: cast(v) for k, v in kw.items()}
        col = lambda x: np.asarray(x)[..., None]  # noqa: E731
        e, w = c["e"], c["w"]
        M, m = p["M"], c["m"]
        for mode in ("mass", "stored", "explicit", "override"):
            if mode == "mass" and combo["mass"] == "none":
                continue
            if mode in fs:
                out = mon.call("rv-from-masses", fs[mode], cast(M), cast(p["R"]), kwd, cast(t),
                               cast(K), what=f"{combo} {mode}")
            else:
                out = mon.call("rv-explicit-K", fe[mode == "override"], cast(M), cast(p["R"]),
                               kwd, cast(t), cast(K), what=f"{combo} {mode}")
            out = jax.tree_util.tree_map(lambda x: np.asarray(x, float), out)
            P = out["P"]
            inc = c["i"]
            if combo["time"] == "peri":
                tp = c["tp"]
            else:
                tp = c["T0"] + orb.t_peri_offset(P, e, np.sin(w), np.cos(w))
            if mode == "mass":
                if combo["inc"] == "impact":
                    cosi = c["b"] * p["R"] / out["a"] * (1 + e * np.sin(w)) / (1 - e**2)
                    inc = np.arccos(np.clip(cosi, -1, 1))
                amp = (2 * np.pi * out["a"] / P * m / (M + m) * np.sin(inc)
                       / np.sqrt(1 - e**2))
                full = amp / np.maximum(np.sin(inc), 1e-3)
            else:
                amp, full = K, np.abs(K)
            full = np.abs(full)
            want = col(amp) * shape(t, col(P), col(e), col(w), col(tp))
            phase = eps * (np.abs(t) + np.abs(col(tp)) + np.abs(col(c["T0"])) + 4 * col(P)) / col(P)
            # d(rv/K)/dM <= (1+e)^2/(1-e^2)^1.5
            steep = (1 + e) ** 2 / (1 - e**2) ** 1.5
            atol = 16 * col(full) * (6.3 * phase * col(steep) + 12 * eps / (1 - col(e)))
            wit = dict(e=e, w=w, i=inc, P=P, K=amp, M=M, m=m, combo=str(combo), mode=mode)
            rule = {"mass": "rv-from-masses", "stored": "rv-stored-K",
                    "explicit": "rv-explicit-K", "override": "explicit-overrides-stored"}[mode]
            mon.close(rule, out["rv"], want, atol=atol, t=t, **wit)
            if combo["mass"] == "none":
                continue
            mon.close("rv-is-minus-vz", out["rv"], -out["central_velocity"][2],
                      atol=64 * eps * col(full * steep), **wit)
            ratio = col(M / m)
            for k in range(3):
                v = out["central_velocity"][k]
                sc = col(full * steep ** 0.5)
                mon.close("body-reflex-ratio", out["velocity"][k], -v * ratio,
                          atol=64 * eps * sc * ratio, component="xyz"[k], **wit)
                mon.close("relative-reflex-ratio", out["relative_velocity"][k],
                          -v * (1 + ratio), atol=64 * eps * sc * (1 + ratio),
                          component="xyz"[k], **wit)
            # the uniform phase grid integrates a trigonometric polynomial almost exactly
            # for moderate eccentricities
            sel = (e < 0.4) & (np.abs(amp) > 0)
            if sel.any():
                rv = out["rv"][sel][:, :nt]
                mon.close("rv-zero-mean", rv.mean(1), 0 * rv[:, 0],
                          atol=full[sel] * (1e-4 * e[sel] + 16 * phase[sel].max(1) * 6.3
                                            + 60 * eps),
                          **{k: (v[sel] if np.ndim(v) else v) for k, v in wit.items()})
            circ = e == 0
            if circ.any():
                # 32 phases bracket the extrema to within 1 - cos(pi/32)
                rv = out["rv"][circ]
                half = 0.5 * (rv.max(1) - rv.min(1))
                lo = np.abs(amp[circ]) * np.cos(np.pi / 32)
                tol = full[circ] * (2e3 * eps + 16 * 6.3 * phase[circ].max(1))
                mon.all("rv-half-amplitude", (half >= lo - tol)
                        & (half <= np.abs(amp[circ]) + tol),
                        "half the peak-to-peak amplitude is not K",
                        **{k: (v[circ] if np.ndim(v) else v) for k, v in wit.items()})
            if combo["node"] != "none":
                kw2 = dict(kwd)
                if "asc_node" in kw2:
                    kw2["asc_node"] = cast(c["Om"] + 1.234)
                else:
                    kw2["sin_asc_node"] = cast(np.sin(c["Om"] + 1.234))
                    kw2["cos_asc_node"] = cast(np.cos(c["Om"] + 1.234))
                f = fs.get(mode) or fe[mode == "override"]
                o2 = mon.call("node-independent", f, cast(M), cast(p["R"]), kw2, cast(t), cast(K))
                mon.close("node-independent", np.asarray(o2["rv"], float), out["rv"],
                          atol=8 * eps * col(full * steep), **wit)
        mon.sample(combo=combo, e=e[0], K=K[0], rv=out["rv"][0, :4])


def eager(mon, rng, ctx):
    """Units of plain calls, and whole systems."""
    u = api.ureg
    unit = u.R_sun / u.day
    for i in range(ctx.n(5, 60)):
        combo = COMBOS[i % 6]
        p = {k: v[0] for k, v in orb.draw(rng, 1, emax=0.9).items()}
        c = orb.canonical(p, combo)
        kw = orb.kwargs(p, c, combo)
        central = api.Central(mass=p["M"], radius=p["R"])
        b = api.System(central).add_body(**kw).bodies[0]
        t = c["T0"] + rng.uniform(-1, 1, 6) * c["P"]
        amp = (2 * np.pi * c["a"] / c["P"] * c["m"] / (p["M"] + c["m"]) * np.sin(c["i"])
               / np.sqrt(1 - c["e"] ** 2))
        base = shape(t, c["P"], c["e"], c["w"], c["tp"])
        atol = 1e-6 / (1 - c["e"]) ** 2
        mon.case(i, p["P"], p["e"])
        for tt in (t, t * u.day, (t * 24) * u.hour):
            rv = mon.call("units", b.radial_velocity, tt)
            mon.check("units", getattr(rv, "units", None) == unit, f"rv in {getattr(rv, 'units', None)}")
            mon.close("units", orb.mag(rv), amp * base, atol=np.abs(c["a"] / c["P"]) * atol)
        scal = mon.call("units", b.radial_velocity, float(t[0]))
        mon.check("units", np.shape(orb.mag(scal)) == (), "scalar time, array rv")
        # an explicit semi-amplitude: the result carries its unit, or none
        K = float(10 ** rng.uniform(-1, 3))
        for q in (K * u.m / u.s, K * u.km / u.s):
            rv = mon.call("units", b.radial_velocity, t, semiamplitude=q)
            mon.check("units", hasattr(rv, "to"), "no unit although K has one")
            mon.close("units", orb.mag(rv.to(q.units)), K * base, atol=K * atol)
        rv = mon.call("units", b.radial_velocity, t, semiamplitude=K)
        mon.close("units", orb.mag(rv), K * base, atol=K * atol)
        # stored with a unit: converted to R_sun / day
        bs = api.System(central).add_body(**kw, radial_velocity_semiamplitude=K * u.m / u.s)
        rv = mon.call("units", bs.bodies[0].radial_velocity, t)
        mon.close("units", orb.mag(rv.to("m/s")), K * base, atol=K * atol)
        # several bodies: one row each, in order
        p2 = {k: v[0] for k, v in orb.draw(rng, 1, emax=0.5).items()}
        c2 = orb.canonical(dict(p2, M=p["M"], R=p["R"]), combo)
        kw2 = orb.kwargs(dict(p2, M=p["M"], R=p["R"]), c2, combo)
        if i % 2:
            kw2["radial_velocity_semiamplitude"] = 0.3
        s = api.System(central).add_body(**kw).add_body(**kw2)
        rv = mon.call("system-rv", s.radial_velocity, t)
        want = np.stack([orb.mag(x.radial_velocity(t)) for x in s.bodies])
        mon.close("system-rv", orb.mag(rv), want, atol=1e-12 * np.abs(want).max())
        mon.check("system-rv", rv.units == unit, f"system rv in {rv.units}")


JOBS(both=True, shards=(2, 6))(batched)
JOBS(x64=True, shards=(1, 3))(eager)
