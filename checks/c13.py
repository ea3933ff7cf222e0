"""C13: values arrive converted to the declared units, unchanged in physical meaning."""

import math

import numpy as np

from lib import api, orb
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one call of a generated function or class whose arguments or fields declare "
    "units (positional-only, ordinary, keyword-only, variable; with and without defaults; nested "
    "structures; strict or not; traced or not), or one public object built twice with the same "
    "physical inputs in different units, or one constant. Non-trivial: at least one value has to "
    "be converted. Oracle: an independent table of SI factors."
)
ASSUMPTIONS = ["IAU 2015 nominal solar and planetary constants, CODATA 2018 G"]
REQUIRED = [
    "value", "unit", "untouched", "none-default", "default-in-unit", "plain-in-unit", "strict",
    "incompatible", "var-arguments", "unknown-argument", "pytree", "traced", "gradient",
    "field", "field-none", "field-strict", "field-incompatible", "field-converter", "constants",
    "public-central", "public-body", "public-time", "public-parallax", "public-rejects",
    "return-value", "not-mutated", "from-orbital-properties",
]
GN = 6.67430e-11
AU = 149597870700.0
C = {  # SI values
    "AU": AU, "au": AU, "astronomical_unit": AU, "gravitational_constant": GN, "G": GN,
    "parsec": AU * 648000 / math.pi, "pc": AU * 648000 / math.pi, "L_sun": 3.828e26,
    "L_solar": 3.828e26, "solar_luminosity": 3.828e26, "L_bol0": 3.0128e28,
    "GM_sun": 1.3271244e20, "GM_solar": 1.3271244e20, "M_sun": 1.3271244e20 / GN,
    "solar_mass": 1.3271244e20 / GN, "M_solar": 1.3271244e20 / GN, "R_sun": 6.957e8,
    "R_solar": 6.957e8, "solar_radius": 6.957e8, "GM_jupiter": 1.2668653e17,
    "GM_jup": 1.2668653e17, "M_jupiter": 1.2668653e17 / GN, "M_jup": 1.2668653e17 / GN,
    "R_jupiter": 7.1492e7, "R_jup": 7.1492e7, "jupiter_radius": 7.1492e7, "jupiter_mass": 1.2668653e17 / GN,
    "GM_earth": 3.986004e14, "M_earth": 3.986004e14 / GN, "earth_mass": 3.986004e14 / GN,
    "R_earth": 6.3781e6, "solar_mass_parameter": 1.3271244e20, "jupiter_mass_parameter": 1.2668653e17,
    "earth_mass_parameter": 3.986004e14,
}
DIM = {
    "length": {"m": 1.0, "km": 1e3, "AU": AU, "R_sun": 6.957e8, "cm": 1e-2, "R_earth": 6.3781e6,
               "R_jupiter": 7.1492e7, "parsec": C["pc"]},
    "time": {"s": 1.0, "minute": 60.0, "hour": 3600.0, "day": 86400.0, "year": 365.25 * 86400},
    "mass": {"kg": 1.0, "g": 1e-3, "M_sun": C["M_sun"], "M_earth": C["M_earth"],
             "M_jupiter": C["M_jup"]},
    "angle": {"radian": 1.0, "degree": math.pi / 180, "arcsec": math.pi / 648000,
              "arcminute": math.pi / 10800},
    "speed": {"m / s": 1.0, "km / s": 1e3, "R_sun / day": 6.957e8 / 86400, "AU / year":
              AU / (365.25 * 86400)},
    "density": {"kg / m**3": 1.0, "g / cm**3": 1e3, "M_sun / R_sun**3":
                C["M_sun"] / 6.957e8**3},
    "rate": {"1 / s": 1.0, "1 / day": 1 / 86400.0, "1 / hour": 1 / 3600.0},
    "one": {"dimensionless": 1.0, "percent": 0.01},
}
NAMES = list(DIM)


def U(name):
    return api.ureg.parse_units(name) if name != "1" else api.ureg.dimensionless


def draw_unit(rng, dim=None):
    dim = dim or NAMES[int(rng.integers(len(NAMES)))]
    k = list(DIM[dim])
    return dim, k[int(rng.integers(len(k)))]


def draw_value(rng, i):
    import jax.numpy as jnp

    v = rng.normal(size=[(), (3,), (2, 2), ()][i % 4]) * 10 ** rng.uniform(-3, 3)
    return [float(v) if v.ndim == 0 else v, v, jnp.asarray(v), int(rng.integers(1, 9))][i % 4]


def same_unit(got, name):
    return got == U(name)


def judge(mon, rule, got, src, sf, dname, df, wit):
    """got must be src (in a unit of SI factor sf) expressed in the declared unit."""
    if not mon.check("unit", hasattr(got, "units") and same_unit(got.units, dname),
                     f"arrived as {got!r:.100}, declared {dname}", **wit):
        return
    g = np.asarray(orb.mag(got))
    want = np.asarray(src, float) * sf / df
    mon.close(rule, g, want, rtol=1e-10, **wit)


def functions(mon, rng, ctx):
    import jax
    import jax.numpy as jnp
    from pint import DimensionalityError

    for it in range(ctx.n(300, 3000)):
        npos, nord, nkw = (int(x) for x in rng.integers(0, 3, 3))
        if npos + nord + nkw == 0:
            nord = 2
        var, varkw = rng.random() < 0.3, rng.random() < 0.3
        params, decl = [], {}
        started = False
        groups = [("p", npos), ("o", nord), ("k", nkw)]
        sig = []
        for g, n in groups:
            if g == "k":
                if var:
                    sig.append("*rest")
                elif n:
                    sig.append("*")
                started = False
            for i in range(n):
                name = f"{g}{i}"
                kind = rng.integers(4)  # 0,1 no default; 2 None; 3 plain
                if started and kind < 2:
                    kind = 2 + rng.integers(2)
                if kind >= 2:
                    started = True
                units = g != "p" and rng.random() < 0.75  # those are declared by name
                dim, un = draw_unit(rng)
                default = None
                if kind == 3:
                    default = float(np.round(rng.normal(), 3))
                params.append(dict(name=name, group=g, kind=int(kind), units=units, dim=dim,
                                   unit=un, default=default))
                sig.append(name + ("" if kind < 2 else f"={default!r}"))
                if units:
                    decl[name] = un if rng.random() < 0.3 else U(un)
                elif g != "p" and rng.random() < 0.3:
                    decl[name] = None
            if g == "p" and n:
                sig.append("/")
        if varkw:
            sig.append("**more")
        names = [p["name"] for p in params]
        got = {}
        src = (f"def fn({', '.join(sig)}):\n    'doc'\n    got.clear()\n    got.update("
               + ", ".join(f"{n}={n}" for n in names)
               + (", rest=rest" if var else "") + (", more=more" if varkw else "")
               + ")\n    return token\n")
        ns = dict(got=got, token=object())
        exec(src, ns)  # noqa: S102
        fn = ns["fn"]
        if it % 3 == 2:
            wrapped = mon.call("return-value", api.quantity_input, fn, **decl)
        else:
            wrapped = mon.call("return-value", api.quantity_input(**decl), fn)
        # the call
        args, kwargs, sent = [], {}, {}
        positional = True
        for i, p in enumerate(params):
            omit = p["kind"] >= 2 and rng.random() < 0.4
            explicit_none = p["kind"] == 2 and rng.random() < 0.2
            if omit and p["group"] != "k":
                positional = positional and False
            if omit:
                sent[p["name"]] = ("omitted", None, None)
                continue
            if explicit_none:
                val, how = None, ("none", None, None)
            elif not p["units"]:
                val = [object(), "text", 3, np.arange(3.0), 2.0 * api.ureg.m, None][
                    int(rng.integers(6))]
                how = ("raw", val, None)
            else:
                v = draw_value(rng, int(rng.integers(4)))
                if rng.random() < 0.35:
                    val, how = v, ("plain", v, None)
                else:
                    _, un = draw_unit(rng, p["dim"])
                    val = v * U(un)
                    how = ("quantity", v, un)
            if p["group"] == "p" and not positional:
                sent[p["name"]] = ("omitted", None, None)
                continue  # cannot be given any more
            sent[p["name"]] = how
            if p["group"] == "p" or (p["group"] == "o" and positional and
                                     (rng.random() < 0.5 or False)):
                args.append(val)
            else:
                if p["group"] == "o":
                    positional = False
                kwargs[p["name"]] = val
        extra = (1.0, 2.0 * api.ureg.m)
        gave_rest = var and positional and all(
            sent[p["name"]][0] != "omitted" and p["name"] not in kwargs
            for p in params if p["group"] != "k")
        if gave_rest:
            args += list(extra)
        if varkw:
            kwargs["zzz"] = extra[1]
        wit = dict(signature=src.split("\n")[0], decl=str(decl), sent=str(sent)[:400])
        before = {k: repr(v) for k, v in kwargs.items()}
        out = mon.call("return-value", wrapped, *args, what=str(wit), **kwargs)
        mon.case(it, src, str(sent), nontrivial=any(s[0] == "quantity" for s in sent.values()))
        mon.check("return-value", out is ns["token"] and wrapped.__name__ == "fn"
                  and wrapped.__doc__ == "doc", "return value or metadata lost", **wit)
        mon.check("not-mutated", before == {k: repr(v) for k, v in kwargs.items()}, **wit)
        for p in params:
            how, v, un = sent[p["name"]]
            g = got[p["name"]]
            if how == "omitted":
                if p["default"] is None:
                    mon.check("none-default", g is None, f"{g!r}", **wit)
                elif p["units"]:
                    judge(mon, "default-in-unit", g, p["default"], 1.0, p["unit"], 1.0, wit)
                else:
                    mon.check("untouched", g == p["default"], f"{g!r}", **wit)
            elif how == "none":
                mon.check("none-default", g is None, f"{g!r}", **wit)
            elif how == "raw":
                mon.check("untouched", g is v, f"{g!r} instead of {v!r}", **wit)
            elif how == "plain":
                judge(mon, "plain-in-unit", g, v, 1.0, p["unit"], 1.0, wit)
            else:
                f = DIM[p["dim"]]
                judge(mon, "value", g, v, f[un], p["unit"], f[p["unit"]], wit)
        if var:
            mon.check("var-arguments", got["rest"] == (extra if gave_rest else ()), "*args", **wit)
        if varkw:
            mon.check("var-arguments", got["more"].get("zzz") is extra[1], "**kwargs", **wit)
        # refusals
        cand = [p for p in params if p["units"]]
        if cand and it % 2:
            p = cand[int(rng.integers(len(cand)))]
            bad = draw_unit(rng, [d for d in NAMES if d != p["dim"] and not
                                  {d, p["dim"]} <= {"one", "angle"}][int(rng.integers(5))])[1]
            if not U(bad).is_compatible_with(U(p["unit"])):
                f2 = api.quantity_input(**{k: v for k, v in decl.items() if k == p["name"]})(
                    _single(p["name"]))
                mon.rejects("incompatible", lambda f2=f2, bad=bad: f2(2.0 * U(bad)),
                            (DimensionalityError,), what=f"{bad} for {p['unit']}")
                s = api.quantity_input(_strict=True, **{p["name"]: U(p["unit"])})(_single(p["name"]))
                mon.rejects("strict", lambda s=s: s(2.0), (ValueError,), what="plain value")
                mon.rejects("strict", lambda s=s: s(np.ones(2)), (ValueError,), what="plain array")
                _, un = draw_unit(rng, p["dim"])
                ff = DIM[p["dim"]]
                judge(mon, "value", s(2.0 * U(un)), 2.0, ff[un], p["unit"], ff[p["unit"]], {})
        if it % 5 == 0:
            mon.rejects("unknown-argument", lambda: api.quantity_input(nope=api.ureg.m)(fn)
                        if not varkw else api.quantity_input(nope=api.ureg.m)(_single("a")),
                        (TypeError,), what="unknown argument name")
            for nm in (["rest"] if var else []) + (["more"] if varkw else []):
                mon.rejects("var-arguments", lambda nm=nm: api.quantity_input(
                    **{nm: api.ureg.m})(fn), (TypeError,), what="units for " + nm)
            mon.rejects("unknown-argument", lambda: api.quantity_input(api.ureg.m), (TypeError,),
                        what="positional unit")
        # tracing
        if it % 6 == 0:
            dim, un = draw_unit(rng)
            _, un2 = draw_unit(rng, dim)
            f = DIM[dim]
            h = api.quantity_input(a=U(un))(lambda a: a * 3.0)
            v = rng.normal(size=3) + 2
            o1 = jax.jit(h)(jnp.asarray(v) * U(un2))
            judge(mon, "traced", o1, 3 * v, f[un2], un, f[un], {})
            o2 = jax.jit(h)(v)
            judge(mon, "traced", o2, 3 * v, 1.0, un, 1.0, {})
            o3 = jax.vmap(h)(jnp.asarray(v) * U(un2))
            judge(mon, "traced", o3, 3 * v, f[un2], un, f[un], {})
            g = jax.grad(lambda x: (h(x * U(un2)).magnitude ** 2))(float(v[0]))
            s = 3 * f[un2] / f[un]
            mon.close("gradient", g, 2 * v[0] * s * s, rtol=1e-10)
        mon.sample(**wit)


def _single(name):
    ns = {}
    exec(f"def fn({name}):\n    return {name}\n", ns)  # noqa: S102
    return ns["fn"]


def tree(rng, depth):
    """A random nested structure of (unit declaration, value, check)."""
    if depth == 0 or rng.random() < 0.4:
        dim, un = draw_unit(rng)
        how = rng.integers(4)
        v = draw_value(rng, int(rng.integers(4)))
        if how == 0:
            return None, v, ("raw", v)
        if how == 1:
            return U(un), v, ("plain", v, 1.0, un, 1.0)
        _, un2 = draw_unit(rng, dim)
        return U(un), v * U(un2), ("q", v, DIM[dim][un2], un, DIM[dim][un])
    kids = [tree(rng, depth - 1) for _ in range(int(rng.integers(1, 4)))]
    kind = rng.integers(3)
    if kind == 0:
        wrap = lambda i: {f"x{j}": k[i] for j, k in enumerate(kids)}  # noqa: E731
    elif kind == 1:
        wrap = lambda i: tuple(k[i] for k in kids)  # noqa: E731
    else:
        wrap = lambda i: [k[i] for k in kids]  # noqa: E731
    return wrap(0), wrap(1), wrap(2)


def walk(mon, rule, got, want, wit):
    if isinstance(want, dict):
        if mon.check(rule, isinstance(got, dict) and set(got) == set(want), f"{type(got)}", **wit):
            for k in want:
                walk(mon, rule, got[k], want[k], wit)
    elif isinstance(want, list) or (isinstance(want, tuple) and not (
            want and isinstance(want[0], str))):
        if mon.check(rule, type(got) is type(want) and len(got) == len(want), f"{type(got)}", **wit):
            for a, b in zip(got, want, strict=True):
                walk(mon, rule, a, b, wit)
    elif want[0] == "raw":
        mon.check(rule, got is want[1], f"{got!r}", **wit)
    else:
        judge(mon, rule, got, *want[1:], wit)


def ok_tree(units):
    """None cannot be a leaf of its own in a structure whose values jax would descend into."""
    return True


def structures(mon, rng, ctx):
    import equinox as eqx
    import jax
    from pint import DimensionalityError

    for it in range(ctx.n(150, 1500)):
        u, v, w = tree(rng, int(rng.integers(1, 4)))
        if u is None:
            continue
        none_leaf = jax.tree_util.tree_structure(v, is_leaf=lambda x: hasattr(x, "_units"))
        wit = dict(units=str(u), value=str(v)[:300])
        mon.case("tree", it, str(u))
        fn = api.quantity_input(p=u)(_single("p"))
        has_none = "None" in str(u)
        got = mon.call("pytree", fn, v, what=str(wit))
        walk(mon, "pytree", got, w, wit)
        mon.fact("structures with skipped leaves", has_none)
        del none_leaf
        # fields
        dim, un = draw_unit(rng)
        _, un2 = draw_unit(rng, dim)
        f = DIM[dim]
        val = draw_value(rng, int(rng.integers(3)))

        class Model(eqx.Module):
            a: object = api.units_field(units=U(un))
            t: object = api.units_field(units=u)
            c: object = api.units_field(units=U(un), converter=lambda x: 2 * x)
            s: object = api.units_field(units=U(un), strict=True)
            n: object = api.units_field(units=U(un), default=None)
            d: object = api.units_field(units=U(un), default=1.5)
            r: object = api.units_field(default="raw")

        q = val * U(un2)
        m = mon.call("field", Model, q, v, q, q)
        judge(mon, "field", m.a, val, f[un2], un, f[un], {})
        judge(mon, "field-strict", m.s, val, f[un2], un, f[un], {})
        judge(mon, "field-converter", m.c, 2 * np.asarray(val), f[un2], un, f[un], {})
        walk(mon, "field", m.t, w, wit)
        mon.check("field-none", m.n is None, f"{m.n!r}")
        mon.check("untouched", m.r == "raw", f"{m.r!r}")
        judge(mon, "default-in-unit", m.d, 1.5, 1.0, un, 1.0, {})
        m = Model(a=val, t=v, c=val, s=q, n=q, d=val, r=None)
        judge(mon, "field", m.a, val, 1.0, un, 1.0, {})
        judge(mon, "field-converter", m.c, 2 * np.asarray(val), 1.0, un, 1.0, {})
        judge(mon, "field", m.n, val, f[un2], un, f[un], {})
        judge(mon, "field", m.d, val, 1.0, un, 1.0, {})
        mon.check("field-none", Model(a=None, t=v, c=None, s=None).a is None, "None converted")
        mon.rejects("field-strict", lambda: Model(a=q, t=v, c=q, s=val), (ValueError,),
                    what="plain value for a strict field")
        bad = next(n for d in ("length", "mass", "speed") if d != dim for n in DIM[d])
        mon.rejects("field-incompatible", lambda: Model(a=1.0 * U(bad), t=v, c=q, s=q),
                    (DimensionalityError,), what=f"{bad} for {un}")
    for name, si in C.items():
        q = mon.call("constants", lambda name=name: 1.0 * getattr(api.ureg, name))
        mon.close("constants", orb.mag(q.to_base_units()), si, rtol=1e-9, constant=name)
    for dim, table in DIM.items():
        for a in table:
            for b in table:
                mon.close("constants", orb.mag((1.0 * U(a)).to(U(b))), table[a] / table[b],
                          rtol=1e-9, pair=f"{a} -> {b}")


FIELDS = dict(time_transit="time", time_peri="time", period="time", semimajor="length",
              inclination="angle", impact_param="one", eccentricity="one", omega_peri="angle",
              asc_node="angle", mass="mass", radius="length",
              radial_velocity_semiamplitude="speed", parallax="angle")
DOC = dict(time="day", length="R_sun", mass="M_sun", angle="radian", one="dimensionless",
           speed="R_sun / day", density="M_sun / R_sun**3")


def express(rng, x, dim, doc, always=False):
    """The plain value x (documented unit doc) in a random compatible unit or plain."""
    if not always and rng.random() < 0.25:
        return x
    _, un = draw_unit(rng, dim)
    return x * (DIM[dim][doc] / DIM[dim][un]) * U(un)


def public(mon, rng, ctx):
    import jax.numpy as jnp

    for it in range(ctx.n(14, 120)):
        M, R = 10 ** rng.uniform(-1, 1), 10 ** rng.uniform(-1, 0.5)
        rho = 3 * M / (4 * np.pi * R**3)
        given = [("mass", "radius"), ("mass", "density"), ("radius", "density")][it % 3]
        vals = dict(mass=M, radius=R, density=rho)
        c0 = api.Central(**{k: vals[k] for k in given})
        c1 = mon.call("public-central", api.Central, **{
            k: express(rng, vals[k], k if k != "radius" else "length",
                       DOC[k if k != "radius" else "length"], True) for k in given})
        for k in vals:
            for cc in (c0, c1):
                mon.close("public-central", orb.mag(getattr(cc, k)), vals[k], rtol=1e-9, attr=k)
        P = 10 ** rng.uniform(0, 2)
        a = np.cbrt(orb.G * M * P**2 / (4 * np.pi**2))
        mp = M * 0.1 if it % 2 else None
        kw = dict(period=P, semimajor=np.cbrt(orb.G * (M + (mp or 0)) * P**2 / (4 * np.pi**2)),
                  radius=R)
        dims = dict(period="time", semimajor="length", radius="length", body_mass="mass")
        if mp:
            kw["body_mass"] = mp
        for conv in (False, True):
            cc = mon.call("from-orbital-properties", api.Central.from_orbital_properties, **{
                k: express(rng, v, dims[k], DOC[dims[k]], True) if conv else v
                for k, v in kw.items()})
            mon.close("from-orbital-properties", orb.mag(cc.mass), M, rtol=1e-8, kw=str(kw))
            mon.close("from-orbital-properties", orb.mag(cc.radius), R, rtol=1e-9)
        e = rng.uniform(0, 0.7)
        kw = dict(time_transit=rng.normal(), eccentricity=e, omega_peri=rng.uniform(0, 6),
                  asc_node=rng.uniform(0, 6), mass=0.01 * M, radius=0.1 * R)
        kw.update([dict(period=P), dict(semimajor=a)][it % 2])
        kw.update([dict(inclination=rng.uniform(1, 2)), dict(impact_param=0.3)][(it // 2) % 2])
        if it % 3 == 0:
            kw["radial_velocity_semiamplitude"] = rng.uniform(0.1, 3)
            kw["parallax"] = None
        if it % 4 == 1:
            kw["parallax"] = rng.uniform(0.001, 1)
        kw = {k: v for k, v in kw.items() if v is not None}
        doc = dict(DOC)
        q = {k: express(rng, v, FIELDS[k], "arcsec" if k == "parallax" else doc[FIELDS[k]])
             for k, v in kw.items()}
        s0 = api.System(c0).add_body(api.Body(**kw))
        s1 = api.System(c1).add_body(mon.call("public-body", api.Body, **q))
        s2 = api.System(c1).add_body(**q)
        mon.case("body", it, str(kw))
        t = rng.uniform(-2, 2, 5) * P
        tu, tf = [("hour", 24.0), ("minute", 1440.0), ("s", 86400.0), ("year", 1 / 365.25)][it % 4]
        tq = t * tf * U(tu)
        for name in ("relative_position", "position", "velocity", "relative_velocity",
                     "central_position", "central_velocity", "radial_velocity"):
            base = getattr(s0, name)(jnp.asarray(t))
            ref = orb.mag(base)
            tol = 1e-7 * (1 + np.abs(ref).max())
            for s, tt, rule in ((s1, t, "public-body"), (s2, t, "public-body"),
                                (s0, tq, "public-time"), (s1, tq, "public-time")):
                o = mon.call(rule, getattr(s, name), tt)
                for x, y in zip(o if isinstance(o, tuple) else (o,),
                                base if isinstance(base, tuple) else (base,), strict=True):
                    mon.check("unit", same_unit(x.units, str(y.units)), f"{x.units} {y.units}")
                mon.close(rule, orb.mag(o), ref, atol=tol, what=name, q=str(q), kw=str(kw))
        if "parallax" not in kw:
            b0 = s0.bodies[0]
            p0 = orb.mag(b0.relative_position(t))
            par = rng.uniform(0.01, 1)
            for un, f in (("arcsec", 1.0), ("degree", 1 / 3600.0), ("radian", math.pi / 648000)):
                o = mon.call("public-parallax", b0.relative_position, t, parallax=par * f * U(un))
                for x in o[:2]:
                    mon.check("public-parallax", x.units.is_compatible_with(api.ureg.radian),
                              str(x.units))
                    # one AU at one parsec subtends an arcsecond
                sky = np.array([orb.mag(x.to(api.ureg.arcsec)) for x in o[:2]])
                mon.close("public-parallax", sky, p0[:2] * (6.957e8 / AU) * par,
                          atol=1e-9 * (1 + np.abs(p0).max()))
    for k, dim in FIELDS.items():
        if dim == "one":
            bad = 0.3 * api.ureg.m
        elif dim == "angle":
            bad = 0.3 * api.ureg.kg
        else:
            bad = 0.3 * api.ureg.kelvin
        base = dict(period=1.0) if k not in ("period", "semimajor") else {}
        if k == "eccentricity":
            base["omega_peri"] = 0.1
        if k == "omega_peri":
            base["eccentricity"] = 0.1
        mon.rejects("public-rejects", lambda k=k, b=base, bad=bad: api.Body(**{k: bad, **b}),
                    (Exception,), what=f"{k} in {bad.units}")
    for k in ("mass", "radius", "density"):
        mon.rejects("public-rejects", lambda k=k: api.Central(**{k: 1.0 * api.ureg.s}),
                    (Exception,), what=f"{k} in seconds")
    s = api.System().add_body(period=1.0, radius=0.1)
    for fn in (s.relative_position, s.velocity, s.radial_velocity,
               api.limb_dark_light_curve(s, [0.1])):
        mon.rejects("public-rejects", lambda fn=fn: fn(1.0 * api.ureg.m), (Exception,),
                    what="time in metres")


JOBS(shards=(2, 4))(functions)
JOBS(shards=(2, 4))(structures)
JOBS(shards=(3, 8))(public)
