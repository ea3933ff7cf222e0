"""C26: orbits have the right derivatives with respect to their parameters and time."""

import numpy as np

from lib import api, orb, ref
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one orbit, at random or special elements, in one parametrisation with one time; the "
    "gradient of random combinations of its positions and velocities is taken in all elements and in "
    "time. Non-trivial: always. Oracle: five point differences of the two-body orbit in extended precision."
)
ASSUMPTIONS = ["0 <= e <= 0.9; masses given wherever barycentric positions or velocities are used"]
REQUIRED = [
    "finite", "relative", "barycentric", "velocity", "radial-velocity", "forward", "semi-amplitude",
    "parallax", "circular", "edge-on", "face-on", "special-omega", "at-transit", "at-periastron", "system",
    "transit-orbit", "no-transit", "ttv-offsets", "ttv-times",
]
LD = np.longdouble
KEYS = ("P", "e", "w", "i", "Om", "M", "m", "R", "T0", "t")


def elements(q, combo, xp):
    """The canonical elements that `combo` makes of the draw `q`, with the functions of `xp`."""
    ecc, node = combo["ecc"] != "none", combo["node"] != "none"
    e = q["e"] if ecc else 0.0 * q["e"]
    w = q["w"] if ecc else 0.0 * q["w"]
    Om = q["Om"] if node else 0.0 * q["Om"]
    i = q["i"] if combo["inc"] != "none" else 0.0 * q["i"] + 0.5 * (ref.PI if xp is np else np.pi)
    m = q["m"] if combo["mass"] == "mass" else 0.0 * q["m"]
    pi = ref.PI if xp is np else np.pi
    a = xp.cbrt(orb.G * (q["M"] + m) * q["P"] ** 2 / (4 * pi**2))
    sw, cw = xp.sin(w), xp.cos(w)
    E0 = xp.arctan2(xp.sqrt(1 - e * e) * cw, e + sw)
    off = -(E0 - e * xp.sin(E0)) * q["P"] / (2 * pi)
    T0 = q["T0"] if combo["time"] != "none" else 0.0 * q["T0"]
    b = a * (1 - e * e) / (1 + e * sw) * xp.cos(i) / q["R"]
    return dict(P=q["P"], a=a, e=e, w=w, i=i, Om=Om, tp=T0 + off, T0=T0, m=m, M=q["M"], R=q["R"], b=b)


def state(t, c):
    """Position and velocity relative to the star in extended precision (observer at +z)."""
    n = 2 * ref.PI / c["P"]
    sf, cf, _ = ref.kepler(n * (t - c["tp"]), c["e"])
    e, w, i, Om = c["e"], c["w"], c["i"], c["Om"]
    r = c["a"] * (1 - e * e) / (1 + e * cf)
    k = n * c["a"] / np.sqrt(1 - e * e)
    sw, cw = np.sin(w), np.cos(w)
    su, cu = sw * cf + cw * sf, cw * cf - sw * sf

    def rot(x, y):
        return np.array([-(np.cos(Om) * x - np.sin(Om) * np.cos(i) * y),
                         -(np.sin(Om) * x + np.cos(Om) * np.cos(i) * y), np.sin(i) * y])

    return rot(r * cu, r * su), rot(-k * (su + e * sw), k * (cu + e * cw))


def draw(rng, n):
    p = orb.draw(rng, n, emax=0.9)
    p["M"] = 10 ** rng.uniform(-0.5, 0.7, n)
    p["m"] = p["M"] * 10 ** rng.uniform(-2, 0.3, n)
    p["i"] = np.where(rng.random(n) < 0.25, np.pi / 2, np.clip(p["i"], 0.15, np.pi - 0.15))
    p["e"] = np.where(rng.random(n) < 0.2, 0.0, p["e"])
    p["P"] = 10 ** rng.uniform(-0.3, 1.5, n)
    p["T0"] = np.where(rng.random(n) < 0.2, 0.0, rng.uniform(-1.5, 1.5, n) * p["P"])
    p["t"] = p["T0"] + rng.uniform(-4, 4, n) * p["P"]
    return p


def special_times(p, combo, rng):
    """Exactly the time of transit or of periastron for some of the orbits."""
    c = elements({k: np.asarray(v, LD) for k, v in p.items()}, combo, np)
    n = len(p["P"])
    kind = rng.choice(5, n, p=[0.6, 0.13, 0.13, 0.07, 0.07])
    t = np.where(kind == 1, c["T0"], p["t"])
    t = np.where(kind == 2, c["tp"], t)
    t = np.where(kind == 3, c["tp"] + c["P"] / 2, t)
    t = np.where(kind == 4, c["T0"] - 2 * c["P"], t)
    return t.astype(float), kind


def steps(p):
    """Steps of the differences, small against the time scale of periastron."""
    fast = (1 - p["e"]) ** 1.5 * p["P"]
    h = {k: 2e-4 * np.abs(p[k]) for k in ("P", "M", "m", "R")}
    h["P"] = 3e-5 * fast / (1 + np.abs(p["t"] - p["T0"]) / p["P"])
    h["t"] = h["T0"] = 3e-5 * fast
    h["e"] = 3e-5 * (1 - p["e"]) ** 2
    h["w"] = 1e-4 * (1 - p["e"]) ** 1.5
    h["i"] = h["Om"] = 1e-4 * np.ones_like(p["P"])
    return h


def difference(f, p, keys, h):
    out = {}
    q = {k: np.asarray(v, LD) for k, v in p.items()}
    for k in keys:
        d = np.asarray(h[k], LD)
        s = 0
        for m, c in ((1, 8), (-1, -8), (2, -1), (-2, 1)):
            s = s + c * f({**q, k: q[k] + m * d})
        out[k] = (s / (12 * d)).astype(float)
    return out


def size(p, scale):
    """A bound on the size of the derivatives, for tolerances relative to it."""
    amp = (1 + np.abs(p["t"] - p["T0"]) / p["P"]) / (1 - p["e"]) ** 3
    one = {k: amp / np.abs(p[k]) for k in ("P", "M", "m", "R")}
    one["P"] = amp * 7 / p["P"]
    one["t"] = one["T0"] = 7 / p["P"] / (1 - p["e"]) ** 3
    one["e"] = one["w"] = amp
    one["i"] = one["Om"] = np.ones_like(amp) * 10
    return {k: scale * v for k, v in one.items()}


def combos(ctx, rng):
    every = orb.all_combos()
    if ctx.thorough:
        return every
    # all pairs of choices occur many times in a third of the combinations
    return [every[i] for i in rng.permutation(len(every))[:84]]


@JOBS(shards=(7, 8))
def bodies(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    order = np.random.default_rng(mon.seed)  # alike in every shard
    for combo in ctx.mine(combos(ctx, order)):
        n = ctx.n(40, 80)
        p = draw(rng, n)
        if combo["inc"] == "inclination":  # face-on too: impact parameters are singular there
            p["i"] = np.where(rng.random(n) < 0.12, rng.choice([0.0, np.pi], n), p["i"])
        p["t"], kind = special_times(p, combo, rng)
        massive = combo["mass"] == "mass"
        W = rng.normal(size=(n, 16))

        def body(q, combo=combo):
            c = elements(q, combo, jnp)
            kw = orb.kwargs(q, c, combo, jnp)
            return api.OrbitalBody(api.Central(mass=q["M"], radius=q["R"]), api.Body(**kw))

        def all_of(q, w, part, massive=massive, body=body):
            b, t = body(q), q["t"]
            if part == 0:
                out = b.relative_position(t)
            elif part == 1:
                out = (*b.position(t), *b.central_position(t))
            elif part == 2:
                out = b.relative_velocity(t)
                if massive:
                    out = (*out, *b.velocity(t), *b.central_velocity(t))
            else:
                out = (b.radial_velocity(t),)
            return sum(w[j] * x.magnitude for j, x in enumerate(out))

        def reference(q, w, part, combo=combo, massive=massive):
            c = elements(q, combo, np)
            x, v = state(q["t"], c)
            f = c["m"] / (c["M"] + c["m"])
            if part == 0:
                out = list(x)
            elif part == 1:
                out = [*((1 - f) * x), *(-f * x)]
            elif part == 2:
                out = list(v)
                if massive:
                    out += [*((1 - f) * v), *(-f * v)]
            else:
                out = [f * v[2]]
            return sum(np.asarray(w[:, j], LD) * y for j, y in enumerate(out))

        c = elements(p, combo, np)
        a = np.asarray(c["a"], float)
        h = steps(p)
        names = ["relative", "barycentric", "velocity", "radial-velocity"]
        for part, rule in enumerate(names):
            if part in (1, 3) and not massive:
                continue
            f = lambda q, w, part=part: all_of(q, w, part)
            G = mon.part(mon.call, "finite", jax.jit(jax.vmap(jax.grad(f))), p, W, what=rule,
                         witness=dict(combo=combo))
            if G is None:
                continue
            tan = {k: rng.normal(size=n) * size(p, 1.0)["t" if k == "r" else k] ** -1 for k in p}
            F = mon.part(mon.call, "forward",
                         jax.jit(jax.vmap(lambda q, w, s, f=f: jax.jvp(lambda q: f(q, w), (q,), (s,))[1])),
                         p, W, tan)
            G = {k: np.asarray(v) for k, v in G.items()}
            want = difference(lambda q, part=part: reference(q, W, part), p, KEYS, h)
            nW = np.abs(W).sum(1)
            scale = nW * (a if part < 2 else 2 * np.pi * a / p["P"] / (1 - p["e"]))
            sizes = size(p, scale)
            for k in KEYS:
                wit = dict(parameter=k, combo=combo, kind=kind, **p)
                mon.finite("finite", G[k], **wit)
                mon.close(rule, G[k], want[k], atol=1e-9 * sizes[k], **wit)
            if F is not None:
                dot = sum(G[k] * tan[k] for k in p)
                tot = sum(np.abs(sizes.get(k, 0.0) * tan[k]) for k in p)
                mon.close("forward", np.asarray(F), dot, atol=1e-12 * tot, combo=combo)
        ecc = combo["ecc"] != "none"
        for rule, hit in (
            ("circular", (p["e"] == 0) & ecc), ("edge-on", p["i"] == np.pi / 2),
            ("face-on", (np.sin(p["i"]) < 1e-15) & (combo["inc"] == "inclination")),
            ("special-omega", (np.abs(np.remainder(p["w"] / (np.pi / 2) + 0.5, 1) - 0.5) < 1e-9) & ecc),
            ("at-transit", (kind == 1) | (kind == 4)), ("at-periastron", kind == 2),
        ):
            mon._rule(rule)["events"] += int(hit.sum())
        mon.fact("parametrisations")
        mon.cases_from(*(p[k] for k in KEYS), nontrivial=True)


@JOBS(shards=(1, 4))
def amplitudes(mon, rng, ctx):
    """Given semi-amplitudes, and positions on the sky through a parallax."""
    import jax
    import jax.numpy as jnp

    for ecc in orb.ECCS:
        for stored in (False, True):
            combo = dict(time="peri" if stored else "transit", size="period", inc="inclination", ecc=ecc,
                         node="node", mass="mass")
            n = ctx.n(60, 300)
            p = draw(rng, n)
            p["t"], _ = special_times(p, combo, rng)
            p["K"] = 10 ** rng.uniform(-1, 2, n)
            p["plx"] = 10 ** rng.uniform(-2, 1, n)

            def make(q, combo=combo, **kw):
                c = elements(q, combo, jnp)
                kw = {**orb.kwargs(q, c, combo, jnp), **kw}
                return api.OrbitalBody(api.Central(mass=q["M"], radius=q["R"]), api.Body(**kw))

            def rv(q, stored=stored, make=make):
                if stored:
                    return make(q, radial_velocity_semiamplitude=q["K"]).radial_velocity(q["t"]).magnitude
                v = make(q).radial_velocity(q["t"], semiamplitude=q["K"])
                return getattr(v, "magnitude", v)

            def ref_rv(q, combo=combo):
                c = elements(q, combo, np)
                sf, cf, _ = ref.kepler(2 * ref.PI / c["P"] * (q["t"] - c["tp"]), c["e"])
                return q["K"] * (np.cos(c["w"]) * (cf + c["e"]) - np.sin(c["w"]) * sf)

            def sky(q, make=make, stored=stored):
                if stored:
                    x = make(q, parallax=q["plx"]).relative_position(q["t"])
                else:
                    x = make(q).relative_position(q["t"], parallax=q["plx"])
                return x[0].magnitude + 0.5 * x[1].magnitude - 0.7 * x[2].magnitude

            def ref_sky(q, combo=combo):
                x, _ = state(q["t"], elements(q, combo, np))
                return (x[0] + LD(0.5) * x[1] - LD(0.7) * x[2]) * q["plx"] * LD(orb.R_SUN_AU)

            a = np.asarray(elements(p, combo, np)["a"], float)
            for rule, f, g, extra, scale in (
                ("semi-amplitude", rv, ref_rv, "K", 2 * p["K"]),
                ("parallax", sky, ref_sky, "plx", 3 * a * p["plx"] * orb.R_SUN_AU),
            ):
                G = mon.part(mon.call, "finite", jax.jit(jax.vmap(jax.grad(f))), p, what=rule,
                             witness=dict(combo=combo))
                if G is None:
                    continue
                h = {**steps(p), extra: 1e-3 * p[extra]}
                want = difference(g, p, (*KEYS, extra), h)
                sizes = {**size(p, scale), extra: scale / p[extra] / (1 - p["e"])}
                for k in (*KEYS, extra):
                    mon.finite("finite", np.asarray(G[k]), parameter=k, combo=combo, **p)
                    mon.close(rule, np.asarray(G[k]), want[k], atol=1e-9 * sizes[k], parameter=k,
                              combo=combo, stored=stored, **p)
            mon.cases_from(*(p[k] for k in KEYS), p["K"], nontrivial=True)


@JOBS(shards=(1, 3))
def systems(mon, rng, ctx):
    """The gradient through a system of alike or unlike bodies is that of each body."""
    import jax
    import jax.numpy as jnp

    every = orb.all_combos()
    for k in range(ctx.n(4, 20)):
        alike = k % 2 == 0
        m = int(rng.integers(2, 4))
        pick = [every[int(rng.integers(len(every)))] for _ in range(m)]
        if alike:
            pick = [pick[0]] * m
        pick = [{**c, "mass": "mass"} for c in pick]
        n = ctx.n(8, 20)
        P = [draw(rng, n) for _ in range(m)]
        for q in P:
            q["M"], q["R"], q["t"] = P[0]["M"], P[0]["R"], P[0]["t"]
        W = rng.normal(size=(n, 4, m))

        def one(q, combo):
            return api.Body(**orb.kwargs(q, elements(q, combo, jnp), combo, jnp))

        def f(Q, w, pick=pick):
            s = api.System(api.Central(mass=Q[0]["M"], radius=Q[0]["R"]),
                           bodies=[one(q, c) for q, c in zip(Q, pick, strict=True)])
            out = (*s.relative_position(Q[0]["t"]), s.radial_velocity(Q[0]["t"]))
            return sum(jnp.sum(w[j] * x.magnitude) for j, x in enumerate(out))

        def reference(Q, w, pick=pick):
            tot = 0
            for b, (q, combo) in enumerate(zip(Q, pick, strict=True)):
                c = elements({**q, **{k: Q[0][k] for k in ("M", "R", "t")}}, combo, np)
                x, v = state(Q[0]["t"], c)
                out = [*x, c["m"] / (c["M"] + c["m"]) * v[2]]
                # the impact parameter in units of a star of another radius is the same orbit
                tot = tot + sum(np.asarray(w[:, j, b], LD) * y for j, y in enumerate(out))
            return tot

        G = mon.part(mon.call, "system", jax.jit(jax.vmap(jax.grad(f))), P, W, what="system",
                     witness=dict(combos=pick))
        if G is None:
            continue
        for b in range(m):
            a = np.asarray(elements(P[b], pick[b], np)["a"], float)
            scale = np.abs(W).sum((1, 2)) * (a + 2 * np.pi * a / P[b]["P"] / (1 - P[b]["e"]))
            keys = [k for k in KEYS if k not in ("M", "R", "t")]
            want = difference(
                lambda q, b=b: reference([{kk: np.asarray(v, LD) for kk, v in x.items()} if j != b else q
                                          for j, x in enumerate(P)], W), P[b], keys, steps(P[b]))
            sizes = size(P[b], scale)
            for key in keys:
                if key in ("i",) and pick[b]["inc"] == "impact" and b > 0:
                    # converted with the star of the first body, which is the same one
                    pass
                mon.close("system", np.asarray(G[b][key]), want[key], atol=1e-9 * sizes[key],
                          parameter=key, body=b, combos=pick)
        mon.cases_from(P[0]["P"], P[0]["t"], P[1]["P"], nontrivial=True)


@JOBS(shards=(1, 2))
def transit(mon, rng, ctx):
    """Straight lines of transit orbits."""
    import jax

    n = ctx.n(300, 3000)
    for given in ("duration", "speed"):
        p = dict(P=10 ** rng.uniform(-0.3, 2, n), d=rng.uniform(0.02, 0.5, n), T0=rng.uniform(-5, 5, n),
                 b=rng.uniform(0, 0.95, n), r=10 ** rng.uniform(-2, -0.3, n))
        p["b"] = np.where(rng.random(n) < 0.2, 0.0, p["b"])
        # some miss the star: given a duration, the planet then stays at conjunction
        miss = rng.random(n) < 0.25
        p["b"] = np.where(miss, (1 + p["r"]) * (1 + 10 ** rng.uniform(-3, 0.5, n)), p["b"])
        p["T0"] = np.where(rng.random(n) < 0.2, 0.0, p["T0"])
        k = rng.integers(-5, 6, n)
        x = rng.uniform(-0.48, 0.48, n)
        x = np.where(rng.random(n) < 0.2, 0.0, x)
        p["t"] = p["T0"] + (k + x) * p["P"]
        W = rng.normal(size=(n, 2))

        def f(q, w, given=given):
            o = api.TransitOrbit(period=q["P"], time_transit=q["T0"], impact_param=q["b"],
                                 radius_ratio=q["r"], **{given: q["d"]})
            x, y, z = o.relative_position(q["t"])
            return w[0] * x.magnitude + w[1] * y.magnitude

        G = mon.part(mon.call, "finite", jax.jit(jax.vmap(jax.grad(f))), p, W, what="transit orbit")
        if G is None:
            return
        dt = x * p["P"]
        ch = np.sqrt(np.maximum(0, (1 + p["r"]) ** 2 - p["b"] ** 2))
        v = 2 * ch / p["d"] if given == "duration" else p["d"]
        zero = np.zeros(n)
        dur = given == "duration"
        mon.fact("orbits without transits", int(miss.sum()))
        mon._rule("no-transit")["events"] += int(miss.sum())
        ch = np.where(miss, np.inf, ch)  # no derivative through the chord
        want = dict(
            t=W[:, 0] * v, T0=-W[:, 0] * v, P=-W[:, 0] * v * k,
            d=W[:, 0] * dt * (-v / p["d"] if dur else 1.0),
            b=W[:, 1] - (W[:, 0] * dt * 2 / p["d"] * p["b"] / ch if dur else zero),
            r=W[:, 0] * dt * 2 / p["d"] * (1 + p["r"]) / ch if dur else zero,
        )
        for key, val in want.items():
            mon.close("transit-orbit", np.asarray(G[key]), val,
                      atol=1e-9 * np.abs(W).sum(1) * (1 + v) * (1 + np.abs(dt)) * (1 + abs(k)) / p["d"],
                      parameter=key, given=given, **p)
        mon.cases_from(*p.values(), nontrivial=True)


@JOBS(shards=(1, 3))
def ttv(mon, rng, ctx):
    """Transit orbits with timing variations, given as offsets or as times."""
    import jax

    for kind in ("offsets", "times"):
        for m in (2, 5, 9):
            n = ctx.n(100, 800)
            p = dict(d=rng.uniform(0.05, 0.3, n), b=rng.uniform(0, 0.9, n), r=rng.uniform(0.01, 0.3, n))
            P, T0 = rng.uniform(3, 20, n), rng.uniform(-5, 5, n)
            inds = np.arange(m)
            if kind == "offsets":
                p["o"] = rng.normal(size=(n, m)) * 0.05 * P[:, None]
                p["P"], p["T0"] = P, T0
                tt = T0[:, None] + P[:, None] * inds + p["o"] - p["o"].mean(1, keepdims=True)
            else:
                tt = p["o"] = T0[:, None] + P[:, None] * inds + rng.normal(size=(n, m)) * 0.05 * P[:, None]
            j = rng.integers(0, m, n)
            now = tt[np.arange(n), j]
            p["t"] = now + rng.uniform(-0.3, 0.3, n) * P
            # and periodically before the first and after the last
            out = rng.integers(-2, 3, n)
            shift = np.where((j == 0) & (out < 0) | (j == m - 1) & (out > 0), out, 0)
            X = np.stack([np.ones(m), inds])
            L = np.linalg.solve(X @ X.T, X)
            Pfit = p["P"] if kind == "offsets" else (p["o"] @ L[1])
            p["t"] = p["t"] + shift * Pfit
            W = rng.normal(size=(n, 2))

            def f(q, w, kind=kind):
                kw = dict(duration=q["d"], impact_param=q["b"], radius_ratio=q["r"])
                if kind == "offsets":
                    o = api.TTVOrbit(period=q["P"], time_transit=q["T0"], ttvs=(q["o"],), **kw)
                else:
                    o = api.TTVOrbit(transit_times=(q["o"],), **kw)
                x, y, z = o.relative_position(q["t"])
                return w[0] * x.magnitude + w[1] * y.magnitude

            rule = "ttv-" + kind
            G = mon.part(mon.call, rule, jax.jit(jax.vmap(jax.grad(f))), p, W, what="TTV orbit")
            if G is None:
                continue
            dt = p["t"] - now - shift * Pfit
            ch = np.sqrt((1 + p["r"]) ** 2 - p["b"] ** 2)
            v = 2 * ch / p["d"]
            hot = np.eye(m)[j]
            want = dict(
                t=v, d=-v * dt / p["d"], r=2 * dt / p["d"] * (1 + p["r"]) / ch,
                b=-2 * dt / p["d"] * p["b"] / ch,
            )
            if kind == "offsets":
                want["T0"] = -v
                want["P"] = -v * (j + shift)
                want["o"] = -v[:, None] * (hot - 1 / m)
            else:
                want["o"] = -v[:, None] * (hot + shift[:, None] * L[1])
            for key, val in want.items():
                w0 = W[:, 0] if np.ndim(val) == 1 else W[:, :1]
                val = w0 * val + (W[:, 1] if key == "b" else 0.0)
                tol = 1e-8 * np.abs(W).sum(1) * (1 + v) * (1 + np.abs(dt)) * 10 / p["d"]
                mon.finite("finite", np.asarray(G[key]), parameter=key)
                mon.close(rule, np.asarray(G[key]), val, atol=tol if np.ndim(val) == 1 else tol[:, None],
                          parameter=key, m=m, j=j, shift=shift, **p)
            mon.cases_from(p["t"], p["d"], p["o"][:, 0], nontrivial=True)
