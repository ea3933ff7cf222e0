"""C27: orbits, surfaces, maps and polynomials are data that jax transformations pass around."""

import copy

import numpy as np

from lib import api, catalog
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one kind of object (star, body, orbit, system with alike or unlike bodies, transit "
    "and timing orbits, map, polynomial, surface, system of surfaces) with random parameters. "
    "Non-trivial: all. Oracle: the observables of the object made and observed in one traced function."
)
ASSUMPTIONS = ["parameters are kept away from contacts, so that rounding is not amplified"]
REQUIRED = [
    "rebuilt", "copied", "argument", "closure", "result", "batch", "batch-jit", "batch-row", "structure",
    "traces", "scan", "cond", "carry", "chain-rule", "object-gradient", "replace", "stack", "special", "plain",
]
KINDS = {}


def kind(name, n, eager=True, deriv=True, tol=1e-12, special=()):
    """make(p) builds the object from `n` numbers between 0.2 and 1, see(o) observes it."""

    def deco(pair):
        make, see = pair()
        KINDS[name] = dict(n=n, make=make, see=see, eager=eager, deriv=deriv, tol=tol, special=special)
        return pair

    return deco


def positions(s, t):
    return [*s.relative_position(t), *s.position(t), *s.relative_velocity(t)]


@kind("central", 2)
def _():
    return (lambda p: api.Central(mass=p[0], radius=p[1]),
            lambda c: [c.mass, c.radius, c.density])


@kind("body", 5)
def _():
    def make(p):
        return api.Body(period=3 * p[0], eccentricity=0.6 * p[1], omega_peri=p[2], mass=0.1 * p[3], radius=p[4])

    def see(b):
        o = api.OrbitalBody(api.Central(mass=1.1, radius=0.9), b)
        return [*positions(o, 0.7), o.radial_velocity(0.3), o.radius, o.semimajor]

    return make, see


@kind("orbital", 6, special=([0.5, 0.0, 0.5, 0.5, 0.5, 0.5], [0.5, 0.5, 0.0, 0.5, 0.0, 0.5]))
def _():
    def make(p):
        return api.OrbitalBody(
            api.Central(mass=p[0], radius=p[3]),
            api.Body(period=3 * p[0], eccentricity=0.6 * p[1], omega_peri=2 * p[2], mass=0.1 * p[3],
                     radius=0.1, impact_param=p[4], time_peri=p[5]))

    def see(o):
        return [*positions(o, 0.7), o.radial_velocity(0.3), o.impact_param, o.inclination, o.semimajor,
                *o.central_position(0.2), o.time_transit, o.period]

    return make, see


def light(o, t=0.02, u=(0.3, 0.1)):
    return api.limb_dark_light_curve(o, u)(t)


@kind("system-alike", 6)
def _():
    def make(p):
        s = api.System(api.Central(mass=1 + p[0], radius=p[1]))
        s = s.add_body(period=3 * p[2], radius=0.1 * p[3], mass=0.1 * p[5], time_transit=0.0, eccentricity=0.1,
                       omega_peri=p[0])
        return s.add_body(period=7 * p[2], radius=0.1 * p[4], mass=0.1 * p[0], time_transit=0.0,
                          eccentricity=p[5] * 0.3, omega_peri=p[3])

    def see(s):
        return [*positions(s, 0.4), s.radial_velocity(0.3), light(s), s.radius]

    return make, see


@kind("system-unlike", 6, special=([0.5] * 3 + [0.0, 0.5, 0.0],))
def _():
    def make(p):
        return api.System(api.Central(mass=1 + p[0], radius=p[1]), bodies=[
            api.Body(period=3 * p[2], radius=0.1 * p[3], time_transit=0.0, mass=0.2 * p[1]),
            api.Body(semimajor=9 * p[2], radius=0.1 * p[4], time_peri=0.1, eccentricity=0.4 * p[5],
                     omega_peri=p[0], impact_param=0.3 * p[3], mass=0.2 * p[3])])

    def see(s):
        return [*positions(s, 0.4), s.radial_velocity(0.3), light(s)]

    return make, see


@kind("transit", 5, special=([0.5, 0.5, 0.0, 0.5, 0.5], [0.5, 0.5, 0.5, 0.0, 0.5]))
def _():
    def make(p):
        return api.TransitOrbit(period=3 * p[0], duration=0.3 * p[1], time_transit=0.1 * p[2],
                                impact_param=0.8 * p[3], radius_ratio=0.1 * p[4])

    def see(o):
        return [*o.relative_position(0.3), light(o, 0.11), o.speed, o.radius]

    return make, see


@kind("transit-many", 5)
def _():
    def make(p):
        import jax.numpy as jnp

        f = jnp.asarray([1.0, 1.3])
        return api.TransitOrbit(period=3 * p[0] * f, speed=8 * p[1] * f, time_transit=0.1 * p[2] * f,
                                impact_param=0.6 * p[3] * f, radius_ratio=0.1 * p[4] * f)

    return make, lambda o: [*o.relative_position(0.3), light(o, 0.11), o.duration, o.radius]


@kind("ttv-times", 5)
def _():
    def make(p):
        import jax.numpy as jnp

        k = jnp.arange(4.0)
        return api.TTVOrbit(transit_times=(p[0] + 3 * k + 0.1 * p[1] * k**2, p[1] + 5 * k[:3]),
                            duration=0.2 * p[2] * jnp.ones(2), radius_ratio=0.1 * p[3] * jnp.ones(2),
                            impact_param=0.6 * p[4] * jnp.ones(2))

    return make, lambda o: [*o.relative_position(3.7), light(o, 6.6), o.period, o.time_transit]


@kind("ttv-offsets", 5, special=([0.5, 0.0, 0.0, 0.5, 0.5],))
def _():
    def make(p):
        import jax.numpy as jnp

        k = jnp.arange(5.0)
        return api.TTVOrbit(period=4 * p[0], time_transit=p[1], ttvs=(0.1 * p[2] * (k - 2) ** 2,),
                            duration=0.2 * p[3], radius_ratio=0.1 * p[4], impact_param=0.3)

    return make, lambda o: [*o.relative_position(3.7), light(o, 6.6), *o.transit_times]


def ylm(p):
    return api.Ylm({(0, 0): 1.0, (1, 0): 0.3 * p[0], (2, -2): -0.2 * p[1], (1, 1): 0.1 * p[2], (2, 1): 0.2 * p[3]})


@kind("map", 4, special=([0.0, 0.0, 0.0, 0.0], [0.5, 0.0, 0.0, 0.5]))
def _():
    return ylm, lambda y: [y.todense(), (y * 2.0).todense(), (y * y).todense()]


@kind("polynomial", 4, special=([0.0, 0.0, 0.0, 0.0],))
def _():
    def make(p):
        return api.Pijk({(0, 1, 0): p[0], (1, 0, 1): p[1], (2, 0, 0): p[2], (0, 0, 0): p[3]})

    return make, lambda q: [q.todense(), (q * q).todense(), (q + q).todense()]


def surface(p, **kw):
    kw = {"inc": 1.2 * p[4], "obl": p[5], "u": (0.3 * p[6], 0.1 * p[6]), "period": 3 * p[7], **kw}
    return api.Surface(y=ylm(p), **kw)


def at(s):
    return [api.surface_light_curve(s, 0.2 + 0.0 * s.inc, 0.3, 0.2, 5.0, 0.7), api.surface_light_curve(s, theta=0.3),
            s.intensity(0.2, 0.4), s.rotational_phase(0.3)]


ONE = [0.5] * 8


@kind("surface", 8, eager=False, special=(ONE[:5] + [0.0] + ONE[:2], [0.0] * 4 + ONE[:4], ONE[:6] + [0.0, 0.5]))
def _():
    return surface, at


@kind("surface-amplitude", 8, eager=False, special=([0.5, 0.0] + ONE[:6],))
def _():
    def make(p):
        return surface(p, normalize=False, amplitude=p[0], phase=p[1], radius=p[2])

    return make, at


@kind("surface-velocity", 8, eager=False)
def _():
    return (lambda p: surface(p, radius=p[2]),
            lambda s: [api.surface_radial_velocity(s, 0.2, 0.3, 0.2, 5.0, 0.7), s.veq, s.inc])


@kind("surface-system", 8, eager=False, deriv=False)
def _():
    def make(p):
        s = api.SurfaceSystem(api.Central(mass=1 + p[0], radius=p[1]), surface(p))
        s = s.add_body(period=3 * p[2], radius=0.2 * p[3], mass=0.1 * p[5], surface=surface(p, amplitude=p[7], normalize=False))
        return s.add_body(semimajor=9 * p[2], radius=0.1 * p[3], mass=0.1 * p[5], time_transit=0.01 * p[4])

    def see(s):
        return [api.system_light_curve(s)(0.02), s.radius, *s.position(0.1)]

    return make, see


def draw(rng, k, n):
    return rng.uniform(0.2, 1.0, (n, k["n"]))


def numbers(see, o):
    return catalog.tree(see(o))


def same(mon, rule, got, want, tol, **w):
    if not mon.check(rule, len(got) == len(want), "number of outputs", **w):
        return
    for j, (g, v) in enumerate(zip(got, want, strict=True)):
        v = np.asarray(v)
        mon.close(rule, np.asarray(g), v, atol=tol * (1 + np.abs(v).max(initial=0)), output=j, **w)


@JOBS(shards=(8, 8))
def kinds(mon, rng, ctx):
    # the slow ones in different shards
    names = sorted(KINDS, key=lambda k: (KINDS[k]["eager"], k))
    for name in ctx.mine(names):
        for _ in range(ctx.n(1, 3)):
            mon.part(one, mon, rng, ctx, name)


def one(mon, rng, ctx, name):
    import jax
    import jax.numpy as jnp

    k = KINDS[name]
    make, see, tol = k["make"], k["see"], k["tol"]
    n = 4
    P = draw(rng, k, n)
    w = dict(kind=name)
    # of the slow kinds only some of the transformations, others for another seed
    some = ["stack", "scan", "cond", "carry", "chain", "batch-jit"]
    if not (k["eager"] or ctx.thorough):
        some = list(rng.permutation(some)[:2])
    tree, tm = jax.tree_util, jax.tree_util.tree_map
    f = lambda o: numbers(see, o)
    whole = jax.jit(lambda p: f(make(p)))
    want = [[np.asarray(v) for v in mon.call("result", whole, p, what=name)] for p in P]
    stacked = [np.stack(v) for v in zip(*want, strict=True)]

    traces = []

    def seen(o):
        traces.append(1)
        return f(o)

    look = jax.jit(seen)
    built = [mon.call("argument", make, jnp.asarray(p), what="making " + name) for p in P]
    leaves, shape = tree.tree_flatten(built[0])
    arrays = all(isinstance(v, float | int | complex | bool | np.ndarray | np.generic | jax.Array) for v in leaves)
    mon.check("structure", arrays, "a leaf that is not a number", leaves=[type(v).__name__ for v in leaves], **w)
    for i, o in enumerate(built):
        same(mon, "argument", mon.call("argument", look, o, what=name), want[i], tol, **w)
        mon.check("structure", tree.tree_structure(o) == shape, "depends on the values", **w)
        mon.check("structure", [np.shape(v) for v in tree.tree_leaves(o)] == [np.shape(v) for v in leaves],
                  "shapes depend on the values", **w)
    mon.check("traces", len(traces) == 1, f"{len(traces)} traces for {n} objects of one kind", **w)

    for i in (0, 1):
        o = built[i]
        again = tree.tree_unflatten(shape, tree.tree_leaves(o))
        same(mon, "rebuilt", look(again), want[i], tol, **w)
        same(mon, "copied", look(copy.deepcopy(o)), want[i], tol, **w)
        mon.check("rebuilt", tree.tree_structure(again) == shape, "another structure", **w)
        same(mon, "closure", mon.call("closure", jax.jit(lambda o=o: f(o)), what=name), want[i], tol, **w)
        if k["eager"]:
            same(mon, "argument", [np.asarray(v) for v in mon.call("argument", f, o)], want[i], tol, **w)
    made = jax.jit(make)
    for i in range(2):
        o = mon.call("result", made, jnp.asarray(P[i]), what=name)
        same(mon, "result", look(o), want[i], tol, **w)
        # (rules of weak types aside) it is the same object that was made outside of jit
        mon.check("structure", tree.tree_structure(o) == shape, "differs inside of jit", **w)
        same(mon, "result", [np.asarray(v, float) for v in tree.tree_leaves(o)],
             [np.asarray(v, float) for v in tree.tree_leaves(built[i])], 1e-13, **w)

    # batches of objects
    batch = mon.call("batch", jax.vmap(make), jnp.asarray(P), what="batch of " + name)
    got = mon.call("batch", jax.jit(jax.vmap(f)), batch, what="batch of " + name)
    same(mon, "batch", got, stacked, tol, **w)
    if "batch-jit" in some:
        every = mon.call("batch-jit", jax.jit(jax.vmap(make)), jnp.asarray(P), what="batch of " + name)
    for i in (0, n - 1):
        if "batch-jit" in some:
            row = tm(lambda v, i=i: v[i], every)
            same(mon, "batch-jit", mon.call("batch-row", look, row), want[i], tol, **w)
        row = tm(lambda v, i=i: v[i], batch)
        same(mon, "batch-row", mon.call("batch-row", look, row), want[i], tol, **w)
    heap = tm(lambda *v: jnp.stack(v), *built)
    if "stack" in some:
        mapped = mon.call("stack", jax.jit(lambda o: jax.lax.map(f, o)), heap, what="map over " + name)
        same(mon, "stack", mapped, stacked, tol, **w)

    # control flow
    def body(c, o):
        return c + 1.0, f(o)

    if "scan" in some:
        _, out = mon.call("scan", jax.jit(lambda o: jax.lax.scan(body, 0.0, o)), heap, what="scan over " + name)
        same(mon, "scan", out, stacked, tol, **w)
    a, b = (tm(jnp.asarray, o) for o in built[:2])
    pick = jax.jit(lambda z, a, b: f(jax.lax.cond(z > 0, lambda: a, lambda: b)))
    for z, i in ((1.0, 0), (-1.0, 1)) if "cond" in some else ():
        same(mon, "cond", mon.call("cond", pick, z, a, b, what=name), want[i], tol, **w)

    def swap(n, a, b):
        a, b = jax.lax.fori_loop(0, n, lambda _, c: (c[1], c[0]), (a, b))
        return f(a)

    swap = jax.jit(swap)
    for m in (0, 3) if "carry" in some else ():
        same(mon, "carry", mon.call("carry", swap, m, a, b, what=name), want[m % 2], tol, **w)

    # derivatives with respect to the object
    if k["deriv"] and "chain" in some:
        W = [rng.normal(size=np.shape(v)) for v in want[0]]
        s = lambda o: sum(jnp.sum(c * v) for c, v in zip(W, f(o), strict=True))
        direct = np.asarray(jax.jit(jax.grad(lambda p: s(make(p))))(jnp.asarray(P[0])))

        def through(p):
            fl, sh = tree.tree_flatten(make(p))
            isf = [jnp.issubdtype(jnp.result_type(v), jnp.floating) for v in fl]
            num = [v for v, y in zip(fl, isf, strict=True) if y]

            def of(num):
                it = iter(num)
                return s(tree.tree_unflatten(sh, [next(it) if y else v for v, y in zip(fl, isf, strict=True)]))

            return num, of

        def chained(p, d):
            num, of = through(p)
            _, dn = jax.jvp(lambda q: [jnp.asarray(v, float) for v in through(q)[0]], (p,), (d,))
            g = jax.grad(of)([jnp.asarray(v, float) for v in num])
            return sum(jnp.sum(x * y) for x, y in zip(g, dn, strict=True)), g

        d = rng.normal(size=k["n"])
        val, g = mon.call("chain-rule", jax.jit(chained), jnp.asarray(P[0]), d, what=name)
        mon.close("chain-rule", np.asarray(val), direct @ d,
                  atol=1e-8 * (1 + np.abs(direct * d).sum() + sum(float(np.abs(x).sum()) for x in g) * 1e-3), **w)
        for x in g:
            mon.finite("object-gradient", x, **w)

    for v in k["special"]:
        v = jnp.asarray(np.asarray(v, float))
        o = mon.call("special", make, v, what=name)
        mon.check("special", tree.tree_structure(o) == shape, "structure depends on the values", values=v, **w)
        ref = [np.asarray(x) for x in whole(v)]
        same(mon, "special", mon.call("special", look, o), ref, tol, values=v, **w)
        # plain numbers, zero too, are values like any other: the same tree, usable in batches
        plain = [mon.call("plain", make, [float(x) for x in q], what="making " + name) for q in (P[0], np.asarray(v))]
        for o in plain:
            mon.check("plain", tree.tree_structure(o) == shape, "structure depends on the values", values=v, **w)
        same(mon, "plain", mon.call("plain", look, plain[1]), ref, tol, values=v, **w)
        pair = tm(lambda *x: jnp.stack([jnp.asarray(y, float) for y in x]), *plain)
        got = mon.call("plain", jax.jit(jax.vmap(f)), pair, what="batch of " + name)
        same(mon, "plain", [x[1] for x in got], ref, tol, values=v, **w)
        same(mon, "plain", [x[0] for x in got], want[0], tol, values=v, **w)
    mon.check("traces", len(traces) <= 4 + len(k["special"]), f"{len(traces)} traces", **w)
    for p in P:
        mon.case(name, *p)


@JOBS(shards=(2, 2))
def replaced(mon, rng, ctx):
    """Replacing a parameter of a surface gives the surface made with that parameter."""
    import equinox as eqx
    import jax

    k = KINDS["surface"]
    look = jax.jit(lambda s: numbers(at, s))
    for it in range(ctx.n(2, 8)):
        p, q = draw(rng, k, 2)
        fields = dict(inc=1.2 * q[4], obl=q[5], u=(0.3 * q[6], 0.1 * q[6]), period=3 * q[7], phase=q[0])
        base = dict(normalize=False, amplitude=p[0], phase=p[1])
        s = surface(p, **base)
        for name in fields if ctx.thorough else rng.permutation(list(fields))[:2]:
            name = str(name)
            new = surface(p, **{**base, name: fields[name]})
            got = eqx.tree_at(lambda s, name=name: getattr(s, name), s, getattr(new, name))
            same(mon, "replace", mon.call("replace", look, got), [np.asarray(v) for v in look(new)], 1e-12, field=name)
        new = surface(p, **{**base, "amplitude": q[0]})
        got = eqx.tree_at(lambda s: s.amplitude, s, new.amplitude)
        same(mon, "replace", mon.call("replace", look, got), [np.asarray(v) for v in look(new)], 1e-12, field="amplitude")
        new = api.Surface(y=ylm(q), **{"inc": 1.2 * p[4], "obl": p[5], "u": (0.3 * p[6], 0.1 * p[6]),
                                       "period": 3 * p[7], **base})
        got = eqx.tree_at(lambda s: s.y, s, new.y)
        same(mon, "replace", mon.call("replace", look, got), [np.asarray(v) for v in look(new)], 1e-12, field="y")
        mon.case("replace", *p, *q)
