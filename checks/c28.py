"""C28: single precision results are the double precision ones, to single precision."""

import numpy as np

from lib import api, catalog
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one row of parameters, representable in single precision, of a public observable "
    "(40 configurations, plus wide ranges of spots, orbits, occultors and transits), evaluated with x64 "
    "disabled and enabled. Non-trivial: all. Oracle: the double precision result and its sensitivities "
    "(directional derivatives along random signs of all inputs), which give the error that rounding of "
    "the inputs forces."
)
ASSUMPTIONS = ["catalogue parameters are kept 0.02 from contacts"]
REQUIRED = ["values", "dtype", "finite", "gradient-finite", "gradient"]
NAMES = [n for n in sorted(catalog.CATALOG) if n != "clebsch"]
EPS = float(np.finfo(np.float32).eps)
# multiple of the forced error, and of the size of the output, that is accepted
FACTOR, SIZE = 100.0, 100.0


def representable(p):
    import jax

    return jax.tree_util.tree_map(lambda v: np.asarray(v, np.float32).astype(np.float64), p)


def single(p):
    import jax

    return jax.tree_util.tree_map(lambda v: np.asarray(v, np.float32), p)


def compare(mon, rng, name, fn, p, n, gradient, grow=1.0):
    import jax
    import jax.numpy as jnp

    p = representable(p)
    p32 = single(p)
    w = dict(observable=name)

    def outs(q):
        return [jnp.asarray(v) for v in catalog.tree(fn(q))]

    with jax.experimental.disable_x64():
        got = [np.asarray(v) for v in mon.call("values", jax.jit(jax.vmap(outs)), p32, what=name)]
    for k, g in enumerate(got):
        mon.check("dtype", g.dtype in (np.float32, np.int32, np.bool_), f"{g.dtype}", output=k, **w)

    tm = jax.tree_util.tree_map
    # four directions per row, as a second axis
    signs = tm(lambda v: np.abs(v)[:, None] * rng.choice([-1.0, 1.0], (n, 4) + v.shape[1:]), p)

    def sensitive(g, q, ss):
        v, lin = jax.linearize(g, q)
        return v, tm(lambda d: jnp.abs(d).sum(0), jax.vmap(lin)(ss))

    want, forced = jax.jit(jax.vmap(lambda q, ss: sensitive(outs, q, ss)))(p, signs)
    ok = np.ones(n, bool)
    for k, (g, v, s) in enumerate(zip(got, want, forced, strict=True)):
        v, s = np.asarray(v, float), np.asarray(s, float)
        fin = np.isfinite(v) & np.isfinite(s)
        mon.all("finite", (np.isfinite(g) | ~fin).reshape(n, -1).all(1), "not finite in single precision",
                output=k, p=rows_of(p, n), **w)
        # outputs are sums of terms as large as other rows of the same output
        size = np.abs(np.where(fin, v, 0)).max(initial=0)
        tol = grow * EPS * (FACTOR * np.where(fin, s, 0) + SIZE * size + 1e-3)
        mon.close("values", np.where(fin & np.isfinite(g), g, 0), np.where(fin & np.isfinite(g), v, 0),
                  atol=tol, output=k, p=rows_of(p, n), **w)
        ok &= fin.reshape(n, -1).all(1)
    for i in range(n):
        mon.case(name, *[np.asarray(v).ravel()[0] for v in jax.tree_util.tree_leaves(catalog.row(p, i)) if v.size])
    mon.fact("rows", n)
    if not gradient:
        return
    cot = [rng.normal(size=v.shape[1:]) for v in want]

    def loss(q):
        return sum(jnp.vdot(jnp.asarray(c, v.dtype), v) for c, v in zip(cot, outs(q), strict=True))

    with jax.experimental.disable_x64():
        g32 = mon.call("gradient-finite", jax.jit(jax.vmap(jax.grad(loss))), p32, what=name)
        g32 = [np.asarray(v) for v in jax.tree_util.tree_leaves(g32)]

    g64, forced = jax.jit(jax.vmap(lambda q, ss: sensitive(jax.grad(loss), q, ss)))(p, signs)
    # derivatives in different inputs share their terms
    size = max([np.abs(v[np.isfinite(v)]).max(initial=0) for v in map(np.asarray, jax.tree_util.tree_leaves(g64))],
               default=0)
    for k, (g, v, s) in enumerate(zip(g32, *map(jax.tree_util.tree_leaves, (g64, forced)), strict=True)):
        v, s = np.asarray(v), np.asarray(s)
        if not v.size:
            continue
        fin = np.isfinite(v)
        mon.all("gradient-finite", (np.isfinite(g) | ~fin).reshape(n, -1).all(1),
                "derivative not finite in single precision", input=k, p=rows_of(p, n), **w)
        fin &= np.isfinite(s) & np.isfinite(g)
        tol = 10 * grow * EPS * (FACTOR * np.where(fin, s, 0) + SIZE * size + 1e-3)
        mon.close("gradient", np.where(fin, g, 0), np.where(fin, v, 0), atol=tol, input=k,
                  p=rows_of(p, n), **w)


def rows_of(p, n):
    import jax

    return np.stack([np.asarray(v, float).reshape(n, -1)[:, 0]
                     for v in jax.tree_util.tree_leaves(p) if v.size], -1)


# rounding of single precision these observables amplify by construction
GROW = {"transits": 30.0, "transit-orbit": 20.0}
LOCAL = {}


def local(name, gradient=True):
    def deco(pair):
        draw, fn = pair()
        LOCAL[name] = dict(draw=draw, fn=fn, gradient=gradient)
        return pair

    return deco


U = catalog.U


@local("spots")
def _():
    def draw(rng, n):
        return dict(c=U(rng, -0.5, 1, n), r=U(rng, 0.05, 1.5, n), lat=U(rng, -1.5, 1.5, n),
                    lon=U(rng, -3, 3, n))

    return draw, lambda p: api.ylm_spot(5)(p["c"], p["r"], p["lat"], p["lon"]).todense()


@local("eccentric")
def _():
    def draw(rng, n):
        return dict(M=U(rng, -60, 60, n), e=np.where(rng.random(n) < 0.2, 0, 1 - 10 ** U(rng, -2, 0, n)))

    return draw, lambda p: api.kepler(p["M"], p["e"])


@local("planets")
def _():
    """Elements in the ranges of real systems, many periods after the reference time."""
    def draw(rng, n):
        return dict(M=10 ** U(rng, -1, 1, n), R=10 ** U(rng, -1, 1, n), P=10 ** U(rng, -0.3, 3, n),
                    m=10 ** U(rng, -6, -1, n), r=10 ** U(rng, -2.3, -0.7, n), T0=U(rng, -5, 5, n),
                    b=U(rng, -0.9, 0.9, n), e=U(rng, 0, 0.7, n), w=U(rng, -3, 3, n), Om=U(rng, -3, 3, n),
                    plx=10 ** U(rng, -3, 0, n), k=U(rng, -40, 40, n))

    def fn(p):
        o = api.System(api.Central(mass=p["M"], radius=p["R"])).add_body(
            period=p["P"], mass=p["m"], radius=p["r"], time_transit=p["T0"], impact_param=p["b"],
            eccentricity=p["e"], omega_peri=p["w"], asc_node=p["Om"])
        b = o.bodies[0]
        t = p["T0"] + p["k"] * p["P"]
        return catalog.tree([b.position(t), b.velocity(t), b.radial_velocity(t), b.relative_position(t),
                             b.relative_position(t, parallax=p["plx"])]) + [
            b.semimajor.magnitude, b.inclination.magnitude, b.time_peri.magnitude]

    return draw, fn


@local("size")
def _():
    """Orbits given by their size."""
    def draw(rng, n):
        return dict(a=10 ** U(rng, 0.5, 4, n), M=10 ** U(rng, -1, 1, n), i=U(rng, 0.1, 3, n),
                    t=U(rng, -3, 3, n), m=10 ** U(rng, -6, -1, n))

    def fn(p):
        o = api.System(api.Central(mass=p["M"], radius=1.0)).add_body(
            semimajor=p["a"], mass=p["m"], inclination=p["i"], time_peri=0.1)
        b = o.bodies[0]
        import jax.numpy as jnp

        # each coordinate is rounded like the whole vector
        return [jnp.stack(catalog.tree(b.relative_position(p["t"])))] + [
            b.radial_velocity(p["t"]).magnitude, b.period.magnitude, b.impact_param.magnitude / p["a"]]

    return draw, fn


@local("transits")
def _():
    """Transit orbits of any impact parameter, also those that miss the star."""
    def draw(rng, n):
        b = np.where(rng.random(n) < 0.3, U(rng, 1.35, 3, n), U(rng, -0.8, 0.8, n))
        return dict(P=10 ** U(rng, 0, 1.5, n), T0=U(rng, -2, 2, n), d=U(rng, 0.05, 0.3, n), b=b,
                    r=U(rng, 0.02, 0.3, n), u=U(rng, 0.1, 0.4, n, 2), f=U(rng, -0.2, 0.2, n), v=U(rng, 3, 9, n))

    def fn(p):
        out = []
        for kw in (dict(duration=p["d"]), dict(speed=p["v"])):
            o = api.TransitOrbit(period=p["P"], time_transit=p["T0"], impact_param=p["b"],
                                 radius_ratio=p["r"], **kw)
            x, y, _ = o.relative_position(p["T0"] + p["f"] * p["d"])
            out += [x.magnitude, y.magnitude, o.speed.magnitude, o.duration.magnitude]
        return out

    return draw, fn


@local("discs")
def _():
    """Limb darkened light curves of every kind of overlap, away from contacts."""
    def draw(rng, n):
        r = np.where(rng.random(n) < 0.5, 10 ** U(rng, -2, -0.5, n), U(rng, 0.3, 3, n))
        lo, hi = np.abs(1 - r), 1 + r
        b = np.select([rng.random(n) < 0.4, rng.random(n) < 0.7],
                      [lo * U(rng, 0.1, 0.9, n), lo + (hi - lo) * U(rng, 0.1, 0.9, n)], hi * U(rng, 1.1, 2, n))
        return dict(b=b, r=r, u=U(rng, 0, 0.4, n, 3))

    return draw, lambda p: api.ld_light_curve(p["u"], p["b"], p["r"], order=20)


for _y, _u in ((0, 2), (2, 1), (4, 0)):
    @local(f"occultations{_y}{_u}", gradient=False)
    def _(_y=_y, _u=_u):
        def draw(rng, n):
            p = catalog.draw_surface(rng, n, _y, _u)
            q = LOCAL["discs"]["draw"](rng, n)
            a = U(rng, -3, 3, n)
            return dict(p, r=q["r"], x=q["b"] * np.cos(a), y_=q["b"] * np.sin(a), z=rng.choice([-1.0, 1, 1], n))

        def fn(p):
            s = catalog.surface(p)
            return api.surface_light_curve(s, p["r"], p["x"], p["y_"], p["z"], p["th"])

        return draw, fn


@JOBS(shards=(8, 8))
def observables(mon, rng, ctx):
    for name in ctx.mine(NAMES):
        c = catalog.CATALOG[name]
        n = ctx.n(12, 100)
        mon.part(compare, mon, rng, name, c["fn"], c["draw"](rng, n), n,
                 c["deriv"] and (c["eager"] or ctx.thorough), GROW.get(name, 1.0))


@JOBS(shards=(4, 8))
def wide(mon, rng, ctx):
    for name in ctx.mine(list(LOCAL)):
        c = LOCAL[name]
        n = ctx.n(150, 3000)
        mon.part(compare, mon, rng, name, c["fn"], c["draw"](rng, n), n, c["gradient"],
                 GROW.get(name, 1.0))
