"""C22: system surface light curves combine the right bodies, phases and geometry."""

import numpy as np

from lib import api, whole, systems as S
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one (structure of the system, parameters, time): 0..5 bodies on circular and "
    "eccentric orbits, with or without surfaces, periods and limb darkening; times in transits, "
    "eclipses and elsewhere. Non-trivial: something is occulted or rotates. Oracle: an "
    "independent orbit, rotation and quadrature of every pair of occultor and surface."
)
ASSUMPTIONS = ["the deficits of occultors that overlap on the star are added (as documented by "
               "the per body sum)"]
REQUIRED = [
    "star", "body", "no-surface", "shape", "pairwise", "forms", "order-of-bodies", "add-body",
    "empty", "units", "time-shape", "in-transit", "in-eclipse", "default-surface", "low-order",
    "whole-numbers",
]

s = S.surf
STRUCTS = [
    (s(2, 2), [("ecc", s(1, 1)), ("plain", None)]),
    (None, [("inc", s(2, 0)), ("eccinc", s(1, 0))]),
    (s(1, 0, period=False), [("plain", s(2, 1))] * 3),
    (s(0, 2), [("ecc", None)]),
    (s(3, 1), [("eccinc", s(0, 2))]),
    (s(0, 0), [("plain", None), ("plain", s(0, 0, period=False)), ("ecc", None)]),
    (s(1, 1, obl=False), [("inc", s(2, 0, inc=False)), ("plain", s(2, 0, period=False))]),
    (s(2, 0, inc=None), []),
    (s(1, 2), [("ecc", s(1, 0)), ("ecc", s(1, 0))]),
    (s(0, 3), [("plain", s(1, 1, inc=None)), ("eccinc", s(3, 0))]),
    (None, []),
    (s(2, 1), [("plain", None), ("plain", None)]),
    (s(1, 1), [("plain", s(1, 0))] * 5),
    (s(1, 0), [("ecc", None), ("plain", s(0, 1)), ("inc", None), ("plain", s(1, 0, period=False))]),
]


@JOBS(shards=(6, 8))
def structures(mon, rng, ctx):
    import jax

    for struct in ctx.mine(STRUCTS):
        n, nt = ctx.n(12, 60), ctx.n(8, 24)
        nb = len(struct[1])
        for how in (("init", "add") if ctx.thorough else (["init", "add"][int(rng.integers(2))],)):
            p = S.draw(rng, n, struct)
            t = S.times(rng, p, nt)
            f = jax.jit(jax.vmap(lambda p, t, how=how: api.system_light_curve(
                S.build(struct, p, how))(t)))
            got = np.asarray(mon.call("star", f, p, t, what=f"{struct} {how}"))
            if not mon.check("shape", got.shape == (n, nt, nb + 1), f"{got.shape}", struct=str(struct)):
                continue
            R = [[S.light_curves(struct, p, i, x) for x in t[i]] for i in range(n)]
            want = np.array([[a for a, _ in r] for r in R])
            tol = np.array([[b for _, b in r] for r in R])
            # the position is known to rounding times the phase, next to contacts that matters
            tol += 1e-8 * np.abs(want).max(axis=(0, 1))
            w = dict(row=np.arange(n), M=p["M"], R=p["R"], t=t, struct=str(struct))
            mon.close("star", got[..., 0], want[..., 0], atol=tol[..., 0],
                      mech=f"star with {nb} bodies", **w)
            for k, (_, surf) in enumerate(struct[1]):
                if surf is None:
                    mon.close("no-surface", got[..., k + 1], np.zeros((n, nt)), atol=1e-300, **w)
                else:
                    mon.close("body", got[..., k + 1], want[..., k + 1], atol=tol[..., k + 1],
                              mech=f"body of {nb}", body=k, **w)
            if struct[0] is None:
                mon._rule("default-surface")["events"] += n * nt
            for i in range(n):
                for j in range(nt):
                    terms = [q for q in S.pairs(struct, p, i, t[i, j]) if q[5]]
                    for q in terms:
                        r, x, y, z = q[5]
                        if z > 0 and np.hypot(x, y) < 1 + r:
                            rule = "in-eclipse" if q[0] else "in-transit"
                            mon._rule(rule)["events"] += 1
            mon.cases_from(p["M"].repeat(nt), t.ravel(), nontrivial=True)
            mon.fact("structures")


@JOBS(shards=(4, 6))
def usage(mon, rng, ctx):
    """Eager systems: pairwise evaluation, time shapes, units, order of the bodies, wrong input."""
    import jax
    import jax.numpy as jnp

    todo = ["pairs", "shapes", "order", "empty"] * ctx.n(1, 4)
    for it, kind in enumerate(ctx.mine(todo)):
        if kind == "pairs":
            struct = (s(1, 1), [("ecc", s(1, 0)), ("plain", s(0, 1))])
            p = S.draw(rng, 1, struct)
            one = jax.tree_util.tree_map(lambda v: v[0], p)
            t = S.times(rng, p, 4)[0]
            system = S.build(struct, one, "add")
            got = np.asarray(mon.call("pairwise", jax.jit(api.system_light_curve(system)), t))
            surfaces = [system.central_surface, *system.body_surfaces]
            lc = [jax.jit(lambda r, x, y, z, th, q=q: api.surface_light_curve(q, r, x, y, z, th))
                  for q in surfaces]
            # so few nodes that their number shows in the result
            low = np.asarray(mon.call("low-order", jax.jit(api.system_light_curve(system, order=4)), t))
            lc4 = [jax.jit(lambda r, x, y, z, th, q=q: api.surface_light_curve(q, r, x, y, z, th, order=4))
                   for q in surfaces]
            for j, tj in enumerate(t):
                terms = S.pairs(struct, p, 0, tj)
                want, want4 = np.zeros(3), np.zeros(3)
                for k, _, _, _, (_, _, th), occ in terms:
                    if occ is None:
                        v = -float(lc[0](0.1, 9.0, 9.0, 1.0, th))  # counted once too often
                        v4 = v
                    else:
                        v, v4 = float(lc[k](*occ, th)), float(lc4[k](*occ, th))
                    want[k] += v
                    want4[k] += v4
                mon.close("pairwise", got[j], want, atol=1e-7 * (1 + np.abs(want)), t=tj)
                mon.close("low-order", low[j], want4, atol=1e-7 * (1 + np.abs(want)), t=tj)
            mon.case("pairs", t[0])
        elif kind == "shapes":
            struct = (s(0, 2), [("ecc", s(1, 0))])
            p = S.draw(rng, 1, struct)
            one = jax.tree_util.tree_map(lambda v: float(v[0]) if np.ndim(v) == 1 else v[0], p)
            system = S.build(struct, one)
            t = S.times(rng, p, 6)[0]
            f = jax.jit(api.system_light_curve(system))
            base = np.asarray(mon.call("time-shape", f, t))
            mon.close("time-shape", np.asarray(f(float(t[0]))), base[0], atol=1e-12 * np.abs(base).max())
            for sh in ((2, 3), (3, 1, 2), (6, 1)):
                mon.close("time-shape", np.asarray(mon.call("time-shape", f, t.reshape(sh))),
                          base.reshape(*sh, 2), atol=1e-12 * np.abs(base).max())
            q = mon.call("units", api.system_light_curve(system), (t * 24) * api.ureg.hour)
            mon.close("units", np.asarray(q), base, atol=1e-6 * np.abs(base).max())
            q = mon.call("forms", api.system_light_curve(system), jnp.asarray(t[:2]))
            mon.close("forms", np.asarray(q), base[:2], atol=1e-9 * np.abs(base).max())
            q = mon.call("forms", api.system_light_curve(system, order=100), jnp.asarray(t))
            mon.close("forms", np.asarray(q), base, atol=1e-6 * np.abs(base).max())
            mon.rejects("units", lambda: api.system_light_curve(system)(1.0 * api.ureg.kg),
                        exc=(Exception,), what="time in kg")
            mon.case("shapes", t[0])
        elif kind == "order":
            a, b = s(1, 0), None
            struct = (s(1, 1), [("ecc", a), ("plain", b)])
            swap = (struct[0], struct[1][::-1])
            p = S.draw(rng, 3, struct)
            q = dict(p, bodies=p["bodies"][::-1], surfaces=p["surfaces"][::-1])
            t = S.times(rng, p, 6)
            f = jax.jit(jax.vmap(lambda p, t: api.system_light_curve(S.build(struct, p))(t)))
            g = jax.jit(jax.vmap(lambda p, t: api.system_light_curve(S.build(swap, p, "add"))(t)))
            x, y = np.asarray(f(p, t)), np.asarray(mon.call("order-of-bodies", g, q, t))
            mon.close("order-of-bodies", y, x[..., [0, 2, 1]], atol=1e-9 * np.abs(x).max())
            # each body alone: the deficits add up
            alone = []
            for k in range(2):
                st1 = (struct[0], [struct[1][k]])
                p1 = dict(p, bodies=[p["bodies"][k]], surfaces=[p["surfaces"][k]])
                h = jax.jit(jax.vmap(lambda p, t, st1=st1: api.system_light_curve(S.build(st1, p, "add"))(t)))
                alone.append(np.asarray(mon.call("add-body", h, p1, t)))
            st0 = (struct[0], [])
            h = jax.jit(jax.vmap(lambda p, t: api.system_light_curve(S.build(st0, p))(t)))
            star = np.asarray(mon.call("empty", h, dict(p, bodies=[], surfaces=[]), t))
            mon.check("empty", star.shape == (3, 6, 1), f"{star.shape}")
            mon.close("add-body", x[..., 0], alone[0][..., 0] + alone[1][..., 0] - star[..., 0],
                      atol=1e-8 * np.abs(x).max())
            mon.close("add-body", x[..., 1], alone[0][..., 1], atol=1e-8 * np.abs(x).max())
            mon.close("add-body", x[..., 2], alone[1][..., 1], atol=1e-8 * np.abs(x).max())
            mon.case("order", t[0, 0])
        else:
            e = api.SurfaceSystem()
            got = np.asarray(mon.call("empty", api.system_light_curve(e), np.array([0.0, 1.0])))
            mon.close("empty", got, np.ones((2, 1)), atol=1e-12)
            body = api.SurfaceBody(period=3.0, radius=0.1, surface=api.Surface(
                amplitude=0.3, normalize=False), time_transit=0.0)
            sys1 = api.SurfaceSystem().add_body(body)
            sys2 = api.SurfaceSystem(bodies=[(body, None)])
            sys3 = api.SurfaceSystem(bodies=[(api.Body(period=3.0, radius=0.1, time_transit=0.0),
                                              body.surface)])
            t = np.array([0.0, 0.7, 1.5])
            want = [[0.99, 0.3], [1.0, 0.3], [1.0, 0.0]]
            for q in (sys1, sys2, sys3):
                got = np.asarray(mon.call("forms", jax.jit(api.system_light_curve(q)), t))
                mon.close("forms", got, want, atol=1e-7)
            n0 = len(sys1.bodies)
            sys1.add_body(body)
            mon.check("forms", len(sys1.bodies) == n0 and len(sys1.body_surfaces) == n0, "mutated")
            mon.case("surface body")


JOBS(shards=(1, 1))(whole.job(whole.systems, n=(1, 4)))
