"""Whole numbers given as integers are numbers like any other: the same results as for floats."""

import numpy as np

from lib import api


def kepler(c, k):
    return [*api.kepler(c(k[0]), c(0)), *api.kepler(c(k[1]), 0.3),
            *api.kepler(np.array([c(v) for v in k]), np.array([c(0)] * len(k)))]


def orbits(c, k):
    s = api.System(api.Central(mass=c(k[0]), radius=c(1)))
    s = s.add_body(period=c(k[1]), radius=c(1), time_transit=c(k[2]), mass=c(k[3]), eccentricity=c(0),
                   omega_peri=c(k[4]), asc_node=c(k[5]), impact_param=c(1))
    s = s.add_body(semimajor=c(k[6] + 20), time_peri=c(k[2]), inclination=c(1), mass=c(k[3]),
                   radial_velocity_semiamplitude=c(k[7]))
    out = [s.radial_velocity(c(k[0])), *s.relative_position(np.array([c(v) for v in k]))]
    for b in s.bodies:
        out += [*b.position(c(2)), *b.relative_velocity(c(5)), *b.central_position(c(1), parallax=c(2)),
                b.radial_velocity(c(2), semiamplitude=c(3)), b.inclination, b.time_peri, b.time_transit, b.period,
                b.semimajor, b.impact_param]
    return out


def transits(c, k):
    o = api.TransitOrbit(period=c(k[1] + 3), duration=c(1), time_transit=c(k[2]), impact_param=c(0),
                         radius_ratio=c(1))
    q = api.TransitOrbit(period=c(k[1] + 3), speed=c(3), impact_param=c(1), radius_ratio=c(1))
    t = np.array([c(v) for v in k])
    return [*o.relative_position(c(k[0])), *o.relative_position(t), o.speed, q.duration, *q.relative_position(t)]


def timings(c, k):
    tt = np.cumsum(np.array([c(v + 3) for v in k]))
    o = api.TTVOrbit(transit_times=(tt,), duration=c(1), impact_param=c(0), radius_ratio=c(1))
    q = api.TTVOrbit(period=c(9), time_transit=c(k[1]), ttvs=(np.array([c(v) for v in k]),), duration=c(1),
                     impact_param=c(0), radius_ratio=c(1))
    t = np.array([c(v) for v in k])
    out = [*api.compute_expected_transit_times(c(0), c(30), c(k[0]), c(k[1]))]
    for a in (o, q):
        out += [*a.relative_position(c(k[0])), *a.relative_position(t), a.period, *a.ttvs, *a.transit_times,
                a.linear_t0, a.linear_period]
    return out


def curves(c, k):
    o = api.TransitOrbit(period=c(k[1] + 3), duration=c(2), time_transit=c(k[2]), impact_param=c(0),
                         radius_ratio=c(1))
    t = np.array([c(v) for v in k])
    out = []
    for u in ([c(1)], (c(0), c(1)), np.array([c(1), c(-1)])):
        f = api.limb_dark_light_curve(o, u)
        out += [f(t), f(c(k[2])), api.integrate(f, exposure_time=c(1))(t),
                api.interpolate(f, period=c(k[1] + 3), time_transit=c(k[2]), num_samples=60)(t)]
    return out


def ylm(c, k):
    return api.Ylm({(0, 0): c(k[0]), (1, 0): c(k[1]), (2, 1): c(-k[2]), (1, -1): c(k[3])})


def maps(c, k):
    y, d = ylm(c, k), np.array([c(k[0]), c(k[1]), c(-2), c(k[2])])
    z = api.Ylm.from_dense(d)
    return [y.todense(), (y * y).todense(), (y * c(2)).todense(), y.normalize().todense(), z.todense(),
            (z * y).todense(), api.Ylm.from_dense(d, normalize=False).todense(),
            api.Ylm.from_limb_darkening([c(1), c(0)]).todense(),
            api.ylm_spot(5)(0.5, c(1), c(1), c(-1)).todense()]


def polynomials(c, k):
    P = api.Pijk
    p, q = P.from_dense(np.array([c(k[0]), c(k[1]), c(0), c(-k[2])])), P({(1, 1, 0): c(k[3]), (0, 0, 1): c(k[4])})
    return [p.todense(), q.todense(), (p * q).todense(), (p + q).todense(), (p * c(2)).todense(),
            api.polynomial_product_matrix(np.array([c(k[0]), c(k[1]), c(0), c(-k[2])]), 2)
            @ np.arange(9.0), api.poly_basis(3)(0.5, c(0), c(0))]


def surface(c, k, **kw):
    return api.Surface(y=ylm(c, k), inc=c(1), obl=c(k[4]), u=(c(1), c(0)), period=c(k[5]), phase=c(k[6]),
                       radius=c(k[7]), **kw)


def images(c, k):
    s = surface(c, k, amplitude=c(3))
    return [s.intensity(c(0), c(k[0])), s.intensity(c(1), c(-1)), s.rotational_phase(c(k[1])),
            np.nan_to_num(np.asarray(s.render(theta=c(k[2]), res=8)))]


def fluxes(c, k):
    s = surface(c, k, amplitude=c(2), normalize=False)
    return [api.surface_light_curve(s, c(1), c(1), c(0), c(1), c(k[1])), api.surface_light_curve(s, theta=c(k[0])),
            api.surface_light_curve(s, 0.3, c(0), 0.4, c(5), 0.1)]


def dopplers(c, k):
    s = surface(c, k)
    return [api.surface_radial_velocity(s, c(1), c(1), c(0), c(1), c(k[1])),
            api.surface_radial_velocity(s, theta=c(k[0]))]


def systems(c, k):
    s = api.SurfaceSystem(api.Central(mass=c(k[0]), radius=c(1)), surface(c, k))
    s = s.add_body(period=c(k[1]), radius=c(1), time_transit=c(0), surface=surface(c, k[::-1]))
    t = np.array([c(0), c(k[1]), c(k[2])])
    return [api.system_light_curve(s)(t), api.system_light_curve(s)(c(0))]


def job(*funcs, n=(2, 10)):
    def whole_numbers(mon, rng, ctx):
        import jax

        for _ in range(ctx.n(*n)):
            k = [int(v) for v in rng.integers(1, 6, 8)]
            for f in funcs:
                leaves = jax.tree_util.tree_leaves
                a = leaves(mon.call("whole-numbers", f, float, k, what=f.__name__))
                b = leaves(mon.call("whole-numbers", f, int, k, what=f.__name__))
                if not mon.check("whole-numbers", len(a) == len(b), f"{f.__name__}: {len(a)} {len(b)}"):
                    continue
                for i, (x, y) in enumerate(zip(a, b, strict=True)):
                    x, y = np.asarray(x, float), np.asarray(y, float)
                    if mon.check("whole-numbers", x.shape == y.shape, f"shapes {x.shape} {y.shape}"):
                        mon.close("whole-numbers", y, x, atol=1e-10 * (1 + np.abs(x).max(initial=0)),
                                  numbers=k, what=f.__name__, output=i)
                mon.case(f.__name__, *k)

    return whole_numbers
