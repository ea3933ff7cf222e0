"""Named public observables as functions of one pytree of arrays, for C23.

`CATALOG[name] = (draw(rng, n) -> pytree with leading axis n, fn(pytree row) -> pytree,
scale of the accepted rounding, eager is cheap, has derivatives)`.
"""

import numpy as np

from lib import api, systems as S

CATALOG = {}


def op(name, eager=True, deriv=True, tol=1e-12):
    def deco(pair):
        draw, fn = pair()
        CATALOG[name] = dict(draw=draw, fn=fn, eager=eager, deriv=deriv, tol=tol)
        return pair

    return deco


def U(rng, lo, hi, *shape):
    return rng.uniform(lo, hi, shape)


def tree(x):
    """Magnitudes of quantities, dense arrays, in a fixed order."""
    import jax

    leaves = jax.tree_util.tree_leaves(x, is_leaf=lambda v: hasattr(v, "magnitude"))
    return [getattr(v, "magnitude", v) for v in leaves]


@op("kepler")
def _():
    def draw(rng, n):
        return dict(M=U(rng, -8, 8, n, 4), e=U(rng, 0, 0.9, n, 4))

    return draw, lambda p: api.kepler(p["M"], p["e"])


def away(rng, n, b):
    """Radius ratios with no contact within 0.02 of b."""
    r = U(rng, 0.03, 1.6, n)
    for _ in range(50):
        bad = (np.abs(b - r - 1) < 0.03) | (np.abs(b - np.abs(1 - r)) < 0.03) | (np.abs(b - r) < 0.02)
        r = np.where(bad, U(rng, 0.03, 1.6, n), r)
    return r


for _d in (0, 1, 2, 4):
    @op(f"ld{_d}")
    def _(_d=_d):
        def draw(rng, n):
            b = U(rng, 0.05, 1.5, n)
            return dict(u=U(rng, -0.1, 0.5, n, _d), b=b, r=away(rng, n, b))

        return draw, lambda p: api.ld_light_curve(p["u"], p["b"], p["r"], order=20)


for _d in (1, 3):
    @op(f"rotation{_d}")
    def _(_d=_d):
        def draw(rng, n):
            a = rng.normal(size=(n, 3))
            return dict(y=rng.normal(size=(n, (_d + 1) ** 2)), th=U(rng, 0.3, 2.5, n),
                        u=a / np.linalg.norm(a, axis=1, keepdims=True))

        def fn(p):
            return api.dot_rotation_matrix(_d, p["u"][0], p["u"][1], p["u"][2], p["th"])(p["y"])

        return draw, fn

    @op(f"project{_d}")
    def _(_d=_d):
        def draw(rng, n):
            return dict(y=rng.normal(size=(n, (_d + 1) ** 2)), a=U(rng, 0.3, 1.4, n, 4))

        def fn(p):
            return (api.left_project(_d, *(p["a"][k] for k in range(4)), p["y"]),
                    api.right_project(_d, *(p["a"][k] for k in range(4)), p["y"]))

        return draw, fn


for _d in (1, 2, 5):
    @op(f"solution{_d}")
    def _(_d=_d):
        def draw(rng, n):
            b = U(rng, 0.05, 1.5, n)
            r = away(rng, n, b)
            return dict(b=b, r=r)

        return draw, lambda p: api.st_solution_vector(_d, order=40)(p["b"], p["r"])


for _d in (0, 2, 5):
    @op(f"bases{_d}")
    def _(_d=_d):
        def draw(rng, n):
            return dict(y=rng.normal(size=(n, (_d + 1) ** 2)), x=U(rng, -0.5, 0.5, n, 3),
                        u=rng.normal(size=(n, _d + 1)))

        def fn(p):
            import jax.numpy as jnp

            def dense(A):
                return jnp.asarray(A.todense() if hasattr(A, "todense") else A)

            z = (1 - p["x"][0] ** 2 - p["x"][1] ** 2) ** 0.5
            out = [dense(api.A1(_d)) @ p["y"], p["u"] @ dense(api.U(_d)), p["y"] @ dense(api.rT(_d)),
                   api.poly_basis(_d)(p["x"][0], p["x"][1], z)]
            if _d:
                out += [dense(api.A2_inv(_d)) @ p["y"], dense(api.basis(_d)) @ p["y"]]
            return out

        return draw, fn


@op("polynomials")
def _():
    def draw(rng, n):
        return dict(a=rng.normal(size=(n, 9)), b=rng.normal(size=(n, 4)))

    def fn(p):
        A, B = api.Pijk.from_dense(p["a"], degree=2), api.Pijk.from_dense(p["b"], degree=1)
        return [(A * B).todense(), (A + B).todense(), (B * 2.0).todense()]

    return draw, fn


@op("ylm")
def _():
    def draw(rng, n):
        a = rng.normal(size=(n, 9)) * 0.3
        a[:, 0] = U(rng, 0.5, 2, n)
        b = rng.normal(size=(n, 4)) * 0.3
        b[:, 0] = U(rng, 0.5, 2, n)
        return dict(a=a, b=b, u=U(rng, 0, 0.4, n, 2))

    def fn(p):
        A = api.Ylm.from_dense(p["a"], normalize=False)
        B = api.Ylm.from_dense(p["b"], normalize=False)
        return [(A * B).todense(), A.normalize().todense(), (A * 2.0).todense(),
                api.Ylm.from_limb_darkening(p["u"]).todense()]

    return draw, fn


@op("clebsch")
def _():
    def draw(rng, n):
        return dict(x=rng.normal(size=n))

    def fn(p):
        out = [[api.clebsch_gordan(3, m, 2, k, j, m + k) for m in range(-3, 4) for k in range(-2, 3)]
               for j in range(1, 6)]
        return [np.asarray(out, float) * p["x"]]

    return draw, fn


@op("spot", eager=False)
def _():
    def draw(rng, n):
        return dict(c=U(rng, 0.1, 0.9, n), r=U(rng, 0.2, 1.0, n), lat=U(rng, 0.3, 1.0, n),
                    lon=U(rng, -2, 2, n))

    return draw, lambda p: api.ylm_spot(4)(p["c"], p["r"], p["lat"], p["lon"]).todense()


def surface(p, rows=None, **kw):
    return api.Surface(y=api.Ylm.from_dense(p["y"], normalize=False),
                       u=tuple(p["u"][k] for k in range(p["u"].shape[-1])), inc=p["inc"],
                       obl=p["obl"], normalize=False, **kw)


def draw_surface(rng, n, y, u):
    c = rng.normal(size=(n, (y + 1) ** 2)) * 0.2
    c[:, 0] = 1.0
    return dict(y=c, u=U(rng, 0.0, 0.4, n, u), inc=U(rng, 0.4, 1.3, n), obl=U(rng, 0.2, 1.2, n),
                th=U(rng, 0.3, 2.5, n))


for _y, _u in ((1, 0), (2, 2), (3, 1), (0, 2)):
    @op(f"surface{_y}{_u}", eager=False)
    def _(_y=_y, _u=_u):
        def draw(rng, n):
            p = draw_surface(rng, n, _y, _u)
            b, a = U(rng, 0.1, 1.3, n), U(rng, 0.3, 1.2, n)
            return dict(p, r=away(rng, n, b), xo=b * np.cos(a), yo=b * np.sin(a))

        def fn(p):
            s = surface(p)
            return [api.surface_light_curve(s, p["r"], p["xo"], p["yo"], 5.0, p["th"], 20),
                    api.surface_light_curve(s, theta=p["th"], order=20)]

        return draw, fn


@op("intensity", eager=False, tol=1e-10)
def _():
    def draw(rng, n):
        return dict(draw_surface(rng, n, 2, 1), lat=U(rng, -1, 1, n), lon=U(rng, -1, 1, n))

    def fn(p):
        s = surface(p)
        return [s.intensity(p["lat"], p["lon"]), s.rotational_phase(0.3) if s.period else p["th"]]

    return draw, fn


@op("surface-rv", eager=False)
def _():
    def draw(rng, n):
        return dict(draw_surface(rng, n, 1, 1), P=U(rng, 1, 9, n))

    def fn(p):
        s = surface(p, period=p["P"])
        return api.surface_radial_velocity(s, theta=p["th"], order=20)

    return draw, fn


def draw_orbit(rng, n, kind):
    p = S.draw(rng, n, (None, [(k, None) for k in kind]))
    p["t"] = U(rng, -3, 3, n, 3)
    # limb darkened light curves in transit, away from contacts
    b = p["bodies"][0]
    b["b"] = U(rng, -0.3, 0.3, n)
    b["r"] = p["R"] * U(rng, 0.05, 0.2, n)
    p["t"][:, 0] = b["T0"] + U(rng, 0.1, 0.3, n) * p["R"] / (2 * np.pi * b["a"] / b["P"])
    p["u"] = U(rng, 0.1, 0.4, n, 2)
    return p


def keplerian(kinds, p):
    sys_ = api.System(api.Central(mass=p["M"], radius=p["R"]))
    for k, b in zip(kinds, p["bodies"], strict=True):
        o = S.BODY[k]
        kw = dict(period=b["P"], radius=b["r"], mass=b["m"], time_transit=b["T0"])
        kw["impact_param" if o["inc"] == "impact" else "inclination"] = (
            b["b"] if o["inc"] == "impact" else b["i"])
        if o["ecc"]:
            kw.update(eccentricity=b["e"], omega_peri=b["w"])
        if o["node"]:
            kw["asc_node"] = b["Om"]
        sys_ = sys_.add_body(**kw)
    return sys_


for _k in (("ecc",), ("ecc", "plain"), ("plain", "plain"), ("eccinc", "inc", "ecc")):
    @op("orbit-" + "-".join(_k), eager=len(_k) < 3, tol=1e-11)
    def _(_k=_k):
        def fn(p):
            o = keplerian(_k, p)
            t = p["t"]
            return tree([o.position(t), o.velocity(t), o.radial_velocity(t), o.relative_position(t),
                         o.central_position(t)])

        return (lambda rng, n: draw_orbit(rng, n, _k)), fn

    @op("transit-" + "-".join(_k), eager=False, tol=1e-10)
    def _(_k=_k):
        def fn(p):
            return api.limb_dark_light_curve(keplerian(_k, p), p["u"])(p["t"][:1])

        return (lambda rng, n: draw_orbit(rng, n, _k)), fn


@op("emission", eager=False, tol=1e-10)
def _():
    def draw(rng, n):
        return dict(p=draw_orbit(rng, n, ("plain",)), amp=U(rng, 0.1, 2, n, 2))

    def fn(q):
        p, b = q["p"], q["p"]["bodies"][0]
        o = api.SurfaceSystem(
            api.Central(mass=p["M"], radius=p["R"]),
            central_surface=api.Surface(amplitude=q["amp"][0], normalize=False),
        ).add_body(period=b["P"], radius=b["r"], mass=b["m"], time_transit=b["T0"],
                   impact_param=b["b"], surface=api.Surface(amplitude=q["amp"][1], normalize=False))
        return api.emission_light_curve(o)(p["t"])

    return draw, fn


@op("transit-orbit", tol=1e-11)
def _():
    def draw(rng, n):
        return dict(P=U(rng, 2, 9, n), T0=U(rng, -1, 1, n), b=U(rng, 0.05, 0.5, n), d=U(rng, 0.1, 0.2, n),
                    r=U(rng, 0.05, 0.2, n), u=U(rng, 0.1, 0.4, n, 2), f=U(rng, 0.05, 0.25, n, 2))

    def fn(p):
        o = api.TransitOrbit(period=p["P"], duration=p["d"], time_transit=p["T0"], impact_param=p["b"],
                             radius_ratio=p["r"])
        t = p["T0"] + p["f"] * p["d"]
        return tree([o.relative_position(t), api.limb_dark_light_curve(o, p["u"])(t), o.speed])

    return draw, fn


@op("ttv-orbit", tol=1e-11)
def _():
    def draw(rng, n):
        t = 1.0 + 3.0 * np.arange(5) + U(rng, -0.05, 0.05, n, 5)
        return dict(tt=t, b=U(rng, 0.05, 0.5, n), d=U(rng, 0.1, 0.2, n), r=U(rng, 0.05, 0.2, n),
                    u=U(rng, 0.1, 0.4, n, 2), f=U(rng, 0.05, 0.25, n, 2))

    def fn(p):
        o = api.TTVOrbit(transit_times=(p["tt"],), duration=p["d"], impact_param=p["b"],
                         radius_ratio=p["r"])
        t = p["tt"][1:3] + p["f"] * p["d"]
        return tree([api.limb_dark_light_curve(o, p["u"])(t), o.period, o.ttvs[0], o.t0])

    return draw, fn


@op("integrate")
def _():
    def draw(rng, n):
        return dict(a=U(rng, 0.5, 2, n), t=U(rng, -2, 2, n, 3))

    def fn(p):
        import jax.numpy as jnp

        def f(t):
            t = getattr(t, "magnitude", t)
            return jnp.sin(p["a"] * t) + t**2

        return [api.integrate(f, exposure_time=0.2, order=o, num_samples=k)(p["t"])
                for o, k in ((0, 5), (1, 6), (2, 4))]

    return draw, fn


@op("interpolate")
def _():
    def draw(rng, n):
        return dict(a=U(rng, 0.5, 2, n), t=U(rng, -2, 2, n, 3), P=U(rng, 1, 3, n))

    def fn(p):
        import jax.numpy as jnp

        f = lambda t: jnp.cos(2 * np.pi * getattr(t, "magnitude", t) / p["P"]) * p["a"]
        return api.interpolate(f, period=p["P"], time_transit=0.1, num_samples=60)(p["t"])

    return draw, fn


for _name, _st in (("system1", (S.surf(1, 1), [("ecc", S.surf(1, 0))])),
                   ("system2", (S.surf(0, 2), [("plain", None), ("plain", S.surf(1, 0))]))):
    @op(_name, eager=False, tol=1e-10)
    def _(_st=_st):
        def draw(rng, n):
            p = S.draw(rng, n, _st)
            for b in p["bodies"]:
                b["b"] = U(rng, -0.3, 0.3, n)
                b["r"] = p["R"] * U(rng, 0.05, 0.2, n)
            b = p["bodies"][0]
            t = b["T0"] + U(rng, 0.1, 0.3, n) * p["R"] / (2 * np.pi * b["a"] / b["P"])
            return dict(p=p, t=t[:, None])

        return draw, lambda q: api.system_light_curve(S.build(_st, q["p"], "add"), order=20)(q["t"])


def row(p, i):
    """One row of drawn parameters, as fresh numpy arrays."""
    import jax

    return jax.tree_util.tree_map(lambda v: np.array(v[i]), p)


def flat(out):
    return [np.asarray(v) for v in tree(out)]
