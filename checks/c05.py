"""C05: mapping over a system's bodies means the same for any mixture of bodies."""

import numpy as np

from lib import api, orb
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is a stack or system of 1..5 objects with identical or different structure, a "
    "mapped function and a combination of input and output axes. Non-trivial: more than one "
    "object. Oracle: the function applied to every object in turn and stacked with numpy."
)
ASSUMPTIONS = []
REQUIRED = [
    "vmap-values", "vmap-heterogeneous", "length", "system-observables", "order",
    "immutability", "add-body-equivalent", "central-override", "homogeneous-agrees",
    "jit", "grad", "inconsistent-output-rejected", "permutation", "empty",
]


def take(x, n, ax):
    if ax is None:
        return x
    return np.take(np.asarray(x), n, axis=ax)


def stacks(mon, rng, ctx):
    """Generic stacks: any structure, any axes."""
    import jax
    import jax.numpy as jnp

    def obj(kind):
        o = {"a": float(rng.normal()), "v": rng.normal(size=3)}
        if kind:
            o["extra" + str(kind)] = float(rng.normal())
        return o

    # functions of (object, x, y); x has shape (2, 3) per object, y is a dict
    def f_sum(o, x, y):
        return o["a"] * x.sum() + y["p"] * 2.0 + y["q"].sum()

    def f_arr(o, x, y):
        return o["a"] * x + o["v"] + y["p"] + y["q"]

    def f_tree(o, x, y):
        return {"s": o["a"] * y["p"], "t": (x @ o["v"], y["q"] * o["a"])}

    for it in range(ctx.n(60, 800)):
        n = int(rng.integers(1, 6))
        mixed = bool(it % 2) and n > 1
        kinds = [int(rng.integers(0, 3)) for _ in range(n)] if mixed else [0] * n
        if mixed and len(set(kinds)) == 1:
            kinds[0] = (kinds[0] + 1) % 3
        objs = [obj(k) for k in kinds]
        rule = "vmap-heterogeneous" if mixed else "vmap-values"
        fn = [f_sum, f_arr, f_tree][int(rng.integers(3))]
        axx = [None, 0, 1, 2, -1, -2, -3][int(rng.integers(7))]
        axp = [None, 0, -1][int(rng.integers(3))]
        axq = [None, 0, 1, -1, -2][int(rng.integers(5))]
        shape = [2, 3]
        if axx is not None:
            shape.insert(axx if axx >= 0 else 3 + axx, n)
        x = rng.normal(size=shape)
        p = rng.normal(size=() if axp is None else (n,))
        qs = [3]
        if axq is not None:
            qs.insert(axq if axq >= 0 else 2 + axq, n)
        q = rng.normal(size=qs)
        style = int(rng.integers(4))
        if style == 0:  # the same axis for everything
            axx = axp = axq = 0
            x, p, q = (rng.normal(size=(n,) + s) for s in ((2, 3), (), (3,)))
            in_axes = 0
        elif style == 1:
            axx = axp = axq = None
            x, p, q = rng.normal(size=(2, 3)), rng.normal(), rng.normal(size=3)
            in_axes = None
        elif style == 2:
            in_axes = (axx, {"p": axp, "q": axq})
        else:
            axp = axq = 0
            p, q = rng.normal(size=n), rng.normal(size=(n, 3))
            in_axes = [axx, 0]
        if fn is f_tree:
            out_axes = [0, {"s": 0, "t": (int(rng.integers(-2, 2)), int(rng.integers(-2, 2)))}][
                int(rng.integers(2))]
        elif fn is f_arr:
            out_axes = int(rng.integers(-3, 3))
        else:
            out_axes = int(rng.integers(-1, 1))
        mon.case(n, kinds, fn.__name__, repr(in_axes), repr(out_axes), nontrivial=n > 1)
        st = mon.call("length", api.ObjectStack, *objs)
        mon.check("length", len(st) == n, f"len {len(st)}")
        mon.check("order", all(b["a"] == o["a"] for b, o in zip(st.objects, objs, strict=True)),
                  "objects reordered")
        call = st.vmap(fn, in_axes=in_axes, out_axes=out_axes)
        parts = [
            jax.tree_util.tree_map(np.asarray, fn(
                o, take(x, k, axx), {"p": take(p, k, axp), "q": take(q, k, axq)}))
            for k, o in enumerate(objs)
        ]
        leaves = [jax.tree_util.tree_flatten(r)[0] for r in parts]
        treedef = jax.tree_util.tree_structure(parts[0])
        oa = (jax.tree_util.tree_leaves(out_axes) if not isinstance(out_axes, int)
              else [out_axes] * len(leaves[0]))
        want = [np.stack([r[j] for r in leaves], axis=oa[j]) for j in range(len(oa))]
        wit = dict(n=n, kinds=str(kinds), fn=fn.__name__, in_axes=repr(in_axes),
                   out_axes=repr(out_axes))

        def go(x=x, p=p, q=q, call=call):
            return call(jnp.asarray(x), {"p": jnp.asarray(p), "q": jnp.asarray(q)})

        def judge(rule, got, treedef=treedef, want=want, wit=wit):
            mon.check(rule, jax.tree_util.tree_structure(got) == treedef,
                      "output structure differs", **wit)
            for g, w in zip(jax.tree_util.tree_leaves(got), want, strict=True):
                mon.close(rule, np.asarray(g), w, atol=1e-12, **wit)

        got = mon.part(mon.call, rule, go, what=str(wit))
        if got is None:
            continue
        judge(rule, got)
        if it % 4 == 0:
            got = mon.part(mon.call, "jit", jax.jit(go), what=str(wit))
            if got is not None:
                judge("jit", got)
        mon.sample(**wit)
    # outputs whose structure depends on the object cannot be stacked
    for k in range(ctx.n(4, 20)):
        objs = [{"a": 1.0 + k}, {"a": 2.0, "b": 1.0}]
        mon.case("inconsistent", k)
        st = api.ObjectStack(*objs)
        mon.rejects("inconsistent-output-rejected",
                    lambda st=st: st.vmap(lambda o: dict(o))(), (ValueError,),
                    what="outputs of different structure")
    mon.check("empty", len(api.ObjectStack()) == 0, "length of an empty stack")


KEEP = ["period", "time_transit", "radius", "mass"]
OPT = [
    {}, dict(inclination=1.5), dict(impact_param=0.4), dict(asc_node=0.3),
    dict(eccentricity=0.3, omega_peri=1.1), dict(radial_velocity_semiamplitude=0.7),
    dict(parallax=0.05), dict(eccentricity=0.1, sin_omega_peri=0.6, cos_omega_peri=0.8),
]


def body_kw(rng, structure):
    kw = dict(period=float(10 ** rng.uniform(0, 2)), time_transit=float(rng.normal()),
              radius=float(rng.uniform(0.01, 0.2)), mass=float(rng.uniform(0.001, 0.2)))
    for k, v in OPT[structure].items():
        kw[k] = v if "omega" in k else float(v * rng.uniform(0.8, 1.2))
    return kw


METHODS = ["position", "central_position", "relative_position", "velocity",
           "central_velocity", "relative_velocity", "radial_velocity"]


def systems(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    combos = []
    for it in range(ctx.n(12, 120)):
        n = int(rng.integers(1, 5))
        if it % 3 == 0:
            st = [int(rng.integers(len(OPT)))] * n
        else:
            st = [int(x) for x in rng.integers(0, len(OPT), n)]
            # angular and linear lengths cannot be stacked together
            if any(x == 6 for x in st):
                st = [6] * n
        combos.append(st)
    for it, st in enumerate(combos):
        n = len(st)
        kws = [body_kw(rng, s) for s in st]
        central = api.Central(mass=float(rng.uniform(0.5, 2)), radius=float(rng.uniform(0.5, 2)))
        alone = [api.System(central).add_body(**kw).bodies[0] for kw in kws]
        style = it % 3
        if style == 0:
            s = api.System(central)
            for kw in kws:
                s = s.add_body(**kw)
        elif style == 1:
            s = api.System(central, bodies=[api.Body(**kw) for kw in kws])
        else:
            s = api.System(central, bodies=[
                a if k % 2 else api.Body(**kw)
                for k, (a, kw) in enumerate(zip(alone, kws, strict=True))])
        mon.case("system", st, kws[0]["period"], nontrivial=n > 1)
        mon.check("length", s.shape == (n,) and len(s.bodies) == n, f"shape {s.shape}")
        for b, a in zip(s.bodies, alone, strict=True):
            for attr in ("period", "time_transit", "radius", "mass", "semimajor",
                         "impact_param"):
                mon.close("order", orb.mag(getattr(b, attr)), orb.mag(getattr(a, attr)),
                          rtol=1e-14, attr=attr)
        t = rng.normal(size=[(), (3,), (2, 2)][it % 3]) * 10
        tt = t * api.ureg.day if it % 2 else jnp.asarray(t)
        for name in (METHODS if it % 4 == 0 else [METHODS[it % 7], METHODS[(it + 3) % 7]]):
            got = mon.call("system-observables", getattr(s, name), tt, what=f"{name} {st}")
            one = [getattr(a, name)(tt) for a in alone]
            want = [orb.mag(o) for o in one]
            if name == "radial_velocity":
                got, one = (got,), [(o,) for o in one]
                want = [w[None] for w in want]
            for k in range(len(got)):
                w = np.stack([x[k] for x in want])
                mon.close("system-observables", orb.mag(got[k]), w,
                          atol=1e-12 * (np.abs(w).max() + 1e-300), structures=str(st), name=name)
                mon.check("system-observables", got[k].units == one[0][k].units,
                          f"{name} in {got[k].units}")
        mon.close("system-observables", orb.mag(s.radius), [orb.mag(a.radius) for a in alone],
                  rtol=1e-14)
        mon.close("system-observables", orb.mag(s.central_radius),
                  [orb.mag(central.radius)] * n, rtol=1e-14)
        # a per-body argument, mapped
        dt = rng.normal(size=n)

        def shifted(b, d, t=t):
            return b.radial_velocity(jnp.asarray(t) + d).magnitude

        got = mon.call("vmap-heterogeneous", s.body_vmap(shifted, in_axes=0), jnp.asarray(dt))
        want = np.stack([np.asarray(shifted(a, d)) for a, d in zip(alone, dt, strict=True)])
        mon.close("vmap-heterogeneous", np.asarray(got), want,
                  atol=1e-12 * np.abs(want).max(), structures=str(st))
        got = mon.call("vmap-heterogeneous", s.body_vmap(shifted, in_axes=0, out_axes=-1),
                       jnp.asarray(dt))
        mon.close("vmap-heterogeneous", np.asarray(got), np.moveaxis(want, 0, -1),
                  atol=1e-12 * np.abs(want).max(), structures=str(st))
        if n > 1:
            perm = rng.permutation(n)
            s2 = api.System(central, bodies=[s.bodies[i] for i in perm])
            w = orb.mag(s.radial_velocity(tt))
            mon.close("permutation", orb.mag(s2.radial_velocity(tt)), w[perm],
                      atol=1e-12 * np.abs(w).max(), structures=str(st))
        # adding a body leaves the original untouched
        before = [np.asarray(x).copy() for x in jax.tree_util.tree_leaves(s)]
        s3 = mon.call("immutability", s.add_body, **body_kw(rng, st[0]))
        after = jax.tree_util.tree_leaves(s)
        mon.check("immutability", len(s3.bodies) == n + 1 and len(s.bodies) == n
                  and len(before) == len(after)
                  and all(np.array_equal(x, np.asarray(y), equal_nan=True)
                          for x, y in zip(before, after, strict=True)),
                  "add_body changed the system it was called on")
        # the two ways to add a body agree, with and without its own central
        kw = body_kw(rng, int(rng.integers(len(OPT))))
        if "parallax" in kw or any(x == 6 for x in st):
            continue
        b1 = s.add_body(**kw).bodies[-1]
        b2 = s.add_body(api.Body(**kw)).bodies[-1]
        w = orb.mag(b1.relative_position(tt))
        mon.close("add-body-equivalent", orb.mag(b2.relative_position(tt)), w, atol=1e-300)
        other = api.Central(mass=float(rng.uniform(2, 4)), radius=0.3)
        want = api.System(other).add_body(**kw).bodies[0]
        for b in (s.add_body(central=other, **kw).bodies[-1],
                  s.add_body(api.Body(**kw), central=other).bodies[-1]):
            mon.close("central-override", orb.mag(b.semimajor), orb.mag(want.semimajor),
                      rtol=1e-14)
            mon.close("central-override", orb.mag(b.central.mass), orb.mag(other.mass), rtol=0)
        keep = s.add_body(central=other, **kw).bodies[:-1]
        for b, a in zip(keep, alone, strict=True):
            mon.close("central-override", orb.mag(b.semimajor), orb.mag(a.semimajor), rtol=1e-14)
    # a mixed stack agrees with the homogeneous one for the bodies they share
    for _ in range(ctx.n(3, 25)):
        kws = [body_kw(rng, 0) for _ in range(3)]
        odd = body_kw(rng, 4)
        central = api.Central(mass=1.3, radius=0.9)
        homo = api.System(central, bodies=[api.Body(**k) for k in kws])
        mixed = api.System(central, bodies=[api.Body(**k) for k in kws + [odd]])
        t = rng.normal(size=4) * 20
        mon.case("homo", kws[0]["period"])
        for name in METHODS[:-1]:
            a = orb.mag(getattr(homo, name)(t))
            b = orb.mag(mixed_part(mon, mixed, name, t))
            mon.close("homogeneous-agrees", b[:, :3], a, atol=1e-12 * np.abs(a).max(), name=name)

        # gradients go through either path
        def loss(scale, kws, t=t, central=central):
            bodies = [api.Body(**dict(k, period=k["period"] * scale)) for k in kws]
            z = api.System(central, bodies=bodies).relative_position(t)[2].magnitude
            return (z[:2] ** 2).sum()

        g1 = mon.call("grad", jax.grad(loss), 1.0, kws)
        g2 = mon.call("grad", jax.grad(loss), 1.0, kws[:2] + [odd])
        h = 1e-6
        fd = (loss(1 + h, kws) - loss(1 - h, kws)) / (2 * h)
        mon.close("grad", np.asarray(g2), np.asarray(g1), rtol=1e-10)
        mon.close("grad", np.asarray(g1), np.asarray(fd), rtol=1e-4,
                  atol=1e-3 * abs(float(loss(1.0, kws))))
    s = api.System(central)
    mon.check("empty", s.shape == (0,) and s.bodies == (), "empty system")


def mixed_part(mon, s, name, t):
    return mon.call("homogeneous-agrees", getattr(s, name), t, what=name)


JOBS(x64=True, shards=(3, 8))(stacks)
JOBS(x64=True, shards=(4, 8))(systems)
