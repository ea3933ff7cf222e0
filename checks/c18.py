"""C18: map algebra evaluates pointwise and converts without loss."""

import math
from fractions import Fraction

import numpy as np

from lib import api, ldref, st, whole
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one map (set of coefficients given in any order, sparse or dense), pair of maps, "
    "limb darkening law, or one set of angular momenta of a coupling coefficient. Non-trivial: "
    "more than one coefficient is not zero; the coupling is allowed by the selection rules. "
    "Oracle: the mapping itself, harmonics synthesised at points of the sphere, and the "
    "Racah formula in exact rational arithmetic."
)
ASSUMPTIONS = []
REQUIRED = [
    "dense", "index", "getitem", "degree", "roundtrip", "from-dense-normalize", "normalize",
    "normalize-zero", "scale", "product", "product-commutes", "product-constant", "jit",
    "gradient", "immutable", "limb-darkening", "limb-darkening-flux", "wigner", "wigner-table",
    "wigner-reuse", "wigner-outside", "wigner-symmetry", "wigner-orthogonal", "wigner-large",
    "clebsch-gordan", "pytree", "surface-intensity", "jit-product",
    "whole-numbers",
]

K = np.sqrt(np.pi) / 2  # the intensity of the (0, 0) term is 1 / pi


def sphere(rng, n=30):
    p = rng.normal(size=(3, n))
    p[:, :3] = np.eye(3)
    return p / np.linalg.norm(p, axis=0)


def lm(deg):
    return [(l, m) for l in range(deg + 1) for m in range(-l, l + 1)]


def random_map(rng, maxdeg, kind=None):
    deg = int(rng.integers(0, maxdeg + 1))
    idx = lm(deg)
    kind = kind or rng.choice(["full", "sparse", "diagonal", "single"])
    if kind == "diagonal":
        idx = [(l, 0) for l in range(deg + 1)]
    elif kind == "single":
        idx = [idx[rng.integers(len(idx))]]
    elif kind == "sparse":
        keep = rng.random(len(idx)) < 0.4
        idx = [i for i, k in zip(idx, keep, strict=True) if k] or [idx[-1]]
    idx = [idx[i] for i in rng.permutation(len(idx))]
    return {i: float(rng.normal()) for i in idx}, kind


def vector(data, deg=None):
    deg = max(l for l, _ in data) if deg is None else deg
    v = np.zeros((deg + 1) ** 2)
    for (l, m), c in data.items():
        v[l * l + l + m] = c
    return v


def ylm_vector(y, deg=None):
    return np.asarray(y.todense(), float)


@JOBS(shards=(2, 4))
def container(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    for it in range(ctx.n(60, 600)):
        data, kind = random_map(rng, 8)
        keep = dict(data)
        vals = {k: (jnp.asarray(v) if it % 3 == 1 else np.float64(v) if it % 3 == 2 else v)
                for k, v in data.items()}
        y = mon.call("dense", api.Ylm, vals)
        want = vector(data)
        mon.cases_from(want[None, :4], nontrivial=len(data) > 1)
        mon.close("dense", np.asarray(mon.call("dense", y.todense)), want, atol=1e-14, data=str(data))
        mon.check("degree", y.deg == max(l for l, _ in data) and y.shape == want.shape,
                  f"degree {y.deg}, shape {y.shape}", data=str(data))
        mon.check("degree", y.diagonal == all(m == 0 for _, m in data), "diagonal", data=str(data))
        mon.check("index", sorted(y.indices) == sorted(data), f"indices {y.indices}")
        sp = y.tosparse()
        mon.close("dense", np.asarray(sp.todense()), want, atol=1e-14, data=str(data))
        L, M = np.array(lm(6)).T
        mon.close("index", np.asarray(api.Ylm.index(L, M)), np.arange(49))
        for k in lm(y.deg):
            mon.close("getitem", float(y[k]), keep.get(k, 0.0), atol=1e-14, key=str(k))
            if it > 5:
                break
        z = mon.call("roundtrip", api.Ylm.from_dense, y.todense(), normalize=False)
        mon.close("roundtrip", ylm_vector(z), want, atol=1e-14, data=str(data))
        mon.check("roundtrip", set(z.indices) == set(lm(y.deg)), f"{z.indices}")
        mon.close("roundtrip", [float(z.data[k]) for k in lm(y.deg)], want, atol=1e-14)
        leaves, tree = jax.tree_util.tree_flatten(y)
        back = jax.tree_util.tree_unflatten(tree, leaves)
        mon.close("pytree", ylm_vector(back), want, atol=1e-14)
        s = float(rng.normal())
        for form, w in ((y * s, s), (s * y, s), (y * jnp.asarray(s), s), (y * 0.0, 0.0)):
            mon.close("scale", ylm_vector(form), w * want, atol=1e-14, rtol=1e-14, data=str(data), s=w)
        if abs(keep.get((0, 0), 0.0)) > 0:
            nrm = ylm_vector(mon.call("normalize", y.normalize))
            mon.close("normalize", nrm, want / want[0], rtol=1e-14, data=str(data))
            a = ylm_vector(api.Ylm.from_dense(jnp.asarray(want)))
            mon.close("from-dense-normalize", a, want / want[0], rtol=1e-14)
            a = ylm_vector(api.Ylm.from_dense(want.tolist(), normalize=True))
            mon.close("from-dense-normalize", a, want / want[0], rtol=1e-14)
        else:
            mon.rejects("normalize-zero", lambda y=y: y.normalize(), what="zero (0, 0)", data=str(data))
        zero = {**keep, (0, 0): 0.0}
        mon.rejects("normalize-zero", lambda z=zero: api.Ylm(z).normalize(), what="zero (0, 0)")
        mon.rejects("normalize-zero", lambda z=zero: api.Ylm.from_dense(vector(z)),
                    what="from_dense of a zero (0, 0)")
        mon.close("immutable", ylm_vector(y), want, atol=1e-14)
        mon.check("immutable", {k: float(v) for k, v in vals.items()} == keep, "input mapping changed")
        vals[(0, 0)] = 17.0
        vals[(9, 3)] = 17.0
        mon.close("immutable", ylm_vector(y), want, atol=1e-14)
    d = api.Ylm()
    mon.close("dense", ylm_vector(d), [1.0])
    for deg in ctx.mine(range(ctx.n(5, 10))):
        c = rng.normal(size=(20, (deg + 1) ** 2)) + 3
        def mixed(v):
            # concrete maps used while other values are traced
            a = api.Ylm({(0, 0): 2.0, (1, 0): v[0]}).normalize().todense()
            b = api.Surface().amplitude * api.Ylm().normalize().todense()[0]
            return a[2] * b

        got = mon.call("jit", jax.jit(jax.vmap(mixed)), c)
        mon.close("jit", np.asarray(got), c[:, 0] / 2, rtol=1e-14)
        got = jax.jit(jax.vmap(lambda v: api.Ylm.from_dense(v, normalize=True).todense()))(c)
        mon.close("jit", np.asarray(got), c / c[:, :1], rtol=1e-14, deg=deg)
        keys = [lm(deg)[i] for i in rng.permutation(len(lm(deg)))]
        got = jax.jit(jax.vmap(lambda v, keys=keys: api.Ylm(dict(zip(keys, v, strict=True))).todense()))(c)
        w = np.stack([vector(dict(zip(keys, v, strict=True))) for v in c])
        mon.close("jit", np.asarray(got), w, rtol=1e-14, deg=deg)


@JOBS(shards=(3, 6))
def product(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    for it in range(ctx.n(12, 120)):
        p = sphere(rng)
        top = 3 if it % 4 else 6
        f, kf = random_map(rng, top, ["full", "sparse", "diagonal", None][it % 4])
        g, kg = random_map(rng, 3, ["diagonal", None, "full", None][(it // 4) % 4])
        a, b = api.Ylm(f), api.Ylm(g)
        fg = mon.call("product", lambda a=a, b=b: a * b, witness={"f": str(f), "g": str(g)})
        v = ylm_vector(fg)
        mon.check("product", not np.iscomplexobj(np.asarray(fg.todense())), "complex coefficients")
        want = st.synth(vector(f), *p) * st.synth(vector(g), *p)
        size = np.abs(vector(f)).sum() * np.abs(vector(g)).sum() * (1 + top) ** 2
        mon.close("product", st.synth(v, *p), K * want, atol=1e-13 * size, f=str(f), g=str(g),
                  mech=f"product {kf == 'diagonal' and kg == 'diagonal'}")
        gf = ylm_vector(b * a)
        n = max(len(gf), len(v))
        pad = lambda q, n=n: np.pad(q, (0, n - len(q)))  # noqa: E731
        mon.close("product-commutes", pad(gf), pad(v), atol=1e-13 * size)
        one = ylm_vector(a * api.Ylm({(0, 0): 2.5}))
        v0 = vector(f)
        n = max(len(one), len(v0))
        mon.close("product-constant", np.pad(one, (0, n - len(one))),
                  np.pad(v0, (0, n - len(v0))) * 2.5 / np.sqrt(4 * np.pi), atol=1e-13 * size)
        mon.cases_from(np.r_[v0, np.zeros(4)][None, :4], np.r_[vector(g), np.zeros(4)][None, :4],
                       nontrivial=len(f) > 1 and len(g) > 1)
        mon.fact(f"product_{kf}_{kg}")
    for df, dg in ctx.mine([(1, 1), (2, 1), (0, 3), (2, 2), (3, 2)]):
        p = sphere(rng)
        cf = rng.normal(size=(10, (df + 1) ** 2))
        cg = rng.normal(size=(10, (dg + 1) ** 2))
        def mul(x, y):
            return (api.Ylm.from_dense(x, normalize=False)
                    * api.Ylm.from_dense(y, normalize=False)).todense()

        got = np.asarray(mon.call("jit-product", jax.jit(jax.vmap(mul)), cf, cg))
        for i in range(10):
            w = K * st.synth(cf[i], *p) * st.synth(cg[i], *p)
            mon.close("jit-product", st.synth(got[i], *p), w, atol=1e-11)
        # bilinear: the gradient with respect to a factor is the product with the direction
        w = jnp.asarray(rng.normal(size=got.shape[1]))
        gr = np.asarray(jax.grad(lambda x, w=w, y=cg[0]: w @ mul(x, y))(jnp.asarray(cf[0])))
        lin = [float(w @ mul(e, jnp.asarray(cg[0]))) for e in np.eye(cf.shape[1])[:6]]
        mon.close("gradient", gr[:6], lin, atol=1e-11)
    # the intensity of the surface made from a product, eagerly
    f, g = random_map(rng, 2)[0], random_map(rng, 2)[0]
    s = api.Surface(y=api.Ylm(f) * api.Ylm(g), normalize=False)
    lat, lon = rng.uniform(-1.5, 1.5, 4), rng.uniform(-3, 3, 4)
    q = np.cos(lat) * np.sin(lon), np.sin(lat), np.cos(lat) * np.cos(lon)
    got = np.array([float(s.intensity(x, y)) for x, y in zip(lat, lon, strict=True)])
    mon.close("surface-intensity", got, K * st.synth(vector(f), *q) * st.synth(vector(g), *q), atol=1e-11)


@JOBS(shards=(1, 2))
def limb_darkening(mon, rng, ctx):
    for it in range(ctx.n(40, 400)):
        n = it % 6 + (0 if it % 12 < 10 else 3)
        if n == 0:
            continue
        u = ldref.profile(rng, n) if it % 3 else rng.normal(size=n) * 0.5
        if abs(st.limb_total(u)) < 0.1:
            continue
        arg = [u, list(map(float, u)), tuple(u)][it % 3]
        y = mon.call("limb-darkening", api.Ylm.from_limb_darkening, arg)
        p = sphere(rng)
        p[2] = np.abs(p[2])
        want = st.limb(u, p[2]) / (np.pi * st.limb_total(u))
        v = ylm_vector(y)
        size = (1 + np.abs(u).sum()) / abs(st.limb_total(u)) * 10 ** (n / 2)
        mon.close("limb-darkening", st.synth(v, *p), want, atol=1e-13 * size, u=u)
        px, py, pz, w = st.disc(deg=n + 4)
        mon.close("limb-darkening-flux", float(w @ st.synth(v, px, py, pz)), 1.0, atol=1e-12 * size, u=u)
        m = np.array([m != 0 for _, m in lm(n)])
        mon.close("limb-darkening", v[m], np.zeros(m.sum()), atol=1e-13 * size, u=u)
        mon.cases_from(np.r_[u, np.zeros(9)][None, :9], nontrivial=True)


F = [1]
for _i in range(1, 700):
    F.append(F[-1] * _i)


def racah(j1, j2, j3, m1, m2, m3):
    """Exact 3j symbol: (sign of the value, its square as a fraction)."""
    if m1 + m2 + m3 or abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3:
        return 0.0
    if j3 > j1 + j2 or j3 < abs(j1 - j2):
        return 0.0
    lo = max(0, j2 - j3 - m1, j1 - j3 + m2)
    hi = min(j1 + j2 - j3, j1 - m1, j2 + m2)
    # common denominator: the exact sum as a fraction
    s = Fraction(0)
    for k in range(lo, hi + 1):
        d = (F[k] * F[j1 + j2 - j3 - k] * F[j1 - m1 - k] * F[j2 + m2 - k]
             * F[j3 - j2 + m1 + k] * F[j3 - j1 - m2 + k])
        s += Fraction((-1) ** k, d)
    sq = Fraction(F[j1 + j2 - j3] * F[j1 - j2 + j3] * F[-j1 + j2 + j3], F[j1 + j2 + j3 + 1])
    sq *= F[j1 + m1] * F[j1 - m1] * F[j2 + m2] * F[j2 - m2] * F[j3 + m3] * F[j3 - m3]
    val = s * s * sq
    sign = (-1) ** (j1 - j2 - m3) * (1 if s > 0 else -1 if s < 0 else 0)
    if not sign:
        return 0.0
    # a correctly rounded square root of the exact fraction
    scale = 1 << 400
    return sign * float(Fraction(math.isqrt((val.numerator * scale * scale) // val.denominator), scale))


@JOBS(shards=(2, 6))
def wigner(mon, rng, ctx):
    W = api.Wigner3j
    if ctx.shard == 0:  # all small ones, selection rules included
        J = range(ctx.n(4, 6))
        for j1 in J:
            for j2 in J:
                for j3 in J:
                    rows = [(j1, j2, j3, m1, m2, m3) for m1 in range(-j1 - 1, j1 + 2)
                            for m2 in range(-j2 - 1, j2 + 2)
                            for m3 in {-m1 - m2, -m1 - m2 + 1} if abs(m3) <= j3 + 1]
                    got = [float(mon.call("wigner", W, *q)) for q in rows]
                    mon.close("wigner", got, [racah(*q) for q in rows], atol=2e-15, q=np.array(rows))
                    cg = [float(mon.call("clebsch-gordan", api.clebsch_gordan, q[0], q[3], q[1],
                                         q[4], q[2], -q[5])) for q in rows]
                    want = [(-1.0) ** (q[0] - q[1] - q[5]) * math.sqrt(2 * q[2] + 1) * racah(*q)
                            for q in rows]
                    mon.close("clebsch-gordan", cg, want, atol=1e-14, q=np.array(rows))
                    mon.cases_from(np.array(rows), nontrivial=np.array([racah(*q) != 0 for q in rows]))
    # random larger ones
    for _ in range(ctx.n(600, 6000)):
        top = int(rng.choice([6, 15, 40]))
        j2, j3 = (int(v) for v in rng.integers(0, top + 1, 2))
        m2, m3 = int(rng.integers(-j2, j2 + 1)), int(rng.integers(-j3, j3 + 1))
        j1 = int(rng.integers(abs(j2 - j3), j2 + j3 + 1))
        q = (j1, j2, j3, -m2 - m3, m2, m3)
        ref = racah(*q)
        mon.case(*q, nontrivial=ref != 0)
        v = float(mon.call("wigner-large", W, *q))
        mon.close("wigner-large", v, ref, atol=1e-13, q=str(q))
        par = (-1) ** sum(q[:3])
        perm = [float(W(j2, j3, j1, m2, m3, q[3])), float(W(j3, j1, j2, m3, q[3], m2)),
                par * float(W(j2, j1, j3, m2, q[3], m3)), par * float(W(j1, j3, j2, q[3], m3, m2)),
                par * float(W(j3, j2, j1, m3, m2, q[3])),
                par * float(W(j1, j2, j3, -q[3], -m2, -m3))]
        mon.close("wigner-symmetry", perm, np.full(6, ref), atol=1e-13, q=str(q))
    # one calculator reused in any order, sizes larger than needed
    for _ in range(ctx.n(8, 60)):
        a, b = (int(v) for v in rng.integers(1, 13, 2))
        calc = mon.call("wigner-table", api.Wigner3jCalculator, a, b)
        for _ in range(ctx.n(25, 60)):
            j2, j3 = int(rng.integers(0, a + 1)), int(rng.integers(0, b + 1))
            m2, m3 = int(rng.integers(-j2 - 1, j2 + 2)), int(rng.integers(-j3 - 1, j3 + 2))
            t = np.copy(mon.call("wigner-table", calc.calculate, j2, j3, m2, m3))
            want = np.array([racah(j, j2, j3, -m2 - m3, m2, m3) for j in range(a + b + 1)])
            mon.close("wigner-table", t[: len(want)], want, atol=3e-15 * (1 + a + b), j2=j2, j3=j3,
                      m2=m2, m3=m3)
            out = np.array([j for j in range(a + b + 1)
                            if j < max(abs(j2 - j3), abs(m2 + m3)) or j > j2 + j3], int)
            if out.size:
                mon.all("wigner-outside", t[out] == 0, "not zero outside of the range", j2=j2, j3=j3)
            fresh = api.Wigner3jCalculator(max(a, b), max(a, b) + 3).calculate(j2, j3, m2, m3)
            mon.close("wigner-reuse", t, np.array(fresh[: len(t)]), atol=1e-14, j2=j2, j3=j3, m2=m2, m3=m3)
    for _ in range(ctx.n(15, 100)):
        j2, j3 = (int(v) for v in rng.integers(0, 61, 2))
        m2, m3 = int(rng.integers(-j2, j2 + 1)), int(rng.integers(-j3, j3 + 1))
        t = np.copy(api.Wigner3jCalculator(j2, j3).calculate(j2, j3, m2, m3))
        mon.close("wigner-orthogonal", float(np.sum((2 * np.arange(len(t)) + 1) * t**2)), 1.0,
                  atol=1e-12, j2=j2, j3=j3, m2=m2, m3=m3)
        js = rng.integers(0, len(t), 3)
        mon.close("wigner-large", t[js], [racah(int(j), j2, j3, -m2 - m3, m2, m3) for j in js],
                  atol=1e-12, j2=j2, j3=j3, m2=m2, m3=m3)


JOBS(shards=(1, 1))(whole.job(whole.maps))
