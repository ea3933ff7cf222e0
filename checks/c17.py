"""C17: basis changes and polynomial algebra represent the same function."""

import numpy as np
from scipy.special import beta as Beta

from lib import api, ldref, st, whole
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one coefficient vector (spherical harmonic, limb darkening or polynomial), pair "
    "of polynomials, or one position and size of an occultor for all terms up to a degree. "
    "Non-trivial: some coefficient of degree one or more is not zero. Oracle: evaluation at "
    "points of the sphere by independent synthesis; closed form disc integrals; ring quadrature "
    "of the uncovered disc."
)
ASSUMPTIONS = []
REQUIRED = [
    "harmonics", "limb-darkening", "limb-darkening-shape", "poly-basis", "disc-integrals",
    "uncovered-integrals", "greens", "product", "sum", "scale", "roundtrip", "index",
    "product-matrix", "padded", "broadcast", "getitem", "jit", "diagonal",
    "whole-numbers",
]


def ijk(n):
    """Powers of the n-th term: 1, x, z, y, x^2, xz, xy, yz, y^2, ..."""
    l = int(np.sqrt(n + 0.5))
    m = n - l * l - l
    if (l + m) % 2 == 0:
        return (l - m) // 2, (l + m) // 2, 0
    return (l - m - 1) // 2, (l + m - 1) // 2, 1


def monomials(deg, x, y, z):
    return np.stack([x**i * y**j * z**k for i, j, k in map(ijk, range((deg + 1) ** 2))], -1)


def disc_integrals(deg):
    out = []
    for i, j, k in map(ijk, range((deg + 1) ** 2)):
        if i % 2 or j % 2:
            out.append(0.0)
        else:
            out.append(Beta((i + j) / 2 + 1, k / 2 + 1) * Beta((i + 1) / 2, (j + 1) / 2))
    return np.array(out)


def sphere(rng, n=40):
    p = rng.normal(size=(3, n))
    p[:, 0] = [0, 0, 1]
    p[:, 1] = [0, 1, 0]
    p[:, 2] = [-1, 0, 0]
    p[:, 3] = [0.6, 0.8, 0]
    return p / np.linalg.norm(p, axis=0)


def dense(A):
    return np.asarray(A.todense() if hasattr(A, "todense") else A)


@JOBS(shards=(4, 8))
def bases(mon, rng, ctx):
    import jax

    for deg in ctx.mine(range(ctx.n(11, 18))):
        n = (deg + 1) ** 2
        p = sphere(rng)
        pT = np.asarray(mon.call("poly-basis", jax.jit(api.poly_basis(deg)), *p))
        mon.close("poly-basis", pT, monomials(deg, *p), atol=1e-14, degree=deg)
        # points inside the disc without z are told from points outside by nan
        out = np.asarray(api.poly_basis(deg)(1.2, 0.3, np.nan))
        mon.all("poly-basis", np.isnan(out), "finite outside of the disc", degree=deg)
        A = dense(mon.call("harmonics", api.A1, deg)).reshape(n, n)
        c = np.vstack([np.eye(n), rng.normal(size=(6, n))])
        want = np.tensordot(c, st.harmonics(deg, *p), 1)
        # alternating powers: rounding grows with the degree
        size = np.abs(c) @ (np.abs(A).T @ np.ones(n))
        mon.close("harmonics", c @ A.T @ pT.T, want, atol=(1e-13 * (1 + size))[:, None], degree=deg)
        mon.cases_from(c[n:, :4], nontrivial=deg > 0)
        rt = np.asarray(mon.call("disc-integrals", api.rT, deg), float)
        mon.close("disc-integrals", rt, disc_integrals(deg), atol=1e-13 * (1 + deg), degree=deg)
        if deg:
            B = dense(mon.call("greens", api.basis, deg))
            G = dense(mon.call("greens", api.A2_inv, deg))
            mon.close("greens", G @ B, A, atol=1e-12 * (1 + np.abs(A).max()) * (1 + np.abs(B).max()),
                      degree=deg)
        # integrals of the harmonics: even degrees with m even only
        mon.fact("degrees")


@JOBS(shards=(4, 8))
def occulted(mon, rng, ctx):
    """What the solution vectors integrate: every monomial and harmonic over the open disc."""
    import jax
    import jax.numpy as jnp

    degs = [1, 2, 3, 4, 12, 9, 6, 7, 5, 8, 10] if not ctx.thorough else list(range(1, 16))
    for deg in ctx.mine(degs):
        n = ctx.n(120, 1200) // (1 + deg // 9)
        b, r, _ = ldref.geometries(rng, n, rmax=20.0)
        r = np.maximum(r, 1e-4)
        k = b < 1 + r  # without overlap there is nothing to solve
        b, r = b[k], r[k]
        sol = jax.jit(api.st_solution_vector(deg, order=100))
        s = np.asarray(mon.call("uncovered-integrals", sol, b, r))
        mon.check("broadcast", s.shape == (b.size, (deg + 1) ** 2), f"{s.shape}")
        want = np.empty_like(s)
        for i in range(b.size):
            x, y, z, w = st.disc(r[i], 0.0, b[i], deg=deg)
            want[i] = w @ monomials(deg, x, y, z) if w.size else 0.0
        A2 = np.linalg.inv(dense(api.A2_inv(deg)).reshape((deg + 1) ** 2, -1))
        # half of the terms are integrated with at most twenty nodes whatever the order
        base = 1e-10 * 30 ** (max(0, deg - 10) / 2)
        tol = base * np.abs(A2).sum(0)[None] * np.maximum(1, r[:, None] / 3) * (1 + deg)
        mon.close("uncovered-integrals", s @ A2, want, atol=tol, b=b, r=r, degree=deg)
        mon.close("broadcast", np.asarray(sol(-b, r)), s, atol=1e-12)
        bb = np.linspace(0.1, 1.2, 3)[:, None] + np.zeros((3, 2))
        rr = np.array([0.1, 0.7])
        grid = np.asarray(mon.call("broadcast", sol, jnp.asarray(bb), jnp.asarray(rr)))
        one = np.stack([[np.asarray(sol(bb[i, j], rr[j])) for j in range(2)] for i in range(3)])
        mon.close("broadcast", grid, one, atol=1e-13)
        if deg:
            B = dense(api.basis(deg))
            A = dense(api.A1(deg)).reshape((deg + 1) ** 2, -1)
            mon.close("greens", s @ B, want @ A, degree=deg,
                      atol=base * (1 + np.abs(B)).sum(0)[None] * np.maximum(1, r[:, None] / 3) * (1 + deg))
        mon.cases_from(b, r, np.full(b.size, deg))


@JOBS()
def limb(mon, rng, ctx):
    for deg in range(ctx.n(9, 16)):
        M = np.asarray(mon.call("limb-darkening", api.U, deg))
        mon.check("limb-darkening-shape", M.shape == (deg + 1, (deg + 1) ** 2), f"{M.shape}")
        p = sphere(rng)
        for _ in range(ctx.n(6, 40)):
            u = np.concatenate([[1.0], rng.normal(size=deg)])
            want = st.limb(u[1:], p[2]) * np.ones(p.shape[1])
            got = (u @ M) @ monomials(deg, *p).T
            mon.close("limb-darkening", got, want,
                      atol=1e-14 * (1 + (np.abs(u) * 4.0 ** np.arange(deg + 1)).sum()) * 10, u=u)
            mon.close("disc-integrals", (u @ M) @ np.asarray(api.rT(deg)) / np.pi,
                      np.asarray(st.limb_total(u[1:])),
                      atol=1e-13 * (1 + (np.abs(u) * 4.0 ** np.arange(deg + 1)).sum()), u=u)
            mon.case("u", *u, nontrivial=deg > 0)


def random_poly(rng, dmax=5):
    d = int(rng.integers(0, dmax + 1))
    n = (d + 1) ** 2
    keep = rng.random(n) < rng.choice([0.2, 0.6, 1.0])
    keep[int(rng.integers(n))] = True
    idx = np.flatnonzero(keep)
    rng.shuffle(idx)
    return {ijk(int(k)): float(rng.normal()) for k in idx}


def value(data, p):
    return sum(v * p[0] ** i * p[1] ** j * p[2] ** k for (i, j, k), v in data.items())


def vector(q):
    return np.asarray(q.todense(), float)


def evaluate(mon, q, p, rule):
    v = vector(q)
    d = int(np.sqrt(v.size + 0.5)) - 1
    mon.check(rule, v.shape == ((d + 1) ** 2,) and q.degree == d and q.shape == v.size,
              f"shape {v.shape}, degree {q.degree}")
    return monomials(d, *p) @ v


@JOBS(shards=(2, 4))
def algebra(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    P = api.Pijk
    for it in ctx.mine(range(ctx.n(80, 800))):
        p = sphere(rng, 12)
        a, b = random_poly(rng), random_poly(rng)
        A, B = P(a), P(b)
        va, vb = value(a, p), value(b, p)
        w = dict(a=list(a.items()), b=list(b.items()))
        sa, sb = sum(map(abs, a.values())), sum(map(abs, b.values()))
        mon.case("poly", sorted(a.items()), sorted(b.items()))
        mon.close("roundtrip", evaluate(mon, A, p, "roundtrip"), va, atol=1e-14 * (1 + sa), **w)
        mon.close("roundtrip", vector(P.from_dense(vector(A))), vector(A), atol=0, **w)
        mon.close("roundtrip", np.asarray(A.tosparse().todense()), vector(A), atol=0, **w)
        for key in [(0, 0, 0), *list(a)[:3]]:
            mon.close("getitem", np.asarray(A[key]), np.asarray(a.get(key, 0.0)), atol=0, key=key, **w)
        mon.close("product", evaluate(mon, A * B, p, "product"), va * vb,
                  atol=1e-14 * (1 + sa) * (1 + sb) * 10, **w)
        mon.close("product", vector(B * A), vector(A * B), atol=1e-14 * (1 + sa) * (1 + sb), **w)
        mon.close("sum", evaluate(mon, A + B, p, "sum"), va + vb, atol=1e-14 * (1 + sa + sb), **w)
        k = float(rng.normal())
        mon.close("scale", evaluate(mon, A * k, p, "scale"), va * k, atol=1e-14 * (1 + sa), **w)
        mon.close("scale", evaluate(mon, k * A, p, "scale"), va * k, atol=1e-14 * (1 + sa), **w)
        # neither operand is changed
        mon.check("scale", dict(A.data) == a and dict(B.data) == b, "operand modified", **w)
        da = int(np.sqrt(vector(A).size + .5)) - 1
        db = int(np.sqrt(vector(B).size + .5)) - 1
        mon.check("diagonal", A.diagonal == all(i == j for i, j, _ in a),
                  f"{A.diagonal}", **w)
        if it % 3 == 0:
            M = np.asarray(mon.call("product-matrix", api.polynomial_product_matrix, vector(A), db))
            mon.check("product-matrix", M.shape == ((da + db + 1) ** 2, (db + 1) ** 2), f"{M.shape}")
            got = monomials(da + db, *p) @ (M @ vector(B))
            mon.close("product-matrix", got, va * vb, atol=1e-13 * (1 + sa) * (1 + sb), **w)
        # a larger declared degree pads with zeros
        big = P(a, degree=da + 2)
        v = vector(big)
        mon.check("padded", v.size == (da + 3) ** 2, f"{v.size}")
        mon.close("padded", v[: (da + 1) ** 2], vector(A), atol=0, **w)
        mon.close("padded", np.abs(v[(da + 1) ** 2:]).max(), 0.0, atol=0)
        if it % 10 == 0:
            x, y = vector(A), vector(B)
            f = jax.jit(lambda x, y: (P.from_dense(x) * P.from_dense(y)).todense())
            got = np.asarray(mon.call("jit", f, jnp.asarray(x), jnp.asarray(y)))
            mon.close("jit", monomials(da + db, *p) @ got, va * vb,
                      atol=1e-13 * (1 + sa) * (1 + sb), **w)
    for n in range(ctx.n(200, 900)):
        mon.check("index", P.n2ijk(n) == ijk(n), f"{n}: {P.n2ijk(n)}")
        l, m = P.n2lm(n)
        mon.check("index", P.lm2n(l, m) == n and P.ijk2lm(*ijk(n)) == (l, m)
                  and P.lm2ijk(l, m) == ijk(n), f"{n}: {l}, {m}")


JOBS(shards=(1, 1))(whole.job(whole.polynomials))
