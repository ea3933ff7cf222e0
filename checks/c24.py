"""C24: the arbitrary precision reference agrees with the fast path and its cache."""

import contextlib
import io
from collections import defaultdict

import numpy as np

from lib import api, ldref, st
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one call of an arbitrary precision function (degree, orientation, geometry, map) "
    "at its place in a random history of calls that share a cache. Non-trivial: degree above 0. "
    "Oracle: the double precision implementation, an independent quadrature of the visible disc, "
    "and the same call with an empty cache."
)
ASSUMPTIONS = ["maps with unit (0, 0) coefficient; b > 0 (b = 0 is not supported by the reference)"]
REQUIRED = [
    "rotation", "rotation-group", "rz", "left-project", "A1", "A2", "A2-exact", "rT", "solution",
    "solution-quadrature", "limb-dark", "domain", "flux", "flux-core", "history", "cold-cache",
    "unocculted", "total", "precision", "converges", "convert", "inputs-kept",
]


def M():
    return api.module("starry.multiprecision")


def sub(name):
    return api.module("starry.multiprecision." + name)


def col(mp, y):
    return mp.matrix([mp.mpf(float(v)) for v in y])


def num(x):
    return np.array([float(v) for v in x])


def dense(A):
    return np.asarray(A.todense() if hasattr(A, "todense") else A, float)


def mpdense(A):
    return np.array([[float(v) for v in row] for row in A.tolist()])


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


ANGLES = [0.0, np.pi / 2, -np.pi / 2, np.pi, -np.pi, 1e-9, 2.0, -4.0, 2 * np.pi, 1e-3]
AXES = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (0, 0, -1), (-1, 0, 0), (0, -1, 0), (1, 1, 1), (0.6, 0, 0.8)]


@JOBS(shards=(3, 8))
def rotations(mon, rng, ctx):
    mp, rot = M().mp, sub("rotation")
    for it in ctx.mine(range(ctx.n(60, 700))):
        deg = it % 7
        n = (deg + 1) ** 2
        special = rng.random() < 0.5
        u = AXES[int(rng.integers(len(AXES)))] if special else rng.normal(size=3)
        u = np.asarray(u, float) / np.linalg.norm(u)
        th = float(ANGLES[int(rng.integers(len(ANGLES)))] if rng.random() < 0.5 else rng.normal() * 3)
        y = rng.normal(size=n)
        y[0] = 1.0
        w = dict(degree=deg, axis=u, theta=th, y=y)
        tol = 1e-12 * (1 + deg) * (1 + np.abs(y).max())
        Y = col(mp, y)
        got = num(mon.call("rotation", rot.dot_rotation_matrix(deg, tuple(map(float, u)), th), Y, witness=w))
        # the fast path is only accurate to 1e-6 next to rotations about z, see C16
        near = 0 < np.hypot(u[0], u[1]) * abs(np.sin(th / 2)) < 1e-6
        want = np.asarray(api.dot_rotation_matrix(deg, *map(float, u), th)(y)).ravel()
        mon.close("rotation", got, want, atol=tol if not near else 1e-5 * (1 + deg) ** 2, **w)
        mon.close("inputs-kept", num(Y), y, atol=0.0)
        # y rotated by +theta about u is the map whose value at R p is that of y at p
        a, b = st_points(rng, u, th)
        mon.close("rotation-group", st.synth(got, *b), st.synth(y, *a), atol=1e-11 * (1 + deg) ** 2,
                  **w)
        back = num(rot.dot_rotation_matrix(deg, tuple(map(float, u)), -th)(mp.matrix(got.tolist())))
        mon.close("rotation-group", back, y, atol=tol, **w)
        # special case about z, in the convention used by flux: the inverse rotation
        z = num(mon.call("rz", rot.dot_rz(deg, th), Y))
        mon.close("rz", z, np.asarray(api.dot_rz(deg, -th)(y)).ravel(), atol=tol, **w)
        inc, obl, tz = float(rng.uniform(0, np.pi)), float(rng.normal()), float(rng.normal())
        if rng.random() < 0.4:
            inc, obl, tz = [float(rng.choice([np.pi / 2, v])) for v in (inc, obl, tz)]
        if rng.random() < 0.3:
            obl, tz = (0.0, tz) if rng.random() < 0.5 else (obl, 0.0)
        phi = float(rng.choice([0.0, th]))
        lp = num(mon.call("left-project", rot.left_project, deg, inc, obl, phi, tz, Y))
        want = np.asarray(api.left_project(deg, inc, obl, phi, tz, y)).ravel()
        mon.close("left-project", lp, want, atol=3 * tol if inc > 1e-5 else 1e-5 * (1 + deg) ** 2, inc=inc,
                  obl=obl, theta=phi, theta_z=tz, y=y)
        mon.case("rot", deg, *u, th, nontrivial=deg > 0)


def st_points(rng, u, th):
    p = rng.normal(size=(3, 6))
    p /= np.linalg.norm(p, axis=0)
    K = np.array([[0, -u[2], u[1]], [u[2], 0, -u[0]], [-u[1], u[0], 0]])
    # coefficients are contracted from the left: the map moves by -theta
    R = np.eye(3) - np.sin(th) * K + (1 - np.cos(th)) * K @ K
    return p, R @ p


@JOBS()
def bases(mon, rng, ctx):
    mp, bas, sol, utils = M().mp, sub("basis"), sub("solution"), sub("utils")
    degs = list(range(ctx.n(8, 14)))
    order = list(rng.permutation(degs)) * 2  # the second round is answered by the cache
    for deg in map(int, order):
        n = (deg + 1) ** 2
        a1 = mpdense(mon.call("A1", quiet, bas.A1, deg))
        mon.close("A1", a1, dense(api.A1(deg)).reshape(n, n), atol=1e-12 * (1 + np.abs(a1).max()),
                  degree=deg)
        cache = defaultdict(lambda: {})
        mon.close("cold-cache", mpdense(quiet(bas.A1, deg, cache=cache)), a1, atol=0.0, degree=deg)
        A2 = mon.call("A2", quiet, bas.A2, deg)
        inv = mon.call("A2", bas.A2_inv, deg)
        a2 = mpdense(A2)
        mon.close("A2", mpdense(inv), dense(api.A2_inv(deg)).reshape(n, n), atol=0.0, degree=deg)
        mon.close("A2-exact", mpdense((A2 * inv - mp.eye(n)) * mp.mpf(10) ** 20), np.zeros((n, n)),
                  atol=1.0, degree=deg)
        mon.close("cold-cache", mpdense(quiet(bas.A2, deg, cache=cache)), a2, atol=0.0, degree=deg)
        mon.close("rT", num(sol.rT(deg)), np.asarray(api.rT(deg), float), atol=1e-13, degree=deg)
        X = rng.normal(size=(n, 2))
        mon.close("convert", utils.to_numpy(utils.to_mp(X)), X, atol=0.0)
        mon.close("convert", utils.to_numpy(utils.to_mp(X[:, 0])), X[:, 0], atol=0.0)
        mon.close("convert", utils.diff_mp(A2, a2), np.zeros((n, n)) if deg else np.zeros(1),
                  atol=1e-12 * (1 + np.abs(a2).max()), degree=deg)
        mon.case("basis", deg, nontrivial=deg > 0)


def geometry(rng, overlap=True):
    while True:
        b, r, _ = ldref.geometries(rng, 60, rmax=12.0)
        ok = (b > 1e-4) & (r > 3e-3) & (r < 12)
        # next to contacts the references lose digits, not the point here
        for edge in (1 + r, np.abs(1 - r)):
            ok &= np.abs(b - edge) > 1e-7
        if overlap:
            ok &= (b < 1 + r) & ((r < 1) | (b > r - 1))
        if ok.any():
            i = int(np.flatnonzero(ok)[rng.integers(ok.sum())])
            return float(b[i]), float(r[i])


@JOBS(shards=(4, 8))
def solutions(mon, rng, ctx):
    import jax

    mp, sol = M().mp, sub("solution")
    fast = {d: jax.jit(api.st_solution_vector(d, order=300)) for d in range(1, 7)}
    ldfast = {d: jax.jit(api.ld_solution_vector(d, order=300)) for d in range(1, 7)}
    seen = []
    for it in ctx.mine(range(ctx.n(40, 400))):
        deg = 1 + it % 6
        b, r = geometry(rng)
        if rng.random() < 0.15:
            b = r if r > 0.5 else b
        if seen and rng.random() < 0.3:
            deg, b, r = seen[int(rng.integers(len(seen)))]
        seen.append((deg, b, r))
        w = dict(degree=deg, b=b, r=r)
        n = (deg + 1) ** 2
        s = num(mon.call("solution", sol.get_sT, deg, mp.mpf(b), mp.mpf(r), witness=w))
        g = np.asarray(fast[deg](b, r))
        A2 = np.abs(np.linalg.inv(dense(api.A2_inv(deg)).reshape(n, n)))
        mon.close("solution", s, g, atol=1e-9 * np.maximum(1, r / 3) * (1 + deg), **w)
        x, y, z, q = st.disc(r, 0.0, b, deg=deg)
        from checks.c17 import monomials

        want = q @ monomials(deg, x, y, z) if q.size else np.zeros(n)
        A2s = np.linalg.inv(dense(api.A2_inv(deg)).reshape(n, n))
        mon.close("solution-quadrature", s @ A2s, want,
                  atol=1e-10 * A2.sum(0) * max(1, r / 3) * (1 + deg), **w)
        if (b > abs(1 - r)) or r < 1:
            L = num(mon.call("limb-dark", sol.solution_limb_dark, deg, mp.mpf(b), mp.mpf(r), witness=w))
            mon.close("limb-dark", L, np.asarray(ldfast[deg](b, r)),
                      atol=1e-9 * np.maximum(1, r) * (1 + deg), **w)
        if it % 8 == 0:
            old = mp.dps
            try:
                mp.dps = 20
                lo = sol.sT(deg, mp.mpf(b), mp.mpf(r))
                mp.dps = 40
                hi = sol.sT(deg, mp.mpf(b), mp.mpf(r))
                d = num((lo - hi) * mp.mpf(10) ** 14)
            finally:
                mp.dps = old
            mon.close("converges", d, np.zeros(n), atol=1.0 * max(1, r) ** 2, **w)
        mon.case("sT", deg, b, r)
    for b, r, bad in [(0.5, 0.1, False), (1.1, 0.1, True), (1.2, 0.1, True), (0.1, 2.0, True),
                      (1.5, 2.0, False), (3.0, 2.0, True), (0.0, 1.0, True), (-0.4, 0.2, False)]:
        if bad:
            mon.rejects("domain", lambda b=b, r=r: sol.check_occultation(b, r), what=f"b={b} r={r}")
        else:
            mon.call("domain", sol.check_occultation, b, r)
            mon._rule("domain")["events"] += 1


def new_cache():
    return defaultdict(lambda: {"R_obl": {}, "R_inc": {}, "sT": {}})


@JOBS(shards=(8, 8))
def fluxes(mon, rng, ctx):
    """A history of flux calls drawn from small pools, so that caches are hit and shared."""
    import jax

    mp, fl = M().mp, sub("flux")
    pool = dict(
        inc=[np.pi / 2, float(rng.uniform(0.1, 3.0)), float(rng.uniform(0.1, 3.0))],
        obl=[0.0, float(rng.normal()), float(rng.normal())],
        geo=[geometry(rng) for _ in range(4)],
    )
    shared = new_cache()
    fast = {}
    for it in range(ctx.n(14, 120)):
        ydeg, udeg = int(rng.integers(0, 5)), int(rng.integers(0, 3))
        if rng.random() < 0.1:
            ydeg = int(rng.integers(5, 7))
        inc = pool["inc"][int(rng.integers(3))]
        obl = pool["obl"][int(rng.integers(3))]
        y = rng.normal(size=(ydeg + 1) ** 2) * 0.4
        y[0] = 1.0
        u = tuple(map(float, rng.uniform(-0.3, 0.5, udeg)))
        phi = float(rng.choice([0.0, rng.normal() * 2, np.pi]))
        b, r = pool["geo"][int(rng.integers(4))]
        kind = rng.choice(["occ", "occ", "occ", "occ", "behind", "none", "total"])
        if kind == "none":
            b = 1.001 + r if rng.random() < 0.7 else 1 + r
            if udeg or not ydeg:
                kind = "occ"
                b, r = pool["geo"][0]
        elif kind == "total":
            r = 1.7
            b = float(rng.choice([0.0, 0.3, 0.7]))
        elif kind == "behind":
            b = -b
        w = dict(ydeg=ydeg, udeg=udeg, inc=inc, obl=obl, y=y, u=u, phi=phi, b=b, r=r, call=it)
        which = [None, shared][int(rng.integers(2))]
        y0 = y.copy()
        impl = mon.call("flux", quiet, fl.flux, ydeg, udeg, inc, obl, cache=which, witness=w)
        # functions made earlier stay valid when others are made
        got = float(mon.call("flux", quiet, impl, b, r, y=y, phi=phi, u=u, witness=w))
        mon.check("inputs-kept", np.array_equal(y, y0), "y modified")
        kw = dict(coef=y, u=u, inc=inc, obl=obl, theta=phi)
        if kind == "total":
            mon.close("total", got, 0.0, atol=0.0, **w)
            mon.case("flux", ydeg, udeg, b, r)
            continue
        if kind == "none":
            mon.close("unocculted", got, st.flux(**kw), atol=1e-10 * (1 + ydeg) * 10, **w)
        else:
            want = st.flux(**kw, r=r, x=0.0, y=b)
            size = np.abs(y).sum() * (1 + sum(map(abs, u)))
            mon.close("flux", got, want, atol=1e-9 * size * max(1, r) * (1 + ydeg), **w)
        cold = float(quiet(quiet(fl.flux, ydeg, udeg, inc, obl, cache=new_cache()), b, r, y=y, phi=phi, u=u))
        mon.close("cold-cache", got, cold, atol=1e-14 * (1 + abs(cold)), **w)
        if it % 3 == 0 and kind in ("occ", "behind"):
            key = (ydeg, udeg)
            if key not in fast and len(fast) < ctx.n(2, 8):
                def f(y, u, inc, obl, phi, b, r):
                    s = api.Surface(y=api.Ylm.from_dense(y, normalize=False), u=u, inc=inc, obl=obl,
                                    normalize=False)
                    return api.surface_light_curve(s, r=r, y=b, z=10.0, theta=phi, order=200)
                fast[key] = jax.jit(f)
            if key in fast:
                v = float(fast[key](y, u, inc, obl, phi, b, r))
                mon.close("flux-core", got, v, atol=1e-8 * np.abs(y).sum() * max(1, r), **w)
        mon.case("flux", ydeg, udeg, b, r, inc, obl, phi, nontrivial=ydeg + udeg > 0)
        mon.fact("calls")
    # the whole history again, in another order, now answered by warm caches
    todo = []
    for it in range(ctx.n(4, 20)):
        ydeg, udeg = int(rng.integers(1, 4)), int(rng.integers(0, 3))
        y = np.r_[1.0, rng.normal(size=(ydeg + 1) ** 2 - 1) * 0.3]
        u = tuple(map(float, rng.uniform(0, 0.4, udeg)))
        b, r = pool["geo"][it % 4]
        todo.append((ydeg, udeg, pool["inc"][it % 3], pool["obl"][(it + 1) % 3], b, r, y, u))
    impls = [quiet(fl.flux, *t[:4]) for t in todo]
    one = [float(quiet(f, t[4], t[5], y=t[6], u=t[7])) for f, t in zip(impls, todo, strict=True)]
    for i in rng.permutation(len(todo)):
        t = todo[i]
        again = float(quiet(impls[i], t[4], t[5], y=t[6], u=t[7]))
        mon.close("history", again, one[i], atol=0.0, call=i)
        want = st.flux(t[6], t[7], t[2], t[3], 0.0, r=t[5], x=0.0, y=t[4])
        mon.close("history", again, want, atol=1e-9 * np.abs(t[6]).sum() * 10 * max(1, t[5]), call=i)


@JOBS()
def precision(mon, rng, ctx):
    """The helpers that report the error of the fast path: small where that is accurate."""
    p = sub("precision")
    for _ in range(ctx.n(6, 40)):
        ydeg, udeg = int(rng.integers(1, 4)), int(rng.integers(0, 3))
        r = float(rng.choice([0.05, 0.3, 0.9, 1.5, rng.uniform(0.02, 3)]))
        lo, hi = abs(1 - r) + 0.02, 1 + r - 0.02
        b = float(rng.uniform(lo, hi)) if hi > lo else None
        e = mon.call("precision", quiet, p.starry_light_curve, ydeg, udeg, r, 300, b=b)
        mon.close("precision", e, 0.0, atol=1e-9 * (ydeg + 1) ** 2 * 10, ydeg=ydeg, udeg=udeg, r=r, b=b)
        e = mon.call("precision", quiet, p.limb_dark_light_curve, max(udeg, 1), r, 300, b=b)
        mon.close("precision", e, 0.0, atol=1e-9, udeg=udeg, r=r, b=b)
        e = mon.call("precision", quiet, p.starry_light_curve, 1, 0, r, 300)
        mon.close("precision", e, 0.0, atol=1e-7, r=r)
        mon.case("precision", ydeg, udeg, r, b)
