"""C16: rotating a map is the rotation of its intensity, for every axis and angle."""

import numpy as np
from scipy.spatial.transform import Rotation as SR

from lib import api, st
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one (degree, coefficients, axis, angle) or one (inclination, obliquity, phase, "
    "roll) with any of them left out. Axes: random, coordinate axes of both signs, of any "
    "length, and within 1e-12..1e-3 of a coordinate axis; angles: random, many turns, "
    "multiples of pi/2 and within 1e-12..1e-3 of them, zero. Non-trivial: the rotation is not "
    "the identity. Oracle: harmonics synthesised at rotated points; group laws."
)
ASSUMPTIONS = ["within 1e-7 of a rotation about z the Euler angles of jax.scipy are accurate to "
               "1e-7 only, the tolerance there is 3e-6"]
REQUIRED = [
    "pointwise", "norm", "compose", "inverse", "identity", "axis-length", "z-fast", "z-negative",
    "rotar", "homogeneous", "batched", "project", "project-none", "right-inverse", "right-transpose",
    "fast-project", "axis-angle-sky", "axis-angle-full", "rejects", "none-angle", "degree-mixing",
    "missing-axis", "gradient", "project-gradient", "axis-angle-unit",
]


def axes(rng, n):
    v = rng.normal(size=(n, 3))
    k = rng.integers(0, 6, n)
    e = np.eye(3)[rng.integers(0, 3, n)] * rng.choice([-1.0, 1.0], (n, 1))
    v = np.where((k == 0)[:, None], e, v)
    v = np.where((k == 1)[:, None], e + v * 10 ** rng.uniform(-12, -3, (n, 1)), v)
    v[:, :] *= np.where(rng.random(n) < 0.3, 10 ** rng.uniform(-3, 3, n), 1.0)[:, None]
    return v


def angles(rng, n):
    k = rng.integers(0, 5, n)
    t = rng.uniform(-np.pi, np.pi, n)
    q = rng.integers(-4, 5, n) * np.pi / 2
    t = np.select([k == 0, k == 1, k == 2],
                  [q, q + 10 ** rng.uniform(-12, -3, n) * rng.choice([-1, 1], n),
                   rng.uniform(-60, 60, n)], t)
    return np.where(rng.random(n) < 0.05, 0.0, t)


def matrices(v, t):
    u = v / np.linalg.norm(v, axis=1)[:, None]
    return SR.from_rotvec(u * t[:, None]).as_matrix()


def coefs(rng, n, deg):
    c = rng.normal(size=(n, (deg + 1) ** 2))
    return c * np.where(rng.random((n, 1)) < 0.3, rng.random(c.shape) < 0.2, 1)


def points(rng, n=12):
    p = rng.normal(size=(3, n))
    p[:, :3] = np.eye(3)
    return p / np.linalg.norm(p, axis=0)


def tol(c, Rm, deg):
    """Relative accuracy: z-y-z Euler angles are degenerate next to rotations about z."""
    s = np.sqrt(np.maximum(Rm[:, 0, 2] ** 2 + Rm[:, 1, 2] ** 2, 0))
    near = s < 3e-7
    return np.linalg.norm(c, axis=1) * (1 + deg) ** 2 * np.where(near, 5e-7, 2e-13)


def per_degree(c):
    L = int(round(np.sqrt(c.shape[-1])))
    return np.stack([np.linalg.norm(c[..., l * l:(l + 1) ** 2], axis=-1) for l in range(L)], -1)


@JOBS(shards=(4, 8))
def rotation(mon, rng, ctx):
    import jax

    degs = [1, 2, 3, 4, 6, 8, 0, 5] if not ctx.thorough else list(range(13)) + [15, 20]
    for deg in ctx.mine(degs):
        n = ctx.n(400, 4000)
        nm = (deg + 1) ** 2
        f = jax.jit(jax.vmap(lambda c, v, t: api.dot_rotation_matrix(deg, v[0], v[1], v[2], t)(c)))

        def rot(c, v, t, rule="pointwise", f=f):
            return np.asarray(mon.call(rule, f, c, v, t))

        c, v, t = coefs(rng, n, deg), axes(rng, n), angles(rng, n)
        Rm = matrices(v, t)
        got = rot(c, v, t)
        p = points(rng)
        H = st.harmonics(deg, *p)
        want = np.stack([c[i] @ st.harmonics(deg, *(Rm[i] @ p)) for i in range(n)])
        e = tol(c, Rm, deg)[:, None]
        w = dict(c=c, axis=v, angle=t)
        mon.close("pointwise", got @ H, want, atol=e, degree=deg, **w)
        mon.cases_from(c[:, :4], v, t, nontrivial=t != 0)
        mon.close("norm", per_degree(got), per_degree(c), atol=e, **w)
        # only one degree at a time
        one = np.zeros((1, nm))
        if deg:
            l = rng.integers(0, deg + 1, n)
            ll = np.concatenate([[k] * (2 * k + 1) for k in range(deg + 1)])
            one = c * (ll[None] == l[:, None])
            g1 = rot(one, v, t)
            mon.close("degree-mixing", g1, got * (ll[None] == l[:, None]),
                      atol=tol(c, Rm, deg)[:, None] * 1e-2 + 1e-300, **w)
        # same axis: angles add; opposite angle or axis: inverse
        t2 = angles(rng, n)
        two = rot(got, v, t2)
        e2 = e + tol(c, matrices(v, t2), deg)[:, None] + tol(c, matrices(v, t + t2), deg)[:, None]
        mon.close("compose", two, rot(c, v, t + t2), atol=e2, angle2=t2, **w)
        mon.close("inverse", rot(got, v, -t), c, atol=2 * e, **w)
        mon.close("inverse", rot(got, -v, t), c, atol=2 * e, **w)
        # different axes
        v2 = axes(rng, n)
        R2 = matrices(v2, t2)
        two = rot(got, v2, t2)
        want = np.stack([c[i] @ st.harmonics(deg, *(Rm[i] @ R2[i] @ p)) for i in range(n)])
        mon.close("compose", two @ H, want, atol=e + tol(c, R2, deg)[:, None], axis2=v2, angle2=t2,
                  **w)
        k = rng.integers(-3, 4, n) * 2 * np.pi
        mon.close("identity", rot(c, v, k), c, atol=tol(c, matrices(v, 0 * t), deg)[:, None],
                  turns=k, **w)
        s = 10 ** rng.uniform(-5, 5, n)
        mon.close("axis-length", rot(c, v * s[:, None], t), got, atol=e, factor=s, **w)
        # about z
        fz = jax.jit(jax.vmap(lambda c, t: api.dot_rz(deg, t)(c)))
        zz = np.tile([0.0, 0.0, 1.0], (n, 1))
        z = np.asarray(mon.call("z-fast", fz, c, t))
        want = np.stack([c[i] @ st.harmonics(deg, *(Q @ p)) for i, Q in
                         enumerate(matrices(zz, t))])
        ez = np.linalg.norm(c, axis=1)[:, None] * (1 + deg) ** 2 * (1 + deg) * 1e-15 * 30
        mon.close("z-fast", z @ H, want, atol=ez, **w)
        fn = jax.jit(jax.vmap(lambda c, t, s: api.dot_rotation_matrix(deg, None, None, s, t)(c)))
        sg = rng.choice([-1.0, 1.0, -3.0, 0.2], n)
        got2 = np.asarray(mon.call("z-negative", fn, c, t, sg))
        want = np.stack([c[i] @ st.harmonics(deg, *(Q @ p)) for i, Q in
                         enumerate(matrices(zz * sg[:, None], t))])
        mon.close("z-negative", got2 @ H, want, atol=ez, z=sg, **w)
        mon.fact("degrees")


def diff(f, h):
    """Five point derivative of f at zero."""
    return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)


@JOBS(shards=(4, 4))
def variants(mon, rng, ctx):
    """The other implementations, row batches, omitted arguments and refusals."""
    import jax
    import jax.numpy as jnp

    for deg in ctx.mine([1, 2, 3, 5] if not ctx.thorough else [1, 2, 3, 4, 5, 6, 8, 10]):
        n = ctx.n(60, 600)
        c, v, t = coefs(rng, n, deg), axes(rng, n), angles(rng, n)
        Rm = matrices(v, t)
        p = points(rng)
        H = st.harmonics(deg, *p)
        want = np.stack([c[i] @ st.harmonics(deg, *(Rm[i] @ p)) for i in range(n)])
        w = dict(c=c, axis=v, angle=t)
        e = tol(c, Rm, deg)[:, None]
        # next to a rotation about z the recurrence of this one divides by small numbers
        s = np.abs(Rm[:, 2, 2])
        er = (np.linalg.norm(c, axis=1) * np.where(1 - s < 1e-9, 1e-5, 1e-9) * (1 + deg) ** 3)[:, None]
        er = np.where(((1 - s) < 1e-12)[:, None] & ((1 - s) > 0)[:, None], 1e-3 + er, er)
        for rule, fn, tl in (("rotar", api.compute_rotation_matrices, er),
                             ("homogeneous", api.s2fft_compute_rotation_matrices, e)):
            def one(c, v, t, fn=fn):
                R = fn(deg, v[0], v[1], v[2], t)
                return jnp.concatenate([c[l * l:(l + 1) ** 2] @ R[l] for l in range(deg + 1)])

            got = np.asarray(mon.call(rule, jax.jit(jax.vmap(one)), c, v, t))
            mon.close(rule, got @ H, want, atol=tl, degree=deg, **w)

        def hom(c, v, t):
            R = api.s2fft_compute_rotation_matrices(deg, v[0], v[1], v[2], t, homogeneous=True)
            return jnp.concatenate([
                c[l * l:(l + 1) ** 2] @ R[l, deg - l:deg + l + 1, deg - l:deg + l + 1]
                for l in range(deg + 1)])

        got = np.asarray(mon.call("homogeneous", jax.jit(jax.vmap(hom)), c, v, t))
        mon.close("homogeneous", got @ H, want, atol=e, degree=deg, **w)
        # rows of a matrix are rotated one by one, whatever the leading dimensions
        op = mon.call("batched", api.dot_rotation_matrix, deg, *v[0], t[0])
        M = rng.normal(size=(2, 3, (deg + 1) ** 2))
        got = np.asarray(mon.call("batched", op, M))
        mon.check("batched", got.shape == M.shape, f"{got.shape}")
        ref = np.stack([[np.asarray(op(r)) for r in q] for q in M])
        mon.close("batched", got, ref, atol=1e-12 * (1 + deg))
        opz = api.dot_rz(deg, t[0])
        mon.close("batched", np.asarray(opz(M)), np.stack([[np.asarray(opz(r)) for r in q] for q in M]),
                  atol=1e-13 * (1 + deg))
        # components of the axis that are left out are zero
        x, y, z = rng.normal(size=3)
        for a, full in (((x, None, None), (x, 0, 0)), ((None, y, None), (0, y, 0)),
                        ((x, y, None), (x, y, 0)), ((None, y, z), (0, y, z)),
                        ((x, None, z), (x, 0, z))):
            g = np.asarray(mon.call("missing-axis", api.dot_rotation_matrix(deg, *a, 0.7), c[0]))
            Q = matrices(np.array([full], float), np.array([0.7]))
            mon.close("missing-axis", g @ H, c[0] @ st.harmonics(deg, *(Q[0] @ p)),
                      atol=tol(c[:1], Q, deg)[0], axis=a)
        for a in ((1.0, 0.0, 0.0), (None, None, 1.0), (None, None, None)):
            g = mon.call("none-angle", api.dot_rotation_matrix(deg, *a, None), c[0])
            mon.close("none-angle", np.asarray(g), c[0], atol=0.0)
        mon.rejects("rejects", lambda: api.dot_rotation_matrix(deg, None, None, None, 0.3),
                    what="no axis")
        bad = jnp.ones(2)
        for a in ((bad, 0.0, 1.0, 0.3), (0.0, bad, 1.0, 0.3), (1.0, 0.0, bad, 0.3),
                  (1.0, 0.0, 0.0, bad)):
            mon.rejects("rejects", lambda a=a: api.dot_rotation_matrix(deg, *a), what="vector argument")
        mon.rejects("rejects", lambda: api.dot_rotation_matrix([deg], 1.0, 0.0, 0.0, 0.3),
                    exc=(TypeError,), what="degree that is not an integer")
        mon.rejects("rejects", lambda: api.dot_rotation_matrix(deg, 1.0, 0.0, 0.0, 0.3)(
            jnp.ones((deg + 2) ** 2)), exc=(ValueError, TypeError), what="wrong number of coefficients")
        # derivatives in the axis and the angle, also about z, by nothing and by whole turns
        k = n // 3
        z = np.zeros((3 * k, 3))
        z[:, 2] = rng.choice([-1.0, 1.0, 0.3, -7.0], 3 * k)
        z[:k] = axes(rng, k)
        ts = angles(rng, 3 * k)
        ts[:k] = rng.choice([0.0, np.pi, 2 * np.pi, 1e-9], k)
        ts[k:k + 8] = 0.0
        vv, tt, cc = np.vstack([v, z]), np.concatenate([t, ts]), coefs(rng, n + 3 * k, deg)
        wp = rng.normal(size=p.shape[1])
        back = jnp.asarray(H @ wp)
        g = jax.jit(jax.vmap(jax.value_and_grad(
            lambda v, t, c: api.dot_rotation_matrix(deg, v[0], v[1], v[2], t)(c) @ back, argnums=(0, 1))))
        val, (gv, gt) = mon.call("gradient", g, vv, tt, cc)
        size = np.linalg.norm(vv, axis=1)
        def at(i, v, t):
            Q = matrices(v[None], np.array([t]))[0]
            return cc[i] @ st.harmonics(deg, *(Q @ p)) @ wp

        h = 2e-3 / (1 + deg)
        want = np.array([[diff(lambda s: at(i, vv[i] + s * size[i] * a, tt[i]), h) for a in np.eye(3)] +
                         [diff(lambda s: at(i, vv[i], tt[i] + s), h)] for i in range(len(tt))])
        Rv = matrices(vv, tt)
        e = tol(cc, Rv, deg) * (1 + deg) * np.abs(wp).sum() * (1 + np.abs(tt))
        e = 20 * np.maximum(e, np.linalg.norm(cc, axis=1) * (1 + deg) ** 2 * 1e-10)
        mon.close("gradient", np.asarray(gv) * size[:, None], want[:, :3], atol=e[:, None], axis=vv, angle=tt,
                  degree=deg, c=cc)
        mon.close("gradient", np.asarray(gt), want[:, 3], atol=e, axis=vv, angle=tt, degree=deg, c=cc)
        fwd = jax.jit(jax.vmap(lambda v, t, c, dv, dt: jax.jvp(
            lambda v, t: api.dot_rotation_matrix(deg, v[0], v[1], v[2], t)(c) @ back, (v, t), (dv, dt))[1]))
        dv, dt = rng.normal(size=vv.shape), rng.normal(size=tt.shape)
        got = np.asarray(mon.call("gradient", fwd, vv, tt, cc, dv * size[:, None], dt))
        mon.close("gradient", got, (np.asarray(gv) * dv * size[:, None]).sum(1) + np.asarray(gt) * dt, atol=e,
                  axis=vv, angle=tt)
        gz = jax.jit(jax.vmap(jax.grad(lambda t, c: api.dot_rz(deg, t)(c) @ back)))
        got = np.asarray(mon.call("gradient", gz, tt, cc))
        k = np.tile([0.0, 0.0, 1.0], (len(tt), 1))
        want = np.array([diff(lambda s: at(i, k[i], tt[i] + s), h) for i in range(len(tt))])
        mon.close("gradient", got, want, atol=e, about="z", angle=tt)
        mon.finite("gradient", val)
        mon.cases_from(c[:, :4], v, t)


def nearly_identity(rng, inc, obl, th, tz):
    """Make a quarter of the orientations leave the map (almost) as it is, or whole turns."""
    n = len(inc)
    d = 10 ** rng.uniform(-10, -1.5, (4, n)) * rng.choice([-1, 0, 1], (4, n))
    k = rng.random(n) < 0.25
    turns = 2 * np.pi * rng.integers(-1, 2, (2, n))
    inc[k] = (np.pi / 2 + d[0])[k]
    th[k] = (d[1] + turns[0])[k]
    tz[k] = (d[2] - obl + turns[1])[k]


@JOBS(shards=(4, 8))
def projection(mon, rng, ctx):
    import jax
    import jax.numpy as jnp

    def nz(x):
        return 0.0 if x is None else x

    for deg in ctx.mine([1, 2, 4, 7] if not ctx.thorough else [1, 2, 3, 4, 5, 6, 8, 10]):
        n = ctx.n(250, 2500)
        p = points(rng)
        H = st.harmonics(deg, *p)
        c = coefs(rng, n, deg)
        inc = np.where(rng.random(n) < 0.3, rng.choice([0, np.pi / 2, np.pi, -np.pi / 2, 2 * np.pi], n),
                       rng.uniform(-4, 4, n))
        obl, th, tz = (np.where(rng.random(n) < 0.15, 0.0, np.where(
            rng.random(n) < 0.2, rng.integers(-3, 4, n) * np.pi / 2, rng.uniform(-9, 9, n)))
            for _ in range(3))
        nearly_identity(rng, inc, obl, th, tz)

        def expected(i, inc, obl, th, tz):
            """Sky frame, then rolled by theta_z."""
            Q = matrices(np.array([[0, 0, 1.0]]), np.array([nz(tz)]))[0] @ st.body_to_sky(inc, obl, th)
            return c[i] @ st.harmonics(deg, *(Q.T @ p)), Q

        f = jax.jit(jax.vmap(lambda c, *a: api.left_project(deg, *a, c)))
        g = jax.jit(jax.vmap(lambda c, *a: api.right_project(deg, *a, c)))
        got = np.asarray(mon.call("project", f, c, inc, obl, th, tz))
        want, Q = (np.stack(a) for a in
                   zip(*[expected(i, inc[i], obl[i], th[i], tz[i]) for i in range(n)], strict=True))
        w = dict(c=c, inc=inc, obl=obl, theta=th, theta_z=tz)
        # the angle of the projection comes from an arccos: 1e-8 next to the identity
        near = np.abs(np.cos(inc / 2) * np.cos(obl / 2))
        e = (np.linalg.norm(c, axis=1) * (1 + deg) ** 2 *
             np.where(1 - near < 1e-6, 5e-7, 1e-12))[:, None]
        sz = np.abs(np.sin(inc)) < 1e-6
        e = np.where(sz[:, None], np.maximum(e, np.linalg.norm(c, axis=1)[:, None] * (1 + deg) ** 2 * 5e-7), e)
        mon.close("project", got @ H, want, atol=e, degree=deg, **w)
        mon.cases_from(c[:, :4], inc, obl, th, tz)
        back = np.asarray(mon.call("right-inverse", g, got, inc, obl, th, tz))
        mon.close("right-inverse", back, c, atol=2 * e, **w)
        # M R for one matrix and R^T M for the other
        c2 = rng.normal(size=c.shape)
        r2 = np.asarray(mon.call("right-transpose", g, c2, inc, obl, th, tz))
        mon.close("right-transpose", (got * c2).sum(1), (c * r2).sum(1),
                  atol=2 * e[:, 0] * np.linalg.norm(c2, axis=1), **w)
        h = jax.jit(jax.vmap(lambda c, *a: api.fast_direct_left_project(deg, *a, c)))
        m = min(n, 120)
        fast = np.asarray(mon.call("fast-project", h, c[:m], inc[:m], obl[:m], th[:m], tz[:m]))
        mon.close("fast-project", fast @ H, want[:m], atol=np.maximum(e, np.linalg.norm(
            c, axis=1)[:, None] * (1 + deg) ** 2 * 1e-6)[:m], degree=deg, **w)
        # derivatives in the four angles, seen from either pole and edge-on included
        k = min(n, 80)
        a0 = np.stack([inc, obl, th, tz])[:, :k]
        a0[0, : k // 3] = rng.choice([0.0, np.pi, np.pi / 2], k // 3)
        a0[1, : k // 6] = 0.0
        wp = rng.normal(size=p.shape[1])
        back = jnp.asarray(H @ wp)
        d = 2e-3 / (1 + deg)
        for side, fn in (("left", api.left_project), ("right", api.right_project)):
            gr = jax.jit(jax.vmap(jax.grad(lambda a, c, fn=fn: fn(deg, *a, c) @ back)))
            G = np.asarray(mon.call("project-gradient", gr, a0.T, c[:k]))

            def value(i, a, side=side):
                Q = matrices(np.array([[0, 0, 1.0]]), np.array([a[3]]))[0] @ st.body_to_sky(*a[:3])
                return c[i] @ st.harmonics(deg, *((Q.T if side == "left" else Q) @ p)) @ wp

            num = np.array([[diff(lambda s: value(i, a0[:, i] + s * u), d) for u in np.eye(4)] for i in range(k)])
            sz = np.linalg.norm(c[:k], axis=1) * (1 + deg) ** 3 * np.abs(wp).sum() * 1e-9
            sin = np.abs(np.sin(a0[0]))
            near = (sin < 1e-6) | (np.abs(np.cos(a0[0] / 2) * np.cos(a0[1] / 2)) > 1 - 1e-6)
            mon.close("project-gradient", G, num, atol=np.where(near, 1e3, 0.2)[:, None] * sz[:, None], side=side,
                      degree=deg, angles=a0.T)
        # combinations with arguments left out
        for mask in range(16):
            i = int(rng.integers(n))
            a = [None if mask >> k & 1 else float(q[i]) for k, q in enumerate((inc, obl, th, tz))]
            lp = np.asarray(mon.call("project-none", api.left_project, deg, *a, c[i]))
            want1, _ = expected(i, *a)
            mon.close("project-none", lp @ H, want1,
                      atol=np.linalg.norm(c[i]) * (1 + deg) ** 2 * 5e-7, given=a)
            rp = np.asarray(mon.call("project-none", api.right_project, deg, *a, lp))
            mon.close("project-none", rp, c[i], atol=np.linalg.norm(c[i]) * (1 + deg) ** 2 * 1e-6,
                      given=a)
            mon.case("none", deg, mask)
        # axis and angle of the combined rotations
        fa = jax.jit(jax.vmap(lambda *a: jnp.stack(api.full_rotation_axis_angle(*a))))
        A = np.asarray(mon.call("axis-angle-full", fa, inc, obl, th, tz))
        got = matrices(A[:, :3], A[:, 3])
        mon.close("axis-angle-full", got, Q, atol=1e-7, **w)
        mon.close("axis-angle-unit", np.linalg.norm(A[:, :3], axis=1), np.ones(n), atol=1e-6,
                  **{k: v for k, v in w.items() if k != "c"})
        fs = jax.jit(jax.vmap(lambda *a: jnp.stack(api.sky_projection_axis_angle(*a))))
        A = np.asarray(mon.call("axis-angle-sky", fs, inc, obl))
        got = matrices(A[:, :3], A[:, 3])
        want = np.stack([SR.from_euler("xz", [-inc[i], obl[i]]).inv().as_matrix()
                         for i in range(n)])
        mon.close("axis-angle-sky", got, want, atol=1e-6, **w)
        mon.fact("projections", n)
