"""C23: results do not depend on transformations, batching, threads or call history."""

import json
import os
import subprocess
import sys
import tempfile
import threading
import time

import numpy as np

from lib import api, catalog, history
from lib.spec import Jobs

JOBS = Jobs()
RULE = (
    "One case is one call of a public observable (33 configurations) with random parameters, under "
    "a transformation, at its place in a history of calls, or at its place in a thread schedule. "
    "Non-trivial: all. Oracle: the same row jitted alone; the log of the same calls made in another "
    "order by a fresh process. jax's tracer leak checker runs over every traced observable."
)
ASSUMPTIONS = ["parameters are kept 0.02 from contacts, so that rounding is not amplified"]
REQUIRED = [
    "eager", "jit", "repeat", "constants", "vmap", "vmap-jit", "batch-order", "batch-part", "nested-vmap", "map", "vmap-axis",
    "leak", "inputs-kept", "forward-reverse", "directional", "grad-vmap", "threads",
    "threads-overlap", "storm", "storm-overlap", "history-order", "history-f32", "history-grad", "objects-kept",
]
NAMES = sorted(catalog.CATALOG)


def same(mon, rule, got, want, tol, **w):
    """Both flattened; tolerance relative to the size of each output."""
    mon.check(rule, len(got) == len(want), f"{len(got)} outputs, expected {len(want)}", **w)
    for k, (g, v) in enumerate(zip(got, want, strict=False)):
        g, v = np.asarray(g), np.asarray(v)
        if v.dtype == bool:
            v = v.astype(float)
        if g.dtype == bool:
            g = g.astype(float)
        size = np.abs(v).max() if v.size and np.isfinite(v).all() else 1.0
        if np.isnan(v).any():
            mon.check(rule, g.shape == v.shape and np.array_equal(np.isnan(g), np.isnan(v)),
                      "nan in one of them only", **w)
            g, v = np.nan_to_num(g), np.nan_to_num(v)
            size = np.abs(v).max()
        mon.close(rule, g, v, atol=tol * (1e-3 + size), output=k, **w)


def copytree(p):
    import jax

    return jax.tree_util.tree_map(np.array, p)


@JOBS(shards=(16, 16))
def transforms(mon, rng, ctx):
    for name in ctx.mine(NAMES):
        for _ in range(ctx.n(1, 3)):
            mon.part(one, mon, rng, ctx, name)


def one(mon, rng, ctx, name):
    import jax

    c = catalog.CATALOG[name]
    fn, tol = c["fn"], c["tol"]
    n = 6
    p = c["draw"](rng, n)
    rows = [catalog.row(p, i) for i in range(n)]
    kept = copytree(p)
    tm = jax.tree_util.tree_map
    w = dict(observable=name)
    with jax.checking_leaks():
        f = jax.jit(fn)
        first = catalog.flat(mon.call("leak", f, rows[0], what=name))
    mon.check("leak", True)
    ref = [first] + [catalog.flat(f(r)) for r in rows[1:]]
    want = [np.stack(v) for v in zip(*ref, strict=True)]
    for i in (0, 3):
        same(mon, "repeat", catalog.flat(f(rows[i])), ref[i], 0.0, **w)
    if c["eager"] or ctx.thorough:
        again = jax.jit(lambda q: fn(q))
        same(mon, "jit", catalog.flat(mon.call("jit", again, rows[1])), ref[1], 0.0, **w)
    if c["eager"] or ctx.thorough:
        for i in range(2):
            same(mon, "eager", catalog.flat(mon.call("eager", fn, rows[i], what=name)), ref[i], tol, **w)
    g = jax.jit(jax.vmap(fn))
    full = catalog.flat(mon.call("vmap", g, p, what=name))
    same(mon, "vmap", full, want, tol, **w)
    # nothing traced: the compiler may evaluate all of it
    same(mon, "constants", catalog.flat(mon.call("constants", jax.jit(lambda: jax.vmap(fn)(p)), what=name)),
         want, tol, **w)
    # other compositions of the batch, reusing the traced function where shapes allow
    order = rng.permutation(n)
    q = tm(lambda v: v[order], p)
    same(mon, "batch-order", catalog.flat(g(q)), [v[order] for v in full], tol * 0.1, **w)
    part = rng.integers(0, n, n)
    same(mon, "batch-part", catalog.flat(g(tm(lambda v: v[part], p))), [v[part] for v in full], tol * 0.1, **w)
    h = jax.vmap(f)
    if c["eager"] or ctx.thorough:
        same(mon, "vmap-jit", catalog.flat(mon.call("vmap-jit", h, p, what=name)), want, tol, **w)
    kinds = ["nested", "map", "last"]
    if not ctx.thorough:
        kinds = [kinds[int(rng.integers(3))]] if c["eager"] else []
    if "nested" in kinds:
        k = jax.jit(jax.vmap(jax.vmap(fn)))
        pp = tm(lambda v: v.reshape(2, 3, *v.shape[1:]), p)
        same(mon, "nested-vmap", catalog.flat(mon.call("nested-vmap", k, pp, what=name)),
             [v.reshape(2, 3, *v.shape[1:]) for v in want], tol, **w)
    if "map" in kinds:
        m = jax.jit(lambda p: jax.lax.map(fn, p))
        same(mon, "map", catalog.flat(mon.call("map", m, p, what=name)), want, tol, **w)
    if "last" in kinds:
        last = tm(lambda v: np.moveaxis(v, 0, -1), p)
        v = jax.jit(jax.vmap(fn, in_axes=-1, out_axes=0))
        same(mon, "vmap-axis", catalog.flat(mon.call("vmap-axis", v, last, what=name)), want, tol, **w)
    if c["deriv"]:
        derivatives(mon, rng, ctx, name, p, rows)
    same(mon, "inputs-kept", jax.tree_util.tree_leaves(p), jax.tree_util.tree_leaves(kept), 0.0, **w)
    for r, k in zip(rows, range(n), strict=True):
        same(mon, "inputs-kept", jax.tree_util.tree_leaves(r),
             jax.tree_util.tree_leaves(catalog.row(kept, k)), 0.0, **w)
    for i in range(n):
        mon.case(name, *[np.asarray(v).ravel()[0] for v in jax.tree_util.tree_leaves(rows[i]) if v.size])
    mon.fact("observables")


def derivatives(mon, rng, ctx, name, p, rows):
    """Forward and reverse derivatives of a random projection of the outputs."""
    import jax
    import jax.numpy as jnp

    c = catalog.CATALOG[name]
    fn = c["fn"]
    shapes = [s.shape for s in jax.eval_shape(
        lambda q: [jnp.asarray(v) for v in catalog.tree(fn(q))], rows[0])]
    cot = [rng.normal(size=s) for s in shapes]

    def loss(q):
        return sum(jnp.vdot(k, v) for k, v in zip(cot, catalog.tree(fn(q)), strict=True))

    tan = jax.tree_util.tree_map(lambda v: rng.normal(size=v.shape), p)

    def both(q, t):
        g = jax.grad(loss)(q)
        rev = sum(jnp.vdot(a, b) for a, b in zip(
            jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(t), strict=True))
        size = sum(jnp.sum(jnp.abs(a * b)) for a, b in zip(
            jax.tree_util.tree_leaves(g), jax.tree_util.tree_leaves(t), strict=True))
        val, fwd = jax.jvp(loss, (q,), (t,))
        return val, fwd, rev, size, g

    d = jax.jit(jax.vmap(both))
    val, fwd, rev, size, g = map(
        lambda v: jax.tree_util.tree_map(np.asarray, v), mon.call("forward-reverse", d, p, tan, what=name))
    tol = 1e-8 * (1e-3 + size)
    ok = np.isfinite(rev) & np.isfinite(fwd)
    mon.all("forward-reverse", ok, "derivative is not finite", observable=name, row=np.arange(len(ok)))
    mon.close("forward-reverse", np.where(ok, fwd, 0), np.where(ok, rev, 0), atol=tol, observable=name)
    # central difference along the same direction
    if not c["eager"] and not ctx.thorough:
        return
    f = jax.jit(jax.vmap(loss))
    h = 1e-5
    add = lambda s: jax.tree_util.tree_map(lambda v, t: v + s * t, p, tan)
    a, b = np.asarray(f(add(h))), np.asarray(f(add(-h)))
    a2, b2 = np.asarray(f(add(2 * h))), np.asarray(f(add(-2 * h)))
    D1, D2 = (a - b) / (2 * h), (a2 - b2) / (4 * h)
    num = (4 * D1 - D2) / 3
    # what remains of the two step sizes tells how good the difference is
    # (some observables have noise of 1e-8 of their own from quadrature or near rotations)
    noise = 10 * np.abs(D1 - D2) + 1e-6 * (1e-3 + size) + 0.1 * c["tol"] / h * (np.abs(val) + 1)
    mon.close("directional", np.where(ok, fwd, 0), np.where(ok, num, 0), atol=noise, observable=name)
    if ctx.thorough:
        one = jax.jit(jax.grad(loss))
        gr = [jax.tree_util.tree_leaves(one(r)) for r in rows]
        for k, leaf in enumerate(jax.tree_util.tree_leaves(g)):
            for i in range(len(rows)):
                mon.close("grad-vmap", leaf[i], np.asarray(gr[i][k]),
                          atol=1e-8 * (1e-3 + np.abs(leaf[i]).max(initial=0)), observable=name)
    else:
        r = jax.tree_util.tree_leaves(jax.jit(jax.grad(loss))(rows[0])) if c["eager"] else None
        for k, leaf in enumerate(jax.tree_util.tree_leaves(g)):
            if r is not None:
                mon.close("grad-vmap", leaf[0], np.asarray(r[k]),
                          atol=1e-8 * (1e-3 + np.abs(leaf[0]).max(initial=0)), observable=name)


CHEAP = [n for n in NAMES if catalog.CATALOG[n]["eager"]]
LIGHT = ["clebsch", "ylm", "polynomials", "bases0", "bases2", "bases5", "rotation1", "rotation3",
         "project1", "solution1", "solution2", "kepler", "ld0", "ld2", "surface10", "spot"]


@JOBS(shards=(4, 8))
def threads(mon, rng, ctx):
    """A cold process whose first calls come from many threads at once."""
    seed = int(rng.integers(2**31))
    T, N = 8, ctx.n(10, 40)
    names = [n for n in LIGHT if n in catalog.CATALOG]
    # all threads start with the same observables, so that first uses collide
    head = list(rng.permutation(names)[:3])
    plans = []
    for n in names:  # importing modules is not what races here
        history.params(seed, n)
    for n in api._N:
        getattr(api, n)
    for k in range(T):
        plan = [(str(n), int(rng.integers(3)), "eager" if catalog.CATALOG[str(n)]["eager"] else "jit")
                for n in rng.permutation(head)]
        for _ in range(N):
            n = str(names[int(rng.integers(len(names)))])
            if rng.random() < 0.5:
                n = str(rng.choice(["clebsch", "ylm", "polynomials", "bases5", "kepler"]))
            m = "eager" if catalog.CATALOG[n]["eager"] and rng.random() < 0.7 else "jit"
            plan.append((n, int(rng.integers(3)), m))
        plans.append(plan)
    log, errors = [[] for _ in range(T)], []
    gate = threading.Barrier(T)
    old = sys.getswitchinterval()

    def work(k):
        gate.wait()
        for name, i, mode in plans[k]:
            t0 = time.perf_counter()
            try:
                out = history.execute(seed, name, i, mode)
            except Exception as e:
                errors.append((name, mode, f"{type(e).__name__}: {e}"[:300]))
                out = None
            log[k].append((name, i, mode, t0, time.perf_counter(), out))

    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=work, args=(k,)) for k in range(T)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    mon.check("threads", not errors, f"exception in a thread: {errors[:3]}")
    events = [e for lg in log for e in lg if e[5] is not None]
    pairs = set()
    for a in range(T):
        for e in log[a]:
            for b in range(a + 1, T):
                for f in log[b]:
                    if e[3] < f[4] and f[3] < e[4]:
                        pairs.add(tuple(sorted((e[0], f[0]))))
                        mon._rule("threads-overlap")["events"] += 1
    mon.fact("overlapping pairs of observables", len(pairs))
    keys = sorted({e[:3] for e in events})
    for key in keys:  # afterwards, alone
        try:
            want = history.execute(seed, *key)
        except Exception as e:
            mon.check("threads", False, f"{key} alone after the threads: {type(e).__name__}: {e}"[:300])
            continue
        tol = catalog.CATALOG[key[0]]["tol"] * 0.01
        for e in events:
            if e[:3] == key:
                same(mon, "threads", e[5], want, tol, call=str(key))
        mon.case("threads", *key)
    # and against a process that made these calls only, in this order
    fresh = replay(mon, seed, keys)
    for key, out in zip(keys, fresh, strict=True):
        if isinstance(out, str):
            mon.check("threads", False, f"{key} alone in a new process: {out}")
            continue
        for e in events:
            if e[:3] == key:
                same(mon, "threads", e[5], out, catalog.CATALOG[key[0]]["tol"] * 0.01, call=str(key))


def chores(rng):
    """Short pieces of mostly Python work with operands of their own: name, operands -> floats."""
    import jax.numpy as jnp

    def coefs(keys):
        return {k: float(rng.normal()) for k in keys}

    d1, d2 = int(rng.integers(4, 9)), int(rng.integers(4, 9))
    zonal = [api.Ylm(coefs([(l, 0) for l in range(9)])) for _ in "ab"]
    maps = [api.Ylm(coefs([(l, m) for l in range(3) for m in range(-l, l + 1)])) for _ in "ab"]
    pij = [api.Pijk(coefs([(i, j, k) for i in range(4) for j in range(4 - i) for k in range(2) if i + j + k < 4]))
           for _ in "ab"]
    jm = [tuple(int(v) for v in (a, rng.integers(-a, a + 1), b, rng.integers(-b, b + 1), c))
          for a, b, c in rng.integers(1, 9, (30, 3))]
    x, y, w = rng.normal(size=3)
    days = np.sort(rng.uniform(0, 40, 6))
    P, T0 = rng.uniform(1, 5), rng.uniform(0, 1)
    lmax = int(rng.integers(2, 5))

    def data(v):
        return [float(np.real(v.data[k])) for k in sorted(v.data)]

    def flat(m):
        return np.asarray(m.todense() if hasattr(m, "todense") else m).ravel().tolist()

    return {
        "zonal product": lambda: data(zonal[0] * zonal[1]),
        "map product": lambda: data(maps[0] * maps[1]),
        "normalize": lambda: data(maps[0].normalize()),
        "polynomial product": lambda: data(pij[0] * pij[1]),
        "polynomial sum": lambda: data(pij[0] + pij[1]),
        "clebsch": lambda: [float(api.clebsch_gordan(a, m, b, n, c, m + n)) for a, m, b, n, c in jm],
        "wigner": lambda: [float(v) for v in api.Wigner3jCalculator(d1, d2).calculate(d1, d2, 1, -2)],
        "units": lambda: [float(getattr((q * u).to(v), "magnitude")) for q, u, v in (
            (x, api.ureg.km, api.ureg.m), (y, api.ureg.day, api.ureg.hour), (w, api.ureg.R_sun, api.ureg.km))],
        "basis": lambda: flat(api.basis(lmax)),
        "change": lambda: flat(api.A1(lmax)) + flat(api.A2_inv(lmax)) + flat(api.U(lmax)),
        "expected times": lambda: [float(v) for v in np.ravel(np.asarray(
            api.compute_expected_transit_times(0.0, 10.0, jnp.array([P]), jnp.array([T0]))[0]))],
        "elements": lambda: [float(api.Central(mass=1 + x * x, radius=2.0).density.magnitude)],
    }


QUICK = ["zonal product", "map product", "polynomial product", "clebsch", "wigner"]


@JOBS(shards=(2, 8))
def storm(mon, rng, ctx):
    """Threads that repeat short calls, each with its own operands, at a very short switch interval."""
    T = 8
    mine = [chores(rng) for _ in range(T)]
    for n in api._N:
        getattr(api, n)
    want = [{k: mon.call("storm", f, what=k) for k, f in c.items()} for c in mine]
    plan = []
    for k in mine[0]:  # every thread does the same kind of work for a while
        plan += [k] * ctx.n(12 if k in QUICK else 3, 80 if k in QUICK else 10)
    rounds = [plan] + [[str(v) for v in rng.permutation(plan)] for _ in range(ctx.n(1, 2))]
    bad, busy, overlaps = [], {}, {}
    gate = threading.Barrier(T)
    done = [0] * T

    def work(i, names):
        gate.wait()
        for k in names:
            busy[i] = k
            try:
                got = mine[i][k]()
            except Exception as e:
                bad.append((k, f"{type(e).__name__}: {e}"[:300]))
                continue
            if sum(v == k for v in list(busy.values())) > 1:
                overlaps[k] = overlaps.get(k, 0) + 1
            done[i] += 1
            size = max(map(abs, want[i][k]), default=0)
            if len(got) != len(want[i][k]) or any(
                    not abs(a - b) <= 1e-12 * (1 + size) for a, b in zip(got, want[i][k], strict=True)):
                bad.append((k, "another result than alone"))
        busy[i] = None

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for names in rounds:
            busy.clear()
            ts = [threading.Thread(target=work, args=(i, names)) for i in range(T)]
            [t.start() for t in ts]
            [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    mon._rule("storm")["events"] += sum(done)
    mon._rule("storm-overlap")["events"] += sum(overlaps.values())
    mon.check("storm", not bad, f"{len(bad)} of {sum(done)} calls in threads: {bad[:3]}")
    mon.check("storm", [{k: f() for k, f in c.items()} for c in mine] == want, "another result afterwards")
    mon.fact("kinds of calls that overlapped with their own kind", len(overlaps))
    for i in range(T):
        for k in mine[i]:
            mon.case("storm", i, k, want[i][k][0])


def replay(mon, seed, plan):
    here = os.path.dirname(os.path.abspath(history.__file__))
    with tempfile.TemporaryDirectory() as d:
        a, b = os.path.join(d, "plan.json"), os.path.join(d, "out.npz")
        json.dump([list(k) for k in plan], open(a, "w"))
        r = subprocess.run([sys.executable, os.path.join(here, "history.py"), str(seed), a, b],
                           capture_output=True, text=True)
        if not os.path.exists(b):
            raise RuntimeError("history process failed: " + r.stderr[-800:])
        z = np.load(b)
        out = []
        for k in range(len(plan)):
            if f"{k}/error" in z:
                out.append(str(z[f"{k}/error"]))
            else:
                out.append([z[f"{k}/{j}"] for j in range(len(z)) if f"{k}/{j}" in z])
    return out


@JOBS(shards=(6, 8))
def histories(mon, rng, ctx):
    """Two fresh processes make the same calls in different orders; their logs must agree."""
    seed = int(rng.integers(2**31))
    mine = ctx.mine(list(np.random.default_rng(7).permutation(NAMES)))
    plan = []
    for n in mine:
        n = str(n)
        plan.append((n, 0, "jit"))
        if n != "clebsch" and (ctx.thorough or len(plan) % 3):
            plan.append((n, 1, "f32"))
        if catalog.CATALOG[n]["eager"]:
            plan += [(n, 0, "eager" if len(plan) % 2 else "grad")]
        if ctx.thorough:
            plan += [(n, 1, "jit"), (n, 1, "f32"), (n, 0, "eager"), (n, 0, "grad")]
    keys = sorted(set(plan))
    # one process makes the single precision calls first, the other last
    first = sorted(keys, key=lambda k: (k[2] != "f32", rng.random()))
    last = sorted(keys, key=lambda k: (k[2] == "f32", k[2] == "eager", rng.random()))
    logs = {}
    todo = [first, last] + ([[keys[int(i)] for i in rng.permutation(len(keys))] for _ in range(2)]
                            if ctx.thorough else [])
    for k, order in enumerate(todo):
        for key, out in zip(order, replay(mon, seed, order), strict=True):
            logs.setdefault(key, []).append((k, out))
        mon.fact("processes")
    for key, outs in logs.items():
        rule = {"f32": "history-f32", "grad": "history-grad"}.get(key[2], "history-order")
        (_, a), rest = outs[0], outs[1:]
        for k, b in [(0, a), *rest]:
            if not mon.check(rule, not isinstance(b, str), f"{key} in order {k}: {b}", call=str(key)):
                break
        else:
            for k, b in rest:
                same(mon, rule, b, a, 1e-13 if key[2] != "f32" else 1e-6, call=str(key), order=k)
            if key[2] == "f32":
                mon.all(rule, [v.dtype != np.float64 for v in a if v.dtype.kind == "f"]
                        if key[0] not in ("clebsch",) else [True],
                        "double precision output in single precision mode", call=str(key))
            mon.case("history", *key)


@JOBS()
def objects(mon, rng, ctx):
    """Observing an object changes nothing in it, and objects share no state."""
    import jax

    def snap(o):
        return [np.array(getattr(v, "magnitude", v)) for v in jax.tree_util.tree_leaves(
            o, is_leaf=lambda v: hasattr(v, "magnitude"))]

    for it in range(ctx.n(3, 10)):
        y = np.r_[1.0, rng.normal(size=3) * 0.2]
        ylm = api.Ylm.from_dense(y, normalize=False)
        other = api.Ylm.from_dense(np.r_[1.0, rng.normal(size=3) * 0.2], normalize=False)
        pol = api.Pijk.from_dense(rng.normal(size=4), degree=1)
        s1 = api.Surface(y=ylm, u=(0.2, 0.1), inc=1.0, obl=0.3, period=2.0)
        s2 = api.Surface(y=other, inc=1.2)
        sys_ = api.SurfaceSystem(api.Central(mass=1.1, radius=0.9), s1).add_body(
            period=3.0, radius=0.1, mass=0.01, time_transit=0.1, impact_param=0.2, surface=s2)
        tr = api.TransitOrbit(period=3.0, duration=0.1, time_transit=0.2, radius_ratio=0.1)
        objs = dict(ylm=ylm, other=other, poly=pol, s1=s1, s2=s2, system=sys_, transit=tr)
        before = {k: snap(v) for k, v in objs.items()}
        data = (dict(ylm.data), dict(other.data), dict(pol.data))
        t = np.array([0.1, 0.4])
        first = None
        for _ in range(2):
            out = [
                (ylm * other).todense(), (ylm * 3.0).todense(), ylm.normalize().todense(),
                (pol * pol).todense(), (pol + pol).todense(), s1.render(res=8), s2.render(0.3, res=8),
                jax.jit(lambda: api.system_light_curve(sys_)(t))(), s1.intensity(0.1, 0.2),
                api.limb_dark_light_curve(sys_, (0.1, 0.2))(t), api.limb_dark_light_curve(tr, (0.3,))(t),
                jax.jit(lambda: api.radial_velocity(sys_)(t))(),
                *sys_.position(t), *sys_.velocity(t), sys_.add_body(period=1.0).radial_velocity(t),
                s1.rotational_phase(0.4), s1.veq if s1.period else 0.0,
            ]
            out = catalog.flat(out)
            if first is not None:
                same(mon, "objects-kept", out, first, 0.0)
            first = out
        for k, v in objs.items():
            same(mon, "objects-kept", snap(v), before[k], 0.0, object=k)
        now = (dict(ylm.data), dict(other.data), dict(pol.data))
        mon.check("objects-kept", all(
            list(a) == list(b) and all(np.array_equal(a[k], b[k]) for k in a)
            for a, b in zip(now, data, strict=True)), "coefficients modified")
        mon.case("objects", *y)
