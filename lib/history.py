"""Runs a list of catalogue calls in this fresh process: history.py SEED PLAN.json OUT.npz"""

import json
import os
import sys
import types

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    sys.path.insert(1, ROOT)
    sys.dont_write_bytecode = True
    if not os.path.exists(os.path.join(repo, "src/jaxoplanet/jaxoplanet_version.py")):
        m = types.ModuleType("jaxoplanet.jaxoplanet_version")
        m.__version__ = m.version = "0.0.0"
        m.__version_tuple__ = m.version_tuple = (0, 0, 0)
        sys.modules["jaxoplanet.jaxoplanet_version"] = m
    import warnings

    warnings.filterwarnings("ignore")


def params(seed, name, n=3):
    import numpy as np

    from lib import catalog

    rng = np.random.default_rng([seed, *name.encode()])
    return catalog.CATALOG[name]["draw"](rng, n)


def execute(seed, name, i, mode):
    """One call of the history; the row's arrays are fresh copies every time."""
    import jax

    from lib import catalog

    c = catalog.CATALOG[name]
    p = catalog.row(params(seed, name), i)
    fn = c["fn"]
    if mode == "eager":
        out = fn(p)
    elif mode == "f32":
        p = jax.tree_util.tree_map(lambda v: v.astype("float32"), p)
        with jax.experimental.disable_x64():
            out = jax.jit(fn)(p)
            return catalog.flat(out)
    elif mode == "grad":
        import jax.numpy as jnp

        out = jax.jit(jax.grad(lambda q: sum(jnp.sum(v) for v in catalog.tree(fn(q)))))(p)
    else:
        out = jax.jit(fn)(p)
    return catalog.flat(out)


def main():
    seed, plan, out = int(sys.argv[1]), sys.argv[2], sys.argv[3]
    setup()
    import jax
    import jax.experimental
    import numpy as np

    jax.config.update("jax_enable_x64", True)
    res = {}
    for k, (name, i, mode) in enumerate(json.load(open(plan))):
        try:
            for j, v in enumerate(execute(seed, name, i, mode)):
                res[f"{k}/{j}"] = v
        except Exception as e:
            res[f"{k}/error"] = np.array(f"{type(e).__name__}: {str(e)[:300]}")
    np.savez(out, **res)


if __name__ == "__main__":
    main()
