"""setup_cmd: nothing has to be built; fail early when the interpreter lacks a dependency."""

import importlib

for name in ("jax", "equinox", "jpu", "pint", "numpy", "scipy", "mpmath"):
    importlib.import_module(name)
print("ok")
