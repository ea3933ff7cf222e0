"""Runs one job of one check in its own process: worker.py ID JOB SHARD NSHARDS TIER SEED OUT"""

import importlib
import os
import sys
import traceback
import types

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def main():
    prop, job, shard, nshards, tier, seed, out = sys.argv[1:8]
    shard, nshards, seed = int(shard), int(nshards), int(seed)
    repo = os.environ.get("VERIF_REPO", "/repo")
    sys.path.insert(0, os.path.join(repo, "src"))
    sys.path.insert(1, ROOT)
    sys.dont_write_bytecode = True
    # the version module is generated by the build and ignored by git
    if not os.path.exists(os.path.join(repo, "src/jaxoplanet/jaxoplanet_version.py")):
        m = types.ModuleType("jaxoplanet.jaxoplanet_version")
        m.__version__ = m.version = "0.0.0"
        m.__version_tuple__ = m.version_tuple = (0, 0, 0)
        sys.modules["jaxoplanet.jaxoplanet_version"] = m

    import warnings

    warnings.filterwarnings("ignore")
    import jax
    import numpy as np

    from lib.mon import Abort, Mon

    mod = importlib.import_module(f"checks.{prop.lower()}")
    spec = mod.JOBS[job]
    jax.config.update("jax_enable_x64", bool(spec.x64))
    mon = Mon(prop, tier, seed, f"{job}[{shard}/{nshards}]")
    try:
        try:
            import jaxoplanet

            where = os.path.realpath(jaxoplanet.__file__)
            assert where.startswith(os.path.realpath(repo) + "/"), where
            rng = np.random.default_rng(
                [seed, shard, *prop.encode(), *job.encode()]
            )
            spec.fn(mon, rng, Ctx(tier, shard, nshards, spec))
        except Abort:
            pass
        except Exception as e:
            # An exception that escaped from the code under test on an input of the
            # property's domain is a violation; one of the harness is an error.
            frames = traceback.extract_tb(e.__traceback__)
            src = os.path.realpath(os.path.join(repo, "src"))
            inside = [
                i for i, f in enumerate(frames)
                if os.path.realpath(f.filename).startswith(src)
            ]
            harness = [
                i for i, f in enumerate(frames)
                if os.path.realpath(f.filename).startswith(ROOT)
            ]
            if inside and (not harness or max(inside) > max(harness)):
                mon._rule("no-exception")["events"] += 1
                mon.violate(
                    "no-exception",
                    f"{type(e).__name__}: {str(e)[:500]}",
                    traceback="".join(traceback.format_exception(e))[-2500:],
                )
            elif isinstance(
                e, IndexError | ValueError | TypeError | KeyError | AssertionError
            ):
                # The harness is deterministic and quiet on the behaviour it specifies,
                # so what it observed has the wrong kind, shape or structure.
                mon._rule("interpretable-output")["events"] += 1
                mon.violate(
                    "interpretable-output",
                    f"{type(e).__name__}: {str(e)[:500]}",
                    traceback="".join(traceback.format_exception(e))[-2500:],
                )
            else:
                raise
    except BaseException:
        traceback.print_exc()
        mon.write(out)
        sys.stdout.flush()
        os._exit(3)
    mon.write(out)
    sys.stdout.flush()
    os._exit(0)


class Ctx:
    def __init__(self, tier, shard, nshards, spec):
        self.tier, self.shard, self.nshards, self.spec = tier, shard, nshards, spec
        self.thorough = tier == "thorough"

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def mine(self, seq):
        """The part of a list of cases this shard handles."""
        return [x for i, x in enumerate(seq) if i % self.nshards == self.shard]


if __name__ == "__main__":
    main()
