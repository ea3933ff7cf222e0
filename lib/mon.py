"""Monitors: the recorder that every workload reports its observations to.

A *rule* is one oracle clause of a property.  Every observation of the code
under test that an oracle judged is one event of that rule.  A rule that never
saw an event makes the run inconclusive (see check.py), so a workload that did
not reach its monitor can never be reported as "held".
"""

import hashlib
import json
import math
import os
import traceback

import numpy as np

MAX_WITNESSES = 3


class Abort(Exception):
    """The workload cannot continue after a violation (already recorded)."""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if x is None or isinstance(x, bool | int | str):
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else repr(x)
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, list | tuple):
        return [jsonable(v, depth + 1) for v in x[:80]]
    if hasattr(x, "magnitude") and hasattr(x, "units"):
        return {"magnitude": jsonable(x.magnitude, depth + 1), "units": str(x.units)}
    try:
        a = np.asarray(x)
        if a.dtype == object:
            return repr(x)[:200]
        if a.size > 80:
            return {
                "shape": list(a.shape),
                "head": jsonable(a.ravel()[:20].tolist(), depth + 1),
            }
        if np.iscomplexobj(a):
            return repr(a)
        return jsonable(a.tolist(), depth + 1)
    except Exception:
        return repr(x)[:200]


class Mon:
    def __init__(self, prop, tier, seed, job):
        self.prop, self.tier, self.seed, self.job = prop, tier, seed, job
        self.rules = {}
        self.violations = []
        self.samples = []
        self.cases = 0
        self.case_keys = set()
        self.trivial = 0
        self.facts = {}
        self.repo = os.environ.get("VERIF_REPO", "/repo")

    # ---- bookkeeping -----------------------------------------------------
    def _rule(self, rule):
        return self.rules.setdefault(
            rule, {"events": 0, "violations": 0, "worst": 0.0}
        )

    def fact(self, name, value=1):
        """Accumulate a measured count describing what was exercised."""
        self.facts[name] = self.facts.get(name, 0) + int(value)

    def case(self, *key, nontrivial=True, n=1):
        """One generated input; `key` identifies it for distinctness."""
        self.cases += n
        if not nontrivial:
            self.trivial += n
            return
        h = hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest()
        self.case_keys.add(h)

    def cases_from(self, *cols, nontrivial=None):
        """Vectorised `case`: one row across the arrays of `cols` per input."""
        cols = [np.asarray(c) for c in cols]
        n = max(c.shape[0] if c.ndim else 1 for c in cols)
        cols = [
            np.broadcast_to(c, (n,)) if c.ndim == 0 else c.reshape(n, -1) for c in cols
        ]
        cols = [c.reshape(n, -1) for c in cols]
        rows = np.concatenate([c.astype(float) for c in cols], axis=1)
        ok = np.ones(n, bool) if nontrivial is None else np.broadcast_to(nontrivial, n)
        self.cases += n
        self.trivial += int((~ok).sum())
        for r in np.ascontiguousarray(rows)[ok]:
            self.case_keys.add(
                hashlib.blake2b(r.tobytes(), digest_size=8).hexdigest()
            )

    def sample(self, **kw):
        if len(self.samples) < 4:
            self.samples.append(jsonable(kw))

    def violate(self, rule, msg, mech=None, **witness):
        r = self._rule(rule)
        r["violations"] += 1
        mine = [v for v in self.violations if v["rule"] == rule and v["mech"] == mech]
        if len(mine) < MAX_WITNESSES:
            self.violations.append(
                {
                    "rule": rule,
                    "mech": mech or rule,
                    "msg": str(msg)[:1500],
                    "witness": jsonable(witness),
                }
            )
            self.violations[-1]["mech"] = mech

    # ---- oracles' verdicts -------------------------------------------------
    def check(self, rule, ok, msg="", mech=None, **witness):
        self._rule(rule)["events"] += 1
        if not bool(ok):
            self.violate(rule, msg or "condition is false", mech, **witness)
            return False
        return True

    def all(self, rule, ok, msg="", mech=None, **witness):
        """Vectorised check; `witness` arrays with the same leading size are indexed."""
        ok = np.atleast_1d(np.asarray(ok))
        self._rule(rule)["events"] += int(ok.size)
        if not ok.all():
            bad = np.argwhere(~ok)
            self.violate(
                rule,
                f"{msg or 'condition is false'} ({len(bad)} of {ok.size} observations)",
                mech,
                **_pick(witness, bad[0], ok.shape),
            )
            return False
        return True

    def close(self, rule, got, want, atol=0.0, rtol=0.0, mech=None, **witness):
        """|got - want| <= atol + rtol |want| everywhere; nan/inf in got violates."""
        try:
            g = np.asarray(got)
            w = np.asarray(want)
            if g.dtype == object or w.dtype == object:
                raise TypeError("object array")
        except Exception as e:  # not numeric: the observed value is of the wrong kind
            self._rule(rule)["events"] += 1
            self.violate(rule, f"non numeric observation: {e}", mech, got=repr(got)[:200])
            return False
        r = self._rule(rule)
        if g.shape != w.shape:
            r["events"] += 1
            self.violate(
                rule, f"shape {g.shape}, expected {w.shape}", mech, got=g, want=w,
                **{k: v for k, v in witness.items() if np.ndim(v) == 0},
            )
            return False
        if g.size == 0:
            return True
        r["events"] += int(g.size)
        tol = np.broadcast_to(np.asarray(atol) + np.asarray(rtol) * np.abs(w), w.shape)
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
            same = g == w
            ok = same | (err <= tol)
            ratio = np.where(same, 0.0, err / np.where(tol > 0, tol, 1e-300))
        good = ratio[np.isfinite(ratio)]
        if good.size:
            r["worst"] = max(r["worst"], float(good.max()))
        if not ok.all():
            bad = np.argwhere(np.atleast_1d(~ok))
            rr = np.where(np.isfinite(ratio), ratio, np.inf)
            rr = np.where(ok, -1, rr)
            i = np.unravel_index(int(np.argmax(rr)), rr.shape) if rr.ndim else ()
            self.violate(
                rule,
                f"got {g[i]!r}, expected {w[i]!r} (tolerance {tol[i]:.3g}; "
                f"{len(bad)} of {g.size} observations)",
                mech,
                got=g[i],
                want=w[i],
                index=list(map(int, i)),
                **_pick(witness, i, g.shape),
            )
            return False
        return True

    def finite(self, rule, got, mech=None, **witness):
        g = np.asarray(got)
        return self.all(rule, np.isfinite(g), "nan or infinity", mech, **witness)

    def call(self, rule, fn, *args, mech=None, what="", witness=None, **kw):
        """Run code under test on an in-domain input: an exception is a violation."""
        self._rule(rule)
        try:
            out = fn(*args, **kw)
        except Exception as e:
            self._rule(rule)["events"] += 1
            self.violate(
                rule,
                f"{what or getattr(fn, '__name__', 'call')} raised "
                f"{type(e).__name__}: {str(e)[:400]}",
                mech,
                traceback=traceback.format_exc()[-1500:],
                **(witness or {}),
            )
            raise Abort from e
        return out

    def rejects(self, rule, fn, exc=(ValueError,), mech=None, what="", **witness):
        """The call must be rejected with one of `exc`."""
        self._rule(rule)["events"] += 1
        try:
            out = fn()
        except exc:
            return True
        except Exception as e:
            self.violate(
                rule, f"{what}: rejected with {type(e).__name__}: {str(e)[:300]}, "
                f"expected {[x.__name__ for x in exc]}", mech, **witness)
            return False
        self.violate(rule, f"{what}: accepted, returned {repr(out)[:200]}", mech, **witness)
        return False

    def part(self, fn, *args, **kw):
        """Run one independent piece of a workload; a recorded Abort ends only it."""
        try:
            return fn(*args, **kw)
        except Abort:
            return None

    def dump(self):
        return {
            "job": self.job,
            "rules": self.rules,
            "violations": self.violations,
            "samples": self.samples,
            "cases": self.cases,
            "trivial": self.trivial,
            "case_keys": sorted(self.case_keys),
            "facts": self.facts,
        }

    def write(self, path):
        with open(path, "w") as f:
            json.dump(self.dump(), f)


def _pick(witness, i, shape):
    out = {}
    for k, v in witness.items():
        try:
            a = np.asarray(v)
            if a.dtype != object and a.ndim and len(i) and a.shape[0] == shape[0] and a.size > 1:
                j = i[: a.ndim] if a.shape == tuple(shape[: a.ndim]) else (i[0],)
                out[k] = a[tuple(j)]
                continue
        except Exception:
            pass
        out[k] = v
    return out
