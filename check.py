"""check.py ID [--tier T] [--jobs a,b] | check.py --replay FILE

Decides one property by running its workloads (checks/<id>.py), each in its own
process, under the monitors of lib/mon.py.

exit 0  held on everything observed (known findings are listed)
exit 1  VIOLATION line(s): a monitor saw the property broken
exit 2  inconclusive: a worker died or timed out, or a monitor saw nothing
"""

import importlib
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
PY = os.environ.get("VERIF_PYTHON") or (
    "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
)
DEADLINE = {"quick": 820.0, "thorough": float(os.environ.get("VERIF_DEADLINE", 14400))}


def known_findings(prop):
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        return [e for e in json.load(f)["findings"] if e["property"] == prop]


def run_jobs(prop, todo, tier, seed, work, deadline):
    env = dict(os.environ)
    env.update(
        JAX_PLATFORMS="cpu", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
        TF_CPP_MIN_LOG_LEVEL="3",
    )
    env.pop("JAX_ENABLE_X64", None)
    env.pop("PYTHONPATH", None)
    ncpu = int(os.environ.get("VERIF_PROCS", os.cpu_count() or 4))
    queue, running, results, errors = list(todo), [], [], []
    t0 = time.time()
    while queue or running:
        while queue and len(running) < ncpu:
            job, shard, nsh = queue.pop(0)
            out = os.path.join(work, f"{job}-{shard}.json")
            log = open(os.path.join(work, f"{job}-{shard}.log"), "w")
            p = subprocess.Popen(
                [PY, os.path.join(ROOT, "lib/worker.py"), prop, job, str(shard),
                 str(nsh), tier, str(seed), out],
                stdout=log, stderr=subprocess.STDOUT, env=env, cwd=ROOT,
            )
            running.append((p, job, shard, out, log, time.time()))
        time.sleep(0.05)
        late = time.time() - t0 > deadline
        for item in list(running):
            p, job, shard, out, log, ts = item
            if late and p.poll() is None:
                p.kill()
                p.wait()
            if p.poll() is None:
                continue
            running.remove(item)
            log.close()
            res = None
            if os.path.exists(out):
                try:
                    with open(out) as f:
                        res = json.load(f)
                except ValueError:
                    pass
            if res is not None:
                res["wall"] = time.time() - ts
                results.append(res)
            if p.returncode != 0 or res is None:
                with open(log.name) as f:
                    tail = f.read()[-2500:]
                errors.append(
                    f"{job}[{shard}] {'timed out' if late else f'exit {p.returncode}'}\n{tail}"
                )
        if late and queue:
            errors += [f"{q[0]}[{q[1]}] never started" for q in queue]
            queue = []
    return results, errors


def main(argv):
    only = None
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if argv and argv[0] == "--replay":
        with open(argv[1]) as f:
            rep = json.load(f)
        prop, tier, seed, only = rep["property"], rep["tier"], rep["seed"], [rep["job"]]
    else:
        prop, argv = argv[0], argv[1:]
        while argv:
            a = argv.pop(0)
            if a == "--tier":
                tier = argv.pop(0)
            elif a == "--jobs":
                only = argv.pop(0).split(",")
            else:
                raise SystemExit(f"unknown argument {a}")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    os.environ["VERIF_TIER"] = tier
    t0 = time.time()
    mod = importlib.import_module(f"checks.{prop.lower()}")
    work = os.path.join(ROOT, "work", f"{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    todo = []
    for name, spec in mod.JOBS.items():
        if tier not in spec.tiers:
            continue
        n = spec.shards[tier]
        for s in range(n):
            if only and not any(o in (name, f"{name}[{s}/{n}]") for o in only):
                continue
            todo.append((name, s, n))
    results, errors = run_jobs(prop, todo, tier, seed, work, DEADLINE[tier])

    rules, facts, keys, samples, viols = {}, {}, set(), [], []
    cases = trivial = 0
    for r in sorted(results, key=lambda r: r["job"]):
        for k, v in r["rules"].items():
            a = rules.setdefault(k, {"events": 0, "violations": 0, "worst": 0.0})
            a["events"] += v["events"]
            a["violations"] += v["violations"]
            a["worst"] = max(a["worst"], v["worst"])
        for k, v in r["facts"].items():
            facts[k] = facts.get(k, 0) + v
        keys |= {r["job"].split("[")[0] + k for k in r["case_keys"]}
        samples += r["samples"][:1] if len(samples) > 6 else r["samples"][:2]
        cases += r["cases"]
        trivial += r["trivial"]
        viols += [dict(v, job=r["job"]) for v in r["violations"]]

    known = known_findings(prop)
    fresh, seen = [], {}
    for v in viols:
        hit = next((k for k in known if v["mech"] and v["mech"] == k["mechanism"]), None)
        if hit is None:
            fresh.append(v)
        else:
            seen.setdefault(hit["mechanism"], v)
    for k in known:
        if k["mechanism"] in seen:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")

    lines = []
    for i, v in enumerate(fresh):
        path = os.path.join(ROOT, "replays", f"{prop}-{tier}-{seed}-{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, **v}, f, indent=1)
        if i < 10:
            print(f"  {v['job']} rule {v['rule']}: {v['msg'][:700]}")
            print(f"    witness {json.dumps(v['witness'])[:900]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    for line in lines[:10]:
        print(line)

    unreached = []
    if not only:
        need = list(getattr(mod, "REQUIRED", []))
        unreached = [k for k in need if rules.get(k, {}).get("events", 0) == 0]
        unreached += [k for k, v in rules.items()
                      if v["events"] == 0 and k not in need and k != "no-exception"]
    events = sum(v["events"] for v in rules.values())
    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE,
            "samples": samples[:8] or [{"note": "no sample"}],
            "oracle_events": events,
            "monitors": {
                k: {"events": v["events"], "violations": v["violations"],
                    "worst_error_over_tolerance": round(v["worst"], 6)}
                for k, v in sorted(rules.items())
            },
            "observed": dict(sorted(facts.items())),
            "workers": len(todo),
            "exhaustive": False,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    if os.environ.get("VERIF_VERBOSE"):
        for k, v in sorted(rules.items()):
            print(f"   {k}: events={v['events']} worst={v['worst']:.3g}")
        for r in sorted(results, key=lambda r: -r["wall"])[:12]:
            print(f"   job {r['job']} {r['wall']:.1f}s cases={r['cases']}")
        print("   facts", facts)
    status = 1 if fresh else 2 if (errors or unreached or events == 0) else 0
    print(
        f"{prop} {tier} seed={seed}: {cases} cases ({len(keys)} distinct), {events} oracle "
        f"events, {len(rules)} monitors, {len(fresh)} violations, {wall:.1f}s -> "
        + {0: "held on what was observed", 1: "VIOLATED", 2: "INCONCLUSIVE"}[status]
    )
    for e in errors:
        print("ERROR", e)
    if unreached:
        print("ERROR monitors that observed nothing:", unreached)
    for name in os.listdir(work):
        os.unlink(os.path.join(work, name))
    os.rmdir(work)
    return status


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
