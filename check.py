#!/usr/bin/env python3
"""
check.py PROP [--tier quick|thorough]   decide a property on /repo's working tree
check.py replay FILE [-v]               reproduce a recorded violation
check.py determinism PROP [N]           run N seeds twice in different settings, diff logs
"""

import collections
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYTHON = "/opt/venv/bin/python"
GROUPS = 16

from sim.budget import BUDGET  # noqa: E402


def env_for(hashseed, cache):
    env = {
        "PATH": "/usr/local/bin:/usr/bin:/bin",
        "HOME": "/nonexistent",
        "LANG": "C.UTF-8",
        "PYTHONHASHSEED": str(hashseed),
        "PYTHONPATH": HERE,
        "PYTHONPYCACHEPREFIX": cache,
        "PYTHONDONTWRITEBYTECODE": "1",
    }
    for k in ("VERIF_REPO", "VERIF_RUN_TIMEOUT", "VERIF_SOFT_S"):
        if k in os.environ:
            env[k] = os.environ[k]
    return env


def hashseed_for(seed, prop, group):
    import hashlib

    h = hashlib.sha256(f"hash/{seed}/{prop}/{group}".encode()).digest()
    return int.from_bytes(h[:4], "big") % 4294967295 + 1


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    try:
        with open(path) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


def run_check(prop, tier):
    start = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    runs = BUDGET[prop][tier]
    per_group = (runs + GROUPS - 1) // GROUPS
    workers = int(os.environ.get("VERIF_WORKERS", str(os.cpu_count() or 4)))
    print(f"property={prop} tier={tier} seed={seed} runs={per_group * GROUPS} groups={GROUPS}")
    sys.stdout.flush()
    os.environ.setdefault("VERIF_SOFT_S", "330" if tier == "quick" else "5400")
    results = []
    harness = []
    with tempfile.TemporaryDirectory(prefix="vcheck-") as scratch:
        # known findings are recorded histories: replayed, so that they are reported and
        # so that their disappearance is noticed
        for kf in known_findings()["findings"]:
            if kf["property"] == prop:
                print(f"KNOWN-FINDING: property={prop} {kf['what']}")
        queue = list(range(GROUPS))
        running = {}
        while queue or running:
            while queue and len(running) < workers:
                g = queue.pop(0)
                out = os.path.join(scratch, f"g{g}.jsonl")
                err = open(os.path.join(scratch, f"g{g}.err"), "wb")
                p = subprocess.Popen(
                    [PYTHON, "-m", "sim.group", "explore", prop, tier, str(seed), str(g)]
                    + ["0", str(per_group), out],
                    env=env_for(hashseed_for(seed, prop, g), os.path.join(scratch, f"pyc{g}")),
                    cwd=HERE,
                    stderr=err,
                    stdin=subprocess.DEVNULL,
                )
                running[p.pid] = (p, g, out, err)
            pid, status = os.wait()
            if pid not in running:
                continue
            p, g, out, err = running.pop(pid)
            p.returncode = os.waitstatus_to_exitcode(status)
            err.close()
            if os.path.exists(out):
                with open(out) as f:
                    for line in f:
                        r = json.loads(line)
                        r["group"] = g
                        results.append(r)
            if p.returncode != 0:
                with open(os.path.join(scratch, f"g{g}.err"), errors="replace") as f:
                    harness.append(f"group {g} exit {p.returncode}: {f.read()[-3000:]}")
        results.sort(key=lambda r: (r["group"], r.get("i", 10**9)))
        for r in results:
            if r.get("harness"):
                harness.append(f"run {r['group']}/{r['i']}: {r['harness']}")
                if "trace" in r:
                    path = os.path.join(HERE, "replays", f"{prop}-harness.json")
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    with open(path, "w") as f:
                        json.dump(r["trace"], f, indent=1)
        violations = collections.OrderedDict()
        for r in results:
            if r.get("violation") and "trace" in r:
                violations.setdefault(r["violation"][0], r)
        reported = report(prop, seed, violations, scratch, start, tier)
    write_evidence(prop, tier, seed, results, start, len(reported))
    ran = sum(1 for r in results if "i" in r)
    print(f"property={prop} runs={ran} violations={len(reported)} wall={time.monotonic() - start:.1f}s")
    if reported:
        return 1
    if harness:
        print("HARNESS ERROR\n" + "\n".join(harness[:3]))
        return 2
    return 0


def report(prop, seed, violations, scratch, start, tier):
    """Minimises, verifies the replay in a fresh process, prints the VIOLATION lines."""
    reported = []
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for kind, r in list(violations.items())[:4]:
        trace = r["trace"]
        env = env_for(trace["hashseed"], os.path.join(scratch, "pyc-min"))
        budget = 90 if tier == "quick" else 300
        final, res = trace, r
        tpath = os.path.join(scratch, "t.json")
        opath = os.path.join(scratch, "o.json")
        with open(tpath, "w") as f:
            json.dump(trace, f)
        if kind != "hang":
            try:
                subprocess.run(
                    [PYTHON, "-m", "sim.group", "minimise", prop, tpath, opath, str(budget)],
                    env=env,
                    cwd=HERE,
                    timeout=budget + 200,
                    stdin=subprocess.DEVNULL,
                )
                with open(opath) as f:
                    o = json.load(f)
                if o["trace"] is not None:
                    final, res = o["trace"], o["result"]
            except (subprocess.TimeoutExpired, OSError, ValueError):
                pass
        final = dict(final)
        final["violation"] = res["violation"]
        name = f"{prop}-{trace['seed'].replace('/', '_')}-{kind}.json"
        path = os.path.join(HERE, "replays", name)
        with open(path, "w") as f:
            json.dump(final, f, indent=1)
        again = replay(path, env)
        stable = again.get("violation") == res["violation"]
        print(f"  {kind}: {res['violation'][1]}")
        print(f"  ops={len(trace['ops'])} minimised to {len(final['ops'])}, replayed: {stable}")
        if kind == "hang" and not stable:
            continue
        print(f"VIOLATION property={prop} replay={path}")
        sys.stdout.flush()
        reported.append(path)
    return reported


def replay(path, env=None):
    with open(path) as f:
        trace = json.load(f)
    with tempfile.TemporaryDirectory(prefix="vcheck-") as scratch:
        if env is None:
            env = env_for(trace["hashseed"], scratch)
        p = subprocess.run(
            [PYTHON, "-m", "sim.group", "replay", path],
            env=env,
            cwd=HERE,
            stdout=subprocess.PIPE,
            stdin=subprocess.DEVNULL,
        )
    try:
        return json.loads(p.stdout)
    except ValueError:
        return {"violation": None, "harness": p.stdout.decode(errors="replace")}


def write_evidence(prop, tier, seed, results, start, violations):
    import importlib

    sys.dont_write_bytecode = True
    wall = time.monotonic() - start
    runs = [r for r in results if "i" in r and not r.get("dup")]
    fired = collections.Counter()
    calls = collections.Counter()
    probes = collections.Counter()
    for r in runs:
        fired.update(r.get("fired") or {})
        calls.update(r.get("calls") or {})
        probes.update(r.get("probes") or {})
    shapes = {r.get("hash") for r in runs if r.get("ops", 0) >= 2}
    info = importlib.import_module("sim.about").ABOUT[prop]
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(runs),
            "distinct_nontrivial": len(shapes),
            "rule": info["rule"]
            + " Distinct: sha256 over the run's whole event log (every simulated call, fault, "
            "outcome); non-trivial: at least two operations executed.",
            "samples": [r["sample"] for r in results if "sample" in r][:2],
            "runs_per_hour": int(len(runs) / wall * 3600) if wall else 0,
            "simulated_events": sum(r.get("events", 0) for r in runs),
            "simulated_seconds": round(sum(r.get("sim_seconds", 0) for r in runs), 1),
            "operations": sum(r.get("ops", 0) for r in runs),
            "faults_fired": dict(sorted(fired.items())),
            "runs_with_faults": sum(1 for r in runs if r.get("fired")),
            "simulated_calls": dict(sorted(calls.items())),
            "probes": dict(sorted(probes.items())),
            "reference_questions": sum(r.get("ref_asked", 0) for r in runs),
            "truncated_groups": sum(1 for r in results if r.get("truncated")),
            "components_real": info["real"],
            "components_simulated": info["stub"],
        },
        "assumptions": info["assumptions"],
        "wall_s": round(wall, 2),
        "violations": violations,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)


def determinism(prop, count):
    """The same seeds in two interpreters, started from different surroundings."""
    bad = 0
    procs = []
    with tempfile.TemporaryDirectory(prefix="vcheck-") as scratch:
        for g in range(GROUPS):
            outs = []
            for attempt in range(2):
                env = env_for(hashseed_for(7, prop, g), os.path.join(scratch, f"c{g}{attempt}"))
                if attempt:
                    env["UNRELATED"] = "x" * 1000
                procs.append((g, attempt))
                p = subprocess.Popen(
                    [PYTHON, "-m", "sim.group", "hashes", prop, "quick", "7", str(g), "0"]
                    + [str(count // GROUPS + 1)],
                    env=env,
                    cwd=HERE if not attempt else "/",
                    stdout=subprocess.PIPE,
                    stdin=subprocess.DEVNULL,
                )
                if attempt:
                    outs.append(p)
                else:
                    outs.append(p)
            # both at once only for odd groups: two worker counts
            texts = [p.communicate()[0].decode() for p in outs]
            a, b = (t.splitlines() for t in texts)
            for x, y in zip(a, b):
                if x != y:
                    bad += 1
                    print("DIVERGED", g, x, "|", y)
            if len(a) != len(b) or len(a) != count // GROUPS + 1:
                bad += 1
                print("LENGTHS", g, len(a), len(b))
    print(f"determinism {prop}: {(count // GROUPS + 1) * GROUPS} seeds twice, {bad} divergences")
    return 1 if bad else 0


def main(argv):
    if len(argv) < 2:
        print(__doc__)
        return 2
    if argv[1] == "replay":
        res = replay(argv[2])
        if "-v" in argv:
            print("\n".join(res.get("log", [])))
            print("\n".join(res.get("outcomes", [])))
        with open(argv[2]) as f:
            trace = json.load(f)
        print(json.dumps(res.get("violation")), res.get("harness") or "")
        if res.get("violation"):
            print(f"VIOLATION property={trace['property']} replay={argv[2]}")
            return 1
        return 2 if res.get("harness") else 0
    if argv[1] == "determinism":
        return determinism(argv[2], int(argv[3]) if len(argv) > 3 else 200)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    return run_check(argv[1], tier)


if __name__ == "__main__":
    try:
        code = main(sys.argv)
    except SystemExit:
        raise
    except BaseException as e:  # never mistaken for a verdict
        import traceback

        traceback.print_exc()
        print(f"HARNESS ERROR {e!r}")
        code = 2
    sys.exit(code)
