"""
One group of runs: a fresh interpreter with its own hash seed. It imports the package from
/repo's working tree, never calls RPM itself, and forks one process per run.

    python -m sim.group explore PROP TIER SEED GROUP FIRST COUNT OUT
    python -m sim.group minimise PROP TRACE OUT SECONDS
    python -m sim.group replay TRACE
"""

import fcntl
import hashlib
import importlib
import json
import logging
import os
import select
import shutil
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
RUN_TIMEOUT = float(os.environ.get("VERIF_RUN_TIMEOUT", "120"))


# checks that run under the simulated clock, processes and accounts
WITH_ENV = {"C09", "C10"}


def load(prop):
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO)
    logging.disable(logging.CRITICAL)
    import rpm  # noqa: F401

    if prop in WITH_ENV:
        from sim import env

        env.install()
    import specfile

    where = os.path.realpath(specfile.__file__)
    if not where.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"specfile imported from {where}")
    return importlib.import_module(f"sim.props.{prop.lower()}")


def claim_scratch(name):
    """A fixed path per group (paths are inputs too), another one if it is in use."""
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    for suffix in [""] + [f"-{i}" for i in range(2, 50)]:
        path = f"{base}/vsim-{name}{suffix}"
        lock = os.open(path + ".lock", os.O_CREAT | os.O_RDWR | os.O_CLOEXEC, 0o600)
        try:
            fcntl.flock(lock, fcntl.LOCK_EX | fcntl.LOCK_NB)
        except OSError:
            os.close(lock)
            continue
        return path, lock
    raise RuntimeError("no scratch directory")


def release_scratch(path, lock):
    shutil.rmtree(path, ignore_errors=True)
    try:
        os.unlink(path + ".lock")
    except OSError:
        pass
    os.close(lock)


def child(mod, trace, root, out_fd, keep_log):
    from sim import kernel
    from sim.refrpm import Ref, RefError
    from sim.world import Violation, World

    result = {"violation": None, "harness": None}
    try:
        os.environ.clear()
        os.environ.update(
            PATH="/usr/local/bin:/usr/bin:/bin",
            HOME="/nonexistent",
            LANG="en_US.UTF-8",
            LC_ALL="C",
            TZ="UTC",
        )
        time.tzset()
        w = World(root, trace)
        err = os.open(w.path("stderr.log"), os.O_RDWR | os.O_CREAT | os.O_APPEND, 0o600)
        if os.environ.get("VSIM_DEBUG") != "1":
            os.dup2(err, 2)
        os.close(err)
        if getattr(mod, "NEEDS_REF", True):
            w.ref = Ref(w.path("ref"))
        kernel.install(w.path("tmp"))
        try:
            mod.run(w, trace)
        except Violation as v:
            result["violation"] = [v.kind, v.message.replace(root, "$")[:4000]]
        except RefError as e:
            result["harness"] = f"reference: {e}"
        if kernel.K.violation and not result["violation"]:
            kind, message = kernel.K.violation
            result["violation"] = [kind, message.replace(root, "$")[:4000]]
        k = kernel.K
        h = hashlib.sha256()
        for line in k.log:
            h.update(line.encode("utf8", "surrogatepass") + b"\n")
        h.update(w.outcomes.digest())
        if keep_log:
            result["log"] = k.log
            result["outcomes"] = w.outcome_log
        result.update(
            hash=h.hexdigest(),
            shape=w.outcomes.hexdigest(),
            events=k.total,
            fired=k.fired,
            calls=k.calls,
            probes=w.probes,
            ops=w.ops_done,
            sim_seconds=w.sim_seconds,
            ref_asked=w.ref.asked if w.ref else 0,
        )
    except BaseException:
        result["harness"] = traceback.format_exc()[-4000:]
    data = json.dumps(result).encode("ascii")
    while data:
        data = data[os.write(out_fd, data) :]
    os._exit(0)


def run_one(mod, trace, root, keep_log=False):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        child(mod, trace, root, w, keep_log)
    os.close(w)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    chunks = []
    deadline = time.monotonic() + RUN_TIMEOUT
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            hung = True
            break
        d = os.read(r, 1 << 20)
        if not d:
            break
        chunks.append(d)
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid, 0)
    raw = b"".join(chunks)
    if hung:
        return {"violation": ["hang", f"no progress for {RUN_TIMEOUT:.0f} s"], "hang": True}
    if raw:
        try:
            return json.loads(raw)
        except ValueError:
            pass
    if os.WIFSIGNALED(status):
        return {"violation": ["crash", f"killed by signal {os.WTERMSIG(status)}"]}
    return {"violation": None, "harness": f"run ended with status {status} and no result"}


def trace_key(result):
    v = result.get("violation")
    return v[0] if v else None


def explore(prop, tier, seed, group, first, count, out):
    from sim.world import rng_for

    mod = load(prop)
    root, lock = claim_scratch(f"{prop}-g{group}")
    soft = time.monotonic() + float(os.environ.get("VERIF_SOFT_S", "1e9"))
    seen = set()
    stop_at = None
    try:
        with open(out, "w") as f:
            for i in range(first, first + count):
                if time.monotonic() > soft:
                    f.write(json.dumps({"truncated": True, "at": i}) + "\n")
                    break
                rng = rng_for(seed, prop, group, i)
                trace = mod.gen(rng, tier)
                trace["property"] = prop
                trace["seed"] = f"{seed}/{prop}/{group}/{i}"
                trace["hashseed"] = os.environ.get("PYTHONHASHSEED", "0")
                res = run_one(mod, trace, root)
                res["i"] = i
                key = trace_key(res)
                if key is not None:
                    if key in seen:
                        res = {"i": i, "dup": key}
                    else:
                        seen.add(key)
                        res["trace"] = trace
                elif res.get("harness"):
                    res["trace"] = trace
                elif len(seen) == 0 and i == first:
                    res["sample"] = trace
                f.write(json.dumps(res) + "\n")
                f.flush()
                if res.get("harness"):
                    break
                if seen and stop_at is None:
                    stop_at = i + 20
                if len(seen) >= 3 or (stop_at is not None and i >= stop_at):
                    break
    finally:
        release_scratch(root, lock)


def minimise(prop, trace, seconds):
    """Delta debugging over operations, faults and whatever the property module offers."""
    mod = load(prop)
    root, lock = claim_scratch(f"{prop}-min")
    deadline = time.monotonic() + seconds
    tried = 0
    try:
        base = run_one(mod, trace, root)
        want = trace_key(base)
        if want is None:
            return None, base, 1
        best, best_res = trace, base

        def attempt(candidate):
            nonlocal best, best_res, tried
            if time.monotonic() > deadline:
                return False
            tried += 1
            res = run_one(mod, candidate, root)
            if not res.get("harness") and trace_key(res) == want:
                best, best_res = candidate, res
                return True
            return False

        if base.get("hang"):
            return best, best_res, 1
        progress = True
        while progress and time.monotonic() < deadline:
            progress = False
            # drop operations
            n = len(best["ops"])
            size = max(1, n // 2)
            while size >= 1 and time.monotonic() < deadline:
                i = 0
                while i < len(best["ops"]):
                    cand = dict(best, ops=best["ops"][:i] + best["ops"][i + size :])
                    if len(best["ops"]) > 0 and attempt(cand):
                        progress = True
                    else:
                        i += size
                size //= 2
            # drop faults
            for i in range(len(best["ops"])):
                op = best["ops"][i]
                faults = op.get("faults") if isinstance(op, dict) else None
                j = 0
                while faults and j < len(faults):
                    new = dict(op, faults=faults[:j] + faults[j + 1 :])
                    cand = dict(best, ops=best["ops"][:i] + [new] + best["ops"][i + 1 :])
                    if attempt(cand):
                        progress = True
                        op, faults = new, new["faults"]
                    else:
                        j += 1
            # simplify the configuration
            again = True
            while again and time.monotonic() < deadline:
                again = False
                # only where any text will do: elsewhere the models hold for the texts
                # that were generated
                for cand in generic_simplify(best) if getattr(mod, "ANY_TEXT", False) else ():
                    if attempt(cand):
                        progress = again = True
                        break
                if again:
                    continue
                for cand in getattr(mod, "simplify", lambda t: [])(best):
                    if attempt(cand):
                        progress = again = True
                        break
        return best, best_res, tried
    finally:
        release_scratch(root, lock)


def generic_simplify(trace):
    """Drops elements of the lists in the configuration, then lines of texts."""
    cfg = trace.get("config", {})

    def variants(value, path):
        if isinstance(value, list):
            for i in range(len(value)):
                yield path, value[:i] + value[i + 1 :]
            for i, v in enumerate(value):
                for p, nv in variants(v, path + [i]):
                    yield p, nv
        elif isinstance(value, dict):
            for k, v in value.items():
                for p, nv in variants(v, path + [k]):
                    yield p, nv
        elif isinstance(value, str) and "\n" in value:
            lines = value.splitlines(keepends=True)
            size = max(1, len(lines) // 2)
            while size >= 1:
                for i in range(0, len(lines), size):
                    yield path, "".join(lines[:i] + lines[i + size :])
                size //= 2

    def put(root, path, value):
        if not path:
            return value
        if isinstance(root, list):
            out = list(root)
        else:
            out = dict(root)
        out[path[0]] = put(root[path[0]], path[1:], value)
        return out

    for path, value in variants(cfg, []):
        yield dict(trace, config=put(cfg, path, value))


def main(argv):
    cmd = argv[1]
    if cmd == "explore":
        prop, tier, seed, group, first, count, out = argv[2:9]
        explore(prop, tier, seed, int(group), int(first), int(count), out)
    elif cmd == "minimise":
        prop, path, out, seconds = argv[2:6]
        with open(path) as f:
            trace = json.load(f)
        best, res, tried = minimise(prop, trace, float(seconds))
        with open(out, "w") as f:
            json.dump({"trace": best, "result": res, "tried": tried}, f)
    elif cmd == "replay":
        with open(argv[2]) as f:
            trace = json.load(f)
        prop = trace["property"]
        mod = load(prop)
        root, lock = claim_scratch(f"{prop}-min")
        try:
            res = run_one(mod, trace, root, keep_log=True)
        finally:
            release_scratch(root, lock)
        json.dump(res, sys.stdout)
    elif cmd == "hashes":
        # for the determinism proof: the hash of every run's event log
        prop, tier, seed, group, first, count = argv[2:8]
        from sim.world import rng_for

        mod = load(prop)
        root, lock = claim_scratch(f"{prop}-g{group}")
        try:
            for i in range(int(first), int(first) + int(count)):
                trace = mod.gen(rng_for(seed, prop, int(group), i), tier)
                res = run_one(mod, trace, root)
                print(i, res.get("hash"), trace_key(res), (res.get("harness") or "")[-300:])
        finally:
            release_scratch(root, lock)


if __name__ == "__main__":
    main(sys.argv)
