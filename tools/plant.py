#!/usr/bin/env python3
"""Confirm a planted bug: plant.py ID [--check].

The patch must apply to /repo's HEAD, the stable tests must still pass with it, and
demo.sh must succeed without and fail with it.  With --check, the property's quick check
is run on a scratch copy carrying the patch as well.  Works on scratch copies only.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd=None, **env):
    return subprocess.run(
        cmd, shell=True, cwd=cwd, text=True, stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT, env={**os.environ, **env},
    )


def main(bug, check):
    d = f"{VERIF}/seeded/{bug}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    tmp = tempfile.mkdtemp(prefix="plant")
    ok = True
    try:
        clean, bad = f"{tmp}/clean", f"{tmp}/bad"
        for t in (clean, bad):
            sh(f"mkdir {t} && git -C /repo archive HEAD | tar x -C {t}")
        r = sh(f"git apply {d}/patch.diff", cwd=bad)
        if r.returncode:
            print(bug, "patch does not apply", r.stdout)
            return 1
        demo = f"{tmp}/demo"
        shutil.copytree(d, demo)
        os.unlink(f"{demo}/patch.diff")
        os.unlink(f"{demo}/meta.json")
        a, b = (sh(f"bash {demo}/demo.sh", cwd=t) for t in (clean, bad))
        if a.returncode:
            ok = False
            print(bug, "DEMO FAILS ON CLEAN:", a.stdout[-1500:])
        if not b.returncode:
            ok = False
            print(bug, "DEMO PASSES WITH PATCH")
        r = sh(
            "/opt/venv/bin/python -m pytest -q --no-header -p no:cacheprovider tests/unit tests/integration | tail -5",
            cwd=bad, PYTHONPATH=bad, PYTHONDONTWRITEBYTECODE="1",
        )
        tail = r.stdout.strip().splitlines()[-1]
        if "303 passed" not in tail:
            ok = False
            print(bug, "TESTS:", r.stdout[-800:])
        print(bug, prop, "ok" if ok else "BAD", "| demo:", b.stdout.strip().splitlines()[-1:] , flush=True)
        if check:
            r = sh(f"python3 {VERIF}/check.py {prop} --tier quick", cwd=VERIF,
                   VERIF_REPO=bad, VERIF_SEED="1")
            print(bug, prop, "check exit", r.returncode,
                  [x for x in r.stdout.splitlines() if "VIOLATION" in x][:2], flush=True)
    finally:
        shutil.rmtree(tmp)  # scratch only
    return 0 if ok else 1


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    sys.exit(max(main(a, "--check" in sys.argv) for a in args))
