"""Writes MANIFEST.json from the claimed checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.budget import BUDGET
from sim.about import ABOUT
props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
NA = {
    "C13": "Pure function of one string: no schedule, clock, I/O, fault or history for a simulator to decide; generating inputs for it would be property-based testing, not simulation.",
    "C14": "Pure comparison of two immutable values: nothing in it for schedules or faults to reach.",
    "C15": "Pure function of one object's fields: nothing in it for schedules or faults to reach.",
    "C16": "Pure filter over an in-memory list: nothing in it for schedules or faults to reach.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in BUDGET:
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: " + ABOUT[i].get("technique", "seeded sessions against a reference model"),
            "level": "exploration",
            "level_note": ABOUT[i].get("note", "Sampled: a clean batch is evidence, not proof. ") + " Trusts librpm, the simulator's seams and the reference model; every run replays from its seed.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
  "notes": "No hooks in /repo: all seams are installed from outside at run time."}, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
