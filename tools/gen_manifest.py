"""Writes MANIFEST.json from the check modules present."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

ENUM = "bounded exhaustive enumeration of inputs on the real code against a reference model"
HIST = "explicit-state search over operation histories on the real code, lockstep with a reference model"
SCHED = "stateless model checking: all thread interleavings up to a preemption bound"
TECH = {
    "C01": ENUM, "C02": ENUM, "C03": ENUM, "C04": ENUM, "C05": HIST, "C06": HIST, "C07": HIST,
    "C08": ENUM, "C09": ENUM, "C10": HIST, "C11": ENUM, "C12": ENUM, "C13": ENUM, "C14": ENUM,
    "C15": ENUM, "C16": HIST, "C17": HIST, "C18": ENUM, "C19": ENUM, "C20": SCHED, "C21": ENUM,
    "C22": ENUM, "C23": ENUM, "C24": ENUM, "C25": ENUM,
}
WHY = "No execution within the bounds in the evidence file violates the property. "


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks, missing = [], []
    for prop in props:
        pid = prop["id"]
        if not os.path.exists(os.path.join(ROOT, "mc", "checks", pid.lower() + ".py")):
            missing.append({"property": pid, "reason": "check not built yet"})
            continue
        module = importlib.import_module(f"mc.checks.{pid.lower()}")
        cmd = f"/opt/venv/bin/python -B mc/run.py {pid}"
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"{cmd} --tier quick",
                "thorough_cmd": f"{cmd} --tier thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECH[pid],
                "level": module.LEVEL,
                "level_note": WHY + "Assumes: " + "; ".join(module.ASSUMPTIONS) + ".",
            }
        )
    manifest = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -B mc/setup_check.py",
        "checks": checks,
        "not_applicable": missing,
        "notes": "Everything is Python run by /opt/venv/bin/python on /repo's working tree; no hooks in /repo.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as handle:
        json.dump(manifest, handle, indent=1)
        handle.write("\n")


main()
