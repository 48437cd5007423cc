#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PURE = ("the result is a pure function of its arguments: no schedule, clock, I/O, randomness, "
        "fault or history exists for it to depend on, so there is nothing to simulate; ")
NOT_APPLICABLE = {
    "C22": PURE + "a matter for unit tests or proof, not for deterministic simulation",
    "C24": PURE + "an identity between closed formulas",
}
LEVEL_NOTES = {
    "exploration": "seeded search over schedules, histories and faults by deterministic simulation",
    "fault_enumeration": "seeded search in which every run places one fault at a chosen point",
}


def constant(path, name, default=None):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign):
            for target in node.targets:
                if isinstance(target, ast.Name) and target.id == name:
                    return ast.literal_eval(node.value)
                if isinstance(target, ast.Tuple):
                    for t, v in zip(target.elts, getattr(node.value, "elts", [])):
                        if t.id == name:
                            return ast.literal_eval(v)
    return default


checks, missing = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    prop = json.loads(line)["id"]
    if prop in NOT_APPLICABLE:
        missing.append({"property": prop, "reason": NOT_APPLICABLE[prop]})
        continue
    module = os.path.join(HERE, "sim", "props", prop.lower() + ".py")
    if not os.path.exists(module):
        missing.append({"property": prop, "reason": "check not built yet"})
        continue
    level = constant(module, "LEVEL")
    command = f"/opt/venv/bin/python -B check.py {prop} --tier "
    checks.append({
        "property": prop,
        "quick_cmd": command + "quick",
        "thorough_cmd": command + "thorough",
        "evidence_file": f"evidence/{prop}.json",
        "technique": "deterministic simulation with fault injection",
        "level": level,
        "level_note": f"{constant(module, 'NOTE') or LEVEL_NOTES[level]}; "
                      f"quick {constant(module, 'QUICK')} runs, thorough up to "
                      f"{constant(module, 'THOROUGH')}",
    })

manifest = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B tools/setup_check.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": "No hooks in /repo: every seam is one the code already has (injected right-hand "
             "sides, benchmarks, solutions, step size functions, flux getters) or a standard "
             "library or numpy entry point replaced inside the simulated process. VERIF_REPO "
             "selects another checkout of the code under test.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
print(f"{len(checks)} checks, {len(missing)} not claimed")
