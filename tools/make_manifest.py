"""Writes /verif/MANIFEST.json from the check modules (level, technique and note live there or here)."""
import ast
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(line) for line in (ROOT / "properties.jsonl").read_text().splitlines()]
TECH = {
    "model_checking": "explicit exploration of the real implementation: exhaustive bounded enumeration of environment answers / operation sequences / schedules, oracle on every execution",
    "fault_enumeration": "exhaustive enumeration of fault placements in the environment of the real implementation",
    "exploration": "exhaustive enumeration of a finite input lattice on the real implementation against an independent reference",
}
checks, na = [], []
for p in props:
    f = ROOT / "mc" / "checks" / f"{p['id'].lower()}.py"
    if not f.exists():
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    tree = ast.parse(f.read_text())
    vals = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                vals[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    lvl = vals["LEVEL"]
    note = vals.get("NOTE") or (
        "Exhaustive within the stated bounds on the real code, no sampling: " + vals["RULE"] + ". Assumes: " + "; ".join(vals.get("ASSUMPTIONS", [])) + ".")
    checks.append({"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                   "technique": vals.get("TECHNIQUE") or TECH[lvl], "level": lvl, "level_note": note})
man = {"version": 1, "setup_cmd": "./check selftest", "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo are needed: the optimizer is driven through its public plug-in seams (criterion, batch evaluator, acceptance decider, sample filter, sampler)."}
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(checks), "checks", len(na), "open")
