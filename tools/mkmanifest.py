"""Writes MANIFEST.json: one entry per check module present in gspv/."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constant(path, name):
    for node in ast.parse(open(path, encoding="utf-8").read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", None) == name:
            return ast.literal_eval(node.value)
    return None


checks = []
for path in sorted(glob.glob(os.path.join(ROOT, "gspv", "c[0-9][0-9].py"))):
    pid = constant(path, "ID")
    checks.append({
        "property": pid,
        "quick_cmd": f"./check.sh {pid}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {pid}",
        "technique": constant(path, "TECHNIQUE") or
        "runtime monitoring: online oracle over executions of the real code against an independent reference model",
        "level": "exploration",
        "level_note": constant(path, "NOTE") or
        "Randomised and directed workloads; the verdict covers the executions observed, counted in the evidence file.",
    })
with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as stream:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, stream, indent=1)
    stream.write("\n")
print(len(checks), "checks")
