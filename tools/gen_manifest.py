#!/opt/venv/bin/python
"""Writes MANIFEST.json: a check for every property with a file in checks/, a reason for the rest."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
NA = {
}
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(R, "checks", i.lower() + ".py")) and i not in NA:
        src = __import__("importlib").import_module("checks." + i.lower())
        checks.append(dict(property=i, level="other",
            level_note="bounded decision: every claim is decided by Z3 for all input values on every feasible path of the current source, within: " + src.BOUNDS,
            technique="symbolic execution of the real source + SMT (Z3), counterexamples replayed on the real library",
            quick_cmd=f"./run {i} --tier quick", thorough_cmd=f"./run {i} --tier thorough"))
    else: na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", [n["property"] for n in na])
