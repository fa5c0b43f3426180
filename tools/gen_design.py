#!/opt/venv/bin/python
"""Writes DESIGN.md from tools/design/*.md, properties.jsonl, the checks' bounds and the planted changes."""
import json, os, sys, importlib, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
D = os.path.join(R, "tools", "design")
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
how = {}
for b in open(os.path.join(D, "how.md")).read().split("\n@"):
    b = b.strip().lstrip("@")
    if b: how[b[:3]] = b[4:].strip()
cost = dict(l.split() for l in open(os.path.join(D, "cost.txt")))
o = [open(os.path.join(D, "head.md")).read().replace("@LAST@", props[-1]["id"])]
for p in props:
    m = importlib.import_module("checks." + p["id"].lower())
    o.append(f"### {p['id']} {p['title']}\n{how[p['id']]}\n\n*Bounds*: {m.BOUNDS}.  *Quick*: {cost.get(p['id'], '?')} s.\n")
    if getattr(m, "ASSUMPTIONS", None): o.append("*Assumes*: " + "; ".join(m.ASSUMPTIONS) + ".\n")
o.append(open(os.path.join(D, "tail.md")).read())
miss = dict(l.strip().split(" ", 1) for l in open(os.path.join(D, "missed.txt")) if l.strip())
o.append("| change | caught by | needs | at first |\n|---|---|---|---|\n")
for f in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    n, m = f.split("/")[-2], json.load(open(f))
    o.append(f"| {n} | {m['property']} | {m['needs']} | {miss.get(n, 'caught')} |\n")
out = [x if x.endswith("\n") else x + "\n" for x in o]
open(os.path.join(R, "DESIGN.md"), "w").write("".join(out))
