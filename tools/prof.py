#!/opt/venv/bin/python
"""Profile one case: tools/prof.py C08 'case name' [tier]"""
import sys, os, cProfile, pstats, importlib, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
from engine import harness
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
m = importlib.import_module("checks." + sys.argv[1].lower())
c = next(c for c in m.cases(tier) if c.name == sys.argv[2])
c.opts["wall"] = 40
p = cProfile.Profile()
p.enable()
r = harness.explore_case(c, time.time() + 60, tier)
p.disable()
print({k: r[k] for k in ("completed", "inconclusive", "stats", "wall")}, r["candidates"][:2])
pstats.Stats(p).sort_stats("cumulative").print_stats(35)
