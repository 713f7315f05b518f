#!/usr/bin/env python3
"""developer tool: prove.py UNIT [fn-substring] [--smoke] [--keep DIR]"""
import sys, os, tempfile, time, argparse
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import unit
ap = argparse.ArgumentParser()
ap.add_argument("unit"); ap.add_argument("fn", nargs="?", default="")
ap.add_argument("--smoke", action="store_true"); ap.add_argument("--keep", default="/tmp/w/prove")
ap.add_argument("--gen", action="store_true"); ap.add_argument("--repo", default="/repo")
ap.add_argument("--plan", default="")
a = ap.parse_args()
U = unit.Unit(a.unit, a.repo)
t0 = time.time()
txt = U.generate(a.smoke)
d = os.path.join(a.keep, a.unit)
os.system("rm -rf %s; mkdir -p %s" % (d, d))
m = os.path.join(d, "u.mlw")
open(m, "w").write(txt)
print("generated in %.1fs -> %s" % (time.time() - t0, m))
if a.gen:
    sys.exit()
t0 = time.time()
try:
    goals = unit.why3_goals(m, d)
except unit.Unsupported as e:
    print(e); sys.exit(1)
goals = [g for g in goals if a.fn in g.fn]
print("%d goals in %.1fs" % (len(goals), time.time() - t0))
plan = unit.QUICK
if a.plan:
    plan = [(x.split(":")[0], int(x.split(":")[1]), 0) for x in a.plan.split(",")]
t0 = time.time()
op = unit.discharge(goals, plan, log=print)
print("%.1fs; %d/%d proved" % (time.time() - t0, len(goals) - len(op), len(goals)))
for g in op:
    print("OPEN %s line %d: %s   [%s] %s" % (g.fn, g.line, g.label, os.path.basename(g.fz), [x[2] for x in g.tries]))
slow = sorted(goals, key=lambda g: -g.time)[:5]
print("slowest:", [(g.fn, g.line, round(g.time, 1), g.solver) for g in slow])
