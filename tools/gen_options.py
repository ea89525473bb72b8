"""Freezes sa/options_table.json: which option influences which function, per combination of its switches."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.setrecursionlimit(20000)
from sa.api import roots
from sa.checks import c07
from sa.loader import Program
prog = Program()
out = {}
none = []
fl = {}
for info, kinds in roots(prog)[0]:
    infl, runs = c07.influences(prog, info, kinds)
    f = sorted((g, q, p) for (g, q), ps in c07.flows(info, runs).items() for p in ps)
    if f:
        fl[c07.root_name(info)] = f
    t = {}
    for (p, c), ok in infl.items():
        if ok:
            t.setdefault(p, []).append(c)
    for p in c07.options(info):
        if p not in t:
            none.append((info.full, p))
    if t:
        out[c07.root_name(info)] = {p: sorted(v) for p, v in sorted(t.items())}
with open(c07.TABLE, "w") as f:
    json.dump({'influence': out, 'flows': fl}, f, indent=0, sort_keys=True)
    f.write("\n")
print("options without influence:", none)
