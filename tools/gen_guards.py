"""Freezes sa/guards_table.json: the invalid arguments that the library rejects, per combination of options."""
import collections, json, os, sys, time
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.setrecursionlimit(20000)
from sa.checks import c06
from sa.loader import Program
prog = Program()
keys = []
tot = collections.defaultdict(collections.Counter)
ex = {}
t = collections.Counter()
t0 = time.time()
for ev, e, info, cls, lbl, opts, ol, key, r in c06.cases(prog):
    t1 = time.time()
    t[e.name] += t1 - t0
    t0 = t1
    tot[e.name, cls][r[0]] += 1
    if r[0] == "reject":
        keys.append(key)
    else:
        ex.setdefault((e.name, cls, r[0]), (key, r))
only = sys.argv[1:]
for (n, c), v in tot.items():
    if only and not any(o in n for o in only):
        continue
    print(f"{n:60s} {c:18s}", dict(v))
    for k in ("return", "unknown", "reject?"):
        if (n, c, k) in ex:
            print("       ", k, ex[n, c, k][0], ex[n, c, k][1][1:], )
print(len(keys), "cases", sorted(t.items(), key=lambda x: -x[1])[:8])
with open(c06.TABLE, "w") as f:
    json.dump(sorted(keys), f, indent=0)
    f.write("\n")

print("--- reasons")
W = collections.defaultdict(collections.Counter)
for ev, e, info, cls, lbl, opts, ol, key, r in c06.cases(prog):
    if r[0] == "reject":
        W[e.name, cls][r[1] if isinstance(r[1], str) else str(r[1])] += 1
for k, v in W.items():
    print(k, dict(v))
