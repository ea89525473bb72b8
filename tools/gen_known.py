"""The functions the pinned tree has, per module (sa/known_functions.json)."""
import ast, json, os
R = os.environ.get("WALRUS_REPO", "/repo")
out = {}
for d, ds, fs in os.walk(R + "/thewalrus"):
    ds[:] = sorted(x for x in ds if x not in ("tests", "__pycache__"))
    for f in sorted(fs):
        if f.endswith(".py"):
            p = os.path.join(d, f)
            out[os.path.relpath(p, R)] = sorted(s.name for s in ast.parse(open(p).read()).body if isinstance(s, ast.FunctionDef))
json.dump(out, open(os.path.join(os.path.dirname(__file__), "..", "sa", "known_functions.json"), "w"), indent=0, sort_keys=True)
