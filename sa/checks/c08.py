"""Bounds of compiled code.  Every compiled function that interpreted code calls is interpreted over symbolic sizes (the shapes
of its arguments as the public functions pass them, sa/kernels.json, every size from the smallest up), following the compiled
functions it calls with the shapes of the actual arguments.  At every indexing the index must lie within the array: proven by
Fourier-Motzkin elimination from the ranges of the loops, the sizes and the branches taken; reported when small sizes satisfy
everything on the way to the access and break the bound; left undecided otherwise.
"""
import ast
import json
import os

from ..bounds import DATA, NONE, UNK, Arr, Generic, Machine, State
from ..loader import AnalysisError, PKG
from ..poly import Poly
from ..report import Finding

FLOORS = {"kernels": 23, "accesses": 304, "proven": 303}
ASSUMPTIONS = ["the shapes of the arguments of the kernels are those of sa/kernels.json",
               "negative indices down to minus the length are valid (they count from the end); slices never leave the array",
               "tests on matrix entries can go either way", "accesses that are neither proven nor refuted raise no alarm (counted)"]


def size(text, env):
    """Evaluate a size expression of kernels.json."""
    def ev(n):
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            return a + b if isinstance(n.op, ast.Add) else a - b if isinstance(n.op, ast.Sub) else a * b
        if isinstance(n, ast.Constant):
            return Poly.const(n.value)
        if isinstance(n, ast.Call):
            return env[n.args[0].id].rank
        return env[n.id]
    return ev(ast.parse(text.strip(), mode="eval").body)


def arguments(m, spec):
    sizes = {}
    for k, v in spec.items():
        if isinstance(v, int):
            sizes[k] = m.sy.new(k, True, [lambda p, v=v: p - v])
    for k, v in spec.items():
        if v == "gen":
            sizes[k] = Generic(m.sy, k)
    env = {}
    for k, v in spec.items():
        if isinstance(v, int):
            continue
        kind, _, rest = v.partition("(")
        rest = rest.rstrip()
        rest = rest[:-1] if rest.endswith(")") else rest
        if v == "gen":
            env[k] = Arr((), None, sizes[k], m.new_id())
        elif kind == "arr":
            env[k] = Arr([size(x, sizes) for x in rest.split(",")], None, None, m.new_id())
        elif kind == "like":
            g, _, more = rest.partition(";")
            env[k] = Arr([size(x, sizes) for x in more.split(",")], None, sizes[g], m.new_id())
        elif kind == "ints":
            n, _, rng = rest.partition(";")
            lo, hi = rng.split(",")
            env[k] = Arr([size(n, sizes)], ((size(lo, sizes), size(hi, sizes), True),), None, m.new_id())
        elif v == "flag":
            env[k] = m.sy.new(k, True, [lambda p: p, lambda p: 1 - p])
        elif v == "size":
            env[k] = m.sy.new(k, True, [lambda p: p])
        elif v == "int":
            env[k] = m.sy.new(k, True)
        elif v == "none":
            env[k] = NONE
        elif v == "data":
            env[k] = DATA
        else:
            env[k] = size(v, sizes)
    return env


def roots(prog):
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "kernels.json")
    with open(path, encoding="utf-8") as f:
        table = json.load(f)
    for name, specs in table.items():
        if name == "//":
            continue
        fi = prog.find(name)
        if fi is None:
            r = prog.find_by_name(name.rsplit(".", 1)[-1])
            fi = r[0] if r else None
        if fi is None or fi.jit is None:
            continue
        for spec in specs:
            yield fi, spec


def check(prog):
    sites = {}
    seen = set()
    calls = proofs = 0
    for fi, spec in roots(prog):
        m = Machine(prog)
        env = {p: UNK for p in fi.params}
        for k, v in fi.defaults().items():
            env[k] = m.e_Constant(v, None) if isinstance(v, ast.Constant) else UNK
        env.update({k: v for k, v in arguments(m, spec).items() if k in fi.params})
        m.stack.append((fi, True))
        m.run_body(fi, State(env, (), True))
        seen.add(fi.full)
        calls += m.calls
        proofs += m.pr.stats["proofs"]
        for k, s in m.sites.items():
            o = sites.get(k)
            if o is None:
                sites[k] = s
            else:
                rank = {"ok": 0, "undecided": 1, "bad": 2}
                if rank[s.status] > rank[o.status]:
                    s.n += o.n
                    sites[k] = s
                else:
                    o.n += s.n
    findings = []
    for k, s in sorted(sites.items(), key=lambda kv: (kv[0][0], kv[0][1], kv[0][2])):
        if s.status == "bad":
            findings.append(Finding(f"bounds:{s.fn.full}:{s.text}", s.fn.loc(s.node),
                                    f"{s.fn.qualname}: {s.text} reads or writes outside the array ({s.witness})"))
    every = {}
    for f in prog.functions():
        if f.jit is not None:
            every[f.full] = sum(isinstance(n, ast.Subscript) for n in ast.walk(f.node))
    stats = {"kernels": len(seen), "compiled_functions": len(every), "functions_reached": len({s.fn.full for s in sites.values()}),
             "accesses": len(sites), "proven": sum(s.status == "ok" for s in sites.values()),
             "undecided": sum(s.status == "undecided" for s in sites.values()),
             "undecided_accesses": sorted(f"{s.fn.qualname}: {s.text}: {s.why}" for s in sites.values() if s.status == "undecided"),
             "contexts": sum(s.n for s in sites.values()), "calls_followed": calls, "bounds_queries": proofs,
             "rule": "-length <= index < length at every indexing by an integer or an array of integers in compiled code"}
    if not any(s.status for s in sites.values()):
        raise AnalysisError("no array access found in compiled code of " + PKG)
    return findings, stats
