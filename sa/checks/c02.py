"""Alias and effect analysis.  Every public function is analysed with its array, list and dictionary arguments owned by
the caller; views, transposes, reshapes, slices, asarray and container elements keep the owner, copies and arithmetic
drop it.  Every element store, in-place operator, in-place method, out= or overwrite_* argument, in the function or in
any function it calls, that may reach caller-owned memory is a violation."""
from ..alias import AliasDomain, AliasInterp, initial
from ..api import roots
from ..loader import AnalysisError
from ..report import Finding

FLOORS = {"public_functions": 106, "stores_and_inplace_operations": 150, "functions": 125}
ASSUMPTIONS = [
    "numpy view/copy table in sa/npk.py (VIEW) and sa/alias.py",
    "an index of unknown kind is taken to copy; a scalar argument is rebound, not modified, by in-place operators",
]
# documented as working in place
EXEMPT = {"apply_householder", "reduce_matrix_to_hessenberg"}


def check(prog):
    rs, missing = roots(prog)
    if len(missing) > 10:
        raise AnalysisError("public functions not found: " + ", ".join(missing))
    findings = {}
    stats = {"public_functions": 0, "array_arguments": 0, "stores_and_inplace_operations": 0, "functions": 0}
    seen = set()
    for info, kinds in rs:
        if info.name in EXEMPT:
            continue
        dom = AliasDomain()
        it = AliasInterp(prog, dom)
        b = initial(info, kinds)
        stats["public_functions"] += 1
        stats["array_arguments"] += sum(1 for k in kinds.values() if k in ("array", "list", "dict"))
        it.invoke(info, b, info.node)
        stats["stores_and_inplace_operations"] += dom.stores
        seen |= it.analysed
        for (o, f, what), (where, msg, path) in dom.hits.items():
            if not o.startswith("p:"):
                continue
            key = f"mutates:{info.full}:{o[2:]}:{f}:{what}"
            findings[key] = Finding(key, where, f"{info.full} modifies its argument {o[2:]} ({msg})", path)
    stats["functions"] = len(seen)
    stats["public_functions_not_found"] = missing
    return list(findings.values()), stats
