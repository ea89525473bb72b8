"""Element-type analysis.  Every public function is analysed once per assignment of integer or real (and, where the
function documents complex data, complex) element types to its numeric arguments; a store, in-place operation or
conversion that certainly puts a fractional or complex value into an integer buffer, or a complex value into a real one,
is a violation."""
from ..api import roots
from ..dtypes import DtypeDomain, Interp, configs, initial
from ..loader import AnalysisError
from ..report import Finding

FLOORS = {"public_functions": 107, "configurations": 400, "stores_and_conversions": 500, "functions": 125}
ASSUMPTIONS = ["numpy promotion rules as tabulated in sa/dtypes.py",
               "values of unknown type raise no alarm", "integer overflow is outside the property"]

# parameters documented as (possibly) complex
COMPLEX = {
    "hafnian": ["A"], "loop_hafnian": ["A", "D"], "hafnian_repeated": ["A", "mu"], "hafnian_sparse": ["A"],
    "hafnian_banded": ["A"], "reduction": ["A"], "hermite_multidimensional": ["R", "y", "C"],
    "interferometer": ["R", "C"], "hafnian_batched": ["A", "mu"], "grad_hermite_multidimensional": ["G", "R", "y", "C"],
    "low_rank_hafnian": ["G"], "perm": ["A"], "permanent_repeated": ["A"], "perm_ryser": ["M"], "perm_bbfg": ["M"],
    "brs": ["A", "E"], "ubrs": ["A"], "fock_prob": ["U"], "fock_threshold_prob": ["T"], "tor": ["A"], "ltor": ["A", "gamma"],
    "numba_tor": ["O"], "numba_ltor": ["O", "gamma"], "rec_torontonian": ["A"], "rec_ltorontonian": ["A", "gamma"],
    "mtl": ["A"], "lmtl": ["A", "zeta"], "charpoly": ["H"], "powertrace": ["H"], "takagi": ["A"],
    "loop_hafnian_batch": ["A", "D"], "loop_hafnian_batch_gamma": ["A", "D"], "expand_passive": ["T"],
    "expand_vector": ["alpha"], "passive_transformation": ["T"], "fock_tensor": ["alpha"], "Covmat": ["Q"],
    "real_to_complex_displacements": ["beta"], "get_heterodyne_fanout": ["alpha"], "number_means": ["T"],
    "number_cov": ["T"], "recursive_hafnian": ["A"], "expand": [], "sample": ["T"],
    "adj_scaling": ["A"], "adj_to_qmat": ["A"], "adj_scaling_torontonian": ["A"],
}


def check(prog):
    rs, missing = roots(prog)
    if len(missing) > 10:
        raise AnalysisError("public functions not found: " + ", ".join(missing))
    findings = {}
    stats = {"public_functions": 0, "configurations": 0, "stores_and_conversions": 0, "functions": 0}
    seen = set()
    unknown = set()
    for info, kinds in rs:
        stats["public_functions"] += 1
        cx = ["U"] if info.name == "interferometer" and "U" in kinds else COMPLEX.get(info.name, [])
        cfgs = configs(info, kinds, [p for p in cx if p in kinds])
        for cname, cfg in cfgs:
            dom = DtypeDomain()
            it = Interp(prog, dom)
            for b in initial(info, kinds, cfg):
                stats["configurations"] += 1
                it.invoke(info, dict(b), info.node)
            stats["stores_and_conversions"] += dom.stores
            seen |= it.analysed
            unknown |= set(dom.unknown)
            for k, (where, msg, path) in dom.losses.items():
                findings.setdefault(k, Finding(k, where, f"{msg} (in {info.full} with {cname})", path))
    stats["functions"] = len(seen)
    stats["external_functions_without_type_rule"] = sorted(unknown)
    return list(findings.values()), stats
