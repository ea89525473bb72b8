"""Holomorphic data flow.  Every implementation of the hafnian, loop hafnian, permanent, multidimensional Hermite
polynomials, batched hafnian, low-rank hafnian and of the characteristic polynomial they rest on is analysed with complex
matrix arguments in the conjugation-parity domain (independent, holomorphic, conjugated, neither).  A returned value that
is conjugated or not holomorphic on some path is a violation, reported at the operation (conj, abs, real, vdot, eigh, ...)
that destroyed holomorphy."""
from ..api import API, roots
from ..holo import HOL, IND, Ho, HoloDomain
from ..interp import D, Dct, Interp, K, Lst, NONE, TOP, Tup, U
from ..loader import AnalysisError
from ..report import Finding

FLOORS = {"polynomial_functions": 17, "return_statements": 20, "returns_holomorphic": 18, "operations": 800,
          "functions": 37}
ASSUMPTIONS = ["operation table of sa/holo.py; reduce_matrix_to_hessenberg is taken to be a similarity transformation",
               "complex inputs are taken to have non-zero imaginary parts, so branches guarded by a reality test of the input are not followed",
               "hafnian(approx=True) is documented for real non-negative matrices and is not analysed"]

ROOTS = """_hafnian.f _hafnian.f_loop _hafnian.f_loop_odd _hafnian.get_AX_S _hafnian.get_submatrices
_hafnian.get_submatrix_batch_odd0 _hafnian.get_Dsubmatrices _hafnian.eigvals _hafnian.loop_hafnian _hafnian.reduction
_hafnian.hafnian _hafnian.hafnian_sparse _hafnian.hafnian_repeated _hafnian.hafnian_banded _hafnian.recursive_hafnian
_hafnian.solve _permanent.perm _permanent.perm_ryser _permanent.perm_bbfg _permanent.permanent_repeated
_hermite_multidimensional.hermite_multidimensional _hermite_multidimensional.interferometer
_hermite_multidimensional.hafnian_batched _hermite_multidimensional.grad_hermite_multidimensional
_low_rank_haf.low_rank_hafnian loop_hafnian_batch.loop_hafnian_batch loop_hafnian_batch_gamma.loop_hafnian_batch_gamma
loop_hafnian_batch.add_batch_edges_even loop_hafnian_batch.add_batch_edges_odd
charpoly.charpoly charpoly.powertrace reference.hafnian""".split()
INDEX = {"rpt", "reps", "kept_edges", "edge_reps", "fixed_reps", "kept_edges0", "cutoff", "rows", "cols", "n_fixed", "max_reps",
         "fixed_edges", "batch_max", "n", "N_cutoff", "even_cutoff", "odd_cutoff"}
FIXED = {"approx": False}


class Dom(HoloDomain):
    def __init__(self, root):
        super().__init__()
        self.root = root
        self.rets = {}

    def on_return(self, frame, val, node):
        if frame.info.node is self.root.node and len(self.it.stack) == 1:
            self.rets.setdefault(id(node), (node, []))[1].append(val)


def leaves(v, it):
    if isinstance(v, (Tup, Lst)):
        its = v.items if v.items is not None else [v.elem] if v.elem is not None else []
        for x in its:
            yield from leaves(x, it)
    elif isinstance(v, Dct):
        for x in list((v.items or {}).values()) + ([v.val] if v.val is not None else []):
            yield from leaves(x, it)
    elif isinstance(v, U):
        for x in v.alts:
            yield from leaves(x, it)
    elif isinstance(v, D):
        yield v.p


def initial(info, kinds):
    alts = [{}]
    dfl = info.defaults()
    for p in info.params:
        k = kinds.get(p)
        d = dfl.get(p)
        if p in FIXED:
            vals = [K(FIXED[p])]
        elif k == "bool":
            vals = [K(True), K(False)]
        elif k in ("array", "complex") or k == "real" and p in ("oddloop",):
            vals = [D(IND if p in INDEX else HOL)]
            if d is not None and getattr(d, "value", 0) is None:
                vals.append(NONE)
        elif k == "list":
            vals = [Lst(None, D(HOL if p == "D" else IND), "list")]
            if d is not None and getattr(d, "value", 0) is None:
                vals.append(NONE)
        elif k in ("int", "real", "dtype", "str"):
            vals = [D(IND)]
        elif d is not None:
            continue
        else:
            vals = [D(IND)]
        alts = [dict(b, **{p: v}) for b in alts for v in vals]
    return alts


def check(prog):
    rs, missing = roots(prog)
    want = set(ROOTS)
    # also the compiled workers of these modules that take a complex array
    byname = {}
    for dotted, kinds in API.items():
        byname[dotted] = kinds
    findings = {}
    st = {"polynomial_functions": 0, "return_statements": 0, "returns_holomorphic": 0, "returns_independent": 0, "operations": 0,
          "functions": 0, "operations_that_conjugate_or_project": 0}
    seen = set()
    destroyed = {}
    todo = [(i, k) for (i, k) in rs if f"{'.'.join(i.module.name.split('.')[1:])}.{i.name}" in want]
    for info, kinds in todo:
        st["polynomial_functions"] += 1
        dom = Dom(info)
        it = Interp(prog, dom)
        for b in initial(info, kinds):
            it.memo.clear()
            it.invoke(info, b, info.node)
        st["operations"] += dom.ops
        seen |= it.analysed
        destroyed.update(dom.destroyed)
        for node, vals in dom.rets.values():
            st["return_statements"] += 1
            states = set()
            for v in vals:
                for p in leaves(v, it):
                    states.add(p.s)
                    if p.s in ("A", "X"):
                        w = p.why
                        where, msg, path = (w[1], w[2], list(w[3])) if w else (info.loc(node), "?", [])
                        key = f"not-holomorphic:{w[0] if w else info.full}"
                        findings.setdefault(key, Finding(key, where, f"{info.full} returns a value that is not a polynomial in the "
                                                         f"matrix entries ({msg})", path))
            if "H" in states and not states & {"A", "X"}:
                st["returns_holomorphic"] += 1
            elif not states & {"A", "X", "H"}:
                st["returns_independent"] += 1
    st["functions"] = len(seen)
    st["functions_analysed"] = sorted(seen)
    st["operations_that_conjugate_or_project"] = len(destroyed)
    st["non_reaching_uses"] = sorted(k for k in destroyed)
    st["functions_not_found"] = missing
    if st["polynomial_functions"] < 20:
        raise AnalysisError("the polynomial functions were not found")
    return list(findings.values()), st
