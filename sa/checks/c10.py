"""Real results.  Every public function that documents a real quantity (a probability, photon number, moment, cumulant,
entropy, fidelity, distance, eigenvalue) is analysed with its documented argument types in the element-type domain; a
return value that is complex (or complex for some inputs, like the eigenvalues of a general matrix) on some path is a
violation, reported at the return statement."""
import ast

from ..api import roots
from ..dtypes import D, DtypeDomain, Interp, configs, initial
from ..interp import K, Lst, Tup, U
from ..loader import AnalysisError
from ..report import Finding

FLOORS = {"real_valued_functions": 32, "return_statements": 50, "returns_with_known_type": 41, "functions": 68}
ASSUMPTIONS = ["numpy result-kind table of sa/dtypes.py; real_if_close is taken to succeed",
               "return values of unknown kind raise no alarm and are counted"]

# functions documented to return real numbers, and their parameters that are complex
REAL = {
    "means_and_variances.photon_number_mean": (), "means_and_variances.photon_number_mean_vector": (),
    "means_and_variances.photon_number_covar": (), "means_and_variances.photon_number_covmat": (),
    "means_and_variances.photon_number_expectation": (), "means_and_variances.photon_number_squared_expectation": (),
    "means_and_variances.photon_number_moment": (), "means_and_variances.photon_number_cumulant": (),
    "means_and_variances.click_cumulant": (), "means_and_variances.mean_clicks": (),
    "means_and_variances.variance_clicks": (),
    "gaussian_checks.fidelity": (), "gaussian_checks.is_valid_cov": (), "gaussian_checks.is_pure_cov": (),
    "gaussian_checks.is_classical_cov": (), "gaussian_checks.is_symplectic": (),
    "entanglement.vonneumann_entropy": (), "entanglement.entanglement_entropy": (), "entanglement.log_negativity": (),
    "fock_tensors.probabilities": (), "fock_tensors.tvd_cutoff_bounds": (), "fock_tensors.n_body_marginals": (),
    "fock_tensors.update_probabilities_with_loss": (), "fock_tensors.update_probabilities_with_noise": (),
    "fock_tensors.loss_mat": (), "fock_tensors.find_classical_subsystem": (),
    "_torontonian.threshold_detection_prob": (), "_torontonian.numba_vac_prob": None,
    "_permanent.fock_prob": ("U",), "_permanent.fock_threshold_prob": ("T",),
    "photon_number_distributions.pure_state_distribution": (),
    "photon_number_distributions.total_photon_number_distribution": (),
    "conversions.reduced_gaussian": (), "conversions.Xmat": (), "conversions.Covmat": None,
    "symplectic.mean_photon_number": (), "symplectic.number_means": ("T",), "symplectic.number_cov": ("T",),
    "symplectic.symplectic_eigenvals": (), "symplectic.squeezing": (), "symplectic.two_mode_squeezing": (),
    "symplectic.interferometer": ("U",), "symplectic.passive_transformation": ("T",), "symplectic.loss": (),
    "symplectic.reduced_state": (), "symplectic.is_symplectic": (), "symplectic.beam_splitter": (),
    "symplectic.rotation": (), "symplectic.sympmat": (), "symplectic.vacuum_state": (), "symplectic.expand_vector": None,
    "symplectic.xxpp_to_xpxp": (), "symplectic.xpxp_to_xxpp": (), "symplectic.expand": (),
    "decompositions.williamson": (), "decompositions.symplectic_eigenvals": (), "decompositions.blochmessiah": (),
    "adjacency_matrices.mean_number_of_clicks_graph": (), "adjacency_matrices.find_scaling_adjacency_matrix": (),
    "adjacency_matrices.adj_scaling": (), "adjacency_matrices.adj_scaling_torontonian": (),
    "adjacency_matrices.find_scaling_adjacency_matrix_torontonian": (),
    "csamples.rescale_adjacency_matrix_thermal": (),
    "random.random_symplectic": (), "random.random_covariance": (), "random.randnc": None,
    "samples.photon_means_order": (), "samples.photon_number_sampler": None,
    "grouped_click_probabilities.grouped_click_probabilities": ("t_matrix",),
    "grouped_click_probabilities.grouped_click_probabilities_squeezed": ("t_matrix",),
}


def kinds_in(it, v, out):
    """(set of kinds, complete?) of a returned value"""
    if isinstance(v, (Tup, Lst)):
        its = v.items if v.items is not None else [v.elem] if v.elem is not None else []
        return all([kinds_in(it, x, out) for x in its])
    if isinstance(v, U):
        return all([kinds_in(it, x, out) for x in v.alts])
    if isinstance(v, K):
        if isinstance(v.v, complex):
            out.add("C")
        return True
    if isinstance(v, D):
        if v.p.k is None or v.p.dt:
            return v.p.dt
        out.update(v.p.k)
        return True
    return False


class Dom(DtypeDomain):
    def __init__(self, root):
        super().__init__()
        self.root = root
        self.rets = {}

    def on_return(self, frame, val, node):
        if frame.info.node is self.root.node and len(self.it.stack) == 1:
            s, ok = set(), True
            ok = kinds_in(self.it, val, s)
            old = self.rets.get(id(node))
            if old is not None:
                s |= old[1]
                ok = ok and old[2]
            self.rets[id(node)] = (node, s, ok)


def check(prog):
    rs, missing = roots(prog)
    if len(missing) > 10:
        raise AnalysisError("public functions not found: " + ", ".join(missing))
    findings = {}
    stats = {"real_valued_functions": 0, "return_statements": 0, "returns_with_known_type": 0, "functions": 0}
    seen = set()
    unknown = []
    for info, kinds in rs:
        cx = REAL.get(info.module.name.split(".")[-1] + "." + info.name)
        if cx is None:
            continue
        stats["real_valued_functions"] += 1
        cfgs = [("real arguments", {p: "F" for p in kinds})]
        if cx:
            cfgs.append(("complex " + ", ".join(cx), {p: ("C" if p in cx else "F") for p in kinds}))
        for cname, cfg in cfgs:
            dom = Dom(info)
            it = Interp(prog, dom)
            for b in initial(info, kinds, cfg):
                it.invoke(info, dict(b), info.node)
            seen |= it.analysed
            for n, (node, s, ok) in dom.rets.items():
                stats["return_statements"] += 1
                stats["returns_with_known_type"] += bool(ok and s)
                if not ok:
                    unknown.append(f"{info.full}: {ast.unparse(node)[:80] if not isinstance(node, ast.FunctionDef) else 'end'}")
                bad = s & {"C", "W"}
                if bad:
                    key = f"complex-result:{info.full}:{cname.split(' ')[0]}"
                    what = "a complex value" if "C" in bad else "a value that is complex for some inputs"
                    findings[key] = Finding(key, info.loc(node), f"{info.full} returns {what} with {cname}: "
                                            f"`{ast.unparse(node)[:120]}`", [])
    stats["functions"] = len(seen)
    stats["returns_of_unknown_type"] = sorted(set(unknown))
    return list(findings.values()), stats
