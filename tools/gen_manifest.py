"""Writes MANIFEST.json from the list of implemented checks."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": ("dimension (unit) abstract interpretation over the interprocedural syntax tree",
            "Sound for the modelled numpy operations up to values of unknown dimension, which raise no alarm; decides "
            "scaling with hbar, not constant factors."),
    "C02": ("interprocedural alias and effect analysis (which caller arrays a store can reach)",
            "Every store, in-place operator, in-place method and out= on a possible view of a caller's argument is reported; "
            "trusts the table of numpy functions that return views or copies."),
    "C03": ("element-type abstract interpretation, one run per assignment of input kinds",
            "Reports stores and conversions that certainly lose a fraction or an imaginary part; unknown types raise no alarm."),
    "C04": ("random-number effect analysis over the resolved call graph with seed typestate",
            "Trusts the table of numpy/scipy functions that draw or seed."),
    "C05": ("dependence analysis of numba.prange loop bodies (write-set disjointness between iterations)",
            "Decides cross-iteration dependences of arrays and scalars written in every prange body, including through callees."),
    "C06": ("abstract evaluation of argument guards over classes of invalid inputs, must-raise on all paths",
            "Alarm only if a normal return is certainly reachable for the invalid class; guards it cannot evaluate are counted."),
    "C07": ("option data-flow: value of each option tracked to the same-named options of callees",
            "Decides that options are used and forwarded unchanged, not that their effect is numerically right."),
    "C08": ("symbolic bounds analysis (polyhedral abstract interpretation of the compiled kernels over all array sizes)",
            "Every index is proven within its array by Fourier-Motzkin elimination, or reported when admissible sizes break the bound; "
            "the few accesses that are neither raise no alarm and are counted. Shapes of kernel arguments are those of sa/kernels.json."),
    "C09": ("typestate/data-flow analysis of samplers (accepted list, sentinel, mode permutation, normalised draws)",
            "Decides the protocol, not the sampled distribution."),
    "C10": ("element-type abstract interpretation (real/complex) of return values",
            "Complex-by-type results are reported; trusts numpy result-kind tables."),
    "C11": ("path-sensitive definite-assignment, None-ness and return analysis with name, attribute and signature resolution",
            "Branch conditions are correlated only when written alike (up to negation and naming); loops are assumed to run at least once; "
            "signatures of the libraries are those installed."),
    "C13": ("shared-state, cache-key and set-order data-flow lint over the resolved program",
            "Decides absence of inter-call state and hash-order dependence visible in the source."),
    "C15": ("value numbering (Herbrand equivalence) of serial and parallel paths",
            "Compares the worker calls and gathered results as uninterpreted terms."),
    "C16": ("index-set abstract interpretation (mode, quadrature, order provenance of index expressions)",
            "Decides provenance of index lists; unknown index expressions raise no alarm."),
    "C17": ("conjugation-parity abstract interpretation (holomorphic data flow)",
            "Reports conj/abs/real/imag on data that reaches the result; trusts the operation tables."),
}
NA = {
    "C20": "equality with a sum over matchings is an identity between runtime values over all sizes; no static abstraction in reach bounds it (its structural clauses are C05, C08, C17)",
    "C21": "equality with the defining sum is a numerical identity over all sizes; only structural clauses (C05, C08, C17) are static",
    "C22": "equality of recursive/direct torontonians with the alternating sum is a numerical identity over all sizes",
    "C23": "equality of the fast and reference montrealer is a numerical identity over all sizes",
    "C24": "entries of the Hermite tensor are runtime values of a recursion over all shapes; only bounds and types are static (C08, C03, C17)",
    "C25": "the distribution of samples is a statement about probabilities of runtime histories; only the protocol is static (C09, C04)",
    "C26": "reconstruction to rounding error is a numerical round trip through LAPACK calls whose values no static argument bounds",
    "C27": "matrix elements of gates and their derivatives are runtime numbers; the recursions' values are out of static reach",
    "C28": "S Omega S^T = Omega is an identity between trigonometric runtime values; deciding it means evaluating the code symbolically, which is another family",
    "C29": "moments and cumulants are numerical identities over all states; units and reality are decided in C01 and C10",
    "C30": "amplitudes and probabilities are numerical identities over all states; units, types and options are decided in C01, C03, C10, C07",
    "C31": "bounds and equality cases of fidelity/entropy are numerical facts about runtime eigenvalues",
    "C32": "the channel updates are numerical identities over all probability tensors",
    "C33": "the scaling is the root of a runtime equation found by an iterative solver",
}
checks = []
for l in open(os.path.join(here, "properties.jsonl")):
    pid = json.loads(l)["id"]
    if pid in NA:
        continue
    if not os.path.exists(os.path.join(here, "sa", "checks", pid.lower() + ".py")):
        NA[pid] = "check under construction"
        continue
    t, n = TECH[pid]
    checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {pid}",
                   "technique": "static analysis: " + t, "level": "other", "level_note": n})
m = {"version": 1, "setup_cmd": "python3 -B -c \"import ast, json; print('python', __import__('sys').version)\"",
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
     "notes": "Pure source analysis: no repository code is imported or run by any check. No hooks."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print([c["property"] for c in checks])
