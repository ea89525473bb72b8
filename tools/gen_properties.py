"""Writes properties.jsonl (the statements live here so that they can be edited comfortably)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state or []],
                    "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                    "observe_at": obs or [], "hook_needed": None}})


S, Q, H, L, D_, F = ("thewalrus/samples.py", "thewalrus/quantum/", "thewalrus/_hafnian.py", "thewalrus/symplectic.py",
                     "thewalrus/decompositions.py", "thewalrus/fock_gradients.py")
QF = Q + "fock_tensors.py"
QG = Q + "gaussian_checks.py"
QM = Q + "means_and_variances.py"
QC = Q + "conversions.py"
HM = "thewalrus/_hermite_multidimensional.py"
T = "thewalrus/_torontonian.py"
PE = "thewalrus/_permanent.py"
CP = "thewalrus/charpoly.py"

p("C01", "The value of hbar is only a choice of units",
  "Every public function that takes hbar gives the same physical answer whatever unit the caller chose: multiplying all "
  "means by sqrt(c) and all covariance matrices and hbar by c leaves probabilities, amplitudes, photon numbers, clicks, "
  "samples, entropies, fidelities and yes/no answers unchanged, and scales returned means by sqrt(c) and returned "
  "covariance matrices by c. In particular the caller's hbar reaches every step of the computation that depends on it.",
  ["inputs", "configurations"], "every state (means, covariance), every hbar > 0, every combination of the other options",
  "The tests run almost everything at the default hbar=2, where a dropped, doubled or mis-scaled hbar is invisible; "
  "no finite set of states and units settles it.",
  [S, L, QC, QF, QM, QG, Q + "entanglement.py", Q + "photon_number_distributions.py", T, "thewalrus/random.py"],
  [("Qmat/Amat/real_to_complex_displacements convert to dimensionless quantities", QC),
   ("each function passes its hbar to the next", "every function with an hbar parameter")],
  [("cov, mu", "carry dimension hbar and sqrt(hbar)", "parameters")], ["return values of all functions with hbar"])

p("C02", "Functions never modify the arguments they are given",
  "Calling a public function leaves every array, list and dictionary the caller passed (or a view of it) exactly as it "
  "was, on every path, including error paths and repeated calls; no public function writes its result into an input. "
  "The only exceptions are the two Householder building blocks of the characteristic-polynomial code, which are "
  "documented as working in place.",
  ["inputs", "histories"], "every public function, every argument, every aliasing between arguments and views of them",
  "A test sees the mutation only when it looks at its input again after the call; almost none does, and whether a "
  "view or a copy is made depends on dtype and layout of the particular input.",
  ["thewalrus/*.py", "thewalrus/quantum/*.py"],
  [("copies before in-place work (.copy(), np.copy, arithmetic that allocates)", "e.g. thewalrus/_hafnian.py hafnian")],
  [("caller arrays", "owned by the caller", "parameters")], ["arguments after return"])

p("C03", "Results do not depend on the numeric type holding the input",
  "Giving the same numbers as integers, floats or complex numbers gives the same result: no function stores a "
  "fractional or complex intermediate into an array (or conversion) whose element type was taken from an integer or "
  "real input and so truncates it or loses its imaginary part.",
  ["inputs"], "every public function, every assignment of integer/real/complex type to each numeric argument",
  "Tests feed mostly float or complex arrays; each (function, argument, type) combination is a separate case and the "
  "loss is silent.",
  ["thewalrus/*.py", "thewalrus/quantum/*.py"],
  [("result buffers are allocated with an explicit or promoted element type", "all array allocations")],
  [("element type of buffers", "must be able to hold every value stored", "np.zeros/zeros_like/astype sites")],
  ["return values"])

p("C04", "Randomness comes only from numpy's global generator, and only where documented",
  "Calculations (everything except the samplers, the random-matrix generators and the explicitly randomised hafnian "
  "approximation) draw no random numbers and never reseed; every sampler draws only from numpy's global generator, so "
  "the library's seed function makes all later draws reproducible; and only the seed function and the grouped-click "
  "functions (which take an explicit seed argument and use exactly that seed before drawing) ever seed it.",
  ["histories", "configurations", "programs"], "every call graph path of every public function, every option setting, every sequence of calls",
  "A draw from another generator, or a stray draw/reseed on one branch, changes no single-call result a test can "
  "recognise; it shows only as lost reproducibility across particular histories.",
  [S, "thewalrus/csamples.py", "thewalrus/random.py", "thewalrus/grouped_click_probabilities.py",
   Q + "distinguishable_squeezers.py", H],
  [("all draws go through np.random.* / scipy rvs without a private generator", S), ("seed() calls np.random.seed", S)],
  [("numpy global RNG state", "only source of randomness", "process")], ["random draws", "RNG state"])

p("C05", "Parallel kernels are race-free",
  "In every loop the library runs in parallel threads, no two iterations write the same memory location and no "
  "iteration reads what another one writes, except through a recognised sum reduction; so the result does not depend "
  "on the number of threads or their scheduling.",
  ["schedules"], "every thread count and interleaving of the parallel loops, every input size",
  "Races show only under particular schedules and sizes; tests run few sizes and one schedule.",
  [H, "thewalrus/loop_hafnian_batch.py", "thewalrus/loop_hafnian_batch_gamma.py", PE, T],
  [("iteration-private temporaries, per-iteration output slots and += reductions", "every numba.prange loop")],
  [("accumulators", "shared between iterations only as reductions", "prange bodies")], ["results of parallel kernels"])

p("C06", "Invalid arguments are rejected, not computed with",
  "Where a function documents a restriction on an argument and checks it (wrong type, non-square or asymmetric matrix, "
  "mismatched sizes, NaN entries, negative or out-of-range numbers, unknown option, non-classical or invalid state), "
  "every path with such an argument raises the error before a result is returned; no option combination skips the check.",
  ["inputs", "configurations"], "every guarded argument of every public function, all values of the other options",
  "Tests try one bad value per check under the default options; a check skipped or weakened under another option or for "
  "another bad value goes unseen and yields a plausible number.",
  [H, PE, T, HM, S, D_, QF, QG, QM, Q + "entanglement.py", L, PE],
  [("explicit raise/assert guards at the top of each public function", "all public functions"),
   ("input_validation", H)], None, ["exceptions vs return values"])

p("C07", "Options given by the caller take effect all the way down",
  "A tolerance, cutoff, method, loop, normalisation, sampling-limit or similar option accepted by a public function is "
  "used: it influences the result or is passed on, and where a callee takes the same option, the caller's value (not a "
  "default or a constant) is what reaches it, on every path that calls it.",
  ["configurations", "programs"], "every optional parameter of every public function, every call path below it",
  "Tests leave most options at the default, where a dropped option is indistinguishable from an honoured one.",
  ["thewalrus/*.py", "thewalrus/quantum/*.py"],
  [("keyword forwarding in wrappers", "public functions calling public functions")], None, ["effect of options"])

p("C08", "Compiled kernels never index outside their arrays",
  "Every array access in a compiled (bounds-check-free) kernel stays inside the array for every size the public "
  "functions can pass, including empty and one-element matrices and cutoff one.",
  ["inputs"], "every compiled kernel, every array access, all sizes including the smallest",
  "Out-of-bounds accesses in compiled code do not raise: they read or write neighbouring memory, so tests pass.",
  [H, CP, HM, PE, T, "thewalrus/_montrealer.py", F, "thewalrus/loop_hafnian_batch.py",
   "thewalrus/loop_hafnian_batch_gamma.py", QF],
  [("loop limits tied to the allocated sizes", "numba.jit functions")],
  [("buffers", "allocated with the size that bounds the loop", "numba.jit functions")], ["memory safety of kernels"])

p("C09", "Samplers return well-formed samples",
  "Every state or graph sampler returns exactly the requested number of samples; a shot that was abandoned (photon or "
  "click limit exceeded, or a threshold/number cutoff hit) never appears in the returned samples and never counts "
  "towards the requested number; each returned shot lists the modes in the order of the input state, and each "
  "conditional draw uses a normalised probability vector.",
  ["inputs", "histories"], "every state, every number of samples, every sequence of random outcomes (accepted and abandoned shots)",
  "Abandoned shots are rare events at the tested parameters; tests check shapes and rough frequencies, not each history.",
  [S, "thewalrus/csamples.py"],
  [("rejection sentinel and retry loop", S + " generate_*_sample and *_sample"), ("probs normalised before choice", S)],
  [("list of accepted samples", "grows only by accepted shots", S)], ["returned samples"])

p("C10", "Probabilities, photon numbers and other real quantities are returned real",
  "Functions that return a probability, photon number, click number, (co)variance, fidelity, entropy or other quantity "
  "that is real by definition return real numbers (no complex type, no stray imaginary part), for every state, "
  "displaced or not, and every option.",
  ["inputs", "configurations"], "every such public function, all branches (with/without displacement, each option)",
  "Comparisons with np.allclose accept complex results with zero imaginary part, so the tests cannot see it.",
  [QM, QG, QF, Q + "entanglement.py", T, PE, Q + "photon_number_distributions.py", L],
  [("np.real / .real / real_if_close at the end of complex computations", "listed functions")], None, ["type of return values"])

p("C11", "Every path is well formed",
  "No path through the package ends in an internal error or without its result: whatever branches are taken, every variable is "
  "bound before it is read, every name, attribute and callee exists and is called with arguments it accepts, an optional "
  "argument or intermediate left at None is never used as if it were a value, and a function that returns a result returns "
  "one on every path, with the number of parts its callers unpack.",
  ["inputs", "configurations"], "every function of the package, every combination of branch outcomes (loops run at least once)",
  "Python reports such errors only when the path is executed, and the tests execute a few of the combinations of options, sizes "
  "and special cases.",
  ["thewalrus/*.py", "thewalrus/quantum/*.py"],
  [("branches on options and special cases that bind different variables", QF + " pure_state_amplitude, state_vector; " + H + " hafnian"),
   ("optional arguments replaced by defaults", S + ", " + H + " loop_hafnian")],
  None, ["exceptions raised and values returned by every public function"])

p("C13", "A result depends only on the arguments, not on earlier calls or hash order",
  "No public function's result depends on what was called before it or on the iteration order of a set: there is no "
  "mutable state shared between calls other than caches whose key includes everything the cached value depends on, "
  "and cached objects are never modified or handed out in a modifiable form that is later changed; sets are never "
  "iterated or converted to a sequence where order affects the result.",
  ["histories", "inputs"], "every sequence of calls, every hash seed and set layout",
  "Each test is one short history, and small-integer sets happen to iterate in order.",
  ["thewalrus/*.py", "thewalrus/quantum/*.py"],
  [("memoized / lru_cache keys", "thewalrus/reference.py, thewalrus/_low_rank_haf.py, thewalrus/_hafnian.py"),
   ("sorted() around sets", QF)],
  [("module globals", "constants after import", "all modules"), ("default arguments", "never mutated", "all functions")],
  ["return values over histories"])

p("C15", "The parallel option changes only the schedule",
  "For every function with a parallel option, parallel execution performs the same worker calls on the same inputs as "
  "serial execution and assembles their results in the same order, so both return the same result (for samplers: the "
  "same number of samples from the same distribution).",
  ["schedules", "configurations"], "every function with a parallel option, every input and option setting, every task order",
  "Tests compare the two modes on a few inputs with default options; a worker argument that differs between the two "
  "modes or results gathered in completion order show only for other options or schedules.",
  [QF, S],
  [("one argument list per task, dask.compute preserves order", QF + " probabilities, " + S + " *_sample_state")],
  None, ["return values with parallel=True/False"])

p("C16", "Mode selections keep the caller's order and address the right quadratures",
  "Functions that select or insert modes (reduced state, embedding of a gate or displacement on chosen modes, "
  "marginals, expectation values on chosen modes) use, for each selected mode, exactly its own position and momentum "
  "rows and columns, in the order the caller listed the modes.",
  ["inputs"], "every list of modes, every number of modes",
  "Tests use few modes and mostly sorted selections; wrong pairing or ordering shows only for particular selections.",
  [QC, L, QM], [("index lists built as modes followed by modes + N", QC + " reduced_gaussian, " + L + " expand")],
  None, ["returned means and covariances"])

p("C17", "Matrix polynomials never conjugate complex entries on the way to the result",
  "The hafnian, loop hafnian, permanent, multidimensional Hermite polynomials and batched hafnian are polynomials in the matrix entries: conjugating every entry of the input "
  "conjugates the result, and no implementation takes a complex conjugate, modulus, real or imaginary part of data "
  "that reaches the result.",
  ["inputs"], "every implementation, every complex matrix, every option",
  "Most tests use real matrices, for which a stray conjugate is invisible; for complex ones only some paths are compared.",
  [H, PE, HM, "thewalrus/_low_rank_haf.py", "thewalrus/reference.py", "thewalrus/loop_hafnian_batch.py",
   "thewalrus/loop_hafnian_batch_gamma.py"],
  [("transposes without conjugation, dot products without vdot", "all kernels")], None, ["return values"])

NA = [
 ("C20", "The hafnian and loop hafnian equal the sum over perfect matchings",
  "For every symmetric matrix, repetition pattern, loop setting and method, the returned value equals the sum over (loop) perfect matchings of the products of entries, up to rounding.",
  [H, "thewalrus/_low_rank_haf.py"], "hafnian, hafnian_repeated, hafnian_sparse, hafnian_banded, low_rank_hafnian"),
 ("C21", "The permanent and the Bristolian equal their definitions",
  "Permanents (all methods, with repetitions), Bristolians and unitary Bristolians equal the defining sums for every matrix.",
  [PE], "perm, permanent_repeated, brs, ubrs"),
 ("C22", "The torontonian and loop torontonian equal their definitions",
  "Recursive and direct (loop) torontonians equal the alternating sum of inverse square-root determinants for every valid matrix.",
  [T], "tor, ltor and kernels"),
 ("C23", "The montrealer and loop montrealer equal the reference sums",
  "The fast (loop) montrealer equals the sum over its perfect matchings/alternating walks for every matrix.",
  ["thewalrus/_montrealer.py"], "mtl, lmtl"),
 ("C24", "Hermite polynomials and batched hafnians satisfy their recursion",
  "Every entry of the returned tensor equals the multidimensional Hermite polynomial (or its renormalised form) of the inputs.",
  [HM], "hermite_multidimensional, hafnian_batched, interferometer"),
 ("C25", "Sampled outcomes follow the exact distribution",
  "The distribution of samples equals the photon-number or click distribution of the state, conditional on the documented truncation.",
  [S, "thewalrus/csamples.py"], "samplers"),
 ("C26", "Decompositions reconstruct their input with factors of the right class",
  "Williamson, Bloch-Messiah, Takagi and Iwasawa factors multiply back to the input and are symplectic, orthogonal, unitary, diagonal or triangular as documented.",
  [D_], "williamson, blochmessiah, takagi, pre_iwasawa, iwasawa"),
 ("C27", "Fock-space gate tensors and gradients equal the exact matrix elements",
  "Displacement, squeezing, two-mode squeezing, beamsplitter and Mach-Zehnder tensors equal the operators' matrix elements and the gradients their derivatives.",
  [F], "fock_gradients"),
 ("C28", "Symplectic gates preserve the symplectic form",
  "Every gate matrix returned satisfies S Omega S^T = Omega and is the gate it is named after.", [L], "squeezing, beam_splitter, rotation, two_mode_squeezing, interferometer"),
 ("C29", "Photon statistics equal the moments of the state",
  "Means, covariances, cumulants, moments, click means and variances equal those of the photon-number or click distribution of the Gaussian state.", [QM], "means_and_variances"),
 ("C30", "State vectors, density matrices and probabilities are those of the state",
  "Fock-basis amplitudes, density-matrix elements and probabilities equal those of the Gaussian state, and sum to at most one.", [QF], "fock_tensors"),
 ("C31", "Fidelity, entropy and negativity equal their definitions",
  "Fidelity is symmetric, between zero and one, and one exactly for equal states; entropies and negativities equal their defining formulas.", [QG, Q + "entanglement.py"], "fidelity, vonneumann_entropy, log_negativity"),
 ("C32", "Loss and noise updates of probabilities are the exact channels",
  "Updated probabilities equal those of the state after loss or after convolution with the noise distributions.", [QF], "update_probabilities_with_loss, update_probabilities_with_noise"),
 ("C33", "Scaled adjacency matrices give exactly the requested mean photon number",
  "The scaling factor found makes the encoded state's mean photon or click number equal the requested one.", [Q + "adjacency_matrices.py", "thewalrus/csamples.py"], "adj_scaling, rescale_adjacency_matrix"),
]
for id, title, st, files, mech in NA:
    p(id, title, st, ["inputs"], "every admissible input", "Numerical identity over an infinite input set; tests sample it.",
      files, [("implementation", mech)], None, ["return values"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
