From f08bdeedc913be7999e5dcb074d897270de9a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 01/32] fix: use the caller's hbar in the hafnian and
 torontonian samplers

The heterodyne noise covariance and the A matrix were computed with hbar=2
whatever hbar was requested, so samples followed the wrong distribution.
---
 thewalrus/samples.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index ea87ca9..c894fbb 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -234,8 +234,8 @@ def generate_hafnian_sample(cov, mean=None, hbar=2, cutoff=12, max_photons=8):
     cov = cov[np.ix_(oo, oo)]
 
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M]
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M]
     det_outcomes = np.arange(cutoff + 1)
     det_pattern = np.zeros(M, dtype=int)
     pure_mu = mu + sqrtW @ np.random.normal(size=2 * M)
@@ -434,8 +434,8 @@ def generate_torontonian_sample(cov, mu=None, hbar=2, max_photons=30, fanout=10,
     mu = mu[oo]
     cov = cov[np.ix_(oo, oo)]
     T, sqrtW = decompose_cov(cov, hbar=hbar)
-    chol_T_I = np.linalg.cholesky(T + np.eye(2 * M))
-    B = Amat(T)[:M, :M] / fanout
+    chol_T_I = np.linalg.cholesky(T + hbar / 2 * np.eye(2 * M))
+    B = Amat(T, hbar=hbar)[:M, :M] / fanout
 
     det_outcomes = np.arange(cutoff + 1)
 
-- 
2.43.0


From dfe33b0850ca956145154430904e410128af0bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 02/32] fix: test purity with the caller's hbar in
 pure_state_distribution

The purity check used hbar=2 whatever hbar was requested, so pure states in
any other convention were rejected.
---
 thewalrus/quantum/photon_number_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/photon_number_distributions.py b/thewalrus/quantum/photon_number_distributions.py
index a6f3527..e3ad3da 100644
--- a/thewalrus/quantum/photon_number_distributions.py
+++ b/thewalrus/quantum/photon_number_distributions.py
@@ -37,7 +37,7 @@ def pure_state_distribution(cov, cutoff=50, hbar=2, padding_factor=2):
     Returns:
         (array): Total photon number distribution
     """
-    if is_pure_cov(cov):
+    if is_pure_cov(cov, hbar=hbar):
         A = Amat(cov, hbar=hbar)
         (n, _) = A.shape
         N = n // 2
-- 
2.43.0


From 9156102fe69982b5a46b2db1cd5ed9f8bcc70221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:17 +0000
Subject: [PATCH 03/32] fix: do not overwrite the matrix passed to charpoly and
 powertrace

charpoly reduced its argument to Hessenberg form in place, which destroyed the
caller's matrix (also through powertrace when more traces than the size of the
matrix are requested).
---
 thewalrus/charpoly.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index dd32cd9..342c6d0 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -293,8 +293,9 @@ def charpoly(H):  # pragma: no cover
         (array): list of power traces from ``0`` to ``n-1``
     """
     n = len(H)
-    reduce_matrix_to_hessenberg(H)
-    coeff = _charpoly(H, n)
+    hessenberg = H.copy()  # the reduction is done in place
+    reduce_matrix_to_hessenberg(hessenberg)
+    coeff = _charpoly(hessenberg, n)
     return coeff
 
 
-- 
2.43.0


From 778f15084ef867aad6cb59be2169c9388882ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:18 +0000
Subject: [PATCH 04/32] fix: stay inside the arrays in the characteristic
 polynomial of 0x0 and 1x1 matrices

The first coefficients were read and written unconditionally, outside the
matrix when it has fewer than two rows.
---
 thewalrus/charpoly.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/thewalrus/charpoly.py b/thewalrus/charpoly.py
index 342c6d0..a22c7f9 100644
--- a/thewalrus/charpoly.py
+++ b/thewalrus/charpoly.py
@@ -212,9 +212,11 @@ def _charpoly(H, k):  # pragma: no cover
     """
     n = len(H)
     c = np.zeros_like(H)
-    c[mlo(1, 1)] = -alpha(H, 1)
-    c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
-    c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
+    if n > 0:
+        c[mlo(1, 1)] = -alpha(H, 1)
+    if n > 1:
+        c[mlo(2, 1)] = c[mlo(1, 1)] - alpha(H, 2)
+        c[mlo(2, 2)] = alpha(H, 1) * alpha(H, 2) - hij(H, 1, 2) * beta(H, 2)
 
     for i in range(3, k + 1):
         c[mlo(i, 1)] = c[mlo(i - 1, 1)] - alpha(H, i)
-- 
2.43.0


From 714fe5c5a176a721e5e5124269e1ff889a719d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 05/32] fix: size the table of square roots of the renormalized
 Hermite kernels by the cutoff

The compiled kernels looked square roots up in a table of fixed length 1000
without a bounds check, and read past its end for cutoffs above 1000.
---
 thewalrus/_hermite_multidimensional.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 2454140..4005f3b 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -244,9 +244,6 @@ def remove(
             yield p, dec(pattern, p)
 
 
-SQRT = np.sqrt(np.arange(1000))  # saving the time to recompute square roots
-
-
 @jit(nopython=True)
 def _hermite_multidimensional_renorm(R, y, G):  # pragma: no cover
     r"""Numba-compiled function to fill an array with the Hermite polynomials. It expects an array
@@ -260,6 +257,7 @@ def _hermite_multidimensional_renorm(R, y, G):  # pragma: no cover
     Returns:
         array[complex]: the multidimensional Hermite polynomials
     """
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
@@ -318,6 +316,7 @@ def _interferometer_renorm(R, G):  # pragma: no cover
     dim, _ = R.shape
     num_modes = dim / 2
 
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
@@ -433,6 +432,7 @@ def _grad_hermite_multidimensional_renorm(R, y, G, dG_dR, dG_dy):  # pragma: no
     Returns:
         dG_dR[complex], dG_dy[complex]: the gradients of the renormalized multidimensional Hermite polynomials with respect to R and y
     """
+    SQRT = np.sqrt(np.arange(max(G.shape)))  # saving the time to recompute square roots
     indices = np.ndindex(G.shape)
     next(indices)  # skip the first index (0,...,0)
     for idx in indices:
-- 
2.43.0


From 22016a66bdc2772a15003ea44906828e4cb96e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 06/32] fix: do not read outside the gate in grad_squeezing
 with a cutoff of one

The recurrence steps back by two rows or columns, which wrapped around for the
first ones but fell outside a 1x1 gate.
---
 thewalrus/fock_gradients.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/thewalrus/fock_gradients.py b/thewalrus/fock_gradients.py
index b4a3857..555c088 100644
--- a/thewalrus/fock_gradients.py
+++ b/thewalrus/fock_gradients.py
@@ -166,17 +166,18 @@ def grad_squeezing(T, r, phi):  # pragma: no cover
     eiphi = np.exp(1j * phi)
     eiphiconj = np.exp(-1j * phi)
 
+    # the terms that wrap around have a zero prefactor
     for m in range(cutoff):
         for n in range(cutoff):
             grad_r[m, n] = (
                 -0.5 * tanhr * T[m, n]
                 - sechr * tanhr * sqrt[m] * sqrt[n] * T[m - 1, n - 1]
-                - 0.5 * eiphi * sechr**2 * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                + 0.5 * eiphiconj * sechr**2 * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                - 0.5 * eiphi * sechr**2 * sqrt[m] * sqrt[m - 1] * T[(m - 2) % cutoff, n]
+                + 0.5 * eiphiconj * sechr**2 * sqrt[n] * sqrt[n - 1] * T[m, (n - 2) % cutoff]
             )
             grad_phi[m, n] = (
-                -0.5j * eiphi * tanhr * sqrt[m] * sqrt[m - 1] * T[m - 2, n]
-                - 0.5j * eiphiconj * tanhr * sqrt[n] * sqrt[n - 1] * T[m, n - 2]
+                -0.5j * eiphi * tanhr * sqrt[m] * sqrt[m - 1] * T[(m - 2) % cutoff, n]
+                - 0.5j * eiphiconj * tanhr * sqrt[n] * sqrt[n - 1] * T[m, (n - 2) % cutoff]
             )
 
     return grad_r, grad_phi
-- 
2.43.0


From af97aede05e550d59288b1ada464bfceb16eefaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:01 +0000
Subject: [PATCH 07/32] fix: honour rtol and atol in hafnian_batched and
 hermite_multidimensional

The symmetry check was repeated with the default tolerances on the way down,
so matrices accepted with the requested tolerances were then rejected.
---
 thewalrus/_hermite_multidimensional.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 4005f3b..9ce886c 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -74,7 +74,15 @@ def hermite_multidimensional(
         if m == n:
             ym = R @ y
             return hermite_multidimensional(
-                R, cutoff, y=ym, C=C, renorm=renorm, make_tensor=make_tensor, modified=True
+                R,
+                cutoff,
+                y=ym,
+                C=C,
+                renorm=renorm,
+                make_tensor=make_tensor,
+                modified=True,
+                rtol=rtol,
+                atol=atol,
             )
 
     if y is None:
@@ -212,7 +220,14 @@ def hafnian_batched(A, cutoff, mu=None, rtol=1e-05, atol=1e-08, renorm=False, ma
     # The minus signs are intentional and are due to the fact that
     # Dodonov et al. in PRA 50, 813 (1994) use (p,q) ordering instead of (q,p) ordering
     return hermite_multidimensional(
-        -A, cutoff, y=mu, renorm=renorm, make_tensor=make_tensor, modified=True
+        -A,
+        cutoff,
+        y=mu,
+        renorm=renorm,
+        make_tensor=make_tensor,
+        modified=True,
+        rtol=rtol,
+        atol=atol,
     )
 
 
-- 
2.43.0


From 372653edcb368ffbcbf8e8ad6abfa99e4ccaaac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 08/32] fix: do not truncate normalized Hermite polynomials of
 integer matrices

With an integer matrix and vector the table was allocated as integers, and every
normalized value was silently rounded towards zero.
---
 thewalrus/_hermite_multidimensional.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 9ce886c..974c0ac 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -105,6 +105,9 @@ def hermite_multidimensional(
     yt = np.real_if_close(y)
 
     dtype = np.result_type(Rt, yt, C)
+    if renorm:
+        # the normalized polynomials are not integers
+        dtype = np.result_type(dtype, np.float32)
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
@@ -162,6 +165,9 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     Rt = np.real_if_close(R)
 
     dtype = np.result_type(Rt, C)
+    if renorm:
+        # the normalized polynomials are not integers
+        dtype = np.result_type(dtype, np.float32)
     array = np.zeros(cutoffs, dtype=dtype)
     array[(0,) * num_indices] = C
 
-- 
2.43.0


From 6972c72213a3df8695b725de9ac1aff0ccc2c641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 09/32] fix: do not truncate the displacement of an integer
 amplitude in expand_vector

The vector took the integer type of the amplitude, so sqrt(2*hbar)*alpha was
silently rounded towards zero.
---
 thewalrus/symplectic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 93d1414..611abf3 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -126,7 +126,7 @@ def expand_vector(alpha, mode, N, hbar=2.0):
     Returns:
         array: phase-space displacement vector of size 2*N
     """
-    alpharealdtype = np.dtype(type(alpha))
+    alpharealdtype = np.result_type(type(alpha), np.float32)
 
     r = np.zeros(2 * N, dtype=alpharealdtype)
     r[mode] = np.sqrt(2 * hbar) * alpha.real
-- 
2.43.0


From 8ba68fe6717abeabc72add7e42529c9bd35b37dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 10/32] fix: return real threshold detection probabilities
 without displacement

The probability of states without displacement was returned as a complex number,
unlike the one of displaced states.
---
 thewalrus/_torontonian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_torontonian.py b/thewalrus/_torontonian.py
index 1679a51..5261b1b 100644
--- a/thewalrus/_torontonian.py
+++ b/thewalrus/_torontonian.py
@@ -103,7 +103,7 @@ def threshold_detection_prob(
         O = np.eye(2 * n) - np.linalg.inv(Q)
         rpt2 = np.concatenate((det_pattern, det_pattern))
         Os = reduction(O, rpt2)
-        return tor(Os) / np.sqrt(np.linalg.det(Q))
+        return (tor(Os) / np.sqrt(np.linalg.det(Q))).real
 
     x = mu[:n]
     p = mu[n:]
-- 
2.43.0


From ff9e3d2c6b3cc72ba0f5e9f045f96f8a62011228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 11/32] fix: return a real fidelity

The matrix square root can be complex for nearly pure states, and the fidelity
was then returned as a complex number.
---
 thewalrus/quantum/gaussian_checks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index 5f7b75a..d18288a 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -156,7 +156,8 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     # Note that we only take the square root and that we have a prefactor of 0.5
     # as opposed to 0.25 in Brask. This is because this function returns the square
     # of their fidelities.
-    return f
+    # The matrix square root may introduce a spurious imaginary part.
+    return np.real(f)
 
 
 def is_symplectic(S, rtol=1e-05, atol=1e-08):
-- 
2.43.0


From 7e566016623998e8a347c93428bafc3bf8483ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 12/32] fix: return real photon number expectation values

The expectation values of products of photon numbers and of their squares are
real, but were returned as complex numbers.
---
 thewalrus/quantum/means_and_variances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/quantum/means_and_variances.py b/thewalrus/quantum/means_and_variances.py
index 8fc82f1..ed83a9d 100644
--- a/thewalrus/quantum/means_and_variances.py
+++ b/thewalrus/quantum/means_and_variances.py
@@ -165,7 +165,7 @@ def photon_number_expectation(mu, cov, modes, hbar=2):
         rpt[i] = 1
         rpt[i + n_modes] = 1
 
-    return normal_ordered_expectation(mu, cov, rpt, hbar=hbar)
+    return np.real(normal_ordered_expectation(mu, cov, rpt, hbar=hbar))
 
 
 def photon_number_squared_expectation(mu, cov, modes, hbar=2):
@@ -189,7 +189,7 @@ def photon_number_squared_expectation(mu, cov, modes, hbar=2):
         rpt = item + item
         term = normal_ordered_expectation(mu_red, cov_red, rpt, hbar=hbar)
         result += term
-    return result
+    return np.real(result)
 
 
 def normal_ordered_expectation(mu, cov, rpt, hbar=2):
-- 
2.43.0


From 444775d34a49edbd2493621f49e4b4f88e3014d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 13/32] fix: honour make_tensor=False in the Hermite
 interferometer function

The tensor was returned unflattened whatever make_tensor was.
---
 thewalrus/_hermite_multidimensional.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 974c0ac..1256ba2 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -152,7 +152,7 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     """
 
     input_validation(R, atol=atol, rtol=rtol)
-    n, num_indices = R.shape
+    _, num_indices = R.shape
 
     # we want to catch np.ndarray(int) of ndim=0 which cannot be cast to tuple
     if isinstance(cutoff, np.ndarray) and (cutoff.ndim == 0 or len(cutoff) == 1):
@@ -176,9 +176,8 @@ def interferometer(R, cutoff, C=1, renorm=True, make_tensor=True, rtol=1e-05, at
     else:
         values = np.array(_interferometer(Rt, array))
 
-    if make_tensor:
-        shape = cutoff * np.ones([n], dtype=int)
-        values = np.reshape(values, shape)
+    if not make_tensor:
+        values = values.flatten()
 
     return values
 
-- 
2.43.0


From 465db43dac679345e645f5ce58d1f8640d5e856b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 14/32] fix: return the modes in the requested order in
 reduced_gaussian

When as many modes as the state has were requested, the state was returned
unchanged, even if the modes were requested in another order.
---
 thewalrus/quantum/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/conversions.py b/thewalrus/quantum/conversions.py
index e979cd2..5e0f59e 100644
--- a/thewalrus/quantum/conversions.py
+++ b/thewalrus/quantum/conversions.py
@@ -41,7 +41,7 @@ def reduced_gaussian(mu, cov, modes):
     if np.any(np.array(modes) > N):
         raise ValueError("Provided mode is larger than the number of subsystems.")
 
-    if len(modes) == N:
+    if np.array_equal(modes, np.arange(N)):
         # reduced state is full state
         return mu, cov
 
-- 
2.43.0


From da6f52aeb3a17c6e5eca0c30b76b772713abcdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 15/32] fix: check the size of both vectors of means in
 fidelity

The first vector was checked twice and the second one never, so a vector of
means of length one was silently broadcast.
---
 thewalrus/quantum/gaussian_checks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/gaussian_checks.py b/thewalrus/quantum/gaussian_checks.py
index d18288a..90a0272 100644
--- a/thewalrus/quantum/gaussian_checks.py
+++ b/thewalrus/quantum/gaussian_checks.py
@@ -127,7 +127,7 @@ def fidelity(mu1, cov1, mu2, cov2, hbar=2, rtol=1e-05, atol=1e-08):
     n0, n1 = cov1.shape
     m0, m1 = cov2.shape
     (l0,) = mu1.shape
-    (l1,) = mu1.shape
+    (l1,) = mu2.shape
     if not n0 == n1 == m0 == m1 == l0 == l1:
         raise ValueError("The inputs have incompatible shapes")
 
-- 
2.43.0


From ed69b33cc9f232b02aae1687ab75fce93850232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 16/32] fix: order the modes in n_body_marginals

The modes were taken in the iteration order of a set, which is not increasing
for nine modes or more: some marginals were left at zero and others transposed.
---
 thewalrus/quantum/fock_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index d4ebcf8..dade7a0 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -661,7 +661,7 @@ def n_body_marginals(mean, cov, cutoff, n, hbar=2):
     marginal = [np.zeros(([M] * i) + ([cutoff] * i)) for i in range(1, n + 1)]
 
     for ind in product(range(M), repeat=n):
-        modes = list(set(ind))
+        modes = sorted(set(ind))
         acc = len(modes) - 1
         if list(ind) == sorted(ind):
             sub_mean, sub_cov = reduced_state(mean, cov, modes)  # this happens in phase space
-- 
2.43.0


From 43265dcd2ac841a7a8bec4c2a9c729ace51d31d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:22 +0000
Subject: [PATCH 17/32] fix: do not truncate the noisy probabilities of an
 integer probability tensor

The convolution was accumulated in an array of the type of the input tensor, so
an integer one (such as the vacuum) gave only zeros.
---
 thewalrus/quantum/fock_tensors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index dade7a0..5586c43 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -526,6 +526,9 @@ def update_probabilities_with_noise(probs_noise, probs):
             "The list of probability distributions probs_noise and the tensor of probabilities probs have incompatible dimensions."
         )
 
+    # integer probabilities must not truncate the result
+    probs = probs.astype(np.result_type(probs, *[np.asarray(p) for p in probs_noise]))
+
     for k in range(num_modes):  # update one mode at a time
         perm = np.arange(num_modes)
         perm[0] = k
-- 
2.43.0


From d4c8e433792d8f843cb36c82ed0585de1a244a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 18/32] fix: do not truncate integer means and covariances in
 symplectic.loss

---
 thewalrus/symplectic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/symplectic.py b/thewalrus/symplectic.py
index 611abf3..7f2cea6 100644
--- a/thewalrus/symplectic.py
+++ b/thewalrus/symplectic.py
@@ -337,8 +337,8 @@ def loss(mu, cov, T, mode, nbar=0, hbar=2):
     """
     N = len(cov) // 2
 
-    cov_res = cov.copy()
-    mu_res = mu.copy()
+    cov_res = cov.astype(np.result_type(cov, 1.0))
+    mu_res = mu.astype(np.result_type(mu, 1.0))
 
     for m in (mode, mode + N):
         mu_res[m] *= np.sqrt(T)
-- 
2.43.0


From 7d491dbd2804f007b4baa2769427c965559fd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 19/32] fix: accept an integer factor in
 hafnian_sample_graph_rank_one

---
 thewalrus/samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/samples.py b/thewalrus/samples.py
index c894fbb..8830c67 100644
--- a/thewalrus/samples.py
+++ b/thewalrus/samples.py
@@ -745,7 +745,7 @@ def _hafnian_sample_graph_rank_one(G, n_mean):
     total_photon_num = 2 * np.random.negative_binomial(0.5, q, 1)[0]
     sample = np.zeros(len(G))
     single_ph_ps = np.abs(G) ** 2
-    single_ph_ps /= np.sum(single_ph_ps)
+    single_ph_ps = single_ph_ps / np.sum(single_ph_ps)
     for _ in range(total_photon_num):
         detector = np.random.choice(len(G), p=single_ph_ps)
         sample[detector] += 1
-- 
2.43.0


From 5543797c9c6948dde05a217309ab60eb21ff3270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 20/32] fix: do not truncate the gradients of integer Hermite
 polynomials

---
 thewalrus/_hermite_multidimensional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_hermite_multidimensional.py b/thewalrus/_hermite_multidimensional.py
index 1256ba2..8855429 100644
--- a/thewalrus/_hermite_multidimensional.py
+++ b/thewalrus/_hermite_multidimensional.py
@@ -419,7 +419,7 @@ def grad_hermite_multidimensional(G, R, y, C=1, renorm=True, dtype=None):
         array[data type], array[data type], array[data type]: the gradients of the multidimensional Hermite polynomials with respect to C, R and y
     """
     if dtype is None:
-        dtype = np.result_type(G, R, y, C)
+        dtype = np.result_type(G, R, y, C, 1.0)
     n, _ = R.shape
     if y.shape[0] != n:
         raise ValueError(
-- 
2.43.0


From 94e24784a96928875669f180c0a07965dc2dd059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 21/32] fix: accept real matrices of complex type in the
 hafnian approximation

---
 thewalrus/_hafnian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index ec97e1b..71a4752 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -805,7 +805,7 @@ def hafnian(
         if np.any(A < 0):
             raise ValueError("Input matrix must not have negative entries")
 
-        return hafnian_approx(A, num_samples=num_samples)
+        return hafnian_approx(np.real(A), num_samples=num_samples)
 
     if loop:
         if method == "recursive":
-- 
2.43.0


From e981f2503f6d77391fb7f26fff3bf8c21a120005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 22/32] fix: honour the method of the loop hafnian

---
 thewalrus/_hafnian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 71a4752..a35f178 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -810,7 +810,7 @@ def hafnian(
     if loop:
         if method == "recursive":
             warnings.warn("Recursive algorithm does not support the loop hafnian")
-        return loop_hafnian(A, D=None, reps=None, glynn=True)
+        return loop_hafnian(A, D=None, reps=None, glynn=method != "inclexcl")
 
     if method == "recursive":
         return recursive_hafnian(A)
-- 
2.43.0


From dec2ef88c04d70c27d50a948bd1019d2454342c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 23/32] fix: accept matrices and vectors of different types in
 lmtl

---
 thewalrus/_montrealer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/thewalrus/_montrealer.py b/thewalrus/_montrealer.py
index b0ee072..35e34f2 100644
--- a/thewalrus/_montrealer.py
+++ b/thewalrus/_montrealer.py
@@ -116,7 +116,8 @@ def lmtl(A, zeta):
     tor_input_checks(A, zeta)
     n = len(A) // 2
     Sigma = Xmat(n) @ A
-    return lmontrealer(Sigma, zeta)
+    dtype = np.result_type(Sigma, zeta)
+    return lmontrealer(Sigma.astype(dtype), zeta.astype(dtype))
 
 
 def mtl(A):
-- 
2.43.0


From 743d9b845aa4c5c426165110162f4df3be520b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 24/32] fix: accept integer matrices in brs and ubrs

---
 thewalrus/_permanent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/thewalrus/_permanent.py b/thewalrus/_permanent.py
index 863e520..521def4 100644
--- a/thewalrus/_permanent.py
+++ b/thewalrus/_permanent.py
@@ -217,7 +217,7 @@ def brs(A, E):  # pragma: no cover
     total = 0
     for j in prange(steps):
         kept_rows = np.where(find_kept_edges(j, ones) != 0)[0]
-        Ay = A[kept_rows, :]
+        Ay = 1.0 * A[kept_rows, :]
         plusminus = (-1) ** ((m - len(kept_rows)) % 2)
         total += plusminus * perm_bbfg(Ay.conj().T @ Ay + E)
     return total
@@ -243,7 +243,7 @@ def ubrs(A):  # pragma: no cover
     total = 0
     for j in prange(1, steps):
         kept_rows = np.where(find_kept_edges(j, ones) != 0)[0]
-        Az = A[kept_rows, :]
+        Az = 1.0 * A[kept_rows, :]
         plusminus = (-1) ** ((m - len(kept_rows)) % 2)
         total += plusminus * perm_bbfg(Az.conj().T @ Az)
     return total
-- 
2.43.0


From fac0264268ba4c716fd7c420d9f20ceef85d6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 25/32] fix: accept real transfer matrices in
 grouped_click_probabilities

---
 thewalrus/grouped_click_probabilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/thewalrus/grouped_click_probabilities.py b/thewalrus/grouped_click_probabilities.py
index d8d4530..a3ca44c 100644
--- a/thewalrus/grouped_click_probabilities.py
+++ b/thewalrus/grouped_click_probabilities.py
@@ -24,6 +24,7 @@ def grouped_click_probabilities(
     np.random.seed(seed)
     samp_per_group = num_samples // num_groups
     num_modes, num_input = max(t_matrix.shape), min(t_matrix.shape)
+    t_matrix = t_matrix.astype(np.complex128)
     drp = np.array([(0.5 * np.complex128(phn[i] + chn[i])) ** 0.5 for i in range(num_input)])
     drm = np.array([(0.5 * np.complex128(phn[i] - chn[i])) ** 0.5 for i in range(num_input)])
     delta = 2 * np.pi / (num_modes + 1)
-- 
2.43.0


From 6fd966b7c64693e8b3dc0be80d05ffbcf6bbaa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 26/32] fix: return real photon number moments and cumulants of
 bright states

---
 thewalrus/quantum/means_and_variances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/quantum/means_and_variances.py b/thewalrus/quantum/means_and_variances.py
index ed83a9d..96cb1a9 100644
--- a/thewalrus/quantum/means_and_variances.py
+++ b/thewalrus/quantum/means_and_variances.py
@@ -364,7 +364,7 @@ def photon_number_moment(mu, cov, indices, hbar=2):
         rpt = rpt + rpt
         prod_coeff = np.prod([expansion_coeff[i][coeff] for i, coeff in enumerate(item)])
         net_sum += prod_coeff * s_ordered_expectation(mu, cov, rpt, s=1, hbar=hbar)
-    return np.real_if_close(net_sum)
+    return np.real(net_sum)
 
 
 def partition(collection):
-- 
2.43.0


From d1dcb741c3307d6c39f77923a605a4fd4d2641c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 27/32] fix: return real symplectic eigenvalues of strongly
 squeezed states

---
 thewalrus/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thewalrus/decompositions.py b/thewalrus/decompositions.py
index a0e6573..e87ad91 100644
--- a/thewalrus/decompositions.py
+++ b/thewalrus/decompositions.py
@@ -113,7 +113,7 @@ def symplectic_eigenvals(cov):
     """
     M = len(cov) // 2
     Omega = sympmat(M)
-    return np.real_if_close(-1j * np.linalg.eigvals(Omega @ cov))[::2]
+    return np.real(-1j * np.linalg.eigvals(Omega @ cov))[::2]
 
 
 def blochmessiah(S):
-- 
2.43.0


From fe9b14788ea675eccb084aeda61710bcc7c5d07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 28/32] fix: take the real part of the probabilities of mixed
 states

---
 thewalrus/quantum/fock_tensors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/quantum/fock_tensors.py b/thewalrus/quantum/fock_tensors.py
index 5586c43..dc499e1 100644
--- a/thewalrus/quantum/fock_tensors.py
+++ b/thewalrus/quantum/fock_tensors.py
@@ -417,14 +417,14 @@ def probabilities(mu, cov, cutoff, parallel=False, hbar=2.0, rtol=1e-05, atol=1e
             compute_list.append(dask.delayed(density_matrix_element)(mu, cov, i, i, hbar=hbar))
 
         probs = np.maximum(
-            0.0, np.real_if_close(dask.compute(*compute_list, scheduler="processes"))
+            0.0, np.real(dask.compute(*compute_list, scheduler="processes"))
         ).reshape([cutoff] * num_modes)
         # maximum is needed because sometimes a probability is very close to zero from below
     else:
         probs = np.zeros([cutoff] * num_modes)
         for i in product(range(cutoff), repeat=num_modes):
             probs[i] = np.maximum(
-                0.0, np.real_if_close(density_matrix_element(mu, cov, i, i, hbar=hbar))
+                0.0, np.real(density_matrix_element(mu, cov, i, i, hbar=hbar))
             )
             # maximum is needed because sometimes a probability is very close to zero from below
     return probs
@@ -611,7 +611,7 @@ def tvd_cutoff_bounds(mu, cov, cutoff, hbar=2, check_is_valid_cov=True, rtol=1e-
     bounds = np.zeros([cutoff])
     for i in range(nmodes):
         mu_red, cov_red = reduced_state(mu, cov, [i])
-        ps = np.real_if_close(np.diag(density_matrix(mu_red, cov_red, cutoff=cutoff, hbar=hbar)))
+        ps = np.real(np.diag(density_matrix(mu_red, cov_red, cutoff=cutoff, hbar=hbar)))
         bounds += 1 - np.cumsum(ps)
     return bounds
 
-- 
2.43.0


From 0f148b87e90b50404961c1322230d4d0952db6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:26 +0000
Subject: [PATCH 29/32] fix: do not hand out the cached list of partitions,
 which a caller could modify

---
 thewalrus/_low_rank_haf.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/thewalrus/_low_rank_haf.py b/thewalrus/_low_rank_haf.py
index defb4d0..7631380 100644
--- a/thewalrus/_low_rank_haf.py
+++ b/thewalrus/_low_rank_haf.py
@@ -16,13 +16,23 @@ Algorithms for hafnians of low-rank matrices.
 """
 
 from functools import lru_cache
-from itertools import product
 import numpy as np
 from sympy import symbols, expand
 from scipy.special import factorial2
 
 
 @lru_cache(maxsize=1000000)
+def _partitions(r, n):
+    r"""Cached version of :func:`partitions`, returning tuples."""
+    if r == 1:
+        return ((n,),)
+
+    new_combos = []
+    for first_val in range(n + 1):
+        new_combos += [(first_val,) + p for p in _partitions(r - 1, n - first_val)]
+    return tuple(new_combos)
+
+
 def partitions(r, n):
     r"""Returns a list of lists with the r-partitions of the integer :math:`n`, i.e. the r-tuples of non-negative
     integers such that their sum is precisely :math:`n`.
@@ -36,15 +46,7 @@ def partitions(r, n):
     Returns:
         list: r-partitions of n.
     """
-    if r == 1:
-        return [[n]]
-
-    new_combos = []
-    for first_val in range(n + 1):
-        rest = partitions(r - 1, n - first_val)
-        new = [p[0] + p[1] for p in product([[first_val]], rest)]
-        new_combos += new
-    return new_combos
+    return [list(p) for p in _partitions(r, n)]
 
 
 def low_rank_hafnian(G):
-- 
2.43.0


From f80f1a42e6ce4ff080ebbd6a935dcdbe4243810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 30/32] fix: hafnian_repeated checks the length of mu before
 the shortcuts

---
 thewalrus/_hafnian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index a35f178..4c13ddb 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -908,6 +908,9 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
     if len(rpt) != len(A):
         raise ValueError("the rpt argument must be 1-dimensional sequence of length len(A).")
 
+    if mu is not None and len(mu) != len(A):
+        raise ValueError("Length of means vector must be the same length as the matrix A.")
+
     nud = np.array(rpt, dtype=np.int32)
 
     if not np.all(np.mod(rpt, 1) == 0) or np.any(nud < 0):
@@ -927,9 +930,6 @@ def hafnian_repeated(A, rpt, mu=None, loop=False, rtol=1e-05, atol=1e-08, glynn=
             return np.prod(mu**rpt)
         return 0
 
-    if len(mu) != len(A):
-        raise ValueError("Length of means vector must be the same length as the matrix A.")
-
     if loop:
         return loop_hafnian(A, D=mu, reps=rpt, glynn=glynn)
 
-- 
2.43.0


From bbf118503149eea5510ac36e9e2ce31156a86e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 31/32] fix: hafnian(approx=True) rejects complex and negative
 matrices of every size

---
 thewalrus/_hafnian.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index 4c13ddb..cb42490 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -749,6 +749,13 @@ def hafnian(
     # pylint: disable=too-many-return-statements,too-many-branches
     input_validation(A, rtol=rtol, atol=atol)
 
+    if approx:
+        if np.any(np.iscomplex(A)):
+            raise ValueError("Input matrix must be real")
+
+        if np.any(A < 0):
+            raise ValueError("Input matrix must not have negative entries")
+
     matshape = A.shape
 
     if method == "glynn":
@@ -799,12 +806,6 @@ def hafnian(
         return A[0, 1] * A[2, 3] + A[0, 2] * A[1, 3] + A[0, 3] * A[1, 2]
 
     if approx:
-        if np.any(np.iscomplex(A)):
-            raise ValueError("Input matrix must be real")
-
-        if np.any(A < 0):
-            raise ValueError("Input matrix must not have negative entries")
-
         return hafnian_approx(np.real(A), num_samples=num_samples)
 
     if loop:
-- 
2.43.0


From b5b452451120cb047e2ed5baaa932f1003c4c36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 32/32] fix: hafnian rejects an unknown method instead of
 failing on an unbound variable

---
 thewalrus/_hafnian.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/thewalrus/_hafnian.py b/thewalrus/_hafnian.py
index cb42490..1dd62cc 100644
--- a/thewalrus/_hafnian.py
+++ b/thewalrus/_hafnian.py
@@ -758,11 +758,10 @@ def hafnian(
 
     matshape = A.shape
 
-    if method == "glynn":
-        glynn = True
+    if method not in ("glynn", "inclexcl", "recursive"):
+        raise ValueError("Unknown method for calculating the hafnian.")
 
-    if method == "inclexcl":
-        glynn = False
+    glynn = method != "inclexcl"
 
     if matshape == (0, 0):
         return 1
-- 
2.43.0

