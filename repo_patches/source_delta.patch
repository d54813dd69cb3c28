From 4908baaf037d30011db52613d7ada9d5fd718aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 01/35] fix: entropy exchange and entropy of orthogonal kraus
 sets of unequal size

---
 PyQCodes/chan/_kraus.py  | 6 ++----
 PyQCodes/chan/channel.py | 7 +++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 9a5a471..b7b0af5 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -843,7 +843,6 @@ class DenseKraus(Kraus):
         # and A_2 correponds to {k_1, k_2}.
 
         """
-        numb_rows = self.numb_kraus ** n
         # Compute adjoint of the complementary channel.
         if adjoint:
             return np.einsum("ijkl,ij->kl", self.nth_kraus_exch, rho, dtype=np.complex128)
@@ -860,11 +859,10 @@ class DenseKraus(Kraus):
                 W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[count:orthogonal_split,
                               count:orthogonal_split, :, :], rho)
                 output.append(W.T)
-                count += orthogonal_split
+                count = orthogonal_split
 
             # Last section of kraus operators
-            diff = (numb_rows - count)
-            W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[diff:, diff:, :, :], rho)
+            W = np.einsum("ijkl,lk->ij", self.nth_kraus_exch[count:, count:, :, :], rho)
             output.append(W.T)
         return output
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 8a27261..9bbb36b 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -519,10 +519,9 @@ class AnalyticQChan():
             The von neumann entropy.
 
         """
-        if self.sparse:
-            eigs = np.linalg.eigvalsh(mat)
-        else:
-            eigs = np.ravel(np.linalg.eigvalsh(mat))
+        # The blocks in a list (orthogonal sets of kraus operators) can have different sizes.
+        blocks = mat if isinstance(mat, list) else [mat]
+        eigs = np.concatenate([np.ravel(np.linalg.eigvalsh(block)) for block in blocks])
         no_zeros = eigs[np.abs(eigs) > cut_off]
         return -np.sum(no_zeros * np.log2(no_zeros))
 
-- 
2.43.0


From 2829afcfdd41191cf143dd4906d6fca7af2ba4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 02/35] fix: sparse kraus conjugates are stale after reducing a
 tensored channel to n=1

---
 PyQCodes/chan/_kraus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index b7b0af5..4f5731a 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -154,7 +154,7 @@ class Kraus(ABC):
 
     @nth_kraus_ops_conj.setter
     def nth_kraus_ops_conj(self, kraus):
-        self.nth_kraus_ops_conj = kraus
+        self._nth_kraus_ops_conj = kraus
 
     @property
     def nth_kraus_exch(self):
@@ -269,7 +269,7 @@ class Kraus(ABC):
         elif n < self.current_n:
             # Reduce Densekraus operator to correspond to nth channel.
             if n == 1:
-                self.nth_kraus_ops = self.kraus_ops
+                self._initialize_kraus_ops()
             else:
                 self.nth_kraus_ops = self._tensor_kraus_operators(self.kraus_ops, self.kraus_ops)
                 for i in range(0, n - 2):
-- 
2.43.0


From 6783b380e56a597e2e1b57b224c720ccbc5b8f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 03/35] fix: number of particles of serially concatenated kraus
 operators

---
 PyQCodes/chan/_kraus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 4f5731a..46a4e6b 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -405,7 +405,7 @@ class SparseKraus(Kraus):
         assert isinstance(other, SparseKraus), "Kraus object should be of type 'SparseKraus'."
         if self.dim_in**self.numb_qubits[0] != other.dim_out**other.numb_qubits[1]:
             raise TypeError("Kraus operator dimension do not match.")
-        numb_qubits = [self.numb_qubits[0], other.numb_qubits[1]]
+        numb_qubits = [other.numb_qubits[0], self.numb_qubits[1]]
         dim_in, dim_out = other.dim_in, self.dim_out
         return SparseKraus(SparseKraus.serial_concatenate(self.kraus_ops, other.kraus_ops),
                            numb_qubits, dim_in, dim_out)
@@ -715,7 +715,7 @@ class DenseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         if not self.dim_in**self.numb_qubits[0] == other.dim_out**other.numb_qubits[1]:
             raise TypeError("Kraus operator dimension do not match.")
-        numb_qubits = [self.numb_qubits[0], other.numb_qubits[1]]
+        numb_qubits = [other.numb_qubits[0], self.numb_qubits[1]]
         dim_in, dim_out = other.dim_in, self.dim_out
         return DenseKraus(DenseKraus.serial_concatenate(self.kraus_ops, other.kraus_ops),
                           numb_qubits, dim_in, dim_out)
-- 
2.43.0


From 9a865449aed19035d15845778cbf48027790011f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 04/35] fix: dimensions of parallel concatenated multi-particle
 channels

---
 PyQCodes/chan/_kraus.py  | 6 ++++--
 PyQCodes/chan/channel.py | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 46a4e6b..31a24a5 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -416,7 +416,8 @@ class SparseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         # The number of qubits is reset to one.
         numb_qubits = [1, 1]
-        dim_in, dim_out = other.dim_in * self.dim_in, other.dim_out * self.dim_out
+        dim_in = other.input_dim * self.input_dim
+        dim_out = other.output_dim * self.output_dim
         return SparseKraus(SparseKraus.parallel_concatenate(self.kraus_ops, other.kraus_ops),
                            numb_qubits, dim_in, dim_out)
 
@@ -726,7 +727,8 @@ class DenseKraus(Kraus):
         # Assert that dimensions of kraus operators match each other.
         # The number of qubits is reset to one.
         numb_qubits = [1, 1]
-        dim_in, dim_out = other.dim_in * self.dim_in, other.dim_out * self.dim_out
+        dim_in = other.input_dim * self.input_dim
+        dim_out = other.output_dim * self.output_dim
         return DenseKraus(DenseKraus.parallel_concatenate(self.kraus_ops, other.kraus_ops),
                           numb_qubits, dim_in, dim_out)
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 9bbb36b..3428580 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -352,8 +352,8 @@ class AnalyticQChan():
         else:
             new_kraus_ops = DenseKraus.parallel_concatenate(self.kraus, other.kraus)
         numb_qubits = [1, 1]
-        dim_in = self.dim_in * other.dim_in
-        dim_out = self.dim_out * other.dim_out
+        dim_in = self.dim_in**self.numb_qubits[0] * other.dim_in**other.numb_qubits[0]
+        dim_out = self.dim_out**self.numb_qubits[1] * other.dim_out**other.numb_qubits[1]
         return AnalyticQChan(new_kraus_ops, numb_qubits, dim_in, dim_out, sparse=issparse)
 
     def _is_qubit_channel(self):
-- 
2.43.0


From 6c07bbfee6f6e2c0afd22189070196f4c292c882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 05/35] fix: serial concatenation of sparse kraus operators
 raises

---
 PyQCodes/chan/_kraus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_kraus.py b/PyQCodes/chan/_kraus.py
index 31a24a5..2fdb84f 100644
--- a/PyQCodes/chan/_kraus.py
+++ b/PyQCodes/chan/_kraus.py
@@ -26,7 +26,7 @@ THE SOFTWARE.
 """
 import numpy as np
 from scipy.sparse import kron
-from sparse import COO, kron, tensordot, matmul, SparseArray
+from sparse import COO, kron, stack, tensordot, matmul, SparseArray
 from abc import ABC, abstractmethod, abstractstaticmethod
 
 r"""
@@ -611,7 +611,7 @@ class SparseKraus(Kraus):
         kraus_ops = [matmul(kraus1[j], kraus2[i]) for j in range(0, len(kraus1))
                      for i in range(0, len(kraus2))]
         # Reshape them to be three-dimensional.
-        return COO(np.array(kraus_ops, dtype=np.complex128),)
+        return stack(kraus_ops)
 
 
 class DenseKraus(Kraus):
-- 
2.43.0


From 5bb4167f1da961fa38ced81df31507e9953b9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 06/35] fix: choi channel with different number of input and
 output particles

---
 PyQCodes/chan/_choi.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index e6f5b83..e34e8c9 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -191,9 +191,9 @@ class ChoiQutip():
         # Definition is taken from John Watrous.
         choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
 
-        # Keep the following dimensions when doing partial trace
-        keep = [i for i in range(self.num_out, 2 * self.num_out)]
-        return ptrace(Qobj(choi_rho, dims=self.dim), keep).data.todense()
+        # Trace out the input system and keep the output system.
+        dims = [[self.input_dim, self.output_dim], [self.input_dim, self.output_dim]]
+        return ptrace(Qobj(choi_rho, dims=dims), [1]).data.todense()
 
     def complementary_channel(self, rho):
         r"""
-- 
2.43.0


From 19d8711f440ba179bd4895df4f664aea5aab4487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:32 +0000
Subject: [PATCH 07/35] fix: adjoint of a channel given by its choi matrix was
 ignored

---
 PyQCodes/chan/_choi.py   | 9 +++++++--
 PyQCodes/chan/channel.py | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/chan/_choi.py b/PyQCodes/chan/_choi.py
index e34e8c9..306324b 100644
--- a/PyQCodes/chan/_choi.py
+++ b/PyQCodes/chan/_choi.py
@@ -172,14 +172,17 @@ class ChoiQutip():
     def numb_qubits(self):
         return [self.num_in, self.num_out]
 
-    def channel(self, rho):
+    def channel(self, rho, adjoint=False):
         r"""
-        Compute the channel on a density matrix.
+        Compute the channel or it's adjoint on a density matrix.
 
         Parameters
         ----------
         rho : array
 
+        adjoint : bool
+            Compute the adjoint of the channel instead.
+
         Returns
         -------
         array :
@@ -188,6 +191,8 @@ class ChoiQutip():
         ----------
         See John Watrous Notes of Choi-Matrix. Note that he uses row-based vectorization.
         """
+        if adjoint:
+            return sum(k.conj().T.dot(rho).dot(k) for k in self.kraus_operators())
         # Definition is taken from John Watrous.
         choi_rho = self.qutip.data.dot(np.kron(rho.T, np.eye(self.output_dim)))
 
diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index 3428580..b4a585f 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -461,7 +461,7 @@ class AnalyticQChan():
 
         # For Choi Matrix.
         assert n == 1, "n, nth use of the channel must be one for choi-matrices."
-        return self.choi.channel(rho)
+        return self.choi.channel(rho, adjoint)
 
     def entropy_exchange(self, rho, n, adjoint=False):
         r"""
-- 
2.43.0


From 3f2567c63acd79e0e9f4db9f4eaf108e853f2aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 08/35] fix: numb_krauss raises AttributeError

---
 PyQCodes/chan/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index b4a585f..b607636 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -258,7 +258,7 @@ class AnalyticQChan():
     def numb_krauss(self):
         r"""Return the number of kraus operators for the single (n=1) channel."""
         assert self._type == "kraus", "Function only works with kraus operators."
-        return self.krauss.numb_krauss
+        return self.krauss.numb_kraus
 
     @property
     def kraus(self):
-- 
2.43.0


From 69257e51a25c598b380ace801cae19a49cc2b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:33 +0000
Subject: [PATCH 09/35] fix: fidelity of singular (pure) states fails with
 sqrtm

---
 PyQCodes/chan/channel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/chan/channel.py b/PyQCodes/chan/channel.py
index b607636..a1fcd31 100644
--- a/PyQCodes/chan/channel.py
+++ b/PyQCodes/chan/channel.py
@@ -29,7 +29,6 @@ from PyQCodes.chan._choi import ChoiQutip
 from PyQCodes.chan._coherent import optimize_procedure
 
 import numpy as np
-from scipy.linalg import sqrtm
 from sparse import SparseArray
 
 r"""
@@ -392,10 +391,11 @@ class AnalyticQChan():
 
         """
         chan = self.channel(rho, n)
-        sqrt_rho = sqrtm(rho)
-        fidel = np.trace(sqrtm(sqrt_rho.dot(chan).dot(sqrt_rho)))
-        assert np.abs(np.imag(fidel)) < 1e-5
-        return np.real(fidel)
+        # Roots are taken from the eigenvalues, since "sqrtm" fails on singular (eg pure) states.
+        eigs, vecs = np.linalg.eigh(rho)
+        sqrt_rho = (vecs * np.sqrt(np.maximum(eigs, 0.))).dot(vecs.conj().T)
+        eigs = np.linalg.eigvalsh(sqrt_rho.dot(chan).dot(sqrt_rho))
+        return np.sum(np.sqrt(np.maximum(eigs, 0.)))
 
     def average_entanglement_fidelity(self, probs, states):
         r"""
-- 
2.43.0


From 6d567e9ea9a5790f69a0769def36e023611a2677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 10/35] fix: slsqp over samples returns the best (smallest)
 objective found

---
 PyQCodes/chan/_coherent.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index 86e2ede..4f93ef6 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -87,16 +87,16 @@ def _use_multi_processes(samples, bounds, args, maxiter, eps, ftol, fobjective,
     pool = Pool(processes=pool_number)
     results = pool.map(obj_func, samples)
 
-    # Initialize parameters for finding maximas over the results.
-    maxima = -1e10
+    # Initialize parameters for finding minima over the results.
+    minima = np.inf
     optimal_x_val = None
     success = False
     for r in results:
-        if -r["fun"] > maxima:
-            maxima = r["fun"]
+        if r["fun"] < minima:
+            minima = r["fun"]
             optimal_x_val = r["x"]
             success = r["success"]
-    return maxima, success, optimal_x_val
+    return minima, success, optimal_x_val
 
 
 def _optimize_samples_slsqp(samples, bounds, args, maxiter, eps, ftol, fobjective, disp):
@@ -131,11 +131,11 @@ def _optimize_samples_slsqp(samples, bounds, args, maxiter, eps, ftol, fobjectiv
         Returns the optimal solution found, whether it converges or not and the variables of the
         parameterization corresponding to the optimal solution.
     """
-    optimal_val = -1e10
+    optimal_val = np.inf
     for s in samples:
         optimize = _optimize_using_slsqp(s, bounds, args, maxiter, eps, ftol, fobjective, disp)
-        if optimize["fun"] > optimal_val:
-            optimal_val = optimize
+        if optimize["fun"] < optimal_val:
+            optimal_val = optimize["fun"]
             optimal_x_val = optimize["x"]
             success = optimize["success"]
     return optimal_val, success, optimal_x_val
-- 
2.43.0


From d3f1e9727f79e45cb547db96688f065be637b6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 11/35] fix: slsqp accepts user samples without lipschitz
 samples

---
 PyQCodes/chan/_coherent.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index 4f93ef6..6bb5b54 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -276,7 +276,6 @@ def optimize_procedure(channel, n, rank, optimizer="diffev", param="overparam",
                                                                           objective_func, disp)
 
     elif optimizer == "slsqp":
-        assert lipschitz != 0, "SLSQP parameter requires 'lipschitz' parameter to be nonzero."
         # Epsilon and ftol parameters for optimizer.
         eps, ftol = 1e-5, 1e-8
 
-- 
2.43.0


From 2a0af4307bc477f3a6ca6024b83d4413dac0bd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:54 +0000
Subject: [PATCH 12/35] fix: cholesky parameterization of a state is ordered as
 rho_from_vec reads it

---
 PyQCodes/chan/param.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index 9824488..dfa41fc 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -583,8 +583,7 @@ class CholeskyParam(ParameterizationABC):
         cholesky_fac = np.linalg.cholesky(rho)
         # First set of elements is the diagonal elements (always real).
         vec = np.diag(np.real(cholesky_fac))
-        # Add real Off-diagonal elements
-        vec = np.append(vec, np.real(cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]))
-        # Add imaginary Off-diagonal elements
-        vec = np.append(vec, np.imag(cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]))
+        # Add real and imaginary component of each off-diagonal element, same order as rho_from_vec.
+        off_diag = cholesky_fac[np.tril_indices(nsize, k=-1, m=rank)]
+        vec = np.append(vec, np.ravel(np.column_stack((np.real(off_diag), np.imag(off_diag)))))
         return vec
-- 
2.43.0


From b950599dbec986191e56f309d5ed7dcb10465602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 13/35] fix: cholesky parameterization of states of smaller
 rank

---
 PyQCodes/chan/param.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index dfa41fc..b6a460a 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -580,7 +580,11 @@ class CholeskyParam(ParameterizationABC):
         if rank is None:
             rank = nsize
         assert 1 <= rank <= nsize
-        cholesky_fac = np.linalg.cholesky(rho)
+        # Only the leading block of a state of smaller rank has a cholesky factor.
+        rho = np.asarray(rho)
+        cholesky_fac = np.linalg.cholesky(rho[:rank, :rank])
+        lower_rows = np.conj(np.linalg.solve(cholesky_fac, np.conj(rho[rank:, :rank]).T)).T
+        cholesky_fac = np.append(cholesky_fac, lower_rows, axis=0)
         # First set of elements is the diagonal elements (always real).
         vec = np.diag(np.real(cholesky_fac))
         # Add real and imaginary component of each off-diagonal element, same order as rho_from_vec.
-- 
2.43.0


From 34229d340d56bd06e21b92348f938d17b89c9f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 14/35] fix: parameterization given as a class or as an
 instance

---
 PyQCodes/chan/_coherent.py | 5 +++--
 PyQCodes/chan/param.py     | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/chan/_coherent.py b/PyQCodes/chan/_coherent.py
index 6bb5b54..a8965e6 100644
--- a/PyQCodes/chan/_coherent.py
+++ b/PyQCodes/chan/_coherent.py
@@ -62,9 +62,10 @@ def _choose_objective_func(objective):
 
 def _get_parameterization_scheme_density(param):
     r"""Get parameterization static class from the param string"""
-    if not (isinstance(param, str) or isinstance(param, ParameterizationABC)):
+    is_class = isinstance(param, type) and issubclass(param, ParameterizationABC)
+    if not (isinstance(param, str) or isinstance(param, ParameterizationABC) or is_class):
         raise TypeError("Param should either be string or class ParameterizationABC.")
-    if isinstance(param, ParameterizationABC):
+    if isinstance(param, ParameterizationABC) or is_class:
         return param
     if param == "overparam":
         paramet = OverParam
diff --git a/PyQCodes/chan/param.py b/PyQCodes/chan/param.py
index b6a460a..e714ea5 100644
--- a/PyQCodes/chan/param.py
+++ b/PyQCodes/chan/param.py
@@ -224,6 +224,7 @@ class OverParam(ParameterizationABC):
     # vec should be [np.sqrt(0.5), 0, 0, 0, 0, 0, np.sqrt(0.5), 0]
 
     """
+    @staticmethod
     def random_vectors(nsize, rank, dist="normal"):
         r"""
         Random vectors from specified distribution.
-- 
2.43.0


From 0c8ae4dfcc381d46adc1252c73dc5fb4268f739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:07 +0000
Subject: [PATCH 15/35] fix: rank of the normal form is taken modulo two

The real rank of the binary X block can exceed its rank over GF(2), e.g. for
IYZY, YIZY, XXZZ, and the elimination then left no identity block.
---
 PyQCodes/codes.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 7bf06f8..35a8dde 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -697,6 +697,21 @@ class StabilizerCode():
         normalizer = self.normalizer()
         return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
 
+    @staticmethod
+    def _rank_modulo_two(binary):
+        r"""Rank of a two-dimensional binary array over the integers modulo two."""
+        matrix = np.array(binary, dtype=int) % 2
+        rank = 0
+        for i_col in range(matrix.shape[1]):
+            pivots = np.flatnonzero(matrix[rank:, i_col])
+            if pivots.size == 0:
+                continue
+            matrix[[rank, rank + pivots[0]]] = matrix[[rank + pivots[0], rank]]
+            for i_row in range(rank + 1, matrix.shape[0]):
+                matrix[i_row] = (matrix[i_row] + matrix[i_row, i_col] * matrix[rank]) % 2
+            rank += 1
+        return rank
+
     def _gaussian_elimination_first_block(self):
         r"""
         Perform Gaussian Elimination On the first block G1 from binary representation [G1 | G2].
@@ -721,7 +736,7 @@ class StabilizerCode():
         """
         output = self.stab_bin_rep.copy()
 
-        rank = np.linalg.matrix_rank(self.stab_bin_rep[:, :self.n])
+        rank = self._rank_modulo_two(self.stab_bin_rep[:, :self.n])
         numb_stabs = self.numb_stab
         assert self.stab_bin_rep.shape[0] == numb_stabs
 
@@ -795,7 +810,7 @@ class StabilizerCode():
             return binary_rep
 
         output = binary_rep.copy()
-        rank_E = np.linalg.matrix_rank(output[rank:, self.n + rank:])
+        rank_E = self._rank_modulo_two(output[rank:, self.n + rank:])
 
         # Swap rows to ensure the diagonal elements are all ones.
         # TODO: Add More "Powerful" Swaps like in _gaussian_elimination_first_block
@@ -831,7 +846,7 @@ class StabilizerCode():
                         break
 
             # If it is still zero. Return a warning.
-            if diag_elem_E == 0:
+            if output[j - self.n, j] == 0:
                 warnings.warn("Gaussian Elimination on Binary Representation Is Not Going to "
                               "Work.  It could not find a row or column replacement to make sure "
                               "diagonal element is one.")
-- 
2.43.0


From e6804e2e1644a32029a70cb4e5762b938c5f0525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 16/35] fix: encoder matrix of generators with an odd number of
 Y

Y is represented by XZ, which is not Hermitian for an odd number of factors, so no vector
had eigenvalue one and the encoder had no columns (e.g. for the generator YI).
---
 PyQCodes/codes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 35a8dde..0fc0ac1 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -260,6 +260,12 @@ class StabilizerCode():
                         break
         return is_stabilizer_code
 
+    @staticmethod
+    def _is_odd_in_y(binary_rep):
+        r"""Return true if the pauli element has an odd number of Y (products XZ)."""
+        n = len(binary_rep) // 2
+        return np.dot(binary_rep[:n], binary_rep[n:]) % 2 == 1
+
     def encode_krauss_operators(self, sparse=False):
         r"""
         Isometry/Kraus operator for the encoder.
@@ -288,6 +294,9 @@ class StabilizerCode():
 
         # Diagonalize first stabilizer element and get only plus one eigenspace.
         stabilizers = StabilizerCode.binary_rep_to_pauli_mat(self.stab_bin_rep)
+        # The product XZ is not Hermitian, an odd number of them needs the phase i.
+        stabilizers = [1.j * mat if self._is_odd_in_y(stab) else mat
+                       for stab, mat in zip(self.stab_bin_rep, stabilizers)]
         stab1 = stabilizers[0]
         eigs, evecs = np.linalg.eigh(stab1)
         evecs = _obtain_eigenspace_one(eigs, evecs)
-- 
2.43.0


From fa252510cf55e941d5f826d8fe84517ca55da1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 17/35] fix: encoding circuit of generators with an odd number
 of Y

The circuit projected on (1 + P)/2 with the anti-Hermitian product XZ, which is no code state.
---
 PyQCodes/codes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 0fc0ac1..cba334c 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -489,6 +489,8 @@ class StabilizerCode():
         for i in range(0, self.rank):
             # Apply hadamard gate to every encoded qubit.
             HGate() | register[i]
+            if self._is_odd_in_y(self.normal_form[i]):
+                S | register[i]  # An odd number of products XZ needs the phase i to be Hermitian.
             eng.flush()
             # Get pauli operator of normal stabilizer generator.
             pauli = self.binary_rep_to_pauli_str(self.normal_form[i])
-- 
2.43.0


From 2c30038d7f1b65a194da1cc5436c98a69fd945e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 18/35] fix: syndrome of elements with an odd number of Y

The ancilla measured the anti-Hermitian product XZ, with outcomes that are random on code states.
---
 PyQCodes/codes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index cba334c..c72e939 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -415,6 +415,8 @@ class StabilizerCode():
             pauli_str = self.binary_rep_to_pauli_str(np.array(stabilizer))
         print(pauli_str)
         H | measure_qubit
+        if pauli_str.count('Y') % 2 == 1:
+            S | measure_qubit  # An odd number of products XZ needs the phase i to be Hermitian.
         eng.flush()
         with Control(eng, measure_qubit):
             for i, pauli_element in enumerate(pauli_str):
-- 
2.43.0


From ac28a173ddddf341105d6ce83f84dbd6e3572355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 19/35] fix: apply_stabilizer_circuit accepts a pauli string

It was documented but raised UnboundLocalError.
---
 PyQCodes/codes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index c72e939..ae84d8d 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -540,6 +540,7 @@ class StabilizerCode():
         >> apply_stabilizer_circuit(eng, register, "XXY")
 
         """
+        pauli_str = stabilizer
         if isinstance(stabilizer, (list, np.ndarray)):
             # Convert to Pauli String.
             pauli_str = StabilizerCode.binary_rep_to_pauli_str(stabilizer)
-- 
2.43.0


From 6cd4e5f6abfd20bfd23b17d0e38c7a496bdec9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 20/35] fix: pauli strings are checked against n and k

Only binary generators were; strings of another length or number were accepted.
---
 PyQCodes/codes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index ae84d8d..c422136 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -171,8 +171,8 @@ class StabilizerCode():
             stabilizer_group = StabilizerCode.pauli_str_to_binary_representation(stabilizer_group)
         elif isinstance(stabilizer_group[0], (list, np.ndarray)):
             stabilizer_group = np.array(stabilizer_group)
-            assert stabilizer_group.shape[1] == 2*n, "Stabilizer should match parameter n."
-            assert stabilizer_group.shape[0] == n - k, "Number of stabilizers should be n - k."
+        assert stabilizer_group.shape[1] == 2*n, "Stabilizer should match parameter n."
+        assert stabilizer_group.shape[0] == n - k, "Number of stabilizers should be n - k."
 
         self._stab_bin_rep = stabilizer_group
         self.numb_stab = self.stab_bin_rep.shape[0]
-- 
2.43.0


From 6b6eb58f4e9b02f0d83ca5e104c5d1160e5cbae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 21/35] fix: normalizer and undetectable errors

Both called methods that do not exist. Elements of the stabilizer group itself are not
undetectable errors and are left out, as documented.
---
 PyQCodes/codes.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index c422136..376ea2b 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -709,7 +709,7 @@ class StabilizerCode():
 
         """
         normalizer = self.normalizer()
-        return [self._convert_binary_representation_to_pauli(x) for x in normalizer]
+        return [StabilizerCode.binary_rep_to_pauli_str(x) for x in normalizer]
 
     @staticmethod
     def _rank_modulo_two(binary):
@@ -988,16 +988,17 @@ class StabilizerCode():
         all_pauli_reps = itertools.product([0, 1], repeat=2 * self.n)
         # all_pauli_reps = self.generator_set_pauli_elements()
         for pauli in all_pauli_reps:
-            pauli = list(pauli)
+            pauli = np.array(pauli)
             does_commute = True
 
             # TODO: Vectorize this.
             for stab in self.stab_bin_rep:
-                if not self._commute(stab, pauli):
+                if StabilizerCode.inner_prod(stab, pauli):
                     does_commute = False
                     break
-            # If it commutes and satisfies couple of generator conditions.
-            if does_commute:
+            # Elements that commute with every logical operator belong to the stabilizer group.
+            if does_commute and any(StabilizerCode.inner_prod(logical, pauli)
+                                    for logical in np.vstack((self.logical_x, self.logical_z))):
                 normalizer.append(pauli)
         return np.array(normalizer)
 
-- 
2.43.0


From 4c26d41789687a3bfbe4be028a6c20be3c19ba54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 22/35] fix: concatenation with a code of one logical qubit

Logical operators that mix X and Z were cut to one of the two parts, and the error
for incompatible parameters was created but not raised.
---
 PyQCodes/codes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 376ea2b..6e1b324 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -1038,7 +1038,7 @@ class StabilizerCode():
         m, l = stab2.n, stab2.k
 
         if n % l != 0:
-            assert ValueError("Code concatenation only works when l divides n, ie n | l.")
+            raise ValueError("Code concatenation only works when l divides n, ie n | l.")
 
         generator = []
         # Suppose l = 1
@@ -1069,13 +1069,13 @@ class StabilizerCode():
                 for j, pauli in enumerate(stabilizer[:n]):  # Go through each stabilizer.
                     if pauli == 1 and stabilizer[n + j] == 0:  # X Operator.
                         new_gen_x.extend(logical_x[:m])
-                        new_gen_z += [0] * m
+                        new_gen_z.extend(logical_x[m:])
                     elif pauli == 0 and stabilizer[n + j] == 1:  # Z Operator.
-                        new_gen_x += [0] * m
+                        new_gen_x.extend(logical_z[:m])
                         new_gen_z.extend(logical_z[m:])
                     elif pauli == 1 and stabilizer[n + j] == 1:  # Y Operator.
-                        new_gen_x.extend(logical_x[:m])
-                        new_gen_z.extend(logical_z[m:])
+                        new_gen_x.extend((logical_x[:m] + logical_z[:m]) % 2)
+                        new_gen_z.extend((logical_x[m:] + logical_z[m:]) % 2)
                     else:
                         new_gen_x += [0] * m
                         new_gen_z += [0] * m
-- 
2.43.0


From 1021295c67ffd481a9fe8fa450fea2a07457c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 23/35] fix: concatenation with a code of several logical
 qubits

Qubits were assigned to blocks by the number of blocks instead of the block size l, offsets
used n instead of m, and identities repeated the previous logical operator.
---
 PyQCodes/codes.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index 6e1b324..d2abe43 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -1108,9 +1108,9 @@ class StabilizerCode():
                 new_gen_z = np.zeros((total_qubits), dtype=np.int)
 
                 for j, pauli in enumerate(stabilizer[:n]):  # Go through each stabilizer element.
-                    which_logical_op = j % numb_blocks  # Modulo the number of blocks.
+                    which_logical_op = j % l  # Each block holds l consecutive qubits of stab1.
 
-                    which_block = int(np.floor(j / numb_blocks))
+                    which_block = j // l
 
                     if pauli == 1 and stabilizer[n + j] == 0:  # X Block Operator.
                         current_logical = logical_x[which_logical_op]
@@ -1119,10 +1119,11 @@ class StabilizerCode():
                     elif pauli == 1 and stabilizer[n + j] == 1:  # Y Block Operator
                         current_logical = (logical_z[which_logical_op] +
                                            logical_x[which_logical_op]) % 2
+                    else:  # Identity Operator
+                        continue
 
                     # Get the range of qubits that it acts on.
-                    # TODO: should this be n or m.
-                    range_qubits = (n * which_block, n * (which_block + 1))
+                    range_qubits = (m * which_block, m * (which_block + 1))
 
                     new_gen_x[range_qubits[0]: range_qubits[1]] = \
                         (new_gen_x[range_qubits[0]: range_qubits[1]] + current_logical[:m]) % 2
-- 
2.43.0


From beaaf8de8f5439dda0a0ff00f64edc480a82b351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 24/35] fix: encoder and decoder search maximizes the fidelity
 at the parameters

The objective did not pass the parameters on (it raised a TypeError), and the minimizer
was given the fidelity instead of its negative.
---
 PyQCodes/find_codes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index c4ca605..f018799 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -331,7 +331,9 @@ class QDeviceChannel():
             decoder(eng, register, parameters[nparams_encoder:])
 
         def objective_func(parameters, eng, register):
-            return self._device.estimate_average_fidelity(total_channel, ntimes, epsilon)
+            # Average fidelity is maximized, the optimizer minimizes.
+            return -self._device.estimate_average_fidelity(
+                lambda eng, register: total_channel(eng, register, parameters), ntimes, epsilon)
 
         if optimizer == "diffev":
             result = differential_evolution(objective_func, bounds=bounds, maxiter=maxiter,
@@ -340,5 +342,5 @@ class QDeviceChannel():
             raise ValueError("Does not recognize optimizer: " + str(optimizer))
 
         output = {"success" : result["success"], "params_encoder": result["x"][:nparams_encoder],
-                  "params_decoder": result["x"][nparams_encoder:], "optimal_val": result["fun"]}
+                  "params_decoder": result["x"][nparams_encoder:], "optimal_val": -result["fun"]}
         return output
-- 
2.43.0


From 317b0958daa4d4fb096bb1c3d0ce9d918afbbb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 25/35] fix: effective channel of codes with several logical
 qubits

The errors act on k qubits, but were declared as acting on one.
---
 PyQCodes/find_codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index f018799..72db073 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -156,7 +156,7 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
 
     # Figure out the dimensions of channel later.
-    error_chan = AnalyticQChan(pauli_errors, [1, 1], 2, 2, sparse=sparse)
+    error_chan = AnalyticQChan(pauli_errors, [code_param[1]] * 2, 2, 2, sparse=sparse)
     error_chan.krauss.update_kraus_operators(code_param[0] // code_param[1])
 
     # Get Kraus Operator for encoder.
-- 
2.43.0


From b2fef406bf5a27a6e8dc2eeba4236e5ed5ac6ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 26/35] fix: options of the effective channel are used

The documented options were ignored.
---
 PyQCodes/find_codes.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index 72db073..555d3e4 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -171,13 +171,12 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     total_chan = AnalyticQChan(kraus, [code_param[1], code_param[0]], 2, 2, sparse=True)
 
     # Solve the objective function
+    settings = {"param": "overparam", "lipschitz": 25, "use_pool": 3, "maxiter": 250}
+    settings.update({} if options is None else options)
     if optimize == "coherent":
-        result = total_chan.optimize_coherent(n=1, rank=2,
-                                              optimizer="slsqp", param="overparam",
-                                              lipschitz=25, use_pool=3, maxiter=250)
+        result = total_chan.optimize_coherent(n=1, rank=2, optimizer="slsqp", **settings)
     else:
-        result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", param="overparam",
-                                              lipschitz=25, use_pool=3, maxiter=250)
+        result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", **settings)
     return result
 
 
-- 
2.43.0


From d04468f9f4590382cde26a443edf60023789eb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 27/35] fix: decoder program is over maps from n to k qubits

The Choi matrix was constrained as a map from k to n qubits, and the average is over the
dimension of the code.
---
 PyQCodes/avgfid/avg_fidelity.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index e58f104..a98c116 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -35,7 +35,7 @@ def optimize_decoder(encoder, kraus_chan, numb_qubits, dim_in, dim_out, objectiv
     # Kraus operators for channel composed with encoder.
     kraus_chan = [x.dot(encoder) for x in error_chan.nth_kraus_operators]
 
-    numb_qubits = [code_param[1], code_param[0]]
+    numb_qubits = [code_param[0], code_param[1]]  # The recovery maps n-qubits to k-qubits.
     dim_in, dim_out = 2, 2
     result = _optimize_average_entang_fid(kraus_chan, numb_qubits, dim_in, dim_out, options=options)
     return result
@@ -96,7 +96,7 @@ def optimize_decoder_stabilizers(stabilizer, code_param, kraus_chan, sparse=Fals
     else:
         kraus_chan = [x.dot(encoder) for x in error_chan.nth_kraus_operators]
 
-    numb_qubits = [code_param[1], code_param[0]]
+    numb_qubits = [code_param[0], code_param[1]]  # The recovery maps n-qubits to k-qubits.
     dim_in, dim_out = 2, 2
     result = _optimize_average_entang_fid(kraus_chan, numb_qubits, dim_in, dim_out, options=options)
     return result
@@ -189,6 +189,8 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
     P = pic.Problem()
     input_dim = dim_in ** numb_qubits[0]  # Dimension of hilbert space of input.
     numb_rows_cols = input_dim * dim_out ** numb_qubits[1]  # Number of rows/cols of choi-matrix.
+    # Dimension of the un-encoded hilbert space, that the average is taken over.
+    dim_code = input_dim if encoder else dim_out ** numb_qubits[1]
 
     # Optimize with respect to encoder or decoder.
     X = P.add_variable('X', (numb_rows_cols, numb_rows_cols), 'hermitian')
@@ -210,10 +212,10 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
         print(type(krauss[0]))
         C_e_sparse = sum([np.outer(k.conj().reshape((np.prod(k.shape), 1), order="F"),
                                    k.conj().reshape((np.prod(k.shape), 1), order="F"))
-                          for k in krauss]) / input_dim**2
+                          for k in krauss]) / dim_code**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
-                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / input_dim**2
+                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / dim_code**2
         C_e_sparse = coo_matrix(C_e)  # Turn to sparse array
 
     # Set up objective function as average fidelity wrt to maximally mixed state ensemble.
-- 
2.43.0


From f316c43abee24a04833c42911301ad8d90fef33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 28/35] fix: objective of the decoder program for complex Kraus
 operators

Both factors of the outer product were conjugated.
---
 PyQCodes/avgfid/avg_fidelity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index a98c116..5c818d6 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -215,7 +215,7 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
                           for k in krauss]) / dim_code**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
-                            np.ravel(np.conj(k).T, order="F")) for k in krauss]) / dim_code**2
+                            np.ravel(k.T, order="F")) for k in krauss]) / dim_code**2
         C_e_sparse = coo_matrix(C_e)  # Turn to sparse array
 
     # Set up objective function as average fidelity wrt to maximally mixed state ensemble.
-- 
2.43.0


From d6b5bc478a6bbcd14395cced17ad463e32065711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 29/35] fix: objective of the decoder program for sparse Kraus
 operators

The outer product of sparse matrices gave an object array and raised.
---
 PyQCodes/avgfid/avg_fidelity.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index 5c818d6..dc21082 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -210,9 +210,8 @@ def _optimize_average_entang_fid(krauss, numb_qubits, dim_in, dim_out, encoder=F
         print("The size is ", krauss[0].size)
         print(krauss[0].shape)
         print(type(krauss[0]))
-        C_e_sparse = sum([np.outer(k.conj().reshape((np.prod(k.shape), 1), order="F"),
-                                   k.conj().reshape((np.prod(k.shape), 1), order="F"))
-                          for k in krauss]) / dim_code**2
+        vecs = [k.conj().T.reshape((np.prod(k.shape), 1), order="F") for k in krauss]
+        C_e_sparse = sum([v.dot(v.conj().T) for v in vecs]) / dim_code**2
     else:
         C_e = sum([np.outer(np.ravel(np.conj(k).T, order="F"),
                             np.ravel(k.T, order="F")) for k in krauss]) / dim_code**2
-- 
2.43.0


From 7eb03f78ec984d97ee84e41c46a6a0f2777c0ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 30/35] fix: decoder program of codes with several logical
 qubits

The channel acts on k qubits, but was declared as acting on one.
---
 PyQCodes/avgfid/avg_fidelity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index dc21082..5a5ef30 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -84,7 +84,7 @@ def optimize_decoder_stabilizers(stabilizer, code_param, kraus_chan, sparse=Fals
     """
     # Set up stabilizer code, pauli-channel error and update the channel to match encoder.
     stab = StabilizerCode(stabilizer, code_param[0], code_param[1])
-    error_chan = AnalyticQChan(kraus_chan, [1, 1], 2, 2, sparse=sparse)
+    error_chan = AnalyticQChan(kraus_chan, [code_param[1]] * 2, 2, 2, sparse=sparse)
     error_chan.krauss.update_kraus_operators(code_param[0] // code_param[1])
 
     # Get Kraus Operator for encoder.
-- 
2.43.0


From 0627c5c8c56c97d0d3ac93d6679e0d03cb2bd6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 31/35] fix: optimize_decoder computes the code parameters

They were undefined and it raised a NameError.
---
 PyQCodes/avgfid/avg_fidelity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/avgfid/avg_fidelity.py b/PyQCodes/avgfid/avg_fidelity.py
index 5a5ef30..07a401b 100644
--- a/PyQCodes/avgfid/avg_fidelity.py
+++ b/PyQCodes/avgfid/avg_fidelity.py
@@ -28,9 +28,12 @@ def optimize_decoder(encoder, kraus_chan, numb_qubits, dim_in, dim_out, objectiv
                      sparse=False, param_dens="over", param_decoder="", options=None):
     #TODO:
 
+    # The encoder is an isometry from k-qubits to n-qubits.
+    code_param = [int(np.round(np.log2(dim))) for dim in encoder.shape]
+
     # Set up stabilizer code, pauli-channel error and update the channel to match encoder.
     error_chan = AnalyticQChan(kraus_chan, numb_qubits, dim_in, dim_out)
-    error_chan.krauss.update_kraus_operators(code_param[0] // code_param[1])
+    error_chan.krauss.update_kraus_operators(code_param[0] // numb_qubits[0])
 
     # Kraus operators for channel composed with encoder.
     kraus_chan = [x.dot(encoder) for x in error_chan.nth_kraus_operators]
-- 
2.43.0


From 06bac6d645b0781a30540cac04aa9b5fd9081f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 32/35] fix: correcting sparse errors by stabilizers

numpy.all of a sparse matrix gives the matrix back, whose truth value is undefined, so the
sparse option always raised a ValueError.
---
 PyQCodes/codes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index d2abe43..febe9f3 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -354,7 +354,7 @@ class StabilizerCode():
                 error_p = error.dot(p)
 
                 # Check if they are anti-commuting.
-                if np.all(abs(error_p + p_error) < 1e-5):
+                if abs(error_p + p_error).max() < 1e-5:
                     # Append stabilier multipled by error for entire error-correcting procedure.
                     kraus.append(p.dot(error))
                     found_decoder = True  # Error is correctable.
-- 
2.43.0


From e284a6b59c4127f47652af19089d6cdca94b5ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:19 +0000
Subject: [PATCH 33/35] fix: effective channel of sparse errors

Pauli elements are scipy sparse matrices, which cannot be multiplied with the sparse arrays
that hold the Kraus operators of the channel.
---
 PyQCodes/find_codes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index 555d3e4..bde6c2e 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -163,7 +163,10 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     encoder = stab.encode_krauss_operators()
 
     # Get the kraus operators for the stabilizers that anti-commute with each kraus operator.
-    kraus = stab.kraus_operators_correcting_errors(error_chan.krauss.nth_kraus_ops, sparse=sparse)
+    errors = error_chan.krauss.nth_kraus_ops
+    if sparse:
+        errors = [x.tocsr() for x in errors]  # Same sparse format as the pauli elements.
+    kraus = stab.kraus_operators_correcting_errors(errors, sparse=sparse)
     # Multiply by the encoder to get the full approximate error-correcting.
     kraus = [x.dot(encoder) for x in kraus]
 
-- 
2.43.0


From 5ff67d8e6a7537e02973f90abc6931381d4dd76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:28 +0000
Subject: [PATCH 34/35] fix: concatenation and normalizer of codes whose normal
 form swaps qubits

---
 PyQCodes/codes.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/PyQCodes/codes.py b/PyQCodes/codes.py
index febe9f3..215a095 100644
--- a/PyQCodes/codes.py
+++ b/PyQCodes/codes.py
@@ -749,6 +749,8 @@ class StabilizerCode():
 
         """
         output = self.stab_bin_rep.copy()
+        # Swapping columns swaps qubits, keep track of which qubit each column stands for.
+        self._qubit_order = np.arange(self.n)
 
         rank = self._rank_modulo_two(self.stab_bin_rep[:, :self.n])
         numb_stabs = self.numb_stab
@@ -772,6 +774,7 @@ class StabilizerCode():
                             copy = output[:, i_col + self.n].copy()
                             output[:, i_col + self.n] = output[:, j + self.n]
                             output[:, j + self.n] = copy
+                            self._qubit_order[[j, i_col]] = self._qubit_order[[i_col, j]]
 
                             # Swap row too.
                             copy = output[j, :].copy()
@@ -857,6 +860,8 @@ class StabilizerCode():
                         copy = output[:, i_col - self.n].copy()
                         output[:, i_col - self.n] = output[:, j - self.n]
                         output[:, j - self.n] = copy
+                        swap = [j - self.n, i_col - self.n]
+                        self._qubit_order[swap] = self._qubit_order[swap[::-1]]
                         break
 
             # If it is still zero. Return a warning.
@@ -871,6 +876,22 @@ class StabilizerCode():
                     output[i, :] = (output[j - self.n, :] + output[i, :]) % 2
         return output
 
+    def _original_qubit_order(self, binary_rep):
+        r"""Undo the qubit swaps of the standard normal form on rows of binary representations."""
+        output = np.zeros_like(binary_rep)
+        output[:, self._qubit_order] = binary_rep[:, :self.n]
+        output[:, self._qubit_order + self.n] = binary_rep[:, self.n:]
+        return output
+
+    def _logical_ops_of_generators(self):
+        r"""Logical operators in the qubit order of the generators that were provided."""
+        logical_x, logical_z = self.logical_x, self.logical_z
+        for logical in np.vstack((logical_x, logical_z)):
+            if any(StabilizerCode.inner_prod(logical, stab) for stab in self.stab_bin_rep):
+                # Logical operators of the normal form: swapped columns are swapped qubits.
+                return self._original_qubit_order(logical_x), self._original_qubit_order(logical_z)
+        return logical_x, logical_z
+
     def _standard_normal_form(self):
         gaus_elim, rank = self._gaussian_elimination_first_block()
         return self._gaussian_elimination_second_block(gaus_elim, rank), rank
@@ -984,6 +1005,7 @@ class StabilizerCode():
 
         """
         normalizer = []
+        logical_ops = np.vstack(self._logical_ops_of_generators())
         # Worse-case algorithm. Go through every permutation
         all_pauli_reps = itertools.product([0, 1], repeat=2 * self.n)
         # all_pauli_reps = self.generator_set_pauli_elements()
@@ -998,7 +1020,7 @@ class StabilizerCode():
                     break
             # Elements that commute with every logical operator belong to the stabilizer group.
             if does_commute and any(StabilizerCode.inner_prod(logical, pauli)
-                                    for logical in np.vstack((self.logical_x, self.logical_z))):
+                                    for logical in logical_ops):
                 normalizer.append(pauli)
         return np.array(normalizer)
 
@@ -1060,8 +1082,7 @@ class StabilizerCode():
                     generator.append(new_gen_x + new_gen_z)
 
             # Go through each generator from stab1.
-            logical_x = stab2.logical_x[0]
-            logical_z = stab2.logical_z[0]
+            logical_x, logical_z = [x[0] for x in stab2._logical_ops_of_generators()]
             for i in range(0, stab1.numb_stab):
                 stabilizer = stab1.stab_bin_rep[i]
                 new_gen_x = []
@@ -1100,8 +1121,7 @@ class StabilizerCode():
 
                     generator.append(new_gen_x + new_gen_z)
             # Go through each generator from stab1.
-            logical_x = stab2.logical_x
-            logical_z = stab2.logical_z
+            logical_x, logical_z = stab2._logical_ops_of_generators()
             for i in range(0, stab1.numb_stab):
                 stabilizer = stab1.stab_bin_rep[i]
                 new_gen_x = np.zeros((total_qubits), dtype=np.int)
-- 
2.43.0


From 67455d114e6c60144aed8116e5ff4a48be46f917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:16 +0000
Subject: [PATCH 35/35] fix: effective channel of several logical qubits
 searches all states, not rank two

---
 PyQCodes/find_codes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyQCodes/find_codes.py b/PyQCodes/find_codes.py
index bde6c2e..996dbae 100644
--- a/PyQCodes/find_codes.py
+++ b/PyQCodes/find_codes.py
@@ -177,7 +177,8 @@ def effective_channel_with_stabilizers(stabilizer, code_param, pauli_errors, opt
     settings = {"param": "overparam", "lipschitz": 25, "use_pool": 3, "maxiter": 250}
     settings.update({} if options is None else options)
     if optimize == "coherent":
-        result = total_chan.optimize_coherent(n=1, rank=2, optimizer="slsqp", **settings)
+        result = total_chan.optimize_coherent(n=1, rank=2**code_param[1], optimizer="slsqp",
+                                              **settings)
     else:
         result = total_chan.optimize_fidelity(n=1, optimizer="slsqp", **settings)
     return result
-- 
2.43.0

