From 32abcee782ab040355f5ba52ebfe7c3da2a83750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 01/17] fix: SU(N) Clebsch-Gordan tensors of irreps with outer
 or weight multiplicities

Every solution but the first was left unfilled below its highest weight, and the
states of a weight space of dimension > 1 were mixed up when lowering.
---
 lie_nn/_src/irreps/sun.py | 86 +++++++++------------------------------
 1 file changed, 20 insertions(+), 66 deletions(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index cd0ace2..a85db85 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -304,77 +304,31 @@ def clebsch_gordan_eldest(S1: WEIGHT, S2: WEIGHT, M_3_eldest: GT_PATTERN) -> np.
     )
 
 
-def search_state(M_list: List[GT_PATTERN]) -> Tuple[GT_PATTERN, GT_PATTERN, int]:
-    M0 = M_list[0]
-    n = len(M0)
-    S3 = M0[0]
-
-    for Mc in M_list:
-        for Mp in S_to_Ms(S3):
-            if Mp in M_list:
-                continue
-
-            for l in range(n - 1):
-                if lower_ladder(l, Mp, Mc) != 0:
-                    return (Mc, Mp, l)
-
-    raise ValueError("No state found")
-
-
-def construct_lower_cg(
-    S1: WEIGHT,
-    S2: WEIGHT,
-    S3: WEIGHT,
-    Mp: GT_PATTERN,
-    Mc: GT_PATTERN,
-    l: int,
-    alpha: int,
-    C: np.array,
-) -> Tuple[np.ndarray, int]:
-    dimS1 = dim(S1)
-    dimS2 = dim(S2)
-    mc, mp = M_to_index(Mc), M_to_index(Mp)
-    CG = np.zeros((dimS1, dimS2))
-    for m1 in range(dimS1):
-        for m2 in range(dimS2):
-            for n1 in range(dimS1):
-                for n2 in range(dimS2):
-                    if n2 == m2:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S1, n1), index_to_M(S1, m1))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-                    if n1 == m1:
-                        CG[n1, n2] += (
-                            C[alpha, m1, m2, mc]
-                            * lower_ladder(l, index_to_M(S2, n2), index_to_M(S2, m2))
-                            * upper_ladder(l, index_to_M(S3, mc), index_to_M(S3, mp))
-                        )
-
-    return CG / np.linalg.norm(CG)
+def weight_spaces(S: WEIGHT) -> List[List[int]]:
+    """Group the (indices of the) states of S by weight, highest weight first."""
+    spaces = {}
+    for i, M in enumerate(S_to_Ms(S)):
+        spaces.setdefault(M_to_p_weight(M), []).append(i)
+    return [spaces[w] for w in sorted(spaces)]
 
 
 def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
-    dimS1 = dim(S1)
-    dimS2 = dim(S2)
-    dimS3 = dim(S3)
     M_eldest = tuple(S_to_Ms(S3))[-1]
     C_eldest = clebsch_gordan_eldest(S1, S2, M_eldest)
-    C = np.concatenate(
-        (
-            np.zeros((C_eldest.shape[0], dimS1, dimS2, dimS3 - 1)),
-            (C_eldest.reshape(C_eldest.shape[0], dimS1, dimS2, 1)),
-        ),
-        axis=-1,
-    )
-    M_list = [M_eldest]
-    for alpha in range(C.shape[0]):
-        while len(M_list) != dimS3:
-            Mc, Mp, l = search_state(M_list)
-            mp = M_to_index(Mp)
-            C[alpha, :, :, mp] = construct_lower_cg(S1, S2, S3, Mp, Mc, l, alpha, C)
-            M_list.append(Mp)
+    C = np.zeros(C_eldest.shape + (dim(S3),))
+    C[..., -1] = C_eldest
+
+    Jm1, Jm2, Jm3 = map(lower_ladder_matrices, (S1, S2, S3))
+    for states in weight_spaces(S3)[1:]:
+        # (J1- + J2-)(l) C[p] = sum_m <m| J3-(l) |p> C[m] for the states p above those of
+        # this weight space. A ladder operator can reach several states m of the same weight,
+        # so all the states of the weight space have to be solved for together.
+        lp = [(l, p) for l, p in np.argwhere(np.any(Jm3[:, states, :] != 0, axis=1))]
+        coeffs = np.stack([Jm3[l, states, p] for l, p in lp])  # [eq, m]
+        lowered = np.stack(
+            [Jm1[l] @ C[..., p] + C[..., p] @ Jm2[l].T for l, p in lp]
+        )  # [eq, alpha, m1, m2]
+        C[..., states] = np.einsum("me,eaij->aijm", np.linalg.pinv(coeffs), lowered)
     return C
 
 
-- 
2.43.0


From c7008fa6705daf459133bce524600fd4f7a854d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 02/17] fix: continuous generators of a ReducedRep of a finite
 group

---
 lie_nn/_src/reduced_rep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 98eb03c..d67c43e 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -110,6 +110,8 @@ class ReducedRep(Rep):
         return self._A
 
     def continuous_generators(self) -> np.ndarray:
+        if self.lie_dim == 0:
+            return np.empty((0, self.dim, self.dim))
         Xs = []
         for i in range(self.lie_dim):
             X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
-- 
2.43.0


From d1eae0dbb22e1d37136d2f37aaa09d5e4cfa8c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 03/17] fix: order of the factors in tensor_product(ReducedRep,
 MulIrrep)

---
 lie_nn/_src/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 603f91e..b8bd592 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -114,7 +114,7 @@ def tensor_product(mulirrep1: MulIrrep, rep2: ReducedRep) -> ReducedRep:  # noqa
 
 @dispatch(ReducedRep, MulIrrep)
 def tensor_product(rep1: ReducedRep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
-    return tensor_product(ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None), rep1)
+    return tensor_product(rep1, ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None))
 
 
 @dispatch(ReducedRep, TabulatedIrrep)
-- 
2.43.0


From bfc30eb6c6137ec93df96181a374335feb7d1c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 04/17] fix: make representations real without crossing the
 branch cut of sqrtm

-1 is an eigenvalue of S, where the principal square root is discontinuous: the
branch taken, and so whether the result was real, depended on rounding errors.
---
 lie_nn/_src/irreps/so13.py |  4 ++--
 lie_nn/_src/real.py        |  4 ++--
 lie_nn/_src/util.py        | 29 +++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/irreps/so13.py b/lie_nn/_src/irreps/so13.py
index 9b32c92..ed3a9cc 100644
--- a/lie_nn/_src/irreps/so13.py
+++ b/lie_nn/_src/irreps/so13.py
@@ -6,8 +6,8 @@ from typing import Iterator
 import numpy as np
 
 import lie_nn as lie
-from scipy.linalg import sqrtm
 from ..irrep import TabulatedIrrep
+from ..util import explicitly_real_basis
 from .sl2c import SL2C
 
 
@@ -77,7 +77,7 @@ class SO13(
             return X
 
         assert rep.l == rep.k
-        W = sqrtm(S[0])
+        W = explicitly_real_basis(S[0])
         iW = np.linalg.inv(W)
         X = W @ X @ iW
         return lie.util.round_to_sqrt_rational(X.real)
diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index eefc524..1ded2f7 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -1,7 +1,7 @@
 import numpy as np
-import scipy.linalg as la
 
 import lie_nn as lie
+from .util import explicitly_real_basis
 
 
 def is_real(rep: lie.Rep) -> bool:
@@ -14,7 +14,7 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
     if S.shape[0] == 0:
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
-    rep = lie.change_basis(rep, la.sqrtm(S[0]))
+    rep = lie.change_basis(rep, explicitly_real_basis(S[0]))
     if np.linalg.norm(rep.X.imag) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 93ec850..832ee68 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -389,6 +389,35 @@ def infer_change_of_basis(
     return S
 
 
+def explicitly_real_basis(S: np.ndarray) -> np.ndarray:
+    r"""Change of basis that makes the generators of a representation explicitly real.
+
+    .. math::
+
+        S X = \bar X S
+        \implies W X W^{-1} = \overline{W X W^{-1}}
+
+    Args:
+        S: Change of basis from the representation to its conjugate, shape ``(d, d)``.
+
+    Returns:
+        The change of basis ``W``, shape ``(d, d)``.
+    """
+    d = S.shape[0]
+    c = np.trace(S @ np.conj(S)).real / d  # Schur: S @ conj(S) = c * I
+    if c <= 0.0:
+        raise ValueError("The representation is not real")
+    S = S / np.sqrt(c)
+    # conj(W) @ S = W holds for any phase a, and W is singular if -a / conj(a) is an eigenvalue of S
+    # (sqrtm(S) can not be used here: -1 is an eigenvalue of S and lies on its branch cut)
+    for theta in np.pi * np.array([1 / 4, 1 / 8, 3 / 8, 1 / 16, 3 / 16, 5 / 16, 7 / 16]):
+        a = np.exp(1j * theta) / np.sqrt(2.0)
+        W = a * np.eye(d) + np.conj(a) * S
+        if np.linalg.cond(W) < 1e4:
+            return W
+    raise ValueError("Could not find a basis in which the representation is real")
+
+
 def basis_intersection(
     basis1: np.ndarray, basis2: np.ndarray, *, epsilon=1e-5, round_fn=lambda x: x
 ) -> Tuple[np.ndarray, np.ndarray]:
-- 
2.43.0


From 7400b4234e6e9f315cb97b5608e6f8e33bc65679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 05/17] fix: nullspace no longer rounds the projector

Its entries are products of entries of unit vectors and fall below the resolution
of round_to_sqrt_rational, which produced spurious vectors for large representations.
---
 lie_nn/_src/util.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 832ee68..c7a82af 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -289,7 +289,6 @@ def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarra
     val, vec = np.linalg.eigh(A)
     X = vec.T[np.abs(val) < epsilon]
     X = np.conj(X.T) @ X
-    X = round_fn(X)
     X = gram_schmidt(X, round_fn=round_fn, epsilon=epsilon)
     return X
 
-- 
2.43.0


From 5a570b95e3d919331ffc84948a5e094179760a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 06/17] fix: basis_intersection of complex or empty bases

The Gram matrix of complex bases was not Hermitian, and a basis without vectors
could not be flattened (antisymmetric formulas in reduced_tensor_product_basis).
---
 lie_nn/_src/util.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index c7a82af..12c5ab3 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -444,26 +444,28 @@ def basis_intersection(
         array([[1., 0., 0.]])
     """
     assert basis1.shape[1:] == basis2.shape[1:]
-    basis1 = np.reshape(basis1, (basis1.shape[0], -1))
-    basis2 = np.reshape(basis2, (basis2.shape[0], -1))
+    basis1 = np.reshape(basis1, (basis1.shape[0], prod(basis1.shape[1:])))
+    basis2 = np.reshape(basis2, (basis2.shape[0], prod(basis2.shape[1:])))
 
+    # x1 @ basis1 = x2 @ basis2  <=>  (x1, x2) @ p = 0  <=>  conj(p) @ (x1, x2)^T = 0
+    b1, b2 = np.conj(basis1.T), np.conj(basis2.T)
     p = np.concatenate(
         [
-            np.concatenate([basis1 @ basis1.T, -basis1 @ basis2.T], axis=1),
-            np.concatenate([-basis2 @ basis1.T, basis2 @ basis2.T], axis=1),
+            np.concatenate([basis1 @ b1, -basis1 @ b2], axis=1),
+            np.concatenate([-basis2 @ b1, basis2 @ b2], axis=1),
         ],
         axis=0,
     )
     p = round_fn(p)
 
-    w, v = np.linalg.eigh(p)
+    w, v = np.linalg.eigh(np.conj(p))
     v = v[:, w < epsilon]
 
     x1 = v[: basis1.shape[0], :]
-    x1 = gram_schmidt(x1 @ x1.T, epsilon=epsilon, round_fn=round_fn)
+    x1 = gram_schmidt(np.conj(x1) @ x1.T, epsilon=epsilon, round_fn=round_fn)
 
     x2 = v[basis1.shape[0] :, :]
-    x2 = gram_schmidt(x2 @ x2.T, epsilon=epsilon, round_fn=round_fn)
+    x2 = gram_schmidt(np.conj(x2) @ x2.T, epsilon=epsilon, round_fn=round_fn)
     return x1, x2
 
 
-- 
2.43.0


From 5e4161e5f436b6148c8fa33f2738b33dc23044e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 07/17] fix: reduced tensor products do not depend on the
 iteration order of sets

---
 lie_nn/_src/reduced_tensor_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 8d113f5..c4d67bd 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -249,7 +249,7 @@ def _reduced_tensor_product_basis(
         i, j, f = best
         del bases[j]
         del bases[i]
-        sub_irreps = tuple(irreps_tuple[i] for i in f)
+        sub_irreps = tuple(irreps_tuple[i] for i in sorted(f))
         sub_perm_repr = subrepr_permutation(f, perm_repr)
         ab = _reduced_tensor_product_basis(sub_irreps, sub_perm_repr, epsilon)
         ab = ab.reshape(tuple(dims[i] if i in f else 1 for i in range(len(dims))) + (-1,))
@@ -383,7 +383,7 @@ def reduce_subgroup_permutation(
     return_dim: bool = False,
 ) -> np.ndarray:
     sub_perm_repr = subrepr_permutation(sub_f0, perm_repr)
-    sub_dims = tuple(dims[i] for i in sub_f0)
+    sub_dims = tuple(dims[i] for i in sorted(sub_f0))
     if len(sub_perm_repr) == 1:
         if return_dim:
             return prod(sub_dims)
-- 
2.43.0


From bc05f359e28adab9742df9b6552a7d423f5d02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 08/17] fix: a failed check_representation_triplet leaves
 NumPy's print options as they were

---
 lie_nn/_src/rep.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lie_nn/_src/rep.py b/lie_nn/_src/rep.py
index 7f79612..3e91ea5 100644
--- a/lie_nn/_src/rep.py
+++ b/lie_nn/_src/rep.py
@@ -173,16 +173,15 @@ def check_representation_triplet(rep1: Rep, rep2: Rep, rep3: Rep, rtol=1e-10, at
             if not np.allclose(
                 left_side[solution][i], right_side[solution][i], rtol=rtol, atol=atol
             ):
-                np.set_printoptions(precision=3, suppress=True)
-                print(rep1, rep2, rep3)
-                print('Left side: einsum("zijk,dlk->zdijl", cg, X3)')
-                print(left_side[solution][i])
-                print(
-                    "Right side: "
-                    'einsum("dil,zijk->zdljk", X1, cg) + einsum("djl,zijk->zdilk", X2, cg)'
-                )
-                print(right_side[solution][i])
-                np.set_printoptions(precision=8, suppress=False)
+                with np.printoptions(precision=3, suppress=True):
+                    print(rep1, rep2, rep3)
+                    print('Left side: einsum("zijk,dlk->zdijl", cg, X3)')
+                    print(left_side[solution][i])
+                    print(
+                        "Right side: "
+                        'einsum("dil,zijk->zdljk", X1, cg) + einsum("djl,zijk->zdilk", X2, cg)'
+                    )
+                    print(right_side[solution][i])
                 raise AssertionError(
                     f"Solution {solution}/{cg.shape[0]} for {rep1} * {rep2} = {rep3} "
                     "is not correct."
-- 
2.43.0


From 716cdf808e97917430fd3509a369bba81a13c234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:19 +0000
Subject: [PATCH 09/17] fix: reduce representations with multiplicities or in
 complex bases

---
 lie_nn/_src/reduce.py | 23 ++++++-----------------
 lie_nn/_src/util.py   | 29 +++++++++++++++++++++++------
 2 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/lie_nn/_src/reduce.py b/lie_nn/_src/reduce.py
index 09d93e7..c2d209f 100644
--- a/lie_nn/_src/reduce.py
+++ b/lie_nn/_src/reduce.py
@@ -1,10 +1,9 @@
 import numpy as np
 from multipledispatch import dispatch
 
-from .infer_change_of_basis import infer_change_of_basis
 from .reduced_rep import MulIrrep, ReducedRep
 from .rep import GenericRep, Rep
-from .util import decompose_rep_into_irreps
+from .util import invariant_subspaces
 
 
 @dispatch(MulIrrep)
@@ -27,18 +26,8 @@ def reduce(rep: Rep) -> ReducedRep:  # noqa: F811
     r"""Reduce an unknown representation to a reduced form.
     This operation is slow and should be avoided if possible.
     """
-    Ys = decompose_rep_into_irreps(np.concatenate([rep.X, rep.H]))
-    Ys = sorted(Ys, key=lambda x: x.shape[1])
-    d = rep.lie_dim
-    Qs = []
-    irs = []
-    for Y in Ys:
-        ir = GenericRep(rep.A, Y[:d], Y[d:])
-        Q = infer_change_of_basis(ir, rep)
-        Q = np.einsum("mij->imj", Q).reshape((rep.dim, ir.dim))
-        Qs.append(Q)
-        irs.append(ir)
-
-    Q = np.concatenate(Qs, axis=1)
-    rep = ReducedRep(rep.A, tuple(MulIrrep(1, ir) for ir in irs), Q)
-    return rep
+    Bs = invariant_subspaces(np.concatenate([rep.X, rep.H]))
+    Bs = sorted(Bs, key=lambda B: B.shape[0])
+    irs = [GenericRep(rep.A, B.conj() @ rep.X @ B.T, B.conj() @ rep.H @ B.T) for B in Bs]
+    Q = np.concatenate([B.T for B in Bs], axis=1)
+    return ReducedRep(rep.A, tuple(MulIrrep(1, ir) for ir in irs), Q)
diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 12c5ab3..b70ff6a 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -590,28 +590,45 @@ def eigenspaces(
     return [(val, vec[:, i == j]) for j, val in enumerate(unique_val)]
 
 
-def decompose_rep_into_irreps(
+def invariant_subspaces(
     X: np.array, *, epsilon: float = 1e-10, round_fn=lambda x: x
 ) -> List[np.array]:
-    """Decomposes representation into irreducible representations.
+    """Splits the space on which a representation acts into irreducible invariant subspaces.
     Input:
         X: np.array [num_gen, d, d] - generators of a representation.
     Output:
-        Ys: List[np.array] - list of generators of irreducible representations.
+        Bs: List[np.array] - list of orthonormal bases, array [dim_subspace, d], of subspaces that
+                             sum to the whole space: X @ B.T = B.T @ Y where Y = conj(B) @ X @ B.T.
     """
+    # The scale of the generators does not matter, but the tolerances are absolute
+    norms = np.linalg.norm(X, axis=(1, 2), keepdims=True)
+    X = X / np.where(norms > 0.0, norms, 1.0)
+
     Q = infer_change_of_basis(X, X, epsilon=epsilon, round_fn=round_fn)  # X @ Q == Q @ X
     w = np.random.rand(len(Q))
     M = np.einsum("n,nij->ij", w, Q)
     val, vec = np.linalg.eig(M)
     stable_spaces = eigenspaces(val, vec, epsilon=epsilon)
 
-    Ys = []
+    Bs = []
     for _, W in stable_spaces:
         B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
         B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
+        Bs.append(B)
+    return Bs
 
-        Ys += [B @ X @ B.T.conj()]
-    return Ys
+
+def decompose_rep_into_irreps(
+    X: np.array, *, epsilon: float = 1e-10, round_fn=lambda x: x
+) -> List[np.array]:
+    """Decomposes representation into irreducible representations.
+    Input:
+        X: np.array [num_gen, d, d] - generators of a representation.
+    Output:
+        Ys: List[np.array] - list of generators of irreducible representations.
+    """
+    Bs = invariant_subspaces(X, epsilon=epsilon, round_fn=round_fn)
+    return [B.conj() @ X @ B.T for B in Bs]
 
 
 def is_irreducible(X: np.array, *, epsilon: float = 1e-10) -> bool:
-- 
2.43.0


From 546be5482123a255e691b7a226f7a0a61c5c9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 10/17] fix: a draw that does not separate irreducible
 subspaces raises instead of returning a reducible block

---
 lie_nn/_src/util.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index b70ff6a..3d5ea04 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -615,6 +615,16 @@ def invariant_subspaces(
         B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
         B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
         Bs.append(B)
+
+    # If eigenvalues of M are (nearly) tied, M does not tell the irreducible subspaces apart
+    W = np.concatenate(Bs)
+    separated = W.shape[0] == W.shape[1] and np.linalg.cond(W) < 1e5
+    for B in Bs:
+        Y = B.conj() @ X @ B.T
+        separated = separated and np.allclose(X @ B.T, B.T @ Y, rtol=0.0, atol=1e-8)
+        separated = separated and is_irreducible(Y, epsilon=epsilon)
+    if not separated:
+        raise ValueError("The random draw does not separate the irreducible subspaces, try again")
     return Bs
 
 
-- 
2.43.0


From 075967f3285d2b22de18dbf1d5d06eb1fb924038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:21 +0000
Subject: [PATCH 11/17] fix: reduced tensor products of factors in an arbitrary
 basis are complete

---
 lie_nn/_src/reduced_tensor_product.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index c4d67bd..0386bf2 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -182,6 +182,12 @@ def reduced_symmetric_tensor_product_basis(
     return RepArray(ReducedRep.from_irreps(out.irreps), out.array, out.list)
 
 
+def _round_if_close(x: np.ndarray) -> np.ndarray:
+    # The coefficients are square roots of rationals only if the basis of the factors is
+    y = round_to_sqrt_rational(x)
+    return np.where(np.abs(x - y) < 1e-14, y, x)
+
+
 # @functools.lru_cache(maxsize=None)
 def _reduced_tensor_product_basis(
     irreps_tuple: Tuple[ReducedRep, ...],
@@ -228,7 +234,7 @@ def _reduced_tensor_product_basis(
                 return ab.sorted().simplify()
             p = reduce_subgroup_permutation(f, perm_repr, dims)
             ab = constrain_rotation_basis_by_permutation_basis(
-                ab, p, epsilon=epsilon, round_fn=round_to_sqrt_rational
+                ab, p, epsilon=epsilon, round_fn=_round_if_close
             )
             return ab.sorted().simplify()
 
-- 
2.43.0


From a865dbffb27c6bda5397858d5c97320f13c6d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:37 +0000
Subject: [PATCH 12/17] fix: prefer a well conditioned basis when making a
 representation real

The first acceptable phase could have a condition number of several thousand, and
the imaginary parts left by rounding made a real representation be refused.
---
 lie_nn/_src/util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 3d5ea04..4d4569f 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -409,11 +409,13 @@ def explicitly_real_basis(S: np.ndarray) -> np.ndarray:
     S = S / np.sqrt(c)
     # conj(W) @ S = W holds for any phase a, and W is singular if -a / conj(a) is an eigenvalue of S
     # (sqrtm(S) can not be used here: -1 is an eigenvalue of S and lies on its branch cut)
-    for theta in np.pi * np.array([1 / 4, 1 / 8, 3 / 8, 1 / 16, 3 / 16, 5 / 16, 7 / 16]):
-        a = np.exp(1j * theta) / np.sqrt(2.0)
-        W = a * np.eye(d) + np.conj(a) * S
-        if np.linalg.cond(W) < 1e4:
-            return W
+    # the generators lose the square of the condition number of W in accuracy
+    for max_cond in [1e2, 1e4]:
+        for theta in np.pi * np.array([1 / 4, 1 / 8, 3 / 8, 1 / 16, 3 / 16, 5 / 16, 7 / 16]):
+            a = np.exp(1j * theta) / np.sqrt(2.0)
+            W = a * np.eye(d) + np.conj(a) * S
+            if np.linalg.cond(W) < max_cond:
+                return W
     raise ValueError("Could not find a basis in which the representation is real")
 
 
-- 
2.43.0


From 525102ea3f8543979883a97578c9ae0e4a0121e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:29 +0000
Subject: [PATCH 13/17] fix: check_algebra_vs_generators of representations
 without continuous generators

vmap can not stack an empty list without knowing the shape.
---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 4d4569f..87c68c6 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -474,7 +474,7 @@ def basis_intersection(
 def check_algebra_vs_generators(
     A: np.ndarray, X: np.ndarray, rtol: float = 1e-10, atol: float = 1e-10, assert_: bool = False
 ):
-    left_side = vmap(vmap(commutator, (0, None), 0), (None, 0), 1)(X, X)
+    left_side = commutator(X[:, None], X[None, :])
     right_side = np.einsum("ijk,kab->ijab", A, X)
     if assert_:
         np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)
-- 
2.43.0


From c36667e4c305c8ea525a04e07ad73858cdda905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 14/17] fix: infer the algebra of a representation without
 continuous generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 87c68c6..d881cdd 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -502,7 +502,7 @@ def infer_algebra_from_generators(
         np.ndarray: If successful, the algebra. Shape ``(n, n, n)``.
     """
     n = X.shape[0]
-    pinv = np.linalg.pinv(X.reshape((n, -1)))
+    pinv = np.linalg.pinv(X.reshape((n, X.shape[1] * X.shape[2])))
 
     algebra = np.zeros((n, n, n))
     for i in range(n):
-- 
2.43.0


From ca3971b2fd4265ab4c46b6ee910d4e160862bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 15/17] fix: infer structure constants of generators that are
 dependent over the complex numbers

---
 lie_nn/_src/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index d881cdd..9312932 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -502,12 +502,17 @@ def infer_algebra_from_generators(
         np.ndarray: If successful, the algebra. Shape ``(n, n, n)``.
     """
     n = X.shape[0]
-    pinv = np.linalg.pinv(X.reshape((n, X.shape[1] * X.shape[2])))
+    # the structure constants are real, real and imaginary parts are separate equations
+    # (over the complex numbers the generators can be linearly dependent, e.g. in sl(2, C))
+    pinv = np.linalg.pinv(
+        np.concatenate([np.real(X), np.imag(X)], axis=2).reshape((n, 2 * X.shape[1] * X.shape[2]))
+    )
 
     algebra = np.zeros((n, n, n))
     for i in range(n):
         for j in range(n):
             xij = commutator(X[i], X[j])
+            xij = np.concatenate([np.real(xij), np.imag(xij)], axis=1)
             algebra[i, j] = xij.reshape(-1) @ pinv
 
     algebra = round_fn(algebra)
-- 
2.43.0


From a11a55be3dd7703dfc1e23de90a250391e282f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:18 +0000
Subject: [PATCH 16/17] fix: orthogonalize stably, null spaces without spurious
 vectors

Gram-Schmidt of nearly dependent rows (such as those of the projector on a null space) magnified the
rounding errors at every step: null spaces came out too large or not null, and reduce() failed for
every draw. Orthogonalize twice, in the coordinates of the null space.
---
 lie_nn/_src/util.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 9312932..e7c0a03 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -225,7 +225,10 @@ def gram_schmidt(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.nda
             v -= np.dot(np.conj(w), v) * w
         norm = np.linalg.norm(v)
         if norm > epsilon:
-            v = round_fn(v / norm)
+            v = v / norm
+            for w in Q:  # again, the division by a small norm magnifies the rounding errors
+                v -= np.dot(np.conj(w), v) * w
+            v = round_fn(v / np.linalg.norm(v))
             Q += [v]
     return np.stack(Q) if len(Q) > 0 else np.empty((0, A.shape[1]))
 
@@ -288,8 +291,9 @@ def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarra
     A = round_fn(A)
     val, vec = np.linalg.eigh(A)
     X = vec.T[np.abs(val) < epsilon]
-    X = np.conj(X.T) @ X
-    X = gram_schmidt(X, round_fn=round_fn, epsilon=epsilon)
+    # Gram-Schmidt of the rows of the projector X^H X, done in the coordinates of X: magnified rounding
+    # errors cannot leave the null space. The tolerance is not the one of the eigenvalues.
+    X = round_fn(gram_schmidt(np.conj(X.T)) @ X)
     return X
 
 
@@ -620,7 +624,7 @@ def invariant_subspaces(
     Bs = []
     for _, W in stable_spaces:
         B = gram_schmidt(W.T, epsilon=epsilon)  # Make an orthonormal projector
-        B = gram_schmidt(B.T.conj() @ B, epsilon=epsilon, round_fn=round_fn)  # Make it sparse!!
+        B = round_fn(gram_schmidt(B.T.conj()) @ B)  # Make it sparse!!
         Bs.append(B)
 
     # If eigenvalues of M are (nearly) tied, M does not tell the irreducible subspaces apart
-- 
2.43.0


From 4e304da76bb11b150faf1cc1558754fb505d48c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:17 +0000
Subject: [PATCH 17/17] fix: extend_basis and basis_intersection of nearly
 dependent vectors

extend_basis could return more than n vectors of dimension n, and basis_intersection too large
intersections, for the same reason as the previous commit.
---
 lie_nn/_src/util.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index e7c0a03..1e8a717 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -255,7 +255,10 @@ def extend_basis(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x, returns="
             v -= np.dot(np.conj(w), v) * w
         norm = np.linalg.norm(v)
         if norm > epsilon:
-            v = round_fn(v / norm)
+            v = v / norm
+            for w in Q:
+                v -= np.dot(np.conj(w), v) * w
+            v = round_fn(v / np.linalg.norm(v))
             Q += [v]
             E += [v]
     if returns == "Q":
@@ -467,11 +470,15 @@ def basis_intersection(
     w, v = np.linalg.eigh(np.conj(p))
     v = v[:, w < epsilon]
 
-    x1 = v[: basis1.shape[0], :]
-    x1 = gram_schmidt(np.conj(x1) @ x1.T, epsilon=epsilon, round_fn=round_fn)
+    def orthogonalize(x):
+        # Gram-Schmidt of the rows of m, in coordinates of the space they span (see nullspace)
+        m = np.conj(x) @ x.T
+        w, v = np.linalg.eigh(m)
+        v = v[:, w > epsilon]
+        return round_fn(gram_schmidt(m @ v, epsilon=epsilon) @ np.conj(v.T))
 
-    x2 = v[basis1.shape[0] :, :]
-    x2 = gram_schmidt(np.conj(x2) @ x2.T, epsilon=epsilon, round_fn=round_fn)
+    x1 = orthogonalize(v[: basis1.shape[0], :])
+    x2 = orthogonalize(v[basis1.shape[0] :, :])
     return x1, x2
 
 
-- 
2.43.0

