From ed6a012a3c110e0590695e9c23966ccc3638c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 01/29] fix: tensor_product(ReducedRep, MulIrrep) keeps the
 order of its factors

---
 lie_nn/_src/tensor_product.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index 603f91e..b8bd592 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -114,7 +114,7 @@ def tensor_product(mulirrep1: MulIrrep, rep2: ReducedRep) -> ReducedRep:  # noqa
 
 @dispatch(ReducedRep, MulIrrep)
 def tensor_product(rep1: ReducedRep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
-    return tensor_product(ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None), rep1)
+    return tensor_product(rep1, ReducedRep(A=mulirrep2.A, irreps=(mulirrep2,), Q=None))
 
 
 @dispatch(ReducedRep, TabulatedIrrep)
-- 
2.43.0


From bceb5f876645beeea7f7e0b98d5f912632a1f5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 02/29] fix: ReducedRep.continuous_generators supports groups
 without Lie algebra

---
 lie_nn/_src/reduced_rep.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 98eb03c..d67c43e 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -110,6 +110,8 @@ class ReducedRep(Rep):
         return self._A
 
     def continuous_generators(self) -> np.ndarray:
+        if self.lie_dim == 0:
+            return np.empty((0, self.dim, self.dim))
         Xs = []
         for i in range(self.lie_dim):
             X = direct_sum(*[mul_ir.continuous_generators()[i] for mul_ir in self.irreps])
-- 
2.43.0


From 7b3c35f613757477a8dff2bc0fd3d7511c36ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 03/29] fix: MulIrrep generators support multiplicity zero

---
 lie_nn/_src/reduced_rep.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index d67c43e..9a458b0 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -30,14 +30,14 @@ class MulIrrep(Rep):
 
     def continuous_generators(self) -> np.ndarray:
         X = self.rep.continuous_generators()
-        if X.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if X.shape[0] == 0 or self.mul == 0:
+            return np.empty((X.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in X], axis=0)
 
     def discrete_generators(self) -> np.ndarray:
         H = self.rep.discrete_generators()
-        if H.shape[0] == 0:
-            return np.empty((0, self.dim, self.dim))
+        if H.shape[0] == 0 or self.mul == 0:
+            return np.empty((H.shape[0], self.dim, self.dim))
         return np.stack([direct_sum(*[x for _ in range(self.mul)]) for x in H], axis=0)
 
     def create_trivial(self) -> Rep:
-- 
2.43.0


From 8c5bca128212e689c967fe149b5ef77632132d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 04/29] fix: check_algebra_vs_generators supports empty set of
 continuous generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 93ec850..1d59d77 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -442,7 +442,7 @@ def basis_intersection(
 def check_algebra_vs_generators(
     A: np.ndarray, X: np.ndarray, rtol: float = 1e-10, atol: float = 1e-10, assert_: bool = False
 ):
-    left_side = vmap(vmap(commutator, (0, None), 0), (None, 0), 1)(X, X)
+    left_side = commutator(X[:, None], X[None, :])
     right_side = np.einsum("ijk,kab->ijab", A, X)
     if assert_:
         np.testing.assert_allclose(left_side, right_side, rtol=rtol, atol=atol)
-- 
2.43.0


From 3a2423d9d4071ca696970858c20261b9d6b4178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 05/29] fix: infer_change_of_basis supports representations
 without generators

---
 lie_nn/_src/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 1d59d77..e9f996a 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -381,6 +381,9 @@ def infer_change_of_basis(
         # A @ vec(S) = 0
         As.append(np.kron(x1, np.eye(d2)) - np.kron(np.eye(d1), x2.T))
 
+    if len(As) == 0:
+        As.append(np.zeros((0, d1 * d2)))  # no generators, no constraints
+
     A = np.concatenate(As, axis=0)  # (n * d1 * d2, d1 * d2)
     S = nullspace(A, epsilon=epsilon, round_fn=round_fn)  # (m, d1 * d2)
     S = S.reshape(-1, d1, d2)
-- 
2.43.0


From e2d87872ce0dc0e1d4392acd3b7a4aa58a757d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 06/29] fix: limit_denominator keeps fractions whose
 denominator equals the bound

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index e9f996a..f2db23e 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -74,7 +74,7 @@ def limit_denominator(n, d, max_denominator=1_000_000):
     with np.errstate(over="ignore"):
         mask = np.abs(d1 * (n2 * d0 - n0 * d2)) <= np.abs(d2 * (n1 * d0 - n0 * d1))
     return np.where(
-        d0 < max_denominator,
+        d0 <= max_denominator,
         (n0, d0),
         np.where(mask, (n2, d2), (n1, d1)),
     )
-- 
2.43.0


From 1962231e4c25609482ed28a5db8aeaaa2d09d47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 07/29] fix: block_diagonal keeps the imaginary part of complex
 blocks

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index f2db23e..d125405 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -162,7 +162,7 @@ def vmap(
 def block_diagonal(As: List[np.array]):
     size1 = sum([As[i].shape[1] for i in range(len(As))])
     size2 = sum([As[i].shape[2] for i in range(len(As))])
-    R = np.zeros((As[0].shape[0], size1, size2))
+    R = np.zeros((As[0].shape[0], size1, size2), dtype=np.result_type(float, *As))
     shape_x = 0
     shape_y = 0
     for i in range(len(As)):
-- 
2.43.0


From 580e4aac39e0a19239e0f3ebb74e099f19c2476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 08/29] fix: SU2_, SU3 and SU4 validate their weights like SUN

---
 lie_nn/_src/irreps/sun.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index cd0ace2..ff488a5 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -490,6 +490,7 @@ class SUN(TabulatedIrrep):
 @dataclass(frozen=True)
 class SU2_(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 2
 
     @classmethod
@@ -501,6 +502,7 @@ class SU2_(SUN):
 @dataclass(frozen=True)
 class SU3(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 3
 
     @classmethod
@@ -513,6 +515,7 @@ class SU3(SUN):
 @dataclass(frozen=True)
 class SU4(SUN):
     def __post_init__(rep):
+        super().__post_init__()
         assert len(rep.S) == 4
 
     @classmethod
-- 
2.43.0


From fdd6ab793f3ad18a898a8550d96fcfa96a16698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 09/29] fix: SO3, O3 and Z2 reject labels that name no
 representation

---
 lie_nn/_src/irreps/o3_real.py  | 5 +++++
 lie_nn/_src/irreps/so3_real.py | 4 ++++
 lie_nn/_src/irreps/z2.py       | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/lie_nn/_src/irreps/o3_real.py b/lie_nn/_src/irreps/o3_real.py
index 8380e57..1c389da 100644
--- a/lie_nn/_src/irreps/o3_real.py
+++ b/lie_nn/_src/irreps/o3_real.py
@@ -13,6 +13,11 @@ class O3(TabulatedIrrep):
     l: int  # non-negative integer
     p: int  # 1 or -1
 
+    def __post_init__(rep):
+        assert isinstance(rep.l, int)
+        assert rep.l >= 0
+        assert rep.p in (1, -1)
+
     @classmethod
     def from_string(cls, s: str) -> "O3":
         s = s.strip()
diff --git a/lie_nn/_src/irreps/so3_real.py b/lie_nn/_src/irreps/so3_real.py
index 1982bca..937c688 100644
--- a/lie_nn/_src/irreps/so3_real.py
+++ b/lie_nn/_src/irreps/so3_real.py
@@ -25,6 +25,10 @@ def change_basis_real_to_complex(l: int) -> np.ndarray:
 class SO3(TabulatedIrrep):
     l: int
 
+    def __post_init__(rep):
+        assert isinstance(rep.l, int)
+        assert rep.l >= 0
+
     @classmethod
     def from_string(cls, s: str) -> "SO3":
         return cls(l=int(s))
diff --git a/lie_nn/_src/irreps/z2.py b/lie_nn/_src/irreps/z2.py
index e3c2268..af955b1 100644
--- a/lie_nn/_src/irreps/z2.py
+++ b/lie_nn/_src/irreps/z2.py
@@ -10,6 +10,9 @@ from ..irrep import TabulatedIrrep
 class Z2(TabulatedIrrep):
     p: int  # 1 or -1
 
+    def __post_init__(rep):
+        assert rep.p in (1, -1)
+
     @classmethod
     def from_string(cls, s: str) -> "Z2":
         s = s.strip()
-- 
2.43.0


From 5c9aaf911ac93848bbc00c361d718b292a06dc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 10/29] fix: SUN products stay in the class of the factors and
 reject another SU(N)

---
 lie_nn/_src/irreps/sun.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index ff488a5..8fdadf5 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -454,7 +454,9 @@ class SUN(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-        return map(SUN, sorted(set(mul_rep(rep1.S, rep2.S))))
+        assert isinstance(rep2, SUN)
+        assert len(rep1.S) == len(rep2.S)
+        return [type(rep1)(S) for S in sorted(set(mul_rep(rep1.S, rep2.S)))]
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SUN", rep2: "SUN", rep3: "SUN") -> np.ndarray:
-- 
2.43.0


From 44ce390816246f8c01cf8295a9f4ac270592f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 11/29] fix: SL2C and SO13 products reject irreps of another
 group

---
 lie_nn/_src/irreps/sl2c.py | 1 +
 lie_nn/_src/irreps/so13.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lie_nn/_src/irreps/sl2c.py b/lie_nn/_src/irreps/sl2c.py
index 4220a6e..3d00fc0 100644
--- a/lie_nn/_src/irreps/sl2c.py
+++ b/lie_nn/_src/irreps/sl2c.py
@@ -28,6 +28,7 @@ class SL2C(TabulatedIrrep):
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
     def __mul__(rep1: "SL2C", rep2: "SL2C") -> Iterator["SL2C"]:
+        assert isinstance(rep2, SL2C)
         for l in range(abs(rep1.l - rep2.l), rep1.l + rep2.l + 1, 2):
             for k in range(abs(rep1.k - rep2.k), rep1.k + rep2.k + 1, 2):
                 yield SL2C(l=l, k=k)
diff --git a/lie_nn/_src/irreps/so13.py b/lie_nn/_src/irreps/so13.py
index 9b32c92..ed8bd25 100644
--- a/lie_nn/_src/irreps/so13.py
+++ b/lie_nn/_src/irreps/so13.py
@@ -32,6 +32,7 @@ class SO13(
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
     def __mul__(rep1: "SO13", rep2: "SO13") -> Iterator["SO13"]:
+        assert isinstance(rep2, SO13)
         for rep in SL2C(l=rep1.l, k=rep1.k) * SL2C(l=rep2.l, k=rep2.k):
             yield SO13(l=rep.l, k=rep.k)
 
-- 
2.43.0


From 2b57a5b5655ad4950ff0e9bffc94c8341a809654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 12/29] fix: from_string parses the whole label and rejects
 trailing characters

---
 lie_nn/_src/irreps/sl2c.py | 2 +-
 lie_nn/_src/irreps/so13.py | 2 +-
 lie_nn/_src/irreps/son.py  | 3 ++-
 lie_nn/_src/irreps/spn.py  | 3 ++-
 lie_nn/_src/irreps/sun.py  | 3 ++-
 5 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lie_nn/_src/irreps/sl2c.py b/lie_nn/_src/irreps/sl2c.py
index 3d00fc0..b8d6b26 100644
--- a/lie_nn/_src/irreps/sl2c.py
+++ b/lie_nn/_src/irreps/sl2c.py
@@ -23,7 +23,7 @@ class SL2C(TabulatedIrrep):
 
     @classmethod
     def from_string(cls, s: str) -> "SL2C":
-        m = re.match(r"\((\d+),(\d+)\)", s.strip())
+        m = re.fullmatch(r"\((\d+),(\d+)\)", s.strip())
         assert m is not None
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
diff --git a/lie_nn/_src/irreps/so13.py b/lie_nn/_src/irreps/so13.py
index ed8bd25..a208928 100644
--- a/lie_nn/_src/irreps/so13.py
+++ b/lie_nn/_src/irreps/so13.py
@@ -27,7 +27,7 @@ class SO13(
 
     @classmethod
     def from_string(cls, s: str) -> "SO13":
-        m = re.match(r"\((\d+),(\d+)\)", s.strip())
+        m = re.fullmatch(r"\((\d+),(\d+)\)", s.strip())
         assert m is not None
         return cls(l=int(m.group(1)), k=int(m.group(2)))
 
diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index d0e5bbc..1f20cec 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -30,7 +30,8 @@ class SON(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SON":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.fullmatch(r"\((\d+(?:,\d+)*)\)", s.strip())
+        assert m is not None
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SON", rep2: "SON") -> List["SON"]:
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 0e27c8c..8fb67b0 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -26,7 +26,8 @@ class SPN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SPN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.fullmatch(r"\((\d+(?:,\d+)*)\)", s.strip())
+        assert m is not None
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SPN", rep2: "SPN") -> List["SPN"]:
diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 8fdadf5..9177fea 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -450,7 +450,8 @@ class SUN(TabulatedIrrep):
     @classmethod
     def from_string(cls, s: str) -> "SUN":
         # (4,3,2,1,0)
-        m = re.match(r"\((\d+(?:,\d+)*)\)", s)
+        m = re.fullmatch(r"\((\d+(?:,\d+)*)\)", s.strip())
+        assert m is not None
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SUN", rep2: "SUN") -> List["SUN"]:
-- 
2.43.0


From a53caabb1edaf54431bed9e09750940942fd9b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 13/29] fix: TabulatedIrrepProduct.create_trivial

---
 lie_nn/_src/group_product.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lie_nn/_src/group_product.py b/lie_nn/_src/group_product.py
index e5ad37e..0d8f0da 100644
--- a/lie_nn/_src/group_product.py
+++ b/lie_nn/_src/group_product.py
@@ -92,6 +92,9 @@ class TabulatedIrrepProduct(TabulatedIrrep):
     def iterator(cls) -> Iterator["TabulatedIrrepProduct"]:
         raise NotImplementedError
 
+    def create_trivial(rep: "TabulatedIrrepProduct") -> "TabulatedIrrepProduct":
+        return TabulatedIrrepProduct(rep.rep1.create_trivial(), rep.rep2.create_trivial())
+
     def continuous_generators(rep: "TabulatedIrrepProduct") -> np.ndarray:
         X1 = rep.rep1.X
         X2 = rep.rep2.X
-- 
2.43.0


From 949daa91b5dde585b6553e7c5894252a3b071612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 14/29] fix: SUN Clebsch-Gordan fills every multiplicity, not
 only the first

---
 lie_nn/_src/irreps/sun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 9177fea..30c1a4d 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -368,8 +368,8 @@ def clebsch_gordan_matrix(S1: WEIGHT, S2: WEIGHT, S3: WEIGHT):
         ),
         axis=-1,
     )
-    M_list = [M_eldest]
     for alpha in range(C.shape[0]):
+        M_list = [M_eldest]
         while len(M_list) != dimS3:
             Mc, Mp, l = search_state(M_list)
             mp = M_to_index(Mp)
-- 
2.43.0


From a31a07aeb30642ca2a35534bc5721e66fe31d684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 15/29] fix: make_explicitly_real also checks the discrete
 generators

---
 lie_nn/_src/real.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/real.py b/lie_nn/_src/real.py
index eefc524..4cda7d2 100644
--- a/lie_nn/_src/real.py
+++ b/lie_nn/_src/real.py
@@ -15,6 +15,6 @@ def make_explicitly_real(rep: lie.Rep, *, round_fn=lambda x: x):
         raise ValueError("The representation is not real")
     assert S.shape[0] == 1
     rep = lie.change_basis(rep, la.sqrtm(S[0]))
-    if np.linalg.norm(rep.X.imag) > 1e-10:
+    if np.linalg.norm(rep.X.imag) > 1e-10 or np.linalg.norm(rep.H.imag) > 1e-10:
         raise ValueError("The representation is not real")
     return rep
-- 
2.43.0


From aac8d914cf1ee0bbbc4dcd156b3cd119c68874ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 16/29] fix: reduced tensor product orders sub-indices, not by
 set iteration order

---
 lie_nn/_src/reduced_tensor_product.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lie_nn/_src/reduced_tensor_product.py b/lie_nn/_src/reduced_tensor_product.py
index 8d113f5..c4d67bd 100644
--- a/lie_nn/_src/reduced_tensor_product.py
+++ b/lie_nn/_src/reduced_tensor_product.py
@@ -249,7 +249,7 @@ def _reduced_tensor_product_basis(
         i, j, f = best
         del bases[j]
         del bases[i]
-        sub_irreps = tuple(irreps_tuple[i] for i in f)
+        sub_irreps = tuple(irreps_tuple[i] for i in sorted(f))
         sub_perm_repr = subrepr_permutation(f, perm_repr)
         ab = _reduced_tensor_product_basis(sub_irreps, sub_perm_repr, epsilon)
         ab = ab.reshape(tuple(dims[i] if i in f else 1 for i in range(len(dims))) + (-1,))
@@ -383,7 +383,7 @@ def reduce_subgroup_permutation(
     return_dim: bool = False,
 ) -> np.ndarray:
     sub_perm_repr = subrepr_permutation(sub_f0, perm_repr)
-    sub_dims = tuple(dims[i] for i in sub_f0)
+    sub_dims = tuple(dims[i] for i in sorted(sub_f0))
     if len(sub_perm_repr) == 1:
         if return_dim:
             return prod(sub_dims)
-- 
2.43.0


From 828f46a7c48150de43018959b4b34741a5179e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 17/29] fix: tensor product of reduced representations built
 from generic ones

---
 lie_nn/_src/tensor_product.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index b8bd592..fe9f5ca 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -45,7 +45,9 @@ def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # n
     assert np.allclose(mulirrep1.A, mulirrep2.A)  # same lie algebra
     m1, m2 = mulirrep1.mul, mulirrep2.mul
     tp_irreps = tensor_product(mulirrep1.rep, mulirrep2.rep)
-    Q = tp_irreps.Q
+    if not isinstance(tp_irreps, ReducedRep):
+        tp_irreps = ReducedRep(A=tp_irreps.A, irreps=(MulIrrep(mul=1, rep=tp_irreps),), Q=None)
+    Q = np.eye(tp_irreps.dim) if tp_irreps.Q is None else tp_irreps.Q
     irreps = tp_irreps.irreps
     Q_out = []
     irreps_out = []
-- 
2.43.0


From 7716280b93ced8a90c352970c2c3f5ba601d377f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 18/29] fix: unsupported SON and SPN operations raise instead
 of returning the exception class

---
 lie_nn/_src/irreps/son.py | 10 +++++-----
 lie_nn/_src/irreps/spn.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index 1f20cec..7f922a6 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -35,12 +35,12 @@ class SON(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SON", rep2: "SON") -> List["SON"]:
-        return NotImplementedError
+        raise NotImplementedError
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SON", rep2: "SON", rep3: "SON") -> np.ndarray:
         # return an array of shape ``(dim_null_space, rep1.dim, rep2.dim, rep3.dim)``
-        return NotImplementedError
+        raise NotImplementedError
 
     def __lt__(rep1: "SON", rep2: "SON") -> bool:
         return rep1.S < rep2.S
@@ -61,10 +61,10 @@ class SON(TabulatedIrrep):
         return np.zeros((0, rep.dim, rep.dim))
 
     def continuous_generators(rep: "SON") -> np.ndarray:
-        return NotImplementedError
+        raise NotImplementedError
 
     def algebra(rep: "SON") -> np.ndarray:
-        return NotImplementedError
+        raise NotImplementedError
 
 
 def E(i, j, rank):
@@ -83,7 +83,7 @@ class SON_adjoint(lie.Rep):
         self.n = n
 
     def algebra(self) -> np.ndarray:
-        return NotImplementedError
+        raise NotImplementedError
 
     def continuous_generators(self) -> np.ndarray:
         if self.n % 2 == 0:
diff --git a/lie_nn/_src/irreps/spn.py b/lie_nn/_src/irreps/spn.py
index 8fb67b0..4e8f70a 100644
--- a/lie_nn/_src/irreps/spn.py
+++ b/lie_nn/_src/irreps/spn.py
@@ -31,12 +31,12 @@ class SPN(TabulatedIrrep):
         return cls(S=tuple(map(int, m.group(1).split(","))))
 
     def __mul__(rep1: "SPN", rep2: "SPN") -> List["SPN"]:
-        return NotImplementedError
+        raise NotImplementedError
 
     @classmethod
     def clebsch_gordan(cls, rep1: "SPN", rep2: "SPN", rep3: "SPN") -> np.ndarray:
         # return an array of shape ``(dim_null_space, rep1.dim, rep2.dim, rep3.dim)``
-        return NotImplementedError
+        raise NotImplementedError
 
     def __lt__(rep1: "SPN", rep2: "SPN") -> bool:
         return rep1.S < rep2.S
@@ -57,7 +57,7 @@ class SPN(TabulatedIrrep):
         return np.zeros((0, rep.dim, rep.dim))
 
     def continuous_generators(rep: "SPN") -> np.ndarray:
-        return NotImplementedError
+        raise NotImplementedError
 
     def algebra(rep: "SPN") -> np.ndarray:
-        return NotImplementedError
+        raise NotImplementedError
-- 
2.43.0


From edbfe7f78d8e8be9c074a49dd06a7b8a16908b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 19/29] fix: check_representation_triplet leaves numpy's print
 options as they were

---
 lie_nn/_src/rep.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lie_nn/_src/rep.py b/lie_nn/_src/rep.py
index 7f79612..3e91ea5 100644
--- a/lie_nn/_src/rep.py
+++ b/lie_nn/_src/rep.py
@@ -173,16 +173,15 @@ def check_representation_triplet(rep1: Rep, rep2: Rep, rep3: Rep, rtol=1e-10, at
             if not np.allclose(
                 left_side[solution][i], right_side[solution][i], rtol=rtol, atol=atol
             ):
-                np.set_printoptions(precision=3, suppress=True)
-                print(rep1, rep2, rep3)
-                print('Left side: einsum("zijk,dlk->zdijl", cg, X3)')
-                print(left_side[solution][i])
-                print(
-                    "Right side: "
-                    'einsum("dil,zijk->zdljk", X1, cg) + einsum("djl,zijk->zdilk", X2, cg)'
-                )
-                print(right_side[solution][i])
-                np.set_printoptions(precision=8, suppress=False)
+                with np.printoptions(precision=3, suppress=True):
+                    print(rep1, rep2, rep3)
+                    print('Left side: einsum("zijk,dlk->zdijl", cg, X3)')
+                    print(left_side[solution][i])
+                    print(
+                        "Right side: "
+                        'einsum("dil,zijk->zdljk", X1, cg) + einsum("djl,zijk->zdilk", X2, cg)'
+                    )
+                    print(right_side[solution][i])
                 raise AssertionError(
                     f"Solution {solution}/{cg.shape[0]} for {rep1} * {rep2} = {rep3} "
                     "is not correct."
-- 
2.43.0


From 958521fff39e909891711c534983f4f2d6cd59bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 20/29] fix: check_representation_triplet also checks the
 discrete generators

---
 lie_nn/_src/rep.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lie_nn/_src/rep.py b/lie_nn/_src/rep.py
index 3e91ea5..e19bf48 100644
--- a/lie_nn/_src/rep.py
+++ b/lie_nn/_src/rep.py
@@ -187,3 +187,16 @@ def check_representation_triplet(rep1: Rep, rep2: Rep, rep3: Rep, rtol=1e-10, at
                     "is not correct."
                     f"Clebsch-Gordan coefficient is not correct for Lie algebra generator {i}."
                 )
+
+    H1 = rep1.discrete_generators()  # (num_discrete_generators, rep1.dim, rep1.dim)
+    H2 = rep2.discrete_generators()  # (num_discrete_generators, rep2.dim, rep2.dim)
+    H3 = rep3.discrete_generators()  # (num_discrete_generators, rep3.dim, rep3.dim)
+    assert H1.shape[0] == H2.shape[0] == H3.shape[0]
+
+    np.testing.assert_allclose(
+        np.einsum("zijk,dlk->zdijl", cg, H3),
+        np.einsum("dil,djm,zijk->zdlmk", H1, H2, cg),
+        rtol=rtol,
+        atol=atol,
+        err_msg="Clebsch-Gordan coefficient is not correct for the discrete generators.",
+    )
-- 
2.43.0


From 19dda2487dfb0e4f5dea54e539d2185a22c1d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:14 +0000
Subject: [PATCH 21/29] fix: SON_adjoint.create_trivial is one-dimensional and
 acts by zero

---
 lie_nn/_src/irreps/son.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lie_nn/_src/irreps/son.py b/lie_nn/_src/irreps/son.py
index 7f922a6..0b06a28 100644
--- a/lie_nn/_src/irreps/son.py
+++ b/lie_nn/_src/irreps/son.py
@@ -153,6 +153,4 @@ class SON_adjoint(lie.Rep):
         return np.zeros((0, self.n, self.n))
 
     def create_trivial(self) -> lie.GenericRep:
-        return lie.GenericRep(
-            A=self.A, X=np.ones((0, self.n, self.n)), H=np.zeros((0, self.n, self.n))
-        )
+        return lie.GenericRep(A=self.A, X=np.zeros((len(self.X), 1, 1)), H=np.ones((0, 1, 1)))
-- 
2.43.0


From 78429f4e806abdf87948cf2bf0e0090b9fe93682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 22/29] fix: reduce supports representations in which an irrep
 occurs several times

---
 lie_nn/_src/reduce.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lie_nn/_src/reduce.py b/lie_nn/_src/reduce.py
index 09d93e7..ee7d356 100644
--- a/lie_nn/_src/reduce.py
+++ b/lie_nn/_src/reduce.py
@@ -34,11 +34,14 @@ def reduce(rep: Rep) -> ReducedRep:  # noqa: F811
     irs = []
     for Y in Ys:
         ir = GenericRep(rep.A, Y[:d], Y[d:])
+        if any(infer_change_of_basis(mul_ir.rep, ir).shape[0] > 0 for mul_ir in irs):
+            continue  # an equivalent irrep has already been found, with all its copies
         Q = infer_change_of_basis(ir, rep)
-        Q = np.einsum("mij->imj", Q).reshape((rep.dim, ir.dim))
+        mul = Q.shape[0]
+        Q = np.einsum("mij->imj", Q).reshape((rep.dim, mul * ir.dim))
         Qs.append(Q)
-        irs.append(ir)
+        irs.append(MulIrrep(mul, ir))
 
     Q = np.concatenate(Qs, axis=1)
-    rep = ReducedRep(rep.A, tuple(MulIrrep(1, ir) for ir in irs), Q)
+    rep = ReducedRep(rep.A, tuple(irs), Q)
     return rep
-- 
2.43.0


From 45a9d1535e812e588458a77cfec1df578faa8327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 23/29] fix: infer_algebra_from_generators keeps complex
 structure constants

---
 lie_nn/_src/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index d125405..0a1523e 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -475,12 +475,14 @@ def infer_algebra_from_generators(
     n = X.shape[0]
     pinv = np.linalg.pinv(X.reshape((n, -1)))
 
-    algebra = np.zeros((n, n, n))
+    algebra = np.zeros((n, n, n), dtype=pinv.dtype)
     for i in range(n):
         for j in range(n):
             xij = commutator(X[i], X[j])
             algebra[i, j] = xij.reshape(-1) @ pinv
 
+    if np.allclose(np.imag(algebra), 0.0, rtol=rtol, atol=atol):
+        algebra = np.real(algebra)
     algebra = round_fn(algebra)
 
     if check_algebra_vs_generators(algebra, X, rtol=rtol, atol=atol):
-- 
2.43.0


From 59b5bcfcd8f0f1106681587351bde782c0bac3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 24/29] fix: SUN irreps reject weights that are not integers

---
 lie_nn/_src/irreps/sun.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lie_nn/_src/irreps/sun.py b/lie_nn/_src/irreps/sun.py
index 30c1a4d..2b4515c 100644
--- a/lie_nn/_src/irreps/sun.py
+++ b/lie_nn/_src/irreps/sun.py
@@ -444,6 +444,7 @@ class SUN(TabulatedIrrep):
 
     def __post_init__(rep):
         assert isinstance(rep.S, tuple)
+        assert all(isinstance(s, (int, np.integer)) for s in rep.S)
         _assert_valid_S(rep.S)
         assert rep.S[-1] == 0
 
-- 
2.43.0


From 528c201c0ccc0d66ae15035f798b737f941e5f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 25/29] fix: refuse algebras of different dimension, which
 np.allclose broadcast

---
 lie_nn/_src/direct_sum.py            | 1 +
 lie_nn/_src/infer_change_of_basis.py | 1 +
 lie_nn/_src/reduced_rep.py           | 1 +
 lie_nn/_src/tensor_product.py        | 3 +++
 4 files changed, 6 insertions(+)

diff --git a/lie_nn/_src/direct_sum.py b/lie_nn/_src/direct_sum.py
index 02c3b34..fab1555 100644
--- a/lie_nn/_src/direct_sum.py
+++ b/lie_nn/_src/direct_sum.py
@@ -7,6 +7,7 @@ from .util import direct_sum as _direct_sum
 
 @dispatch(Rep, Rep)
 def direct_sum(rep1: Rep, rep2: Rep) -> GenericRep:
+    assert rep1.lie_dim == rep2.lie_dim
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     assert rep1.H.shape[0] == rep2.H.shape[0]  # same discrete dimension
     return GenericRep(
diff --git a/lie_nn/_src/infer_change_of_basis.py b/lie_nn/_src/infer_change_of_basis.py
index 21aecab..ff5d550 100644
--- a/lie_nn/_src/infer_change_of_basis.py
+++ b/lie_nn/_src/infer_change_of_basis.py
@@ -26,6 +26,7 @@ def infer_change_of_basis(rep1: Rep, rep2: Rep, round_fn=lambda x: x) -> np.ndar
         The change of basis matrix ``Q``.
     """
     # Check the group structure
+    assert rep1.lie_dim == rep2.lie_dim
     assert np.allclose(rep1.algebra(), rep2.algebra())
 
     Y1 = np.concatenate([rep1.continuous_generators(), rep1.discrete_generators()])
diff --git a/lie_nn/_src/reduced_rep.py b/lie_nn/_src/reduced_rep.py
index 9a458b0..6800d4c 100644
--- a/lie_nn/_src/reduced_rep.py
+++ b/lie_nn/_src/reduced_rep.py
@@ -95,6 +95,7 @@ class ReducedRep(Rep):
             if A is None:
                 A = mul_ir.algebra()
             else:
+                assert A.shape == mul_ir.algebra().shape
                 assert np.allclose(A, mul_ir.algebra())
 
         dim = sum(mul_ir.dim for mul_ir in irreps)
diff --git a/lie_nn/_src/tensor_product.py b/lie_nn/_src/tensor_product.py
index fe9f5ca..ea48cf1 100644
--- a/lie_nn/_src/tensor_product.py
+++ b/lie_nn/_src/tensor_product.py
@@ -10,6 +10,7 @@ from .rep import GenericRep, Rep
 
 @dispatch(Rep, Rep)
 def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
+    assert rep1.lie_dim == rep2.lie_dim
     assert np.allclose(rep1.A, rep2.A)  # same lie algebra
     X1, H1, I1 = rep1.X, rep1.H, np.eye(rep1.dim)
     X2, H2, I2 = rep2.X, rep2.H, np.eye(rep2.dim)
@@ -26,6 +27,7 @@ def tensor_product(rep1: Rep, rep2: Rep) -> GenericRep:
 
 @dispatch(TabulatedIrrep, TabulatedIrrep)
 def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep:  # noqa: F811
+    assert irrep1.lie_dim == irrep2.lie_dim
     assert np.allclose(irrep1.A, irrep2.A)  # same lie algebra
     CG_list = []
     irreps_list = []
@@ -42,6 +44,7 @@ def tensor_product(irrep1: TabulatedIrrep, irrep2: TabulatedIrrep) -> ReducedRep
 
 @dispatch(MulIrrep, MulIrrep)
 def tensor_product(mulirrep1: MulIrrep, mulirrep2: MulIrrep) -> ReducedRep:  # noqa: F811
+    assert mulirrep1.lie_dim == mulirrep2.lie_dim
     assert np.allclose(mulirrep1.A, mulirrep2.A)  # same lie algebra
     m1, m2 = mulirrep1.mul, mulirrep2.mul
     tp_irreps = tensor_product(mulirrep1.rep, mulirrep2.rep)
-- 
2.43.0


From 6ea4a2608c097c1948870d6fcf768fca43b1fe6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:04 +0000
Subject: [PATCH 26/29] fix: infer the algebra of representations without
 continuous generators

---
 lie_nn/_src/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index 0a1523e..c5730be 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -473,7 +473,7 @@ def infer_algebra_from_generators(
         np.ndarray: If successful, the algebra. Shape ``(n, n, n)``.
     """
     n = X.shape[0]
-    pinv = np.linalg.pinv(X.reshape((n, -1)))
+    pinv = np.linalg.pinv(X.reshape((n, X.shape[1] * X.shape[2])))
 
     algebra = np.zeros((n, n, n), dtype=pinv.dtype)
     for i in range(n):
-- 
2.43.0


From 1ff226c180ceba9598e1555514d7b8c548beb597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:47 +0000
Subject: [PATCH 27/29] fix: basis helpers handle empty bases and dimension
 zero

---
 lie_nn/_src/util.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lie_nn/_src/util.py b/lie_nn/_src/util.py
index c5730be..a9eeefb 100644
--- a/lie_nn/_src/util.py
+++ b/lie_nn/_src/util.py
@@ -256,9 +256,9 @@ def extend_basis(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x, returns="
             Q += [v]
             E += [v]
     if returns == "Q":
-        return np.stack(Q)
+        return np.stack(Q) if len(Q) > 0 else np.empty((0, A.shape[1]), dtype=A.dtype)
     if returns == "E":
-        return np.stack(E)
+        return np.stack(E) if len(E) > 0 else np.empty((0, A.shape[1]), dtype=A.dtype)
 
 
 def nullspace(A: np.ndarray, *, epsilon=1e-4, round_fn=lambda x: x) -> np.ndarray:
@@ -386,7 +386,7 @@ def infer_change_of_basis(
 
     A = np.concatenate(As, axis=0)  # (n * d1 * d2, d1 * d2)
     S = nullspace(A, epsilon=epsilon, round_fn=round_fn)  # (m, d1 * d2)
-    S = S.reshape(-1, d1, d2)
+    S = S.reshape(S.shape[0], d1, d2)
 
     # assert np.allclose(X1 @ S[0], S[0] @ X2)
     return S
@@ -419,8 +419,9 @@ def basis_intersection(
         array([[1., 0., 0.]])
     """
     assert basis1.shape[1:] == basis2.shape[1:]
-    basis1 = np.reshape(basis1, (basis1.shape[0], -1))
-    basis2 = np.reshape(basis2, (basis2.shape[0], -1))
+    d = int(np.prod(basis1.shape[1:]))
+    basis1 = np.reshape(basis1, (basis1.shape[0], d))
+    basis2 = np.reshape(basis2, (basis2.shape[0], d))
 
     p = np.concatenate(
         [
-- 
2.43.0


From 513d31e3a983f15e931f355998ea0abac229d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:37 +0000
Subject: [PATCH 28/29] fix: Clebsch-Gordan coefficients with a representation
 of dimension zero

---
 lie_nn/_src/clebsch_gordan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lie_nn/_src/clebsch_gordan.py b/lie_nn/_src/clebsch_gordan.py
index 4879b0b..55e580a 100644
--- a/lie_nn/_src/clebsch_gordan.py
+++ b/lie_nn/_src/clebsch_gordan.py
@@ -22,7 +22,7 @@ def clebsch_gordan(rep1: Rep, rep2: Rep, rep3: Rep, *, round_fn=lambda x: x) ->
     """
     tp = tensor_product(rep1, rep2)
     cg = infer_change_of_basis(tp, rep3, round_fn=round_fn)
-    cg = cg.reshape((-1, rep3.dim, rep1.dim, rep2.dim))
+    cg = cg.reshape((cg.shape[0], rep3.dim, rep1.dim, rep2.dim))
     cg = np.moveaxis(cg, 1, 3)
     return cg
 
-- 
2.43.0


From bc423c3b5f354dbd098e5222bc0796aad592b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:18 +0000
Subject: [PATCH 29/29] fix: negative discrete parameters in the jax exp_map

matrix_power of jax_utils returned nan, or the power of another exponent, when the
exponent is negative, whereas Rep.exp_map returns the power of the inverse.
---
 lie_nn/_src/jax_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lie_nn/_src/jax_utils.py b/lie_nn/_src/jax_utils.py
index 4e8fee8..c752338 100644
--- a/lie_nn/_src/jax_utils.py
+++ b/lie_nn/_src/jax_utils.py
@@ -13,6 +13,8 @@ def static_jax_pytree(cls):
 @jax.jit
 def matrix_power(F, n):
     upper_limit = 32
+    F = jnp.where(n < 0, jnp.linalg.inv(F), F)
+    n = jnp.abs(n)
     init_carry = n, F, jnp.eye(F.shape[0])
 
     def body(carry, _):
-- 
2.43.0

