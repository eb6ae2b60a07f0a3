From e3c6e593c53df8f5a1211ae31fe0fca3f60ef33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 01/15] fix: match columns of batched low-rank matrices for all
 batch elements

---
 matrix/ops/algorithms/align.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/algorithms/align.py b/matrix/ops/algorithms/align.py
index 83f381e..f7e1034 100644
--- a/matrix/ops/algorithms/align.py
+++ b/matrix/ops/algorithms/align.py
@@ -25,8 +25,12 @@ def align(a, b):
     a0 = a[(0,) * len(B.shape_batch(a)) + (slice(None), slice(None))]
     b0 = b[(0,) * len(B.shape_batch(b)) + (slice(None), slice(None))]
 
+    # Columns only match if they match for all batch elements.
+    a_dense, b_dense = B.dense(a), B.dense(b)
+
     def equal(index_a, index_b):
-        return B.mean(B.subtract(a0[:, index_a], b0[:, index_b]) ** 2) < 1e-10
+        diff = B.subtract(a_dense[..., index_a], b_dense[..., index_b])
+        return B.max(B.mean(diff**2, axis=-1)) < 1e-10
 
     # We need the norms later on.
     a_norms = B.sum(B.multiply(a0, a0), axis=0)
-- 
2.43.0


From bb139ea2b380fda618a04bb115379e2846b7d4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:37 +0000
Subject: [PATCH 02/15] fix: sums, means, and products of constant matrices
 with lazily wrapped dimensions

---
 matrix/ops/matmul.py | 2 +-
 matrix/ops/mean.py   | 3 ++-
 matrix/ops/sum.py    | 6 +++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/matrix/ops/matmul.py b/matrix/ops/matmul.py
index f3e1795..b448407 100644
--- a/matrix/ops/matmul.py
+++ b/matrix/ops/matmul.py
@@ -111,7 +111,7 @@ def matmul(a: Constant, b: Constant, tr_a: bool = False, tr_b: bool = False):
     _assert_composable(a, b, tr_a=tr_a, tr_b=tr_b)
     a = _tr(a, tr_a)
     b = _tr(b, tr_b)
-    return Constant(a.const * b.const * a.cols, a.rows, b.cols)
+    return Constant(a.cols * (a.const * b.const), a.rows, b.cols)
 
 
 @B.dispatch
diff --git a/matrix/ops/mean.py b/matrix/ops/mean.py
index 44094c6..5872eab 100644
--- a/matrix/ops/mean.py
+++ b/matrix/ops/mean.py
@@ -3,6 +3,7 @@ from operator import mul
 from typing import Union
 
 import lab as B
+from lab.shape import unwrap_dimension
 from lab.util import resolve_axis
 
 from ..matrix import AbstractMatrix
@@ -15,5 +16,5 @@ def mean(a: AbstractMatrix, axis: Union[B.Int, None] = None):
     if axis is None:
         n = reduce(mul, B.shape(a), 1)
     else:
-        n = B.shape(a, resolve_axis(a, axis))
+        n = unwrap_dimension(B.shape(a, resolve_axis(a, axis)))
     return B.sum(a, axis=axis) / n
diff --git a/matrix/ops/sum.py b/matrix/ops/sum.py
index 1973c08..242137b 100644
--- a/matrix/ops/sum.py
+++ b/matrix/ops/sum.py
@@ -57,13 +57,13 @@ def sum(a: Diagonal, axis: Union[B.Int, None] = None):
 def sum(a: Constant, axis: Union[B.Int, None] = None):
     resolved_axis = resolve_axis(a, axis, negative=True)
     if resolved_axis is None:
-        return B.sum(a.const) * a.rows * a.cols
+        return a.rows * a.cols * B.sum(a.const)
     elif resolved_axis == -2:
         const = B.expand_dims(a.const, axis=-1, ignore_scalar=True)
-        return const * a.rows * B.ones(B.dtype(a.const), *batch_ones(a), a.cols)
+        return a.rows * const * B.ones(B.dtype(a.const), *batch_ones(a), a.cols)
     elif resolved_axis == -1:
         const = B.expand_dims(a.const, axis=-1, ignore_scalar=True)
-        return const * a.cols * B.ones(B.dtype(a.const), *batch_ones(a), a.rows)
+        return a.cols * const * B.ones(B.dtype(a.const), *batch_ones(a), a.rows)
     else:
         # Make the axis positive: `a.const` has a different rank.
         return Constant(B.sum(a.const, axis=resolve_axis(a, axis)), a.rows, a.cols)
-- 
2.43.0


From c913cfdbfd1c85247709e0a6a175695baf83be3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 03/15] fix: NumPy arrays on the left of binary operators

---
 matrix/matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/matrix.py b/matrix/matrix.py
index d39eff5..f10e2b0 100644
--- a/matrix/matrix.py
+++ b/matrix/matrix.py
@@ -17,6 +17,10 @@ _dispatch = Dispatcher()
 class AbstractMatrix(metaclass=abc.ABCMeta):
     """Abstract matrix type."""
 
+    # Let NumPy defer binary operators to the reflected methods below, rather than apply
+    # them to every element of the array separately.
+    __array_ufunc__ = None
+
     def __neg__(self):
         return B.negative(self)
 
-- 
2.43.0


From 7fc2b97b6888c6e1f15458212ffa6fc734d6f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 04/15] fix: dense form of tiled matrix blocks

---
 matrix/ops/dense.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/dense.py b/matrix/ops/dense.py
index f15fbf0..1cd0174 100644
--- a/matrix/ops/dense.py
+++ b/matrix/ops/dense.py
@@ -119,5 +119,5 @@ def dense(a: TiledBlocks):
 
             repeated_blocks.append(B.tile(block, *tile_reps))
 
-        a.dense = B.concat(*repeated_blocks, axis=axis)
+        a.dense = B.dense(B.concat(*repeated_blocks, axis=axis))
     return a.dense
-- 
2.43.0


From addcc8f0d22e6f9ec3d8111f27efaca54d1a2bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 05/15] fix: diagonals of Kronecker products with rectangular
 or plain factors

---
 matrix/ops/diag.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/diag.py b/matrix/ops/diag.py
index 3c349a7..f5f9af1 100644
--- a/matrix/ops/diag.py
+++ b/matrix/ops/diag.py
@@ -66,4 +66,13 @@ def diag(a: Woodbury):
 @B.dispatch
 def diag(a: Kronecker):
     left, right = align_batch(a.left, a.right)
-    return B.kron(B.diag(left), B.diag(right), -1)
+    for factor in (left, right):
+        rows, cols = B.shape_matrix(factor)
+        if rows != cols:
+            # The diagonal only factorises if both factors are square.
+            warn_upmodule(
+                f"Getting the diagonal of {a}: converting to dense.",
+                category=ToDenseWarning,
+            )
+            return B.diag_extract(B.dense(a))
+    return B.kron(B.diag_extract(left), B.diag_extract(right), -1)
-- 
2.43.0


From 1271670eb697fef426cf46d890d475afacf944e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 06/15] fix: take rows and columns of batched low-rank matrices

`B.take` of plain arrays selects along the first axis by default, which is a batch
axis when the factors of a low-rank matrix have batch dimensions.
---
 matrix/ops/take.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/take.py b/matrix/ops/take.py
index dbd5015..6721126 100644
--- a/matrix/ops/take.py
+++ b/matrix/ops/take.py
@@ -104,9 +104,9 @@ def take(a: UpperTriangular, indices_or_mask, axis: B.Int = -2):
 def take(a: LowRank, indices_or_mask, axis: B.Int = -2):
     axis = resolve_axis(a, axis, negative=True)
     if axis == -2:
-        return LowRank(B.take(a.left, indices_or_mask), a.right, a.middle)
+        return LowRank(B.take(a.left, indices_or_mask, axis=-2), a.right, a.middle)
     elif axis == -1:
-        return LowRank(a.left, B.take(a.right, indices_or_mask), a.middle)
+        return LowRank(a.left, B.take(a.right, indices_or_mask, axis=-2), a.middle)
     else:
         left, middle, right = align_batch(a.left, a.middle, a.right)
         axis = resolve_axis(a, axis)
-- 
2.43.0


From c974a94b4d8b2c93a27426dec804569ad9a2bec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 07/15] fix: Kronecker product of two zero matrices recursed
 forever

---
 matrix/ops/kron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/kron.py b/matrix/ops/kron.py
index 0a5f26c..7ff996c 100644
--- a/matrix/ops/kron.py
+++ b/matrix/ops/kron.py
@@ -24,7 +24,7 @@ def kron(a: AbstractMatrix, b: Zero):
 
 @B.dispatch(precedence=proven())
 def kron(a: Zero, b: AbstractMatrix):
-    return kron(b, a)
+    return Zero(B.dtype(a), *B.shape_batch_broadcast(a, b), *_product_shape(a, b))
 
 
 # Dense
-- 
2.43.0


From c159bfafd420e3e9b8474fe2af7b53d9972b2051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 08/15] fix: block-diagonal matrix of one plain array

Aligning the batch dimensions of one matrix returns the matrix itself rather than a list,
so the rows of the matrix were taken to be the blocks.
---
 matrix/ops/block_diag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/ops/block_diag.py b/matrix/ops/block_diag.py
index 0c03d1f..e189eb8 100644
--- a/matrix/ops/block_diag.py
+++ b/matrix/ops/block_diag.py
@@ -25,6 +25,10 @@ def block_diag(element: B.Numeric, *elements: B.Numeric):
     """
     elements = (element,) + elements
 
+    if len(elements) == 1:
+        # There is just one matrix. Return it.
+        return elements[0]
+
     # Align the batch dimensions to allow concatenation.
     elements = align_batch(*elements)
 
-- 
2.43.0


From d10dfcbd89730deb467fbd013feac5df77700e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 09/15] fix: block-diagonal matrix of tiled blocks with batch
 dimensions

The Kronecker product of plain arrays of different ranks is not defined.
---
 matrix/ops/block_diag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/block_diag.py b/matrix/ops/block_diag.py
index e189eb8..ed6fc81 100644
--- a/matrix/ops/block_diag.py
+++ b/matrix/ops/block_diag.py
@@ -116,7 +116,7 @@ def _attempt_diagonal(blocks):
 def block_diag(a: TiledBlocks):
     return B.block_diag(
         *[
-            B.kron(B.eye(B.dtype(block), rep), block)
+            B.kron(B.fill_diag(B.one(block), rep), block)
             for block, rep in zip(a.blocks, a.reps)
         ]
     )
-- 
2.43.0


From 3879afc36c7a9b941118e97db6b203bdf36310fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:00 +0000
Subject: [PATCH 10/15] fix: broadcast the batch dimensions of tiled blocks

Kronecker products and block matrices with tiled blocks could not be made dense.
---
 matrix/ops/broadcast_batch_to.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/matrix/ops/broadcast_batch_to.py b/matrix/ops/broadcast_batch_to.py
index 60e0e47..66ff445 100644
--- a/matrix/ops/broadcast_batch_to.py
+++ b/matrix/ops/broadcast_batch_to.py
@@ -1,10 +1,12 @@
 import lab as B
+from lab.util import resolve_axis
 
 from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
 from ..lowrank import LowRank
 from ..matrix import Dense
+from ..tiledblocks import TiledBlocks
 from ..triangular import LowerTriangular, UpperTriangular
 from ..woodbury import Woodbury
 
@@ -84,4 +86,16 @@ def broadcast_batch_to(a: Kronecker, *batch: B.Int):
     )
 
 
+@B.dispatch
+def broadcast_batch_to(a: TiledBlocks, *batch: B.Int):
+    axis = resolve_axis(a, a.axis, negative=True)
+    if axis < -2:
+        # The blocks are tiled along a batch dimension.
+        return Dense(B.broadcast_batch_to(B.dense(a), *batch))
+    return TiledBlocks(
+        *((B.broadcast_batch_to(block, *batch), r) for block, r in zip(a.blocks, a.reps)),
+        axis=axis,
+    )
+
+
 B.broadcast_batch_to = broadcast_batch_to
-- 
2.43.0


From df6f13da0fc6c45e42ace7086905d8e3ec5d922c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 11/15] fix: keep the data type when dividing by a constant
 matrix

NumPy's division of two Python numbers gives a double-precision number, which
is not of a weak type, so the mean of a single-precision constant matrix over a
batch dimension was of double precision.
---
 matrix/ops/divide.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matrix/ops/divide.py b/matrix/ops/divide.py
index b8cfd8f..27a7584 100644
--- a/matrix/ops/divide.py
+++ b/matrix/ops/divide.py
@@ -19,4 +19,4 @@ def divide(a: AbstractMatrix, b: AbstractMatrix):
 
 @B.dispatch
 def divide(a: AbstractMatrix, b: Constant):
-    return B.multiply(a, Constant(B.divide(1, b.const), *B.shape(b)))
+    return B.multiply(a, Constant(B.divide(B.one(a), b.const), *B.shape(b)))
-- 
2.43.0


From 9dc3ee261f3e0c5ebcf2a5a2faf01d01e340f587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:05 +0000
Subject: [PATCH 12/15] fix: reject products of triangular and constant
 matrices of incompatible shapes

---
 matrix/ops/multiply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matrix/ops/multiply.py b/matrix/ops/multiply.py
index 929aa6f..7620b42 100644
--- a/matrix/ops/multiply.py
+++ b/matrix/ops/multiply.py
@@ -138,6 +138,7 @@ def multiply(a: LowerTriangular, b: AbstractMatrix):
 
 @B.dispatch
 def multiply(a: LowerTriangular, b: Constant):
+    assert_compatible(B.shape(a), B.shape(b))
     return LowerTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
@@ -170,6 +171,7 @@ def multiply(a: UpperTriangular, b: AbstractMatrix):
 
 @B.dispatch
 def multiply(a: UpperTriangular, b: Constant):
+    assert_compatible(B.shape(a), B.shape(b))
     return UpperTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
-- 
2.43.0


From 78fa9b81f5e7c5c32868059643d5af292c2ad06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:05 +0000
Subject: [PATCH 13/15] fix: reject broadcasting zero and constant matrices to
 incompatible shapes

---
 matrix/ops/broadcast_batch_to.py |  2 +-
 matrix/ops/broadcast_to.py       | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/matrix/ops/broadcast_batch_to.py b/matrix/ops/broadcast_batch_to.py
index 66ff445..3461f5a 100644
--- a/matrix/ops/broadcast_batch_to.py
+++ b/matrix/ops/broadcast_batch_to.py
@@ -33,7 +33,7 @@ def broadcast_batch_to(a: B.Numeric, *batch: B.Int):
 
 @B.dispatch
 def broadcast_batch_to(a: Zero, *batch: B.Int):
-    return Zero(a.dtype, *batch, a.rows, a.cols)
+    return B.broadcast_to(a, *batch, a.rows, a.cols)
 
 
 @B.dispatch
diff --git a/matrix/ops/broadcast_to.py b/matrix/ops/broadcast_to.py
index 27b25df..376ad25 100644
--- a/matrix/ops/broadcast_to.py
+++ b/matrix/ops/broadcast_to.py
@@ -37,11 +37,19 @@ def _broadcast_to(a: AbstractMatrix, *shape: B.Int):
         return Dense(B.broadcast_to(B.dense(a), *shape))
 
 
+def _resolve_shape(a, *shape):
+    # The shape of `a` must expand to `shape`, and not the other way around.
+    resolved_shape = expand_and_broadcast(B.shape(a), Shape(*shape))
+    if Shape(*resolved_shape) != Shape(*shape):
+        raise RuntimeError(f"Cannot broadcast {a} to shape {Shape(*shape)}.")
+    return resolved_shape
+
+
 @_dispatch
 def _broadcast_to(a: Zero, *shape: B.Int):
-    return Zero(a.dtype, *expand_and_broadcast(B.shape(a), Shape(*shape)))
+    return Zero(a.dtype, *_resolve_shape(a, *shape))
 
 
 @_dispatch
 def _broadcast_to(a: Constant, *shape: B.Int):
-    return Constant(a.const, *expand_and_broadcast(B.shape(a), Shape(*shape)))
+    return Constant(a.const, *_resolve_shape(a, *shape))
-- 
2.43.0


From 9c24de3647f1d1e1383d197e98aba52770ad23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:05 +0000
Subject: [PATCH 14/15] fix: check shapes when solving for a zero right-hand
 side

---
 matrix/ops/solve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matrix/ops/solve.py b/matrix/ops/solve.py
index 91d9275..5b6b29f 100644
--- a/matrix/ops/solve.py
+++ b/matrix/ops/solve.py
@@ -2,10 +2,12 @@ import lab as B
 from algebra import proven
 from wbml.warning import warn_upmodule
 
+from .matmul import _assert_composable
 from .util import align_batch
 from ..constant import Zero
 from ..diagonal import Diagonal
 from ..matrix import AbstractMatrix, Dense, structured
+from ..shape import assert_compatible, assert_square
 from ..triangular import LowerTriangular, UpperTriangular
 from ..util import ToDenseWarning
 from ..woodbury import Woodbury
@@ -15,6 +17,9 @@ __all__ = []
 
 @B.dispatch(precedence=proven())
 def solve(a: AbstractMatrix, b: Zero):
+    assert_square(a, "Can only solve linear systems with square matrices.")
+    assert_compatible(B.shape_batch(a), B.shape_batch(b))
+    _assert_composable(a, b)
     return b
 
 
-- 
2.43.0


From adb7c132aecd7bcd17e3e75648d2f18a8ecf8276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:12 +0000
Subject: [PATCH 15/15] fix: resolve ambiguous call to sample with a numerical
 matrix and a number of samples

---
 matrix/ops/sample.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/matrix/ops/sample.py b/matrix/ops/sample.py
index 42c9ed9..98c3bf7 100644
--- a/matrix/ops/sample.py
+++ b/matrix/ops/sample.py
@@ -38,6 +38,12 @@ def sample(a, num: B.Int = 1):
     return res
 
 
+@B.dispatch
+def sample(a: B.RandomState, num: B.Int):
+    # Numerical arrays can also be random states: this method resolves the ambiguity.
+    return sample(a, num=num)
+
+
 @B.dispatch
 def sample(state: B.RandomState, a: Woodbury, num: B.Int = 1):
     state, sample_diag = B.sample(state, a.diag, num=num)
-- 
2.43.0

