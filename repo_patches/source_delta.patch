From 89410525331692dda09b7c4aa772e2bade149654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 01/17] fix: use SciPy's default condition number limit (1e8)
 for LSMR

With conlim=1e-8 LSMR stops after the first iteration for every matrix whose
condition number estimate exceeds 1e-8, i.e. always.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 0a35f57..d6db858 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -112,7 +112,7 @@ class LSMRInverseLinearOperator(_InverseLinearOperator):
         damp: float = 0.0,
         atol: Optional[float] = 1e-6,
         btol: Optional[float] = 1e-6,
-        conlim: Optional[float] = 1e-8,
+        conlim: Optional[float] = 1e8,
         maxiter: Optional[int] = None,
         show: Optional[bool] = False,
         x0: Optional[ndarray] = None,
-- 
2.43.0


From d986ac2767d07bb2355bb6584d39f36f1d70032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 02/17] fix: do not overwrite the entries of a matrix passed as
 tensor list to KFAC inverse

---
 curvlinops/inverse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index d6db858..1ef70b9 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -631,6 +631,8 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         if not self._A._input_covariances and not self._A._gradient_covariances:
             self._A._compute_kfac()
 
+        X = list(X)  # entries are re-assigned below, keep the user's list intact
+
         for mod_name, param_pos in self._A._mapping.items():
             # retrieve the inverses of the Kronecker factors from cache or invert them
             aaT_inv, ggT_inv = self._compute_or_get_cached_inverse(mod_name)
-- 
2.43.0


From 053671af36bf62319c405d0821e508f76c696674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 03/17] fix: do not truncate results of SciPy products with
 integer inputs

---
 curvlinops/_torch_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 76217a5..6d717dd 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -377,7 +377,9 @@ class PyTorchLinearOperator:
             # (https://github.com/pytorch/pytorch/issues/90574)
             if AX_torch.dtype == bfloat16:
                 AX_torch = AX_torch.float()
-            return AX_torch.detach().cpu().numpy().astype(X.dtype)
+            AX = AX_torch.detach().cpu().numpy()
+            # casting the result to an integer type would truncate it
+            return AX.astype(X.dtype) if numpy.issubdtype(X.dtype, numpy.inexact) else AX
 
         return f_scipy
 
-- 
2.43.0


From f90ea645eb67bc231bb47f66c166011891ec7b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 04/17] fix: compare total losses in the determinism check

The losses of the last mini-batch were compared instead, which rejects
deterministic problems whose data loader shuffles and misses loss differences
in other mini-batches.
---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 6d717dd..47d99b6 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -752,7 +752,7 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
                     total_g2.add_(g2)
 
         if self._loss_func is not None:
-            if not allclose_report(loss1, loss2, rtol=rtol, atol=atol):
+            if not allclose_report(total_loss1, total_loss2, rtol=rtol, atol=atol):
                 raise RuntimeError("Check for deterministic total loss failed.")
 
             if any(
-- 
2.43.0


From 7bcbec09fe8e8cb005556a9368601f389e688484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 05/17] fix: heuristic damping for zero input covariances

The eigenvalue ratio is zero in this case, which damps the gradient covariance
with infinity.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 1ef70b9..51bc49c 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -392,7 +392,7 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             # Martens and Grosse, 2015 (https://arxiv.org/abs/1503.05671) (Section 6.3)
             aaT_eig_mean = aaT.trace() / aaT.shape[0]
             ggT_eig_mean = ggT.trace() / ggT.shape[0]
-            if aaT_eig_mean >= 0.0 and ggT_eig_mean > 0.0:
+            if aaT_eig_mean > 0.0 and ggT_eig_mean > 0.0:
                 sqrt_eig_mean_ratio = (aaT_eig_mean / ggT_eig_mean).sqrt()
                 sqrt_damping = sqrt(self._damping)
                 damping_aaT = max(sqrt_damping * sqrt_eig_mean_ratio, self._min_damping)
-- 
2.43.0


From a2b9a1f4b0b1a2f8d099620cfe6da3b7ab6c44ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 06/17] fix: raise ValueError when multiplying onto a scalar
 tensor

---
 curvlinops/_torch_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 47d99b6..52d71a4 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -191,7 +191,7 @@ class PyTorchLinearOperator:
         Raises:
             ValueError: If the input tensor has an invalid shape.
         """
-        if X.ndim > 2 or X.shape[0] != self.shape[1]:
+        if X.ndim not in {1, 2} or X.shape[0] != self.shape[1]:
             raise ValueError(
                 f"Input tensor must have shape ({self.shape[1]},) or "
                 + f"({self.shape[1]}, K), with K arbitrary. Got {X.shape}."
-- 
2.43.0


From af02af638ef15c8229a8da190cbde0657d1fb6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 07/17] fix: check the Kronecker factors of the loaded state
 dict in KFAC

The check looked at the factors that were about to be replaced, so factors of
other layers were accepted.
---
 curvlinops/kfac.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index 281ff17..c7255b0 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -1001,21 +1001,26 @@ class KFACLinearOperator(CurvatureLinearOperator):
         self._N_data = state_dict["num_data"]
 
         # Set Kronecker factors (if computed)
-        if self._input_covariances or self._gradient_covariances:
+        if state_dict["input_covariances"] or state_dict["gradient_covariances"]:
             # If computed, check if the keys match the mapping keys
-            input_covariances_keys = set(self._input_covariances.keys())
-            gradient_covariances_keys = set(self._gradient_covariances.keys())
+            input_covariances_keys = set(state_dict["input_covariances"].keys())
+            gradient_covariances_keys = set(state_dict["gradient_covariances"].keys())
             mapping_keys = set(self._mapping.keys())
-            if (input_covariances_keys and input_covariances_keys != mapping_keys) or (
-                gradient_covariances_keys and gradient_covariances_keys != mapping_keys
+            # layers of which only the bias is considered have no input covariance
+            mapping_weight_keys = {
+                name for name, pos in self._mapping.items() if "weight" in pos
+            }
+            if (
+                input_covariances_keys != mapping_weight_keys
+                or gradient_covariances_keys != mapping_keys
             ):
                 raise ValueError(
                     "Input or gradient covariance keys in state dict do not match "
                     "mapping keys of linear operator. "
                     "Difference between input covariance and mapping keys: "
-                    f"{input_covariances_keys - mapping_keys}. "
+                    f"{input_covariances_keys ^ mapping_weight_keys}. "
                     "Difference between gradient covariance and mapping keys: "
-                    f"{gradient_covariances_keys - mapping_keys}."
+                    f"{gradient_covariances_keys ^ mapping_keys}."
                 )
         self._input_covariances = state_dict["input_covariances"]
         self._gradient_covariances = state_dict["gradient_covariances"]
-- 
2.43.0


From fc63c445fa1062e2436b720a1715642f7951fa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 08/17] fix: remove hooks and partial Kronecker factors if
 computing KFAC fails

The next product silently used the factors of the batches before the failure.
---
 curvlinops/kfac.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index c7255b0..c666574 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -400,9 +400,27 @@ class KFACLinearOperator(CurvatureLinearOperator):
         """Compute and cache KFAC's Kronecker factors for future ``matmat``s."""
         self._reset_matrix_properties()
 
-        # install forward and backward hooks
         hook_handles: List[RemovableHandle] = []
 
+        try:
+            self._install_hooks_and_accumulate(hook_handles)
+        except BaseException:
+            # don't keep partially accumulated Kronecker factors
+            self._input_covariances.clear()
+            self._gradient_covariances.clear()
+            raise
+        finally:
+            # clean up
+            for handle in hook_handles:
+                handle.remove()
+
+    def _install_hooks_and_accumulate(self, hook_handles: List[RemovableHandle]):
+        """Install the hooks, then accumulate the Kronecker factors over the data.
+
+        Args:
+            hook_handles: List to which the handles of installed hooks are appended.
+        """
+        # install forward and backward hooks
         for mod_name, param_pos in self._mapping.items():
             module = self._model_func.get_submodule(mod_name)
 
@@ -435,10 +453,6 @@ class KFACLinearOperator(CurvatureLinearOperator):
             output = self._model_func(X)
             self._compute_loss_and_backward(output, y)
 
-        # clean up
-        for handle in hook_handles:
-            handle.remove()
-
     def _maybe_adjust_loss_scale(self, loss: Tensor, output: Tensor) -> Tensor:
         """Adjust the scale of the loss tensor if necessary.
 
-- 
2.43.0


From bf1d2df079b30c1d21bffd83ec0c20bc84c41b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:33 +0000
Subject: [PATCH 09/17] fix: detach the prediction when drawing the MC-Fisher's
 would-be gradients

The would-be gradients were not detached, so that for CrossEntropyLoss and
BCEWithLogitsLoss the pseudo-loss Hessian contained derivatives of the
would-be gradients and the matrix was biased.
---
 curvlinops/fisher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/fisher.py b/curvlinops/fisher.py
index d4a1e5e..0997409 100644
--- a/curvlinops/fisher.py
+++ b/curvlinops/fisher.py
@@ -227,7 +227,7 @@ class FisherMCLinearOperator(CurvatureLinearOperator):
             output = rearrange(output, "batch ... c -> (batch ...) c")
             y = rearrange(y, "batch ... c -> (batch ...) c")
 
-        grad_output = self.sample_grad_output(output, self._mc_samples, y)
+        grad_output = self.sample_grad_output(output.detach(), self._mc_samples, y)
 
         # Adjust the scale depending on the loss function and reduction used
         num_loss_terms, C = output.shape
-- 
2.43.0


From 74fee35b7887035cca060dbb9b79ce00d377655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 10/17] fix: promote the data type in SubmatrixLinearOperator
 products

The vector was cast to the data type of the full operator, which truncated
it if the latter is an integer type.
---
 curvlinops/submatrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 3fda4a8..749a959 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -4,7 +4,7 @@ from __future__ import annotations
 
 from typing import List
 
-from numpy import column_stack, ndarray, zeros
+from numpy import column_stack, ndarray, result_type, zeros
 from scipy.sparse.linalg import LinearOperator
 
 
@@ -62,7 +62,7 @@ class SubmatrixLinearOperator(LinearOperator):
              Result of the (sub-matrix)-vector-multiplication,
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
-        v = zeros((self._A.shape[1],), dtype=self._A.dtype)
+        v = zeros((self._A.shape[1],), dtype=result_type(self._A.dtype, x.dtype))
         v[self._col_idxs] = x
         Av = self._A @ v
 
-- 
2.43.0


From e52df7646f12c494d7ded9424f223ba7ff90e67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 11/17] fix: support column vectors and matrices in submatrix
 and outer product operators

SciPy's LinearOperator passes vectors of shape [N, 1] to _matvec, for instance
when multiplying onto matrices, for which the products failed.
---
 curvlinops/outer.py     | 2 ++
 curvlinops/submatrix.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/curvlinops/outer.py b/curvlinops/outer.py
index a87c676..48f4eca 100644
--- a/curvlinops/outer.py
+++ b/curvlinops/outer.py
@@ -42,6 +42,8 @@ class OuterProductLinearOperator(LinearOperator):
         Returns:
             Result of linear operator applied to the vector.
         """
+        # SciPy also passes column vectors of shape ``[D, 1]``
+        x = x.ravel()
         return einsum(self._equation, *self._operands, x, optimize=self._path)
 
     def _adjoint(self) -> OuterProductLinearOperator:
diff --git a/curvlinops/submatrix.py b/curvlinops/submatrix.py
index 749a959..6231a39 100644
--- a/curvlinops/submatrix.py
+++ b/curvlinops/submatrix.py
@@ -63,7 +63,7 @@ class SubmatrixLinearOperator(LinearOperator):
              ``A[row_idxs, :][:, col_idxs] @ x``. Has shape ``[len(row_idxs)]``.
         """
         v = zeros((self._A.shape[1],), dtype=result_type(self._A.dtype, x.dtype))
-        v[self._col_idxs] = x
+        v[self._col_idxs] = x.ravel()  # SciPy also passes column vectors
         Av = self._A @ v
 
         return Av[self._row_idxs]
-- 
2.43.0


From cba969d1be05963d8deab1575b472c331c3f2b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 12/17] fix: use SciPy's default absolute tolerance (0) for CG

SciPy >= 1.12 interprets atol=None as an absolute tolerance of 1e-5, so that
systems with small right-hand sides were not solved to the relative tolerance.
---
 curvlinops/inverse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 51bc49c..663ff0c 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -55,7 +55,7 @@ class CGInverseLinearOperator(_InverseLinearOperator):
         maxiter: Optional[int] = None,
         M: Optional[Union[ndarray, LinearOperator]] = None,
         callback: Optional[Callable] = None,
-        atol: Optional[float] = None,
+        atol: Optional[float] = 0.0,
         tol: Optional[float] = 1e-5,
     ):
         """Store hyperparameters for CG.
-- 
2.43.0


From 3418d9a3a035082ec9e7ffc61631b0825401a07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 13/17] fix: keep the class dimension in the cross-entropy
 loss's Hessian square root for one class

---
 curvlinops/kfac_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/curvlinops/kfac_utils.py b/curvlinops/kfac_utils.py
index d706173..a7397fb 100644
--- a/curvlinops/kfac_utils.py
+++ b/curvlinops/kfac_utils.py
@@ -121,7 +121,7 @@ def loss_hessian_matrix_sqrt(
 
     elif isinstance(loss_func, CrossEntropyLoss):
         c = 1.0
-        p = output_one_datum.softmax(dim=1).squeeze()
+        p = output_one_datum.softmax(dim=1).squeeze(0)
         p_sqrt = p.sqrt()
         return (diag(p_sqrt) - einsum(p, p_sqrt, "i, j -> i j")).mul_(sqrt(c))
 
-- 
2.43.0


From f9924f0935fdb3a4c1e78275e1a2df72f46c3bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:33 +0000
Subject: [PATCH 14/17] fix: let determinism check compare all mini-batches if
 passes differ in number of batches

---
 curvlinops/_torch_base.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/curvlinops/_torch_base.py b/curvlinops/_torch_base.py
index 52d71a4..9757362 100644
--- a/curvlinops/_torch_base.py
+++ b/curvlinops/_torch_base.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+from itertools import zip_longest
 from typing import (
     Callable,
     Iterable,
@@ -728,10 +729,16 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
 
         # loop twice over the data loader, accumulate total quantities and compare
         # batch quantities if the linear operator demands fixed data order
-        for ((X1, y1), pred1, loss1, grad1), ((X2, y2), pred2, loss2, grad2) in zip(
+        for batch1, batch2 in zip_longest(
             self.data_prediction_loss_gradient(), self.data_prediction_loss_gradient()
         ):
             if self.FIXED_DATA_ORDER:
+                if batch1 is None or batch2 is None:
+                    raise RuntimeError(
+                        "Check for deterministic number of batches failed."
+                    )
+                (X1, y1), pred1, loss1, grad1 = batch1
+                (X2, y2), pred2, loss2, grad2 = batch2
                 self.__check_deterministic_batch(
                     (X1, X2),
                     (y1, y2),
@@ -744,12 +751,16 @@ class CurvatureLinearOperator(PyTorchLinearOperator):
 
             # accumulate total quantities
             if self._loss_func is not None:
-                total_loss1.add_(loss1)
-                total_loss2.add_(loss2)
-                for total_g1, g1 in zip(total_grad1, grad1):
-                    total_g1.add_(g1)
-                for total_g2, g2 in zip(total_grad2, grad2):
-                    total_g2.add_(g2)
+                if batch1 is not None:
+                    _, _, loss1, grad1 = batch1
+                    total_loss1.add_(loss1)
+                    for total_g1, g1 in zip(total_grad1, grad1):
+                        total_g1.add_(g1)
+                if batch2 is not None:
+                    _, _, loss2, grad2 = batch2
+                    total_loss2.add_(loss2)
+                    for total_g2, g2 in zip(total_grad2, grad2):
+                        total_g2.add_(g2)
 
         if self._loss_func is not None:
             if not allclose_report(total_loss1, total_loss2, rtol=rtol, atol=atol):
-- 
2.43.0


From 036f91146d15e5f744055cdd66e10f5d383ea6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 15/17] fix: report tensors of different shapes as not close in
 determinism check

---
 curvlinops/utils.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/curvlinops/utils.py b/curvlinops/utils.py
index 5b0395b..59a9743 100644
--- a/curvlinops/utils.py
+++ b/curvlinops/utils.py
@@ -33,6 +33,8 @@ def allclose_report(
 ) -> bool:
     """Same as ``allclose``, but prints entries that differ.
 
+    Tensors of different shapes are not close.
+
     Args:
         tensor1: First tensor for comparison.
         tensor2: Second tensor for comparison.
@@ -42,6 +44,10 @@ def allclose_report(
     Returns:
         ``True`` if the tensors are close, ``False`` otherwise.
     """
+    if tensor1.shape != tensor2.shape:
+        print(f"Shapes differ: {tuple(tensor1.shape)} ≠ {tuple(tensor2.shape)}.")
+        return False
+
     close = tensor1.allclose(tensor2, rtol=rtol, atol=atol)
     if not close:
         # print non-close values
-- 
2.43.0


From 4593378646848cf705b846eef1ae63c38ccbfce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:28 +0000
Subject: [PATCH 16/17] fix: do not share factor dictionaries between KFAC
 operators and their state dicts

---
 curvlinops/inverse.py | 10 ++++++----
 curvlinops/kfac.py    |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/curvlinops/inverse.py b/curvlinops/inverse.py
index 663ff0c..b31e5b2 100644
--- a/curvlinops/inverse.py
+++ b/curvlinops/inverse.py
@@ -680,8 +680,8 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
             "cache": self._cache,
             "retry_double_precision": self._retry_double_precision,
             # Inverse Kronecker factors (if computed and cached)
-            "inverse_input_covariances": self._inverse_input_covariances,
-            "inverse_gradient_covariances": self._inverse_gradient_covariances,
+            "inverse_input_covariances": dict(self._inverse_input_covariances),
+            "inverse_gradient_covariances": dict(self._inverse_gradient_covariances),
         }
 
     def load_state_dict(self, state_dict: Dict[str, Any]):
@@ -701,8 +701,10 @@ class KFACInverseLinearOperator(PyTorchLinearOperator):
         self._retry_double_precision = state_dict["retry_double_precision"]
 
         # Set inverse Kronecker factors (if computed and cached)
-        self._inverse_input_covariances = state_dict["inverse_input_covariances"]
-        self._inverse_gradient_covariances = state_dict["inverse_gradient_covariances"]
+        self._inverse_input_covariances = dict(state_dict["inverse_input_covariances"])
+        self._inverse_gradient_covariances = dict(
+            state_dict["inverse_gradient_covariances"]
+        )
 
     @classmethod
     def from_state_dict(
diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index c666574..cc6c06e 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -967,8 +967,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
             "separate_weight_and_bias": self._separate_weight_and_bias,
             "num_data": self._N_data,
             # Kronecker factors (if computed)
-            "input_covariances": self._input_covariances,
-            "gradient_covariances": self._gradient_covariances,
+            "input_covariances": dict(self._input_covariances),
+            "gradient_covariances": dict(self._gradient_covariances),
             # Properties (not necessarily computed)
             "trace": self._trace,
             "det": self._det,
@@ -1036,8 +1036,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
                     "Difference between gradient covariance and mapping keys: "
                     f"{gradient_covariances_keys ^ mapping_keys}."
                 )
-        self._input_covariances = state_dict["input_covariances"]
-        self._gradient_covariances = state_dict["gradient_covariances"]
+        self._input_covariances = dict(state_dict["input_covariances"])
+        self._gradient_covariances = dict(state_dict["gradient_covariances"])
 
         # Set properties (not necessarily computed)
         self._trace = state_dict["trace"]
-- 
2.43.0


From 274d0664364c98651fa9f37265bda8167657eb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:58 +0000
Subject: [PATCH 17/17] fix: reject KFAC state of an operator with another
 shape

---
 curvlinops/kfac.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/curvlinops/kfac.py b/curvlinops/kfac.py
index cc6c06e..5f5be47 100644
--- a/curvlinops/kfac.py
+++ b/curvlinops/kfac.py
@@ -985,6 +985,8 @@ class KFACLinearOperator(CurvatureLinearOperator):
         Raises:
             ValueError: If the loss function does not match the state dict.
             ValueError: If the loss function reduction does not match the state dict.
+            ValueError: If the shape of the operator does not match the state dict.
+            ValueError: If the Kronecker factors do not match the considered layers.
         """
         self._model_func.load_state_dict(state_dict["model_func_state_dict"])
         # Verify that the loss function and its reduction match the state dict
@@ -1002,10 +1004,14 @@ class KFACLinearOperator(CurvatureLinearOperator):
                 "Loss function reduction mismatch: "
                 f"{state_dict['loss_reduction']} != {self._loss_func.reduction}."
             )
+        # Verify that the considered parameters match the state dict
+        if tuple(state_dict["shape"]) != tuple(self.shape):
+            raise ValueError(
+                f"Shape mismatch: {tuple(state_dict['shape'])} != {tuple(self.shape)}."
+            )
 
         # Set attributes
         self._progressbar = state_dict["progressbar"]
-        self.shape = state_dict["shape"]
         self._seed = state_dict["seed"]
         self._fisher_type = state_dict["fisher_type"]
         self._mc_samples = state_dict["mc_samples"]
-- 
2.43.0

