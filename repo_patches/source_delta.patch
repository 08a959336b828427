From 10686203810a2c52439dff1bfd5d743cbfabd7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 001/106] fix: keep a batch dimension on constant matrix
 parameters in the embedding

HamEvo with a (2D) tensor generator made the matrix dimension be taken for the
batch size: wrong output shape without batches and a crash with them.
---
 qadence/blocks/embedding.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/embedding.py b/qadence/blocks/embedding.py
index 4fa6fab..62d4771 100644
--- a/qadence/blocks/embedding.py
+++ b/qadence/blocks/embedding.py
@@ -178,7 +178,10 @@ def embedding(
     )
     params.update(
         {
-            stringify(expr): cast_dtype(nparray(expr.tolist(), dtype=npcdouble))
+            # add a batch dimension such that matrices are not mistaken for a batch of values
+            stringify(expr): cast_dtype(
+                nparray(expr.tolist(), dtype=npcdouble).reshape(-1, *expr.shape[-2:])
+            )
             for expr in unique_const_matrices
         }
     )
-- 
2.43.0


From 863d6abdd69a85d9b41940d85389747b021abc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 002/106] fix: do not merge Hamiltonian evolutions in single
 qubit chains

chain(X(0), HamEvo(generator on qubit 0, t)) crashed with single qubit composition.
---
 qadence/backends/pyqtorch/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index c87f336..faba7f5 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -74,7 +74,7 @@ def is_single_qubit_chain(block: AbstractBlock) -> bool:
         isinstance(block, (ChainBlock))
         and block.n_supports == 1
         and all([isinstance(b, (ParametricBlock, PrimitiveBlock)) for b in block])
-        and not any([isinstance(b, (ScaleBlock, U)) for b in block])
+        and not any([isinstance(b, (ScaleBlock, U, TimeEvolutionBlock)) for b in block])
     )
 
 
-- 
2.43.0


From 9f41a3802e9423719be410d7d45ea719bb89d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 003/106] fix: loop over batches with matrix-valued parameters

to_list_of_dicts (loop_expectation=True) failed for HamEvo with a tensor generator.
---
 qadence/backends/utils.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/utils.py b/qadence/backends/utils.py
index 7da7692..2a87e64 100644
--- a/qadence/backends/utils.py
+++ b/qadence/backends/utils.py
@@ -101,12 +101,20 @@ def to_list_of_dicts(param_values: ParamDictType) -> list[ParamDictType]:
 
     max_batch_size = max(p.size()[0] for p in param_values.values() if isinstance(p, Tensor))
     batched_values = {
-        k: (v if v.size()[0] == max_batch_size else v.repeat(max_batch_size, 1))
+        k: (
+            v
+            if v.size()[0] == max_batch_size
+            else v.repeat(max_batch_size, *[1] * max(v.dim() - 1, 1))
+        )
         for k, v in param_values.items()
         if isinstance(v, Tensor)
     }
 
-    return [{k: v[i] for k, v in batched_values.items()} for i in range(max_batch_size)]
+    # matrix-valued parameters (e.g. Hamiltonian generators) keep their batch dimension
+    return [
+        {k: (v[i : i + 1] if v.dim() > 2 else v[i]) for k, v in batched_values.items()}
+        for i in range(max_batch_size)
+    ]
 
 
 def pyqify(state: Tensor, n_qubits: int = None) -> ArrayLike:
-- 
2.43.0


From 4068415228a017029ea8ccfb00b422ad21581035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 004/106] fix: complex eigenvalues of the N operator in
 uuid_to_eigen

GPSR crashed on circuits in which N appears scaled in a HamEvo generator.
---
 qadence/blocks/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index 1759b9a..7e0abcd 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -299,7 +299,7 @@ def uuid_to_eigen(
         try:
             eigs_generator = b.eigenvalues_generator
         except ValueError:
-            result[uuid] = (torch.zeros(2), 1.0)
+            result[uuid] = (torch.zeros(2, dtype=torch.cdouble), 1.0)
         else:
             if eigs_generator is not None:
                 if eigs_generator.numel() > 0:
-- 
2.43.0


From 8dd2de9ddf8b522f339fef4edf338400b291ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 005/106] fix: expectation of a list of observables of which
 only some have batched parameters

---
 qadence/backends/pyqtorch/backend.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 8ade90e..9becedf 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -204,10 +204,11 @@ class Backend(BackendInterface):
             unpyqify_state=False,
         )
         observable = observable if isinstance(observable, list) else [observable]
-        _expectation = torch.hstack(
-            [obs.native.expectation(state, param_observables).reshape(-1, 1) for obs in observable]
-        )
-        return _expectation
+        expvals = [
+            obs.native.expectation(state, param_observables).reshape(-1, 1) for obs in observable
+        ]
+        # only some of the observables might carry batched parameters
+        return torch.hstack(torch.broadcast_tensors(*expvals))
 
     def _looped_expectation(
         self,
-- 
2.43.0


From 19acb8379f8298b99c872a9c257b57e76894a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:03 +0000
Subject: [PATCH 006/106] fix: propagate endianness in block_to_diagonal

---
 qadence/blocks/block_to_tensor.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index c280908..64b5ac8 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -283,16 +283,22 @@ def block_to_diagonal(
     if isinstance(block, (ChainBlock, KronBlock)):
         v = torch.ones(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            v *= block_to_diagonal(b, values, qubit_support, device=device)
+            v *= block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
     if isinstance(block, AddBlock):
         t = torch.zeros(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            t += block_to_diagonal(b, values, qubit_support, device=device)
+            t += block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
         v = t
     elif isinstance(block, ScaleBlock):
         _s = evaluate(block.scale, values, as_torch=True)  # type: ignore[attr-defined]
         _s = _s.detach().squeeze(0)  # type: ignore[union-attr]
-        v = _s * block_to_diagonal(block.block, values, qubit_support, device=device)
+        v = _s * block_to_diagonal(
+            block.block, values, qubit_support, endianness=endianness, device=device
+        )
     elif isinstance(block, PrimitiveBlock):
         v = _fill_identities(
             OPERATIONS_DICT[block.name],
-- 
2.43.0


From 811a2b32046c7d67b761b840ee2ea293c5c06ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:04 +0000
Subject: [PATCH 007/106] fix: batched scales and Hamiltonian evolutions in
 block_to_tensor

Also generators which have parameters of their own.
---
 qadence/blocks/block_to_tensor.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 64b5ac8..988ae70 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -421,15 +421,15 @@ def _block_to_tensor_embedded(
                 )
 
                 # calculate evolution matrix
-                (p,) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                p = _gate_parameters(block, values)[0]
+                prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
             elif isinstance(block.generator, torch.Tensor):
                 gen_mat = block.generator.to(device)
 
                 # calculate evolution matrix
-                (p, _) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                p = _gate_parameters(block, values)[0]
+                prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
 
                 # add missing identities on unused qubits
@@ -460,7 +460,7 @@ def _block_to_tensor_embedded(
 
     elif isinstance(block, ScaleBlock):
         (scale,) = _gate_parameters(block, values)
-        mat = scale * _block_to_tensor_embedded(
+        mat = scale.reshape(-1, 1, 1) * _block_to_tensor_embedded(
             block.block, values, qubit_support, endianness=endianness, device=device
         )
 
-- 
2.43.0


From 77ed4c89534c69e5863c6247dc0f951fdd59e962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 008/106] fix: n_qubits of a block acting on qubit N is at
 least N + 1

T, TDagger, U, Toffoli, parametric controlled gates, MatrixBlock and HamEvo with a
tensor generator returned the size of their support, so e.g. run(T(2)) crashed.
---
 qadence/blocks/matrix.py          |  2 +-
 qadence/blocks/primitive.py       |  2 +-
 qadence/operations/control_ops.py | 24 ++++++++++--------------
 qadence/operations/ham_evo.py     |  3 +--
 qadence/operations/parametric.py  |  4 ----
 qadence/operations/primitive.py   |  8 --------
 6 files changed, 13 insertions(+), 30 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 440d5fb..fe4a8ba 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -102,7 +102,7 @@ class MatrixBlock(PrimitiveBlock):
 
     @property
     def n_qubits(self) -> int:
-        return np.log2(self.matrix.size()[0])  # type:ignore[no-any-return]
+        return max(self.qubit_support) + 1
 
     @staticmethod
     def is_square(m: torch.Tensor) -> bool:
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 44a58ac..19f0b1c 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -458,7 +458,7 @@ class ParametricControlBlock(ParametricBlock):
 
     @property
     def n_qubits(self) -> int:
-        return len(self.qubit_support)
+        return max(self.qubit_support) + 1
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index ddc1532..f4cc941 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -72,11 +72,11 @@ class MCZ(ControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_qubits - 1)))
+        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
 
     @property
     def eigenvalues(self) -> Tensor:
-        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_qubits - 1)))
+        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_supports - 1)))
 
     def __ascii__(self, console: Console) -> RenderableType:
         (target, control) = self.qubit_support
@@ -119,13 +119,13 @@ class MCRX(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRX(MCRX):
@@ -162,13 +162,13 @@ class MCRY(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRY(MCRY):
@@ -201,13 +201,13 @@ class MCRZ(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRZ(MCRZ):
@@ -245,13 +245,13 @@ class MCPHASE(ParametricControlBlock):
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.cat(
-            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_qubits - 2)))
+            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_supports - 2)))
         )
 
     @property
     def eigenvalues(self) -> Tensor:
         v = evaluate(self.parameters.parameter, as_torch=True)
-        return torch.cat((torch.ones(2**self.n_qubits - 1), torch.exp(1j * v)))
+        return torch.cat((torch.ones(2**self.n_supports - 1), torch.exp(1j * v)))
 
     def __rich_tree__(self, tree: Tree = None) -> Tree:
         if tree is None:
@@ -334,10 +334,6 @@ class Toffoli(ControlBlock):
         self.generator = kron(*[N(qubit) for qubit in control], X(target) - I(target))
         super().__init__(control, X(target), noise=noise)
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.tensor(
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index c796f02..e0ee83b 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -5,7 +5,6 @@ from functools import cached_property
 from logging import getLogger
 from typing import Any, Union
 
-import numpy as np
 import sympy
 import torch
 from torch import Tensor
@@ -194,7 +193,7 @@ class HamEvo(TimeEvolutionBlock):
     @property
     def n_qubits(self) -> int:
         if isinstance(self.generator, Tensor):
-            n_qubits = int(np.log2(self.generator.shape[-1]))
+            n_qubits = max(self.qubit_support) + 1
         else:
             n_qubits = self.generator.n_qubits  # type: ignore [union-attr]
 
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 857d3cd..d0d363d 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -190,10 +190,6 @@ class U(ParametricBlock):
         lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
         return torch.cat((lmbd, lmbd.conj()))
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def digital_decomposition(self) -> AbstractBlock:
         return chain(
             RZ(self.qubit_support[0], self.parameters.phi),
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 6fa8545..f12063d 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -310,10 +310,6 @@ class T(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> TDagger:
         return TDagger(self.qubit_support[0])
 
@@ -340,10 +336,6 @@ class TDagger(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([-1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> T:
         return T(self.qubit_support[0])
 
-- 
2.43.0


From 4a842907feaec6dbd188883c347b908a2099afdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:24 +0000
Subject: [PATCH 009/106] fix: eigenvalues of MCZ

---
 qadence/operations/control_ops.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index f4cc941..a5a63ab 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -72,11 +72,11 @@ class MCZ(ControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
+        return torch.cat((torch.tensor([-2], dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
 
     @property
     def eigenvalues(self) -> Tensor:
-        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_supports - 1)))
+        return torch.cat((torch.tensor([-1], dtype=cdouble), torch.ones(2**self.n_supports - 1)))
 
     def __ascii__(self, console: Console) -> RenderableType:
         (target, control) = self.qubit_support
-- 
2.43.0


From 91ae31a8705741bda01b0e60ec68b8e05063bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:11 +0000
Subject: [PATCH 010/106] fix: identities around multi-qubit matrices on
 unsorted or non-contiguous supports

block_to_tensor was wrong for MatrixBlock, Projector and tensor-generator HamEvo blocks
whose support is unsorted or has gaps, and for multi-qubit matrices in little endian.
---
 qadence/blocks/block_to_tensor.py | 37 +++++++++++++++----------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 988ae70..6ea57a8 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -80,28 +80,27 @@ def _fill_identities(
         or a tensor (2**n_qubits) if diag_only
     """
     full_qubit_support = tuple(sorted(full_qubit_support))
-    qubit_support = tuple(sorted(qubit_support))
-    block_mat = block_mat.to(device)
+    missing = tuple(i for i in full_qubit_support if i not in qubit_support)
+    mat = block_mat.to(device)
     identity_mat = IMAT.to(device)
     if diag_only:
-        block_mat = torch.diag(block_mat.squeeze(0))
+        mat = torch.diag(mat.squeeze(0))
         identity_mat = torch.diag(identity_mat.squeeze(0))
-    mat = identity_mat if qubit_support[0] != full_qubit_support[0] else block_mat
-    for i in full_qubit_support[1:]:
-        if i == qubit_support[0]:
-            other = block_mat
-            if endianness == Endianness.LITTLE:
-                mat = torch.kron(other, mat)
-            else:
-                mat = torch.kron(mat.contiguous(), other.contiguous())
-        elif i not in qubit_support:
-            other = identity_mat
-            if endianness == Endianness.LITTLE:
-                mat = torch.kron(other.contiguous(), mat.contiguous())
-            else:
-                mat = torch.kron(mat.contiguous(), other.contiguous())
-
-    return mat
+    elif mat.dim() == 2:
+        mat = mat.unsqueeze(0)
+    for _ in missing:
+        mat = torch.kron(mat.contiguous(), identity_mat.contiguous())
+
+    # move the qubits from the order (*qubit_support, *missing) to the target order
+    if endianness == Endianness.LITTLE:
+        full_qubit_support = full_qubit_support[::-1]
+    order = (*qubit_support, *missing)
+    axes = tuple(order.index(i) for i in full_qubit_support)
+    n, shape = len(order), mat.shape
+    if diag_only:
+        return mat.reshape([2] * n).permute(axes).reshape(shape)
+    mat = mat.reshape(-1, *[2] * (2 * n))
+    return mat.permute(0, *[1 + i for i in axes], *[1 + n + i for i in axes]).reshape(shape)
 
 
 def _rot_matrices(theta: torch.Tensor, generator: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From ee1f9dbda8a479305fd56f4901ecaeefb1682178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 011/106] fix: U.dagger reverses the order of the rotations

U(phi, theta, omega).dagger() was U(-phi, -theta, -omega), which is not the adjoint.
---
 qadence/operations/parametric.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index d0d363d..1089297 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -20,6 +20,7 @@ from qadence.parameters import (
     Parameter,
     ParamMap,
     evaluate,
+    extract_original_param_entry,
 )
 from qadence.types import OpName, TNumber, TParameter
 
@@ -190,6 +191,13 @@ class U(ParametricBlock):
         lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
         return torch.cat((lmbd, lmbd.conj()))
 
+    def dagger(self) -> U:
+        # the adjoint also reverses the order of the three rotations
+        phi, theta, omega = (
+            -extract_original_param_entry(p) for p in self.parameters.expressions()
+        )
+        return U(self.qubit_support[0], omega, theta, phi, self.noise)
+
     def digital_decomposition(self) -> AbstractBlock:
         return chain(
             RZ(self.qubit_support[0], self.parameters.phi),
-- 
2.43.0


From 074fd8cb91a1340fa5c19d37ffe2290c0c4f869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 012/106] fix: MatrixBlock.dagger returned the block itself

---
 qadence/blocks/matrix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index fe4a8ba..386ecec 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -122,6 +122,11 @@ class MatrixBlock(PrimitiveBlock):
         i = torch.eye(m.shape[0], dtype=torch.complex128)
         return torch.allclose(prod, i)  # type:ignore[no-any-return]
 
+    def dagger(self) -> MatrixBlock:
+        return MatrixBlock(
+            self.matrix.t().conj(), self.qubit_support, self.noise, check_unitary=False
+        )
+
     def expand_to(self, n_qubits: int = 1) -> torch.Tensor:
         from qadence.blocks.block_to_tensor import _fill_identities
 
-- 
2.43.0


From 13317a919766b3846480752f436029cddca903cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 013/106] fix: Projector.dagger exchanges ket and bra

---
 qadence/operations/primitive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index f12063d..ab90925 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -142,6 +142,11 @@ class Projector(ProjectorBlock):
     ) -> None:
         super().__init__(ket=ket, bra=bra, qubit_support=qubit_support, noise=noise)
 
+    def dagger(self) -> Projector:
+        if self.ket == self.bra:
+            return self
+        return Projector(self.bra, self.ket, self.qubit_support, self.noise)
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
-- 
2.43.0


From 40a6fadc605bdb39cf03e14e543f2a43e3745c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 014/106] fix: HamEvo.dagger keeps the qubit support

It raised for non-block (e.g. tensor) generators.
---
 qadence/operations/ham_evo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index e0ee83b..45e9810 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -201,7 +201,9 @@ class HamEvo(TimeEvolutionBlock):
 
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
-        return HamEvo(deepcopy(self.generator), -extract_original_param_entry(p))
+        return HamEvo(
+            deepcopy(self.generator), -extract_original_param_entry(p), self.qubit_support
+        )
 
     def digital_decomposition(self, approximation: LTSOrder = LTSOrder.ST4) -> AbstractBlock:
         """Decompose the Hamiltonian evolution into digital gates.
-- 
2.43.0


From e006564a720b0c7be66b4f379ebc2e81b125cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 015/106] fix: matrix of TDagger

T.dagger().tensor() raised because of the block's name, and the matrix was the one of T.
---
 qadence/blocks/block_to_tensor.py | 2 +-
 qadence/operations/primitive.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 6ea57a8..6ccd30f 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -33,7 +33,7 @@ NMAT = torch.tensor([[0, 0], [0, 1]], dtype=torch.cdouble).unsqueeze(0)
 SMAT = torch.tensor([[1, 0], [0, 1j]], dtype=torch.cdouble).unsqueeze(0)
 SDAGMAT = torch.tensor([[1, 0], [0, -1j]], dtype=torch.cdouble).unsqueeze(0)
 TMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
-TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
+TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(-J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
 HMAT = (
     1
     / torch.sqrt(torch.tensor(2))
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index ab90925..195251b 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -323,7 +323,7 @@ class TDagger(PrimitiveBlock):
     """The Hermitian adjoint/conjugate transpose of the T gate."""
 
     # FIXME: this gate is not support by any backend
-    name = "T_dagger"
+    name = OpName.TDAGGER
 
     def __init__(
         self,
-- 
2.43.0


From 2d9689cd341fe99d03dc63b702f50082fd4c052c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:21 +0000
Subject: [PATCH 016/106] fix: shape (batch_size, n_observables) of
 expectations in adjoint mode

---
 qadence/engines/torch/differentiable_expectation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index febc13b..392bc63 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -162,7 +162,7 @@ class DifferentiableExpectation:
             )  # we expect (batch_size, n_observables) shape
 
         expectation_list = [expectation_fn(i) for i in range(len(self.observable))]
-        return torch.vstack(expectation_list)
+        return torch.hstack(expectation_list)
 
     def psr(self, psr_fn: Callable, **psr_args: int | float | None) -> Tensor:
         # wrapper which unpacks the parameters
-- 
2.43.0


From ee6663cdd6b9ecbc575eed8d880631282ec61f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:27 +0000
Subject: [PATCH 017/106] fix: copying or pickling a Parameter changed its
 value (also of the original)

Sympy caches symbols and stores all assumptions as booleans: deepcopy of a parameter with
value=1.3 made the value of both the copy and the original True, e.g. in CRX(...).dagger().
---
 qadence/parameters.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index ff0362c..8fd22f9 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -152,6 +152,19 @@ class Parameter(Symbol):
     def __hash__(self) -> Any:
         return super().__hash__()
 
+    def __copy__(self) -> Parameter:
+        # Sympy caches symbols: a new instance is the same object as the original one.
+        return self
+
+    def __deepcopy__(self, memo: dict) -> Parameter:
+        return self
+
+    def __getnewargs_ex__(self) -> tuple:
+        # Sympy stores assumptions as booleans, hence the attributes are not to be taken from there.
+        args, kwargs = super().__getnewargs_ex__()
+        attrs = {"trainable": self.trainable, "value": self.value, "is_time": self.is_time}
+        return args, {**kwargs, **attrs}
+
     def _to_dict(self) -> dict:
         d = {"name": self.name, "trainable": str(self.trainable), "value": str(self.value)}
         try:
-- 
2.43.0


From f4c9af359b7e07e7c612bbcb3391a78bbd4e5187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:10 +0000
Subject: [PATCH 018/106] fix: adjoint of parametric scale expressions

---
 qadence/parameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 8fd22f9..5453ddd 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -9,7 +9,6 @@ import numpy as np
 import sympy
 from sympy import *
 from sympy import Array, Basic, Expr, Symbol, sympify
-from sympy.physics.quantum.dagger import Dagger
 from sympytorch import SymPyModule as torchSympyModule
 from torch import Tensor, heaviside, no_grad, rand, tensor
 
@@ -20,7 +19,6 @@ __all__ = ["FeatureParameter", "Parameter", "VariationalParameter", "ParamMap",
 
 logger = getLogger(__name__)
 
-dagger_expression = Dagger
 
 ParameterJSONSchema = {
     "$schema": "http://json-schema.org/draft-07/schema#",
@@ -44,6 +42,11 @@ ParameterJSONSchema = {
 }
 
 
+def dagger_expression(expr: Basic) -> Basic:
+    """The complex conjugate of an expression of (real) parameters."""
+    return expr.xreplace({I: -I})
+
+
 class Parameter(Symbol):
     """
     A wrapper on top of `sympy.Symbol`.
-- 
2.43.0


From e2d485554978bc693efbb1683e35a04a1185fd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:10 +0000
Subject: [PATCH 019/106] fix: constants -1 and -2 shared one embedding key
 (equal Python hashes)

---
 qadence/parameters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 5453ddd..e83ed6c 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -305,8 +305,7 @@ def stringify(expr: Basic) -> str:
         return str(np.array(expr.tolist())).replace(".", "_")
     else:
         if expr.is_number:
-            expr_hash = hash(sympy_to_numeric(expr))
-            name = "fix_" + str(expr_hash)
+            name = "fix_" + repr(sympy_to_numeric(expr)).replace(".", "_")
         else:
             name = str(expr).replace(".", "_")
         return name
-- 
2.43.0


From b3e7037e721c219851fc6e46cef99aeba187253d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:09 +0000
Subject: [PATCH 020/106] fix: digital decomposition of Pauli strings on
 non-adjacent qubits

---
 qadence/decompose.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index d26d56b..d7729d4 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -120,10 +120,11 @@ def decompose_pauli_exp(block_list: list, parameter: Parameter | sympy.Expr) ->
         fact = 2.0 * parameter * scale
 
         blist: list[AbstractBlock] = bl if n_blocks >= 2 else [bl]  # type: ignore[assignment]
-        indx = [b.qubit_support[0] for b in blist]
+        indx = sorted(b.qubit_support[0] for b in blist)
         ztarget = max(indx)
 
-        cnot_sequence = [CNOT(i, i + 1) for i in range(min(indx), max(indx))]
+        # only the qubits of the Pauli string take part in the parity
+        cnot_sequence = [CNOT(i, j) for i, j in zip(indx[:-1], indx[1:])]
         basis_fwd = [change_to_z_basis(blist[i], 1) for i in range(len(blist))]
         rot = [RZ(parameter=Parameter(fact), target=ztarget)]
         basis_bkd = [change_to_z_basis(blist[i], -1) for i in range(len(blist) - 1, -1, -1)]
-- 
2.43.0


From 70bd0dcc0942b669732fa0f26d85336c16ce0384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:54 +0000
Subject: [PATCH 021/106] fix: run a list of circuits

---
 qadence/execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/execution.py b/qadence/execution.py
index c98f825..32f8a45 100644
--- a/qadence/execution.py
+++ b/qadence/execution.py
@@ -105,7 +105,7 @@ def _(block: AbstractBlock, **kwargs: Any) -> Tensor:
 def _(circs: list, **kwargs: Any) -> Tensor:  # type: ignore[misc]
     results = ()
     for c in circs:
-        results += run(c, **kwargs)  # type:ignore[assignment]
+        results += (run(c, **kwargs),)  # type:ignore[assignment]
     return concat(results, dim=0)
 
 
-- 
2.43.0


From 66b108d1698c4b433e6baf414d50c0d2cb185d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:54 +0000
Subject: [PATCH 022/106] fix: norm_difference compares the probabilities of
 the same outcomes

---
 qadence/divergences.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qadence/divergences.py b/qadence/divergences.py
index 0610863..d9088fc 100644
--- a/qadence/divergences.py
+++ b/qadence/divergences.py
@@ -39,12 +39,12 @@ def js_divergence(counter_p: Counter, counter_q: Counter) -> float:
 
 
 def norm_difference(counter_p: Counter, counter_q: Counter) -> float:
-    # Normalise counters
-
-    counter_p = np.array([v for v in counter_p.values()])
-    counter_q = np.array([v for v in counter_q.values()])
+    # Normalise counters, aligned on the outcomes seen in either of them
+    outcomes = list(dict.fromkeys([*counter_p, *counter_q]))
+    counts_p = np.array([counter_p[k] for k in outcomes])
+    counts_q = np.array([counter_q[k] for k in outcomes])
 
-    prob_p = counter_p / np.sum(counter_p)
-    prob_q = counter_q / np.sum(counter_q)
+    prob_p = counts_p / np.sum(counts_p)
+    prob_q = counts_q / np.sum(counts_q)
 
     return float(np.linalg.norm(prob_p - prob_q))
-- 
2.43.0


From 732619acfffa6853d6c55f71fb0b0ba7ed88a2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:36 +0000
Subject: [PATCH 023/106] fix: Register deserialization keeps the coordinates

---
 qadence/register.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/register.py b/qadence/register.py
index 795d5c7..5cd4bdd 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -346,6 +346,7 @@ class Register:
 
         return cls(
             support=nx.node_link_graph(d["graph"]),
+            spacing=None,  # keep the serialized coordinates
             device_specs=RydbergDevice._from_dict(device_dict),
         )
 
-- 
2.43.0


From d89579c97ed0b5a30b03fabb260811590360450c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:36 +0000
Subject: [PATCH 024/106] fix: building a Register does not rescale the
 caller's graph

---
 qadence/register.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/register.py b/qadence/register.py
index 5cd4bdd..812c14b 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -70,7 +70,8 @@ class Register:
 
         self.device_specs = device_specs
 
-        self.graph = support if isinstance(support, nx.Graph) else alltoall_graph(support)
+        # copy, the coordinates of the caller's graph must not be rescaled
+        self.graph = support.copy() if isinstance(support, nx.Graph) else alltoall_graph(support)
 
         if spacing is not None and self.min_distance != 0.0:
             _scale_node_positions(self.graph, self.min_distance, spacing)
-- 
2.43.0


From 30dc2d1af9cb7d67308bd6741511b9738c7057e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:36 +0000
Subject: [PATCH 025/106] fix: RydbergDevice deserialization does not modify
 its input

---
 qadence/analog/device.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qadence/analog/device.py b/qadence/analog/device.py
index adfc59f..ea9b1d3 100644
--- a/qadence/analog/device.py
+++ b/qadence/analog/device.py
@@ -69,8 +69,7 @@ class RydbergDevice:
     @classmethod
     def _from_dict(cls, d: dict) -> RydbergDevice:
         pattern = AddressingPattern._from_dict(d["pattern"])
-        d["pattern"] = pattern
-        return cls(**d)
+        return cls(**{**d, "pattern": pattern})
 
 
 def IdealDevice(pattern: AddressingPattern | None = None) -> RydbergDevice:
-- 
2.43.0


From db1528f1897f81ccfa926a8c2806dbf01217f907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:20 +0000
Subject: [PATCH 026/106] fix: deserialize floats printed with an exponent

---
 qadence/serial_expr_grammar.peg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/serial_expr_grammar.peg b/qadence/serial_expr_grammar.peg
index 716c7b5..ea0a907 100644
--- a/qadence/serial_expr_grammar.peg
+++ b/qadence/serial_expr_grammar.peg
@@ -7,5 +7,5 @@ param = r"[a-z][a-zA-Z]*"
 id = r"[a-zA-Z][a-zA-Z_0-9]*"
 bool = 'True' / 'False'
 int = r"-?(0|[1-9][0-9]*)"
-float_str = r"'-?(0|\d*(\.\d*))'"
+float_str = r"'-?(0|\d*(\.\d*))(e[+-]?\d+)?'"
 str = r"'[a-zA-Z0-9\_\.]+'"
-- 
2.43.0


From 47e3415c29e87818265276bbdb40ab87cc4cd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:20 +0000
Subject: [PATCH 027/106] fix: PHASE can be deserialized

---
 qadence/operations/parametric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 1089297..27b5dab 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -40,7 +40,9 @@ class PHASE(ParametricBlock):
         parameter: Parameter | TNumber | sympy.Expr | str,
         noise: NoiseHandler | None = None,
     ) -> None:
-        self.parameters = ParamMap(parameter=parameter)
+        self.parameters = (
+            parameter if isinstance(parameter, ParamMap) else ParamMap(parameter=parameter)
+        )
         self.generator = I(target) - Z(target)
         super().__init__((target,), noise=noise)
 
-- 
2.43.0


From c4a13483bedba3460e7daff99f3e35cd3869473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:20 +0000
Subject: [PATCH 028/106] fix: U can be deserialized

---
 qadence/operations/parametric.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 27b5dab..d80d940 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -200,6 +200,14 @@ class U(ParametricBlock):
         )
         return U(self.qubit_support[0], omega, theta, phi, self.noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> U:
+        params = ParamMap._from_dict(d["parameters"])
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        block = cls(d["qubit_support"][0], params.phi, params.theta, params.omega, noise)
+        block.parameters = params
+        return block
+
     def digital_decomposition(self) -> AbstractBlock:
         return chain(
             RZ(self.qubit_support[0], self.parameters.phi),
-- 
2.43.0


From 29554b25c20bcaea67d4bde228be28fc08cd20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 029/106] fix: projectors and the number operator can be
 deserialized

---
 qadence/blocks/primitive.py     | 8 ++++++++
 qadence/operations/primitive.py | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 19f0b1c..dbd83f6 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -548,3 +548,11 @@ class ProjectorBlock(PrimitiveBlock):
         self.ket = ket
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
+
+    def _to_dict(self) -> dict:
+        return {**super()._to_dict(), "ket": self.ket, "bra": self.bra}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> ProjectorBlock:
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(d["ket"], d["bra"], tuple(d["qubit_support"]), noise)
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 195251b..0cdaee0 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -169,6 +169,11 @@ class N(Projector):
     ) -> None:
         super().__init__(ket=state, bra=state, qubit_support=(target,), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> N:
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(d["qubit_support"][0], d["ket"], noise)
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
-- 
2.43.0


From ba7e7c2a96243249a4c59dab80f0c212915353b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:32 +0000
Subject: [PATCH 030/106] fix: controlled operations can be deserialized

---
 qadence/blocks/primitive.py       | 26 +++++++++++++++-----------
 qadence/operations/control_ops.py | 11 +++++++++++
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index dbd83f6..cc49a46 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -369,6 +369,9 @@ class ControlBlock(PrimitiveBlock):
     control: tuple[int, ...]
     target: tuple[int, ...]
 
+    # whether the operation is defined by a tuple of control qubits or by a single one
+    multi_control: bool = False
+
     def __init__(
         self,
         control: tuple[int, ...],
@@ -417,9 +420,11 @@ class ControlBlock(PrimitiveBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ControlBlock:
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        return cls(control, target, NoiseHandler._from_dict(d.get("noise")))
+        n_controls = len(d["qubit_support"]) - len(d["blocks"][0]["qubit_support"])
+        control = tuple(d["qubit_support"][:n_controls])
+        targets = d["qubit_support"][n_controls:]
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(control if cls.multi_control else control[0], *targets, noise)  # type: ignore[arg-type, call-arg]
 
     def dagger(self) -> ControlBlock:
         blk = deepcopy(self)
@@ -434,6 +439,9 @@ class ParametricControlBlock(ParametricBlock):
     control: tuple[int, ...] = ()
     blocks: tuple[ParametricBlock, ...]
 
+    # whether the operation is defined by a tuple of control qubits or by a single one
+    multi_control: bool = False
+
     def __init__(
         self,
         control: tuple[int, ...],
@@ -478,14 +486,10 @@ class ParametricControlBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ParametricControlBlock:
-        from qadence.serialization import deserialize
-
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        targetblock = d["blocks"][0]
-        expr = deserialize(targetblock["parameters"])
-        block = cls(control, target, NoiseHandler._from_dict(d.get("noise")), expr)  # type: ignore[call-arg]
-        return block
+        *control, target = d["qubit_support"]
+        params = ParamMap._from_dict(d["blocks"][0]["parameters"])
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(tuple(control) if cls.multi_control else control[0], target, params, noise)  # type: ignore[call-arg, arg-type]
 
     @property
     def _block_title(self) -> str:
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index a5a63ab..a890d98 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -63,6 +63,7 @@ class CNOT(ControlBlock):
 
 class MCZ(ControlBlock):
     name = OpName.MCZ
+    multi_control = True
 
     def __init__(
         self, control: tuple[int, ...], target: int, noise: NoiseHandler | None = None
@@ -95,6 +96,7 @@ class CZ(MCZ):
     """The CZ gate."""
 
     name = OpName.CZ
+    multi_control = False
 
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         super().__init__((control,), target, noise=noise)
@@ -102,6 +104,7 @@ class CZ(MCZ):
 
 class MCRX(ParametricControlBlock):
     name = OpName.MCRX
+    multi_control = True
 
     def __init__(
         self,
@@ -132,6 +135,7 @@ class CRX(MCRX):
     """The CRX gate."""
 
     name = OpName.CRX
+    multi_control = False
 
     def __init__(
         self,
@@ -145,6 +149,7 @@ class CRX(MCRX):
 
 class MCRY(ParametricControlBlock):
     name = OpName.MCRY
+    multi_control = True
 
     def __init__(
         self,
@@ -175,6 +180,7 @@ class CRY(MCRY):
     """The CRY gate."""
 
     name = OpName.CRY
+    multi_control = False
 
     def __init__(
         self, control: int, target: int, parameter: TParameter, noise: NoiseHandler | None = None
@@ -184,6 +190,7 @@ class CRY(MCRY):
 
 class MCRZ(ParametricControlBlock):
     name = OpName.MCRZ
+    multi_control = True
 
     def __init__(
         self,
@@ -214,6 +221,7 @@ class CRZ(MCRZ):
     """The CRZ gate."""
 
     name = OpName.CRZ
+    multi_control = False
 
     def __init__(
         self,
@@ -227,6 +235,7 @@ class CRZ(MCRZ):
 
 class MCPHASE(ParametricControlBlock):
     name = OpName.MCPHASE
+    multi_control = True
 
     def __init__(
         self,
@@ -270,6 +279,7 @@ class CPHASE(MCPHASE):
     """The CPHASE gate."""
 
     name = OpName.CPHASE
+    multi_control = False
 
     def __init__(
         self,
@@ -327,6 +337,7 @@ class CSWAP(ControlBlock):
 
 class Toffoli(ControlBlock):
     name = OpName.TOFFOLI
+    multi_control = True
 
     def __init__(
         self, control: tuple[int, ...], target: int, noise: NoiseHandler | None = None
-- 
2.43.0


From dceb84189e02baa94bba5e17c11761a4bec8db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:36 +0000
Subject: [PATCH 031/106] fix: equality of U, projector, matrix and Hamiltonian
 evolution blocks

---
 qadence/blocks/matrix.py      |  6 ++++++
 qadence/blocks/primitive.py   | 13 +++++++++++--
 qadence/operations/ham_evo.py | 17 +++++++++++++++++
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 386ecec..ea1bc5d 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -122,6 +122,12 @@ class MatrixBlock(PrimitiveBlock):
         i = torch.eye(m.shape[0], dtype=torch.complex128)
         return torch.allclose(prod, i)  # type:ignore[no-any-return]
 
+    def __eq__(self, other: object) -> bool:
+        return super().__eq__(other) and torch.equal(self.matrix, other.matrix)  # type: ignore[attr-defined]
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
     def dagger(self) -> MatrixBlock:
         return MatrixBlock(
             self.matrix.t().conj(), self.qubit_support, self.noise, check_unitary=False
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index cc49a46..9d3b721 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -187,8 +187,11 @@ class ParametricBlock(PrimitiveBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            return self.qubit_support == other.qubit_support and self.parameters.parameter.equals(
-                other.parameters.parameter
+            exprs, other_exprs = self.parameters.expressions(), other.parameters.expressions()
+            return (
+                self.qubit_support == other.qubit_support
+                and len(exprs) == len(other_exprs)
+                and all(e1.equals(e2) for e1, e2 in zip(exprs, other_exprs))
             )
         return False
 
@@ -553,6 +556,12 @@ class ProjectorBlock(PrimitiveBlock):
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
 
+    def __eq__(self, other: object) -> bool:
+        return super().__eq__(other) and (self.ket, self.bra) == (other.ket, other.bra)  # type: ignore[attr-defined]
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
     def _to_dict(self) -> dict:
         return {**super()._to_dict(), "ket": self.ket, "bra": self.bra}
 
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 45e9810..7722233 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -168,6 +168,23 @@ class HamEvo(TimeEvolutionBlock):
                 raise ValueError("Parametric operators are not supported")
         self.noise_operators = noise_operators
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, AbstractBlock):
+            raise TypeError(f"Cant compare {type(self)} to {type(other)}")
+        if not isinstance(other, type(self)) or self.qubit_support != other.qubit_support:
+            return False
+        if isinstance(self.generator, AbstractBlock) != isinstance(other.generator, AbstractBlock):
+            return False
+        if isinstance(self.generator, Tensor) and isinstance(other.generator, Tensor):
+            same_generator = torch.equal(self.generator, other.generator)
+        else:
+            same_generator = self.generator == other.generator
+        return (
+            same_generator
+            and self.duration == other.duration
+            and self.parameters.parameter.equals(other.parameters.parameter)
+        )
+
     @classmethod
     def num_parameters(cls) -> int:
         return 2
-- 
2.43.0


From 9d23cfec262a01099907f5309cee81b97695f3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:36 +0000
Subject: [PATCH 032/106] fix: matrix blocks can be serialized

---
 qadence/blocks/matrix.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index ea1bc5d..93f48d7 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -123,11 +123,23 @@ class MatrixBlock(PrimitiveBlock):
         return torch.allclose(prod, i)  # type:ignore[no-any-return]
 
     def __eq__(self, other: object) -> bool:
-        return super().__eq__(other) and torch.equal(self.matrix, other.matrix)  # type: ignore[attr-defined]
+        return super().__eq__(other) and torch.equal(
+            self.matrix.to(torch.cdouble), other.matrix.to(torch.cdouble)  # type: ignore[attr-defined]
+        )
 
     def __hash__(self) -> int:
         return super().__hash__()
 
+    def _to_dict(self) -> dict:
+        matrix = torch.view_as_real(self.matrix.to(torch.cdouble).resolve_conj()).tolist()
+        return {**super()._to_dict(), "matrix": matrix}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> MatrixBlock:
+        matrix = torch.view_as_complex(torch.tensor(d["matrix"], dtype=torch.double))
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(matrix, tuple(d["qubit_support"]), noise, check_unitary=False)
+
     def dagger(self) -> MatrixBlock:
         return MatrixBlock(
             self.matrix.t().conj(), self.qubit_support, self.noise, check_unitary=False
-- 
2.43.0


From cd56487ad1274e5e3b54944154af2443a8a318eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 033/106] fix: Hamiltonian evolutions can be serialized

---
 qadence/operations/ham_evo.py | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 7722233..212c4d4 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -185,6 +185,41 @@ class HamEvo(TimeEvolutionBlock):
             and self.parameters.parameter.equals(other.parameters.parameter)
         )
 
+    def _to_dict(self) -> dict:
+        from qadence.serialization import serialize
+
+        generator: dict
+        if isinstance(self.generator, Tensor):
+            matrix = torch.view_as_real(self.generator.detach().to(torch.cdouble).resolve_conj())
+            generator = {"matrix": matrix.tolist()}
+        else:
+            generator = serialize(self.generator)
+        return {
+            **super()._to_dict(),
+            "generator": generator,
+            "duration": None if self.duration is None else serialize(Parameter(self.duration)),
+            "noise_operators": [serialize(op) for op in self.noise_operators],
+        }
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> HamEvo:
+        from qadence.serialization import deserialize
+
+        _, parameter = d["parameters"]["_name_dict"]["parameter"]
+        generator: Any
+        if "matrix" in d["generator"]:
+            matrix = torch.tensor(d["generator"]["matrix"], dtype=torch.double)
+            generator = torch.view_as_complex(matrix)
+        else:
+            generator = deserialize(d["generator"])
+        return cls(
+            generator,
+            deserialize(parameter),
+            tuple(d["qubit_support"]),
+            None if d["duration"] is None else deserialize(d["duration"]),  # type: ignore[arg-type]
+            [deserialize(op) for op in d["noise_operators"]],  # type: ignore[misc]
+        )
+
     @classmethod
     def num_parameters(cls) -> int:
         return 2
-- 
2.43.0


From db08cea8556e76c35ceae0de92a577987593cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:05 +0000
Subject: [PATCH 034/106] fix: serialization keeps non-trainable and time
 parameters that scale a block

---
 qadence/parameters.py           | 7 +------
 qadence/serial_expr_grammar.peg | 2 +-
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index e83ed6c..aedae12 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -112,12 +112,7 @@ class Parameter(Symbol):
             else:
                 return Array(name.detach().numpy())
         elif isinstance(name, Parameter):
-            p = super().__new__(cls, name.name, **assumptions)
-            p.name = name.name
-            p.trainable = name.trainable
-            p.value = name.value
-            p.is_time = name.is_time
-            return p
+            return name
         elif isinstance(name, (Basic, Expr)):
             if name.is_number:
                 return sympify(evaluate(name))
diff --git a/qadence/serial_expr_grammar.peg b/qadence/serial_expr_grammar.peg
index ea0a907..16a6ebe 100644
--- a/qadence/serial_expr_grammar.peg
+++ b/qadence/serial_expr_grammar.peg
@@ -3,7 +3,7 @@ expr = id '(' args ')'
 args = (value / expr) (',' (value / expr))*
 value = int / float_str / str / pair
 pair = param '=' (int / bool / str)
-param = r"[a-z][a-zA-Z]*"
+param = r"[a-z][a-zA-Z_]*"
 id = r"[a-zA-Z][a-zA-Z_0-9]*"
 bool = 'True' / 'False'
 int = r"-?(0|[1-9][0-9]*)"
-- 
2.43.0


From 52cfa5c44c8b8f18789b76454b87fc755c256615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 035/106] fix: deserialization keeps the tags of nested blocks

---
 qadence/blocks/composite.py | 12 ++----------
 qadence/blocks/primitive.py | 11 ++---------
 2 files changed, 4 insertions(+), 19 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 62bf6ea..4d932fc 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -124,18 +124,10 @@ class CompositeBlock(AbstractBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> CompositeBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
         from qadence.blocks.utils import _construct, tag
+        from qadence.serialization import deserialize
 
-        blocks = [
-            (
-                getattr(operations, b["type"])._from_dict(b)
-                if hasattr(operations, b["type"])
-                else getattr(qadenceblocks, b["type"])._from_dict(b)
-            )
-            for b in d["blocks"]
-        ]
+        blocks = [deserialize(b) for b in d["blocks"]]
         block = _construct(cls, blocks)  # type: ignore[arg-type]
         if d["tag"] is not None:
             tag(block, d["tag"])
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 9d3b721..9afaa1c 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -336,17 +336,10 @@ class ScaleBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ScaleBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
+        from qadence.serialization import deserialize
 
         expr = ParamMap._from_dict(d["parameters"])
-        block: AbstractBlock
-        if hasattr(operations, d["block"]["type"]):
-            block = getattr(operations, d["block"]["type"])._from_dict(d["block"])
-
-        else:
-            block = getattr(qadenceblocks, d["block"]["type"])._from_dict(d["block"])
-        return cls(block, expr)  # type: ignore[arg-type]
+        return cls(deserialize(d["block"]), expr)  # type: ignore[arg-type]
 
 
 class TimeEvolutionBlock(ParametricBlock):
-- 
2.43.0


From 3f6ea0a147fdf0020f9d2cea71685ac7f3cc26df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:47 +0000
Subject: [PATCH 036/106] fix: deserialize expressions with the constants pi, I
 and e

---
 qadence/serial_expr_grammar.peg | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/serial_expr_grammar.peg b/qadence/serial_expr_grammar.peg
index 16a6ebe..070c207 100644
--- a/qadence/serial_expr_grammar.peg
+++ b/qadence/serial_expr_grammar.peg
@@ -1,10 +1,11 @@
-Program = expr EOF
+Program = (expr / const) EOF
 expr = id '(' args ')'
-args = (value / expr) (',' (value / expr))*
+args = (value / expr / const) (',' (value / expr / const))*
 value = int / float_str / str / pair
 pair = param '=' (int / bool / str)
 param = r"[a-z][a-zA-Z_]*"
 id = r"[a-zA-Z][a-zA-Z_0-9]*"
+const = 'pi' / 'I' / 'E'
 bool = 'True' / 'False'
 int = r"-?(0|[1-9][0-9]*)"
 float_str = r"'-?(0|\d*(\.\d*))(e[+-]?\d+)?'"
-- 
2.43.0


From 101a28bdb5c6f33b03d28fb1d2acdc0ab259c1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:11 +0000
Subject: [PATCH 037/106] fix: serialized expressions can only use sympy names

---
 qadence/serialization.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index 8d0f237..f25fba7 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -11,6 +11,7 @@ from pathlib import Path
 from typing import Any, Callable, get_args
 from typing import Union as TypingUnion
 
+import sympy
 import torch
 from arpeggio import NoMatch
 from arpeggio.cleanpeg import ParserPEG
@@ -201,13 +202,21 @@ class ModelSerialization(SerializationModel):
         raise ValueError(f"Couldn't resolve module '{module}'.")
 
 
+# The only names that can be evaluated in a serialized expression
+EXPRESSION_NAMES = {
+    name: obj
+    for name, obj in vars(sympy).items()
+    if isinstance(obj, core.Basic) or (isinstance(obj, type) and issubclass(obj, core.Basic))
+} | {"Parameter": Parameter}
+
+
 @dataclass
 class ExpressionSerialization(SerializationModel):
     value: str | core.Expr | float = dataclass_field(init=False)
 
     def __post_init__(self) -> None:
         if parse_expr_fn(self.d["expression"]):
-            expr = eval(self.d["expression"])
+            expr = eval(self.d["expression"], {"__builtins__": {}}, EXPRESSION_NAMES)
             if hasattr(expr, "free_symbols"):
                 for s in expr.free_symbols:
                     s.value = float(self.d["symbols"][s.name]["value"])
-- 
2.43.0


From 70d7545711d9ffe8d3ed0362bc941724133011e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:33 +0000
Subject: [PATCH 038/106] fix: deserialization of measurement protocols

---
 qadence/measurements/protocols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/measurements/protocols.py b/qadence/measurements/protocols.py
index d0868b0..c8d2542 100644
--- a/qadence/measurements/protocols.py
+++ b/qadence/measurements/protocols.py
@@ -34,5 +34,5 @@ class Measurements:
     @classmethod
     def _from_dict(cls, d: dict) -> Measurements | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
-- 
2.43.0


From 9fbd480b17f29af5428acaa993f53820f78c5c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:33 +0000
Subject: [PATCH 039/106] fix: deserialization of models without observable

---
 qadence/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/model.py b/qadence/model.py
index a9a4d8a..0150ee9 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -515,7 +515,7 @@ class QuantumModel(nn.Module):
                 circuit=QuantumCircuit._from_dict(qm_dict["circuit"]),
                 observable=(
                     None
-                    if not isinstance(qm_dict["observable"], list)
+                    if not any(qm_dict["observable"])
                     else [deserialize(q_obs) for q_obs in qm_dict["observable"]]  # type: ignore[misc]
                 ),
                 backend=qm_dict["backend"],
-- 
2.43.0


From 5a2ad52d24e7192e081ad2965bbeb399ec8ba45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:44 +0000
Subject: [PATCH 040/106] fix: serialized model parameters are copies and are
 restored from .pt files

---
 qadence/model.py         | 4 +++-
 qadence/serialization.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/model.py b/qadence/model.py
index 0150ee9..445e9b6 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -488,7 +488,9 @@ class QuantumModel(nn.Module):
             }
             param_dict_conv = {}
             if save_params:
-                param_dict_conv = {name: param for name, param in self._params.items()}
+                param_dict_conv = {
+                    name: param.detach().clone() for name, param in self._params.items()
+                }
             d = {self.__class__.__name__: d, "param_dict": param_dict_conv}
             logger.debug(f"{self.__class__.__name__} serialized to {d}.")
         except Exception as e:
diff --git a/qadence/serialization.py b/qadence/serialization.py
index f25fba7..7d87010 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -487,4 +487,4 @@ def load(file_path: str | Path, map_location: str = "cpu") -> SUPPORTED_TYPES:
         logger.debug(f"Successfully loaded {d} from {file_path}.")
     except Exception as e:
         logger.error(f"Unable to load Object from {file_path} due to {e}")
-    return deserialize(d)
+    return deserialize(d, as_torch=bool(d.get("param_dict")))
-- 
2.43.0


From 61eec371884734505caa2b01fbf49adadf24ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:44 +0000
Subject: [PATCH 041/106] fix: deserialization keeps the tag of a circuit's
 root block

---
 qadence/circuit.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/qadence/circuit.py b/qadence/circuit.py
index fd266fe..56a3e44 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -176,19 +176,9 @@ class QuantumCircuit:
 
     @classmethod
     def _from_dict(cls, d: dict) -> QuantumCircuit:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
-
-        RootBlock = (
-            getattr(operations, d["block"]["type"])
-            if hasattr(operations, d["block"]["type"])
-            else getattr(qadenceblocks, d["block"]["type"])
-        )
-
-        return QuantumCircuit(
-            Register._from_dict(d["register"]),
-            RootBlock._from_dict(d["block"]),
-        )
+        from qadence.serialization import deserialize
+
+        return QuantumCircuit(Register._from_dict(d["register"]), deserialize(d["block"]))  # type: ignore[arg-type]
 
     @classmethod
     def _from_json(cls, path: str | Path) -> QuantumCircuit:
-- 
2.43.0


From 7f3cf109f797b802cabb0f58769285cfb056f539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:11 +0000
Subject: [PATCH 042/106] fix: loading the parameters of a model does not make
 its constants trainable

---
 qadence/ml_tools/models.py | 4 +++-
 qadence/model.py           | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 098a5ef..1427258 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -492,7 +492,9 @@ class QNN(QuantumModel):
                 conv_pd = nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = nn.Parameter(param)
+                    conv_pd[n] = nn.Parameter(
+                        param.detach().clone(), requires_grad=param.requires_grad
+                    )
                 qnn._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/model.py b/qadence/model.py
index 445e9b6..e336ea6 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -489,7 +489,8 @@ class QuantumModel(nn.Module):
             param_dict_conv = {}
             if save_params:
                 param_dict_conv = {
-                    name: param.detach().clone() for name, param in self._params.items()
+                    name: param.detach().clone().requires_grad_(param.requires_grad)
+                    for name, param in self._params.items()
                 }
             d = {self.__class__.__name__: d, "param_dict": param_dict_conv}
             logger.debug(f"{self.__class__.__name__} serialized to {d}.")
@@ -531,7 +532,9 @@ class QuantumModel(nn.Module):
                 conv_pd = torch.nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = torch.nn.Parameter(param)
+                    conv_pd[n] = torch.nn.Parameter(
+                        param.detach().clone(), requires_grad=param.requires_grad
+                    )
                 qm._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
-- 
2.43.0


From 9583f67623683d07aa44037d5bb2183eda5995d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:25 +0000
Subject: [PATCH 043/106] fix: a circle register with one qubit can be
 serialized

---
 qadence/register.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/register.py b/qadence/register.py
index 812c14b..e00a98e 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -134,7 +134,7 @@ class Register:
         graph = nx.grid_2d_graph(n_qubits, 1, periodic=True)
         graph = nx.relabel_nodes(graph, {(i, 0): i for i in range(n_qubits)})
         coords = nx.circular_layout(graph)
-        values = {i: {"pos": pos} for i, pos in coords.items()}
+        values = {i: {"pos": tuple(pos)} for i, pos in coords.items()}
         nx.set_node_attributes(graph, values)
         return cls(graph, spacing, device_specs)
 
-- 
2.43.0


From 87c61cefc165367ea0dd04a487053edda06a6dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:52 +0000
Subject: [PATCH 044/106] fix: evaluate expressions with nested uses of a
 parameter

---
 qadence/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index aedae12..2e510fc 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -289,7 +289,8 @@ def evaluate(expr: Expr, values: dict | None = None, as_torch: bool = False) ->
         if as_torch:
             res_value = make_differentiable(expr)(**{s.name: tensor(v) for s, v in query.items()})
         else:
-            res = expr.subs(query)
+            # `subs` compares with ==, which a Parameter redefines for expressions containing it
+            res = expr.xreplace({s: sympify(v) for s, v in query.items()})
             res_value = sympy_to_numeric(res)
         return res_value
 
-- 
2.43.0


From e8e4f5cc5adf1287d235ae8187e608056c1f83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:52 +0000
Subject: [PATCH 045/106] fix: set trainability in blocks with matrix-valued
 parameters

---
 qadence/transpile/block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 26fce48..1ae61f6 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -70,7 +70,9 @@ def set_trainable(
 
     if inplace:
         for block in blocks:
-            params: list[sympy.Basic] = list(filter(lambda p: not p.is_number, parameters(block)))
+            params: list[sympy.Basic] = [
+                p for p in parameters(block) if isinstance(p, sympy.Symbol)
+            ]
             if bool(restricted_names):
                 params = list(filter(lambda p: p.name in restricted_names, params))
             for p in params:
-- 
2.43.0


From 14d8303f0c0dbeb5a42d62e5af0e173c08c452c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:15 +0000
Subject: [PATCH 046/106] fix: run a kron of analog interactions

---
 qadence/analog/parse_analog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/analog/parse_analog.py b/qadence/analog/parse_analog.py
index d4b6403..ebf234e 100644
--- a/qadence/analog/parse_analog.py
+++ b/qadence/analog/parse_analog.py
@@ -114,7 +114,8 @@ def _analog_to_hevo(
                 h_drive = rydberg_drive_hamiltonian(block, register)
                 ops.append(_build_rot_ham_evo(block, h_int, h_addr, h_drive))
         if len(ops) == 0:
-            ops.append(HamEvo(h_background, duration / 1000))  # type: ignore [arg-type]
+            # all the blocks are interactions with the same duration
+            ops.append(_analog_to_hevo(block, register, h_int, h_addr))
         return chain(*ops)
 
     return block
-- 
2.43.0


From db66a21643cf030ea7156db57e755df261545dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:56 +0000
Subject: [PATCH 047/106] fix: numeric scale of a parametric block in a
 Hamiltonian evolution generator

---
 qadence/backends/pyqtorch/convert_ops.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index faba7f5..0d3edcf 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -88,7 +88,8 @@ def extract_parameter(block: ScaleBlock | ParametricBlock, config: Configuration
     Returns:
         str | Tensor: Parameter value or symbol.
     """
-    if not block.is_parametric:
+    # the scaled block can be parametric while the scale is a number
+    if block.parameters.parameter.is_number:
         tensor_val = tensor([block.parameters.parameter], dtype=complex64)
         return (
             tensor([block.parameters.parameter], dtype=float64)
-- 
2.43.0


From 6f74e72c946e5fae0f993a7aadcd1bf2f6ae698d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:02 +0000
Subject: [PATCH 048/106] fix: filling a block with identities keeps the tag of
 the given block

---
 qadence/transpile/block.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 1ae61f6..c350746 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -295,6 +295,7 @@ def _(block: PrimitiveBlock, start: int, stop: int) -> AbstractBlock:
     if block.qubit_support == full_support:
         return block
     tag = block.tag
+    block = deepcopy(block)
     block.tag = None
     bs = [block] + [I(i) for i in (set(full_support) - set(block.qubit_support))]
     b = kron(*sorted(bs, key=lambda x: x.qubit_support))
@@ -308,6 +309,7 @@ def _(block: SWAP, start: int, stop: int) -> AbstractBlock:
     if block.qubit_support == full_support:
         return block
     tag = block.tag
+    block = deepcopy(block)
     block.tag = None
     bs = [block] + [chain(I(i), I(i)) for i in (set(full_support) - set(block.qubit_support))]
     b = kron(*sorted(bs, key=lambda x: x.qubit_support))
-- 
2.43.0


From 349077eba3a782d9a94bd6f89ce5cf55c6f12ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:02 +0000
Subject: [PATCH 049/106] fix: sparse diagonal tensor of a block on a larger
 qubit support

---
 qadence/blocks/block_to_tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 6ccd30f..1e093dd 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -360,7 +360,9 @@ def block_to_tensor(
         )
 
     elif tensor_type == TensorType.SPARSEDIAGONAL:
-        t = block_to_diagonal(block, values, endianness=endianness)
+        t = block_to_diagonal(
+            block, values, qubit_support, use_full_support, endianness=endianness, device=device
+        )
         indices, values, size = torch.nonzero(t), t[t != 0], len(t)
         indices = torch.stack((indices.flatten(), indices.flatten()))
         return torch.sparse_coo_tensor(indices, values, (size, size))
-- 
2.43.0


From 9f5326e20f47422e7fad55bbbc4223f6aaf44c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:09 +0000
Subject: [PATCH 050/106] fix: alternating layer ansatz with blocks as large as
 the circuit

---
 qadence/constructors/ala.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/qadence/constructors/ala.py b/qadence/constructors/ala.py
index e7b5578..c091900 100644
--- a/qadence/constructors/ala.py
+++ b/qadence/constructors/ala.py
@@ -169,8 +169,9 @@ def _entanglers_ala_block_digital(
 
     for d in range(depth):
         start_i = 0 if not d % 2 else -m_block_qubits // 2
-        ents = [
-            kron(
+        ents = []
+        for start_j in [i for i in range(2) if m_block_qubits > 2 or i == 0]:
+            gates = [
                 _entangler(
                     control=support[i + j],
                     target=support[i + j + 1],
@@ -180,9 +181,10 @@ def _entanglers_ala_block_digital(
                 for j in range(start_j, m_block_qubits, 2)
                 for i in range(start_i, n_qubits, m_block_qubits)
                 if i + j + 1 < n_qubits and j + 1 < m_block_qubits and i + j >= 0
-            )
-            for start_j in [i for i in range(2) if m_block_qubits > 2 or i == 0]
-        ]
+            ]
+            # the blocks at the borders might be too small for an entangler
+            if len(gates) > 0:
+                ents.append(kron(*gates))
 
         ent_list.append(chain(*ents))
     return ent_list
@@ -244,7 +246,8 @@ def ala_digital(
     layers = []
     for d in range(depth):
         layers.append(rot_list[d])
-        layers.append(ent_list[d])
+        if len(ent_list[d]) > 0:
+            layers.append(ent_list[d])
 
     return tag(chain(*layers), "ALA")
 
-- 
2.43.0


From 528d44b303c95fd2a9ba480dfd3d2dc31dd31293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:53 +0000
Subject: [PATCH 051/106] fix: hardware efficient ansatz on a single qubit

---
 qadence/constructors/hea.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index f12361b..896dff7 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -186,18 +186,19 @@ def _entanglers_digital(
     ent_list: list[AbstractBlock] = []
     for d in range(depth):
         ents = []
-        ents.append(
-            kron(
-                _entangler(
-                    control=support[n],
-                    target=support[n + 1],
-                    param_str=param_prefix + f"_ent_{next(iterator)}",
-                    op=entangler,
+        if n_qubits > 1:
+            ents.append(
+                kron(
+                    _entangler(
+                        control=support[n],
+                        target=support[n + 1],
+                        param_str=param_prefix + f"_ent_{next(iterator)}",
+                        op=entangler,
+                    )
+                    for n in range(n_qubits)
+                    if not n % 2 and n < n_qubits - 1
                 )
-                for n in range(n_qubits)
-                if not n % 2 and n < n_qubits - 1
             )
-        )
         if n_qubits > 2:
             ents.append(
                 kron(
@@ -271,7 +272,8 @@ def hea_digital(
     layers = []
     for d in range(depth):
         layers.append(rot_list[d])
-        layers.append(ent_list[d])
+        if len(ent_list[d]) > 0:
+            layers.append(ent_list[d])
     return tag(chain(*layers), "HEA")
 
 
-- 
2.43.0


From 6888f38bf8bb7f6ddd80aa04999756180a33c1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:20 +0000
Subject: [PATCH 052/106] fix: periodic hardware efficient ansatz on an odd
 number of qubits

---
 qadence/constructors/hea.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index 896dff7..bfbf6a1 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -212,6 +212,16 @@ def _entanglers_digital(
                     if n % 2
                 )
             )
+        if periodic and n_qubits > 2 and n_qubits % 2:
+            # the last qubit is already entangled with its left neighbour
+            ents.append(
+                _entangler(
+                    control=support[n_qubits - 1],
+                    target=support[0],
+                    param_str=param_prefix + f"_ent_{next(iterator)}",
+                    op=entangler,
+                )
+            )
         ent_list.append(chain(*ents))
     return ent_list
 
-- 
2.43.0


From c04b3753b395d4d44c09f6e6c2090207cc437607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:47 +0000
Subject: [PATCH 053/106] fix: trainer test loop uses the trainer's test
 dataloader and its number of batches

---
 qadence/ml_tools/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index fdb81e4..71d2711 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -595,7 +595,7 @@ class Trainer(BaseTrainer):
         self.model.eval()
         test_loss_metrics = []
 
-        for batch in self._batch_iter(test_dataloader, self.num_training_batches):
+        for batch in self._batch_iter(self.test_dataloader, self.num_test_batches):
             self.on_test_batch_start(batch)
             loss_metrics = self.run_test_batch(batch)
             test_loss_metrics.append(loss_metrics)
-- 
2.43.0


From d4206c04e34a499f5d5bd45378adaa264813c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:47 +0000
Subject: [PATCH 054/106] fix: cosine annealing follows a cosine curve from the
 initial learning rate

---
 qadence/ml_tools/callbacks/callback.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/callback.py b/qadence/ml_tools/callbacks/callback.py
index 62b1563..e35f430 100644
--- a/qadence/ml_tools/callbacks/callback.py
+++ b/qadence/ml_tools/callbacks/callback.py
@@ -656,7 +656,8 @@ class LRSchedulerCosineAnnealing(Callback):
             writer (BaseWriter): The writer object for logging.
         """
         for param_group in trainer.optimizer.param_groups:
-            max_lr = param_group["lr"]
+            # the curve starts from the initial learning rate, not from the annealed one
+            max_lr = param_group.setdefault("initial_lr", param_group["lr"])
             new_lr = (
                 self.min_lr
                 + (max_lr - self.min_lr)
-- 
2.43.0


From 1b67bf8a7f296345828ec6541367409529c006c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:44 +0000
Subject: [PATCH 055/106] fix: a new fit starts counting its epochs before the
 initial validation

---
 qadence/ml_tools/callbacks/callbackmanager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/ml_tools/callbacks/callbackmanager.py b/qadence/ml_tools/callbacks/callbackmanager.py
index ebbb621..14e6772 100644
--- a/qadence/ml_tools/callbacks/callbackmanager.py
+++ b/qadence/ml_tools/callbacks/callbackmanager.py
@@ -178,6 +178,7 @@ class CallbacksManager:
 
         trainer.opt_result = OptimizeResult(trainer.global_step, trainer.model, trainer.optimizer)
         trainer.is_last_iteration = False
+        trainer.current_epoch = trainer.global_step
 
         # Load checkpoint only if a new subfolder was NOT recently added
         if not trainer.config_manager._added_new_subfolder:
-- 
2.43.0


From 31c123f659fdf910010fd7dd0c722b3fe4c0b391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:22 +0000
Subject: [PATCH 056/106] fix: QNN expectation uses the given observable and
 mitigation

---
 qadence/ml_tools/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 1427258..9be747e 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -451,10 +451,12 @@ class QNN(QuantumModel):
             noise = self._noise
         return super().expectation(
             values=self.format_to_dict(values),
+            observable=observable,
             state=state,
             measurement=measurement,
             endianness=endianness,
             noise=noise,
+            mitigation=mitigation,
         )
 
     def _derivative(self, x: Tensor, derivative_indices: tuple[int, ...]) -> Tensor:
-- 
2.43.0


From 828e32c332a2b4314820f88226f479854f171c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:29 +0000
Subject: [PATCH 057/106] fix: serialization of a QNN keeps its input
 differentiation mode

---
 qadence/ml_tools/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 9be747e..989e9b6 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -467,6 +467,7 @@ class QNN(QuantumModel):
         try:
             d = super()._to_dict(save_params)
             d[self.__class__.__name__]["inputs"] = [str(i) for i in self.inputs]
+            d[self.__class__.__name__]["input_diff_mode"] = str(self.input_diff_mode)
             logger.debug(f"{self.__class__.__name__} serialized to {d}.")
         except Exception as e:
             logger.warning(f"Unable to serialize {self.__class__.__name__} due to {e}.")
@@ -488,6 +489,7 @@ class QNN(QuantumModel):
                 noise=NoiseHandler._from_dict(qm_dict["noise"]),
                 configuration=config_factory(qm_dict["backend"], qm_dict["backend_configuration"]),
                 inputs=qm_dict["inputs"],
+                input_diff_mode=qm_dict.get("input_diff_mode", InputDiffMode.AD),
             )
 
             if as_torch:
-- 
2.43.0


From 477b527b14971c3ecd566cac13daa727da58bd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:13 +0000
Subject: [PATCH 058/106] fix: parameter shift of an evolution whose generator
 has no spectral gap

---
 qadence/backends/parameter_shift_rules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/backends/parameter_shift_rules.py b/qadence/backends/parameter_shift_rules.py
index 159d479..c505581 100644
--- a/qadence/backends/parameter_shift_rules.py
+++ b/qadence/backends/parameter_shift_rules.py
@@ -128,6 +128,9 @@ def multi_gap_psr(
         Tensor: tensor containing derivative values
     """
     n_eqs = len(spectral_gaps)
+    if n_eqs == 0:
+        # no spectral gap: the operation is a global phase
+        return torch.zeros_like(expectation_fn(param_dict))
     batch_size = max(t.size(0) for t in param_dict.values())
 
     # get shift values - values minimize the variance of expectation
-- 
2.43.0


From 6a690abc15bc049aca0fe1b273b1a6c6e10bcf0b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:36:49 +0000
Subject: [PATCH 059/106] fix: alternating layer ansatz follows the depth and
 operations of its configuration

The depth was not used, and the operations were looked up under a key
different from the documented one.
---
 qadence/ml_tools/constructors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 75c420e..e6b0a51 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -612,12 +612,13 @@ def _create_ala_digital(
     Returns:
         AbstractBlock: The Digital Alternating Layer Ansatz.
     """
-    operations = config.strategy_args.get("operation", [RX, RY, RX])
+    operations = config.strategy_args.get("operations", [RX, RY, RX])
     entangler = config.strategy_args.get("entangler", CNOT)
 
     return ala_digital(
         n_qubits=num_qubits,
         m_block_qubits=config.m_block_qubits,  # type: ignore[arg-type]
+        depth=config.depth,
         param_prefix=config.param_prefix,
         operations=operations,
         entangler=entangler,
-- 
2.43.0


From b5b9090dacbc1c1cd0cc216ba3162728075ba685 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:37:02 +0000
Subject: [PATCH 060/106] fix: layers interleaved in a feature map accept the
 alternating layer ansatz

The block size was not handed to the configuration of the interleaved layers,
so a QNN with data reuploading or series encoding could not use an ALA.
---
 qadence/ml_tools/constructors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index e6b0a51..815b467 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -392,6 +392,7 @@ def _ansatz_layer(
         ansatz_type=ansatz_config.ansatz_type,
         ansatz_strategy=ansatz_config.ansatz_strategy,
         strategy_args=ansatz_config.strategy_args,
+        m_block_qubits=ansatz_config.m_block_qubits,
         param_prefix=f"fm_{index}",
     )
 
-- 
2.43.0


From ec626c6bc6eb31b37c4a9b5f5ec37250a1026aba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:37:20 +0000
Subject: [PATCH 061/106] fix: sDAQC identity-initialized ansatz of a
 configuration defaults to the NN entangler

The digital default (CNOT) was used as the Hamiltonian generator.
---
 qadence/ml_tools/constructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 815b467..148461f 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -443,7 +443,7 @@ def _create_iia_sdaqc(
         AbstractBlock: The SDAQC Identity Initialized Ansatz.
     """
     operations = config.strategy_args.get("operations", [RX, RY])
-    entangler = config.strategy_args.get("entangler", CNOT)
+    entangler = config.strategy_args.get("entangler", None)
     periodic = config.strategy_args.get("periodic", False)
 
     return iia(
-- 
2.43.0


From 5d4af14f1c8ea8c99b3c33f5b6063cc18fa30093 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:37:20 +0000
Subject: [PATCH 062/106] fix: the operation of a feature map configuration has
 preference over its strategy

The kind of operation was determined with isinstance on the gate class or
function itself, which never holds.
---
 qadence/ml_tools/config.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/qadence/ml_tools/config.py b/qadence/ml_tools/config.py
index 985375b..c3f1d35 100644
--- a/qadence/ml_tools/config.py
+++ b/qadence/ml_tools/config.py
@@ -403,8 +403,12 @@ class FeatureMapConfig:
                 self.operation = AnalogRX  # type: ignore[assignment]
 
         else:
+            # digital operations are gate classes, analog ones functions returning an AnalogBlock
+            is_digital = isinstance(self.operation, type) and issubclass(
+                self.operation, ParametricBlock
+            )
             if self.feature_map_strategy == Strategy.DIGITAL:
-                if isinstance(self.operation, AnalogBlock):
+                if not is_digital:
                     logger.warning(
                         "The `operation` is of type `AnalogBlock` but the `feature_map_strategy` is\
                         `Strategy.DIGITAL`. The `feature_map_strategy` will be modified and given \
@@ -414,7 +418,7 @@ class FeatureMapConfig:
                     self.feature_map_strategy = Strategy.ANALOG
 
             elif self.feature_map_strategy == Strategy.ANALOG:
-                if isinstance(self.operation, ParametricBlock):
+                if is_digital:
                     logger.warning(
                         "The `operation` is a digital gate but the `feature_map_strategy` is\
                         `Strategy.ANALOG`. The `feature_map_strategy` will be modified and given\
@@ -431,7 +435,7 @@ class FeatureMapConfig:
                         `feature_map_strategy` will be modified and given operation will be used."
                     )
 
-                    if isinstance(self.operation, AnalogBlock):
+                    if not is_digital:
                         self.feature_map_strategy = Strategy.ANALOG
                     else:
                         self.feature_map_strategy = Strategy.DIGITAL
-- 
2.43.0


From 1516be76e98c50e55d7e39761180b29f9bc58d36 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:40:14 +0000
Subject: [PATCH 063/106] fix: reassigning the qubits of an evolution moves its
 generator

Only the support of the HamEvo block was changed, so the generator kept acting
on the original qubits.
---
 qadence/transpile/invert.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index 5b49f04..a6db8dc 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -21,6 +21,7 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
     """
     from qadence.blocks import CompositeBlock, ControlBlock, ParametricControlBlock, ScaleBlock
     from qadence.blocks.utils import _construct
+    from qadence.operations import HamEvo
 
     def _block_with_updated_support(block: AbstractBlock) -> AbstractBlock:
         if isinstance(block, ControlBlock) or isinstance(block, ParametricControlBlock):
@@ -43,6 +44,12 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
             blk = deepcopy(block)  # type: ignore [assignment]
             qs = tuple(qubit_map[i] for i in block.qubit_support)
             blk._qubit_support = qs  # type: ignore[attr-defined]
+            if isinstance(block, HamEvo):
+                if isinstance(block.generator, AbstractBlock):
+                    blk.generator = _block_with_updated_support(block.generator)  # type: ignore [attr-defined]
+                blk.noise_operators = [  # type: ignore [attr-defined]
+                    _block_with_updated_support(op) for op in block.noise_operators
+                ]
             return blk
 
     return _block_with_updated_support(block)
-- 
2.43.0


From a4573bb51979feceab9d1c001839fcbad751895b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:41:22 +0000
Subject: [PATCH 064/106] fix: overlap methods with a single circuit use the
 values of the ket parameters

With at most one feature parameter the values given for the ket were dropped
by the compute-uncompute, swap test and Hadamard test methods.
---
 qadence/overlap.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index b8f1830..656697f 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -397,7 +397,12 @@ class Overlap(QuantumModel):
 
         elif len(self.bra_feat_param_names.union(self.ket_feat_param_names)) < 2:
             if batch_size_bra == batch_size_ket or batch_size_bra == 0 or batch_size_ket == 0:
-                param_values = {"bra": bra_param_values, "ket": ket_param_values}
+                if self.method in [OverlapMethod.EXACT, OverlapMethod.JENSEN_SHANNON]:
+                    param_values = {"bra": bra_param_values, "ket": ket_param_values}
+                else:
+                    # bra and ket are part of one circuit which depends on the values of both
+                    new_bra_param_values = {**ket_param_values, **bra_param_values}
+                    param_values = {"bra": new_bra_param_values, "ket": new_bra_param_values}
             else:
                 raise ValueError("Batch sizes of both bra and ket parameters must be equal.")
 
-- 
2.43.0


From 5f38127105e409eb09e9df1a6abba16a596503ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:41:22 +0000
Subject: [PATCH 065/106] fix: Jensen-Shannon overlap of a batch with a single
 state

Only the first entry of the batch was compared when the other state has no
feature parameters.
---
 qadence/overlap.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index 656697f..f6f5c13 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -181,6 +181,10 @@ def overlap_jensen_shannon(bras: list[Counter], kets: list[Counter]) -> Tensor:
     Returns:
         Tensor: overlap tensor containing values of overlap of each bra with each ket
     """
+    # a state without feature parameters is sampled once
+    size = max(len(bras), len(kets))
+    bras = bras * size if len(bras) == 1 else bras
+    kets = kets * size if len(kets) == 1 else kets
     return 1 - torch.tensor([js_divergence(p, q) for p, q in zip(bras, kets)])
 
 
-- 
2.43.0


From 1dae2449a802a581c7fcdbcb70a633bdf98853d0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:42:43 +0000
Subject: [PATCH 066/106] fix: overlap of states with two features accepts
 scalar values

---
 qadence/overlap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index f6f5c13..c6540f4 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -447,8 +447,8 @@ class Overlap(QuantumModel):
         if len(self.bra_feat_param_names.union(self.ket_feat_param_names)) < 2:
             overlap = overlap[:, None]
         else:
-            batch_size_bra = max(len(list(bra_param_values.values())[0]), 1)
-            batch_size_ket = max(len(list(ket_param_values.values())[0]), 1)
+            batch_size_bra = max(list(bra_param_values.values())[0].numel(), 1)
+            batch_size_ket = max(list(ket_param_values.values())[0].numel(), 1)
             overlap = overlap.reshape((batch_size_ket, batch_size_bra)).t()
 
         return overlap
-- 
2.43.0


From 6389bf33ed4af5666fca0ef83d5ae5c0c723f998 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 067/106] fix: identities of a Pauli string do not enter the
 parity of its measurement

The outcomes of the qubits on which a term acts trivially were multiplied into
its estimate by tomography and by the expectation from samples.
---
 qadence/measurements/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index 1913af9..db14d7c 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -27,14 +27,16 @@ def get_qubit_indices_for_op(
 
     Args:
         pauli_term: Tuple of a Pauli block and a parameter.
-        op: Tuple of Primitive blocks or None.
+        op: Tuple of Primitive blocks or None for all operations other than identities.
 
     Returns: A list of integers representing qubit indices.
     """
     blocks = getattr(pauli_term[0], "blocks", None)
     blocks = blocks if blocks is not None else [pauli_term[0]]
     indices = [
-        block.qubit_support[0] for block in blocks if (op is None) or (isinstance(block, type(op)))
+        block.qubit_support[0]
+        for block in blocks
+        if (not isinstance(block, I) if op is None else isinstance(block, type(op)))
     ]
     return indices
 
-- 
2.43.0


From 5d1aa3b845708a77194b0b57631a60482d1a3c2f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:46:51 +0000
Subject: [PATCH 068/106] fix: classical shadows of single-qubit circuits

The rotations of a single qubit were left as a list, which is not a block.
---
 qadence/measurements/shadow.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index a2da68b..37e029b 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -116,9 +116,7 @@ def extract_operators(unitary_ids: np.ndarray, n_qubits: int) -> list:
         list: Pauli strings.
     """
     operations = nested_operator_indexing(unitary_ids)
-    if n_qubits > 1:
-        operations = [kron_if_non_empty(ops) for ops in operations]
-    return operations
+    return [kron_if_non_empty(ops) for ops in operations]
 
 
 def classical_shadow(
-- 
2.43.0


From 798753142a51ce188ff289b5f6a9741e14aed8b6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:48:58 +0000
Subject: [PATCH 069/106] fix: tomography of observables with an identity term

The value of an identity term has no batch dimension and requires a gradient,
so the sum of the terms raised an error.
---
 qadence/measurements/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index db14d7c..712f8e5 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -11,6 +11,7 @@ from torch import Tensor
 
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
+from qadence.backends.utils import infer_batchsize
 from qadence.blocks import AbstractBlock, PrimitiveBlock, chain
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
@@ -152,7 +153,8 @@ def iterate_pauli_decomposition(
 
     for pauli_term in pauli_decomposition:
         if pauli_term[0].is_identity:
-            estimated_values.append(evaluate(pauli_term[1], as_torch=True))
+            batch_size = infer_batchsize(param_values)
+            estimated_values.append(torch.full((batch_size,), float(evaluate(pauli_term[1]))))
         else:
             # Get the full qubit support for the Pauli term.
             # Note: duplicates must be kept here to allow for
@@ -176,7 +178,7 @@ def iterate_pauli_decomposition(
             estim_values = empirical_average(samples=samples, support=support)
             # TODO: support for parametric observables to be tested
             estimated_values.append(estim_values * evaluate(pauli_term[1]))
-    res = torch.sum(torch.stack(estimated_values), axis=0)
+    res = torch.sum(torch.stack(torch.broadcast_tensors(*estimated_values)), axis=0)
     # Allow for automatic differentiation.
     res.requires_grad = True
     return res
-- 
2.43.0


From 2282b720e79e0de2e4d351eb0e9bd479c2086e16 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:48:58 +0000
Subject: [PATCH 070/106] fix: shadow estimate of Pauli strings whose factors
 are not in qubit order

The Pauli of each factor was compared with the basis of the qubit at the same
position of the sorted support.
---
 qadence/measurements/shadow.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index 37e029b..68d5996 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -13,7 +13,6 @@ from qadence.blocks.primitive import PrimitiveBlock
 from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import get_qubit_indices_for_op
 from qadence.noise import NoiseHandler
 from qadence.operations import H, I, SDagger, X, Y, Z
 from qadence.types import BackendName, Endianness
@@ -202,11 +201,10 @@ def estimators(
         obs_to_pauli_index = [pauli_gates.index(type(observable))]
 
     elif isinstance(observable, CompositeBlock):
-        obs_to_pauli_index = [
-            pauli_gates.index(type(p)) for p in observable.blocks if not isinstance(p, I)  # type: ignore[arg-type]
-        ]
-        ind_I = set(get_qubit_indices_for_op((observable, 1.0), I(0)))
-        obs_qubit_support = tuple([ind for ind in observable.qubit_support if ind not in ind_I])
+        paulis = [p for p in observable.blocks if not isinstance(p, I)]
+        obs_to_pauli_index = [pauli_gates.index(type(p)) for p in paulis]  # type: ignore[arg-type]
+        # the support of a composite block is sorted: use that of its factors
+        obs_qubit_support = tuple(p.qubit_support[0] for p in paulis)
 
     floor = int(np.floor(N / K))
     traces = []
-- 
2.43.0


From 27f836961bebce1f46acf63c63a7aa9b86c7dbd9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:02:05 +0000
Subject: [PATCH 071/106] fix: little-endian density matrices

Only the rows of the density matrix were permuted.
---
 qadence/transpile/invert.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index a6db8dc..f267c84 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -102,18 +102,20 @@ def _(block: AbstractBlock, n_qubits: int = None, in_place: bool = False) -> Abs
 @invert_endianness.register(Tensor)  # type: ignore[attr-defined]
 def _(wf: Tensor) -> Tensor:
     """
-    Inverts the endianness of a wave function.
+    Inverts the endianness of a wave function or density matrix.
 
     Args:
         wf (Tensor): the target wf as a torch Tensor of shape batch_size X 2**n_qubits
+            or density matrix of shape batch_size X 2**n_qubits X 2**n_qubits
 
     Returns:
-        The inverted wave function.
+        The inverted wave function or density matrix.
     """
     n_qubits = int(np.log2(wf.shape[1]))
     ls = list(range(2**n_qubits))
     permute_ind = tensor([int(f"{num:0{n_qubits}b}"[::-1], 2) for num in ls])
-    return wf[:, permute_ind]
+    wf = wf[:, permute_ind]
+    return wf[:, :, permute_ind] if wf.dim() == 3 else wf
 
 
 @invert_endianness.register(np.ndarray)  # type: ignore[attr-defined]
-- 
2.43.0


From 541944d09cfdfb3134b599c748a05f205b1d1980 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:02:05 +0000
Subject: [PATCH 072/106] fix: noise handlers with different numbers of sources
 are not equal

---
 qadence/noise/protocols.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index ea3d6d4..856d7c7 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -126,6 +126,8 @@ class NoiseHandler:
         if not isinstance(other, NoiseHandler):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
+            if len(self.protocol) != len(other.protocol):
+                return False
             protocols_equal = all([p1 == p2 for p1, p2 in zip(self.protocol, other.protocol)])
             options_equal = all([o1 == o2 for o1, o2 in zip(self.options, other.options)])
             return protocols_equal and options_equal
-- 
2.43.0


From dc82612eb961e5c7e3e3c7422c065ce12c8e7572 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:04:41 +0000
Subject: [PATCH 073/106] fix: noise is kept when blocks are saved to JSON

The protocols were loaded as plain strings, which no backend recognizes as
noise, and analog noise could not be loaded at all.
---
 qadence/noise/protocols.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index 856d7c7..7a58ebd 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -6,6 +6,15 @@ from typing import Any
 from qadence.types import NoiseEnum, NoiseProtocol
 
 
+def _protocol_from_str(name: str, option: dict) -> NoiseEnum:
+    """Recover the protocol of a serialized noise source."""
+    if "noise_probs" in option:
+        return NoiseProtocol.ANALOG(name)
+    if name in [p.value for p in NoiseProtocol.READOUT]:
+        return NoiseProtocol.READOUT(name)
+    return NoiseProtocol.DIGITAL(name)
+
+
 class NoiseHandler:
     """A container for multiple sources of noise.
 
@@ -143,7 +152,15 @@ class NoiseHandler:
     @classmethod
     def _from_dict(cls, d: dict | None) -> NoiseHandler | None:
         if d is not None and d.get("protocol", None):
-            return cls(d["protocol"], d["options"])
+            protocols, options = d["protocol"], d["options"]
+            if any(type(p) is str for p in protocols):
+                # enum members and tuples are plain strings and lists in JSON files
+                options = [
+                    {k: tuple(v) if isinstance(v, list) else v for k, v in o.items()}
+                    for o in options
+                ]
+                protocols = [_protocol_from_str(p, o) for p, o in zip(protocols, options)]
+            return cls(protocols, options)
         return None
 
     @classmethod
-- 
2.43.0


From 10fa2f50526faf6d6342f4718fa24be30ea4ab83 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:29:03 +0000
Subject: [PATCH 074/106] fix: readout mitigation rounds counts without losing
 shots

---
 qadence/mitigations/readout.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index c468363..7eb61a6 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -52,17 +52,15 @@ def mle_solve(p_raw: npt.NDArray) -> npt.NDArray:
 
 
 def renormalize_counts(corrected_counts: npt.NDArray, n_shots: int) -> npt.NDArray:
-    """Renormalize counts rounding discrepancies."""
-    total_counts = sum(corrected_counts)
-    if total_counts != n_shots:
-        counts_diff = total_counts - n_shots
-        corrected_counts -= counts_diff
-        corrected_counts = np.where(corrected_counts < 0, 0, corrected_counts)
-        sum_corrected_counts = sum(corrected_counts)
-
-        renormalization_factor = n_shots / sum_corrected_counts
-        corrected_counts = np.rint(corrected_counts * renormalization_factor).astype(int)
-    return corrected_counts
+    """Round counts to integers summing up to `n_shots`, each off by less than one."""
+    corrected_counts = np.clip(corrected_counts, 0.0, None)
+    corrected_counts = corrected_counts * (n_shots / corrected_counts.sum())
+    rounded_counts = np.floor(corrected_counts).astype(int)
+    # Distribute the remaining shots among the largest fractional parts.
+    remainder = n_shots - rounded_counts.sum()
+    largest = np.argsort(rounded_counts - corrected_counts, kind="stable")[:remainder]
+    rounded_counts[largest] += 1
+    return rounded_counts
 
 
 def matrix_inv(K: npt.NDArray) -> npt.NDArray:
@@ -144,16 +142,8 @@ def mitigation_minimization(
                 f"Requested method {optimization_type} does not match supported protocols."
             )
 
-        corrected_counts = np.rint(p_corr * n_shots).astype(int)
-
-        # Renormalize if total counts differs from n_shots.
-        corrected_counts = renormalize_counts(corrected_counts=corrected_counts, n_shots=n_shots)
-        # At this point, the count should be off by at most 2, added or substracted to/from the
-        # max count.
-        if sum(corrected_counts) != n_shots:
-            count_diff = sum(corrected_counts) - n_shots
-            max_count_bs = np.argmax(corrected_counts)
-            corrected_counts[max_count_bs] -= count_diff
+        # Round to integer counts adding up to n_shots.
+        corrected_counts = renormalize_counts(corrected_counts=p_corr * n_shots, n_shots=n_shots)
         assert (
             corrected_counts.sum() == n_shots
         ), f"Corrected counts sum: {corrected_counts.sum()}, n_shots: {n_shots}"
-- 
2.43.0


From baeaa4a20e0b6209bb4de1328ef3e34531177052 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 075/106] fix: readout mitigation uses the confusion matrices
 of the noise

---
 qadence/mitigations/readout.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index 7eb61a6..7dcacc6 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -93,10 +93,9 @@ def mitigation_minimization(
     if readout_noise is None:
         raise ValueError("Specify a noise source of type NoiseProtocol.READOUT.")
     n_shots = sum(samples[0].values())
+    # Compute the confusion matrices unless they are given by the user.
+    readout_noise.create_noise_matrix(n_shots)
     noise_matrices = readout_noise.confusion_matrix
-    if noise_matrices.numel() == 0:
-        readout_noise.create_noise_matrix(n_shots)
-        noise_matrices = readout_noise.confusion_matrix
     optimization_type = mitigation.options.get("optimization_type", ReadOutOptimization.MLE)
 
     corrected_counters: list[Counter] = []
-- 
2.43.0


From c1a905eca226c914e9ad4fb4b775f11c7137db93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:29:52 +0000
Subject: [PATCH 076/106] fix: mitigation options survive serialization and
 unknown protocols are reported

---
 qadence/mitigations/protocols.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/mitigations/protocols.py b/qadence/mitigations/protocols.py
index b77047e..ecd476e 100644
--- a/qadence/mitigations/protocols.py
+++ b/qadence/mitigations/protocols.py
@@ -26,7 +26,9 @@ class Mitigations:
         try:
             module = importlib.import_module(PROTOCOL_TO_MODULE[self.protocol])
         except KeyError:
-            ImportError(f"The module corresponding to the protocol {self.protocol} is not found.")
+            raise ImportError(
+                f"The module corresponding to the protocol {self.protocol} is not found."
+            )
         fn = getattr(module, "mitigate")
         return cast(Callable, fn)
 
@@ -36,7 +38,7 @@ class Mitigations:
     @classmethod
     def _from_dict(cls, d: dict) -> Mitigations | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
 
     @classmethod
-- 
2.43.0


From 3377007c5e9a1421ba1019c19cdf3a68d42a77c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:31:58 +0000
Subject: [PATCH 077/106] fix: saved models keep their mitigation protocol

---
 qadence/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/model.py b/qadence/model.py
index e336ea6..5ad5322 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -484,6 +484,9 @@ class QuantumModel(nn.Module):
                     self._measurement._to_dict() if self._measurement is not None else dict()
                 ),
                 "noise": self._noise._to_dict() if self._noise is not None else dict(),
+                "mitigation": (
+                    self._mitigation._to_dict() if self._mitigation is not None else dict()
+                ),
                 "backend_configuration": asdict(self.backend.backend.config),  # type: ignore
             }
             param_dict_conv = {}
@@ -525,6 +528,7 @@ class QuantumModel(nn.Module):
                 diff_mode=qm_dict["diff_mode"],
                 measurement=Measurements._from_dict(qm_dict["measurement"]),
                 noise=NoiseHandler._from_dict(qm_dict["noise"]),
+                mitigation=Mitigations._from_dict(qm_dict.get("mitigation", dict())),
                 configuration=config_factory(qm_dict["backend"], qm_dict["backend_configuration"]),
             )
 
-- 
2.43.0


From f4786bb457ae8e9a4febf3c0be785419a2d92a60 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:36:00 +0000
Subject: [PATCH 078/106] fix: phase of analog rotations on the Pulser backend

---
 qadence/backends/pulser/pulses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 976ee8c..add0b61 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -235,7 +235,8 @@ def analog_rot_pulse(
         min_duration=channel.min_duration,
     )
 
-    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=abs(phase))
+    # The basis states of pulser are flipped, which inverts the sign of the phase.
+    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=-phase)
 
 
 def entangle_pulse(
-- 
2.43.0


From 93fa330dcd820014246ef2f50cb3066909a3e534 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:39:48 +0000
Subject: [PATCH 079/106] fix: parameter-shift gradients of the JAX engine have
 the shape of the parameters

---
 qadence/engines/jax/differentiable_expectation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qadence/engines/jax/differentiable_expectation.py b/qadence/engines/jax/differentiable_expectation.py
index 4549d71..924f922 100644
--- a/qadence/engines/jax/differentiable_expectation.py
+++ b/qadence/engines/jax/differentiable_expectation.py
@@ -87,7 +87,10 @@ class DifferentiableExpectation:
             for param_name, _ in psr_params.items():
                 f_plus, f_min = shift_circ(param_name, values)
                 grad = spectral_gap * (f_plus - f_min) / (4.0 * jnp.sin(spectral_gap * shift / 2.0))
-                grads[param_name] = jnp.sum(tangent * grad, axis=1) if n_obs > 1 else tangent * grad
+                # The gradient has the shape of the parameter, be it shared by the batch or not.
+                grad = jnp.sum(jnp.reshape(tangent * grad, (-1, n_obs)), axis=1)
+                grad = jnp.sum(grad) if values[param_name].size == 1 else grad
+                grads[param_name] = jnp.reshape(grad, values[param_name].shape)
             return None, None, grads
 
         expectation.defvjp(expectation_fwd, expectation_bwd)
-- 
2.43.0


From e5b0aeb2586b9f10d2cfdae82b9301ba78dee080 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:42:08 +0000
Subject: [PATCH 080/106] fix: expectations of circuits without parameters on
 the JAX engine

---
 qadence/backends/horqrux/backend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/horqrux/backend.py b/qadence/backends/horqrux/backend.py
index 5e32152..a8abe21 100644
--- a/qadence/backends/horqrux/backend.py
+++ b/qadence/backends/horqrux/backend.py
@@ -139,8 +139,9 @@ class Backend(BackendInterface):
             raise NotImplementedError("The Horqrux backend does not support separated parameters.")
         else:
             merged_params = param_values
-            batch_size = max([arr.size for arr in param_values.values()])  # type: ignore[union-attr]
-        n_obs = len(observable)
+            sizes = [arr.size for arr in param_values.values()]  # type: ignore[union-attr]
+            batch_size = max(sizes, default=1)
+        n_obs = len(observables)
 
         def _expectation(params: ParamDictType) -> ArrayLike:
             param_circuits = params["circuit"] if "circuit" in params else params
-- 
2.43.0


From 992faf14eca242ab45f2471429670a757e4846e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:48:05 +0000
Subject: [PATCH 081/106] fix: negative detunings on the Pulser backend

---
 qadence/backends/pulser/waveforms.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qadence/backends/pulser/waveforms.py b/qadence/backends/pulser/waveforms.py
index aac0a65..b3b618b 100644
--- a/qadence/backends/pulser/waveforms.py
+++ b/qadence/backends/pulser/waveforms.py
@@ -6,7 +6,6 @@ from pulser.waveforms import ConstantWaveform
 
 # determined by hardware team as a safe resolution
 MAX_AMPLITUDE_SCALING = 0.1
-EPS = 1e-9
 
 
 class SquareWaveform(ConstantWaveform):
@@ -64,15 +63,9 @@ class SquareWaveform(ConstantWaveform):
         duration_steps: int = 1,
         min_duration: int = 1,
     ) -> SquareWaveform:
-        amp_steps = MAX_AMPLITUDE_SCALING * max_amp
-
         duration = max(
             duration_steps * np.round(duration / duration_steps),
             min_duration,
         )
-        amplitude = min(
-            amp_steps * np.ceil(max_amp / (amp_steps + EPS) * 1e3),
-            max_amp,
-        )
 
-        return cls(duration, amplitude)
+        return cls(duration, max_amp)
-- 
2.43.0


From b6f708bc06cfe154dc3e88adc7d0a6d17ce5a7ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:48:34 +0000
Subject: [PATCH 082/106] fix: analog rotations with feature parameters on the
 Pulser backend

---
 qadence/backends/pulser/pulses.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index add0b61..4961644 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -158,8 +158,10 @@ def add_pulses(
         p = evaluate(phase) if phase.is_number else sequence.declare_variable(p_uuid)
         d = evaluate(detuning) if detuning.is_number else sequence.declare_variable(d_uuid)
 
-        # calculate generator eigenvalues
-        block.eigenvalues_generator = block.compute_eigenvalues_generator(block, qc_register)
+        # calculate generator eigenvalues, unless they depend on the values of features
+        symbols = omega.free_symbols | phase.free_symbols | detuning.free_symbols
+        if all(s.trainable for s in symbols):
+            block.eigenvalues_generator = block.compute_eigenvalues_generator(block, qc_register)
 
         if block.qubit_support.is_global:
             pulse = analog_rot_pulse(a, w, p, d, global_channel, config)
-- 
2.43.0


From 0fbdc7e6bcbdaa5188b86a54506c9d4e347d09d7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:49:15 +0000
Subject: [PATCH 083/106] fix: expectation values of non-symmetric observables
 on the Pulser backend

---
 qadence/backends/pulser/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/convert_ops.py b/qadence/backends/pulser/convert_ops.py
index 0e71e24..7b8099e 100644
--- a/qadence/backends/pulser/convert_ops.py
+++ b/qadence/backends/pulser/convert_ops.py
@@ -50,6 +50,6 @@ class PulserObservable(Module):
                 self.block, values, qubit_support=qubit_support, endianness=endianness  # type: ignore [arg-type]  # noqa
             ).squeeze(0)
         if noise is None:  # Compute expectations for state vector.
-            return torch.sum(torch.matmul(state, block_mat) * state.conj(), dim=1)
+            return torch.sum(torch.matmul(state.conj(), block_mat) * state, dim=1)
         else:  # Compute expectations for density matrices.
             return torch.trace(torch.matmul(block_mat, state))
-- 
2.43.0


From 2ca75cf9a61e92facd310a55ba9807efd6543e6a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:02:00 +0000
Subject: [PATCH 084/106] fix: sums and tensor products with different terms
 are not equal

---
 qadence/blocks/composite.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 4d932fc..c688349 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import Tuple
+from typing import Iterable, Tuple
 
 import torch
 from rich.columns import Columns
@@ -141,6 +141,17 @@ class CompositeBlock(AbstractBlock):
         return hash(self._to_json())
 
 
+def _same_blocks(blocks: Iterable[AbstractBlock], others: Iterable[AbstractBlock]) -> bool:
+    """Whether two collections hold equal blocks, each as many times, in any order."""
+    remaining = list(others)
+    for block in blocks:
+        idx = next((i for i, other in enumerate(remaining) if block == other), None)
+        if idx is None:
+            return False
+        remaining.pop(idx)
+    return not remaining
+
+
 class PutBlock(CompositeBlock):
     name = "put"
 
@@ -236,7 +247,7 @@ class KronBlock(CompositeBlock):
         if isinstance(other, KronBlock):
             if len(self.blocks) != len(other.blocks):
                 return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_blocks(self.blocks, other.blocks)
         return False
 
 
@@ -261,5 +272,5 @@ class AddBlock(CompositeBlock):
         if isinstance(other, AddBlock):
             if len(self.blocks) != len(other.blocks):
                 return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_blocks(self.blocks, other.blocks)
         return False
-- 
2.43.0


From faf6e43d1d247e63723e6a2e0fe498f547151097 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:03:40 +0000
Subject: [PATCH 085/106] fix: iterations over the same block are independent

---
 qadence/blocks/composite.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index c688349..aa4f16f 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import Iterable, Tuple
+from typing import Iterable, Iterator, Tuple
 
 import torch
 from rich.columns import Columns
@@ -55,12 +55,8 @@ class CompositeBlock(AbstractBlock):
     def depth(self) -> int:
         return 1 + max([b.depth for b in self.blocks])
 
-    def __iter__(self) -> CompositeBlock:
-        self._iterator = iter(self.blocks)
-        return self
-
-    def __next__(self) -> AbstractBlock:
-        return next(self._iterator)
+    def __iter__(self) -> Iterator[AbstractBlock]:
+        return iter(self.blocks)
 
     def __getitem__(self, item: int) -> AbstractBlock:
         return self.blocks[item]
-- 
2.43.0


From f35e3426539cbf7b2dbf8ac2094325c0e3cf85a4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:03:40 +0000
Subject: [PATCH 086/106] fix: a scaled block contains the parameters of its
 scale

---
 qadence/blocks/primitive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 9afaa1c..1679d80 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -314,6 +314,8 @@ class ScaleBlock(ParametricBlock):
                 return self.block == other
 
         if isinstance(other, Parameter):
+            if super().__contains__(other):
+                return True
             if isinstance(self.block, ParametricBlock) or isinstance(self.block, CompositeBlock):
                 return other in self.block
             return False
-- 
2.43.0


From daf774d38bbdaea23da18fee08a85c12a836d570 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:21:40 +0000
Subject: [PATCH 087/106] fix: gates whose parameter expressions merely share a
 parameter are not equal

---
 qadence/blocks/primitive.py   | 3 ++-
 qadence/operations/ham_evo.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 1679d80..a7aca5f 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -191,7 +191,7 @@ class ParametricBlock(PrimitiveBlock):
             return (
                 self.qubit_support == other.qubit_support
                 and len(exprs) == len(other_exprs)
-                and all(e1.equals(e2) for e1, e2 in zip(exprs, other_exprs))
+                and all(e1.equals(e2) and e2.equals(e1) for e1, e2 in zip(exprs, other_exprs))
             )
         return False
 
@@ -301,6 +301,7 @@ class ScaleBlock(ParametricBlock):
             return (
                 self.block == other.block
                 and self.parameters.parameter == other.parameters.parameter
+                and other.parameters.parameter == self.parameters.parameter
             )
         return False
 
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 212c4d4..7c188d5 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -183,6 +183,7 @@ class HamEvo(TimeEvolutionBlock):
             same_generator
             and self.duration == other.duration
             and self.parameters.parameter.equals(other.parameters.parameter)
+            and other.parameters.parameter.equals(self.parameters.parameter)
         )
 
     def _to_dict(self) -> dict:
-- 
2.43.0


From 6181f4f76bf08da693bc09a53e5e81ffd0d51a44 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:02:13 +0000
Subject: [PATCH 088/106] fix: looped expectation with separately given circuit
 and observable values

---
 qadence/backends/pyqtorch/backend.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 9becedf..f9887c9 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -241,9 +241,16 @@ class Backend(BackendInterface):
             param_values["observables"] if "observables" in param_values else param_values
         )
 
-        for vals_circ, vals_obs in zip(
-            to_list_of_dicts(param_circuits), to_list_of_dicts(param_observables)
-        ):
+        list_circuits = to_list_of_dicts(param_circuits)
+        list_observables = to_list_of_dicts(param_observables)
+        # only the circuit or only the observables might carry batched parameters
+        batch_size = max(len(list_circuits), len(list_observables))
+        if len(list_circuits) == 1:
+            list_circuits = list_circuits * batch_size
+        if len(list_observables) == 1:
+            list_observables = list_observables * batch_size
+
+        for vals_circ, vals_obs in zip(list_circuits, list_observables):
             wf = self.run(
                 circuit, vals_circ, state, endianness, pyqify_state=True, unpyqify_state=False
             )
-- 
2.43.0


From 280c77274cf8fa67f434cc1cd5d1a722a34116d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 17:48:20 +0000
Subject: [PATCH 089/106] fix: spawned CPU processes apply their updates to
 parameters of their own

---
 qadence/ml_tools/train_utils/accelerator.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/train_utils/accelerator.py b/qadence/ml_tools/train_utils/accelerator.py
index a48d0d6..347b2b9 100644
--- a/qadence/ml_tools/train_utils/accelerator.py
+++ b/qadence/ml_tools/train_utils/accelerator.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 from logging import getLogger
 from typing import Any, Callable
 import functools
+from itertools import chain
 
 import torch
 import torch.distributed as dist
@@ -301,6 +302,12 @@ class Accelerator(Distributor):
             else:
                 # For CPU-based or other environments:
                 if not self.local_rank:
+                    # The spawned processes receive CPU tensors in shared memory. Only the main
+                    # process keeps it (its result is visible in the parent process), otherwise
+                    # each of the processes would apply its updates to the same parameters.
+                    if self.rank != 0:
+                        for tensor in chain(model.parameters(), model.buffers()):
+                            tensor.data = self._unshare(tensor.data)
                     model = DDP(model)
 
         return model
@@ -315,9 +322,20 @@ class Accelerator(Distributor):
         Returns:
             optim.Optimizer: The unmodified optimizer.
         """
-        # Optimizers are not device-specific in this context, so no action is needed.
+        # Optimizers are not device-specific in this context, but (as for the model) only the
+        # main process keeps a state that is in shared memory.
+        if self.world_size > 1 and self.rank != 0:
+            for state in optimizer.state.values():
+                for key, value in state.items():
+                    if isinstance(value, torch.Tensor):
+                        state[key] = self._unshare(value)
         return optimizer
 
+    @staticmethod
+    def _unshare(tensor: torch.Tensor) -> torch.Tensor:
+        """A copy in the memory of this process for CPU tensors in shared memory."""
+        return tensor.clone() if not tensor.is_cuda and tensor.is_shared() else tensor
+
     def _prepare_data(self, dataloader: DataLoader | DictDataLoader) -> DataLoader | DictDataLoader:
         """
         Adjusts DataLoader(s) for distributed training.
-- 
2.43.0


From 35369763beb0bcdd8c2343298ce38ceaab3e8214 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:00:09 +0000
Subject: [PATCH 090/106] fix: checkpoints of distributed training runs can be
 loaded again

---
 qadence/ml_tools/callbacks/saveload.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/ml_tools/callbacks/saveload.py b/qadence/ml_tools/callbacks/saveload.py
index 614f4ba..4e65a98 100644
--- a/qadence/ml_tools/callbacks/saveload.py
+++ b/qadence/ml_tools/callbacks/saveload.py
@@ -9,6 +9,7 @@ from typing import Any
 import torch
 from nevergrad.optimization.base import Optimizer as NGOptimizer
 from torch.nn import Module
+from torch.nn.parallel import DistributedDataParallel
 from torch.optim import Optimizer
 
 logger = getLogger("ml_tools")
@@ -69,6 +70,10 @@ def write_checkpoint(
     from qadence import QuantumModel
     from qadence.ml_tools.models import QNN
 
+    if isinstance(model, DistributedDataParallel):
+        # a checkpoint is loaded into the model itself
+        model = model.module
+
     device = None
     try:
         # We extract the device from the pyqtorch native circuit
-- 
2.43.0


From 5847f2892cec0a37afe53ca19a6179c497717893 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:19:41 +0000
Subject: [PATCH 091/106] fix: resumed distributed runs continue from the same
 iteration and optimizer state in all processes

---
 qadence/ml_tools/callbacks/callbackmanager.py |  6 ++++++
 qadence/ml_tools/train_utils/accelerator.py   | 17 ++++++++---------
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/qadence/ml_tools/callbacks/callbackmanager.py b/qadence/ml_tools/callbacks/callbackmanager.py
index 14e6772..c06086d 100644
--- a/qadence/ml_tools/callbacks/callbackmanager.py
+++ b/qadence/ml_tools/callbacks/callbackmanager.py
@@ -203,6 +203,12 @@ class CallbacksManager:
                     trainer.opt_result = OptimizeResult(trainer.current_epoch, model, optimizer)
                     logger.debug(f"Loaded model and optimizer from {self.config.log_folder}")
 
+        # Only the main process loads checkpoints: all of the processes resume from its iteration
+        if trainer.accelerator.world_size > 1:
+            trainer.global_step, trainer.current_epoch = trainer.accelerator.broadcast(
+                (trainer.global_step, trainer.current_epoch), src=0
+            )
+
         # Setup writer
         if trainer.accelerator.rank == 0:
             self.writer.open(self.config, iteration=trainer.global_step)
diff --git a/qadence/ml_tools/train_utils/accelerator.py b/qadence/ml_tools/train_utils/accelerator.py
index 347b2b9..bcfcce9 100644
--- a/qadence/ml_tools/train_utils/accelerator.py
+++ b/qadence/ml_tools/train_utils/accelerator.py
@@ -314,21 +314,20 @@ class Accelerator(Distributor):
 
     def _prepare_optimizer(self, optimizer: optim.Optimizer) -> optim.Optimizer:
         """
-        Passes through the optimizer without modification.
+        Passes through the optimizer, with the same state in all processes.
 
         Args:
             optimizer (optim.Optimizer): The optimizer to prepare.
 
         Returns:
-            optim.Optimizer: The unmodified optimizer.
+            optim.Optimizer: The prepared optimizer.
         """
-        # Optimizers are not device-specific in this context, but (as for the model) only the
-        # main process keeps a state that is in shared memory.
-        if self.world_size > 1 and self.rank != 0:
-            for state in optimizer.state.values():
-                for key, value in state.items():
-                    if isinstance(value, torch.Tensor):
-                        state[key] = self._unshare(value)
+        # Like the parameters (see `DistributedDataParallel`), the state of the optimizer (e.g. as
+        # loaded from a checkpoint) is that of the main process in all processes.
+        if self.world_size > 1 and dist.is_initialized():
+            state = self.broadcast(optimizer.state_dict() if self.rank == 0 else None, src=0)
+            if self.rank != 0:
+                optimizer.load_state_dict(state)
         return optimizer
 
     @staticmethod
-- 
2.43.0


From ab268b7a3c5fdc2aaa3cf3aebd6e557565204a9e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:31:08 +0000
Subject: [PATCH 092/106] fix: moving a data loader to a device keeps its batch
 size, sampling and other settings

---
 qadence/ml_tools/data.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/data.py b/qadence/ml_tools/data.py
index f8f30e9..8d933a2 100644
--- a/qadence/ml_tools/data.py
+++ b/qadence/ml_tools/data.py
@@ -143,7 +143,18 @@ def _(xs: dict, *args: Any, **kwargs: Any) -> dict:
 
 @data_to_device.register(DataLoader)
 def _(xs: DataLoader, *args: Any, **kwargs: Any) -> DataLoader:
-    return DataLoader(data_to_device(xs.dataset, *args, **kwargs))
+    # only the data is moved, the settings of the data loader stay
+    settings: dict = dict(
+        num_workers=xs.num_workers, collate_fn=xs.collate_fn, pin_memory=xs.pin_memory
+    )
+    if xs.batch_size is None and xs.batch_sampler is not None:
+        settings["batch_sampler"] = xs.batch_sampler
+    else:
+        settings["batch_size"] = xs.batch_size
+        settings["drop_last"] = xs.drop_last
+        if not isinstance(xs.dataset, IterableDataset):
+            settings["sampler"] = xs.sampler
+    return DataLoader(data_to_device(xs.dataset, *args, **kwargs), **settings)
 
 
 @data_to_device.register(DictDataLoader)
-- 
2.43.0


From f0ca89ec2d144d9f046a342b8c3b714c6bb196dd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:31:08 +0000
Subject: [PATCH 093/106] fix: simultaneous iterators of an infinite dataset do
 not disturb each other

---
 qadence/ml_tools/data.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qadence/ml_tools/data.py b/qadence/ml_tools/data.py
index 8d933a2..af93799 100644
--- a/qadence/ml_tools/data.py
+++ b/qadence/ml_tools/data.py
@@ -82,10 +82,11 @@ class InfiniteTensorDataset(IterableDataset):
         if len(set([t.size(0) for t in self.tensors])) != 1:
             raise ValueError("Size of first dimension must be the same for all tensors.")
 
-        # Shuffle the indices for every full pass
-        random.shuffle(self.indices)
+        # Shuffle the indices for every iterator (which share the dataset)
+        indices = list(self.indices)
+        random.shuffle(indices)
         while True:
-            for idx in self.indices:
+            for idx in indices:
                 yield tuple(t[idx] for t in self.tensors)
 
 
-- 
2.43.0


From fd2e100a29c4402b1887586087cd7f7107d5a45e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:39:39 +0000
Subject: [PATCH 094/106] fix: information content varies the variational
 parameters only

---
 qadence/ml_tools/information/information_content.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/information/information_content.py b/qadence/ml_tools/information/information_content.py
index d9d5b19..8d61d61 100644
--- a/qadence/ml_tools/information/information_content.py
+++ b/qadence/ml_tools/information/information_content.py
@@ -119,9 +119,11 @@ class InformationContent:
         self.param_shapes = {}
         self.total_params = 0
 
+        # only the variational parameters span the landscape, constants keep their values
         for name, param in model.named_parameters():
-            self.param_shapes[name] = param.shape
-            self.total_params += param.numel()
+            if param.requires_grad:
+                self.param_shapes[name] = param.shape
+                self.total_params += param.numel()
         self.n_variations = variation_multiple * self.total_params
         self.all_variations = torch.empty(
             (self.n_variations, self.total_params), device=self.device
-- 
2.43.0


From 58edc5e12a813022d3284813f90a82e7611def7f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:40:12 +0000
Subject: [PATCH 095/106] fix: information content of models with scalar
 parameters

---
 qadence/ml_tools/information/information_content.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/information/information_content.py b/qadence/ml_tools/information/information_content.py
index 8d61d61..d429d9c 100644
--- a/qadence/ml_tools/information/information_content.py
+++ b/qadence/ml_tools/information/information_content.py
@@ -139,7 +139,7 @@ class InformationContent:
         start_idx = 0
 
         for name, shape in self.param_shapes.items():
-            param_size = torch.prod(torch.tensor(shape)).item()
+            param_size = shape.numel()
             param_variations[name] = self.all_variations[
                 :, start_idx : start_idx + param_size
             ].view(self.n_variations, *shape)
-- 
2.43.0


From 2dd5f82c91d1d4a513ed27151216debc05b32176 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:42:40 +0000
Subject: [PATCH 096/106] fix: eigenvalues of U

---
 qadence/operations/parametric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index d80d940..280a38e 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -190,8 +190,9 @@ class U(ParametricBlock):
         phi = evaluate(self.parameters.phi)
         theta = evaluate(self.parameters.theta)
         omega = evaluate(self.parameters.omega)
-        lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
-        return torch.cat((lmbd, lmbd.conj()))
+        # an SU(2) rotation: its eigenvalues are a conjugate pair whose real part is trace / 2
+        angle = np.arccos(np.cos(theta / 2) * np.cos((phi + omega) / 2))
+        return torch.tensor([np.exp(-1j * angle), np.exp(1j * angle)], dtype=torch.cdouble)
 
     def dagger(self) -> U:
         # the adjoint also reverses the order of the three rotations
-- 
2.43.0


From 6a92119c1fc82075a6aedf579410879482cb8ea6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:42:47 +0000
Subject: [PATCH 097/106] fix: eigenvalues of scaled blocks include the scale

---
 qadence/blocks/primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index a7aca5f..91c9ad8 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -267,7 +267,7 @@ class ScaleBlock(ParametricBlock):
 
     @property
     def eigenvalues(self) -> torch.Tensor:
-        return self.block.eigenvalues
+        return evaluate(self.parameters.parameter, as_torch=True) * self.block.eigenvalues
 
     @property
     def _block_title(self) -> str:
-- 
2.43.0


From a889b7e119a6cb7552a0f5929bd4cfa0006111a1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:50:35 +0000
Subject: [PATCH 098/106] fix: processes started by torchrun on CPU use their
 own rank

---
 qadence/ml_tools/train_utils/execution.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/qadence/ml_tools/train_utils/execution.py b/qadence/ml_tools/train_utils/execution.py
index 4d7119c..f3dace1 100644
--- a/qadence/ml_tools/train_utils/execution.py
+++ b/qadence/ml_tools/train_utils/execution.py
@@ -333,8 +333,6 @@ class TorchRunexecution(BaseExecution):
         Returns:
             int: The global rank of the process.
         """
-        if self.compute == "cpu":
-            return int(process_rank)
         return int(os.environ.get("RANK", process_rank))
 
     def get_local_rank(self, process_rank: int) -> int | None:
-- 
2.43.0


From 1680483d504d23a000a7af40a4404dcb6ecb134b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:05:46 +0000
Subject: [PATCH 099/106] fix: generators of SWAP and CSWAP are Hermitian and
 generate the gates

---
 qadence/operations/control_ops.py | 21 ++++-----------------
 qadence/operations/primitive.py   | 12 +++++-------
 2 files changed, 9 insertions(+), 24 deletions(-)

diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index a890d98..95b6c0a 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -15,7 +15,6 @@ from qadence.blocks import (
 )
 from qadence.blocks.utils import (
     add,  # noqa
-    chain,
     kron,
 )
 from qadence.noise import NoiseHandler
@@ -306,25 +305,13 @@ class CSWAP(ControlBlock):
         if isinstance(control, tuple):
             control = control[0]
 
-        a00m = -N(target=control)
-        a00p = -N(target=control, state="0")
-        a11 = -N(target=target1)
-        a22 = -N(target=target2, state="0")
-        a12 = 0.5 * (chain(X(target1), Z(target1)) + X(target1))
-        a21 = 0.5 * (chain(Z(target2), X(target2)) + X(target2))
-        no_effect = kron(a00m, I(target1), I(target2))
-        swap_effect = (
-            kron(a00p, -1.0 * a22, a11)
-            + kron(a00p, -1.0 * a11, a22)
-            + kron(a00p, a12, a21)
-            + kron(a00p, a21, a12)
-        )
-        self.generator = no_effect + swap_effect
-        super().__init__((control,), SWAP(target1, target2), noise=noise)
+        swap = SWAP(target1, target2)
+        self.generator = kron(N(control), swap.generator)
+        super().__init__((control,), swap, noise=noise)
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.tensor((1, -1, 1, 1, 1, 1, 1, 1), dtype=torch.cdouble)
+        return torch.tensor((-2, 0, 0, 0, 0, 0, 0, 0), dtype=torch.cdouble)
 
     @property
     def eigenvalues(self) -> Tensor:
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 0cdaee0..cefe3b4 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -15,7 +15,6 @@ from qadence.blocks import (
 )
 from qadence.blocks.primitive import ProjectorBlock
 from qadence.blocks.utils import (
-    chain,
     kron,
 )
 from qadence.noise import NoiseHandler
@@ -361,12 +360,11 @@ class SWAP(PrimitiveBlock):
         target: int,
         noise: NoiseHandler | None = None,
     ) -> None:
-        a11 = 0.5 * (Z(control) - I(control))
-        a22 = -0.5 * (Z(target) + I(target))
-        a12 = 0.5 * (chain(X(control), Z(control)) + X(control))
-        a21 = 0.5 * (chain(Z(target), X(target)) + X(target))
-        self.generator = (
-            kron(-1.0 * a22, a11) + kron(-1.0 * a11, a22) + kron(a12, a21) + kron(a21, a12)
+        self.generator = 0.5 * (
+            kron(X(control), X(target))
+            + kron(Y(control), Y(target))
+            + kron(Z(control), Z(target))
+            - kron(I(control), I(target))
         )
         super().__init__((control, target), noise=noise)
 
-- 
2.43.0


From ecc83bc9578f0ed35e995bbd0df87b63fa57496b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 100/106] fix: parameters of time-dependent generators can have
 any name

---
 qadence/backends/pyqtorch/convert_ops.py | 47 +++---------------------
 1 file changed, 6 insertions(+), 41 deletions(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index 0d3edcf..cb2e5db 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -1,9 +1,8 @@
 from __future__ import annotations
 
-import re
 from functools import partial, reduce
 from itertools import chain as flatten
-from typing import Any, Callable, Sequence
+from typing import Callable, Sequence
 
 import pyqtorch as pyq
 import sympy
@@ -100,39 +99,6 @@ def extract_parameter(block: ScaleBlock | ParametricBlock, config: Configuration
     return config.get_param_name(block)[0]
 
 
-def replace_underscore_floats(s: str) -> str:
-    """Replace underscores with periods for all floats in given string.
-
-    Needed for correct parsing of string by sympy parser.
-
-    Args:
-        s (str): string expression
-
-    Returns:
-        str: transformed string expression
-    """
-
-    # Regular expression to match floats written with underscores instead of dots
-    float_with_underscore_pattern = r"""
-        (?<!\w)            # Negative lookbehind to ensure not part of a word
-        -?                 # Optional negative sign
-        \d+                # One or more digits (before underscore)
-        _                  # The underscore acting as decimal separator
-        \d+                # One or more digits (after underscore)
-        ([eE][-+]?\d+)?    # Optional exponent part for scientific notation
-        (?!\w)             # Negative lookahead to ensure not part of a word
-    """
-
-    # Function to replace the underscore with a dot
-    def underscore_to_dot(match: re.Match) -> Any:
-        return match.group(0).replace("_", ".")
-
-    # Compile the regular expression
-    pattern = re.compile(float_with_underscore_pattern, re.VERBOSE)
-
-    return pattern.sub(underscore_to_dot, s)
-
-
 def sympy_to_pyq(expr: sympy.Expr) -> ConcretizedCallable | Tensor:
     """Convert sympy expression to pyqtorch ConcretizedCallable object.
 
@@ -212,12 +178,11 @@ def convert_block(
         scaled_ops = convert_block(block.block, n_qubits, config)
         scale = extract_parameter(block, config=config)
 
-        # replace underscore by dot when underscore is between two numbers in string
-        if isinstance(scale, str):
-            scale = replace_underscore_floats(scale)
-
-        if isinstance(scale, str) and not config._use_gate_params:
-            param = sympy_to_pyq(sympy.parse_expr(scale))
+        expr = block.parameters.parameter
+        is_time_dependent = any(getattr(s, "is_time", False) for s in expr.free_symbols)
+        if isinstance(scale, str) and is_time_dependent and not config._use_gate_params:
+            # the solver evaluates the expression at the times it needs
+            param = sympy_to_pyq(expr)
         else:
             param = scale
 
-- 
2.43.0


From e8033c797440869f8018f33db7c15faf2b3aa3ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 101/106] fix: the time of a time-dependent generator is not an
 input of a model

---
 qadence/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/model.py b/qadence/model.py
index 5ad5322..ad42070 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -130,7 +130,7 @@ class QuantumModel(nn.Module):
             observable = [observable]
 
         def _is_feature_param(p: Parameter) -> bool:
-            return not p.trainable and not p.is_number
+            return not p.trainable and not p.is_number and not getattr(p, "is_time", False)
 
         if observable is None:
             self.inputs = list(filter(_is_feature_param, circuit.unique_parameters))
-- 
2.43.0


From 3fffe1a74854d39f5c4b1f08ffdd904cc8fea4fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 102/106] fix: matrix of an evolution under a time-dependent
 generator

---
 qadence/blocks/block_to_tensor.py | 64 ++++++++++++++++++++++++++++++-
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 1e093dd..3edc7e1 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from math import sqrt
 from uuid import UUID
 
 import torch
@@ -16,7 +17,7 @@ from qadence.blocks import (
     ScaleBlock,
 )
 from qadence.blocks.primitive import ProjectorBlock
-from qadence.blocks.utils import chain, kron, uuid_to_expression
+from qadence.blocks.utils import chain, expressions, kron, uuid_to_expression
 from qadence.parameters import evaluate, stringify
 
 # from qadence.states import product_state
@@ -368,6 +369,61 @@ def block_to_tensor(
         return torch.sparse_coo_tensor(indices, values, (size, size))
 
 
+def _time_ordered_evolution(
+    block: AbstractBlock,
+    values: dict[str, TNumber | torch.Tensor],
+    qubit_support: tuple,
+    endianness: Endianness = Endianness.BIG,
+    device: torch.device = None,
+    tol: float = 1e-9,
+    max_steps: int = 2**14,
+) -> torch.Tensor:
+    """Matrix of the evolution under a time-dependent generator from time 0 to its duration.
+
+    Uses the commutator-free Magnus integrator of fourth order, halving the time step until the
+    matrix does not change anymore.
+    """
+    from qadence.blocks import embedding
+
+    generator = block.generator  # type: ignore[attr-defined]
+    time = block.parameters.parameter.name  # type: ignore[attr-defined]
+    duration = _gate_parameters(block, values)[1].reshape(-1)
+    (ps, embed) = embedding(generator)
+    names = {s.name for e in expressions(generator) for s in e.free_symbols}
+    inputs = {name: values[name] for name in names if name != time and name in values}
+
+    def hamiltonian(t: torch.Tensor) -> torch.Tensor:
+        return _block_to_tensor_embedded(
+            generator,
+            embed(ps, {**inputs, time: t}),
+            qubit_support,
+            endianness=endianness,
+            device=device,
+        )
+
+    def evolve(n_steps: int) -> torch.Tensor:
+        node, weight = sqrt(3) / 6, 1 / 4 + sqrt(3) / 6
+        step = duration / n_steps
+        prefac = -J.to(device) * step.reshape(-1, 1, 1)
+        mat = torch.eye(2 ** len(qubit_support), dtype=torch.cdouble, device=device).unsqueeze(0)
+        for i in range(n_steps):
+            h1 = hamiltonian((i + 0.5 - node) * step)
+            h2 = hamiltonian((i + 0.5 + node) * step)
+            for first, second in ((h1, h2), (h2, h1)):
+                ham = weight * first + (0.5 - weight) * second
+                mat = torch.matmul(torch.linalg.matrix_exp(prefac * ham), mat)
+        return mat
+
+    n_steps = 16
+    mat = evolve(n_steps)
+    while n_steps < max_steps:
+        n_steps *= 2
+        previous, mat = mat, evolve(n_steps)
+        if torch.max(torch.abs(mat - previous)) < tol:
+            break
+    return mat
+
+
 # version that accepts embedded params
 def _block_to_tensor_embedded(
     block: AbstractBlock,
@@ -415,7 +471,11 @@ def _block_to_tensor_embedded(
 
     elif isinstance(block, HamEvo):
         if block.qubit_support:
-            if isinstance(block.generator, AbstractBlock):
+            if isinstance(block.generator, AbstractBlock) and block.generator.is_time_dependent:
+                mat = _time_ordered_evolution(
+                    block, values, qubit_support, endianness=endianness, device=device
+                )
+            elif isinstance(block.generator, AbstractBlock):
                 # get matrix representation of generator
                 gen_mat = _block_to_tensor_embedded(
                     block.generator, values, qubit_support, endianness=endianness, device=device
-- 
2.43.0


From 0d1f9cbcbe33e01274286f747cbd9aaa4ef00887 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:30:01 +0000
Subject: [PATCH 103/106] fix: dagger and decomposition of evolutions under
 time-dependent generators

---
 qadence/operations/ham_evo.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 7c188d5..7335ce8 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -17,6 +17,7 @@ from qadence.blocks.utils import (
     block_is_qubit_hamiltonian,
     chain,
     expressions,
+    uuid_to_block,
 )
 from qadence.decompose import lie_trotter_suzuki
 from qadence.parameters import (
@@ -254,9 +255,25 @@ class HamEvo(TimeEvolutionBlock):
 
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
-        return HamEvo(
-            deepcopy(self.generator), -extract_original_param_entry(p), self.qubit_support
-        )
+        generator = deepcopy(self.generator)
+        if isinstance(generator, AbstractBlock) and generator.is_time_dependent:
+            # the evolution under the negative generator, backwards in time
+            duration = self.parameters.duration
+            for block in {id(b): b for b in uuid_to_block(generator).values()}.values():
+                params = block.parameters
+                block.parameters = ParamMap(
+                    **{
+                        name: params.uuid_param(name)[1].xreplace({p: duration - p})
+                        for name in params.names()
+                    }
+                )
+            return HamEvo(
+                -generator,
+                p,
+                self.qubit_support,
+                duration=extract_original_param_entry(duration),
+            )
+        return HamEvo(generator, -extract_original_param_entry(p), self.qubit_support)
 
     def digital_decomposition(self, approximation: LTSOrder = LTSOrder.ST4) -> AbstractBlock:
         """Decompose the Hamiltonian evolution into digital gates.
@@ -293,6 +310,10 @@ class HamEvo(TimeEvolutionBlock):
         assert isinstance(
             self.generator, AbstractBlock
         ), "Only a generator represented as a block can be decomposed"
+        if self.generator.is_time_dependent:
+            raise NotImplementedError(
+                "The evolution under a time-dependent generator cannot be decomposed."
+            )
 
         if block_is_qubit_hamiltonian(self.generator):
             try:
-- 
2.43.0


From cc34691c1902a994daaa6f040186215029c006e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:38:30 +0000
Subject: [PATCH 104/106] fix: parameters of all gates of a time-dependent
 circuit are named alike

---
 qadence/backends/pyqtorch/backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index f9887c9..68dd7d3 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -118,6 +118,9 @@ class Backend(BackendInterface):
         if self.config.noise:
             set_noise(circuit, self.config.noise)
 
+        if circuit.block.is_time_dependent:
+            # the parameters of all gates are named alike
+            self.config._use_gate_params = False
         ops = convert_block(circuit.block, n_qubits=circuit.n_qubits, config=self.config)
         readout_noise = (
             convert_readout_noise(circuit.n_qubits, self.config.noise)
-- 
2.43.0


From 5d4d0bfa9d6bf8e7fb05395c688fe6a652c1e8e4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:39:13 +0000
Subject: [PATCH 105/106] fix: parameter shift rules differentiate the
 parameters of observables

---
 qadence/backends/parameter_shift_rules.py     | 23 +++++++++++++++++++
 .../torch/differentiable_expectation.py       |  7 +++---
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/qadence/backends/parameter_shift_rules.py b/qadence/backends/parameter_shift_rules.py
index c505581..819f909 100644
--- a/qadence/backends/parameter_shift_rules.py
+++ b/qadence/backends/parameter_shift_rules.py
@@ -102,6 +102,29 @@ def single_gap_psr(
     return spectral_gap * (f_plus - f_min) / (4 * torch.sin(spectral_gap * shift / 2))
 
 
+def scale_psr(
+    expectation_fn: Callable[[dict[str, Tensor]], Tensor],
+    param_dict: dict[str, Tensor],
+    param_name: str,
+) -> Tensor:
+    """Implements the rule for the scale of a term of an observable.
+
+    The expectation value is linear in such a parameter.
+
+    Args:
+        expectation_fn (Callable[[dict[str, Tensor]], Tensor]): backend-dependent function
+            to calculate expectation value
+        param_dict (dict[str, Tensor]): dict storing parameters of parameterized blocks
+        param_name (str): name of parameter with respect to that differentiation is performed
+
+    Returns:
+        Tensor: tensor containing derivative values
+    """
+    f_plus = expectation_fn({**param_dict, param_name: param_dict[param_name] + 1.0})
+    f_min = expectation_fn({**param_dict, param_name: param_dict[param_name] - 1.0})
+    return (f_plus - f_min) / 2
+
+
 def multi_gap_psr(
     expectation_fn: Callable[[dict[str, Tensor]], Tensor],
     param_dict: dict[str, Tensor],
diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index 392bc63..e6456cf 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -12,6 +12,7 @@ from torch.autograd import Function
 
 from qadence.backend import Backend as QuantumBackend
 from qadence.backend import ConvertedCircuit, ConvertedObservable
+from qadence.backends.parameter_shift_rules import scale_psr
 from qadence.backends.utils import infer_batchsize, is_pyq_shape, param_dict, pyqify, validate_state
 from qadence.blocks.abstract import AbstractBlock
 from qadence.blocks.utils import uuid_to_eigen
@@ -245,9 +246,9 @@ class DifferentiableExpectation:
                 param_to_psr[param_id] = psr_fn(eigenvalues, **psr_args_factor)
         for obs in observable:
             for param_id, _ in uuid_to_eigen(obs).items():
-                # We need the embedded fixed params of the observable in the param_values dict
+                # We need the embedded params of the observable in the param_values dict
                 # to be able to call expectation. Since torch backward requires
                 # a list of param_ids and values of equal length, we need to pass them to PSR too.
-                # Since they are constants their gradients are 0.
-                param_to_psr[param_id] = lambda x: torch.tensor([0.0], requires_grad=False)
+                # They scale terms of the observable.
+                param_to_psr[param_id] = scale_psr
         return param_to_psr
-- 
2.43.0


From 90e81f87fe26234f06e472bb1d6c4f8750b45817 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:40:49 +0000
Subject: [PATCH 106/106] fix: adjoint differentiation falls back to AD where
 it gives wrong derivatives

---
 .../torch/differentiable_expectation.py       | 65 ++++++++++++++++++-
 1 file changed, 64 insertions(+), 1 deletion(-)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index e6456cf..75eabc3 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -3,10 +3,14 @@ from __future__ import annotations
 from collections import OrderedDict
 from dataclasses import dataclass
 from functools import partial
+from logging import getLogger
 from typing import Any, Callable, Sequence
 
+import pyqtorch as pyq
 import torch
 from pyqtorch.differentiation import AdjointExpectation
+from pyqtorch.hamiltonians.evolution import GeneratorType
+from pyqtorch.primitives import Parametric, Primitive
 from torch import Tensor
 from torch.autograd import Function
 
@@ -23,6 +27,44 @@ from qadence.ml_tools import promote_to_tensor
 from qadence.noise import NoiseHandler
 from qadence.types import Endianness, ParamDictType
 
+logger = getLogger(__name__)
+
+
+def is_adjoint_differentiable(native: pyq.QuantumCircuit) -> bool:
+    """Check that the adjoint method gives all derivatives of a circuit.
+
+    Args:
+        native (pyq.QuantumCircuit): A PyQTorch circuit.
+
+    Returns:
+        bool: False if the circuit contains operations the adjoint method cannot deal with.
+    """
+
+    def is_supported(op: torch.nn.Module) -> bool:
+        if isinstance(op, pyq.HamiltonianEvolution):
+            return (
+                op.noise is None
+                and op.generator_type
+                in (GeneratorType.TENSOR, GeneratorType.OPERATION, GeneratorType.COMMUTING_SEQUENCE)
+                and list(op.qubit_support) == sorted(op.qubit_support)
+            )
+        if type(op) in (pyq.Sequence, pyq.Merge):
+            return all(is_supported(o) for o in op.operations)
+        if not isinstance(op, (Primitive, Parametric)) or (
+            type(op) is Primitive or isinstance(op, (pyq.U, pyq.N, pyq.Projector))
+        ):
+            # matrices need not be unitary
+            return False
+        # matrices of gates are ordered as their controls and targets
+        qubits = [*op.control, *op.target]
+        return op.noise is None and qubits == sorted(qubits)
+
+    return (
+        type(native) is pyq.QuantumCircuit
+        and native.readout_noise is None
+        and all(is_supported(op) for op in native.operations)
+    )
+
 
 class PSRExpectation(Function):
     """Overloads the PyTorch AD system to perform parameter shift rule on quantum circuits."""
@@ -136,6 +178,27 @@ class DifferentiableExpectation:
         self.observable = (
             self.observable if isinstance(self.observable, list) else [self.observable]
         )
+        if (
+            self.measurement is not None
+            or self.noise is not None
+            or self.mitigation is not None
+            or (self.state is not None and self.state.requires_grad)
+            or not all(isinstance(v, Tensor) for v in self.param_values.values())
+            or any(obs.abstract.is_parametric for obs in self.observable)
+            or not is_adjoint_differentiable(self.circuit.native)
+        ):
+            # the adjoint method only gives the derivatives of noiseless exact
+            # expectation values with respect to the angles of unitary gates
+            logger.debug("Adjoint differentiation is not possible, using AD instead.")
+            return self.ad()
+
+        # the adjoint method computes the derivatives with respect to all parameters
+        param_values: list = list(self.param_values.values())
+        if not any(v.requires_grad for v in param_values):
+            return self.ad()
+        param_values = [
+            v if v.requires_grad else (v.detach() * 1.0).requires_grad_() for v in param_values
+        ]
 
         n_qubits = self.circuit.abstract.n_qubits
         values_batch_size = infer_batchsize(self.param_values)
@@ -157,7 +220,7 @@ class DifferentiableExpectation:
                 self.observable[i].native,  # Currently, adjoint only supports a single observable.
                 None,
                 self.param_values.keys(),
-                *self.param_values.values(),
+                *param_values,
             ).reshape(
                 batch_size, 1
             )  # we expect (batch_size, n_observables) shape
-- 
2.43.0

