From f947e8647ca39710c263027e67364aa41326ddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:11 +0000
Subject: [PATCH 01/58] fix: matrix of the T dagger gate

---
 qadence/blocks/block_to_tensor.py | 2 +-
 qadence/operations/primitive.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index c280908..28460b2 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -33,7 +33,7 @@ NMAT = torch.tensor([[0, 0], [0, 1]], dtype=torch.cdouble).unsqueeze(0)
 SMAT = torch.tensor([[1, 0], [0, 1j]], dtype=torch.cdouble).unsqueeze(0)
 SDAGMAT = torch.tensor([[1, 0], [0, -1j]], dtype=torch.cdouble).unsqueeze(0)
 TMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
-TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
+TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(-J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
 HMAT = (
     1
     / torch.sqrt(torch.tensor(2))
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 6fa8545..0b94284 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -322,7 +322,7 @@ class TDagger(PrimitiveBlock):
     """The Hermitian adjoint/conjugate transpose of the T gate."""
 
     # FIXME: this gate is not support by any backend
-    name = "T_dagger"
+    name = OpName.TDAGGER
 
     def __init__(
         self,
-- 
2.43.0


From 6cbfbebf844e0288e8918ef1a4b306e7d291740b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:11 +0000
Subject: [PATCH 02/58] fix: batched parameters in the dense matrix of HamEvo
 and scaled blocks

---
 qadence/blocks/block_to_tensor.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 28460b2..49b919e 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -416,14 +416,14 @@ def _block_to_tensor_embedded(
 
                 # calculate evolution matrix
                 (p,) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
             elif isinstance(block.generator, torch.Tensor):
                 gen_mat = block.generator.to(device)
 
                 # calculate evolution matrix
                 (p, _) = _gate_parameters(block, values)
-                prefac = -J.to(device) * p
+                prefac = -J.to(device) * p.reshape(-1, 1, 1)
                 mat = torch.linalg.matrix_exp(prefac * gen_mat)
 
                 # add missing identities on unused qubits
@@ -454,7 +454,7 @@ def _block_to_tensor_embedded(
 
     elif isinstance(block, ScaleBlock):
         (scale,) = _gate_parameters(block, values)
-        mat = scale * _block_to_tensor_embedded(
+        mat = scale.reshape(-1, 1, 1) * _block_to_tensor_embedded(
             block.block, values, qubit_support, endianness=endianness, device=device
         )
 
-- 
2.43.0


From 35fbbe967471c1e04a1aa41e5f0b8674f8f2513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:59 +0000
Subject: [PATCH 03/58] fix: dense matrix of multi-qubit blocks on unsorted or
 non-adjacent qubits

---
 qadence/blocks/block_to_tensor.py | 38 +++++++++++++++----------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 49b919e..fce437c 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -80,27 +80,27 @@ def _fill_identities(
         or a tensor (2**n_qubits) if diag_only
     """
     full_qubit_support = tuple(sorted(full_qubit_support))
-    qubit_support = tuple(sorted(qubit_support))
+    qubit_support = tuple(qubit_support)
+    n_full = len(full_qubit_support)
+    # order of the tensor factors: first those of `block_mat`, then the identities
+    factors = qubit_support + tuple(q for q in full_qubit_support if q not in qubit_support)
+    order = full_qubit_support if endianness == Endianness.BIG else full_qubit_support[::-1]
+    perm = tuple(factors.index(q) for q in order)
     block_mat = block_mat.to(device)
-    identity_mat = IMAT.to(device)
     if diag_only:
-        block_mat = torch.diag(block_mat.squeeze(0))
-        identity_mat = torch.diag(identity_mat.squeeze(0))
-    mat = identity_mat if qubit_support[0] != full_qubit_support[0] else block_mat
-    for i in full_qubit_support[1:]:
-        if i == qubit_support[0]:
-            other = block_mat
-            if endianness == Endianness.LITTLE:
-                mat = torch.kron(other, mat)
-            else:
-                mat = torch.kron(mat.contiguous(), other.contiguous())
-        elif i not in qubit_support:
-            other = identity_mat
-            if endianness == Endianness.LITTLE:
-                mat = torch.kron(other.contiguous(), mat.contiguous())
-            else:
-                mat = torch.kron(mat.contiguous(), other.contiguous())
-
+        ones = torch.ones(
+            2 ** (n_full - len(qubit_support)), dtype=block_mat.dtype, device=block_mat.device
+        )
+        mat = torch.kron(torch.diag(block_mat.squeeze(0)), ones)
+        return mat.reshape((2,) * n_full).permute(perm).reshape(-1)
+    identity_mat = torch.eye(
+        2 ** (n_full - len(qubit_support)), dtype=block_mat.dtype, device=block_mat.device
+    )
+    mat = torch.kron(block_mat.contiguous(), identity_mat.unsqueeze(0))
+    if perm != tuple(range(n_full)):
+        axes = (0, *(1 + p for p in perm), *(1 + n_full + p for p in perm))
+        mat = mat.reshape((-1,) + (2,) * (2 * n_full)).permute(axes)
+        mat = mat.reshape(-1, 2**n_full, 2**n_full)
     return mat
 
 
-- 
2.43.0


From ddad9d2f853fd8b4e7c1d0ddc37372178646e25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:59 +0000
Subject: [PATCH 04/58] fix: endianness and qubit support of sparse diagonal
 tensors

---
 qadence/blocks/block_to_tensor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index fce437c..40bd561 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -283,16 +283,22 @@ def block_to_diagonal(
     if isinstance(block, (ChainBlock, KronBlock)):
         v = torch.ones(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            v *= block_to_diagonal(b, values, qubit_support, device=device)
+            v *= block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
     if isinstance(block, AddBlock):
         t = torch.zeros(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            t += block_to_diagonal(b, values, qubit_support, device=device)
+            t += block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
         v = t
     elif isinstance(block, ScaleBlock):
         _s = evaluate(block.scale, values, as_torch=True)  # type: ignore[attr-defined]
         _s = _s.detach().squeeze(0)  # type: ignore[union-attr]
-        v = _s * block_to_diagonal(block.block, values, qubit_support, device=device)
+        v = _s * block_to_diagonal(
+            block.block, values, qubit_support, endianness=endianness, device=device
+        )
     elif isinstance(block, PrimitiveBlock):
         v = _fill_identities(
             OPERATIONS_DICT[block.name],
@@ -355,7 +361,9 @@ def block_to_tensor(
         )
 
     elif tensor_type == TensorType.SPARSEDIAGONAL:
-        t = block_to_diagonal(block, values, endianness=endianness)
+        t = block_to_diagonal(
+            block, values, qubit_support, use_full_support, endianness=endianness, device=device
+        )
         indices, values, size = torch.nonzero(t), t[t != 0], len(t)
         indices = torch.stack((indices.flatten(), indices.flatten()))
         return torch.sparse_coo_tensor(indices, values, (size, size))
-- 
2.43.0


From 6d13d88d047c63dc6ae9e5778f89db18a81c9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:44 +0000
Subject: [PATCH 05/58] fix: adjoint of the U gate

---
 qadence/operations/parametric.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 857d3cd..6981494 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -20,6 +20,7 @@ from qadence.parameters import (
     Parameter,
     ParamMap,
     evaluate,
+    extract_original_param_entry,
 )
 from qadence.types import OpName, TNumber, TParameter
 
@@ -194,6 +195,12 @@ class U(ParametricBlock):
     def n_qubits(self) -> int:
         return 1
 
+    def dagger(self) -> U:
+        phi, theta, omega = (
+            extract_original_param_entry(p) for p in self.parameters.expressions()
+        )
+        return U(self.qubit_support[0], -omega, -theta, -phi, self.noise)
+
     def digital_decomposition(self) -> AbstractBlock:
         return chain(
             RZ(self.qubit_support[0], self.parameters.phi),
-- 
2.43.0


From b1235a51246edbb2b012e6024a10284658fc78c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:44 +0000
Subject: [PATCH 06/58] fix: adjoint of non-hermitian projector and matrix
 blocks

---
 qadence/blocks/matrix.py    | 5 +++++
 qadence/blocks/primitive.py | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 440d5fb..e5d43f0 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -90,6 +90,11 @@ class MatrixBlock(PrimitiveBlock):
             raise ValueError("Provided matrix does not match the qubit_support length.")
         super().__init__(qubit_support, noise)
 
+    def dagger(self) -> MatrixBlock:
+        return MatrixBlock(
+            self.matrix.t().conj(), self.qubit_support, self.noise, check_unitary=False
+        )
+
     @cached_property
     def eigenvalues_generator(self) -> torch.Tensor:
         return torch.log(self.eigenvalues) * 1j
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 44a58ac..2b090be 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -548,3 +548,10 @@ class ProjectorBlock(PrimitiveBlock):
         self.ket = ket
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
+
+    def dagger(self) -> ProjectorBlock:
+        if self.ket == self.bra:
+            return self
+        blk = deepcopy(self)
+        blk.ket, blk.bra = self.bra, self.ket
+        return blk
-- 
2.43.0


From 1a212b7970c9d80a7e8a53b99d5cadfaf987a96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:44 +0000
Subject: [PATCH 07/58] fix: adjoint of HamEvo keeps its qubit support,
 duration and noise operators

---
 qadence/operations/ham_evo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index c796f02..ab6b6a9 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -202,7 +202,13 @@ class HamEvo(TimeEvolutionBlock):
 
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
-        return HamEvo(deepcopy(self.generator), -extract_original_param_entry(p))
+        return HamEvo(
+            deepcopy(self.generator),
+            -extract_original_param_entry(p),
+            qubit_support=self.qubit_support,
+            duration=self.duration,
+            noise_operators=self.noise_operators,
+        )
 
     def digital_decomposition(self, approximation: LTSOrder = LTSOrder.ST4) -> AbstractBlock:
         """Decompose the Hamiltonian evolution into digital gates.
-- 
2.43.0


From 69a010ffb72473802bbd3f830468657c2da28bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:19 +0000
Subject: [PATCH 08/58] fix: names of fixed parameters are unique and parseable

---
 qadence/parameters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index ff0362c..324e4cc 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -289,8 +289,9 @@ def stringify(expr: Basic) -> str:
         return str(np.array(expr.tolist())).replace(".", "_")
     else:
         if expr.is_number:
-            expr_hash = hash(sympy_to_numeric(expr))
-            name = "fix_" + str(expr_hash)
+            # one identifier per number: hashes are not unique, e.g. hash(-1) == hash(-2)
+            digits = str(sympy_to_numeric(expr)).strip("()")
+            name = "fix_" + digits.translate(str.maketrans({"-": "m", "+": "p", ".": "_"}))
         else:
             name = str(expr).replace(".", "_")
         return name
-- 
2.43.0


From 0baa6f98969a00bc18b4326bdc8cf26f396bba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:17 +0000
Subject: [PATCH 09/58] fix: adjoint of blocks scaled by a parameter

---
 qadence/parameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 324e4cc..d5951a8 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -9,7 +9,6 @@ import numpy as np
 import sympy
 from sympy import *
 from sympy import Array, Basic, Expr, Symbol, sympify
-from sympy.physics.quantum.dagger import Dagger
 from sympytorch import SymPyModule as torchSympyModule
 from torch import Tensor, heaviside, no_grad, rand, tensor
 
@@ -20,7 +19,11 @@ __all__ = ["FeatureParameter", "Parameter", "VariationalParameter", "ParamMap",
 
 logger = getLogger(__name__)
 
-dagger_expression = Dagger
+
+def dagger_expression(expr: Basic) -> Basic:
+    """Complex conjugate of an expression, whose parameters are always real."""
+    return sympify(expr).xreplace({sympy.I: -sympy.I})
+
 
 ParameterJSONSchema = {
     "$schema": "http://json-schema.org/draft-07/schema#",
-- 
2.43.0


From aff3a90d07cc16675dc61d7f64d419f85a626edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:36 +0000
Subject: [PATCH 10/58] fix: repeating a parametric block keeps its parameter
 expression

---
 qadence/blocks/primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 2b090be..ff752ba 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -179,7 +179,7 @@ class ParametricBlock(PrimitiveBlock):
             B = type(self)
             (start,) = self.qubit_support
             (param,) = self.parameters.expressions()
-            return repeat(B, range(start, start + other), stringify(param))
+            return repeat(B, range(start, start + other), extract_original_param_entry(param))
         else:
             raise ValueError(f"PrimitiveBlocks cannot use ^ on type {type(other)}")
 
-- 
2.43.0


From 2c922f279c3c2264b939df7356c1f629f8a700c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:45 +0000
Subject: [PATCH 11/58] fix: variational parameters with an integer value

---
 qadence/blocks/embedding.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/blocks/embedding.py b/qadence/blocks/embedding.py
index 4fa6fab..785e216 100644
--- a/qadence/blocks/embedding.py
+++ b/qadence/blocks/embedding.py
@@ -37,6 +37,8 @@ def _concretize_parameter(engine: Engine) -> Callable:
     else:
 
         def concretize_parameter(value: TNumber, trainable: bool = False) -> ArrayLike:
+            if trainable and isinstance(value, int):
+                value = float(value)
             return tensor([value], requires_grad=trainable)
 
     return concretize_parameter
-- 
2.43.0


From 36196ceca6996eb651656beb29796320372b91b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:38 +0000
Subject: [PATCH 12/58] fix: shape of adjoint expectations of several
 observables

---
 qadence/engines/torch/differentiable_expectation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index febc13b..392bc63 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -162,7 +162,7 @@ class DifferentiableExpectation:
             )  # we expect (batch_size, n_observables) shape
 
         expectation_list = [expectation_fn(i) for i in range(len(self.observable))]
-        return torch.vstack(expectation_list)
+        return torch.hstack(expectation_list)
 
     def psr(self, psr_fn: Callable, **psr_args: int | float | None) -> Tensor:
         # wrapper which unpacks the parameters
-- 
2.43.0


From cb4c79f6a5bc357826f8302b0168bd99faeb78ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:22 +0000
Subject: [PATCH 13/58] fix: relabelling qubits of HamEvo and controlled blocks

---
 qadence/transpile/invert.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index 5b49f04..1eb5590 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -21,12 +21,16 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
     """
     from qadence.blocks import CompositeBlock, ControlBlock, ParametricControlBlock, ScaleBlock
     from qadence.blocks.utils import _construct
+    from qadence.operations import HamEvo
 
     def _block_with_updated_support(block: AbstractBlock) -> AbstractBlock:
         if isinstance(block, ControlBlock) or isinstance(block, ParametricControlBlock):
             old_qs = block.qubit_support
             new_control_block = deepcopy(block)
             new_control_block._qubit_support = tuple(qubit_map[i] for i in old_qs)
+            new_control_block.control = tuple(qubit_map[i] for i in block.control)
+            if isinstance(block, ControlBlock):
+                new_control_block.target = tuple(qubit_map[i] for i in block.target)
             (subblock,) = block.blocks
             new_control_block.blocks = (reassign(subblock, qubit_map),)  # type: ignore [assignment]
             return new_control_block
@@ -43,6 +47,12 @@ def reassign(block: AbstractBlock, qubit_map: dict[int, int]) -> AbstractBlock:
             blk = deepcopy(block)  # type: ignore [assignment]
             qs = tuple(qubit_map[i] for i in block.qubit_support)
             blk._qubit_support = qs  # type: ignore[attr-defined]
+            if isinstance(block, HamEvo):
+                if isinstance(block.generator, AbstractBlock):
+                    blk.generator = _block_with_updated_support(block.generator)  # type: ignore [attr-defined]
+                blk.noise_operators = [  # type: ignore [attr-defined]
+                    _block_with_updated_support(op) for op in block.noise_operators
+                ]
             return blk
 
     return _block_with_updated_support(block)
-- 
2.43.0


From 0e652d8f1602282b01bc8534153eb1dcbfc3a485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:22 +0000
Subject: [PATCH 14/58] fix: digital decomposition of Pauli exponentials

---
 qadence/decompose.py | 130 +++++++++++++++++++++++++++++++------------
 1 file changed, 94 insertions(+), 36 deletions(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index d26d56b..17967da 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -8,7 +8,7 @@ from typing import Any, List, Tuple, Union
 import sympy
 
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
+from qadence.blocks.utils import unroll_block_with_scaling
 from qadence.parameters import Parameter, evaluate
 
 # from qadence.types import TNumber, TParameter
@@ -91,7 +91,8 @@ def lie_trotter_suzuki(
         if order == Order.ST2:  # Suzuki-Trotter 2nd order
             outer = decompose_pauli_exp(block_list[:-1], Parameter(t_delta / 2.0))
             inner = decompose_pauli_exp([block_list[-1]], Parameter(t_delta))
-            return (outer + inner + list(reversed(outer))) * t_steps
+            outer_rev = decompose_pauli_exp(block_list[-2::-1], Parameter(t_delta / 2.0))
+            return (outer + inner + outer_rev) * t_steps
 
         else:  # Suzuki-Trotter 4th order
             p2 = (4 - 4 ** (1 / 3)) ** -1  # minimises the 'ideal' error in the recursive formula
@@ -102,46 +103,103 @@ def lie_trotter_suzuki(
             return (2 * outer + inner + outer * 2) * t_steps
 
 
+def _pauli_strings(block: AbstractBlock) -> list[tuple[dict[int, str], Any]]:
+    """Expand a product of Pauli operators into a sum of weighted Pauli strings.
+
+    Each string maps the qubits on which it acts to 'X', 'Y' or 'Z': identities are left out
+    and number operators are replaced with N = (I - Z) / 2.
+    """
+
+    # import here due to circular import issue
+    from qadence.blocks import AddBlock, ChainBlock, KronBlock, ScaleBlock
+    from qadence.operations import I, N, X, Y, Z
+
+    if isinstance(block, ScaleBlock):
+        return [(string, coeff * block.scale) for string, coeff in _pauli_strings(block.block)]
+    elif isinstance(block, AddBlock):
+        return flatten([_pauli_strings(b) for b in block.blocks])
+    elif isinstance(block, (ChainBlock, KronBlock)):
+        product: list[tuple[dict[int, str], Any]] = [({}, 1)]
+        # operators in a chain are applied from left to right
+        for b in reversed(block.blocks):
+            product = [
+                _multiply_strings(left, right)
+                for left, right in itertools.product(product, _pauli_strings(b))
+            ]
+        return product
+
+    (qubit,) = block.qubit_support
+    if isinstance(block, N):
+        return [({}, 0.5), ({qubit: "Z"}, -0.5)]
+    elif isinstance(block, I):
+        return [({}, 1)]
+    elif isinstance(block, X):
+        return [({qubit: "X"}, 1)]
+    elif isinstance(block, Y):
+        return [({qubit: "Y"}, 1)]
+    elif isinstance(block, Z):
+        return [({qubit: "Z"}, 1)]
+    raise NotImplementedError(f"{block.name} is not a Pauli operation")
+
+
+def _multiply_strings(
+    left: tuple[dict[int, str], Any], right: tuple[dict[int, str], Any]
+) -> tuple[dict[int, str], Any]:
+    string, coeff = dict(left[0]), left[1] * right[1]
+    for qubit, pauli in right[0].items():
+        other = string.pop(qubit, None)
+        if other is None:
+            string[qubit] = pauli
+        elif other != pauli:
+            coeff = coeff * (sympy.I if other + pauli in ("XY", "YZ", "ZX") else -sympy.I)
+            string[qubit] = ({"X", "Y", "Z"} - {other, pauli}).pop()
+    return string, coeff
+
+
 def decompose_pauli_exp(block_list: list, parameter: Parameter | sympy.Expr) -> list[AbstractBlock]:
     """A simple function to do decompositions of Pauli exponential operators into digital gates."""
 
     # import here due to circular import issue
-    from qadence.operations import CNOT, RZ
+    from qadence.operations import CNOT, PHASE, RZ, X, Y, Z
 
-    blocks = []
+    paulis = {"X": X, "Y": Y, "Z": Z}
+    blocks: list[AbstractBlock] = []
 
     for bl, scale in block_list:
-        # extract Pauli operations and raise an error in case
-        # a non-Pauli operation is found since it cannot be
-        # decomposed
-        n_blocks = len(get_pauli_blocks(bl))
-
-        # ensure that we keep the parameter as trainable
-        fact = 2.0 * parameter * scale
-
-        blist: list[AbstractBlock] = bl if n_blocks >= 2 else [bl]  # type: ignore[assignment]
-        indx = [b.qubit_support[0] for b in blist]
-        ztarget = max(indx)
-
-        cnot_sequence = [CNOT(i, i + 1) for i in range(min(indx), max(indx))]
-        basis_fwd = [change_to_z_basis(blist[i], 1) for i in range(len(blist))]
-        rot = [RZ(parameter=Parameter(fact), target=ztarget)]
-        basis_bkd = [change_to_z_basis(blist[i], -1) for i in range(len(blist) - 1, -1, -1)]
-
-        # NOTE
-        # perform the following operations in sequence to perform the decomposition of a
-        # polynomial Pauli term, for more details, see: https://arxiv.org/abs/1001.3855
-        # - change to Z basis for all the needed qubit operators
-        # - apply a CNOT ladder on the full qubit support where operators are acting
-        # - apply a RZ rotation on the last qubit
-        # - apply the reverse CNOT ladder
-        # - go back to the original basis
-        blocks.extend(
-            flatten(basis_fwd)
-            + cnot_sequence
-            + rot
-            + list(reversed(cnot_sequence))
-            + flatten(basis_bkd)
-        )
+        for string, coeff in _pauli_strings(bl):
+            # ensure that we keep the parameter as trainable
+            fact = 2.0 * parameter * scale * coeff
+
+            if len(string) == 0:
+                # a multiple of the identity only gives a global phase
+                qubit = bl.qubit_support[0]
+                phase = PHASE(qubit, Parameter(-0.5 * fact))
+                blocks.extend([phase, X(qubit), phase, X(qubit)])
+                continue
+
+            indx = sorted(string)
+            blist = [paulis[string[i]](i) for i in indx]
+            ztarget = max(indx)
+
+            cnot_sequence = [CNOT(i, j) for i, j in zip(indx[:-1], indx[1:])]
+            basis_fwd = [change_to_z_basis(b, 1) for b in blist]
+            rot = [RZ(parameter=Parameter(fact), target=ztarget)]
+            basis_bkd = [change_to_z_basis(b, -1) for b in reversed(blist)]
+
+            # NOTE
+            # perform the following operations in sequence to perform the decomposition of a
+            # polynomial Pauli term, for more details, see: https://arxiv.org/abs/1001.3855
+            # - change to Z basis for all the needed qubit operators
+            # - apply a CNOT ladder on the qubits where operators are acting
+            # - apply a RZ rotation on the last qubit
+            # - apply the reverse CNOT ladder
+            # - go back to the original basis
+            blocks.extend(
+                flatten(basis_fwd)
+                + cnot_sequence
+                + rot
+                + list(reversed(cnot_sequence))
+                + flatten(basis_bkd)
+            )
 
     return blocks
-- 
2.43.0


From 9ad1632526b7d0aab4b203b6f594a3e6f01b853e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:28 +0000
Subject: [PATCH 15/58] fix: little-endian expectation values

---
 qadence/backends/pyqtorch/backend.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 8ade90e..8e7f6bf 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -198,7 +198,6 @@ class Backend(BackendInterface):
             circuit,
             param_values=param_circuit,
             state=state,
-            endianness=endianness,
             pyqify_state=True,
             # we are calling  the native observable directly, so we want to use pyq shapes
             unpyqify_state=False,
@@ -243,9 +242,7 @@ class Backend(BackendInterface):
         for vals_circ, vals_obs in zip(
             to_list_of_dicts(param_circuits), to_list_of_dicts(param_observables)
         ):
-            wf = self.run(
-                circuit, vals_circ, state, endianness, pyqify_state=True, unpyqify_state=False
-            )
+            wf = self.run(circuit, vals_circ, state, pyqify_state=True, unpyqify_state=False)
             exs = torch.cat([obs.native.expectation(wf, vals_obs) for obs in observables], 0)
             list_expvals.append(exs)
 
-- 
2.43.0


From fe6de2c09c525c7008b5f15723eea345c4452c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:28 +0000
Subject: [PATCH 16/58] fix: little-endian density matrices

---
 qadence/transpile/invert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/transpile/invert.py b/qadence/transpile/invert.py
index 1eb5590..b902e01 100644
--- a/qadence/transpile/invert.py
+++ b/qadence/transpile/invert.py
@@ -6,6 +6,7 @@ from functools import singledispatch
 from typing import Any, overload
 
 import numpy as np
+from pyqtorch.utils import DensityMatrix
 from torch import Tensor, tensor
 
 from qadence.blocks import AbstractBlock
@@ -116,6 +117,8 @@ def _(wf: Tensor) -> Tensor:
     n_qubits = int(np.log2(wf.shape[1]))
     ls = list(range(2**n_qubits))
     permute_ind = tensor([int(f"{num:0{n_qubits}b}"[::-1], 2) for num in ls])
+    if isinstance(wf, DensityMatrix):
+        return wf[:, permute_ind][:, :, permute_ind]
     return wf[:, permute_ind]
 
 
-- 
2.43.0


From ef03bdddbdf51307e5f1b62b866d01cc23e3efd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:16 +0000
Subject: [PATCH 17/58] fix: merging single qubit chains that contain a
 Hamiltonian evolution

---
 qadence/backends/pyqtorch/convert_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index c87f336..bc2c3f0 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -74,7 +74,7 @@ def is_single_qubit_chain(block: AbstractBlock) -> bool:
         isinstance(block, (ChainBlock))
         and block.n_supports == 1
         and all([isinstance(b, (ParametricBlock, PrimitiveBlock)) for b in block])
-        and not any([isinstance(b, (ScaleBlock, U)) for b in block])
+        and not any([isinstance(b, (ScaleBlock, TimeEvolutionBlock, U)) for b in block])
     )
 
 
-- 
2.43.0


From 8e4af3596e3bfba2fd913c0c83c1159b5ff9796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:51 +0000
Subject: [PATCH 18/58] fix: deserialization of parametric and controlled gates

---
 qadence/blocks/primitive.py       | 45 +++++++++++++++++++++----------
 qadence/operations/control_ops.py |  4 +++
 2 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index ff752ba..f9b6f4f 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from abc import abstractmethod
 from copy import deepcopy
-from typing import Any, Iterable, Tuple
+from typing import Any, Iterable, Sequence, Tuple
 
 import sympy
 import torch
@@ -20,7 +20,7 @@ from qadence.parameters import (
     extract_original_param_entry,
     stringify,
 )
-from qadence.types import TParameter
+from qadence.types import OpName, TParameter
 
 
 class PrimitiveBlock(AbstractBlock):
@@ -212,8 +212,13 @@ class ParametricBlock(PrimitiveBlock):
     @classmethod
     def _from_dict(cls, d: dict) -> ParametricBlock:
         params = ParamMap._from_dict(d["parameters"])
-        target = d["qubit_support"][0]
-        return cls(target, params, NoiseHandler._from_dict(d.get("noise")))  # type: ignore[call-arg, arg-type]
+        block = cls(
+            *d["qubit_support"],
+            *params.expressions(),
+            NoiseHandler._from_dict(d.get("noise")),
+        )  # type: ignore[call-arg, arg-type]
+        block.parameters = params
+        return block
 
     def dagger(self) -> ParametricBlock:
         exprs = self.parameters.expressions()
@@ -362,6 +367,12 @@ class TimeEvolutionBlock(ParametricBlock):
         return not isinstance(self.generator, AbstractBlock)
 
 
+def _control_argument(cls: type, control: Sequence[int]) -> int | tuple[int, ...]:
+    """The control qubits in the form in which the constructor of a gate expects them."""
+    multi_controlled = cls.name.startswith("MC") or cls.name == OpName.TOFFOLI  # type: ignore[attr-defined]
+    return tuple(control) if multi_controlled else control[0]
+
+
 class ControlBlock(PrimitiveBlock):
     """The abstract ControlBlock."""
 
@@ -417,9 +428,12 @@ class ControlBlock(PrimitiveBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ControlBlock:
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        return cls(control, target, NoiseHandler._from_dict(d.get("noise")))
+        *control, target = d["qubit_support"]
+        return cls(
+            _control_argument(cls, control),
+            target,
+            NoiseHandler._from_dict(d.get("noise")),
+        )  # type: ignore[arg-type]
 
     def dagger(self) -> ControlBlock:
         blk = deepcopy(self)
@@ -478,13 +492,16 @@ class ParametricControlBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ParametricControlBlock:
-        from qadence.serialization import deserialize
-
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        targetblock = d["blocks"][0]
-        expr = deserialize(targetblock["parameters"])
-        block = cls(control, target, NoiseHandler._from_dict(d.get("noise")), expr)  # type: ignore[call-arg]
+        *control, target = d["qubit_support"]
+        params = ParamMap._from_dict(d["blocks"][0]["parameters"])
+        block = cls(
+            _control_argument(cls, control),
+            target,
+            *params.expressions(),
+            NoiseHandler._from_dict(d.get("noise")),
+        )  # type: ignore[call-arg, arg-type]
+        block.parameters = params
+        block.blocks[0].parameters = params
         return block
 
     @property
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index ddc1532..a78b16f 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -312,6 +312,10 @@ class CSWAP(ControlBlock):
         self.generator = no_effect + swap_effect
         super().__init__((control,), SWAP(target1, target2), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> CSWAP:
+        return cls(*d["qubit_support"], NoiseHandler._from_dict(d.get("noise")))
+
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.tensor((1, -1, 1, 1, 1, 1, 1, 1), dtype=torch.cdouble)
-- 
2.43.0


From 484f393d4e2c497da9cb3e476e3e7d78759b8835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:51 +0000
Subject: [PATCH 19/58] fix: serialization and equality of projectors

---
 qadence/blocks/primitive.py     | 14 ++++++++++++++
 qadence/operations/primitive.py |  4 ++++
 2 files changed, 18 insertions(+)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index f9b6f4f..f88fa0b 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -566,6 +566,20 @@ class ProjectorBlock(PrimitiveBlock):
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
 
+    def __eq__(self, other: object) -> bool:
+        return super().__eq__(other) and (self.ket, self.bra) == (other.ket, other.bra)  # type: ignore[attr-defined]
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
+    def _to_dict(self) -> dict:
+        return {**super()._to_dict(), "ket": self.ket, "bra": self.bra}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> ProjectorBlock:
+        noise = NoiseHandler._from_dict(d.get("noise"))
+        return cls(d["ket"], d["bra"], tuple(d["qubit_support"]), noise)
+
     def dagger(self) -> ProjectorBlock:
         if self.ket == self.bra:
             return self
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 0b94284..c060551 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -164,6 +164,10 @@ class N(Projector):
     ) -> None:
         super().__init__(ket=state, bra=state, qubit_support=(target,), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> N:
+        return cls(*d["qubit_support"], d["ket"], NoiseHandler._from_dict(d.get("noise")))
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
-- 
2.43.0


From b932293108d82f5b246d4d0c52daa6d61b318397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:51 +0000
Subject: [PATCH 20/58] fix: serialization and equality of matrix blocks

---
 qadence/blocks/matrix.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index e5d43f0..f34fc25 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -90,6 +90,26 @@ class MatrixBlock(PrimitiveBlock):
             raise ValueError("Provided matrix does not match the qubit_support length.")
         super().__init__(qubit_support, noise)
 
+    def __eq__(self, other: object) -> bool:
+        return super().__eq__(other) and torch.equal(self.matrix, other.matrix)  # type: ignore[attr-defined]
+
+    def __hash__(self) -> int:
+        return super().__hash__()
+
+    def _to_dict(self) -> dict:
+        m = self.matrix.to(torch.cdouble)
+        return {**super()._to_dict(), "matrix": [m.real.tolist(), m.imag.tolist()]}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> MatrixBlock:
+        real, imag = (torch.tensor(x, dtype=torch.double) for x in d["matrix"])
+        return cls(
+            torch.complex(real, imag),
+            tuple(d["qubit_support"]),
+            NoiseHandler._from_dict(d.get("noise")),
+            check_unitary=False,
+        )
+
     def dagger(self) -> MatrixBlock:
         return MatrixBlock(
             self.matrix.t().conj(), self.qubit_support, self.noise, check_unitary=False
-- 
2.43.0


From bba87906b2e1ca047ada26653e7f55c4dc3825dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:08 +0000
Subject: [PATCH 21/58] fix: constants and exponents in serialized expressions

---
 qadence/serial_expr_grammar.peg | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qadence/serial_expr_grammar.peg b/qadence/serial_expr_grammar.peg
index 716c7b5..40cd493 100644
--- a/qadence/serial_expr_grammar.peg
+++ b/qadence/serial_expr_grammar.peg
@@ -1,11 +1,12 @@
-Program = expr EOF
+Program = (expr / const) EOF
 expr = id '(' args ')'
 args = (value / expr) (',' (value / expr))*
-value = int / float_str / str / pair
+value = int / float_str / str / pair / const
+const = r"(pi|E|I)\b(?!\s*\()"
 pair = param '=' (int / bool / str)
 param = r"[a-z][a-zA-Z]*"
 id = r"[a-zA-Z][a-zA-Z_0-9]*"
 bool = 'True' / 'False'
 int = r"-?(0|[1-9][0-9]*)"
-float_str = r"'-?(0|\d*(\.\d*))'"
+float_str = r"'-?(0|\d*(\.\d*))([eE][-+]?\d+)?'"
 str = r"'[a-zA-Z0-9\_\.]+'"
-- 
2.43.0


From d33bebd174fc4b75363e2627179d20d1c7cc7b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:08 +0000
Subject: [PATCH 22/58] fix: trainability of deserialized parameters

---
 qadence/serialization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index 8d0f237..fa6350d 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -210,7 +210,9 @@ class ExpressionSerialization(SerializationModel):
             expr = eval(self.d["expression"])
             if hasattr(expr, "free_symbols"):
                 for s in expr.free_symbols:
-                    s.value = float(self.d["symbols"][s.name]["value"])
+                    symbol = self.d["symbols"][s.name]
+                    s.value = float(symbol["value"])
+                    s.trainable = symbol["trainable"] == "True"
             self.value = expr
         else:
             raise ValueError(f"Invalid expression: {self.d['expression']}")
-- 
2.43.0


From b48685507d884759993555c0ff994523cccad3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:50 +0000
Subject: [PATCH 23/58] fix: serialization of Hamiltonian evolutions

---
 qadence/operations/ham_evo.py | 39 +++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index ab6b6a9..47ef586 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -173,6 +173,45 @@ class HamEvo(TimeEvolutionBlock):
     def num_parameters(cls) -> int:
         return 2
 
+    def _to_dict(self) -> dict:
+        from qadence.serialization import serialize
+
+        generator: dict
+        if isinstance(self.generator, Tensor):
+            matrix = self.generator.detach().to(torch.cdouble)
+            generator = {"matrix": [matrix.real.tolist(), matrix.imag.tolist()]}
+        else:
+            generator = serialize(self.generator)  # type: ignore[arg-type]
+        params = {"parameter": self.parameters.parameter}
+        if self.duration is not None:
+            params["duration"] = self.parameters.duration
+        return {
+            "type": type(self).__name__,
+            "qubit_support": self.qubit_support,
+            "tag": self.tag,
+            "generator": generator,
+            "parameters": {name: serialize(expr) for name, expr in params.items()},
+            "noise_operators": [op._to_dict() for op in self.noise_operators],
+        }
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> HamEvo:
+        from qadence.serialization import deserialize
+
+        if "matrix" in d["generator"]:
+            real, imag = (torch.tensor(m, dtype=torch.double) for m in d["generator"]["matrix"])
+            generator = torch.complex(real, imag)
+        else:
+            generator = deserialize(d["generator"])
+        params = {name: deserialize(expr) for name, expr in d["parameters"].items()}
+        return cls(
+            generator,
+            params["parameter"],
+            qubit_support=tuple(d["qubit_support"]),
+            duration=params.get("duration"),
+            noise_operators=[deserialize(op) for op in d["noise_operators"]],
+        )
+
     @cached_property
     def eigenvalues_generator(
         self, max_num_evals: int | None = None, max_num_gaps: int | None = None
-- 
2.43.0


From d97780e8a202d8d9fea44fefc1af77b28f240b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:54 +0000
Subject: [PATCH 24/58] fix: noise protocols read from text

---
 qadence/noise/protocols.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index ea3d6d4..d3a3e5c 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -141,9 +141,22 @@ class NoiseHandler:
     @classmethod
     def _from_dict(cls, d: dict | None) -> NoiseHandler | None:
         if d is not None and d.get("protocol", None):
-            return cls(d["protocol"], d["options"])
+            protocols = [
+                cls._protocol_from_str(protocol, option)
+                for protocol, option in zip(d["protocol"], d["options"])
+            ]
+            return cls(protocols, d["options"])
         return None
 
+    @staticmethod
+    def _protocol_from_str(protocol: str, option: dict) -> NoiseEnum:
+        """The protocol for its name, e.g. after reading it from a file."""
+        if protocol in NoiseProtocol.READOUT.list():
+            return NoiseProtocol.READOUT(protocol)
+        if "noise_probs" in option:
+            return NoiseProtocol.ANALOG(protocol)
+        return NoiseProtocol.DIGITAL(protocol)
+
     @classmethod
     def list(cls) -> list:
         return list(filter(lambda el: not el.startswith("__"), dir(cls)))
-- 
2.43.0


From 473ff18411c4f27679019a6ad05a1ea049419be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:54 +0000
Subject: [PATCH 25/58] fix: deserialization of measurement protocols

---
 qadence/measurements/protocols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/measurements/protocols.py b/qadence/measurements/protocols.py
index d0868b0..c8d2542 100644
--- a/qadence/measurements/protocols.py
+++ b/qadence/measurements/protocols.py
@@ -34,5 +34,5 @@ class Measurements:
     @classmethod
     def _from_dict(cls, d: dict) -> Measurements | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
-- 
2.43.0


From ce01a66c7c0121cbb38d340da9dbabe43c0073fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:54 +0000
Subject: [PATCH 26/58] fix: serialization of models without observables

---
 qadence/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qadence/model.py b/qadence/model.py
index a9a4d8a..2293ec0 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -470,10 +470,9 @@ class QuantumModel(nn.Module):
         """
         d = dict()
         try:
+            abs_obs: list[dict] | dict = dict()
             if isinstance(self._observable, list):
                 abs_obs = [obs.abstract._to_dict() for obs in self._observable]
-            else:
-                abs_obs = [dict()]
 
             d = {
                 "circuit": self._circuit.abstract._to_dict(),
-- 
2.43.0


From 3f7ed0ce858323204ac5882e961bb26c6c4459fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:31 +0000
Subject: [PATCH 27/58] fix: parameter values of deserialized models

---
 qadence/ml_tools/models.py | 4 +++-
 qadence/model.py           | 4 +++-
 qadence/serialization.py   | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 098a5ef..1427258 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -492,7 +492,9 @@ class QNN(QuantumModel):
                 conv_pd = nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = nn.Parameter(param)
+                    conv_pd[n] = nn.Parameter(
+                        param.detach().clone(), requires_grad=param.requires_grad
+                    )
                 qnn._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/model.py b/qadence/model.py
index 2293ec0..67bf771 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -528,7 +528,9 @@ class QuantumModel(nn.Module):
                 conv_pd = torch.nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = torch.nn.Parameter(param)
+                    conv_pd[n] = torch.nn.Parameter(
+                        param.detach().clone(), requires_grad=param.requires_grad
+                    )
                 qm._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/serialization.py b/qadence/serialization.py
index fa6350d..a5229ee 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -480,4 +480,4 @@ def load(file_path: str | Path, map_location: str = "cpu") -> SUPPORTED_TYPES:
         logger.debug(f"Successfully loaded {d} from {file_path}.")
     except Exception as e:
         logger.error(f"Unable to load Object from {file_path} due to {e}")
-    return deserialize(d)
+    return deserialize(d, as_torch=bool(d.get("param_dict")))
-- 
2.43.0


From ea4ac27f0cab1d16d85f2780fe90632012507b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:12 +0000
Subject: [PATCH 28/58] fix: deserialization of devices with an addressing
 pattern

---
 qadence/analog/addressing.py | 6 +++++-
 qadence/analog/device.py     | 3 +--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/qadence/analog/addressing.py b/qadence/analog/addressing.py
index b42c1be..debd9c3 100644
--- a/qadence/analog/addressing.py
+++ b/qadence/analog/addressing.py
@@ -169,4 +169,8 @@ class AddressingPattern:
 
     @classmethod
     def _from_dict(cls, d: dict) -> AddressingPattern | None:
-        return cls(**d) if len(d) > 0 else None
+        if len(d) == 0:
+            return None
+        # json turns the qubit indices into strings
+        weights = {k: {int(q): w for q, w in d[k].items()} for k in ("weights_amp", "weights_det")}
+        return cls(**{**d, **weights})
diff --git a/qadence/analog/device.py b/qadence/analog/device.py
index adfc59f..ea9b1d3 100644
--- a/qadence/analog/device.py
+++ b/qadence/analog/device.py
@@ -69,8 +69,7 @@ class RydbergDevice:
     @classmethod
     def _from_dict(cls, d: dict) -> RydbergDevice:
         pattern = AddressingPattern._from_dict(d["pattern"])
-        d["pattern"] = pattern
-        return cls(**d)
+        return cls(**{**d, "pattern": pattern})
 
 
 def IdealDevice(pattern: AddressingPattern | None = None) -> RydbergDevice:
-- 
2.43.0


From ce51a76b414ff270dda5eb924e874d043359f0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:14 +0000
Subject: [PATCH 29/58] fix: equality of parametric blocks, sums and products

---
 qadence/blocks/composite.py   | 17 +++++++++++++++--
 qadence/blocks/primitive.py   | 15 ++++++++++-----
 qadence/operations/ham_evo.py | 25 +++++++++++++++++++++++++
 qadence/parameters.py         |  5 +++++
 4 files changed, 55 insertions(+), 7 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 62bf6ea..426a814 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -149,6 +149,19 @@ class CompositeBlock(AbstractBlock):
         return hash(self._to_json())
 
 
+def _same_blocks(blocks: Tuple[AbstractBlock, ...], others: Tuple[AbstractBlock, ...]) -> bool:
+    """Check that two collections contain the same blocks, in any order."""
+    remaining = list(others)
+    for b in blocks:
+        for i, other in enumerate(remaining):
+            if b == other:
+                del remaining[i]
+                break
+        else:
+            return False
+    return len(remaining) == 0
+
+
 class PutBlock(CompositeBlock):
     name = "put"
 
@@ -244,7 +257,7 @@ class KronBlock(CompositeBlock):
         if isinstance(other, KronBlock):
             if len(self.blocks) != len(other.blocks):
                 return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_blocks(self.blocks, other.blocks)
         return False
 
 
@@ -269,5 +282,5 @@ class AddBlock(CompositeBlock):
         if isinstance(other, AddBlock):
             if len(self.blocks) != len(other.blocks):
                 return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_blocks(self.blocks, other.blocks)
         return False
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index f88fa0b..0598154 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -18,6 +18,7 @@ from qadence.parameters import (
     dagger_expression,
     evaluate,
     extract_original_param_entry,
+    same_expression,
     stringify,
 )
 from qadence.types import OpName, TParameter
@@ -187,8 +188,13 @@ class ParametricBlock(PrimitiveBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            return self.qubit_support == other.qubit_support and self.parameters.parameter.equals(
-                other.parameters.parameter
+            if self.qubit_support != other.qubit_support:
+                return False
+            if self.parameters.names() != other.parameters.names():
+                return False
+            return all(
+                same_expression(p, q)
+                for p, q in zip(self.parameters.expressions(), other.parameters.expressions())
             )
         return False
 
@@ -300,9 +306,8 @@ class ScaleBlock(ParametricBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         elif isinstance(other, ScaleBlock):
-            return (
-                self.block == other.block
-                and self.parameters.parameter == other.parameters.parameter
+            return self.block == other.block and same_expression(
+                self.parameters.parameter, other.parameters.parameter
             )
         return False
 
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 47ef586..4859028 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -25,6 +25,7 @@ from qadence.parameters import (
     ParamMap,
     evaluate,
     extract_original_param_entry,
+    same_expression,
 )
 from qadence.types import LTSOrder, OpName, TGenerator, TParameter
 
@@ -169,6 +170,30 @@ class HamEvo(TimeEvolutionBlock):
                 raise ValueError("Parametric operators are not supported")
         self.noise_operators = noise_operators
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, AbstractBlock):
+            raise TypeError(f"Cant compare {type(self)} to {type(other)}")
+        if not isinstance(other, HamEvo):
+            return False
+        if self.qubit_support != other.qubit_support or type(self.generator) != type(
+            other.generator
+        ):
+            return False
+        if isinstance(self.generator, Tensor):
+            same_generator = torch.equal(self.generator, other.generator)
+        else:
+            same_generator = self.generator == other.generator
+        return (
+            same_generator
+            and (self.duration is None) == (other.duration is None)
+            and (
+                self.duration is None
+                or same_expression(self.parameters.duration, other.parameters.duration)
+            )
+            and same_expression(self.parameters.parameter, other.parameters.parameter)
+            and self.noise_operators == other.noise_operators
+        )
+
     @classmethod
     def num_parameters(cls) -> int:
         return 2
diff --git a/qadence/parameters.py b/qadence/parameters.py
index d5951a8..7f00bef 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -300,6 +300,11 @@ def stringify(expr: Basic) -> str:
         return name
 
 
+def same_expression(expr: Basic, other: Basic) -> bool:
+    """Check that two expressions are the same function of their symbols."""
+    return bool((expr - other).equals(0))
+
+
 class ParamMap:
     """Connects UUIDs of parameters to their expressions and names.
 
-- 
2.43.0


From c951bff2b5fa9558e6c84aeaa10079bb2bf674bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:14 +0000
Subject: [PATCH 30/58] fix: equality of noise handlers

---
 qadence/noise/protocols.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index d3a3e5c..ed23559 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -126,9 +126,7 @@ class NoiseHandler:
         if not isinstance(other, NoiseHandler):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            protocols_equal = all([p1 == p2 for p1, p2 in zip(self.protocol, other.protocol)])
-            options_equal = all([o1 == o2 for o1, o2 in zip(self.options, other.options)])
-            return protocols_equal and options_equal
+            return self.protocol == other.protocol and self.options == other.options
 
         return False
 
-- 
2.43.0


From 6d2fd867961f1c971d25d3f74efa2b1fd4444db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:23 +0000
Subject: [PATCH 31/58] fix: coordinates of deserialized registers

---
 qadence/register.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/register.py b/qadence/register.py
index 795d5c7..f22053a 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -346,6 +346,7 @@ class Register:
 
         return cls(
             support=nx.node_link_graph(d["graph"]),
+            spacing=None,
             device_specs=RydbergDevice._from_dict(device_dict),
         )
 
-- 
2.43.0


From 824a3029105d57d9dfdb4dd46f96bbf68bbd7567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:28 +0000
Subject: [PATCH 32/58] fix: overlap of circuits of which only one has a
 feature parameter

---
 qadence/overlap.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qadence/overlap.py b/qadence/overlap.py
index b8f1830..9561d13 100644
--- a/qadence/overlap.py
+++ b/qadence/overlap.py
@@ -398,6 +398,14 @@ class Overlap(QuantumModel):
         elif len(self.bra_feat_param_names.union(self.ket_feat_param_names)) < 2:
             if batch_size_bra == batch_size_ket or batch_size_bra == 0 or batch_size_ket == 0:
                 param_values = {"bra": bra_param_values, "ket": ket_param_values}
+                if self.method in [
+                    OverlapMethod.COMPUTE_UNCOMPUTE,
+                    OverlapMethod.SWAP_TEST,
+                    OverlapMethod.HADAMARD_TEST,
+                ]:
+                    # both bra and ket are part of the circuits that are simulated
+                    merged_values = {**ket_param_values, **bra_param_values}
+                    param_values = {"bra": merged_values, "ket": merged_values}
             else:
                 raise ValueError("Batch sizes of both bra and ket parameters must be equal.")
 
-- 
2.43.0


From fd36d462968d3a5127dcfe69639b6be5285f2dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:23 +0000
Subject: [PATCH 33/58] fix: periodic hardware efficient ansatz on an odd
 number of qubits

---
 qadence/constructors/hea.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index f12361b..999273b 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -211,6 +211,16 @@ def _entanglers_digital(
                     if n % 2
                 )
             )
+        if periodic and n_qubits > 2 and n_qubits % 2:
+            # an odd number of qubits: the last and the first one are linked in a layer of their own
+            ents.append(
+                _entangler(
+                    control=support[n_qubits - 1],
+                    target=support[0],
+                    param_str=param_prefix + f"_ent_{next(iterator)}",
+                    op=entangler,
+                )
+            )
         ent_list.append(chain(*ents))
     return ent_list
 
-- 
2.43.0


From 1f3cd75b009dedf3e19dec8ab2b2d6c0436dfb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:25 +0000
Subject: [PATCH 34/58] fix: ansatz layers without entanglers

---
 qadence/constructors/ala.py | 13 +++++++------
 qadence/constructors/hea.py |  4 +++-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/qadence/constructors/ala.py b/qadence/constructors/ala.py
index e7b5578..e1f20d1 100644
--- a/qadence/constructors/ala.py
+++ b/qadence/constructors/ala.py
@@ -147,7 +147,7 @@ def _entanglers_ala_block_digital(
     param_prefix: str = "theta",
     support: tuple[int, ...] | None = None,
     entangler: Type[DigitalEntanglers] = CNOT,
-) -> list[AbstractBlock]:
+) -> list[list[AbstractBlock]]:
     """
     Creates the entanglers for an Alternating Layer Ansatz.
 
@@ -165,12 +165,12 @@ def _entanglers_ala_block_digital(
     if support is None:
         support = tuple(range(n_qubits))
     iterator = itertools.count()
-    ent_list: list[AbstractBlock] = []
+    ent_list: list[list[AbstractBlock]] = []
 
     for d in range(depth):
         start_i = 0 if not d % 2 else -m_block_qubits // 2
         ents = [
-            kron(
+            [
                 _entangler(
                     control=support[i + j],
                     target=support[i + j + 1],
@@ -180,11 +180,11 @@ def _entanglers_ala_block_digital(
                 for j in range(start_j, m_block_qubits, 2)
                 for i in range(start_i, n_qubits, m_block_qubits)
                 if i + j + 1 < n_qubits and j + 1 < m_block_qubits and i + j >= 0
-            )
+            ]
             for start_j in [i for i in range(2) if m_block_qubits > 2 or i == 0]
         ]
 
-        ent_list.append(chain(*ents))
+        ent_list.append([kron(*layer) for layer in ents if layer])
     return ent_list
 
 
@@ -244,7 +244,8 @@ def ala_digital(
     layers = []
     for d in range(depth):
         layers.append(rot_list[d])
-        layers.append(ent_list[d])
+        if ent_list[d]:
+            layers.append(chain(*ent_list[d]))
 
     return tag(chain(*layers), "ALA")
 
diff --git a/qadence/constructors/hea.py b/qadence/constructors/hea.py
index 999273b..f7743d1 100644
--- a/qadence/constructors/hea.py
+++ b/qadence/constructors/hea.py
@@ -182,6 +182,8 @@ def _entanglers_digital(
     """
     if support is None:
         support = tuple(range(n_qubits))
+    if n_qubits < 2:
+        return []
     iterator = itertools.count()
     ent_list: list[AbstractBlock] = []
     for d in range(depth):
@@ -281,7 +283,7 @@ def hea_digital(
     layers = []
     for d in range(depth):
         layers.append(rot_list[d])
-        layers.append(ent_list[d])
+        layers.extend(ent_list[d : d + 1])
     return tag(chain(*layers), "HEA")
 
 
-- 
2.43.0


From 88f280bd0858455f1c650196a938b809c942e3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:25 +0000
Subject: [PATCH 35/58] fix: depth and operations of a configured alternating
 layer ansatz

---
 qadence/ml_tools/constructors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 75c420e..815b467 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -392,6 +392,7 @@ def _ansatz_layer(
         ansatz_type=ansatz_config.ansatz_type,
         ansatz_strategy=ansatz_config.ansatz_strategy,
         strategy_args=ansatz_config.strategy_args,
+        m_block_qubits=ansatz_config.m_block_qubits,
         param_prefix=f"fm_{index}",
     )
 
@@ -612,12 +613,13 @@ def _create_ala_digital(
     Returns:
         AbstractBlock: The Digital Alternating Layer Ansatz.
     """
-    operations = config.strategy_args.get("operation", [RX, RY, RX])
+    operations = config.strategy_args.get("operations", [RX, RY, RX])
     entangler = config.strategy_args.get("entangler", CNOT)
 
     return ala_digital(
         n_qubits=num_qubits,
         m_block_qubits=config.m_block_qubits,  # type: ignore[arg-type]
+        depth=config.depth,
         param_prefix=config.param_prefix,
         operations=operations,
         entangler=entangler,
-- 
2.43.0


From ea4fae64f079f445ed0842a05b06aab86bdb11b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:25 +0000
Subject: [PATCH 36/58] fix: default entangler of a configured digital-analog
 identity initialized ansatz

---
 qadence/ml_tools/constructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 815b467..148461f 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -443,7 +443,7 @@ def _create_iia_sdaqc(
         AbstractBlock: The SDAQC Identity Initialized Ansatz.
     """
     operations = config.strategy_args.get("operations", [RX, RY])
-    entangler = config.strategy_args.get("entangler", CNOT)
+    entangler = config.strategy_args.get("entangler", None)
     periodic = config.strategy_args.get("periodic", False)
 
     return iia(
-- 
2.43.0


From 022a7ab631cf6a92193ef000f9c5d35fbc563027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:55 +0000
Subject: [PATCH 37/58] fix: observable and mitigation passed to the
 expectation of a QNN

---
 qadence/ml_tools/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 1427258..9be747e 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -451,10 +451,12 @@ class QNN(QuantumModel):
             noise = self._noise
         return super().expectation(
             values=self.format_to_dict(values),
+            observable=observable,
             state=state,
             measurement=measurement,
             endianness=endianness,
             noise=noise,
+            mitigation=mitigation,
         )
 
     def _derivative(self, x: Tensor, derivative_indices: tuple[int, ...]) -> Tensor:
-- 
2.43.0


From a1f41a1e3e711998c0670547e24edbc4e2cf570c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:55 +0000
Subject: [PATCH 38/58] fix: registers built from the same graph share
 coordinates

---
 qadence/register.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/register.py b/qadence/register.py
index f22053a..79ef1a9 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -70,7 +70,7 @@ class Register:
 
         self.device_specs = device_specs
 
-        self.graph = support if isinstance(support, nx.Graph) else alltoall_graph(support)
+        self.graph = support.copy() if isinstance(support, nx.Graph) else alltoall_graph(support)
 
         if spacing is not None and self.min_distance != 0.0:
             _scale_node_positions(self.graph, self.min_distance, spacing)
-- 
2.43.0


From 30e25f92605bffda1a55fbf91f22fff81c21b148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:13 +0000
Subject: [PATCH 39/58] fix: convolutional layers on less than four qubits with
 repetitions

---
 qadence/ml_tools/constructors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 148461f..1a3ee67 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -1050,7 +1050,9 @@ def _create_conv_layer(
                 tag(W_pairs, f"W{control,target}")
                 rep_kron.append(W_pairs)
 
-            layer_reps.append(kron(*rep_kron))
+            # There are no pairs to shift to when the layer has less than four qubits
+            if rep_kron:
+                layer_reps.append(kron(*rep_kron))
 
         # Combine all repetitions using `chain`
         current_layer.append(chain(*layer_reps))
-- 
2.43.0


From afa2b367b0cb139fa17ae9da248b87dee9371f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:20 +0000
Subject: [PATCH 40/58] fix: batch size of data loaders moved to a device

---
 qadence/ml_tools/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/data.py b/qadence/ml_tools/data.py
index f8f30e9..e520a45 100644
--- a/qadence/ml_tools/data.py
+++ b/qadence/ml_tools/data.py
@@ -143,7 +143,7 @@ def _(xs: dict, *args: Any, **kwargs: Any) -> dict:
 
 @data_to_device.register(DataLoader)
 def _(xs: DataLoader, *args: Any, **kwargs: Any) -> DataLoader:
-    return DataLoader(data_to_device(xs.dataset, *args, **kwargs))
+    return DataLoader(data_to_device(xs.dataset, *args, **kwargs), batch_size=xs.batch_size)
 
 
 @data_to_device.register(DictDataLoader)
-- 
2.43.0


From 01fa675a90b32570b474067ed0ac42dc2af228f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:20 +0000
Subject: [PATCH 41/58] fix: input differentiation mode of serialized QNNs

---
 qadence/ml_tools/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 9be747e..989e9b6 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -467,6 +467,7 @@ class QNN(QuantumModel):
         try:
             d = super()._to_dict(save_params)
             d[self.__class__.__name__]["inputs"] = [str(i) for i in self.inputs]
+            d[self.__class__.__name__]["input_diff_mode"] = str(self.input_diff_mode)
             logger.debug(f"{self.__class__.__name__} serialized to {d}.")
         except Exception as e:
             logger.warning(f"Unable to serialize {self.__class__.__name__} due to {e}.")
@@ -488,6 +489,7 @@ class QNN(QuantumModel):
                 noise=NoiseHandler._from_dict(qm_dict["noise"]),
                 configuration=config_factory(qm_dict["backend"], qm_dict["backend_configuration"]),
                 inputs=qm_dict["inputs"],
+                input_diff_mode=qm_dict.get("input_diff_mode", InputDiffMode.AD),
             )
 
             if as_torch:
-- 
2.43.0


From 3c9afea4bb2d20d8c41d720d721442dfda535233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:08 +0000
Subject: [PATCH 42/58] fix: equality of registers with other edges or devices

---
 qadence/register.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/register.py b/qadence/register.py
index 79ef1a9..fba4228 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -355,8 +355,8 @@ class Register:
             return False
         return (
             DeepDiff(self.coords, other.coords, ignore_order=False) == {}
-            and nx.is_isomorphic(self.graph, other.graph)
-            and self.n_qubits == other.n_qubits
+            and {frozenset(e) for e in self.edges} == {frozenset(e) for e in other.edges}
+            and self.device_specs == other.device_specs
         )
 
 
-- 
2.43.0


From 8c9a0b6cb8bf285b98f02e71412e99aa7047580d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 43/58] fix: kron of analog interactions

---
 qadence/analog/parse_analog.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/qadence/analog/parse_analog.py b/qadence/analog/parse_analog.py
index d4b6403..e189e96 100644
--- a/qadence/analog/parse_analog.py
+++ b/qadence/analog/parse_analog.py
@@ -109,12 +109,13 @@ def _analog_to_hevo(
         # the same duration, and clean this code accordingly.
         # https://github.com/pasqal-io/qadence/issues/226
         ops = []
-        for block in block.blocks:
-            if isinstance(block, ConstantAnalogRotation):
-                h_drive = rydberg_drive_hamiltonian(block, register)
-                ops.append(_build_rot_ham_evo(block, h_int, h_addr, h_drive))
+        for b in block.blocks:
+            if isinstance(b, ConstantAnalogRotation):
+                h_drive = rydberg_drive_hamiltonian(b, register)
+                ops.append(_build_rot_ham_evo(b, h_int, h_addr, h_drive))
         if len(ops) == 0:
-            ops.append(HamEvo(h_background, duration / 1000))  # type: ignore [arg-type]
+            # only interactions, which all have the same duration
+            ops.append(_analog_to_hevo(block.blocks[0], register, h_int, h_addr))
         return chain(*ops)
 
     return block
-- 
2.43.0


From 599da61bf49071ceee418666ced0b83bdff7ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 44/58] fix: addressing patterns at the maximal amplitude or
 detuning

---
 qadence/analog/addressing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/analog/addressing.py b/qadence/analog/addressing.py
index debd9c3..e75fd13 100644
--- a/qadence/analog/addressing.py
+++ b/qadence/analog/addressing.py
@@ -85,14 +85,14 @@ class AddressingPattern:
             self.amp
             * (
                 Heaviside(self.amp + GLOBAL_MAX_AMPLITUDE)  # type: ignore [operator]
-                - Heaviside(self.amp - GLOBAL_MAX_AMPLITUDE)  # type: ignore [operator]
+                - Heaviside(self.amp - GLOBAL_MAX_AMPLITUDE, 0)  # type: ignore [operator]
             )
         )
         self.det = -abs(
             self.det
             * (
                 Heaviside(self.det + GLOBAL_MAX_DETUNING)
-                - Heaviside(self.det - GLOBAL_MAX_DETUNING)
+                - Heaviside(self.det - GLOBAL_MAX_DETUNING, 0)
             )
         )
 
@@ -101,7 +101,7 @@ class AddressingPattern:
         # amp * w_amp_i < LOCAL_MAX_AMPLITUDE or
         # abs(det) * w_det_i < LOCAL_MAX_DETUNING
         local_constr = {k: val * v for k, v in weights.items()}
-        local_constr = {k: Heaviside(v) - Heaviside(v - max_val) for k, v in local_constr.items()}
+        local_constr = {k: Heaviside(v) - Heaviside(v - max_val, 0) for k, v in local_constr.items()}
 
         return local_constr
 
@@ -111,7 +111,7 @@ class AddressingPattern:
         # abs(det) * sum(w_det_0, w_det_1, ...) < GLOBAL_MAX_DETUNING
         weighted_vals_global = val * sum([v for v in weights.values()])
         weighted_vals_global = Heaviside(weighted_vals_global) - Heaviside(
-            weighted_vals_global - max_val
+            weighted_vals_global - max_val, 0
         )
 
         return weighted_vals_global
-- 
2.43.0


From 2b75be679f7dd62698466c4a0e60d95fb020bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 45/58] fix: copies of parameters keep their values

---
 qadence/parameters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 7f00bef..4d6e850 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -155,6 +155,10 @@ class Parameter(Symbol):
     def __hash__(self) -> Any:
         return super().__hash__()
 
+    def __getstate__(self) -> dict:
+        # sympy only keeps the truth values of assumptions, not the value of the parameter
+        return {"trainable": self.trainable, "value": self.value, "is_time": self.is_time}
+
     def _to_dict(self) -> dict:
         d = {"name": self.name, "trainable": str(self.trainable), "value": str(self.value)}
         try:
-- 
2.43.0


From c6df6dc3d41efa4d58cdb1ffe90c70da621549be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:56 +0000
Subject: [PATCH 46/58] fix: daggers of S and T keep their noise

---
 qadence/operations/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index c060551..b62dd44 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -203,7 +203,7 @@ class S(PrimitiveBlock):
         return tensor([1, 1j], dtype=cdouble)
 
     def dagger(self) -> SDagger:
-        return SDagger(self.qubit_support[0])
+        return SDagger(self.qubit_support[0], self.noise)
 
 
 class SDagger(PrimitiveBlock):
@@ -228,7 +228,7 @@ class SDagger(PrimitiveBlock):
         return tensor([1, -1j], dtype=cdouble)
 
     def dagger(self) -> S:
-        return S(self.qubit_support[0])
+        return S(self.qubit_support[0], self.noise)
 
 
 class H(PrimitiveBlock):
@@ -319,7 +319,7 @@ class T(PrimitiveBlock):
         return 1
 
     def dagger(self) -> TDagger:
-        return TDagger(self.qubit_support[0])
+        return TDagger(self.qubit_support[0], self.noise)
 
 
 class TDagger(PrimitiveBlock):
@@ -349,7 +349,7 @@ class TDagger(PrimitiveBlock):
         return 1
 
     def dagger(self) -> T:
-        return T(self.qubit_support[0])
+        return T(self.qubit_support[0], self.noise)
 
 
 class SWAP(PrimitiveBlock):
-- 
2.43.0


From 6e8606060ae04af892389d6d0ac927161ebbdb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:01 +0000
Subject: [PATCH 47/58] fix: measurement of observables other than ordered
 Pauli strings

---
 qadence/measurements/samples.py    |   6 +-
 qadence/measurements/shadow.py     |  15 ++--
 qadence/measurements/tomography.py |   6 +-
 qadence/measurements/utils.py      | 119 ++++++++++++++++++++++-------
 4 files changed, 100 insertions(+), 46 deletions(-)

diff --git a/qadence/measurements/samples.py b/qadence/measurements/samples.py
index 02275c6..788c20a 100644
--- a/qadence/measurements/samples.py
+++ b/qadence/measurements/samples.py
@@ -6,8 +6,7 @@ from typing import List
 from torch import Tensor
 
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import unroll_block_with_scaling
-from qadence.measurements.utils import pauli_z_expectation
+from qadence.measurements.utils import pauli_decomposition, pauli_z_expectation
 
 
 def compute_expectation(
@@ -30,9 +29,8 @@ def compute_expectation(
     expectation_vals = []
 
     for obs in observable:
-        decomposition = unroll_block_with_scaling(obs)
         if not obs._is_diag_pauli or obs.is_identity:
             raise TypeError("observable provided is not in the Z basis")
-        expectation_vals.append(pauli_z_expectation(decomposition, samples))
+        expectation_vals.append(pauli_z_expectation(pauli_decomposition(obs), samples))
 
     return expectation_vals
diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index a2da68b..a3e3268 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -13,7 +13,7 @@ from qadence.blocks.primitive import PrimitiveBlock
 from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import get_qubit_indices_for_op
+from qadence.measurements.utils import get_qubit_indices_for_op, pauli_decomposition
 from qadence.noise import NoiseHandler
 from qadence.operations import H, I, SDagger, X, Y, Z
 from qadence.types import BackendName, Endianness
@@ -116,9 +116,7 @@ def extract_operators(unitary_ids: np.ndarray, n_qubits: int) -> list:
         list: Pauli strings.
     """
     operations = nested_operator_indexing(unitary_ids)
-    if n_qubits > 1:
-        operations = [kron_if_non_empty(ops) for ops in operations]
-    return operations
+    return [kron_if_non_empty(ops) for ops in operations]
 
 
 def classical_shadow(
@@ -144,7 +142,6 @@ def classical_shadow(
             circuit=conv_circ,
             param_values=param_values,
             state=state,
-            endianness=endianness,
         )
         all_rotations = [
             QuantumCircuit(circuit.n_qubits, rots) if rots else QuantumCircuit(circuit.n_qubits)
@@ -161,7 +158,7 @@ def classical_shadow(
         ]
 
     for i in range(shadow_size):
-        # Reverse endianness to get sample bitstrings in ILO.
+        # The unitaries and the observables index bit strings in big-endian order.
         conv_circ = backend.circuit(all_rotations[i])
         batch_samples = backend.sample(
             circuit=conv_circ,
@@ -169,7 +166,7 @@ def classical_shadow(
             n_shots=1,
             state=initial_state,
             noise=noise,
-            endianness=endianness,
+            endianness=Endianness.BIG,
         )
         shadow.append(batch_samples)
     bitstrings = list()
@@ -259,11 +256,11 @@ def estimations(
     )
     estimations = []
     for observable in observables:
-        pauli_decomposition = unroll_block_with_scaling(observable)
+        pauli_terms = pauli_decomposition(observable)
         batch_estimations = []
         for batch in batch_shadow_samples:
             pauli_term_estimations = []
-            for pauli_term in pauli_decomposition:
+            for pauli_term in pauli_terms:
                 # Get the estimators for the current Pauli term.
                 # This is a tensor<float> of size K.
                 estimation = estimators(
diff --git a/qadence/measurements/tomography.py b/qadence/measurements/tomography.py
index f7398de..7310b0d 100644
--- a/qadence/measurements/tomography.py
+++ b/qadence/measurements/tomography.py
@@ -6,10 +6,9 @@ from torch import Tensor
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import iterate_pauli_decomposition
+from qadence.measurements.utils import iterate_pauli_decomposition, pauli_decomposition
 from qadence.noise import NoiseHandler
 from qadence.utils import Endianness
 
@@ -53,12 +52,11 @@ def compute_expectation(
         raise KeyError("Tomography protocol requires a 'n_shots' kwarg of type 'int'.")
     estimated_values = []
     for observable in observables:
-        pauli_decomposition = unroll_block_with_scaling(observable)
         estimated_values.append(
             iterate_pauli_decomposition(
                 circuit=circuit,
                 param_values=param_values,
-                pauli_decomposition=pauli_decomposition,
+                pauli_decomposition=pauli_decomposition(observable),
                 n_shots=n_shots,
                 state=state,
                 backend=backend,
diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index 1913af9..b1ab8fc 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -6,20 +6,81 @@ from typing import Dict, List, Tuple
 
 import numpy as np
 import torch
-from sympy import Basic
+from sympy import Basic, Integer, Rational
 from torch import Tensor
 
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
-from qadence.blocks import AbstractBlock, PrimitiveBlock, chain
+from qadence.blocks import AbstractBlock, PrimitiveBlock, chain, kron
+from qadence.blocks.composite import AddBlock, CompositeBlock
+from qadence.blocks.primitive import ScaleBlock
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
 from qadence.noise import NoiseHandler
-from qadence.operations import H, I, SDagger, X, Y
+from qadence.operations import H, I, N, SDagger, X, Y, Z
 from qadence.parameters import evaluate
 from qadence.utils import Endianness
 
 
+PAULIS = (X, Y, Z)
+
+
+def _pauli_strings(block: AbstractBlock) -> list[tuple[dict, int, Basic]]:
+    """Expand a block in products of a scale, a power of the imaginary unit and Paulis.
+
+    The Paulis are a dictionary of the index in PAULIS for each qubit.
+    """
+    if isinstance(block, AddBlock):
+        return [term for b in block.blocks for term in _pauli_strings(b)]
+    if isinstance(block, ScaleBlock):
+        return [(p, power, block.scale * s) for p, power, s in _pauli_strings(block.block)]
+    if isinstance(block, CompositeBlock):
+        # The first block of a chain acts first, as the rightmost factor.
+        return reduce(
+            lambda terms, b: [_multiply(t, o) for t in _pauli_strings(b) for o in terms],
+            block.blocks,
+            [({}, 0, Integer(1))],
+        )
+    qubit = block.qubit_support[0]
+    if isinstance(block, I):
+        return [({}, 0, Integer(1))]
+    if isinstance(block, N):
+        return [({}, 0, Rational(1, 2)), ({qubit: 2}, 0, -Rational(1, 2))]
+    if type(block) not in PAULIS:
+        raise TypeError(f"Measurement of the observable {block} is not supported.")
+    return [({qubit: PAULIS.index(type(block))}, 0, Integer(1))]
+
+
+def _multiply(left: tuple, right: tuple) -> tuple:
+    paulis, power = dict(left[0]), left[1] + right[1]
+    for qubit, pauli in right[0].items():
+        other = paulis.pop(qubit, None)
+        if other is None:
+            paulis[qubit] = pauli
+        elif other != pauli:
+            paulis[qubit] = 3 - other - pauli
+            power += 1 if (pauli - other) % 3 == 1 else 3
+    return paulis, power, left[2] * right[2]
+
+
+def pauli_decomposition(observable: AbstractBlock) -> list[tuple[AbstractBlock, Basic]]:
+    """Decompose an observable in Pauli strings and their scales.
+
+    Args:
+        observable: A block of sums, products and multiples of Paulis, I and N.
+
+    Returns: A list of tuples of a Pauli string, ordered by qubit, and its scale.
+    """
+    decomposition: list[tuple[AbstractBlock, Basic]] = []
+    for paulis, power, scale in _pauli_strings(observable):
+        # Terms with an imaginary factor have no contribution to a (real) expectation.
+        if power % 2 == 0:
+            ops = [PAULIS[paulis[qubit]](qubit) for qubit in sorted(paulis)]
+            string = kron(*ops) if len(ops) > 1 else (ops or [I(observable.qubit_support[0])])[0]
+            decomposition.append((string, scale * (-1) ** (power // 2)))
+    return decomposition or [(I(observable.qubit_support[0]), Integer(0))]
+
+
 def get_qubit_indices_for_op(
     pauli_term: Tuple[AbstractBlock, Basic], op: PrimitiveBlock | None = None
 ) -> List[int]:
@@ -34,7 +95,9 @@ def get_qubit_indices_for_op(
     blocks = getattr(pauli_term[0], "blocks", None)
     blocks = blocks if blocks is not None else [pauli_term[0]]
     indices = [
-        block.qubit_support[0] for block in blocks if (op is None) or (isinstance(block, type(op)))
+        block.qubit_support[0]
+        for block in blocks
+        if (not isinstance(block, I) if op is None else isinstance(block, type(op)))
     ]
     return indices
 
@@ -149,31 +212,29 @@ def iterate_pauli_decomposition(
     estimated_values = []
 
     for pauli_term in pauli_decomposition:
-        if pauli_term[0].is_identity:
-            estimated_values.append(evaluate(pauli_term[1], as_torch=True))
-        else:
-            # Get the full qubit support for the Pauli term.
-            # Note: duplicates must be kept here to allow for
-            # observables chaining multiple operations on the same qubit
-            # such as `b = chain(Z(0), Z(0))`
-            support = get_qubit_indices_for_op(pauli_term)
-            # Rotate the circuit according to the given observable term.
-            rotated_circuit = rotate(circuit=circuit, pauli_term=pauli_term)
-            # Use the low-level backend API to avoid embedding of parameters
-            # already performed at the higher QuantumModel level.
-            # Therefore, parameters passed here have already been embedded.
-            conv_circ = backend.circuit(rotated_circuit)
-            samples = backend.sample(
-                circuit=conv_circ,
-                param_values=param_values,
-                n_shots=n_shots,
-                state=state,
-                noise=noise,
-                endianness=endianness,
-            )
-            estim_values = empirical_average(samples=samples, support=support)
-            # TODO: support for parametric observables to be tested
-            estimated_values.append(estim_values * evaluate(pauli_term[1]))
+        # Get the full qubit support for the Pauli term.
+        # Note: duplicates must be kept here to allow for
+        # observables chaining multiple operations on the same qubit
+        # such as `b = chain(Z(0), Z(0))`
+        support = get_qubit_indices_for_op(pauli_term)
+        # Rotate the circuit according to the given observable term.
+        rotated_circuit = rotate(circuit=circuit, pauli_term=pauli_term)
+        # Use the low-level backend API to avoid embedding of parameters
+        # already performed at the higher QuantumModel level.
+        # Therefore, parameters passed here have already been embedded.
+        conv_circ = backend.circuit(rotated_circuit)
+        # The support indexes bit strings in big-endian order.
+        samples = backend.sample(
+            circuit=conv_circ,
+            param_values=param_values,
+            n_shots=n_shots,
+            state=state,
+            noise=noise,
+            endianness=Endianness.BIG,
+        )
+        estim_values = empirical_average(samples=samples, support=support)
+        scale = torch.as_tensor(evaluate(pauli_term[1], param_values, as_torch=True)).detach()
+        estimated_values.append(estim_values * scale.reshape(-1))
     res = torch.sum(torch.stack(estimated_values), axis=0)
     # Allow for automatic differentiation.
     res.requires_grad = True
-- 
2.43.0


From 3cb59b55c006567cc0f0081a75067b3d1b4b593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:20 +0000
Subject: [PATCH 48/58] fix: number of qubits of blocks acting on high qubits

---
 qadence/blocks/matrix.py          | 4 ----
 qadence/blocks/primitive.py       | 4 ----
 qadence/operations/control_ops.py | 4 ----
 qadence/operations/ham_evo.py     | 3 +--
 qadence/operations/parametric.py  | 4 ----
 qadence/operations/primitive.py   | 8 --------
 6 files changed, 1 insertion(+), 26 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index f34fc25..6d49a6e 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -125,10 +125,6 @@ class MatrixBlock(PrimitiveBlock):
         _, indices = torch.sort(ev.real)
         return ev[indices]
 
-    @property
-    def n_qubits(self) -> int:
-        return np.log2(self.matrix.size()[0])  # type:ignore[no-any-return]
-
     @staticmethod
     def is_square(m: torch.Tensor) -> bool:
         return m.shape[0] == m.shape[1]  # type:ignore[no-any-return]
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 0598154..3b4a74d 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -475,10 +475,6 @@ class ParametricControlBlock(ParametricBlock):
     def __ascii__(self, console: Console) -> RenderableType:
         raise NotImplementedError
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index a78b16f..b26c409 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -338,10 +338,6 @@ class Toffoli(ControlBlock):
         self.generator = kron(*[N(qubit) for qubit in control], X(target) - I(target))
         super().__init__(control, X(target), noise=noise)
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.tensor(
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 4859028..7259e9d 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -5,7 +5,6 @@ from functools import cached_property
 from logging import getLogger
 from typing import Any, Union
 
-import numpy as np
 import sympy
 import torch
 from torch import Tensor
@@ -258,7 +257,7 @@ class HamEvo(TimeEvolutionBlock):
     @property
     def n_qubits(self) -> int:
         if isinstance(self.generator, Tensor):
-            n_qubits = int(np.log2(self.generator.shape[-1]))
+            n_qubits = max(self.qubit_support) + 1
         else:
             n_qubits = self.generator.n_qubits  # type: ignore [union-attr]
 
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 6981494..9922003 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -191,10 +191,6 @@ class U(ParametricBlock):
         lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
         return torch.cat((lmbd, lmbd.conj()))
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> U:
         phi, theta, omega = (
             extract_original_param_entry(p) for p in self.parameters.expressions()
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index b62dd44..33a4c6b 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -314,10 +314,6 @@ class T(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> TDagger:
         return TDagger(self.qubit_support[0], self.noise)
 
@@ -344,10 +340,6 @@ class TDagger(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([-1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> T:
         return T(self.qubit_support[0], self.noise)
 
-- 
2.43.0


From 0fa5c7902544b168c3ccc646f6e852d4bcc20be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:53 +0000
Subject: [PATCH 49/58] fix: matrix generators of HamEvo are not batches of
 parameter values

---
 qadence/backends/utils.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/utils.py b/qadence/backends/utils.py
index 7da7692..614207c 100644
--- a/qadence/backends/utils.py
+++ b/qadence/backends/utils.py
@@ -166,13 +166,20 @@ def validate_state(state: Tensor, n_qubits: int) -> None:
         )
 
 
+def _is_matrix(t: Tensor) -> bool:
+    return t.ndim == 2 and t.shape[0] == t.shape[1] and t.shape[0] > 1
+
+
 def infer_batchsize(param_values: dict[str, Tensor] = None) -> int:
-    """Infer the batch_size through the length of the parameter tensors."""
+    """Infer the batch_size through the length of the parameter tensors.
+
+    Constant square matrices, such as the generators of `HamEvo`, are not batches of values.
+    """
     try:
         return (
             max(
                 [
-                    len(tensor_or_dict)
+                    1 if _is_matrix(tensor_or_dict) else len(tensor_or_dict)
                     for tensor_or_dict in param_values.values()
                     if isinstance(tensor_or_dict, Tensor)
                 ]
-- 
2.43.0


From 7d6a226d568728a0c070eda7bb554b9808aeb713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:23 +0000
Subject: [PATCH 50/58] fix: Trainer.test uses the trainer's own test data

---
 qadence/ml_tools/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/trainer.py b/qadence/ml_tools/trainer.py
index fdb81e4..71d2711 100644
--- a/qadence/ml_tools/trainer.py
+++ b/qadence/ml_tools/trainer.py
@@ -595,7 +595,7 @@ class Trainer(BaseTrainer):
         self.model.eval()
         test_loss_metrics = []
 
-        for batch in self._batch_iter(test_dataloader, self.num_training_batches):
+        for batch in self._batch_iter(self.test_dataloader, self.num_test_batches):
             self.on_test_batch_start(batch)
             loss_metrics = self.run_test_batch(batch)
             test_loss_metrics.append(loss_metrics)
-- 
2.43.0


From ab53cbeb82284515fe8880995c537eabf00e8de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:23 +0000
Subject: [PATCH 51/58] fix: cosine annealing starts from the initial learning
 rate

---
 qadence/ml_tools/callbacks/callback.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/callbacks/callback.py b/qadence/ml_tools/callbacks/callback.py
index 62b1563..49a72ad 100644
--- a/qadence/ml_tools/callbacks/callback.py
+++ b/qadence/ml_tools/callbacks/callback.py
@@ -656,7 +656,8 @@ class LRSchedulerCosineAnnealing(Callback):
             writer (BaseWriter): The writer object for logging.
         """
         for param_group in trainer.optimizer.param_groups:
-            max_lr = param_group["lr"]
+            # The curve starts from the initial learning rate, not from the last annealed one.
+            max_lr = param_group.setdefault("initial_lr", param_group["lr"])
             new_lr = (
                 self.min_lr
                 + (max_lr - self.min_lr)
-- 
2.43.0


From 408cc497ae95701c195a2cf9a328a31430556200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:23 +0000
Subject: [PATCH 52/58] fix: run a list of circuits

---
 qadence/execution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/execution.py b/qadence/execution.py
index c98f825..32f8a45 100644
--- a/qadence/execution.py
+++ b/qadence/execution.py
@@ -105,7 +105,7 @@ def _(block: AbstractBlock, **kwargs: Any) -> Tensor:
 def _(circs: list, **kwargs: Any) -> Tensor:  # type: ignore[misc]
     results = ()
     for c in circs:
-        results += run(c, **kwargs)  # type:ignore[assignment]
+        results += (run(c, **kwargs),)  # type:ignore[assignment]
     return concat(results, dim=0)
 
 
-- 
2.43.0


From b7e6105a7a2edf433949dc59f24ddd99ee58eb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:23 +0000
Subject: [PATCH 53/58] fix: eigenvalues of U, CZ, MCZ, controlled gates on
 wide supports and scaled blocks

---
 qadence/blocks/primitive.py       |  2 +-
 qadence/operations/control_ops.py | 22 +++++++++++-----------
 qadence/operations/parametric.py  |  3 ++-
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 3b4a74d..86bd970 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -275,7 +275,7 @@ class ScaleBlock(ParametricBlock):
 
     @property
     def eigenvalues(self) -> torch.Tensor:
-        return self.block.eigenvalues
+        return evaluate(self.scale) * self.block.eigenvalues
 
     @property
     def _block_title(self) -> str:
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index b26c409..1f847d1 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -72,11 +72,11 @@ class MCZ(ControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.tensor(-2, dtype=cdouble), torch.zeros(2**self.n_qubits - 1)))
+        return torch.cat((torch.tensor([-2], dtype=cdouble), torch.zeros(2**self.n_supports - 1)))
 
     @property
     def eigenvalues(self) -> Tensor:
-        torch.cat((torch.tensor(-1, dtype=cdouble), torch.ones(2**self.n_qubits - 1)))
+        return torch.cat((torch.tensor([-1], dtype=cdouble), torch.ones(2**self.n_supports - 1)))
 
     def __ascii__(self, console: Console) -> RenderableType:
         (target, control) = self.qubit_support
@@ -119,13 +119,13 @@ class MCRX(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRX(MCRX):
@@ -162,13 +162,13 @@ class MCRY(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRY(MCRY):
@@ -201,13 +201,13 @@ class MCRZ(ParametricControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.cat((torch.zeros(2**self.n_qubits - 2), torch.tensor([1, -1], dtype=cdouble)))
+        return torch.cat((torch.zeros(2**self.n_supports - 2), torch.tensor([1, -1], dtype=cdouble)))
 
     @property
     def eigenvalues(self) -> Tensor:
         val = evaluate(self.parameters.parameter, as_torch=True)
         lmbd = torch.cos(val / 2.0) - 1j * torch.sin(val / 2.0)
-        return torch.cat((torch.ones(2**self.n_qubits - 2), lmbd, lmbd.conj()))
+        return torch.cat((torch.ones(2**self.n_supports - 2), lmbd, lmbd.conj()))
 
 
 class CRZ(MCRZ):
@@ -245,13 +245,13 @@ class MCPHASE(ParametricControlBlock):
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.cat(
-            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_qubits - 2)))
+            (torch.tensor([-2, 0], dtype=cdouble), (torch.zeros(2**self.n_supports - 2)))
         )
 
     @property
     def eigenvalues(self) -> Tensor:
         v = evaluate(self.parameters.parameter, as_torch=True)
-        return torch.cat((torch.ones(2**self.n_qubits - 1), torch.exp(1j * v)))
+        return torch.cat((torch.ones(2**self.n_supports - 1), torch.exp(1j * v)))
 
     def __rich_tree__(self, tree: Tree = None) -> Tree:
         if tree is None:
@@ -318,7 +318,7 @@ class CSWAP(ControlBlock):
 
     @property
     def eigenvalues_generator(self) -> Tensor:
-        return torch.tensor((1, -1, 1, 1, 1, 1, 1, 1), dtype=torch.cdouble)
+        return torch.tensor((-2, 0, 0, 0, 0, 0, 0, 0), dtype=torch.cdouble)
 
     @property
     def eigenvalues(self) -> Tensor:
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 9922003..079877a 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -188,7 +188,8 @@ class U(ParametricBlock):
         phi = evaluate(self.parameters.phi)
         theta = evaluate(self.parameters.theta)
         omega = evaluate(self.parameters.omega)
-        lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
+        half_trace = np.cos((phi + omega) / 2) * np.cos(theta / 2)
+        lmbd = torch.tensor([half_trace + 1j * np.sqrt(1 - half_trace**2)], dtype=torch.cdouble)
         return torch.cat((lmbd, lmbd.conj()))
 
     def dagger(self) -> U:
-- 
2.43.0


From c78500bceefbc99214bb2311b8a4c3f254687db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:49 +0000
Subject: [PATCH 54/58] fix: separate values of circuit and observables under
 one name

---
 qadence/backend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qadence/backend.py b/qadence/backend.py
index 4d34ea7..b411d99 100644
--- a/qadence/backend.py
+++ b/qadence/backend.py
@@ -236,9 +236,15 @@ class Backend(ABC):
 
             def embedding_fn_dict(a: dict, b: dict) -> dict:
                 if "circuit" in b or "observables" in b:
-                    embedding_dict = {"circuit": circ_embedding_fn(a, b), "observables": dict()}
+                    # Values for one of them are shared, unless the other has its own.
+                    circ_values = {**b.get("observables", {}), **b.get("circuit", {})}
+                    obs_values = {**b.get("circuit", {}), **b.get("observables", {})}
+                    embedding_dict = {
+                        "circuit": circ_embedding_fn(a, circ_values),
+                        "observables": dict(),
+                    }
                     for obs_embedding_fn in obs_embedding_fns:
-                        embedding_dict["observables"].update(obs_embedding_fn(a, b))
+                        embedding_dict["observables"].update(obs_embedding_fn(a, obs_values))
                 else:
                     embedding_dict = circ_embedding_fn(a, b)
                     for obs_embedding_fn in obs_embedding_fns:
-- 
2.43.0


From 2fddb2f35377998f7ed56b40312722fc92d1af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:49 +0000
Subject: [PATCH 55/58] fix: readout mitigation with error probabilities

---
 qadence/mitigations/readout.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index c468363..295e6b9 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -95,10 +95,9 @@ def mitigation_minimization(
     if readout_noise is None:
         raise ValueError("Specify a noise source of type NoiseProtocol.READOUT.")
     n_shots = sum(samples[0].values())
+    # Unless given, the confusion matrices are only allocated until the noise matrix is created.
+    readout_noise.create_noise_matrix(n_shots)
     noise_matrices = readout_noise.confusion_matrix
-    if noise_matrices.numel() == 0:
-        readout_noise.create_noise_matrix(n_shots)
-        noise_matrices = readout_noise.confusion_matrix
     optimization_type = mitigation.options.get("optimization_type", ReadOutOptimization.MLE)
 
     corrected_counters: list[Counter] = []
-- 
2.43.0


From 576b27fff0a377caa676da8754fb832dfd5778fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:49 +0000
Subject: [PATCH 56/58] fix: keep the shots when mitigated counts all round up

---
 qadence/mitigations/readout.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qadence/mitigations/readout.py b/qadence/mitigations/readout.py
index 295e6b9..a0ebe8a 100644
--- a/qadence/mitigations/readout.py
+++ b/qadence/mitigations/readout.py
@@ -59,6 +59,9 @@ def renormalize_counts(corrected_counts: npt.NDArray, n_shots: int) -> npt.NDArr
         corrected_counts -= counts_diff
         corrected_counts = np.where(corrected_counts < 0, 0, corrected_counts)
         sum_corrected_counts = sum(corrected_counts)
+        if sum_corrected_counts == 0:
+            # No count exceeds the rounding discrepancy: nothing is left to rescale.
+            return corrected_counts
 
         renormalization_factor = n_shots / sum_corrected_counts
         corrected_counts = np.rint(corrected_counts * renormalization_factor).astype(int)
-- 
2.43.0


From f67610eabf1643e3e58366eec477b8da84bc7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:49 +0000
Subject: [PATCH 57/58] fix: mitigate samples in the order of the qubits

---
 qadence/backends/pulser/backend.py   | 8 ++++----
 qadence/backends/pyqtorch/backend.py | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index ed43ee8..87094b3 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -306,16 +306,16 @@ class Backend(BackendInterface):
             sequence.measure()
             sample = simulate_sequence(sequence, self.config, state, n_shots=n_shots)
             samples.append(sample)
-        if endianness != self.native_endianness:
-            from qadence.transpile import invert_endianness
-
-            samples = invert_endianness(samples)
         if mitigation is not None:
             logger.warning(
                 "Mitigation protocol is deprecated. Use qadence-protocols instead.",
             )
             assert noise
             samples = apply_mitigation(noise=noise, mitigation=mitigation, samples=samples)
+        if endianness != self.native_endianness:
+            from qadence.transpile import invert_endianness
+
+            samples = invert_endianness(samples)
         return samples
 
     def expectation(
diff --git a/qadence/backends/pyqtorch/backend.py b/qadence/backends/pyqtorch/backend.py
index 8e7f6bf..542b6b0 100644
--- a/qadence/backends/pyqtorch/backend.py
+++ b/qadence/backends/pyqtorch/backend.py
@@ -297,13 +297,14 @@ class Backend(BackendInterface):
         samples: list[Counter] = circuit.native.sample(
             state=state, values=param_values, n_shots=n_shots
         )
-        samples = invert_endianness(samples) if endianness != Endianness.BIG else samples
         if mitigation is not None:
             logger.warning(
                 "Mitigation protocol is deprecated. Use qadence-protocols instead.",
             )
             assert noise
             samples = apply_mitigation(noise=noise, mitigation=mitigation, samples=samples)
+        # The mitigation matches the readout errors of each qubit to the bits in their order.
+        samples = invert_endianness(samples) if endianness != Endianness.BIG else samples
         return samples
 
     def assign_parameters(self, circuit: ConvertedCircuit, param_values: ParamDictType) -> Any:
-- 
2.43.0


From aa21d7f75ec9f676112e446dd42118e650be2af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:49 +0000
Subject: [PATCH 58/58] fix: mitigation protocols from dictionaries

---
 qadence/mitigations/protocols.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/mitigations/protocols.py b/qadence/mitigations/protocols.py
index b77047e..d3d0bad 100644
--- a/qadence/mitigations/protocols.py
+++ b/qadence/mitigations/protocols.py
@@ -36,7 +36,7 @@ class Mitigations:
     @classmethod
     def _from_dict(cls, d: dict) -> Mitigations | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
 
     @classmethod
-- 
2.43.0

