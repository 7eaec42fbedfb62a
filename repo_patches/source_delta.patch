From 55119e572d15f779a5e489fd82358d2bf851e37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:26 +0000
Subject: [PATCH 01/67] fix: QNN.expectation forwards the supplied observable
 and mitigation

---
 qadence/ml_tools/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 098a5ef..d3eb496 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -451,10 +451,12 @@ class QNN(QuantumModel):
             noise = self._noise
         return super().expectation(
             values=self.format_to_dict(values),
+            observable=observable,
             state=state,
             measurement=measurement,
             endianness=endianness,
             noise=noise,
+            mitigation=mitigation,
         )
 
     def _derivative(self, x: Tensor, derivative_indices: tuple[int, ...]) -> Tensor:
-- 
2.43.0


From 897f85974f73b0afd1c477a5b68d972252276a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:26 +0000
Subject: [PATCH 02/67] fix: the JAX engine forwards endianness, noise,
 measurement and mitigation to the backend

---
 qadence/engines/jax/differentiable_backend.py     | 11 ++++++++++-
 qadence/engines/jax/differentiable_expectation.py |  9 ++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/qadence/engines/jax/differentiable_backend.py b/qadence/engines/jax/differentiable_backend.py
index a883f2a..8e019d9 100644
--- a/qadence/engines/jax/differentiable_backend.py
+++ b/qadence/engines/jax/differentiable_backend.py
@@ -63,7 +63,16 @@ class DifferentiableBackend(DifferentiableBackendInterface):
         observable = observable if isinstance(observable, list) else [observable]
 
         if self.diff_mode == DiffMode.AD:
-            expectation = self.backend.expectation(circuit, observable, param_values, state)
+            expectation = self.backend.expectation(
+                circuit=circuit,
+                observable=observable,
+                param_values=param_values,
+                state=state,
+                measurement=measurement,
+                noise=noise,
+                mitigation=mitigation,
+                endianness=endianness,
+            )
         else:
             expectation = DifferentiableExpectation(
                 backend=self.backend,
diff --git a/qadence/engines/jax/differentiable_expectation.py b/qadence/engines/jax/differentiable_expectation.py
index 4549d71..14e7047 100644
--- a/qadence/engines/jax/differentiable_expectation.py
+++ b/qadence/engines/jax/differentiable_expectation.py
@@ -44,7 +44,14 @@ class DifferentiableExpectation:
 
         def expectation_fn(state: Array, values: ParamDictType, psr_params: ParamDictType) -> Array:
             return self.backend.expectation(
-                circuit=self.circuit, observable=self.observable, param_values=values, state=state
+                circuit=self.circuit,
+                observable=self.observable,
+                param_values=values,
+                state=state,
+                measurement=self.measurement,
+                noise=self.noise,
+                mitigation=self.mitigation,
+                endianness=self.endianness,
             )
 
         @custom_vjp
-- 
2.43.0


From ce59f9fe2c8d0893a26fae3bb389c00c3edddb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:07 +0000
Subject: [PATCH 03/67] fix: GPSR with a measurement protocol samples on the
 model's own backend

---
 qadence/engines/torch/differentiable_expectation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index febc13b..d272f44 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -182,6 +182,7 @@ class DifferentiableExpectation:
                 observables=[obs.original for obs in self.observable],
                 options=self.measurement.options,
                 state=self.state,
+                backend=self.backend,
                 noise=self.noise,
                 endianness=self.endianness,
             )
-- 
2.43.0


From f13df15aff0dc951fa20e85aa776425d47f4b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 04/67] fix: the dagger of a projector exchanges ket and bra

---
 qadence/blocks/primitive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 44a58ac..d0dcfa8 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -548,3 +548,8 @@ class ProjectorBlock(PrimitiveBlock):
         self.ket = ket
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
+
+    def dagger(self) -> ProjectorBlock:
+        blk = deepcopy(self)
+        blk.ket, blk.bra = self.bra, self.ket
+        return blk
-- 
2.43.0


From 0580a40424056abc8950705c5b9faff3aeee40c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 05/67] fix: the dagger of a matrix block is its conjugate
 transpose

---
 qadence/blocks/matrix.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 440d5fb..aaa333f 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -122,6 +122,11 @@ class MatrixBlock(PrimitiveBlock):
         i = torch.eye(m.shape[0], dtype=torch.complex128)
         return torch.allclose(prod, i)  # type:ignore[no-any-return]
 
+    def dagger(self) -> MatrixBlock:
+        return MatrixBlock(
+            self.matrix.t().conj(), self.qubit_support, self.noise, check_unitary=False
+        )
+
     def expand_to(self, n_qubits: int = 1) -> torch.Tensor:
         from qadence.blocks.block_to_tensor import _fill_identities
 
-- 
2.43.0


From d10d25102050f1e917bc7415650107f25fb9ce22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 06/67] fix: the dagger of U exchanges its outer angles

---
 qadence/operations/parametric.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 857d3cd..3fd18b2 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -20,6 +20,7 @@ from qadence.parameters import (
     Parameter,
     ParamMap,
     evaluate,
+    extract_original_param_entry,
 )
 from qadence.types import OpName, TNumber, TParameter
 
@@ -194,6 +195,14 @@ class U(ParametricBlock):
     def n_qubits(self) -> int:
         return 1
 
+    def dagger(self) -> U:
+        phi, theta, omega = (
+            -extract_original_param_entry(p)
+            for p in (self.parameters.phi, self.parameters.theta, self.parameters.omega)
+        )
+        # the adjoint of RZ(omega) RY(theta) RZ(phi) also exchanges the two outer angles
+        return U(self.qubit_support[0], omega, theta, phi, self.noise)
+
     def digital_decomposition(self) -> AbstractBlock:
         return chain(
             RZ(self.qubit_support[0], self.parameters.phi),
-- 
2.43.0


From 5b21b73f01b2707b3fbec04e6bc0791b2d4f35a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 07/67] fix: the dagger of S and T gates keeps their noise

---
 qadence/operations/primitive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 6fa8545..347294a 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -199,7 +199,7 @@ class S(PrimitiveBlock):
         return tensor([1, 1j], dtype=cdouble)
 
     def dagger(self) -> SDagger:
-        return SDagger(self.qubit_support[0])
+        return SDagger(self.qubit_support[0], self.noise)
 
 
 class SDagger(PrimitiveBlock):
@@ -224,7 +224,7 @@ class SDagger(PrimitiveBlock):
         return tensor([1, -1j], dtype=cdouble)
 
     def dagger(self) -> S:
-        return S(self.qubit_support[0])
+        return S(self.qubit_support[0], self.noise)
 
 
 class H(PrimitiveBlock):
@@ -315,7 +315,7 @@ class T(PrimitiveBlock):
         return 1
 
     def dagger(self) -> TDagger:
-        return TDagger(self.qubit_support[0])
+        return TDagger(self.qubit_support[0], self.noise)
 
 
 class TDagger(PrimitiveBlock):
@@ -345,7 +345,7 @@ class TDagger(PrimitiveBlock):
         return 1
 
     def dagger(self) -> T:
-        return T(self.qubit_support[0])
+        return T(self.qubit_support[0], self.noise)
 
 
 class SWAP(PrimitiveBlock):
-- 
2.43.0


From 3e8adcf99f37c695415c415d8a0124eb8308e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 08/67] fix: the dagger of HamEvo keeps its qubit support,
 duration and noise operators

---
 qadence/operations/ham_evo.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index c796f02..b9e22c0 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -202,7 +202,13 @@ class HamEvo(TimeEvolutionBlock):
 
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
-        return HamEvo(deepcopy(self.generator), -extract_original_param_entry(p))
+        return HamEvo(
+            deepcopy(self.generator),
+            -extract_original_param_entry(p),
+            self.qubit_support,
+            duration=self.duration,
+            noise_operators=self.noise_operators,
+        )
 
     def digital_decomposition(self, approximation: LTSOrder = LTSOrder.ST4) -> AbstractBlock:
         """Decompose the Hamiltonian evolution into digital gates.
-- 
2.43.0


From c9cd1d1d6c093ba5cea19a8fa5bda5d83690149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:50 +0000
Subject: [PATCH 09/67] fix: the dagger of a circuit keeps its register

---
 qadence/circuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/circuit.py b/qadence/circuit.py
index fd266fe..5d97849 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -116,7 +116,7 @@ class QuantumCircuit:
 
     def dagger(self) -> QuantumCircuit:
         """Reverse the QuantumCircuit by calling dagger on the block."""
-        return QuantumCircuit(self.n_qubits, self.block.dagger())
+        return QuantumCircuit(self.register, self.block.dagger())
 
     def get_blocks_by_tag(self, tag: str) -> list[AbstractBlock]:
         """Extract one or more blocks using the human-readable tag.
-- 
2.43.0


From 4207d14eb720cb004c87c1086d80d88cdf3c321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:38 +0000
Subject: [PATCH 10/67] fix: TDagger is named like its matrix entry, which is
 the conjugate of T

---
 qadence/blocks/block_to_tensor.py | 2 +-
 qadence/operations/primitive.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index c280908..28460b2 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -33,7 +33,7 @@ NMAT = torch.tensor([[0, 0], [0, 1]], dtype=torch.cdouble).unsqueeze(0)
 SMAT = torch.tensor([[1, 0], [0, 1j]], dtype=torch.cdouble).unsqueeze(0)
 SDAGMAT = torch.tensor([[1, 0], [0, -1j]], dtype=torch.cdouble).unsqueeze(0)
 TMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
-TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
+TDAGMAT = torch.tensor([[1, 0], [0, torch.exp(-J * PI / 4)]], dtype=torch.cdouble).unsqueeze(0)
 HMAT = (
     1
     / torch.sqrt(torch.tensor(2))
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 347294a..12a8d0f 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -322,7 +322,7 @@ class TDagger(PrimitiveBlock):
     """The Hermitian adjoint/conjugate transpose of the T gate."""
 
     # FIXME: this gate is not support by any backend
-    name = "T_dagger"
+    name = OpName.TDAGGER
 
     def __init__(
         self,
-- 
2.43.0


From d17c5934536054b3d785abdd7d974592a70dfab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:38 +0000
Subject: [PATCH 11/67] fix: the matrix of N respects its state

---
 qadence/blocks/block_to_tensor.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 28460b2..8cd3f44 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -481,14 +481,6 @@ def _block_to_tensor_embedded(
             swap_block, values, qubit_support, endianness=endianness, device=device
         )
 
-    elif block.name in OPERATIONS_DICT.keys():
-        block_mat = OPERATIONS_DICT[block.name]
-
-        # add missing identities on unused qubits
-        mat = _fill_identities(
-            block_mat, block.qubit_support, qubit_support, endianness=endianness, device=device
-        )
-
     elif isinstance(block, ProjectorBlock):
         from qadence.states import product_state
 
@@ -506,6 +498,14 @@ def _block_to_tensor_embedded(
             device=device,
         )
 
+    elif block.name in OPERATIONS_DICT.keys():
+        block_mat = OPERATIONS_DICT[block.name]
+
+        # add missing identities on unused qubits
+        mat = _fill_identities(
+            block_mat, block.qubit_support, qubit_support, endianness=endianness, device=device
+        )
+
     else:
         raise TypeError(f"Conversion for block type {type(block)} not supported.")
 
-- 
2.43.0


From 165c4b6806b9c4c6411321e2b9efeb11bb59b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:05 +0000
Subject: [PATCH 12/67] fix: sparse diagonal tensors honour endianness and
 qubit support

---
 qadence/blocks/block_to_tensor.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/qadence/blocks/block_to_tensor.py b/qadence/blocks/block_to_tensor.py
index 8cd3f44..00ea95b 100644
--- a/qadence/blocks/block_to_tensor.py
+++ b/qadence/blocks/block_to_tensor.py
@@ -283,16 +283,22 @@ def block_to_diagonal(
     if isinstance(block, (ChainBlock, KronBlock)):
         v = torch.ones(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            v *= block_to_diagonal(b, values, qubit_support, device=device)
+            v *= block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
     if isinstance(block, AddBlock):
         t = torch.zeros(2**nqubits, dtype=torch.cdouble)
         for b in block.blocks:
-            t += block_to_diagonal(b, values, qubit_support, device=device)
+            t += block_to_diagonal(
+                b, values, qubit_support, endianness=endianness, device=device
+            )
         v = t
     elif isinstance(block, ScaleBlock):
         _s = evaluate(block.scale, values, as_torch=True)  # type: ignore[attr-defined]
         _s = _s.detach().squeeze(0)  # type: ignore[union-attr]
-        v = _s * block_to_diagonal(block.block, values, qubit_support, device=device)
+        v = _s * block_to_diagonal(
+            block.block, values, qubit_support, endianness=endianness, device=device
+        )
     elif isinstance(block, PrimitiveBlock):
         v = _fill_identities(
             OPERATIONS_DICT[block.name],
@@ -355,7 +361,9 @@ def block_to_tensor(
         )
 
     elif tensor_type == TensorType.SPARSEDIAGONAL:
-        t = block_to_diagonal(block, values, endianness=endianness)
+        t = block_to_diagonal(
+            block, values, qubit_support, use_full_support, endianness=endianness, device=device
+        )
         indices, values, size = torch.nonzero(t), t[t != 0], len(t)
         indices = torch.stack((indices.flatten(), indices.flatten()))
         return torch.sparse_coo_tensor(indices, values, (size, size))
-- 
2.43.0


From b20a8701cf16836d5e8ac2106758578500c3bf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:53 +0000
Subject: [PATCH 13/67] fix: distinct constants never share a parameter name
 (hash(-1) == hash(-2))

---
 qadence/parameters.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index ff0362c..0ffe677 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -289,8 +289,7 @@ def stringify(expr: Basic) -> str:
         return str(np.array(expr.tolist())).replace(".", "_")
     else:
         if expr.is_number:
-            expr_hash = hash(sympy_to_numeric(expr))
-            name = "fix_" + str(expr_hash)
+            name = "fix_" + str(sympy_to_numeric(expr)).replace(".", "_")
         else:
             name = str(expr).replace(".", "_")
         return name
-- 
2.43.0


From 7f51f06fcfba726638a57121d63bc3f4385af637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:09 +0000
Subject: [PATCH 14/67] fix: N on the state 0 runs as the projector on 0 in
 pyqtorch

---
 qadence/backends/pyqtorch/convert_ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index c87f336..55e99a4 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -280,12 +280,12 @@ def convert_block(
             return [pyq.Sequence(ops)]  # for kron and chain
     elif isinstance(block, tuple(non_unitary_gateset)):
         if isinstance(block, ProjectorBlock):
-            projector = getattr(pyq, block.name)
-            if block.name == OpName.N:
-                return [projector(target=qubit_support, noise=noise)]
+            # pyqtorch's N is |1><1|, N on another state is an ordinary projector
+            if block.name == OpName.N and block.ket == "1":
+                return [pyq.N(target=qubit_support, noise=noise)]
             else:
                 return [
-                    projector(
+                    pyq.Projector(
                         qubit_support=qubit_support,
                         ket=block.ket,
                         bra=block.bra,
-- 
2.43.0


From 315d15f8ba683ba357cee730d74a9e17efb7b456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:31 +0000
Subject: [PATCH 15/67] fix: parametric scales on pyqtorch use their own
 expression instead of parsing its text

---
 qadence/backends/pyqtorch/convert_ops.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/qadence/backends/pyqtorch/convert_ops.py b/qadence/backends/pyqtorch/convert_ops.py
index 55e99a4..438eea0 100644
--- a/qadence/backends/pyqtorch/convert_ops.py
+++ b/qadence/backends/pyqtorch/convert_ops.py
@@ -211,12 +211,10 @@ def convert_block(
         scaled_ops = convert_block(block.block, n_qubits, config)
         scale = extract_parameter(block, config=config)
 
-        # replace underscore by dot when underscore is between two numbers in string
-        if isinstance(scale, str):
-            scale = replace_underscore_floats(scale)
-
         if isinstance(scale, str) and not config._use_gate_params:
-            param = sympy_to_pyq(sympy.parse_expr(scale))
+            # use the expression itself: parsing its text would turn parameters
+            # called like sympy objects (E, pi, beta) into those objects
+            param = sympy_to_pyq(block.parameters.parameter)
         else:
             param = scale
 
-- 
2.43.0


From 5f7d24248e2a11345aec1e4d746767ae79ac8416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:40 +0000
Subject: [PATCH 16/67] fix: flatten, digitalize and fill_identities keep the
 register of a circuit

---
 qadence/transpile/circuit.py    | 2 +-
 qadence/transpile/digitalize.py | 2 +-
 qadence/transpile/flatten.py    | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/transpile/circuit.py b/qadence/transpile/circuit.py
index ee1829c..22df840 100644
--- a/qadence/transpile/circuit.py
+++ b/qadence/transpile/circuit.py
@@ -9,5 +9,5 @@ def fill_identities(circ: QuantumCircuit) -> QuantumCircuit:
     empty_wires = set(range(circ.n_qubits)) - set(circ.block.qubit_support)
     if len(empty_wires) > 0:
         ids = chain(I(i) for i in empty_wires)
-        return QuantumCircuit(circ.n_qubits, chain(circ.block, ids))
+        return QuantumCircuit(circ.register, chain(circ.block, ids))
     return circ
diff --git a/qadence/transpile/digitalize.py b/qadence/transpile/digitalize.py
index 12eed3e..e87f667 100644
--- a/qadence/transpile/digitalize.py
+++ b/qadence/transpile/digitalize.py
@@ -41,4 +41,4 @@ def _(block: AbstractBlock, approximation: LTSOrder = LTSOrder.BASIC) -> Abstrac
 
 @digitalize.register  # type: ignore[attr-defined]
 def _(circuit: QuantumCircuit, approximation: LTSOrder = LTSOrder.BASIC) -> QuantumCircuit:
-    return QuantumCircuit(circuit.n_qubits, digitalize(circuit.block, approximation))
+    return QuantumCircuit(circuit.register, digitalize(circuit.block, approximation))
diff --git a/qadence/transpile/flatten.py b/qadence/transpile/flatten.py
index 863f845..5acaf6e 100644
--- a/qadence/transpile/flatten.py
+++ b/qadence/transpile/flatten.py
@@ -105,4 +105,4 @@ def _(block: AbstractBlock, types: list = [ChainBlock, KronBlock, AddBlock]) ->
 
 @flatten.register  # type: ignore[attr-defined]
 def _(circuit: QuantumCircuit, types: list = [ChainBlock, KronBlock, AddBlock]) -> QuantumCircuit:
-    return QuantumCircuit(circuit.n_qubits, flatten(circuit.block, types=types))
+    return QuantumCircuit(circuit.register, flatten(circuit.block, types=types))
-- 
2.43.0


From 88d1dc1e81c0c0c007bcf73f81c818e4615da2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:40 +0000
Subject: [PATCH 17/67] fix: fill_identities does not remove the tags of the
 blocks it is given

---
 qadence/transpile/block.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/transpile/block.py b/qadence/transpile/block.py
index 26fce48..0d65d25 100644
--- a/qadence/transpile/block.py
+++ b/qadence/transpile/block.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from copy import deepcopy
+from copy import copy, deepcopy
 from logging import getLogger
 from functools import singledispatch
 from typing import Callable, Iterable, Type
@@ -293,6 +293,7 @@ def _(block: PrimitiveBlock, start: int, stop: int) -> AbstractBlock:
     if block.qubit_support == full_support:
         return block
     tag = block.tag
+    block = copy(block)
     block.tag = None
     bs = [block] + [I(i) for i in (set(full_support) - set(block.qubit_support))]
     b = kron(*sorted(bs, key=lambda x: x.qubit_support))
@@ -306,6 +307,7 @@ def _(block: SWAP, start: int, stop: int) -> AbstractBlock:
     if block.qubit_support == full_support:
         return block
     tag = block.tag
+    block = copy(block)
     block.tag = None
     bs = [block] + [chain(I(i), I(i)) for i in (set(full_support) - set(block.qubit_support))]
     b = kron(*sorted(bs, key=lambda x: x.qubit_support))
-- 
2.43.0


From 75136171b731d65582f68ddf7ac5be76d8a87e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:40 +0000
Subject: [PATCH 18/67] fix: the decomposition of a Pauli exponential only
 involves the qubits of the Pauli term

---
 qadence/decompose.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index d26d56b..3964794 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -120,10 +120,10 @@ def decompose_pauli_exp(block_list: list, parameter: Parameter | sympy.Expr) ->
         fact = 2.0 * parameter * scale
 
         blist: list[AbstractBlock] = bl if n_blocks >= 2 else [bl]  # type: ignore[assignment]
-        indx = [b.qubit_support[0] for b in blist]
-        ztarget = max(indx)
+        indx = sorted(b.qubit_support[0] for b in blist)
+        ztarget = indx[-1]
 
-        cnot_sequence = [CNOT(i, i + 1) for i in range(min(indx), max(indx))]
+        cnot_sequence = [CNOT(i, j) for i, j in zip(indx[:-1], indx[1:])]
         basis_fwd = [change_to_z_basis(blist[i], 1) for i in range(len(blist))]
         rot = [RZ(parameter=Parameter(fact), target=ztarget)]
         basis_bkd = [change_to_z_basis(blist[i], -1) for i in range(len(blist) - 1, -1, -1)]
-- 
2.43.0


From 46ef63bde77135e5fa199311ae76136d702ffabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:40 +0000
Subject: [PATCH 19/67] fix: HamEvo.digital_decomposition honours the requested
 approximation for non-commuting terms

---
 qadence/operations/ham_evo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index b9e22c0..06204cd 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -248,9 +248,13 @@ class HamEvo(TimeEvolutionBlock):
 
         if block_is_qubit_hamiltonian(self.generator):
             try:
-                block_is_commuting_hamiltonian(self.generator)
-                approximation = LTSOrder.BASIC  # use the simpler approach if the H is commuting
+                commuting = block_is_commuting_hamiltonian(self.generator)
             except TypeError:
+                commuting = False
+
+            if commuting:
+                approximation = LTSOrder.BASIC  # use the simpler approach if the H is commuting
+            else:
                 logger.warning(
                     """Non-commuting terms in the Pauli operator.
                     The Suzuki-Trotter approximation is applied."""
-- 
2.43.0


From 2fb48ec2145dd785d0f0e246bb8e37d0a4a6d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:54 +0000
Subject: [PATCH 20/67] fix: the second half of a Suzuki-Trotter step repeats
 the terms in reverse, not their gates

---
 qadence/decompose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/decompose.py b/qadence/decompose.py
index 3964794..73b8bdb 100644
--- a/qadence/decompose.py
+++ b/qadence/decompose.py
@@ -91,7 +91,8 @@ def lie_trotter_suzuki(
         if order == Order.ST2:  # Suzuki-Trotter 2nd order
             outer = decompose_pauli_exp(block_list[:-1], Parameter(t_delta / 2.0))
             inner = decompose_pauli_exp([block_list[-1]], Parameter(t_delta))
-            return (outer + inner + list(reversed(outer))) * t_steps
+            outer_rev = decompose_pauli_exp(block_list[-2::-1], Parameter(t_delta / 2.0))
+            return (outer + inner + outer_rev) * t_steps
 
         else:  # Suzuki-Trotter 4th order
             p2 = (4 - 4 ** (1 / 3)) ** -1  # minimises the 'ideal' error in the recursive formula
-- 
2.43.0


From 85f2ac8222528ae5ec33762ad652727fcd5807a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:09 +0000
Subject: [PATCH 21/67] fix: unroll_block_with_scaling keeps the scales of the
 factors of a product

---
 qadence/blocks/utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index 1759b9a..638a12f 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -4,6 +4,7 @@ import typing
 from enum import Enum
 from itertools import chain as _flatten
 from logging import getLogger
+from math import prod
 from typing import Generator, List, Type, TypeVar, Union, get_args
 
 from sympy import Array, Basic, Expr
@@ -428,6 +429,19 @@ def has_duplicate_vparams(block: AbstractBlock) -> bool:
     return len(set(trainables)) != len(trainables)
 
 
+def _factor_scales(block: AbstractBlock) -> tuple[AbstractBlock, Basic]:
+    """Move the scales of the factors of a product of blocks in front of the product."""
+    if isinstance(block, ScaleBlock):
+        inner, scale = _factor_scales(block.block)
+        return inner, block.scale if inner is block.block else block.scale * scale
+    if isinstance(block, (ChainBlock, KronBlock)):
+        factors = [_factor_scales(b) for b in block.blocks]
+        if any(f is not b for (f, _), b in zip(factors, block.blocks)):
+            scale = prod(s for (f, s), b in zip(factors, block.blocks) if f is not b)
+            return _construct(type(block), tuple(f for f, _ in factors)), scale
+    return block, Parameter(1.0)
+
+
 @typing.no_type_check
 def unroll_block_with_scaling(
     block: AbstractBlock, block_list: list[AbstractBlock] = None
@@ -477,7 +491,7 @@ def unroll_block_with_scaling(
         scale: Expr = block.scale
 
         if not isinstance(scaled_block, AddBlock):
-            block_list.append((block.block, scale))
+            block_list.append(_factor_scales(block))
 
         else:
             idx = len(block_list)
@@ -525,7 +539,7 @@ and NOT this way:
         or isinstance(block, ChainBlock)
         or isinstance(block, PrimitiveBlock)
     ):
-        block_list.append((block, Parameter(1.0)))
+        block_list.append(_factor_scales(block))
         return block_list
 
     elif isinstance(block, AddBlock):
-- 
2.43.0


From f578dde48d04aeefe1f35a81d2ea09b25809a84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:38 +0000
Subject: [PATCH 22/67] fix: independent iterations over the same composite
 block do not share their position

---
 qadence/blocks/composite.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 62bf6ea..257de81 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from typing import Tuple
+from typing import Iterator, Tuple
 
 import torch
 from rich.columns import Columns
@@ -55,12 +55,8 @@ class CompositeBlock(AbstractBlock):
     def depth(self) -> int:
         return 1 + max([b.depth for b in self.blocks])
 
-    def __iter__(self) -> CompositeBlock:
-        self._iterator = iter(self.blocks)
-        return self
-
-    def __next__(self) -> AbstractBlock:
-        return next(self._iterator)
+    def __iter__(self) -> Iterator[AbstractBlock]:
+        return iter(self.blocks)
 
     def __getitem__(self, item: int) -> AbstractBlock:
         return self.blocks[item]
-- 
2.43.0


From 38e124c69793e25fea07fa3ac4f6f7b85ff8ed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:05 +0000
Subject: [PATCH 23/67] fix: n_qubits covers the highest qubit a block acts on

---
 qadence/blocks/matrix.py          |  4 ----
 qadence/blocks/primitive.py       |  4 ----
 qadence/operations/control_ops.py |  4 ----
 qadence/operations/ham_evo.py     | 10 ----------
 qadence/operations/parametric.py  |  4 ----
 qadence/operations/primitive.py   |  8 --------
 6 files changed, 34 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index aaa333f..4308913 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -100,10 +100,6 @@ class MatrixBlock(PrimitiveBlock):
         _, indices = torch.sort(ev.real)
         return ev[indices]
 
-    @property
-    def n_qubits(self) -> int:
-        return np.log2(self.matrix.size()[0])  # type:ignore[no-any-return]
-
     @staticmethod
     def is_square(m: torch.Tensor) -> bool:
         return m.shape[0] == m.shape[1]  # type:ignore[no-any-return]
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index d0dcfa8..9ac47f1 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -456,10 +456,6 @@ class ParametricControlBlock(ParametricBlock):
     def __ascii__(self, console: Console) -> RenderableType:
         raise NotImplementedError
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index ddc1532..1714be1 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -334,10 +334,6 @@ class Toffoli(ControlBlock):
         self.generator = kron(*[N(qubit) for qubit in control], X(target) - I(target))
         super().__init__(control, X(target), noise=noise)
 
-    @property
-    def n_qubits(self) -> int:
-        return len(self.qubit_support)
-
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.tensor(
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 06204cd..8312cf1 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -5,7 +5,6 @@ from functools import cached_property
 from logging import getLogger
 from typing import Any, Union
 
-import numpy as np
 import sympy
 import torch
 from torch import Tensor
@@ -191,15 +190,6 @@ class HamEvo(TimeEvolutionBlock):
             -1j * evaluate(self.parameters.parameter, as_torch=True) * self.eigenvalues_generator
         )
 
-    @property
-    def n_qubits(self) -> int:
-        if isinstance(self.generator, Tensor):
-            n_qubits = int(np.log2(self.generator.shape[-1]))
-        else:
-            n_qubits = self.generator.n_qubits  # type: ignore [union-attr]
-
-        return n_qubits
-
     def dagger(self) -> Any:
         p = list(self.parameters.expressions())[0]
         return HamEvo(
diff --git a/qadence/operations/parametric.py b/qadence/operations/parametric.py
index 3fd18b2..01dab22 100644
--- a/qadence/operations/parametric.py
+++ b/qadence/operations/parametric.py
@@ -191,10 +191,6 @@ class U(ParametricBlock):
         lmbd = np.exp(-1j * (phi + omega) / 2) * np.cos(theta / 2)
         return torch.cat((lmbd, lmbd.conj()))
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> U:
         phi, theta, omega = (
             -extract_original_param_entry(p)
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index 12a8d0f..d4b795c 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -310,10 +310,6 @@ class T(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> TDagger:
         return TDagger(self.qubit_support[0], self.noise)
 
@@ -340,10 +336,6 @@ class TDagger(PrimitiveBlock):
     def eigenvalues(self) -> Tensor:
         return torch.tensor([1.0, torch.sqrt(torch.tensor([-1j]))], dtype=cdouble)
 
-    @property
-    def n_qubits(self) -> int:
-        return 1
-
     def dagger(self) -> T:
         return T(self.qubit_support[0], self.noise)
 
-- 
2.43.0


From b5bd317d7dca9671792dccce0fe5b8bb9cd383f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:27 +0000
Subject: [PATCH 24/67] fix: krons and sums are equal only if they hold the
 same blocks equally often

---
 qadence/blocks/composite.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 257de81..fa79dbf 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -145,6 +145,18 @@ class CompositeBlock(AbstractBlock):
         return hash(self._to_json())
 
 
+def _same_blocks(
+    blocks: Tuple[AbstractBlock, ...], others: Tuple[AbstractBlock, ...]
+) -> bool:
+    """Whether the two tuples hold the same blocks, in any order."""
+    rest = list(others)
+    for b in blocks:
+        if b not in rest:
+            return False
+        rest.remove(b)
+    return len(rest) == 0
+
+
 class PutBlock(CompositeBlock):
     name = "put"
 
@@ -240,7 +252,7 @@ class KronBlock(CompositeBlock):
         if isinstance(other, KronBlock):
             if len(self.blocks) != len(other.blocks):
                 return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_blocks(self.blocks, other.blocks)
         return False
 
 
@@ -265,5 +277,5 @@ class AddBlock(CompositeBlock):
         if isinstance(other, AddBlock):
             if len(self.blocks) != len(other.blocks):
                 return False
-            return self.tag == other.tag and all([b in other for b in self.blocks])
+            return self.tag == other.tag and _same_blocks(self.blocks, other.blocks)
         return False
-- 
2.43.0


From aca12cc1ecc10ea7ed9e837cc50e67fdfd9961be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:27 +0000
Subject: [PATCH 25/67] fix: equality of U, HamEvo, projectors and matrix
 blocks compares what defines the operator

---
 qadence/blocks/matrix.py      | 11 +++++++++++
 qadence/blocks/primitive.py   | 12 ++++++++++--
 qadence/operations/ham_evo.py | 26 ++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 4308913..15875e4 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -100,6 +100,17 @@ class MatrixBlock(PrimitiveBlock):
         _, indices = torch.sort(ev.real)
         return ev[indices]
 
+    def __eq__(self, other: object) -> bool:
+        return (
+            super().__eq__(other)
+            and self.matrix.shape == other.matrix.shape  # type: ignore[attr-defined]
+            and torch.allclose(
+                self.matrix.to(torch.cdouble), other.matrix.to(torch.cdouble)  # type: ignore[attr-defined]
+            )
+        )
+
+    __hash__ = PrimitiveBlock.__hash__
+
     @staticmethod
     def is_square(m: torch.Tensor) -> bool:
         return m.shape[0] == m.shape[1]  # type:ignore[no-any-return]
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 9ac47f1..344e3a2 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -187,8 +187,11 @@ class ParametricBlock(PrimitiveBlock):
         if not isinstance(other, AbstractBlock):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            return self.qubit_support == other.qubit_support and self.parameters.parameter.equals(
-                other.parameters.parameter
+            exprs, others = self.parameters.expressions(), other.parameters.expressions()
+            return (
+                self.qubit_support == other.qubit_support
+                and len(exprs) == len(others)
+                and all(p.equals(q) for p, q in zip(exprs, others))
             )
         return False
 
@@ -545,6 +548,11 @@ class ProjectorBlock(PrimitiveBlock):
         self.bra = bra
         super().__init__(qubit_support, noise=noise)
 
+    def __eq__(self, other: object) -> bool:
+        return super().__eq__(other) and (self.ket, self.bra) == (other.ket, other.bra)  # type: ignore[attr-defined]
+
+    __hash__ = PrimitiveBlock.__hash__
+
     def dagger(self) -> ProjectorBlock:
         blk = deepcopy(self)
         blk.ket, blk.bra = self.bra, self.ket
diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 8312cf1..0aaf96c 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -168,6 +168,32 @@ class HamEvo(TimeEvolutionBlock):
                 raise ValueError("Parametric operators are not supported")
         self.noise_operators = noise_operators
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, AbstractBlock):
+            raise TypeError(f"Cant compare {type(self)} to {type(other)}")
+        if not isinstance(other, type(self)) or self.qubit_support != other.qubit_support:
+            return False
+        if isinstance(self.generator, Tensor) or isinstance(other.generator, Tensor):
+            same_generator = self.generator is other.generator or (
+                isinstance(self.generator, Tensor)
+                and isinstance(other.generator, Tensor)
+                and self.generator.shape == other.generator.shape
+                and torch.allclose(
+                    self.generator.to(torch.cdouble), other.generator.to(torch.cdouble)
+                )
+            )
+        elif isinstance(self.generator, AbstractBlock) != isinstance(
+            other.generator, AbstractBlock
+        ):
+            same_generator = False
+        else:
+            same_generator = self.generator == other.generator
+        return (
+            same_generator
+            and self.duration == other.duration
+            and self.parameters.parameter.equals(other.parameters.parameter)
+        )
+
     @classmethod
     def num_parameters(cls) -> int:
         return 2
-- 
2.43.0


From cae3ace28a95020fcb91309dcac0da63f0af64af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:30 +0000
Subject: [PATCH 26/67] fix: PHASE and U can be deserialized

---
 qadence/blocks/primitive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 344e3a2..0ca355e 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -216,7 +216,9 @@ class ParametricBlock(PrimitiveBlock):
     def _from_dict(cls, d: dict) -> ParametricBlock:
         params = ParamMap._from_dict(d["parameters"])
         target = d["qubit_support"][0]
-        return cls(target, params, NoiseHandler._from_dict(d.get("noise")))  # type: ignore[call-arg, arg-type]
+        block = cls(target, *params.expressions(), NoiseHandler._from_dict(d.get("noise")))  # type: ignore[call-arg, arg-type]
+        block.parameters = params
+        return block
 
     def dagger(self) -> ParametricBlock:
         exprs = self.parameters.expressions()
-- 
2.43.0


From 5f6851005858e2fe54ce6c7a87e6bd3fbb277eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:16 +0000
Subject: [PATCH 27/67] fix: every controlled gate can be deserialized, with
 its parameters and all of its controls

---
 qadence/blocks/primitive.py       | 36 ++++++++++++++++++++++---------
 qadence/operations/control_ops.py |  7 ++++++
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 0ca355e..9b91ce7 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -367,12 +367,21 @@ class TimeEvolutionBlock(ParametricBlock):
         return not isinstance(self.generator, AbstractBlock)
 
 
+def _split_control(d: dict) -> tuple[tuple[int, ...], tuple[int, ...]]:
+    """The control and target qubits of a serialized control block."""
+    support = tuple(d["qubit_support"])
+    n_controls = len(support) - len(d["blocks"][0]["qubit_support"])
+    return support[:n_controls], support[n_controls:]
+
+
 class ControlBlock(PrimitiveBlock):
     """The abstract ControlBlock."""
 
     name = "Control"
     control: tuple[int, ...]
     target: tuple[int, ...]
+    # whether the constructor takes the control qubit as an integer
+    _single_control: bool = False
 
     def __init__(
         self,
@@ -422,9 +431,12 @@ class ControlBlock(PrimitiveBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ControlBlock:
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        return cls(control, target, NoiseHandler._from_dict(d.get("noise")))
+        control, target = _split_control(d)
+        return cls(
+            control[0] if cls._single_control else control,  # type: ignore[arg-type]
+            *target,
+            NoiseHandler._from_dict(d.get("noise")),
+        )
 
     def dagger(self) -> ControlBlock:
         blk = deepcopy(self)
@@ -438,6 +450,8 @@ class ParametricControlBlock(ParametricBlock):
     name = "ParameterizedControl"
     control: tuple[int, ...] = ()
     blocks: tuple[ParametricBlock, ...]
+    # whether the constructor takes the control qubit as an integer
+    _single_control: bool = False
 
     def __init__(
         self,
@@ -479,13 +493,15 @@ class ParametricControlBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ParametricControlBlock:
-        from qadence.serialization import deserialize
-
-        control = d["qubit_support"][0]
-        target = d["qubit_support"][1]
-        targetblock = d["blocks"][0]
-        expr = deserialize(targetblock["parameters"])
-        block = cls(control, target, NoiseHandler._from_dict(d.get("noise")), expr)  # type: ignore[call-arg]
+        control, target = _split_control(d)
+        params = ParamMap._from_dict(d["blocks"][0]["parameters"])
+        block = cls(
+            control[0] if cls._single_control else control,  # type: ignore[arg-type]
+            *target,
+            *params.expressions(),
+            NoiseHandler._from_dict(d.get("noise")),
+        )
+        block.parameters = block.blocks[0].parameters = params
         return block
 
     @property
diff --git a/qadence/operations/control_ops.py b/qadence/operations/control_ops.py
index 1714be1..5869200 100644
--- a/qadence/operations/control_ops.py
+++ b/qadence/operations/control_ops.py
@@ -35,6 +35,7 @@ class CNOT(ControlBlock):
     """The CNot, or CX, gate."""
 
     name = OpName.CNOT
+    _single_control = True
 
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         self.generator = kron(N(control), X(target) - I(target))
@@ -95,6 +96,7 @@ class CZ(MCZ):
     """The CZ gate."""
 
     name = OpName.CZ
+    _single_control = True
 
     def __init__(self, control: int, target: int, noise: NoiseHandler | None = None) -> None:
         super().__init__((control,), target, noise=noise)
@@ -132,6 +134,7 @@ class CRX(MCRX):
     """The CRX gate."""
 
     name = OpName.CRX
+    _single_control = True
 
     def __init__(
         self,
@@ -175,6 +178,7 @@ class CRY(MCRY):
     """The CRY gate."""
 
     name = OpName.CRY
+    _single_control = True
 
     def __init__(
         self, control: int, target: int, parameter: TParameter, noise: NoiseHandler | None = None
@@ -214,6 +218,7 @@ class CRZ(MCRZ):
     """The CRZ gate."""
 
     name = OpName.CRZ
+    _single_control = True
 
     def __init__(
         self,
@@ -270,6 +275,7 @@ class CPHASE(MCPHASE):
     """The CPHASE gate."""
 
     name = OpName.CPHASE
+    _single_control = True
 
     def __init__(
         self,
@@ -285,6 +291,7 @@ class CSWAP(ControlBlock):
     """The CSWAP (Control-SWAP) gate."""
 
     name = OpName.CSWAP
+    _single_control = True
 
     def __init__(
         self,
-- 
2.43.0


From 433566989ad24ae237ea8b8bd4e49dfee57873ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:43 +0000
Subject: [PATCH 28/67] fix: projectors, N and Zero can be deserialized

---
 qadence/blocks/primitive.py     | 12 ++++++++++++
 qadence/operations/primitive.py |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 9b91ce7..3ad0d11 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -571,6 +571,18 @@ class ProjectorBlock(PrimitiveBlock):
 
     __hash__ = PrimitiveBlock.__hash__
 
+    def _to_dict(self) -> dict:
+        return {**super()._to_dict(), "ket": self.ket, "bra": self.bra}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> ProjectorBlock:
+        return cls(
+            d["ket"],
+            d["bra"],
+            tuple(d["qubit_support"]),
+            NoiseHandler._from_dict(d.get("noise")),
+        )
+
     def dagger(self) -> ProjectorBlock:
         blk = deepcopy(self)
         blk.ket, blk.bra = self.bra, self.ket
diff --git a/qadence/operations/primitive.py b/qadence/operations/primitive.py
index d4b795c..fdecc2c 100644
--- a/qadence/operations/primitive.py
+++ b/qadence/operations/primitive.py
@@ -164,6 +164,10 @@ class N(Projector):
     ) -> None:
         super().__init__(ket=state, bra=state, qubit_support=(target,), noise=noise)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> N:
+        return cls(d["qubit_support"][0], d["ket"], NoiseHandler._from_dict(d.get("noise")))
+
     @property
     def generator(self) -> None:
         raise ValueError("Property `generator` not available for non-unitary operator.")
@@ -256,6 +260,10 @@ class Zero(PrimitiveBlock):
         self.generator = 0 * I(0)
         super().__init__((0,))
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> Zero:
+        return cls()
+
     @property
     def eigenvalues_generator(self) -> Tensor:
         return torch.zeros(2, dtype=cdouble)
-- 
2.43.0


From 510f50aaf253eb3e65c9583f1a03acba09fcdb53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:37 +0000
Subject: [PATCH 29/67] fix: matrix blocks can be deserialized

---
 qadence/blocks/matrix.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/qadence/blocks/matrix.py b/qadence/blocks/matrix.py
index 15875e4..55c32c0 100644
--- a/qadence/blocks/matrix.py
+++ b/qadence/blocks/matrix.py
@@ -111,6 +111,19 @@ class MatrixBlock(PrimitiveBlock):
 
     __hash__ = PrimitiveBlock.__hash__
 
+    def _to_dict(self) -> dict:
+        matrix = torch.view_as_real(self.matrix.detach().to(torch.cdouble)).tolist()
+        return {**super()._to_dict(), "matrix": matrix}
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> MatrixBlock:
+        return cls(
+            torch.view_as_complex(torch.tensor(d["matrix"], dtype=torch.double)),
+            tuple(d["qubit_support"]),
+            NoiseHandler._from_dict(d.get("noise")),
+            check_unitary=False,
+        )
+
     @staticmethod
     def is_square(m: torch.Tensor) -> bool:
         return m.shape[0] == m.shape[1]  # type:ignore[no-any-return]
-- 
2.43.0


From d3aeb0bd4e75ded79881d6597730ef4b355f28c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:05 +0000
Subject: [PATCH 30/67] fix: the tags of nested blocks survive serialization

---
 qadence/blocks/composite.py | 15 +++------------
 qadence/blocks/primitive.py | 11 ++---------
 qadence/blocks/utils.py     | 12 ++++++++++++
 qadence/circuit.py          | 11 ++---------
 qadence/serialization.py    | 11 ++---------
 5 files changed, 21 insertions(+), 39 deletions(-)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index fa79dbf..06ca959 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -120,18 +120,9 @@ class CompositeBlock(AbstractBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> CompositeBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
-        from qadence.blocks.utils import _construct, tag
-
-        blocks = [
-            (
-                getattr(operations, b["type"])._from_dict(b)
-                if hasattr(operations, b["type"])
-                else getattr(qadenceblocks, b["type"])._from_dict(b)
-            )
-            for b in d["blocks"]
-        ]
+        from qadence.blocks.utils import _block_from_dict, _construct, tag
+
+        blocks = [_block_from_dict(b) for b in d["blocks"]]
         block = _construct(cls, blocks)  # type: ignore[arg-type]
         if d["tag"] is not None:
             tag(block, d["tag"])
diff --git a/qadence/blocks/primitive.py b/qadence/blocks/primitive.py
index 3ad0d11..38dc9ba 100644
--- a/qadence/blocks/primitive.py
+++ b/qadence/blocks/primitive.py
@@ -338,17 +338,10 @@ class ScaleBlock(ParametricBlock):
 
     @classmethod
     def _from_dict(cls, d: dict) -> ScaleBlock:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
+        from qadence.blocks.utils import _block_from_dict
 
         expr = ParamMap._from_dict(d["parameters"])
-        block: AbstractBlock
-        if hasattr(operations, d["block"]["type"]):
-            block = getattr(operations, d["block"]["type"])._from_dict(d["block"])
-
-        else:
-            block = getattr(qadenceblocks, d["block"]["type"])._from_dict(d["block"])
-        return cls(block, expr)  # type: ignore[arg-type]
+        return cls(_block_from_dict(d["block"]), expr)  # type: ignore[arg-type]
 
 
 class TimeEvolutionBlock(ParametricBlock):
diff --git a/qadence/blocks/utils.py b/qadence/blocks/utils.py
index 638a12f..7003164 100644
--- a/qadence/blocks/utils.py
+++ b/qadence/blocks/utils.py
@@ -137,6 +137,18 @@ def add(*args: Union[AbstractBlock, Generator]) -> AddBlock:
     return _construct(AddBlock, args)
 
 
+def _block_from_dict(d: dict) -> AbstractBlock:
+    """Rebuild a block of any type, with its tag, from the dictionary it was serialized to."""
+    from qadence import blocks as qadenceblocks
+    from qadence import operations
+
+    module = operations if hasattr(operations, d["type"]) else qadenceblocks
+    block: AbstractBlock = getattr(module, d["type"])._from_dict(d)
+    if d["tag"] is not None:
+        block = tag(block, d["tag"])
+    return block
+
+
 def tag(block: AbstractBlock, tag: str) -> AbstractBlock:
     block.tag = tag
     return block
diff --git a/qadence/circuit.py b/qadence/circuit.py
index 5d97849..697ce52 100644
--- a/qadence/circuit.py
+++ b/qadence/circuit.py
@@ -176,18 +176,11 @@ class QuantumCircuit:
 
     @classmethod
     def _from_dict(cls, d: dict) -> QuantumCircuit:
-        from qadence import blocks as qadenceblocks
-        from qadence import operations
-
-        RootBlock = (
-            getattr(operations, d["block"]["type"])
-            if hasattr(operations, d["block"]["type"])
-            else getattr(qadenceblocks, d["block"]["type"])
-        )
+        from qadence.blocks.utils import _block_from_dict
 
         return QuantumCircuit(
             Register._from_dict(d["register"]),
-            RootBlock._from_dict(d["block"]),
+            _block_from_dict(d["block"]),
         )
 
     @classmethod
diff --git a/qadence/serialization.py b/qadence/serialization.py
index 8d0f237..4e67a75 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -20,7 +20,7 @@ from sympy import core, srepr
 from qadence import QNN, QuantumCircuit, QuantumModel, operations, parameters
 from qadence import blocks as qadenceblocks
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import tag
+from qadence.blocks.utils import _block_from_dict
 from qadence.parameters import Parameter
 from qadence.register import Register
 from qadence.types import SerializationFormat
@@ -143,14 +143,7 @@ class BlockTypeSerialization(SerializationModel):
     value: AbstractBlock = dataclass_field(init=False)
 
     def __post_init__(self) -> None:
-        block = (
-            getattr(operations, self.d["type"])
-            if hasattr(operations, self.d["type"])
-            else getattr(qadenceblocks, self.d["type"])
-        )._from_dict(self.d)
-        if self.d["tag"] is not None:
-            block = tag(block, self.d["tag"])
-        self.value = block
+        self.value = _block_from_dict(self.d)
 
 
 @dataclass
-- 
2.43.0


From 04c6258e685c54cfd3b10075d0011654ad7193f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:22 +0000
Subject: [PATCH 31/67] fix: Hamiltonian evolutions can be deserialized

---
 qadence/operations/ham_evo.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/qadence/operations/ham_evo.py b/qadence/operations/ham_evo.py
index 0aaf96c..9b50e8a 100644
--- a/qadence/operations/ham_evo.py
+++ b/qadence/operations/ham_evo.py
@@ -12,6 +12,7 @@ from torch import Tensor
 from qadence.blocks import AbstractBlock, TimeEvolutionBlock
 from qadence.blocks.block_to_tensor import block_to_tensor
 from qadence.blocks.utils import (
+    _block_from_dict,
     add,  # noqa
     block_is_commuting_hamiltonian,
     block_is_qubit_hamiltonian,
@@ -194,6 +195,38 @@ class HamEvo(TimeEvolutionBlock):
             and self.parameters.parameter.equals(other.parameters.parameter)
         )
 
+    def _to_dict(self) -> dict:
+        d = super()._to_dict()
+        if isinstance(self.generator, AbstractBlock):
+            d["generator"] = self.generator._to_dict()
+        elif isinstance(self.generator, Tensor):
+            generator = self.generator.detach().to(torch.cdouble)
+            d["generator"] = torch.view_as_real(generator).tolist()
+        d["noise_operators"] = [op._to_dict() for op in self.noise_operators]
+        return d
+
+    @classmethod
+    def _from_dict(cls, d: dict) -> HamEvo:
+        is_block = isinstance(d["generator"], dict)
+        names = d["parameters"]["_name_dict"]
+        params = ParamMap._from_dict(
+            {"_name_dict": names if is_block else {"parameter": names["parameter"]}}
+        )
+        block = cls(
+            (
+                _block_from_dict(d["generator"])
+                if is_block
+                else torch.view_as_complex(torch.tensor(d["generator"], dtype=torch.double))
+            ),
+            params.parameter,
+            tuple(d["qubit_support"]),
+            params.duration if "duration" in params.names() else None,
+            [_block_from_dict(op) for op in d["noise_operators"]],
+        )
+        if is_block:
+            block.parameters = params
+        return block
+
     @classmethod
     def num_parameters(cls) -> int:
         return 2
-- 
2.43.0


From 1ed50e5783f306deb9d1c96c517f5d8dfb05ce4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:30 +0000
Subject: [PATCH 32/67] fix: expressions with constants, exponents or a time
 parameter can be deserialized

---
 qadence/serial_expr_grammar.peg | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qadence/serial_expr_grammar.peg b/qadence/serial_expr_grammar.peg
index 716c7b5..c837164 100644
--- a/qadence/serial_expr_grammar.peg
+++ b/qadence/serial_expr_grammar.peg
@@ -1,11 +1,12 @@
-Program = expr EOF
+Program = (expr / const) EOF
 expr = id '(' args ')'
-args = (value / expr) (',' (value / expr))*
+args = (value / expr / const) (',' (value / expr / const))*
 value = int / float_str / str / pair
 pair = param '=' (int / bool / str)
-param = r"[a-z][a-zA-Z]*"
+param = r"[a-z][a-zA-Z_]*"
 id = r"[a-zA-Z][a-zA-Z_0-9]*"
+const = 'pi' / 'E' / 'I'
 bool = 'True' / 'False'
 int = r"-?(0|[1-9][0-9]*)"
-float_str = r"'-?(0|\d*(\.\d*))'"
+float_str = r"'-?(0|\d*(\.\d*))(e[+-]?\d+)?'"
 str = r"'[a-zA-Z0-9\_\.]+'"
-- 
2.43.0


From 5888fc439e249365772e164568ff92b4ae50ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:31 +0000
Subject: [PATCH 33/67] fix: a Parameter made from a Parameter stays the same
 kind of symbol

---
 qadence/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/parameters.py b/qadence/parameters.py
index 0ffe677..30b57bf 100644
--- a/qadence/parameters.py
+++ b/qadence/parameters.py
@@ -109,7 +109,7 @@ class Parameter(Symbol):
             else:
                 return Array(name.detach().numpy())
         elif isinstance(name, Parameter):
-            p = super().__new__(cls, name.name, **assumptions)
+            p = super().__new__(cls, name.name, **{**name._assumptions_orig, **assumptions})
             p.name = name.name
             p.trainable = name.trainable
             p.value = name.value
-- 
2.43.0


From 0259a82de206a824b00fbe0feca6a7db1f09293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:39 +0000
Subject: [PATCH 34/67] fix: PutBlock can be deserialized

---
 qadence/blocks/composite.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qadence/blocks/composite.py b/qadence/blocks/composite.py
index 06ca959..2b8cea7 100644
--- a/qadence/blocks/composite.py
+++ b/qadence/blocks/composite.py
@@ -175,6 +175,12 @@ class PutBlock(CompositeBlock):
     def __ascii__(self, console: Console) -> RenderableType:
         return self.blocks[0].__ascii__(console)
 
+    @classmethod
+    def _from_dict(cls, d: dict) -> PutBlock:
+        from qadence.blocks.utils import _block_from_dict
+
+        return cls(_block_from_dict(d["blocks"][0]), tuple(d["qubit_support"]))
+
     def dagger(self) -> PutBlock:
         return PutBlock(self.blocks[0].dagger(), self.qubit_support)
 
-- 
2.43.0


From 3ea79eec9344a22cbc4e504beab73736cd10f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:00 +0000
Subject: [PATCH 35/67] fix: deserializing a register keeps its coordinates

---
 qadence/register.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/register.py b/qadence/register.py
index 795d5c7..f22053a 100644
--- a/qadence/register.py
+++ b/qadence/register.py
@@ -346,6 +346,7 @@ class Register:
 
         return cls(
             support=nx.node_link_graph(d["graph"]),
+            spacing=None,
             device_specs=RydbergDevice._from_dict(device_dict),
         )
 
-- 
2.43.0


From ff645628045d4649590793c9a81ccb4d408d73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:00 +0000
Subject: [PATCH 36/67] fix: noise read from JSON is made of noise protocols
 again

---
 qadence/noise/protocols.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index ea3d6d4..63b63bf 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from itertools import compress
-from typing import Any
+from typing import Any, get_args
 
 from qadence.types import NoiseEnum, NoiseProtocol
 
@@ -141,9 +141,21 @@ class NoiseHandler:
     @classmethod
     def _from_dict(cls, d: dict | None) -> NoiseHandler | None:
         if d is not None and d.get("protocol", None):
-            return cls(d["protocol"], d["options"])
+            protocols = [cls._as_protocol(p, o) for p, o in zip(d["protocol"], d["options"])]
+            return cls(protocols, d["options"])
         return None
 
+    @staticmethod
+    def _as_protocol(protocol: NoiseEnum | str, option: dict) -> NoiseEnum:
+        """The protocol a string stands for, e.g. after reading it from a JSON file."""
+        if isinstance(protocol, get_args(NoiseEnum)):
+            return protocol  # type: ignore[return-value]
+        if protocol in [str(p.value) for p in NoiseProtocol.READOUT]:
+            return NoiseProtocol.READOUT(protocol)
+        if "noise_probs" in option:
+            return NoiseProtocol.ANALOG(protocol)
+        return NoiseProtocol.DIGITAL(protocol)
+
     @classmethod
     def list(cls) -> list:
         return list(filter(lambda el: not el.startswith("__"), dir(cls)))
-- 
2.43.0


From c8c3f85ec2b25f530d6f29230946ed182ce8854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:00 +0000
Subject: [PATCH 37/67] fix: noise handlers with a different number of
 protocols are not equal

---
 qadence/noise/protocols.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qadence/noise/protocols.py b/qadence/noise/protocols.py
index 63b63bf..9eff051 100644
--- a/qadence/noise/protocols.py
+++ b/qadence/noise/protocols.py
@@ -126,9 +126,7 @@ class NoiseHandler:
         if not isinstance(other, NoiseHandler):
             raise TypeError(f"Cant compare {type(self)} to {type(other)}")
         if isinstance(other, type(self)):
-            protocols_equal = all([p1 == p2 for p1, p2 in zip(self.protocol, other.protocol)])
-            options_equal = all([o1 == o2 for o1, o2 in zip(self.options, other.options)])
-            return protocols_equal and options_equal
+            return self.protocol == other.protocol and self.options == other.options
 
         return False
 
-- 
2.43.0


From f9bb151b9eff2d73607724d026afbf447aabea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:00 +0000
Subject: [PATCH 38/67] fix: measurement and mitigation protocols with options
 can be deserialized

---
 qadence/measurements/protocols.py | 2 +-
 qadence/mitigations/protocols.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/measurements/protocols.py b/qadence/measurements/protocols.py
index d0868b0..c8d2542 100644
--- a/qadence/measurements/protocols.py
+++ b/qadence/measurements/protocols.py
@@ -34,5 +34,5 @@ class Measurements:
     @classmethod
     def _from_dict(cls, d: dict) -> Measurements | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
diff --git a/qadence/mitigations/protocols.py b/qadence/mitigations/protocols.py
index b77047e..d3d0bad 100644
--- a/qadence/mitigations/protocols.py
+++ b/qadence/mitigations/protocols.py
@@ -36,7 +36,7 @@ class Mitigations:
     @classmethod
     def _from_dict(cls, d: dict) -> Mitigations | None:
         if d:
-            return cls(d["protocol"], **d["options"])
+            return cls(d["protocol"], d["options"])
         return None
 
     @classmethod
-- 
2.43.0


From 724727fa0184ee27a6f7be7808164fc497193690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:00 +0000
Subject: [PATCH 39/67] fix: deserializing a device does not change the given
 dictionary

---
 qadence/analog/device.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qadence/analog/device.py b/qadence/analog/device.py
index adfc59f..ea9b1d3 100644
--- a/qadence/analog/device.py
+++ b/qadence/analog/device.py
@@ -69,8 +69,7 @@ class RydbergDevice:
     @classmethod
     def _from_dict(cls, d: dict) -> RydbergDevice:
         pattern = AddressingPattern._from_dict(d["pattern"])
-        d["pattern"] = pattern
-        return cls(**d)
+        return cls(**{**d, "pattern": pattern})
 
 
 def IdealDevice(pattern: AddressingPattern | None = None) -> RydbergDevice:
-- 
2.43.0


From 242d8ec84cb68c4246656a0a8b4e3c4688a642e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 40/67] fix: a model without observable can be deserialized

---
 qadence/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/model.py b/qadence/model.py
index a9a4d8a..a2ce031 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -473,7 +473,7 @@ class QuantumModel(nn.Module):
             if isinstance(self._observable, list):
                 abs_obs = [obs.abstract._to_dict() for obs in self._observable]
             else:
-                abs_obs = [dict()]
+                abs_obs = None
 
             d = {
                 "circuit": self._circuit.abstract._to_dict(),
-- 
2.43.0


From 680648300564a63bd5ce8f4f7bfb8d0ae1766c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 41/67] fix: parameters of a deserialized model are trainable
 exactly if they were

---
 qadence/ml_tools/models.py | 2 +-
 qadence/model.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index d3eb496..9bbb182 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -494,7 +494,7 @@ class QNN(QuantumModel):
                 conv_pd = nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = nn.Parameter(param)
+                    conv_pd[n] = nn.Parameter(param, requires_grad=param.requires_grad)
                 qnn._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
diff --git a/qadence/model.py b/qadence/model.py
index a2ce031..fbdc19a 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -529,7 +529,7 @@ class QuantumModel(nn.Module):
                 conv_pd = torch.nn.ParameterDict()
                 param_dict = d["param_dict"]
                 for n, param in param_dict.items():
-                    conv_pd[n] = torch.nn.Parameter(param)
+                    conv_pd[n] = torch.nn.Parameter(param, requires_grad=param.requires_grad)
                 qm._params = conv_pd
             logger.debug(f"Initialized {cls.__name__} from {d}.")
 
-- 
2.43.0


From a48f9f76664523926681201e54969c0db57396bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 42/67] fix: serializing a model keeps its mitigation protocol

---
 qadence/model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qadence/model.py b/qadence/model.py
index fbdc19a..3a951e8 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -484,6 +484,9 @@ class QuantumModel(nn.Module):
                     self._measurement._to_dict() if self._measurement is not None else dict()
                 ),
                 "noise": self._noise._to_dict() if self._noise is not None else dict(),
+                "mitigation": (
+                    self._mitigation._to_dict() if self._mitigation is not None else dict()
+                ),
                 "backend_configuration": asdict(self.backend.backend.config),  # type: ignore
             }
             param_dict_conv = {}
@@ -522,6 +525,7 @@ class QuantumModel(nn.Module):
                 diff_mode=qm_dict["diff_mode"],
                 measurement=Measurements._from_dict(qm_dict["measurement"]),
                 noise=NoiseHandler._from_dict(qm_dict["noise"]),
+                mitigation=Mitigations._from_dict(qm_dict.get("mitigation", dict())),
                 configuration=config_factory(qm_dict["backend"], qm_dict["backend_configuration"]),
             )
 
-- 
2.43.0


From 15f64364a049b1c40b6cddddf1c22116aa17e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 43/67] fix: serializing a QNN keeps its input differentiation
 mode

---
 qadence/ml_tools/models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qadence/ml_tools/models.py b/qadence/ml_tools/models.py
index 9bbb182..80897e9 100644
--- a/qadence/ml_tools/models.py
+++ b/qadence/ml_tools/models.py
@@ -467,6 +467,7 @@ class QNN(QuantumModel):
         try:
             d = super()._to_dict(save_params)
             d[self.__class__.__name__]["inputs"] = [str(i) for i in self.inputs]
+            d[self.__class__.__name__]["input_diff_mode"] = self.input_diff_mode
             logger.debug(f"{self.__class__.__name__} serialized to {d}.")
         except Exception as e:
             logger.warning(f"Unable to serialize {self.__class__.__name__} due to {e}.")
@@ -488,6 +489,7 @@ class QNN(QuantumModel):
                 noise=NoiseHandler._from_dict(qm_dict["noise"]),
                 configuration=config_factory(qm_dict["backend"], qm_dict["backend_configuration"]),
                 inputs=qm_dict["inputs"],
+                input_diff_mode=qm_dict.get("input_diff_mode", InputDiffMode.AD),
             )
 
             if as_torch:
-- 
2.43.0


From c6080c30901580879ff33f70be143672dec25248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:36 +0000
Subject: [PATCH 44/67] fix: load restores the parameters saved with a model

---
 qadence/serialization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index 4e67a75..3662b80 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -465,10 +465,10 @@ def load(file_path: str | Path, map_location: str = "cpu") -> SUPPORTED_TYPES:
         logger.error(f"File {file_path} not found.")
         raise FileNotFoundError
     FORMAT = file_extension(file_path)
-    _, _, load_fn, _ = FORMAT_DICT[FORMAT]  # type: ignore[index]
+    _, _, load_fn, has_params = FORMAT_DICT[FORMAT]  # type: ignore[index]
     try:
         d = load_fn(file_path, map_location)
         logger.debug(f"Successfully loaded {d} from {file_path}.")
     except Exception as e:
         logger.error(f"Unable to load Object from {file_path} due to {e}")
-    return deserialize(d)
+    return deserialize(d, as_torch=has_params)
-- 
2.43.0


From 556d383b5a4ff0aa6d09da921ed88033ed334741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:08 +0000
Subject: [PATCH 45/67] fix: evaluating a serialized expression can only reach
 sympy expressions and parameters

---
 qadence/serialization.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/qadence/serialization.py b/qadence/serialization.py
index 3662b80..ac3e88e 100644
--- a/qadence/serialization.py
+++ b/qadence/serialization.py
@@ -11,6 +11,7 @@ from pathlib import Path
 from typing import Any, Callable, get_args
 from typing import Union as TypingUnion
 
+import sympy
 import torch
 from arpeggio import NoMatch
 from arpeggio.cleanpeg import ParserPEG
@@ -82,6 +83,17 @@ def _parser_fn() -> ParserPEG:
 _parsing_serialize_expr = _parser_fn()
 
 
+@lru_cache
+def _expression_names() -> dict:
+    """The names an expression can refer to: sympy expressions and parameters, nothing else."""
+    names = {n: obj for n, obj in vars(sympy).items() if _is_expression(obj)}
+    return {**names, "Parameter": Parameter, "__builtins__": {}}
+
+
+def _is_expression(obj: Any) -> bool:
+    return isinstance(obj, core.Basic) or isinstance(obj, type) and issubclass(obj, core.Basic)
+
+
 def parse_expr_fn(code: str) -> bool:
     """
     A parsing expressions function that checks whether a given code is valid on.
@@ -200,7 +212,7 @@ class ExpressionSerialization(SerializationModel):
 
     def __post_init__(self) -> None:
         if parse_expr_fn(self.d["expression"]):
-            expr = eval(self.d["expression"])
+            expr = eval(self.d["expression"], dict(_expression_names()))
             if hasattr(expr, "free_symbols"):
                 for s in expr.free_symbols:
                     s.value = float(self.d["symbols"][s.name]["value"])
-- 
2.43.0


From 94508f7293b975273f2902332a8f95b7999fc25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:40 +0000
Subject: [PATCH 46/67] fix: adjoint expectation of several observables has one
 column per observable

---
 qadence/engines/torch/differentiable_expectation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/engines/torch/differentiable_expectation.py b/qadence/engines/torch/differentiable_expectation.py
index d272f44..e250e17 100644
--- a/qadence/engines/torch/differentiable_expectation.py
+++ b/qadence/engines/torch/differentiable_expectation.py
@@ -162,7 +162,7 @@ class DifferentiableExpectation:
             )  # we expect (batch_size, n_observables) shape
 
         expectation_list = [expectation_fn(i) for i in range(len(self.observable))]
-        return torch.vstack(expectation_list)
+        return torch.hstack(expectation_list)
 
     def psr(self, psr_fn: Callable, **psr_args: int | float | None) -> Tensor:
         # wrapper which unpacks the parameters
-- 
2.43.0


From 6e6a840f9847dd0d2e251b228439902ac4b9cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:01 +0000
Subject: [PATCH 47/67] fix: expectation runs a measurement protocol also
 without a differentiation mode

---
 qadence/execution.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qadence/execution.py b/qadence/execution.py
index c98f825..26b4488 100644
--- a/qadence/execution.py
+++ b/qadence/execution.py
@@ -248,7 +248,11 @@ def _(
     configuration: Union[BackendConfiguration, dict, None] = None,
 ) -> Tensor:
     observable = observable if isinstance(observable, list) else [observable]
-    bknd = backend_factory(backend, diff_mode=diff_mode, configuration=configuration)
+    engine_mode = diff_mode
+    if diff_mode is None and measurement is not None:
+        # Measurement protocols are run by the differentiation engines.
+        engine_mode = DiffMode.AD if backend == BackendName.PYQTORCH else DiffMode.GPSR
+    bknd = backend_factory(backend, diff_mode=engine_mode, configuration=configuration)
     conv = bknd.convert(circuit, observable)
 
     def _expectation() -> Tensor:
-- 
2.43.0


From e93a4c8b131c16434e200d16a099084319b8a8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:21 +0000
Subject: [PATCH 48/67] fix: measurement protocols expand observables into
 words of distinct Pauli operators

Identity factors, nested products, products of sums, unsorted products (shadows)
and N were measured as a different observable.
---
 qadence/measurements/samples.py    |   6 +-
 qadence/measurements/shadow.py     |  15 +++--
 qadence/measurements/tomography.py |   6 +-
 qadence/measurements/utils.py      | 105 +++++++++++++++++++++++++++--
 4 files changed, 112 insertions(+), 20 deletions(-)

diff --git a/qadence/measurements/samples.py b/qadence/measurements/samples.py
index 02275c6..788c20a 100644
--- a/qadence/measurements/samples.py
+++ b/qadence/measurements/samples.py
@@ -6,8 +6,7 @@ from typing import List
 from torch import Tensor
 
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import unroll_block_with_scaling
-from qadence.measurements.utils import pauli_z_expectation
+from qadence.measurements.utils import pauli_decomposition, pauli_z_expectation
 
 
 def compute_expectation(
@@ -30,9 +29,8 @@ def compute_expectation(
     expectation_vals = []
 
     for obs in observable:
-        decomposition = unroll_block_with_scaling(obs)
         if not obs._is_diag_pauli or obs.is_identity:
             raise TypeError("observable provided is not in the Z basis")
-        expectation_vals.append(pauli_z_expectation(decomposition, samples))
+        expectation_vals.append(pauli_z_expectation(pauli_decomposition(obs), samples))
 
     return expectation_vals
diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index a2da68b..debf566 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -13,9 +13,10 @@ from qadence.blocks.primitive import PrimitiveBlock
 from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import get_qubit_indices_for_op
+from qadence.measurements.utils import get_qubit_indices_for_op, pauli_decomposition
 from qadence.noise import NoiseHandler
-from qadence.operations import H, I, SDagger, X, Y, Z
+from qadence.operations import H, I, N, SDagger, X, Y, Z
+from qadence.parameters import evaluate
 from qadence.types import BackendName, Endianness
 
 pauli_gates = [X, Y, Z]
@@ -49,14 +50,14 @@ def _max_observable_weight(observable: AbstractBlock) -> int:
         weight = 0
         block = pauli_term[0]
         if isinstance(block, PrimitiveBlock):
-            if isinstance(block, (X, Y, Z)):
+            if isinstance(block, (X, Y, Z, N)):
                 weight += 1
             weights.append(weight)
         else:
             pauli_blocks = get_pauli_blocks(block=block)
             weight = 0
             for block in pauli_blocks:
-                if isinstance(block, (X, Y, Z)):
+                if isinstance(block, (X, Y, Z, N)):
                     weight += 1
             weights.append(weight)
     return max(weights)
@@ -259,11 +260,11 @@ def estimations(
     )
     estimations = []
     for observable in observables:
-        pauli_decomposition = unroll_block_with_scaling(observable)
+        pauli_terms = pauli_decomposition(observable)
         batch_estimations = []
         for batch in batch_shadow_samples:
             pauli_term_estimations = []
-            for pauli_term in pauli_decomposition:
+            for pauli_term in pauli_terms:
                 # Get the estimators for the current Pauli term.
                 # This is a tensor<float> of size K.
                 estimation = estimators(
@@ -275,7 +276,7 @@ def estimations(
                 )
                 # Compute the median of means for the current Pauli term.
                 # Weigh the median by the Pauli term scaling.
-                pauli_term_estimations.append(torch.median(estimation) * pauli_term[1])
+                pauli_term_estimations.append(torch.median(estimation) * evaluate(pauli_term[1]))
             # Sum the expectations for each Pauli term to get the expectation for the
             # current batch.
             batch_estimations.append(sum(pauli_term_estimations))
diff --git a/qadence/measurements/tomography.py b/qadence/measurements/tomography.py
index f7398de..7310b0d 100644
--- a/qadence/measurements/tomography.py
+++ b/qadence/measurements/tomography.py
@@ -6,10 +6,9 @@ from torch import Tensor
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
 from qadence.blocks import AbstractBlock
-from qadence.blocks.utils import unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import iterate_pauli_decomposition
+from qadence.measurements.utils import iterate_pauli_decomposition, pauli_decomposition
 from qadence.noise import NoiseHandler
 from qadence.utils import Endianness
 
@@ -53,12 +52,11 @@ def compute_expectation(
         raise KeyError("Tomography protocol requires a 'n_shots' kwarg of type 'int'.")
     estimated_values = []
     for observable in observables:
-        pauli_decomposition = unroll_block_with_scaling(observable)
         estimated_values.append(
             iterate_pauli_decomposition(
                 circuit=circuit,
                 param_values=param_values,
-                pauli_decomposition=pauli_decomposition,
+                pauli_decomposition=pauli_decomposition(observable),
                 n_shots=n_shots,
                 state=state,
                 backend=backend,
diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index 1913af9..bdc41cd 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -5,20 +5,113 @@ from functools import reduce
 from typing import Dict, List, Tuple
 
 import numpy as np
+import sympy
 import torch
 from sympy import Basic
 from torch import Tensor
 
 from qadence.backend import Backend
 from qadence.backends.pyqtorch import Backend as PyQBackend
-from qadence.blocks import AbstractBlock, PrimitiveBlock, chain
+from qadence.blocks import (
+    AbstractBlock,
+    AddBlock,
+    ChainBlock,
+    KronBlock,
+    PrimitiveBlock,
+    ScaleBlock,
+    chain,
+    kron,
+)
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
 from qadence.noise import NoiseHandler
-from qadence.operations import H, I, SDagger, X, Y
+from qadence.operations import H, I, N, SDagger, X, Y, Z
 from qadence.parameters import evaluate
 from qadence.utils import Endianness
 
+# A Pauli word as the (qubit, Pauli) pairs it consists of, ordered by qubit and without identities.
+PauliWord = Tuple[Tuple[int, str], ...]
+
+# Products of two different Pauli operators.
+PAULI_PRODUCTS = {
+    ("X", "Y"): (sympy.I, "Z"),
+    ("Y", "X"): (-sympy.I, "Z"),
+    ("Y", "Z"): (sympy.I, "X"),
+    ("Z", "Y"): (-sympy.I, "X"),
+    ("Z", "X"): (sympy.I, "Y"),
+    ("X", "Z"): (-sympy.I, "Y"),
+}
+
+
+def _multiply_words(left: PauliWord, right: PauliWord) -> Tuple[PauliWord, Basic]:
+    """The Pauli word of the operator product `left @ right` and its phase."""
+    phase = sympy.Integer(1)
+    word = dict(left)
+    for qubit, pauli in right:
+        if qubit not in word:
+            word[qubit] = pauli
+        elif word[qubit] == pauli:
+            del word[qubit]
+        else:
+            factor, word[qubit] = PAULI_PRODUCTS[(word[qubit], pauli)]
+            phase = phase * factor
+    return tuple(sorted(word.items())), phase
+
+
+def _pauli_words(block: AbstractBlock) -> Dict[PauliWord, Basic]:
+    words: Dict[PauliWord, Basic] = {}
+    if isinstance(block, ScaleBlock):
+        words = {word: block.scale * coeff for word, coeff in _pauli_words(block.block).items()}
+    elif isinstance(block, AddBlock):
+        for b in block.blocks:
+            for word, coeff in _pauli_words(b).items():
+                words[word] = words.get(word, sympy.Integer(0)) + coeff
+    elif isinstance(block, (ChainBlock, KronBlock)):
+        words = {(): sympy.Integer(1)}
+        for b in block.blocks:
+            product: Dict[PauliWord, Basic] = {}
+            # The first block of a chain is the rightmost operator.
+            for left, left_coeff in _pauli_words(b).items():
+                for right, right_coeff in words.items():
+                    word, phase = _multiply_words(left, right)
+                    coeff = phase * left_coeff * right_coeff
+                    product[word] = product.get(word, sympy.Integer(0)) + coeff
+            words = product
+    elif isinstance(block, N):
+        half = sympy.Rational(1, 2)
+        sign = -1 if block.ket == "1" else 1
+        words = {(): half, ((block.qubit_support[0], "Z"),): sign * half}
+    elif isinstance(block, I):
+        words = {(): sympy.Integer(1)}
+    elif isinstance(block, (X, Y, Z)):
+        words = {((block.qubit_support[0], block.name.value),): sympy.Integer(1)}
+    else:
+        raise TypeError(f"Measurement protocols require Pauli observables. Got {type(block)}.")
+    return words
+
+
+def pauli_decomposition(observable: AbstractBlock) -> List[Tuple[AbstractBlock, Basic]]:
+    """Expand an observable into Pauli words with their coefficients.
+
+    Every word acts once on each of its qubits, in increasing order and without
+    identity factors.
+
+    Args:
+        observable: An observable made of Pauli operators and `N`.
+
+    Returns: A list of tuples of a Pauli word and its coefficient.
+    """
+    ops = {"X": X, "Y": Y, "Z": Z}
+    terms = []
+    for word, coeff in _pauli_words(observable).items():
+        paulis = [ops[pauli](qubit) for qubit, pauli in word]
+        if not paulis:
+            term = I(observable.qubit_support[0])
+        else:
+            term = kron(*paulis) if len(paulis) > 1 else paulis[0]
+        terms.append((term, coeff))
+    return terms
+
 
 def get_qubit_indices_for_op(
     pauli_term: Tuple[AbstractBlock, Basic], op: PrimitiveBlock | None = None
@@ -27,14 +120,16 @@ def get_qubit_indices_for_op(
 
     Args:
         pauli_term: Tuple of a Pauli block and a parameter.
-        op: Tuple of Primitive blocks or None.
+        op: Tuple of Primitive blocks or None for every op but the identity.
 
     Returns: A list of integers representing qubit indices.
     """
     blocks = getattr(pauli_term[0], "blocks", None)
     blocks = blocks if blocks is not None else [pauli_term[0]]
     indices = [
-        block.qubit_support[0] for block in blocks if (op is None) or (isinstance(block, type(op)))
+        block.qubit_support[0]
+        for block in blocks
+        if (not isinstance(block, I) if op is None else isinstance(block, type(op)))
     ]
     return indices
 
@@ -174,7 +269,7 @@ def iterate_pauli_decomposition(
             estim_values = empirical_average(samples=samples, support=support)
             # TODO: support for parametric observables to be tested
             estimated_values.append(estim_values * evaluate(pauli_term[1]))
-    res = torch.sum(torch.stack(estimated_values), axis=0)
+    res = torch.sum(torch.stack(torch.broadcast_tensors(*estimated_values)), axis=0)
     # Allow for automatic differentiation.
     res.requires_grad = True
     return res
-- 
2.43.0


From 914425246a32a405db844dbd35feddb5c291b1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:21 +0000
Subject: [PATCH 49/67] fix: measurement protocols read bit strings in the
 qubit order of the observable

---
 qadence/measurements/shadow.py | 5 ++---
 qadence/measurements/utils.py  | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index debf566..d6c0f7b 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -145,7 +145,6 @@ def classical_shadow(
             circuit=conv_circ,
             param_values=param_values,
             state=state,
-            endianness=endianness,
         )
         all_rotations = [
             QuantumCircuit(circuit.n_qubits, rots) if rots else QuantumCircuit(circuit.n_qubits)
@@ -162,7 +161,6 @@ def classical_shadow(
         ]
 
     for i in range(shadow_size):
-        # Reverse endianness to get sample bitstrings in ILO.
         conv_circ = backend.circuit(all_rotations[i])
         batch_samples = backend.sample(
             circuit=conv_circ,
@@ -170,7 +168,8 @@ def classical_shadow(
             n_shots=1,
             state=initial_state,
             noise=noise,
-            endianness=endianness,
+            # The support of an observable refers to bit strings in qubit order.
+            endianness=Endianness.BIG,
         )
         shadow.append(batch_samples)
     bitstrings = list()
diff --git a/qadence/measurements/utils.py b/qadence/measurements/utils.py
index bdc41cd..6aee5d0 100644
--- a/qadence/measurements/utils.py
+++ b/qadence/measurements/utils.py
@@ -264,7 +264,8 @@ def iterate_pauli_decomposition(
                 n_shots=n_shots,
                 state=state,
                 noise=noise,
-                endianness=endianness,
+                # The support of the observable refers to bit strings in qubit order.
+                endianness=Endianness.BIG,
             )
             estim_values = empirical_average(samples=samples, support=support)
             # TODO: support for parametric observables to be tested
-- 
2.43.0


From 28564cc9b14e41bcfd180885395af19d6b863d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:21 +0000
Subject: [PATCH 50/67] fix: classical shadows raise for missing options and
 accept a shadow size alone

---
 qadence/measurements/shadow.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index d6c0f7b..2ef8d96 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -321,13 +321,16 @@ def compute_expectation(
     shadow_size = options.get("shadow_size", None)
     accuracy = options.get("accuracy", None)
     if shadow_size is None and accuracy is None:
-        KeyError(
-            "Shadow protocol requires either an option"
+        raise KeyError(
+            "Shadow protocol requires either an option "
             "'shadow_size' of type 'int' or 'accuracy' of type 'float'."
         )
     confidence = options.get("confidence", None)
     if confidence is None:
-        KeyError("Shadow protocol requires a 'confidence' kwarg of type 'float'.")
+        raise KeyError("Shadow protocol requires a 'confidence' kwarg of type 'float'.")
+    if accuracy is None:
+        # A given `shadow_size` is the shot budget, whatever the accuracy.
+        accuracy = 0.1
     return estimations(
         circuit=circuit,
         observables=observables,
-- 
2.43.0


From 538b00641b0d15c7431c89178f5689e5ecdb37ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:21 +0000
Subject: [PATCH 51/67] fix: classical shadows apply the noise to the circuit
 and keep its register

---
 qadence/measurements/shadow.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index 2ef8d96..a1343e9 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -137,7 +137,7 @@ def classical_shadow(
 
     initial_state = state
     backend_name = backend.name if hasattr(backend, "name") else backend.backend.name
-    if backend_name == BackendName.PYQTORCH:
+    if backend_name == BackendName.PYQTORCH and noise is None:
         # run the initial circuit without rotations
         # to save computation time
         conv_circ = backend.circuit(circuit)
@@ -153,9 +153,9 @@ def classical_shadow(
     else:
         all_rotations = [
             (
-                QuantumCircuit(circuit.n_qubits, circuit.block, rots)
+                QuantumCircuit(circuit.register, circuit.block, rots)
                 if rots
-                else QuantumCircuit(circuit.n_qubits, circuit.block)
+                else QuantumCircuit(circuit.register, circuit.block)
             )
             for rots in all_rotations
         ]
-- 
2.43.0


From 8db23f917bb843cc1a07118b7efd73bdbdeeb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:40 +0000
Subject: [PATCH 52/67] fix: raise the errors for a wrong circuit type and
 unknown protocols

---
 qadence/measurements/protocols.py | 2 +-
 qadence/mitigations/protocols.py  | 2 +-
 qadence/model.py                  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/measurements/protocols.py b/qadence/measurements/protocols.py
index c8d2542..9d0b840 100644
--- a/qadence/measurements/protocols.py
+++ b/qadence/measurements/protocols.py
@@ -24,7 +24,7 @@ class Measurements:
         try:
             module = importlib.import_module(PROTOCOL_TO_MODULE[self.protocol])
         except KeyError:
-            ImportError(f"The module corresponding to the protocol {self.protocol} is not found.")
+            raise ImportError(f"The module corresponding to the protocol {self.protocol} is not found.")
         fn = getattr(module, "compute_expectation")
         return cast(Callable, fn)
 
diff --git a/qadence/mitigations/protocols.py b/qadence/mitigations/protocols.py
index d3d0bad..7bab412 100644
--- a/qadence/mitigations/protocols.py
+++ b/qadence/mitigations/protocols.py
@@ -26,7 +26,7 @@ class Mitigations:
         try:
             module = importlib.import_module(PROTOCOL_TO_MODULE[self.protocol])
         except KeyError:
-            ImportError(f"The module corresponding to the protocol {self.protocol} is not found.")
+            raise ImportError(f"The module corresponding to the protocol {self.protocol} is not found.")
         fn = getattr(module, "mitigate")
         return cast(Callable, fn)
 
diff --git a/qadence/model.py b/qadence/model.py
index 3a951e8..c3bef3e 100644
--- a/qadence/model.py
+++ b/qadence/model.py
@@ -113,7 +113,7 @@ class QuantumModel(nn.Module):
         super().__init__()
 
         if not isinstance(circuit, QuantumCircuit):
-            TypeError(
+            raise TypeError(
                 f"The circuit should be of type '<class QuantumCircuit>'. Got {type(circuit)}."
             )
 
-- 
2.43.0


From ea03309e64511443f2b1e6104ad5a8b6960f9de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:37 +0000
Subject: [PATCH 53/67] fix: set_noise reaches the gates inside scaled blocks

---
 qadence/transpile/noise.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qadence/transpile/noise.py b/qadence/transpile/noise.py
index c8a5ea9..c05bdf5 100644
--- a/qadence/transpile/noise.py
+++ b/qadence/transpile/noise.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from qadence.backend import ConvertedCircuit
 from qadence.blocks.abstract import AbstractBlock
+from qadence.blocks.primitive import ScaleBlock
 from qadence.circuit import QuantumCircuit
 from qadence.noise.protocols import NoiseHandler
 
@@ -14,6 +15,11 @@ def _set_noise(
     target_class: type[AbstractBlock] | None = None,
 ) -> AbstractBlock:
     """Changes the noise protocol of a given block in place."""
+    if isinstance(block, ScaleBlock):
+        # the noise acts on the gates that are scaled
+        apply_fn_to_blocks(block.block, _set_noise, noise, target_class)
+        return block
+
     if target_class is not None:
         if isinstance(block, target_class):
             block._noise = noise  # type: ignore [attr-defined]
-- 
2.43.0


From 753183e840e173b418457a52d163061cb1b2835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:17 +0000
Subject: [PATCH 54/67] fix: classical shadows of one-qubit circuits

---
 qadence/measurements/shadow.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index a1343e9..d1563ea 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -117,9 +117,7 @@ def extract_operators(unitary_ids: np.ndarray, n_qubits: int) -> list:
         list: Pauli strings.
     """
     operations = nested_operator_indexing(unitary_ids)
-    if n_qubits > 1:
-        operations = [kron_if_non_empty(ops) for ops in operations]
-    return operations
+    return [kron_if_non_empty(ops) for ops in operations]
 
 
 def classical_shadow(
-- 
2.43.0


From fe4409d716b23b692a41e9b81ce0be82c9b128cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:56 +0000
Subject: [PATCH 55/67] fix: analog rotations with a positive phase on Pulser

---
 qadence/backends/pulser/pulses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 976ee8c..4d5707e 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -235,7 +235,8 @@ def analog_rot_pulse(
         min_duration=channel.min_duration,
     )
 
-    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=abs(phase))
+    # the basis states are in reverse order in Pulser, where the sign of Y is opposite
+    return Pulse(amplitude=amp_wf, detuning=det_wf, phase=-phase)
 
 
 def entangle_pulse(
-- 
2.43.0


From 477e3abaa418dedd2114195c3ea543f6389e7dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:56 +0000
Subject: [PATCH 56/67] fix: negative detunings of analog rotations on Pulser

---
 qadence/backends/pulser/waveforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/backends/pulser/waveforms.py b/qadence/backends/pulser/waveforms.py
index aac0a65..9db5c12 100644
--- a/qadence/backends/pulser/waveforms.py
+++ b/qadence/backends/pulser/waveforms.py
@@ -73,6 +73,7 @@ class SquareWaveform(ConstantWaveform):
         amplitude = min(
             amp_steps * np.ceil(max_amp / (amp_steps + EPS) * 1e3),
             max_amp,
+            key=abs,
         )
 
         return cls(duration, amplitude)
-- 
2.43.0


From cc025f76108ed9413836c7398fa24fbca73f8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:56 +0000
Subject: [PATCH 57/67] fix: RX, RY and RZ with negative angles on Pulser

---
 qadence/backends/pulser/pulses.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/qadence/backends/pulser/pulses.py b/qadence/backends/pulser/pulses.py
index 4d5707e..364ff5c 100644
--- a/qadence/backends/pulser/pulses.py
+++ b/qadence/backends/pulser/pulses.py
@@ -264,6 +264,12 @@ def entangle_pulse(
     return Pulse(amplitude=amplitude, detuning=detuning, phase=PI / 2)
 
 
+def _positive_angle(angle: TVar | float) -> TVar | float:
+    """Replace a negative rotation angle by the positive one of the same rotation."""
+    negative = (angle - abs(angle)) / 2
+    return angle - negative + negative % (2 * PI)
+
+
 def digital_xy_rot_pulse(
     angle: TVar | float, phase: float, channel: Channel, config: Configuration | None = None
 ) -> Pulse:
@@ -274,7 +280,7 @@ def digital_xy_rot_pulse(
 
     # TODO: Implement reverse rotation for angles bigger than π
     amplitude_wf = SquareWaveform.from_area(
-        area=abs(angle),  # type: ignore
+        area=_positive_angle(angle),  # type: ignore
         max_amp=max_amp,  # type: ignore[arg-type]
         duration_steps=channel.clock_period,  # type: ignore[attr-defined]
         min_duration=channel.min_duration,
@@ -292,7 +298,7 @@ def digital_z_rot_pulse(
         max_det = config.detuning if config.detuning is not None else channel.max_abs_detuning
 
     # get pulse duration in ns
-    duration = 1000 * abs(angle) / max_det
+    duration = 1000 * _positive_angle(angle) / max_det
 
     # create amplitude waveform
     amp_wf = SquareWaveform.from_duration(
-- 
2.43.0


From 6276d6f2230b6b230c0e1cac1c4bb5b892aeedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:56 +0000
Subject: [PATCH 58/67] fix: a converted Pulser circuit without parameters can
 run more than once

---
 qadence/backends/pulser/backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index ed43ee8..5bedc41 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from collections import Counter
 from collections.abc import Iterable
+from copy import deepcopy
 from dataclasses import dataclass, field
 from logging import getLogger
 from typing import Any
@@ -170,7 +171,8 @@ class Backend(BackendInterface):
             raise ValueError(f"Please, provide values for the following parameters: {missing}")
 
         if param_values == {}:
-            return circuit.native
+            # the sequence is extended and measured when it runs
+            return deepcopy(circuit.native)
 
         numpy_param_values = {
             k: v.detach().cpu().numpy()
-- 
2.43.0


From 6abf2330c1908834f4edf09e0af98ccc3b4dfb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:56 +0000
Subject: [PATCH 59/67] fix: noisy Pulser runs use the addressing pattern and
 the initial state

---
 qadence/backends/pulser/backend.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/qadence/backends/pulser/backend.py b/qadence/backends/pulser/backend.py
index 5bedc41..801e89d 100644
--- a/qadence/backends/pulser/backend.py
+++ b/qadence/backends/pulser/backend.py
@@ -199,8 +199,9 @@ class Backend(BackendInterface):
                 "specify any cloud credentials to use the .run() method"
             )
 
+        state = state if state is None else _convert_init_state(state)
+
         if noise is None:
-            state = state if state is None else _convert_init_state(state)
             batched_wf = np.zeros((len(vals), 2**circuit.abstract.n_qubits), dtype=np.complex128)
 
             for i, param_values_el in enumerate(vals):
@@ -260,6 +261,9 @@ class Backend(BackendInterface):
 
             for i, param_values_el in enumerate(vals):
                 sequence = self.assign_parameters(circuit, param_values_el)
+                pattern = circuit.original.register.device_specs.pattern
+                if pattern is not None:
+                    add_addressing_pattern(sequence, pattern)
                 sim_result: CoherentResults = simulate_sequence(sequence, self.config, state)
                 final_state = sim_result.get_final_state().data.to_array()
                 batched_dm[i] = np.flip(final_state)
-- 
2.43.0


From 71458975ae23a6926ab385484cd909c9f3acf044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:56 +0000
Subject: [PATCH 60/67] fix: kron of analog interactions

---
 qadence/analog/parse_analog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qadence/analog/parse_analog.py b/qadence/analog/parse_analog.py
index d4b6403..0daba23 100644
--- a/qadence/analog/parse_analog.py
+++ b/qadence/analog/parse_analog.py
@@ -109,12 +109,14 @@ def _analog_to_hevo(
         # the same duration, and clean this code accordingly.
         # https://github.com/pasqal-io/qadence/issues/226
         ops = []
-        for block in block.blocks:
+        blocks = block.blocks
+        for block in blocks:
             if isinstance(block, ConstantAnalogRotation):
                 h_drive = rydberg_drive_hamiltonian(block, register)
                 ops.append(_build_rot_ham_evo(block, h_int, h_addr, h_drive))
         if len(ops) == 0:
-            ops.append(HamEvo(h_background, duration / 1000))  # type: ignore [arg-type]
+            # only interactions, which all have the same duration
+            ops.append(_analog_to_hevo(blocks[0], register, h_int, h_addr))
         return chain(*ops)
 
     return block
-- 
2.43.0


From 7d01c819d119dc7c463c0efd3978ed8ea94fb64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:33 +0000
Subject: [PATCH 61/67] fix: alternating layer ansatz configurations use the
 depth and the operations

---
 qadence/ml_tools/constructors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 75c420e..e6b0a51 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -612,12 +612,13 @@ def _create_ala_digital(
     Returns:
         AbstractBlock: The Digital Alternating Layer Ansatz.
     """
-    operations = config.strategy_args.get("operation", [RX, RY, RX])
+    operations = config.strategy_args.get("operations", [RX, RY, RX])
     entangler = config.strategy_args.get("entangler", CNOT)
 
     return ala_digital(
         n_qubits=num_qubits,
         m_block_qubits=config.m_block_qubits,  # type: ignore[arg-type]
+        depth=config.depth,
         param_prefix=config.param_prefix,
         operations=operations,
         entangler=entangler,
-- 
2.43.0


From 235f365380685bf8457c83d3478189e305acd880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:33 +0000
Subject: [PATCH 62/67] fix: feature maps can be interleaved with alternating
 layer ansatze

---
 qadence/ml_tools/constructors.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index e6b0a51..815b467 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -392,6 +392,7 @@ def _ansatz_layer(
         ansatz_type=ansatz_config.ansatz_type,
         ansatz_strategy=ansatz_config.ansatz_strategy,
         strategy_args=ansatz_config.strategy_args,
+        m_block_qubits=ansatz_config.m_block_qubits,
         param_prefix=f"fm_{index}",
     )
 
-- 
2.43.0


From 9d8c8c2b0cb4311eb86612cb6e8bc31150d66518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:33 +0000
Subject: [PATCH 63/67] fix: the default entangler of digital-analog identity
 initialized ansatze is a Hamiltonian

---
 qadence/ml_tools/constructors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/ml_tools/constructors.py b/qadence/ml_tools/constructors.py
index 815b467..148461f 100644
--- a/qadence/ml_tools/constructors.py
+++ b/qadence/ml_tools/constructors.py
@@ -443,7 +443,7 @@ def _create_iia_sdaqc(
         AbstractBlock: The SDAQC Identity Initialized Ansatz.
     """
     operations = config.strategy_args.get("operations", [RX, RY])
-    entangler = config.strategy_args.get("entangler", CNOT)
+    entangler = config.strategy_args.get("entangler", None)
     periodic = config.strategy_args.get("periodic", False)
 
     return iia(
-- 
2.43.0


From 43e315e18bff67c796f84fa989691c136f4fcc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:33 +0000
Subject: [PATCH 64/67] fix: the additional prefix of a Rydberg ansatz applies
 to all its parameters

---
 qadence/constructors/rydberg_hea.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qadence/constructors/rydberg_hea.py b/qadence/constructors/rydberg_hea.py
index c87efe1..7bdd706 100644
--- a/qadence/constructors/rydberg_hea.py
+++ b/qadence/constructors/rydberg_hea.py
@@ -166,16 +166,16 @@ def rydberg_hea(
     detunings = None
     # add a detuning pattern locally addressing the atoms
     if addressable_detuning:
-        detunings = [qd.VariationalParameter(f"detmap_{j}") for j in range(n_qubits)]
+        detunings = [qd.VariationalParameter(f"detmap{prefix}_{j}") for j in range(n_qubits)]
 
     drives = None
     # add a drive pattern locally addressing the atoms
     if addressable_drive:
-        drives = [qd.VariationalParameter(f"drivemap_{j}") for j in range(n_qubits)]
+        drives = [qd.VariationalParameter(f"drivemap{prefix}_{j}") for j in range(n_qubits)]
 
     phase = None
     if tunable_phase:
-        phase = qd.VariationalParameter("phase")
+        phase = qd.VariationalParameter(f"phase{prefix}")
 
     return chain(
         rydberg_hea_layer(
-- 
2.43.0


From 85599280c3eb82ab547e72469c480b15090db728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:43 +0000
Subject: [PATCH 65/67] fix: distinct parameters of deep identity initialized
 ansatze have distinct names

---
 qadence/constructors/iia.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qadence/constructors/iia.py b/qadence/constructors/iia.py
index 889d92f..4b55c9c 100644
--- a/qadence/constructors/iia.py
+++ b/qadence/constructors/iia.py
@@ -84,7 +84,7 @@ def _rotations(
                 gate(
                     target=n,  # type: ignore [call-arg]
                     parameter=Parameter(  # type: ignore [call-arg]
-                        name=param_str + f"_{layer}{n + n_qubits * idx(i)}",
+                        name=param_str + f"_{layer}_{n + n_qubits * idx(i)}",
                         value=values[n + n_qubits * idx(i)],
                         trainable=True,
                     ),
@@ -166,7 +166,7 @@ def identity_initialized_ansatz(
                         _entangler(
                             control=n,
                             target=n + 1,
-                            param_str=ent_param_prefix + f"_{layer}{n}",
+                            param_str=ent_param_prefix + f"_{layer}_{n}",
                             entangler=entangler,
                         )
                         for n in range(n_qubits - 1)
@@ -178,7 +178,7 @@ def identity_initialized_ansatz(
                         _entangler(
                             control=n,
                             target=(n + 1) % n_qubits,
-                            param_str=ent_param_prefix + f"_{layer}{n}",
+                            param_str=ent_param_prefix + f"_{layer}_{n}",
                             entangler=entangler,
                         )
                         for n in range(n_qubits)
@@ -212,7 +212,7 @@ def identity_initialized_ansatz(
             kron(
                 RX(
                     target=n,
-                    parameter=Parameter(name=f"{param_prefix}_γ" + f"_{layer}{n}", value=gamma[n]),
+                    parameter=Parameter(name=f"{param_prefix}_γ" + f"_{layer}_{n}", value=gamma[n]),
                 )
                 for n in range(n_qubits)
             )
-- 
2.43.0


From 1a97585124f4d4694a2bb9d3fd85dd1f8c4bba77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:43 +0000
Subject: [PATCH 66/67] fix: digital-analog generators on qubits beyond the
 eighth

---
 qadence/constructors/daqc/gen_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qadence/constructors/daqc/gen_parser.py b/qadence/constructors/daqc/gen_parser.py
index a557c6d..307a1a2 100644
--- a/qadence/constructors/daqc/gen_parser.py
+++ b/qadence/constructors/daqc/gen_parser.py
@@ -71,7 +71,7 @@ def _parse_generator(
 
         # We save the qubit support and interaction
         # strength of each KronBlock to be used in DAQC
-        j, k = block.qubit_support
+        j, k = sorted(block.qubit_support)
         g_jk = torch.tensor(evaluate(scale), dtype=torch.get_default_dtype())
 
         beta = _ix_map(n_qubits, j + 1, k + 1)
-- 
2.43.0


From 858c714308e0f14682d79e1ef8874215e329a82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:57 +0000
Subject: [PATCH 67/67] fix: classical shadows of observables on qubits beyond
 the eighth

---
 qadence/measurements/shadow.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qadence/measurements/shadow.py b/qadence/measurements/shadow.py
index d1563ea..72f7005 100644
--- a/qadence/measurements/shadow.py
+++ b/qadence/measurements/shadow.py
@@ -13,7 +13,7 @@ from qadence.blocks.primitive import PrimitiveBlock
 from qadence.blocks.utils import get_pauli_blocks, unroll_block_with_scaling
 from qadence.circuit import QuantumCircuit
 from qadence.engines.differentiable_backend import DifferentiableBackend
-from qadence.measurements.utils import get_qubit_indices_for_op, pauli_decomposition
+from qadence.measurements.utils import pauli_decomposition
 from qadence.noise import NoiseHandler
 from qadence.operations import H, I, N, SDagger, X, Y, Z
 from qadence.parameters import evaluate
@@ -205,8 +205,9 @@ def estimators(
         obs_to_pauli_index = [
             pauli_gates.index(type(p)) for p in observable.blocks if not isinstance(p, I)  # type: ignore[arg-type]
         ]
-        ind_I = set(get_qubit_indices_for_op((observable, 1.0), I(0)))
-        obs_qubit_support = tuple([ind for ind in observable.qubit_support if ind not in ind_I])
+        obs_qubit_support = tuple(
+            p.qubit_support[0] for p in observable.blocks if not isinstance(p, I)  # type: ignore[arg-type]
+        )
 
     floor = int(np.floor(N / K))
     traces = []
-- 
2.43.0

