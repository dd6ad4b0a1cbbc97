From 7e8c32fd445622bc7dd33b0b562a9b11fb44439b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:18:31 +0000
Subject: [PATCH 01/71] fix: null the right rail with unequal coupler errors
 and with differential phase shifters

---
 simphox/circuit/forward.py | 4 +++-
 simphox/circuit/vector.py  | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 6f873cc..1c1eaf4 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -494,7 +494,9 @@ class ForwardMesh:
             phi = np.angle(top[:, -1]) - np.angle(bottom[:, -1]) + np.pi
         else:
             phi = np.angle(bottom[:, -1]) - np.angle(top[:, -1])
-        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (cs + np.exp(-1j * theta) * sc))
+        phi += np.angle(-ss + cc * np.exp(-1j * theta)) - np.angle(1j * (sc + np.exp(-1j * theta) * cs))
+        if self.phase_style == PhaseStyle.DIFFERENTIAL:
+            phi = -phi  # the differential phase is that of the bottom arm relative to the top arm
         return theta, phi
 
     @property
diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index e552349..88a3129 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -131,6 +131,7 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
         bottom = w[nc.bottom]
 
         theta, phi = nc.parallel_nullify(w, network.mzi_terms)
+        phi = np.mod(phi, 2 * np.pi)
 
         # Vectorized (efficient!) parallel mzi elements
         t11, t12, t21, t22 = nc.parallel_mzi(theta, phi)
@@ -149,7 +150,7 @@ def _program_vector_unit(v: np.ndarray, network: ForwardMesh):
 
         # The resulting thetas and phis, indexed according to the coupling network specifications
         thetas[nc.node_idxs] = theta
-        phis[nc.node_idxs] = np.mod(phi, 2 * np.pi)
+        phis[nc.node_idxs] = phi
 
     final_basis_vec = np.zeros(v.shape[0])
     final_basis_vec[-1] = 1
-- 
2.43.0


From 9efe55f8206569e07be106a207e5cedbcfeb34c7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:19:36 +0000
Subject: [PATCH 02/71] fix: backward transfer matrix of a node is the
 transpose of the forward one

---
 simphox/circuit/forward.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 1c1eaf4..ff025f8 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -686,13 +686,13 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
 
     if phase_style == PhaseStyle.TOP:
         t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * phi + ir)
-        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp((1j * phi + ir) * (1 - back))
-        t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp((1j * phi + ir) * back)
+        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * phi + ir)
+        t21 = 1j * (sc + cs * xp.exp(1j * theta + il))
         t22 = (cc - ss * xp.exp(1j * theta + il))
     elif phase_style == PhaseStyle.BOTTOM:
         t11 = (-ss * xp.exp(1j * theta + il) + cc)
-        t12 = 1j * (cs * xp.exp(1j * theta + il) + sc) * xp.exp((1j * phi + ir) * back)
-        t21 = 1j * (sc * xp.exp(1j * theta + il) + cs) * xp.exp((1j * phi + ir) * (1 - back))
+        t12 = 1j * (cs * xp.exp(1j * theta + il) + sc)
+        t21 = 1j * (sc * xp.exp(1j * theta + il) + cs) * xp.exp(1j * phi + ir)
         t22 = (cc * xp.exp(1j * theta + il) - ss) * xp.exp(1j * phi + ir)
     elif phase_style == PhaseStyle.SYMMETRIC:
         t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
@@ -700,12 +700,14 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
         t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
         t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta / 2) + ir)
     elif phase_style == PhaseStyle.DIFFERENTIAL:
-        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
-        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * ((-phi - theta) / 2 + phi * back) + ir)
-        t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
-        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * ((phi - theta) / 2 - phi * back) + ir)
+        t11 = (-ss + cc * xp.exp(1j * theta + il)) * xp.exp(1j * (-phi - theta) / 2 + ir)
+        t12 = 1j * (cs + sc * xp.exp(1j * theta + il)) * xp.exp(1j * (-phi - theta) / 2 + ir)
+        t21 = 1j * (sc + cs * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta) / 2 + ir)
+        t22 = (cc - ss * xp.exp(1j * theta + il)) * xp.exp(1j * (phi - theta) / 2 + ir)
     else:
         raise ValueError(f"Phase style {phase_style} is not valid.")
+    if back:  # the node is reciprocal: the matrix seen from the other side is the transpose
+        t12, t21 = t21, t12
     return xp.array([t11, t12, t21, t22])
 
 
-- 
2.43.0


From b10571c21f0a6719e16259786cef9eb308c068e9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:20:30 +0000
Subject: [PATCH 03/71] fix: explicit propagation uses the same sign of the
 coupler error as the mesh matrix

---
 simphox/circuit/forward.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index ff025f8..88e9eb7 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -727,10 +727,10 @@ def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = F
     right = int(right)
     insertion = xp.exp(np.log(10) * loss_errors.T[right] / 20)
     errors = bs_errors.T[right]
-    t11 = insertion * xp.sin(np.pi / 4 + errors)
-    t12 = insertion * 1j * xp.cos(np.pi / 4 + errors)
-    t21 = 1j * xp.cos(np.pi / 4 + errors)
-    t22 = xp.sin(np.pi / 4 + errors)
+    t11 = insertion * xp.cos(np.pi / 4 + errors)
+    t12 = insertion * 1j * xp.sin(np.pi / 4 + errors)
+    t21 = 1j * xp.sin(np.pi / 4 + errors)
+    t22 = xp.cos(np.pi / 4 + errors)
     return xp.array([t11, t12, t21, t22])
 
 
-- 
2.43.0


From 30435eee13a0b2e2ea05b6905e58025fdd5dc3cb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:21:24 +0000
Subject: [PATCH 04/71] fix: explicit propagation attenuates at the same phase
 shifters as the mesh matrix

---
 simphox/circuit/forward.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 88e9eb7..d0b0d6c 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -302,8 +302,10 @@ class ForwardMesh:
                 propagated.append(outputs.copy()[None])
 
             if explicit:
-                left = _parallel_dc(bs_errors, loss_errors, right=False, use_jax=use_jax)
-                right = _parallel_dc(bs_errors, loss_errors, right=True, use_jax=use_jax)
+                left = _parallel_dc(bs_errors, loss_errors, right=False, use_jax=use_jax,
+                                    phase_style=self.phase_style, back=back)
+                right = _parallel_dc(bs_errors, loss_errors, right=True, use_jax=use_jax,
+                                     phase_style=self.phase_style, back=back)
             else:
                 mzis = _parallel_mzi(thetas, phis, bs_errors, loss_errors, use_jax=use_jax, back=back, phase_style=self.phase_style)
 
@@ -711,12 +713,16 @@ def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
     return xp.array([t11, t12, t21, t22])
 
 
-def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = False, use_jax: bool = False):
+def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = False, use_jax: bool = False,
+                 phase_style: PhaseStyle = PhaseStyle.TOP, back: bool = False):
     """This is a helper function for parallel directional couplers
     across all directional couplers in the mesh.
 
     Args:
         right: Whether to go to the right.
+        use_jax: Whether to use jax.
+        phase_style: The phase style, which says which arm has the (lossy) phase shifters.
+        back: Go backward through the directional couplers.
 
     Returns:
         A function that accepts the thetas and phis as inputs and outputs the vectorized
@@ -725,12 +731,17 @@ def _parallel_dc(bs_errors: np.ndarray, loss_errors: np.ndarray, right: bool = F
     """
     xp = jnp if use_jax else np
     right = int(right)
-    insertion = xp.exp(np.log(10) * loss_errors.T[right] / 20)
+    # the loss is that of the phase shifter on the left of the coupler: theta for the right coupler, phi for the left one
+    insertion = xp.exp(np.log(10) * loss_errors.T[1 - right] / 20)
     errors = bs_errors.T[right]
     t11 = insertion * xp.cos(np.pi / 4 + errors)
     t12 = insertion * 1j * xp.sin(np.pi / 4 + errors)
     t21 = 1j * xp.sin(np.pi / 4 + errors)
     t22 = xp.cos(np.pi / 4 + errors)
+    if phase_style == PhaseStyle.BOTTOM:
+        t11, t12, t21, t22 = t22, t21, t12, t11
+    if back:
+        t12, t21 = t21, t12
     return xp.array([t11, t12, t21, t22])
 
 
-- 
2.43.0


From 2d637786dc843001072f567f5bc615997c35dd05 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 05/71] fix: a circuit aggregated from meshes keeps their phase
 style

---
 simphox/circuit/forward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index d0b0d6c..9e8b8ca 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -141,12 +141,14 @@ class ForwardMesh:
 
         """
         all_nodes = []
+        phase_styles = []
         for obj in nodes_or_node_lists:
             if isinstance(obj, CouplingNode):
                 all_nodes.append(obj)
             else:
                 all_nodes.extend(obj.nodes)
-        return cls(all_nodes)
+                phase_styles.append(obj.phase_style)
+        return cls(all_nodes, phase_style=phase_styles[0] if phase_styles else PhaseStyle.TOP)
 
     @property
     def columns(self) -> List["ForwardMesh"]:
-- 
2.43.0


From 29dc98251c2bee0c619851bbaca322dbcf6a685c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 06/71] fix: parallel_mzi defaults to the phis of the mesh

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 9e8b8ca..efb72f0 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -545,7 +545,7 @@ class ForwardMesh:
     def parallel_mzi(self, thetas: np.ndarray = None, phis: np.ndarray = None, phase_style: PhaseStyle = None, use_jax: bool = False, back: bool = False):
         phase_style = self.phase_style if phase_style is None else phase_style
         thetas = self.params[0] if thetas is None else thetas
-        phis = self.params[0] if phis is None else phis
+        phis = self.params[1] if phis is None else phis
         return _parallel_mzi(thetas, phis, self.all_errors, self.all_losses, phase_style, use_jax, back)
 
     @property
-- 
2.43.0


From 59fb0fd3d515cea2024d85d4732eebc2dd76f976 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:22:46 +0000
Subject: [PATCH 07/71] fix: implicit propagation runs with jax

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index efb72f0..a7889e0 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -319,7 +319,7 @@ class ForwardMesh:
                                                    phase_style=self.phase_style, back=back, use_jax=True)
                 else:
                     def parallel_propagate(carry, idx):
-                        carry = _parallel_transform(carry, mzis, idx, phase_style=self.phase_style, back=back, use_jax=True)
+                        carry = _parallel_transform(carry, mzis, idx, use_jax=True)
                         return carry, carry[None]
                 outputs, _propagated = lax.scan(parallel_propagate, outputs, all_idx)
                 propagated.extend(_propagated)
-- 
2.43.0


From b817489a12a58cffeaaaf72bb62c3f3c3c3900dc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 08/71] fix: np.int does not exist any more (pml in grid cells)

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 2c26331..5d97f47 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -340,7 +340,7 @@ class YeeGrid(Grid):
         super(YeeGrid, self).__init__(size, spacing, eps)
         self.pml = pml
         self.pml_sep = pml_sep
-        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(np.int)
+        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(int)
         self.pml_params = pml_params
         self.name = name
         if self.pml_shape is not None:
-- 
2.43.0


From 5ec67afe4e1a651bf5bc560c6502a3312919aa44 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:23:40 +0000
Subject: [PATCH 09/71] fix: np.float does not exist any more (TE backward
 primitive)

---
 simphox/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/primitives.py b/simphox/primitives.py
index a6f84d6..b648410 100644
--- a/simphox/primitives.py
+++ b/simphox/primitives.py
@@ -105,7 +105,7 @@ class TMOperator:
             return te(t), None
 
         def te_bwd(_, g):
-            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), np.float))
+            v = hcb.call(_te_backward_hcb, g, result_shape=jax.ShapeDtypeStruct((n,), float))
             return v,
 
         te.defvjp(te_fwd, te_bwd)
-- 
2.43.0


From 7151f34dbf8cbdf6bbdce5bd48ab87c1668262b0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:24:35 +0000
Subject: [PATCH 10/71] fix: np.float does not exist any more (mask of a list
 of boxes)

---
 simphox/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 7578d44..3895baf 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -70,5 +70,5 @@ def get_mask_fn(rho_init: jnp.ndarray, box: Union[Box, List[Box]]):
         The mask function
 
     """
-    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(np.float)
+    mask = box.mask(rho_init) if isinstance(box, Box) else (sum([b.mask(rho_init) for b in box]) > 0).astype(float)
     return lambda rho: jnp.array(rho_init) * (1 - mask) + rho * mask
-- 
2.43.0


From 54d4bd946480d2030c74d014a551ce31dc04d5fc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:25:28 +0000
Subject: [PATCH 11/71] fix: in-situ gradients are those of the parameters in
 node order, at the arm that has the phase shifters

---
 simphox/circuit/forward.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index a7889e0..ab3156c 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -529,16 +529,20 @@ class ForwardMesh:
 
     def phase_shift_localize(self, prop_powers: np.ndarray, use_jax: bool = True):
         xp = jnp if use_jax else np
+        columns = self.columns
+        # the phase shifters are on the bottom arms for the BOTTOM phase style, and params are ordered by node index.
+        arms = [nc.bottom if self.phase_style == PhaseStyle.BOTTOM else nc.top for nc in columns]
+        order = np.argsort(np.hstack([nc.node_idxs for nc in columns]))
         if prop_powers.ndim == 3:
             return (
-                xp.vstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
-                xp.vstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]).sum(axis=-1),
+                xp.vstack([prop_powers[i * 4 + 2, arm] for i, arm in enumerate(arms)])[order].sum(axis=-1),
+                xp.vstack([prop_powers[i * 4, arm] for i, arm in enumerate(arms)])[order].sum(axis=-1),
                 prop_powers[-1].sum(axis=-1)
             )
         elif prop_powers.ndim == 2:
             return (
-                xp.hstack([prop_powers[i * 4 + 2, nc.top] for i, nc in enumerate(self.columns)]),
-                xp.hstack([prop_powers[i * 4, nc.top] for i, nc in enumerate(self.columns)]),
+                xp.hstack([prop_powers[i * 4 + 2, arm] for i, arm in enumerate(arms)])[order],
+                xp.hstack([prop_powers[i * 4, arm] for i, arm in enumerate(arms)])[order],
                 prop_powers[-1]
             )
 
-- 
2.43.0


From 4784f8a35a0c652648732441cbf10386022ec614 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:27:20 +0000
Subject: [PATCH 12/71] fix: in-situ cotangent of the inputs is not left
 normalized

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index ab3156c..f9d2d92 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -412,7 +412,7 @@ class ForwardMesh:
 
             # returns the grad powers at the various gradient positions and adjoint inputs (needed to propagate errors backward to prev layer)
             # assumes bs errors and loss errors are not modifiable (zero backpropagated gradients for those!)
-            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), adjoint_inputs, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
+            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), gnorm * adjoint_inputs, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
 
         matrix.defvjp(matrix_fwd, matrix_bwd)
         return matrix
-- 
2.43.0


From 2294218292ba37c5bb35a5dbfd660d92326f2730 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:29:56 +0000
Subject: [PATCH 13/71] fix: in-situ gradients for a batch of one input

---
 simphox/circuit/forward.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index f9d2d92..675085b 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -379,6 +379,8 @@ class ForwardMesh:
 
         def matrix_bwd(res, g):
             params, inputs, bs_errors, loss_errors = res
+            inputs_shape = inputs.shape
+            inputs = inputs.squeeze()  # a batch of one input is propagated as a vector
 
             inorm = jnp.max(jnp.linalg.norm(inputs, axis=-1))
             gnorm = jnp.max(jnp.linalg.norm(g, axis=-1))
@@ -412,7 +414,7 @@ class ForwardMesh:
 
             # returns the grad powers at the various gradient positions and adjoint inputs (needed to propagate errors backward to prev layer)
             # assumes bs errors and loss errors are not modifiable (zero backpropagated gradients for those!)
-            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), gnorm * adjoint_inputs, jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
+            return (self.phase_shift_localize(grad_powers / 2 * (inorm * gnorm)), (gnorm * adjoint_inputs).reshape(inputs_shape), jnp.zeros_like(bs_errors), jnp.zeros_like(loss_errors))
 
         matrix.defvjp(matrix_fwd, matrix_bwd)
         return matrix
-- 
2.43.0


From 3742e94e12783a0d8a00d8636ba69ca6c9add319 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 14/71] fix: phase-controlled coupling matrix is unitary

---
 simphox/circuit/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 7e0c266..07f35bc 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -28,7 +28,7 @@ def coupling_matrix_phase(theta: float, split_error: float = 0, loss_error: floa
     insertion = loss2insertion(loss_error)
     return np.array([
         [insertion * np.cos(theta / 2 + split_error / 2), insertion * 1j * np.sin(theta / 2 + split_error / 2)],
-        [1j * np.sin(theta / 2 + split_error / 2), np.sin(theta / 2 + split_error / 2)]
+        [1j * np.sin(theta / 2 + split_error / 2), np.cos(theta / 2 + split_error / 2)]
     ])
 
 
-- 
2.43.0


From fd65a0b28a34995844311cef2580ea8ca86eae6e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:30:08 +0000
Subject: [PATCH 15/71] fix: MMI node matrix of a node can be evaluated

---
 simphox/circuit/coupling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 07f35bc..34f6145 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -174,7 +174,7 @@ class CouplingNode:
             Tunable MMI node matrix embedded in an :math:`N`-waveguide system.
 
         """
-        mat = coupling_matrix_phase(theta, self.bs_error, self.loss) @ phase_matrix(phi)
+        mat = coupling_matrix_phase(theta, self.bs_error[0], self.loss[0]) @ phase_matrix(phi)
         return _embed_2x2(mat, self.n, self.top, self.bottom) if embed else mat
 
     def nullify(self, vector: np.ndarray, idx: int, lower_theta: bool = False, lower_phi: bool = False):
-- 
2.43.0


From befb30c69650787b408049f0a65232288f6ea4d9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 16/71] fix: node loss is applied at the theta and phi phase
 shifters

---
 simphox/circuit/coupling.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/coupling.py b/simphox/circuit/coupling.py
index 34f6145..2ce21fd 100644
--- a/simphox/circuit/coupling.py
+++ b/simphox/circuit/coupling.py
@@ -129,7 +129,9 @@ class CouplingNode:
             Tunable MMI node matrix embedded in an :math:`N`-waveguide system.
 
         """
-        mat = self.dc(right=True) @ phase_matrix(theta) @ self.dc(right=False) @ phase_matrix(phi)
+        # the loss is that of the (top) theta and phi phase shifters respectively
+        theta_loss, phi_loss = np.diag([loss2insertion(self.loss[0]), 1]), np.diag([loss2insertion(self.loss[1]), 1])
+        mat = self.dc(right=True) @ phase_matrix(theta) @ theta_loss @ self.dc(right=False) @ phase_matrix(phi) @ phi_loss
         return _embed_2x2(mat, self.n, self.top, self.bottom) if embed else mat
 
     def phase_matrix(self, top: float = 0, bottom: float = 0):
@@ -156,9 +158,8 @@ class CouplingNode:
 
         """
         error = self.bs_error[right]
-        insertion = loss2insertion(self.loss[right])
         return np.array([
-            [np.cos(np.pi / 4 + error) * insertion, 1j * np.sin(np.pi / 4 + error) * insertion],
+            [np.cos(np.pi / 4 + error), 1j * np.sin(np.pi / 4 + error)],
             [1j * np.sin(np.pi / 4 + error), np.cos(np.pi / 4 + error)]
         ])
 
-- 
2.43.0


From b559078a27d0b9cf7a32de60b938420c18714ccf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 17/71] fix: errors and losses belong to their nodes whatever
 the order of the nodes

---
 simphox/circuit/forward.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 675085b..3bc2a52 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -45,14 +45,16 @@ class ForwardMesh:
         self.num_nodes = len(self.nodes)
         self.top = [int(node.top) for node in self.nodes]
         self.bottom = [int(node.bottom) for node in self.nodes]
-        self.bs_errors = np.array([node.bs_error for node in self.nodes])
-        self.losses = np.array([node.loss for node in self.nodes])
-        self.mzi_terms = _mzi_terms(self.all_errors)
         self.node_idxs = [node.node_id for node in self.nodes]
         if np.sum(self.node_idxs) == 0:
             self.node_idxs = np.arange(len(self.nodes)).tolist()
             for node, idx in zip(self.nodes, self.node_idxs):
                 node.node_id = idx
+        # like the phases, the errors and losses of the nodes are indexed by node id
+        nodes_by_id = _sort_by_id(self.nodes)
+        self.bs_errors = np.array([node.bs_error for node in nodes_by_id])
+        self.losses = np.array([node.loss for node in nodes_by_id])
+        self.mzi_terms = _mzi_terms(self.all_errors)
         self.n = self.nodes[0].n if len(self.nodes) > 0 else 1
         self.alpha = np.array([node.alpha for node in self.nodes])
         self.beta = np.array([node.beta for node in self.nodes])
@@ -118,7 +120,8 @@ class ForwardMesh:
             A randomly initialized :code:`s`.
 
         """
-        return betaincinv(self.beta, self.alpha, np.random.rand(self.num_nodes))
+        order = np.argsort(self.node_idxs)  # like the phases, the split ratios are indexed by node id
+        return betaincinv(self.beta[order], self.alpha[order], np.random.rand(self.num_nodes))
 
     def rand_theta(self):
         """Randomly initialized coupling phase :math:`\\theta`.
@@ -579,7 +582,7 @@ class ForwardMesh:
         new_nodes = copy.deepcopy(self.nodes)
         error = error * np.ones_like(self.bs_errors) if not isinstance(error, np.ndarray) else error
         loss_db = loss_db * np.ones_like(self.losses) if not isinstance(loss_db, np.ndarray) else loss_db
-        for node, e, loss in zip(new_nodes, error, loss_db):
+        for node, e, loss in zip(_sort_by_id(new_nodes), error, loss_db):
             node.bs_error = tuple(e)
             node.loss = tuple(loss)
         mesh = ForwardMesh(new_nodes, self.phase_style)
@@ -605,7 +608,7 @@ class ForwardMesh:
         loss_std = loss_db_std * np.random.randn(*self.losses.shape)
         loss_db = self.losses + loss_std
         error = self.bs_errors + bs_error_std
-        for node, e, loss in zip(new_nodes, error, loss_db):
+        for node, e, loss in zip(_sort_by_id(new_nodes), error, loss_db):
             node.bs_error = tuple(e)
             node.loss = tuple(loss)
         mesh = ForwardMesh(new_nodes, self.phase_style)
@@ -668,6 +671,10 @@ class ForwardMesh:
                                    (self.top, self.bottom, self.node_idxs, None), use_jax=use_jax)
 
 
+def _sort_by_id(nodes: List[CouplingNode]):
+    return sorted(nodes, key=lambda node: node.node_id)
+
+
 def _parallel_mzi(theta: np.ndarray, phi: np.ndarray,
                   bs_errors: np.ndarray, loss_errors: np.ndarray, phase_style: PhaseStyle,
                   use_jax: bool = False, back: bool = False):
-- 
2.43.0


From 6339ffd4f1ea11da0e79db2150da052b1a89451d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 18/71] fix: right splitter errors of add_error_mean are used

---
 simphox/circuit/forward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 3bc2a52..7df8a47 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -574,6 +574,7 @@ class ForwardMesh:
         Args:
             error: Phase-parametrized error for the left (and right if not specified) splitters
             loss_db: The loss in dB.
+            error_right: Phase-parametrized error for the right splitters (same as :code:`error` if not specified).
 
         Returns:
             A new :code:`ForwardCouplingCircuit` with the modified error terms.
@@ -581,6 +582,8 @@ class ForwardMesh:
         """
         new_nodes = copy.deepcopy(self.nodes)
         error = error * np.ones_like(self.bs_errors) if not isinstance(error, np.ndarray) else error
+        if error_right is not None:
+            error = np.stack((error[:, 0], error_right * np.ones_like(error[:, 0])), axis=1)
         loss_db = loss_db * np.ones_like(self.losses) if not isinstance(loss_db, np.ndarray) else loss_db
         for node, e, loss in zip(_sort_by_id(new_nodes), error, loss_db):
             node.bs_error = tuple(e)
-- 
2.43.0


From f9a60141ab49a33f87c99c27730074a3c5d6ad48 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:45:10 +0000
Subject: [PATCH 19/71] fix: normalized error of a matrix that is not unitary

---
 simphox/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 59edb75..6d683f3 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -298,7 +298,8 @@ def normalized_error(u: np.ndarray, use_jax: bool = False):
     xp = jnp if use_jax else np
     u = jnp.array(u) if use_jax else u
     return lambda uhat: xp.sqrt(
-        1 - xp.abs(xp.trace(u.conj().T @ uhat)) ** 2 / xp.abs(xp.trace(uhat.conj().T @ uhat)) ** 2)
+        1 - xp.abs(xp.trace(u.conj().T @ uhat)) ** 2
+        / (xp.abs(xp.trace(uhat.conj().T @ uhat)) * xp.abs(xp.trace(u.conj().T @ u))))
 
 
 def beta_pdf(x, a, b):
-- 
2.43.0


From 747945810491ff1a9927e4eef280b6c3c745b87b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 20/71] fix: theta-phi blocks of the vector unit hessian were
 transposed

---
 simphox/circuit/vector.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index 88a3129..d52e522 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -258,7 +258,7 @@ def hessian_vector_unit(v: np.ndarray, balanced: bool = True):
         theta_phi[..., nid][(mesh.nodes[i].top_descendants,)] = mesh.pn[(mesh.nodes[i].top_descendants,)]
         phi_theta[nid][(mesh.nodes[i].top_descendants,)] = mesh.pnsn[(mesh.nodes[i].top_descendants,)]
         phi_theta[nid][(mesh.nodes[i].bot_descendants,)] = mesh.pnsn[(mesh.nodes[i].bot_descendants,)]
-    h = np.block([[theta_theta, (theta_phi + phi_theta).T], [(theta_phi + phi_theta), phi_phi]])
+    h = np.block([[theta_theta, theta_phi + phi_theta], [(theta_phi + phi_theta).T, phi_phi]])
     return h
 
 
@@ -309,9 +309,9 @@ def hessian_fd(v: np.ndarray, error=0.0001, balanced=False):
             theta_phi_nn = (mesh.thetas - e[i], mesh.phis - e[j], mesh.gammas)
             h[i, j] = np.real(err(theta_pp) + err(theta_nn) - err(theta_pn) - err(theta_np)) / (4 * error ** 2)
             h[i + n - 1, j + n - 1] = np.real(err(phi_pp) + err(phi_nn) - err(phi_pn) - err(phi_np)) / (4 * error ** 2)
-            h[i + n - 1, j] = np.real(err(theta_phi_pp) + err(theta_phi_nn) - err(theta_phi_pn) - err(theta_phi_np)) / (
+            h[i, j + n - 1] = np.real(err(theta_phi_pp) + err(theta_phi_nn) - err(theta_phi_pn) - err(theta_phi_np)) / (
                 4 * error ** 2)
-            h[j, i + n - 1] = h[i + n - 1, j]
+            h[j + n - 1, i] = h[i, j + n - 1]
     return h
 
 
-- 
2.43.0


From b475dd4f0a61278fde23083b1c169b81a728002f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 21/71] fix: functional derivatives have the Bloch phase of the
 matrices

---
 simphox/grid.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 5d97f47..4803f84 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -421,12 +421,24 @@ class YeeGrid(Grid):
         """
         xp = jnp if use_jax else np
         dx = jnp.array(self._dxes[of_h]) if use_jax else self._dxes[of_h]
+        # the field beyond the edge of the grid is the field at the opposite edge up to the Bloch phase
+        phase = [np.ones((n,), dtype=np.complex128) for n in self.shape3]
+        for ax, b in enumerate(self.bloch):
+            if self.shape[ax] > 1:
+                phase[ax][0 if of_h else -1] = np.conj(b) if of_h else b
+        phase = [p.reshape([-1 if i == ax else 1 for i in range(3)]) for ax, p in enumerate(phase)]
+        if np.all(self.bloch == 1):
+            def roll(f, shift, a):
+                return xp.roll(f, shift, axis=a)
+        else:
+            def roll(f, shift, a):
+                return xp.roll(f, shift, axis=a) * phase[a]
         if of_h:
             def _diff(f, a):
-                return (f - xp.roll(f, 1, axis=a)) / dx[a]
+                return (f - roll(f, 1, a)) / dx[a]
         else:
             def _diff(f, a):
-                return (xp.roll(f, -1, axis=a) - f) / dx[a]
+                return (roll(f, -1, a) - f) / dx[a]
         return _diff
 
     def curl_fn(self, beta: Optional[float] = None, of_h: bool = False, use_jax: bool = False) -> Op:
-- 
2.43.0


From 6743f80844152b446ee157bb811d30b39e22a83d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 22/71] fix: factorization of another matrix is not reused
 because both print alike

---
 simphox/mkl.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 2f2439d..f32682a 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -140,15 +140,20 @@ class Pardiso:
         self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
         self.pardiso()
 
+    @staticmethod
+    def _hash(mat: sp.csr_matrix) -> int:
+        # all of the matrix (not its printed form, which leaves out most of the entries of a large matrix)
+        return hash((mat.shape, mat.data.tobytes(), mat.indices.tobytes(), mat.indptr.tobytes()))
+
     def factor(self, mat: sp.csr_matrix):
         self.phase = PARDISO_FACTORIZE
-        mat_hash = hash(str(mat))
+        mat_hash = self._hash(mat)
         self._set_mat(mat)
         self._mat_hash = mat_hash
         self.pardiso()
 
     def solve(self, mat: sp.csr_matrix, rhs: np.ndarray) -> np.ndarray:
-        mat_hash = hash(str(mat))
+        mat_hash = self._hash(mat)
         if mat_hash != self._mat_hash:
             self._set_mat(mat)
             self._mat_hash = mat_hash
-- 
2.43.0


From 70a23023b9c8b8a08a2de7c80befa52482ae7003 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 23/71] fix: shape of the solution for several right-hand sides

---
 simphox/mkl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index f32682a..1ef9eea 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -169,6 +169,7 @@ class Pardiso:
             raise RuntimeError(f'Expected rhs.shape[0] == {self.n}, but got {rhs.shape[0]}')
 
         nrhs = 0 if rhs is None else (np.prod(rhs.shape[1:]) if rhs.ndim > 1 else 1)
+        shape = None if rhs is None else rhs.shape
         rhs = np.zeros(1) if rhs is None else rhs.astype(self.dtype).flatten(order='f')
         x = np.zeros(1) if rhs is None else np.zeros(nrhs * self.n, dtype=self.dtype)
         rhs_ = rhs.ctypes.data_as(self.ctypes_dtype)
@@ -203,7 +204,7 @@ class Pardiso:
             raise RuntimeError(f"Pardiso returned an error with code {err_c.value}. "
                                f"Check error codes in manual: https://pardiso-project.org/manual/manual.pdf")
 
-        return x.reshape(rhs.shape, order='f') if nrhs > 1 else x
+        return x.reshape(shape, order='f') if nrhs > 1 else x
 
 
 class Feast:
-- 
2.43.0


From 8e820869bcb1ed9bd539bcb65bba22002fb90ac0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:32:07 +0000
Subject: [PATCH 24/71] fix: solve after the factorization was freed

---
 simphox/mkl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simphox/mkl.py b/simphox/mkl.py
index 1ef9eea..5e8a4ed 100644
--- a/simphox/mkl.py
+++ b/simphox/mkl.py
@@ -139,6 +139,7 @@ class Pardiso:
     def free(self, complete: bool = True):
         self.phase = PARDISO_FREEALL if complete else PARDISO_FREEFACTOR
         self.pardiso()
+        self._mat_hash = 0  # the factorization is gone
 
     @staticmethod
     def _hash(mat: sp.csr_matrix) -> int:
-- 
2.43.0


From 36612e5e0c17c0e848b7690c984a772c9f713032 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:44:04 +0000
Subject: [PATCH 25/71] fix: averaged permittivity follows edits of the
 permittivity

---
 simphox/fdtd.py | 13 ++++++-------
 simphox/grid.py |  2 --
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 73927de..61a60ed 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -1,4 +1,3 @@
-from functools import lru_cache
 from typing import Tuple, List, Callable
 
 import jax.numpy as jnp
@@ -116,6 +115,7 @@ class FDTD(SimGrid):
 
     def _step_e(self, state: State, sources: List[Tuple[np.ndarray, np.ndarray, Tuple[slice, ...]]]):
         e, h, psi_e, psi_h = state
+        eps_t = self.eps_t
         # update pml in pml regions if specified
         phi_e = []
         for pml_idx, pml_region in enumerate(self.pml_regions):
@@ -123,21 +123,21 @@ class FDTD(SimGrid):
             phi_e.append(p)
 
         # update e field
-        e += self._curl_h(h) / self.eps_t * self.dt
+        e += self._curl_h(h) / eps_t * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
-                e = e.at[pml_region].add(phi_e[pml_idx] / self.eps_t[pml_region] * self.dt)
+                e = e.at[pml_region].add(phi_e[pml_idx] / eps_t[pml_region] * self.dt)
             else:
-                e[pml_region] += phi_e[pml_idx] / self.eps_t[pml_region] * self.dt
+                e[pml_region] += phi_e[pml_idx] / eps_t[pml_region] * self.dt
 
         # add source
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].set(-source.squeeze() / self.eps_t[source_region] * self.dt)
+                    e = e.at[source_region].set(-source.squeeze() / eps_t[source_region] * self.dt)
                 else:
-                    e[source_region] -= source.squeeze() / self.eps_t[source_region] * self.dt
+                    e[source_region] -= source.squeeze() / eps_t[source_region] * self.dt
 
         return e, h, psi_e, psi_h
 
@@ -348,7 +348,6 @@ class FDTD(SimGrid):
         return curl_pml_fn(dh, use_jax=self.use_jax)
 
     @property
-    @lru_cache()
     def eps_t(self):
         """The epsilon tensor (assumed to be diagonal, i.e. no off-diagonal components for now).
 
diff --git a/simphox/grid.py b/simphox/grid.py
index 4803f84..450911c 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -1,5 +1,4 @@
 import dataclasses
-from functools import lru_cache
 
 import jax.numpy as jnp
 import numpy as np
@@ -474,7 +473,6 @@ class YeeGrid(Grid):
         return new_x, new_y, z
 
     @property
-    @lru_cache()
     def eps_t(self):
         """This attribute specifies the grid-averaged epsilon in the grid.
 
-- 
2.43.0


From 40fbe3f98eff2dd335c2b86435a1ccbafb321021 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:48:11 +0000
Subject: [PATCH 26/71] fix: magnetic field follows from the electric field
 with the sign of the other Maxwell equation

---
 simphox/fdfd.py | 14 +++++++-------
 simphox/mode.py | 22 ++++++----------------
 2 files changed, 13 insertions(+), 23 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 61503af..727e1e0 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -168,12 +168,12 @@ class FDFD(SimGrid):
 
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
         ..math::
-            i \\omega \\mu \\mathbf{h} &= \\nabla \times \\mathbf{e}.
+            -i \\omega \\mu \\mathbf{h} &= \\nabla \\times \\mathbf{e}.
 
         Returns:
             The h-field converted from the e-field.
         """
-        return self.curl_fn(of_h=False, beta=beta)(self.reshape(e)) / (1j * self.k0)
+        return self.curl_fn(of_h=False, beta=beta)(self.reshape(e)) / (-1j * self.k0)
 
     def h2e(self, h: np.ndarray, beta: Optional[float] = None) -> np.ndarray:
         """Convert magnetic field :math:`\\mathbf{h}` to electric field :math:`\\mathbf{e}`.
@@ -183,7 +183,7 @@ class FDFD(SimGrid):
 
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
         ..math::
-            -i \\omega \\epsilon \\mathbf{e} &= \\nabla \\times \\mathbf{h}.
+            i \\omega \\epsilon \\mathbf{e} &= \\nabla \\times \\mathbf{h}.
 
         Returns:
             The e-field converted from the h-field.
@@ -217,7 +217,7 @@ class FDFD(SimGrid):
                 e = solver_fn(self.mat, b) if solver_fn else spsolve_pardiso(self.mat, b)
             e = self.reshape(e)
             curl_e = curl_fn(self.diff_fn(of_h=False))
-            h = curl_e(e) / (1j * self.k0)
+            h = curl_e(e) / (-1j * self.k0)
             return np.array((e, h))
         else:  # assume only the z component
             if not src.size == self.n:
@@ -235,7 +235,7 @@ class FDFD(SimGrid):
             else:
                 e = field
                 o = np.zeros_like(e[2])
-                return np.stack([e, np.stack((df(e[2], 1), -df(e[2], 0), o)) / (1j * self.k0)])
+                return np.stack([e, np.stack((df(e[2], 1), -df(e[2], 0), o)) / (-1j * self.k0)])
 
     def scpml(self, ax: int) -> Tuple[np.ndarray, np.ndarray]:
         exp_scale, log_reflection, pml_eps = self.pml_params
@@ -385,7 +385,7 @@ class FDFD(SimGrid):
                     ez = spsolve(mat_entries, k0 * src, mat_indices)
                     ez = ez.reshape(shape3)
                     e = jnp.stack((o, o, ez))
-                    h = jnp.stack((de(e[2], 1), -de(e[2], 0), o)) / (1j * k0)
+                    h = jnp.stack((de(e[2], 1), -de(e[2], 0), o)) / (-1j * k0)
                     return jnp.stack((e, h))
         else:
             # iterative 3d FDFD (simpler than 2D code-wise, but takes way more memory and time)
@@ -400,7 +400,7 @@ class FDFD(SimGrid):
                 eps = yee_avg_jax(transform_fn(rho))
                 e, _ = bicgstab(op(eps), k0 * src.reshape(field_shape))
                 e = jnp.stack([split_v.reshape(shape3) for split_v in jnp.split(e, 3)])
-                h = curl_e(e) / (1j * k0)
+                h = curl_e(e) / (-1j * k0)
                 return jnp.stack((e, h))
 
         return solve
diff --git a/simphox/mode.py b/simphox/mode.py
index e075247..b91a9aa 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -129,13 +129,13 @@ class ModeSolver(YeeGrid):
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
 
         .. math::
-            i \\omega \\mu \\mathbf{h} &= \\nabla \\times \\mathbf{e}
+            -i \\omega \\mu \\mathbf{h} &= \\nabla \\times \\mathbf{e}
 
         Returns:
             The h-field converted from the e-field.
 
         """
-        return self.curl_fn(beta=beta)(self.reshape(e)) / (1j * self.k0)
+        return self.curl_fn(beta=beta)(self.reshape(e)) / (-1j * self.k0)
 
     def h2e(self, h: np.ndarray, beta: Optional[float] = None) -> np.ndarray:
         """Convert magnetic field :math:`\\mathbf{h}` to electric field :math:`\\mathbf{e}`.
@@ -145,7 +145,7 @@ class ModeSolver(YeeGrid):
         Mathematically, this represents rearranging the Maxwell equation in the frequency domain:
 
         .. math::
-            -i \\omega \\epsilon \\mathbf{e} = \\nabla \\times \\mathbf{h}.
+            i \\omega \\epsilon \\mathbf{e} = \\nabla \\times \\mathbf{h}.
 
         Returns:
             Function to convert h-field to e-field.
@@ -314,9 +314,7 @@ class ModeLibrary:
             if tm_2d:
                 mode = np.hstack((self.o, mode, self.o))
             else:
-                mode = np.hstack((1j * self.betas[mode_idx] * mode, self.o,
-                                  -(mode - np.roll(mode, 1, axis=0)) / self.solver.cells[0])) / (
-                    1j * self.solver.k0)
+                return self.solver.e2h(self.e(mode_idx, tm_2d=False), self.betas[mode_idx])
         return self.solver.reshape(mode)
 
     def e(self, mode_idx: int = 0, tm_2d: bool = True) -> np.ndarray:
@@ -331,17 +329,9 @@ class ModeLibrary:
 
         """
         self._check_num_modes(mode_idx)
-        if self.ndim == 2:
+        if self.ndim == 2 or tm_2d:
             return self.solver.h2e(self.h(mode_idx), self.betas[mode_idx])
-        else:
-            mode = self.modes[mode_idx]
-            if tm_2d:
-                mode = np.hstack((1j * self.betas[mode_idx] * mode, self.o,
-                                  -(np.roll(mode, -1, axis=0) - mode) / self.solver.cells[0])) / (
-                    1j * self.solver.k0 * self.solver.eps_t.flatten())
-            else:
-                mode = np.hstack((self.o, mode, self.o))
-            return self.solver.reshape(mode)
+        return self.solver.reshape(np.hstack((self.o, self.modes[mode_idx], self.o)))
 
     def sz(self, mode_idx: int = 0) -> np.ndarray:
         """Poynting vector :math:`\\mathbf{S}_z` for the mode of specified index
-- 
2.43.0


From 527304cce4401cc683f5c9cbcf5fc6f07331ada7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:53:32 +0000
Subject: [PATCH 27/71] fix: solve with scipy when the Intel library cannot be
 loaded

---
 simphox/fdfd.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 727e1e0..1d43322 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -4,16 +4,15 @@ import scipy.sparse as sp
 from jax.config import config
 from jax.scipy.sparse.linalg import bicgstab
 
-from .primitives import TMOperator
+from .primitives import TMOperator, spsolve
 from .sim import SimGrid
 from .typing import Callable, Dict, List, Optional, Shape2, Size, Size2, Size3, Spacing, SpSolve, Tuple, Union
 from .utils import curl_fn, d2curl_op, yee_avg_2d_z, yee_avg_jax
 
 try:  # pardiso (using Intel MKL) is much faster than scipy's solver
     from .mkl import spsolve_pardiso
-    from .primitives import spsolve
 except OSError:  # if mkl isn't installed
-    from scipy.sparse.linalg import spsolve
+    from scipy.sparse.linalg import spsolve as spsolve_pardiso
 
 try:
     from dphox.pattern import Pattern
-- 
2.43.0


From efdb2f9308bef267190ce35ca9f98432d62815a2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 00:56:53 +0000
Subject: [PATCH 28/71] fix: differentiable solve of a real source

---
 simphox/fdfd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 1d43322..3460067 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -331,7 +331,7 @@ class FDFD(SimGrid):
             A solve function (2d or 3d based on defined :code:`ndim` specified for the instance of :code:`FDFD`).
 
         """
-        src = jnp.ravel(jnp.array(src))
+        src = jnp.ravel(jnp.array(src, dtype=jnp.complex128))
         k0 = self.k0
         transform_fn = transform_fn if transform_fn is not None else lambda x: x
         shape3 = self.shape3
-- 
2.43.0


From fac46498cbb0795c4c31e175572b4abfa877a0a8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 29/71] fix: absorbing layers of the FDTD accumulate their
 auxiliary fields

---
 simphox/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 6d683f3..6a37eae 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -180,15 +180,14 @@ def curl_fn(df: Callable[[np.ndarray, int], np.ndarray], use_jax: bool = False,
 def curl_pml_fn(df: Callable[[np.ndarray, int], np.ndarray], use_jax: bool = False):
     xp = jnp if use_jax else np
 
-    def _curl(f: np.ndarray, prev_df: np.ndarray, b_pml: np.ndarray):
+    def _curl(f: np.ndarray, prev_psi: np.ndarray, b_pml: np.ndarray):
         next_df = xp.stack(
             [df(f[2], 1), df(f[1], 2),
              df(f[0], 2), df(f[2], 0),
              df(f[1], 0), df(f[0], 1)]
         )
-        return next_df, xp.stack([next_df[0] + prev_df[0] * b_pml[1] - next_df[1] - prev_df[1] * b_pml[2],
-                                  next_df[2] + prev_df[2] * b_pml[2] - next_df[3] - prev_df[3] * b_pml[0],
-                                  next_df[4] + prev_df[4] * b_pml[0] - next_df[5] - prev_df[5] * b_pml[1]])
+        psi = next_df + prev_psi * xp.stack([b_pml[1], b_pml[2], b_pml[2], b_pml[0], b_pml[0], b_pml[1]])
+        return psi, xp.stack([psi[0] - psi[1], psi[2] - psi[3], psi[4] - psi[5]])
     return _curl
 
 
-- 
2.43.0


From a2dd8bc1e30b2d264b27821516a3f5443bcf6d30 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 30/71] fix: sources of the FDTD are added to the fields with
 jax too

---
 simphox/fdtd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 61a60ed..430b56b 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -135,7 +135,7 @@ class FDTD(SimGrid):
         for source, _, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    e = e.at[source_region].set(-source.squeeze() / eps_t[source_region] * self.dt)
+                    e = e.at[source_region].add(-source.squeeze() / eps_t[source_region] * self.dt)
                 else:
                     e[source_region] -= source.squeeze() / eps_t[source_region] * self.dt
 
@@ -162,7 +162,7 @@ class FDTD(SimGrid):
         for _, source, source_region in sources:
             if source is not None:
                 if self.use_jax:
-                    h = h.at[source_region].set(-source.squeeze() * self.dt)
+                    h = h.at[source_region].add(-source.squeeze() * self.dt)
                 else:
                     h[source_region] -= source.squeeze() * self.dt
 
-- 
2.43.0


From 2b4a2df73da52d0cde86b124ce801f46d4ec6bf5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 31/71] fix: a FDTD step leaves the state it is given as it is

---
 simphox/fdtd.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 430b56b..bd30d28 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -115,6 +115,7 @@ class FDTD(SimGrid):
 
     def _step_e(self, state: State, sources: List[Tuple[np.ndarray, np.ndarray, Tuple[slice, ...]]]):
         e, h, psi_e, psi_h = state
+        psi_e = None if psi_e is None else list(psi_e)
         eps_t = self.eps_t
         # update pml in pml regions if specified
         phi_e = []
@@ -123,7 +124,7 @@ class FDTD(SimGrid):
             phi_e.append(p)
 
         # update e field
-        e += self._curl_h(h) / eps_t * self.dt
+        e = e + self._curl_h(h) / eps_t * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
@@ -143,6 +144,7 @@ class FDTD(SimGrid):
 
     def _step_h(self, state: State, sources: List[Source]):
         e, h, psi_e, psi_h = state
+        psi_h = None if psi_h is None else list(psi_h)
         # update h field in pml regions if specified
         phi_h = []
         for pml_idx, pml_region in enumerate(self.pml_regions):
@@ -150,7 +152,7 @@ class FDTD(SimGrid):
             phi_h.append(p)
 
         # update h field
-        h -= self._curl_e(e) * self.dt
+        h = h - self._curl_e(e) * self.dt
 
         for pml_idx, pml_region in enumerate(self.pml_regions):
             if self.use_jax:
-- 
2.43.0


From 59c884d6d467a9b490c8dc15e5e10b89b688e4df Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:01:38 +0000
Subject: [PATCH 32/71] fix: FDTD with absorbing layers in one and two
 dimensions

---
 simphox/fdtd.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index bd30d28..38c6c9d 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -309,15 +309,16 @@ class FDTD(SimGrid):
         exp_scale, log_reflection, absorption_corr = pml_params
         kappa, alpha = 1, 1e-8  # TODO: make these params
         self.sigma = [-pml_sigma(self.pos[ax], thickness=self.pml_shape[ax], exp_scale=exp_scale,
-                                 log_reflection=log_reflection, absorption_corr=absorption_corr) for ax in range(3)]
+                                 log_reflection=log_reflection, absorption_corr=absorption_corr)
+                      for ax in range(self.ndim)]
         # for memory and time purposes, we only update the pml slices, NOT the full field
         # therefore, we need to specify the pml regions for the fields.
-        self.pml_regions = ((slice(None), slice(None, self.pml_shape[0]), slice(None), slice(None)),
-                            (slice(None), slice(-self.pml_shape[0], None), slice(None), slice(None)),
-                            (slice(None), slice(None), slice(None, self.pml_shape[1]), slice(None)),
-                            (slice(None), slice(None), slice(-self.pml_shape[1], None), slice(None)),
-                            (slice(None), slice(None), slice(None), slice(None, self.pml_shape[2])),
-                            (slice(None), slice(None), slice(None), slice(-self.pml_shape[2], None)))
+
+        def region_of(ax: int, pml_slice: slice):
+            return (slice(None),) + tuple([pml_slice if i == ax else slice(None) for i in range(3)])
+
+        self.pml_regions = tuple([region_of(ax, pml_slice) for ax in range(self.ndim)
+                                  for pml_slice in (slice(None, self.pml_shape[ax]), slice(-self.pml_shape[ax], None))])
 
         for i, region in enumerate(self.pml_regions):
             ax = i // 2
-- 
2.43.0


From d68ca6729188041e145de6f69dd0568dbe05436a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 33/71] fix: FDTD sources with the shape of their region

---
 simphox/fdtd.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index 38c6c9d..d8dda42 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -135,10 +135,11 @@ class FDTD(SimGrid):
         # add source
         for source, _, source_region in sources:
             if source is not None:
+                source = source if source.shape == e[source_region].shape else source.squeeze()
                 if self.use_jax:
-                    e = e.at[source_region].add(-source.squeeze() / eps_t[source_region] * self.dt)
+                    e = e.at[source_region].add(-source / eps_t[source_region] * self.dt)
                 else:
-                    e[source_region] -= source.squeeze() / eps_t[source_region] * self.dt
+                    e[source_region] -= source / eps_t[source_region] * self.dt
 
         return e, h, psi_e, psi_h
 
@@ -163,10 +164,11 @@ class FDTD(SimGrid):
         # add source
         for _, source, source_region in sources:
             if source is not None:
+                source = source if source.shape == h[source_region].shape else source.squeeze()
                 if self.use_jax:
-                    h = h.at[source_region].add(-source.squeeze() * self.dt)
+                    h = h.at[source_region].add(-source * self.dt)
                 else:
-                    h[source_region] -= source.squeeze() * self.dt
+                    h[source_region] -= source * self.dt
 
         return e, h, psi_e, psi_h
 
-- 
2.43.0


From c07bf18af5033957dff102c1c9d2b225251ca3d6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 34/71] fix: measurements are those of the ports and modes
 asked for, in their order

---
 simphox/sim.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 72c3066..bd7504e 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -210,9 +210,7 @@ class SimGrid(YeeGrid):
         # Set up the port profiles for measurement at each port (by default assumes single mode waveguides)
         measure_port = self.parse_excitation(measure_port)
         port_to_modes = self.port_modes(measure_port, profile_size_factor, wavelength)
-        ports = port_to_modes.keys()
-        port_nums = np.arange(len(ports))
-        angles = [self.port[port].a for port in ports]
+        angles = [self.port[port].a for port, _ in measure_port]
         # We measure polarity, which is the orientation of the measurement interface
         # to determine whether the wave is entering or leaving the device
         # The polarity below assumes that ports are near edge of simulation.
@@ -225,7 +223,7 @@ class SimGrid(YeeGrid):
 
         def measure_fn(fields):
             e, h = fields
-            return xp.stack([measure_fns[i](view_fns[i](e), view_fns[i](h))[::polarity[i]] for i in port_nums]).T
+            return xp.stack([measure_fns[i](view_fns[i](e), view_fns[i](h))[::polarity[i]] for i in range(len(measure_port))]).T
 
         return measure_fn
 
-- 
2.43.0


From 8567dd98c4e8357982dc486623981d4ef4e3ce06 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:16:29 +0000
Subject: [PATCH 35/71] fix: incoming and outgoing waves of vertical ports are
 not swapped

---
 simphox/sim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/simphox/sim.py b/simphox/sim.py
index bd7504e..a1da1b6 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -215,6 +215,8 @@ class SimGrid(YeeGrid):
         # to determine whether the wave is entering or leaving the device
         # The polarity below assumes that ports are near edge of simulation.
         polarity = 2 * (np.mod(angles, 360) < 180).astype(int) - 1
+        # The view along y (z, x in this order) is left-handed, i.e. it reverses the poynting direction
+        polarity = [-p if port_to_modes[port].prop_axis == 1 else p for p, (port, _) in zip(polarity, measure_port)]
         measure_fns = [port_to_modes[port_name].io.measure_fn(m, use_jax, tm_2d=tm_2d) for port_name, m in measure_port]
         view_fns = [self.view_fn(port_to_modes[port_name].center, port_to_modes[port_name].size, use_jax)
                     for port_name, _ in measure_port]
-- 
2.43.0


From cd1d97630c9ce1fb707d1d2ab71acc59586ff2a6 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 36/71] fix: port modes follow edits of the permittivity

---
 simphox/sim.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index a1da1b6..4a29a1f 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -103,10 +103,9 @@ class SimGrid(YeeGrid):
         super(SimGrid, self).__init__(size, spacing, eps, bloch_phase, pml, pml_sep, pml_params, name)
         self.use_jax = use_jax
 
-    @lru_cache()
     def modes(self, center: Size3, size: Size3, wavelength: float = 1.55, num_modes: int = 1) -> SimCrossSection:
         """Eigenmode profile of a 2d or 3d :code:`SimGrid` object. This function is cached so that
-        it only computes the modes if the input parameters are provided.
+        it only computes the modes again if the input parameters or the permittivity have changed.
 
         Args:
             center: center tuple of the form :code:`(x, y, z)` (in sim units, NOT pixels)
@@ -117,7 +116,12 @@ class SimGrid(YeeGrid):
         Returns:
             A Tuple of a Modes object and view function for measuring the fields.
         """
-        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze()
+        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)]
+        return self._modes(center, size, wavelength, num_modes, mode_eps.tobytes())
+
+    @lru_cache()
+    def _modes(self, center: Size3, size: Size3, wavelength: float, num_modes: int, eps: bytes) -> SimCrossSection:
+        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze().copy()
         mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
         modes = ModeLibrary(
             ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
-- 
2.43.0


From ed7df30f8c83b0a88675450f1eb46a62facd1f96 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:17:52 +0000
Subject: [PATCH 37/71] fix: port modes have the spacing of the axes they
 extend over

---
 simphox/sim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 4a29a1f..763773a 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -121,10 +121,12 @@ class SimGrid(YeeGrid):
 
     @lru_cache()
     def _modes(self, center: Size3, size: Size3, wavelength: float, num_modes: int, eps: bytes) -> SimCrossSection:
-        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size)].squeeze().copy()
-        mode_size = tuple(np.array(mode_eps.shape) * self.spacing[0])
+        mode_eps = self.eps.reshape(self.shape3)[self.slice(center, size, squeezed=False)]
+        spacing = tuple(self.spacing3[ax] for ax in range(3) if mode_eps.shape[ax] > 1)
+        mode_eps = mode_eps.squeeze().copy()
+        mode_size = tuple(np.array(mode_eps.shape) * np.array(spacing))
         modes = ModeLibrary(
-            ModeSolver(size=mode_size, spacing=self.spacing[0], eps=mode_eps, wavelength=wavelength),
+            ModeSolver(size=mode_size, spacing=spacing, eps=mode_eps, wavelength=wavelength),
             max_num_modes=num_modes
         )
         return SimCrossSection(modes, center, size, wavelength)
-- 
2.43.0


From 7579f7536f56f86e3d584c38f0799d4dbcfa5f60 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:19:11 +0000
Subject: [PATCH 38/71] fix: s-parameters use the port modes of the wavelength
 of the simulation

---
 simphox/fdfd.py | 4 ++--
 simphox/fdtd.py | 2 +-
 simphox/sim.py  | 7 ++++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 3460067..5da1779 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -307,9 +307,9 @@ class FDFD(SimGrid):
             Sparams measured at the ports specified in the class.
 
         """
-        measure_fn = self.get_measure_fn(measure_info)
+        measure_fn = self.get_measure_fn(measure_info, wavelength=self.wavelength)
         measure_info = [(name, 0) for name in self.port] if measure_info is None else measure_info
-        h = self.solve(self.port_source({(port_name, mode_idx): 1}))
+        h = self.solve(self.port_source({(port_name, mode_idx): 1}, wavelength=self.wavelength))
         s_out, s_in = measure_fn(h)
         src_sparam_reference = measure_info.index((port_name, mode_idx))
         return s_out / s_in[src_sparam_reference]
diff --git a/simphox/fdtd.py b/simphox/fdtd.py
index d8dda42..efa89f8 100644
--- a/simphox/fdtd.py
+++ b/simphox/fdtd.py
@@ -267,7 +267,7 @@ class FDTD(SimGrid):
         source_excitation = list(parse_source_port(source_port).keys())
         source_modes = self.port_modes(excitation=source_excitation,
                                        profile_size_factor=profile_size_factor, wavelength=wavelength)
-        measure_fn = self.get_measure_fn(measure_port, use_jax=self.use_jax,
+        measure_fn = self.get_measure_fn(measure_port, wavelength=wavelength, use_jax=self.use_jax,
                                          profile_size_factor=profile_size_factor, tm_2d=tm_2d)
         state = self.zero_state if initial_state is None else initial_state
         iterator = range(num_time_steps) if pbar is None else pbar(np.arange(num_time_steps))
diff --git a/simphox/sim.py b/simphox/sim.py
index 763773a..22b4ce0 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -276,7 +276,7 @@ class SimGrid(YeeGrid):
         """
 
         fields_fn = self.get_fields_fn(src, transform_fn, tm_2d=tm_2d)
-        measure_fn = self.get_measure_fn(use_jax=True, tm_2d=tm_2d)
+        measure_fn = self.get_measure_fn(wavelength=self.wavelength, use_jax=True, tm_2d=tm_2d)
 
         # @jax.jit
         def sim_fn(rho: jnp.ndarray):
@@ -310,10 +310,11 @@ class SimGrid(YeeGrid):
         """
         measure_info = [(name, 0) for name in self.port] if measure_info is None else measure_info
         source_info = (port_name, mode_idx) if port_name is not None else measure_info[0]
-        fields_fn = self.get_fields_fn(src=self.port_source({source_info: 1}, profile_size_factor=profile_size_factor),
+        fields_fn = self.get_fields_fn(src=self.port_source({source_info: 1}, profile_size_factor=profile_size_factor,
+                                                            wavelength=self.wavelength),
                                        transform_fn=transform_fn,
                                        tm_2d=tm_2d)
-        measure_fn = self.get_measure_fn(use_jax=True, tm_2d=tm_2d)
+        measure_fn = self.get_measure_fn(wavelength=self.wavelength, use_jax=True, tm_2d=tm_2d)
         port_idx = measure_info.index(source_info)
 
         # @jax.jit
-- 
2.43.0


From 4e100277d01501b9c3f976f3f0754e8f17ceba11 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 39/71] fix: s-parameters of the differentiable simulation are
 measured at the ports asked for

---
 simphox/sim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 22b4ce0..75aacef 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -308,13 +308,14 @@ class SimGrid(YeeGrid):
             A solve function (2d or 3d based on defined :code:`ndim` specified for the instance of :code:`FDFD`)
 
         """
-        measure_info = [(name, 0) for name in self.port] if measure_info is None else measure_info
+        measure_info = self.parse_excitation(measure_info)
         source_info = (port_name, mode_idx) if port_name is not None else measure_info[0]
         fields_fn = self.get_fields_fn(src=self.port_source({source_info: 1}, profile_size_factor=profile_size_factor,
                                                             wavelength=self.wavelength),
                                        transform_fn=transform_fn,
                                        tm_2d=tm_2d)
-        measure_fn = self.get_measure_fn(wavelength=self.wavelength, use_jax=True, tm_2d=tm_2d)
+        measure_fn = self.get_measure_fn(measure_info, wavelength=self.wavelength,
+                                         profile_size_factor=profile_size_factor, use_jax=True, tm_2d=tm_2d)
         port_idx = measure_info.index(source_info)
 
         # @jax.jit
-- 
2.43.0


From fb8c77721444c9e8312d4133308ed487134b5105 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 40/71] fix: s-parameters accept every form of the ports to be
 measured at

---
 simphox/fdfd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index 5da1779..ac3cb0b 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -307,8 +307,8 @@ class FDFD(SimGrid):
             Sparams measured at the ports specified in the class.
 
         """
+        measure_info = self.parse_excitation(measure_info)
         measure_fn = self.get_measure_fn(measure_info, wavelength=self.wavelength)
-        measure_info = [(name, 0) for name in self.port] if measure_info is None else measure_info
         h = self.solve(self.port_source({(port_name, mode_idx): 1}, wavelength=self.wavelength))
         s_out, s_in = measure_fn(h)
         src_sparam_reference = measure_info.index((port_name, mode_idx))
-- 
2.43.0


From 9a806759fd140a2c14471962776f7f2c12583272 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 41/71] fix: lists of one port, pairs in lists and integer port
 names are parsed

---
 simphox/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/simphox/parse.py b/simphox/parse.py
index 65a5f04..2dfd924 100644
--- a/simphox/parse.py
+++ b/simphox/parse.py
@@ -11,11 +11,11 @@ def parse_excitation(excitation: Excitation):
         List of tuples consisting of port name and mode index.
 
     """
-    if isinstance(excitation, str):
+    if isinstance(excitation, (str, int)):
         return [(excitation, 0)]
     elif isinstance(excitation, tuple) or isinstance(excitation, list):
-        if (isinstance(excitation[0], str) or isinstance(excitation[0], int)) and isinstance(excitation[1], int) and len(excitation) == 2:
-            return [excitation]
+        if len(excitation) == 2 and isinstance(excitation[0], (str, int)) and isinstance(excitation[1], int):
+            return [tuple(excitation)]
         return sum([parse_excitation(mi) for mi in excitation], [])
     elif isinstance(excitation, dict):
         return sum([parse_excitation([(mi, idx) for idx in excitation[mi]]) for mi in excitation], [])
@@ -31,11 +31,11 @@ def parse_source_port(source: SourceLabel):
         Dictionary of tuples consisting of port name and mode index mapped to weights.
 
     """
-    if isinstance(source, str):
+    if isinstance(source, (str, int)):
         return {(source, 0): 1}
     elif isinstance(source, tuple) or isinstance(source, list):
-        if isinstance(source[0], str) and isinstance(source[1], int) and len(source) == 2:
+        if len(source) == 2 and isinstance(source[0], (str, int)) and isinstance(source[1], int):
             return {tuple(source): 1}
         return {k: v for mi in source for k, v in parse_source_port(mi).items()}
     elif isinstance(source, dict):
-        return {(s, 0) if isinstance(s, str) else s: w for s, w in source.items()}
+        return {(s, 0) if isinstance(s, (str, int)) else s: w for s, w in source.items()}
-- 
2.43.0


From 5e8abafb7b80ad04587b9668f56fc892b6f5d774 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:21:35 +0000
Subject: [PATCH 42/71] fix: port sources of port names only and of higher
 modes

---
 simphox/sim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 75aacef..3603c6a 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -6,7 +6,7 @@ import jax.numpy as jnp
 
 from .grid import YeeGrid
 from .mode import ModeSolver, ModeLibrary
-from .parse import parse_excitation
+from .parse import parse_excitation, parse_source_port
 from .typing import Excitation, Spacing, Shape, Union, Size, Optional, List, Tuple, Size2, Dict, Size3, \
     Callable, \
     MeasureInfo, Op, PortLabel
@@ -179,7 +179,8 @@ class SimGrid(YeeGrid):
         # if the source is a list of numbers, just assign the appropriate weight to the port's fundamental mode
         source = {(ports[0], 0): 1} if source is None else source
         source = {(port, 0): weight for port, weight in zip(ports, source)} if isinstance(source, tuple) else source
-        source_library = self.port_modes(profile_size_factor=profile_size_factor, wavelength=wavelength)
+        source = parse_source_port(source)
+        source_library = self.port_modes(list(source), profile_size_factor=profile_size_factor, wavelength=wavelength)
 
         sources_to_sum = []
         for port_mode, weight in source.items():
-- 
2.43.0


From 7166560908874be60fc25bb7d563879070b8e319 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 43/71] fix: modes are sorted once when others are cut off

---
 simphox/mode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index b91a9aa..4251fa8 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -203,7 +203,7 @@ class ModeSolver(YeeGrid):
 
         h = h.T
         # max_phase_ref = np.array([h[i, idx] for i, idx in enumerate(np.argmax(np.abs(h), axis=1))])[:, np.newaxis]
-        return np.sqrt(eigvals[useful_modes].real), h * np.exp(-1j * np.angle(h[:, :1]))
+        return np.sqrt(eigvals.real), h * np.exp(-1j * np.angle(h[:, :1]))
 
     def dispersion_sweep(self, wavelengths: np.ndarray, m: int = 6, pbar: Callable = None):
         """Dispersion sweep for cross sectional modes
-- 
2.43.0


From 7a0b3af2c066fd3bde08539dc1b4f22c11c024b9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 44/71] fix: dispersion sweep solves at the wavelengths of the
 sweep

---
 simphox/mode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index 4251fa8..a477c21 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -218,9 +218,11 @@ class ModeSolver(YeeGrid):
 
         """
         solutions = []
-        pbar = range if pbar is None else pbar
-        for wavelength in pbar(wavelengths):
-            solutions.append(self.solve(m, wavelength))
+        current_wavelength = self.wavelength
+        for wavelength in (wavelengths if pbar is None else pbar(wavelengths)):
+            self.wavelength = wavelength
+            solutions.append(self.solve(m))
+        self.wavelength = current_wavelength
         return solutions
 
 
-- 
2.43.0


From ba2faa3bc0ac65e01e05f86b16828e2e6445cd40 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 01:28:23 +0000
Subject: [PATCH 45/71] fix: poynting vector along x and y

---
 simphox/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 6a37eae..5b0fcbf 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -146,11 +146,11 @@ def poynting_fn(axis: int = 2, use_jax: bool = False):
     xp = jnp if use_jax else np
 
     def poynting(e: np.ndarray, h: np.ndarray):
-        e_cross = xp.stack([(e[ax[0]] + xp.roll(e[ax[0]], shift=1, axis=1)) / 2,
-                            (e[ax[1]] + xp.roll(e[ax[1]], shift=1, axis=0)) / 2])
-        h_cross = xp.stack([(h[ax[0]] + xp.roll(h[ax[0]], shift=1, axis=0)) / 2,
-                            (h[ax[1]] + xp.roll(h[ax[1]], shift=1, axis=1)) / 2])
-        return e_cross[ax[0]] * h_cross.conj()[ax[1]] - e_cross[ax[1]] * h_cross.conj()[ax[0]]
+        e_cross = xp.stack([(e[ax[0]] + xp.roll(e[ax[0]], shift=1, axis=ax[1])) / 2,
+                            (e[ax[1]] + xp.roll(e[ax[1]], shift=1, axis=ax[0])) / 2])
+        h_cross = xp.stack([(h[ax[0]] + xp.roll(h[ax[0]], shift=1, axis=ax[0])) / 2,
+                            (h[ax[1]] + xp.roll(h[ax[1]], shift=1, axis=ax[1])) / 2])
+        return e_cross[0] * h_cross.conj()[1] - e_cross[1] * h_cross.conj()[0]
 
     return poynting
 
-- 
2.43.0


From bd5bd22693afee0ab9638be36d5e5b919f09cf85 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:31:08 +0000
Subject: [PATCH 46/71] fix: fidelity is the overlap with complex desired
 sparams

---
 simphox/sim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/sim.py b/simphox/sim.py
index 3603c6a..f81a8ec 100644
--- a/simphox/sim.py
+++ b/simphox/sim.py
@@ -493,7 +493,7 @@ class SimGrid(YeeGrid):
         for port, weight in desired_sparams.items():
             key = (port, 0) if isinstance(port, str) else port
             s[measure_info.index(key)] = weight
-        s = jnp.array(s / np.linalg.norm(s))
+        s = jnp.array(s.conj() / np.linalg.norm(s))  # overlap with the desired sparams
 
         if insertion_weight != 0:
             def obj(sparams_fields: Tuple[jnp.ndarray, jnp.ndarray]):
-- 
2.43.0


From 05eb84f57a55d6a19d6a5ee8be5275f0ef0cfa88 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:32:08 +0000
Subject: [PATCH 47/71] fix: pml thickness is rounded, not truncated, to pixels

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 450911c..27a87d3 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -339,7 +339,7 @@ class YeeGrid(Grid):
         super(YeeGrid, self).__init__(size, spacing, eps)
         self.pml = pml
         self.pml_sep = pml_sep
-        self.pml_shape = pml if pml is None else (np.asarray(pml, dtype=float) / self.spacing).astype(int)
+        self.pml_shape = pml if pml is None else np.around(np.asarray(pml, dtype=float) / self.spacing).astype(int)
         self.pml_params = pml_params
         self.name = name
         if self.pml_shape is not None:
-- 
2.43.0


From dba10568850c0f98985aadb39bc9580338468e74 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:33:10 +0000
Subject: [PATCH 48/71] fix: fill height is rounded, not truncated, to pixels

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 27a87d3..35c0d77 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -97,7 +97,7 @@ class Grid:
 
         """
         if height > 0:
-            self.eps[..., :int(height / self.spacing[-1])] = eps
+            self.eps[..., :int(np.around(height / self.spacing[-1]))] = eps
         else:
             self.eps = np.ones_like(self.eps) * eps
         return self
-- 
2.43.0


From caa26b4fadcb1f3e45d424bed4279229852ebd6e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 49/71] fix: boxes are rounded, not truncated, to pixels

---
 simphox/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 5b0fcbf..c0720e9 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -90,11 +90,11 @@ class Box:
 
     @property
     def min_i(self):
-        return int(self.min[0] / self.spacing), int(self.min[1] / self.spacing)
+        return int(np.around(self.min[0] / self.spacing)), int(np.around(self.min[1] / self.spacing))
 
     @property
     def max_i(self):
-        return int(self.max[0] / self.spacing), int(self.max[1] / self.spacing)
+        return int(np.around(self.max[0] / self.spacing)), int(np.around(self.max[1] / self.spacing))
 
     @property
     def shape(self):
-- 
2.43.0


From 55932e0e93a7074d94f4c06619f22bf57e15247b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 50/71] fix: patterns beyond any edge of the grid are refused

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index 35c0d77..d0580d4 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -116,7 +116,7 @@ class Grid:
 
         """
         b = component.bounds
-        if not b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]:
+        if not (b[0] >= 0 and b[1] >= 0 and b[2] <= self.size[0] and b[3] <= self.size[1]):
             raise ValueError('The pattern must have min x, y >= 0 and max x, y less than size.')
         self.components.append(component)
         mask = component.mask(self.shape[:2], self.spacing)[:self.eps.shape[0], :self.eps.shape[1]]
-- 
2.43.0


From 9f15b97d705479d659990097b8edd1671d16fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:43 +0000
Subject: [PATCH 51/71] fix: layers of patterns are placed with the spacing
 along z

---
 simphox/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index d0580d4..ec28059 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -123,7 +123,7 @@ class Grid:
         if self.ndim == 2:
             self.eps[mask == 1] = eps
         else:
-            zidx = (int(zmin / self.spacing[0]), int((zmin + thickness) / self.spacing[1]))
+            zidx = np.around(np.array((zmin, zmin + thickness)) / self.spacing[2]).astype(int)
             self.eps[mask == 1, zidx[0]:zidx[1]] = eps
         self.port = {port_name: Port(*port.xya, port.w, zmin + thickness / 2, thickness)
                      for port_name, port in component.port.items()}
-- 
2.43.0


From eb5e9317032557ef72d8c94126a4d34dd33c9e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:00 +0000
Subject: [PATCH 52/71] fix: patterns can be added to 2D grids without layers

---
 simphox/grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/simphox/grid.py b/simphox/grid.py
index ec28059..bc9d97a 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -121,6 +121,7 @@ class Grid:
         self.components.append(component)
         mask = component.mask(self.shape[:2], self.spacing)[:self.eps.shape[0], :self.eps.shape[1]]
         if self.ndim == 2:
+            zmin, thickness = zmin or 0, thickness or 0  # a 2D grid has no layers
             self.eps[mask == 1] = eps
         else:
             zidx = np.around(np.array((zmin, zmin + thickness)) / self.spacing[2]).astype(int)
-- 
2.43.0


From 25ec75b661b283e1de5b1b163e6551952cdd152d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:01 +0000
Subject: [PATCH 53/71] fix: regions beyond the lower edges are clipped to the
 grid

---
 simphox/grid.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index bc9d97a..a729207 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -206,9 +206,13 @@ class Grid:
         # if s0 == s1 == s2 == 0:
         #     raise ValueError(f"Require the size result in a nonzero-sized shape, but got a single point in the grid"
         #                      f"(i.e., the size {size} may be less than the spacing {self.spacing3})")
-        return (slice(c[0] - s0, c[0] - s0 + shape[0]) if shape[0] > 0 else c0,
-                slice(c[1] - s1, c[1] - s1 + shape[1]) if shape[1] > 0 else c1,
-                slice(c[2] - s2, c[2] - s2 + shape[2]) if shape[2] > 0 else c2)
+
+        def clipped(start: int, stop: int):  # a negative index would count from the other edge
+            return slice(max(start, 0), max(stop, 0))
+
+        return (clipped(c[0] - s0, c[0] - s0 + shape[0]) if shape[0] > 0 else c0,
+                clipped(c[1] - s1, c[1] - s1 + shape[1]) if shape[1] > 0 else c1,
+                clipped(c[2] - s2, c[2] - s2 + shape[2]) if shape[2] > 0 else c2)
 
     def view_fn(self, center: Size3, size: Size3, use_jax: bool = True):
         """Return a function that views a field at specific region.
-- 
2.43.0


From 6f2c9925bb03ada99a5a1dec467d34a5aca58f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:04 +0000
Subject: [PATCH 54/71] fix: masks and edits keep the shape of grids with axes
 of one pixel

---
 simphox/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index a729207..b0d32bb 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -145,7 +145,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         eps_3d = self.eps.reshape(self.shape3)
         eps_3d[s] = eps
-        self.eps = eps_3d.squeeze()
+        self.eps = eps_3d.reshape(self.shape)
         return self
 
     def mask(self, center: Size3, size: Size3):
@@ -163,7 +163,7 @@ class Grid:
         s = self.slice(center, size, squeezed=True)
         mask = np.zeros(self.shape3)
         mask[s] = 1
-        return mask.squeeze()
+        return mask.reshape(self.shape)
 
     def reshape(self, v: np.ndarray) -> np.ndarray:
         """A simple method to reshape flat 3d field array into the grid shape
-- 
2.43.0


From ad64df7092014c0703ef3d660a7299ff0092ec2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 55/71] fix: designs with an even number of pixels are mirrored

---
 simphox/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/simphox/transform.py b/simphox/transform.py
index 3895baf..08a86e2 100644
--- a/simphox/transform.py
+++ b/simphox/transform.py
@@ -54,8 +54,8 @@ def get_symmetry_fn(ortho_x: bool = False, ortho_y: bool = False, diag_p: bool =
         ortho_x_fn = (lambda x: (x + x[::-1]) / 2) if ortho_x else identity
         ortho_y_fn = (lambda x: (x + x[:, ::-1]) / 2) if ortho_y else identity
     else:
-        ortho_x_fn = (lambda x: x.at[-(x.shape[0] // 2 + 1):, :].set(x[:x.shape[0] // 2 + 1:, :][::-1, :])) if ortho_x else identity
-        ortho_y_fn = (lambda x: x.at[:, -(x.shape[1] // 2 + 1):].set(x[:, :x.shape[1] // 2 + 1][:, ::-1])) if ortho_y else identity
+        ortho_x_fn = (lambda x: x.at[(x.shape[0] + 1) // 2:, :].set(x[:x.shape[0] // 2, :][::-1, :])) if ortho_x else identity
+        ortho_y_fn = (lambda x: x.at[:, (x.shape[1] + 1) // 2:].set(x[:, :x.shape[1] // 2][:, ::-1])) if ortho_y else identity
     return lambda x: diag_p_fn(diag_n_fn(ortho_x_fn(ortho_y_fn(x))))
 
 
-- 
2.43.0


From e4615838c35603ca49aa5259f1d3ee681510c310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:19 +0000
Subject: [PATCH 56/71] fix: FDFD from a SimGrid keeps its layers and Bloch
 phases

---
 simphox/fdfd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/simphox/fdfd.py b/simphox/fdfd.py
index ac3cb0b..e73561f 100644
--- a/simphox/fdfd.py
+++ b/simphox/fdfd.py
@@ -114,7 +114,10 @@ class FDFD(SimGrid):
             spacing=simgrid.spacing,
             wavelength=wavelength,
             eps=simgrid.eps,
-            pml=simgrid.pml_shape,
+            bloch_phase=tuple(np.angle(simgrid.bloch)),
+            pml=simgrid.pml,
+            pml_sep=simgrid.pml_sep,
+            pml_params=tuple(simgrid.pml_params)[:3],
             name=simgrid.name
         )
         fdfd.port = simgrid.port
-- 
2.43.0


From 38dbc8e5876a73595bb5e111d845677582959ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 57/71] fix: ribs without a substrate are kept

---
 simphox/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/grid.py b/simphox/grid.py
index b0d32bb..15896cd 100644
--- a/simphox/grid.py
+++ b/simphox/grid.py
@@ -304,7 +304,8 @@ class Grid:
         """
         if rib_y > 0:
             self.fill(rib_y + sub_height, waveguide.eps)
-        self.fill(sub_height, sub_eps)
+        if sub_height > 0 or rib_y == 0:  # a substrate of no height fills the grid, rib included
+            self.fill(sub_height, sub_eps)
         waveguide.align(self.center)
         if wg_height:
             waveguide.valign(wg_height)
-- 
2.43.0


From 6bccc328fcf55e16a577a3566d2da3a6f76a34fa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:52:26 +0000
Subject: [PATCH 58/71] fix: boxes beyond the lower edges are clipped to the
 array

---
 simphox/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index c0720e9..02353e1 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -106,7 +106,8 @@ class Box:
 
     @property
     def slice(self) -> Tuple[slice, slice]:
-        return slice(self.min_i[0], self.max_i[0]), slice(self.min_i[1], self.max_i[1])
+        # a negative index would count from the other edge
+        return slice(max(self.min_i[0], 0), max(self.max_i[0], 0)), slice(max(self.min_i[1], 0), max(self.max_i[1], 0))
 
     @property
     def copy(self) -> "Box":
-- 
2.43.0


From 2e31e2887e964023d0e6bc8c992979fc69aa2f31 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:55:15 +0000
Subject: [PATCH 59/71] fix: optimizations run without progress bar and
 visualization, and metrics at intervals

---
 simphox/opt.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index 99f3265..d0ee92c 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -188,6 +188,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
 
     costs = []
     history = defaultdict(list)
+    metric_names = []
 
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
@@ -202,18 +203,20 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 field_pipe.send(hz.real / np.max(hz.real))
                 power = np.abs(hz) ** 2
                 power_pipe.send(power / np.max(power))
-            if metric_interval > 0 and i % metric_interval == 0 and viz is not None:
+            if metric_interval > 0 and i % metric_interval == 0 and sop.metrics_fn is not None:
                 metrics = sop.metrics_fn(sparams)
                 for metric_name, metric_value in metrics.items():
                     history[f'{metric_name}/{sop.sim.name}'].append(metric_value)
-                for title in viz.metrics_pipes[sop.sim.name]:
+                    if metric_name not in metric_names:
+                        metric_names.append(metric_name)
+                for title in viz.metrics_pipes[sop.sim.name] if viz is not None else []:
                     viz.metrics_pipes[sop.sim.name][title].send(
                         xarray.DataArray(
                             data=np.asarray([history[f'{metric_name}/{sop.sim.name}']
                                              for metric_name in viz.metric_config[title]]),
                             coords={
                                 'metric': viz.metric_config[title],
-                                'iteration': np.arange(i + 1)
+                                'iteration': np.arange(0, i + 1, metric_interval)
                             },
                             dims=['metric', 'iteration'],
                             name=title
@@ -223,20 +226,21 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
                 history[f'eps/{sop.sim.name}'].append((i, sop.sim.eps))
             if field_interval > 0 and i % field_interval == 0:
                 history[f'field/{sop.sim.name}'].append((i, hz.T))
-        iterator.set_description(f"𝓛: {v:.5f}")
+        if hasattr(iterator, 'set_description'):
+            iterator.set_description(f"𝓛: {v:.5f}")
         costs.append(jax.lax.stop_gradient(v))
         if viz is not None:
             viz.costs_pipe.send(np.asarray(costs))
     _update_eps(opt_state)
 
-    all_metric_names = sum([metric_names for _, metric_names in viz.metric_config.items()], [])
+    all_metric_names = sum([names for _, names in viz.metric_config.items()], []) if viz is not None else metric_names
     metrics = xarray.DataArray(
         data=np.array([[history[f'{metric_name}/{sop.sim.name}']
                         for metric_name in all_metric_names] for sop in sim_opt_problems]),
         coords={
             'name': [sop.sim.name for sop in sim_opt_problems],
             'metric': all_metric_names,
-            'iteration': np.arange(num_iters)
+            'iteration': np.arange(0, num_iters, metric_interval)
         },
         dims=['name', 'metric', 'iteration'],
         name='metrics'
-- 
2.43.0


From 8cd3f56d49ef9969d4324a272f964dcd4f3baf07 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:55:31 +0000
Subject: [PATCH 60/71] fix: optimization problems without simulations run on
 the transformed design

---
 simphox/opt.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/simphox/opt.py b/simphox/opt.py
index d0ee92c..23b5ee9 100644
--- a/simphox/opt.py
+++ b/simphox/opt.py
@@ -62,7 +62,7 @@ class OptProblem:
 
     def __post_init__(self):
         self.fn = self.sim.get_sim_sparams_fn(self.source, self.transform_fn)\
-            if self.source is not None else self.transform_fn
+            if self.source is not None and self.sim is not None else self.transform_fn
 
 
 @fix_dataclass_init_docs
@@ -165,7 +165,7 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
             raise ValueError("Number of viz_pipes must match number of opt problems")
 
     # Define the simulation and objective function acting on parameters rho
-    solve_fn = [None if (op.source is None or op.sim is None) else op.fn for op in opt_problems]
+    solve_fn = [op.fn for op in opt_problems]
 
     def overall_cost_fn(rho: jnp.ndarray):
         evals = [op.cost_fn(s(rho)) if s is not None else op.cost_fn(rho) for op, s in zip(opt_problems, solve_fn)]
@@ -180,7 +180,9 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     def _update_eps(state):
         rho = get_params(state)
         for op in opt_problems:
-            op.sim.eps = np.asarray(jax.lax.stop_gradient(op.transform_fn(rho)))
+            if op.sim is not None:
+                eps = rho if op.transform_fn is None else op.transform_fn(rho)
+                op.sim.eps = np.asarray(jax.lax.stop_gradient(eps))
 
     step = jax.jit(step_, backend=backend)
 
@@ -193,7 +195,9 @@ def opt_run(opt_problem: Union[OptProblem, List[OptProblem]], init_params: np.nd
     for i in iterator:
         v, opt_state, data = step(i, opt_state)
         _update_eps(opt_state)
-        for sop, sparams_fields in zip(sim_opt_problems, data):
+        for sop, sparams_fields in zip(opt_problems, data):
+            if sop.sim is None or sop.source is None:
+                continue
             sim = sop.sim
             sparams, e, h = sim.decorate(*sparams_fields)
             hz = np.asarray(h[2]).squeeze().T
-- 
2.43.0


From 204963c6089f19f8f5063fbafab07dbab6a08c3a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:44:15 +0000
Subject: [PATCH 61/71] fix: mesh matrices transform real inputs

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 7df8a47..079ee73 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -207,7 +207,7 @@ class ForwardMesh:
         def matrix(params: Tuple[xp.ndarray, xp.ndarray, xp.ndarray] = self.params, inputs=xp.eye(self.n, dtype=np.complex64),
                    bs_errors=xp.array(self.all_errors, dtype=np.complex64), loss_errors=xp.array(self.all_losses, dtype=np.complex64)):
 
-            inputs += 0j  # cast to complex if not already
+            inputs = inputs + 0j  # cast to complex if not already
             thetas, phis, gammas = params
             outputs = xp.array(inputs[:, None].copy() if inputs.ndim == 1 else inputs.copy())
             mzis = _parallel_mzi(
-- 
2.43.0


From e212589bf5e0d8de0c0bcdc40c81679abea5bfaf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:46:39 +0000
Subject: [PATCH 62/71] fix: meshes propagate light of all ports when no inputs
 are given

---
 simphox/circuit/forward.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 079ee73..bfdc275 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -427,7 +427,7 @@ class ForwardMesh:
         """Propagate :code:`inputs` through the mesh
 
         Args:
-            inputs: Inputs for propagation of the modes through the mesh.
+            inputs: Inputs for propagation of the modes through the mesh (if :code:`None`, use the identity matrix).
             back: send the light backward (flip the mesh)
             column_cutoff: The cutoff column where to start propagating (useful for nullification basis)
             params: parameters to use for the propagation (if :code:`None`, use the default params attribute).
@@ -438,6 +438,7 @@ class ForwardMesh:
             Propagated fields
 
         """
+        inputs = np.eye(self.n, dtype=np.complex128) if inputs is None else inputs
         return self.propagate_matrix_fn(back=back, column_cutoff=column_cutoff, explicit=explicit, use_jax=False)(inputs=inputs)
 
     @property
-- 
2.43.0


From ae8f20925af8ed622b64858b4cdd0d374be41c0d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 63/71] fix: shift_slice shifts slices

---
 simphox/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 02353e1..09db98f 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -381,5 +381,5 @@ def shift_slice(slice_to_shift: Tuple[Union[slice, int], ...], shift: int = 1, a
         slices[axis] += shift
     elif isinstance(slices[axis], slice):
         if isinstance(slices[axis].start, int) and isinstance(slices[axis].stop, int):
-            slices[axis] += slice(slices[axis].start + shift, slices[axis].stop + shift)
+            slices[axis] = slice(slices[axis].start + shift, slices[axis].stop + shift)
     return tuple(slices)
-- 
2.43.0


From be297677b742d65ed6dae57b8e5809868deacaa1 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:35:12 +0000
Subject: [PATCH 64/71] fix: phase bookkeeping of grid meshes that are not
 square or of two or an odd number of rails

---
 simphox/circuit/rectangular.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/simphox/circuit/rectangular.py b/simphox/circuit/rectangular.py
index 1a1b0e5..fc88ea8 100644
--- a/simphox/circuit/rectangular.py
+++ b/simphox/circuit/rectangular.py
@@ -64,7 +64,7 @@ def grid_common_mode_flow(external_phases: np.ndarray, gamma: np.ndarray = None)
         new external phases shifts and new gamma resulting
 
     """
-    gamma = np.zeros(external_phases.shape[1]) if gamma is None else gamma
+    gamma = np.zeros(external_phases.shape[0]) if gamma is None else gamma
     units, num_layers = external_phases.shape
     phase_shifts = np.hstack((external_phases, gamma[:, np.newaxis])).T
     new_phase_shifts = np.zeros_like(external_phases.T)
@@ -181,12 +181,10 @@ def rectangular_phase_shift_powers(prop: np.ndarray, use_jax: bool = False):
     n = prop.shape[1]
     y = xp.abs(prop) ** 2
     y = y / xp.sum(y, axis=1)[:, xp.newaxis]
-    phi_even = y[::8, ::2]
-    phi_odd = y[4::8, 1::2]
-    theta_even = y[2::8, ::2]
-    theta_odd = y[6::8, 1::2]
-    theta_p = xp.hstack([xp.hstack((theta_even[i], theta_odd[i]))[:-1] for i in range(n // 2)])
-    phi_p = xp.hstack([xp.hstack((phi_even[i], phi_odd[i]))[:-1] for i in range(n // 2)])
+    # four stages per column, whose top arms start at the first or second rail in turn
+    num_columns = (y.shape[0] - 2) // 4
+    theta_p = xp.hstack([y[4 * i + 2, i % 2:n - 1:2] for i in range(num_columns)])
+    phi_p = xp.hstack([y[4 * i, i % 2:n - 1:2] for i in range(num_columns)])
     gamma_p = y[-1]
     return theta_p, phi_p, gamma_p
 
-- 
2.43.0


From d51b08c8a06af73bebc4a5bafee0605c78e9129f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 65/71] fix: meshes whose column numbers have gaps

---
 simphox/circuit/forward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index bfdc275..9a88b8e 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -169,7 +169,7 @@ class ForwardMesh:
         for node in self.nodes:
             nodes_by_column[node.column].append(node)
         return [ForwardMesh(nodes_by_column[column], phase_style=self.phase_style)
-                for column in range(self.num_columns)]
+                for column in sorted(nodes_by_column)]
 
     def matrix(self, params: Optional[np.ndarray] = None, back: bool = False):
         return self.matrix_fn(back=back)(self.params if params is None else params)
-- 
2.43.0


From 8be4ec99bb8f82976a947c4d6e04b4095e2f3e3b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 66/71] fix: in-situ gradients without light are zero, not NaN

---
 simphox/circuit/forward.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/simphox/circuit/forward.py b/simphox/circuit/forward.py
index 9a88b8e..9b70a89 100644
--- a/simphox/circuit/forward.py
+++ b/simphox/circuit/forward.py
@@ -387,6 +387,9 @@ class ForwardMesh:
 
             inorm = jnp.max(jnp.linalg.norm(inputs, axis=-1))
             gnorm = jnp.max(jnp.linalg.norm(g, axis=-1))
+            # nothing to normalize if there is no light
+            inorm = jnp.where(inorm == 0, 1, inorm)
+            gnorm = jnp.where(gnorm == 0, 1, gnorm)
 
             inputs /= inorm
             g /= gnorm
-- 
2.43.0


From 112dd4d984dd7da0c8204be73ab5dc68d6bc575b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 67/71] fix: cosine-sine decomposition of unitaries with
 vanishing cosines

---
 simphox/circuit/matrix.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index 8008dfa..adea7b8 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -146,17 +146,16 @@ def cs(mat: np.ndarray):
     q10 = mat[m:, :m]
     q01 = mat[:m, m:]
     q11 = mat[m:, m:]
-    l0, d00, r0 = svd(q00)
-    r1hp, d01 = qr(q01.conj().T @ l0)
-    theta = np.arcsin(d00)
-    d01 = np.append(np.diag(d01), 1) if n % 2 else np.diag(d01)
-    r1 = (r1hp * np.sign(d01)).conj().T
-    l1p, d10 = qr(q10 @ r0.conj().T)
-    d10 = np.append(np.diag(d10), 1) if n % 2 else np.diag(d10)
-    l1 = l1p * np.sign(d10)
-    phasor = (l1.conj().T @ q11 @ r1.conj().T)[-1, -1] if n % 2 else None
-    if n % 2:
-        r1[-1] *= phasor
+    l0, s, r0 = svd(q00)
+    # largest cosines first, so that the columns left undetermined by vanishing cosines are completed last
+    l1, r10 = qr((q10 @ r0.conj().T)[:, ::-1])
+    c = np.diag(r10).real[::-1]
+    l1[:, :m] = l1[:, :m][:, ::-1] * np.where(c < 0, -1, 1)
+    c = np.abs(c)
+    theta = np.arctan2(s, c)
+    # either of the two right blocks may vanish, their combination does not
+    top, bottom = l0.conj().T @ q01, l1.conj().T @ q11
+    r1 = np.vstack((c[:, np.newaxis] * top - s[:, np.newaxis] * bottom[:m], bottom[m:]))
     return l0, l1, r0, r1, theta
 
 
-- 
2.43.0


From 50042c4ca3ad20f5f3a88832175ea2bfae959eab Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 05:42:03 +0000
Subject: [PATCH 68/71] fix: bowtie meshes implement the unitary for any number
 of rails

---
 simphox/circuit/matrix.py | 61 +++++++++++++++++----------------------
 1 file changed, 26 insertions(+), 35 deletions(-)

diff --git a/simphox/circuit/matrix.py b/simphox/circuit/matrix.py
index adea7b8..1a4f197 100644
--- a/simphox/circuit/matrix.py
+++ b/simphox/circuit/matrix.py
@@ -184,36 +184,37 @@ def csinv(l0: np.ndarray, l1: np.ndarray, r0: np.ndarray, r1: np.ndarray, theta:
     return left @ d @ right
 
 
-def _bowtie(u: np.ndarray, n_rails: int, thetas: np.ndarray, phis: np.ndarray, start: int, layer: int = None):
-    """Recursive step for the cosine-sine bowtie architecture
+def _bowtie(u: np.ndarray, nodes: list, thetas: list, phis: list, phases: np.ndarray, columns: np.ndarray, start: int):
+    """Recursive step for the cosine-sine bowtie architecture, in the order of the light (right blocks first).
 
     Args:
         u: Unitary matrix u
-        n_rails: Number of total rails in the architecture
-        thetas: The internal phase shifts or coupling phase terms :math:`\\theta`.
-        phis: The external phase shifts or differential input phase terms :math:`\\phi`.
+        nodes: The list of :code:`CouplingNode` so far.
+        thetas: The internal phase shifts or coupling phase terms :math:`\\theta` of the nodes.
+        phis: The external phase shifts or differential input phase terms :math:`\\phi` of the nodes.
+        phases: The phase accumulated in each rail since the last node (less the common mode of that node).
+        columns: The next free column in each rail.
         start: Start index for interfering modes.
-        layer: Layer of the bowtie recursion
-
-    Returns:
-        The list of :code:`CouplingNode`.
 
     """
-    nodes = []
     n = u.shape[0]
     m = n // 2
     if n == 1:
-        phis[layer][start] += np.angle(u[0][0])
-        return nodes
+        phases[start] += np.angle(u[0, 0])
+        return
     l0, l1, r0, r1, theta = cs(u)
-    thetas[layer][start:start + m * 2][::2] = theta
-    nodes.extend([CouplingNode(n=n_rails, top=start + shift, bottom=start + shift + m, column=layer)
-                  for shift in range(m)])
-    nodes.extend(_bowtie(l0, n_rails, thetas, phis, start, layer - m))
-    nodes.extend(_bowtie(r0, n_rails, thetas, phis, start, layer + m))
-    nodes.extend(_bowtie(l1, n_rails, thetas, phis, start + m, layer - m))
-    nodes.extend(_bowtie(r1, n_rails, thetas, phis, start + m, layer + m))
-    return nodes
+    _bowtie(r0, nodes, thetas, phis, phases, columns, start)
+    _bowtie(r1, nodes, thetas, phis, phases, columns, start + m)
+    column = np.max(columns[start:start + n])
+    for k in range(m):
+        top, bottom = start + k, start + k + m
+        nodes.append(CouplingNode(node_id=len(nodes), n=phases.size, top=top, bottom=bottom, column=column))
+        thetas.append(2 * theta[k])
+        phis.append(phases[top] - phases[bottom])
+        phases[top] = phases[bottom] = phases[bottom] - theta[k] - np.pi / 2
+    columns[start:start + n] = column + 1
+    _bowtie(l0, nodes, thetas, phis, phases, columns, start)
+    _bowtie(l1, nodes, thetas, phis, phases, columns, start + m)
 
 
 def bowtie(u: np.ndarray):
@@ -226,22 +227,12 @@ def bowtie(u: np.ndarray):
         The bowtie fractal architecture.
 
     """
+    nodes, thetas, phis = [], [], []
     n = u.shape[0]
-    thetas = np.zeros((2 * n - 3, n))
-    phis = np.zeros((2 * n - 1, n))
-    circuit = ForwardMesh(_bowtie(u, n, thetas, phis, 0, n - 2))
-    phis = phis[1:]
-    theta = np.zeros(int(n * (n - 1) / 2))
-    phi = np.zeros(int(n * (n - 1) / 2))
-    columns = circuit.columns
-    for col_idx, col in enumerate(columns):
-        theta[(col.node_idxs,)] = thetas[col_idx][np.nonzero(thetas[col_idx])]
-        phi[(col.node_idxs,)] = phis[col_idx][(col.top,)] - phis[col_idx][(col.bottom,)]
-        phis[col_idx][(col.top,)] = phis[col_idx][(col.bottom,)]
-        if col_idx < len(columns):
-            phis[col_idx + 1] += phis[col_idx]
-            phis[col_idx + 1] = np.mod(phis[col_idx + 1], 2 * np.pi)
-    circuit.params = theta * 2, phi, phis[-1]
+    phases = np.zeros(n)
+    _bowtie(u, nodes, thetas, phis, phases, np.zeros(n, dtype=int), 0)
+    circuit = ForwardMesh(nodes)
+    circuit.params = np.array(thetas), np.mod(phis, 2 * np.pi), np.mod(phases, 2 * np.pi)
     return circuit
 
 
-- 
2.43.0


From 7c4513d63eb0440d7f5d8cec4e045c86b5f1966c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:51:14 +0000
Subject: [PATCH 69/71] fix: a Gaussian source without a width is refused

---
 simphox/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/utils.py b/simphox/utils.py
index 09db98f..53fc526 100644
--- a/simphox/utils.py
+++ b/simphox/utils.py
@@ -350,7 +350,7 @@ def gaussian_fn(wavelength: float, pulse_width: float = 0, fwidth: float = np.in
     Returns:
 
     """
-    if pulse_width <= 0 and pulse_width == np.inf:
+    if pulse_width <= 0 and fwidth == np.inf:
         raise ValueError("Bandwidth must be positive or fwidth must be noninfinite.")
 
     fwidth = 2 * np.pi / pulse_width if pulse_width > 0 else fwidth
-- 
2.43.0


From 6e828a012cccac369e400bf320cb8b1ad40919be Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:51:14 +0000
Subject: [PATCH 70/71] fix: the Hessian distribution keeps the whole Hessian
 of each vector

---
 simphox/circuit/vector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/simphox/circuit/vector.py b/simphox/circuit/vector.py
index d52e522..f296972 100644
--- a/simphox/circuit/vector.py
+++ b/simphox/circuit/vector.py
@@ -332,5 +332,5 @@ def hessian_distribution(n: int, balanced: bool = False, n_samples=1, pbar: Call
     hessians = []
     iterator = range(n_samples) if pbar is None else pbar(range(n_samples))
     for _ in iterator:
-        hessians.append(hessian_vector_unit(random_vector(n, normed=True), balanced=balanced)[0])
+        hessians.append(hessian_vector_unit(random_vector(n, normed=True), balanced=balanced))
     return np.array(hessians)
-- 
2.43.0


From 4022bd99f9ba86188d4b2f944340c5468f625f3a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 06:51:15 +0000
Subject: [PATCH 71/71] fix: keep only the modes found in a range of
 propagation constants

---
 simphox/mode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/simphox/mode.py b/simphox/mode.py
index a477c21..f9920ec 100644
--- a/simphox/mode.py
+++ b/simphox/mode.py
@@ -183,7 +183,8 @@ class ModeSolver(YeeGrid):
             eigvals, eigvecs = eigs(self.waveguide_mode_matrix, k=max_num_modes, sigma=sigma, tol=tol)
         elif isinstance(beta_guess, tuple):
             erange = beta_guess[0] ** 2, beta_guess[1] ** 2
-            eigvals, eigvecs, _, _, _, _ = feast_eigs(self.waveguide_mode_matrix, erange=erange, k=max_num_modes)
+            eigvals, eigvecs, num_found, _, _, _ = feast_eigs(self.waveguide_mode_matrix, erange=erange, k=max_num_modes)
+            eigvals, eigvecs = eigvals[:num_found], eigvecs[:, :num_found]  # the remaining ones are not eigenpairs
         else:
             raise TypeError(f'Expected beta_guess to be None, float, or Tuple[float, float] but got {type(beta_guess)}')
 
-- 
2.43.0

