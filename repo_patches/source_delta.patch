From b242754dc8d035f0f63ae20fb84101675c624247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 01/21] fix: give each TensorNetwork its own tensor store;
 saving no longer reloads the network

The site-tensor dictionary was a class attribute shared by every network in the
process, so copies aliased their source and independent networks overwrote each
other. save() worked around this by reloading what it had just written, which
also marked a never-initialized network as initialized.
---
 acetn/ipeps/tensor_network.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 26d2c45..6ea2190 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -9,7 +9,6 @@ class TensorNetwork:
     This class handles the construction, initialization, and manipulation of a tensor network.
     It supports operations such as saving, loading, and setting up tensor networks, as well as managing the tensors.
     """
-    _tensor_network = {}
     def __init__(self, tensor_network, config, dtype, device):
         """
         Initializes the TensorNetwork object.
@@ -28,6 +27,7 @@ class TensorNetwork:
         self.dtype = dtype
         self.device = device
 
+        self._tensor_network = {}
         self.setup_tensor_network(tensor_network)
 
     def __getitem__(self, site):
@@ -106,7 +106,6 @@ class TensorNetwork:
             "tensors": tn_cpu._tensor_network,
         }
         torch.save(state_dict, filename)
-        self.load(filename)
 
     def load(self, filename):
         """
-- 
2.43.0


From f43721ac66d8697d2c79ed0133af581e530b9efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:41 +0000
Subject: [PATCH 02/21] fix: give each Gate its own gate store

The gate dictionary was a class attribute, so building the gates of one model
replaced the gates of every other Gate object, and gates of another lattice or
model were silently served for keys that had never been built.
---
 acetn/evolution/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 99bae1f..1637a40 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -6,7 +6,6 @@ class Gate:
     A class representing quantum gates for one-site and two-site Hamiltonians, 
     used in time evolution algorithms.
     """
-    _gate = {}
     def __init__(self, model, dtau, bond_list=None, site_list=None):
         """
         Initializes the Gate object, creating gates for the given model.
@@ -25,6 +24,7 @@ class Gate:
         self.dtype = model.dtype
         self.device = model.device
         self.wrap_one_site = True
+        self._gate = {}
         if site_list is not None:
             self.build_one_site_gates(model, dtau, site_list)
         if bond_list is not None:
-- 
2.43.0


From be4dfbd18af6eda79bdc95af91615410c741b684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 03/21] fix: evolve from a provided or copied-in network
 instead of re-initializing it

Ipeps(config, ipeps=...) and copy_from() left the network flagged as
uninitialized, so the first evolve() silently discarded the given state.
---
 acetn/ipeps/ipeps.py          | 3 ++-
 acetn/ipeps/tensor_network.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 467f571..c63c9d0 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -38,7 +38,8 @@ class Ipeps(TensorNetwork):
         self.setup_distributed()
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
-        self.site_states_initialized = False
+        # a provided network is the starting state; evolve() must not replace it
+        self.site_states_initialized = ipeps is not None
 
     def __del__(self):
         """
diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 6ea2190..7777c93 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -66,6 +66,7 @@ class TensorNetwork:
         self.bond_list = tensor_network.bond_list.copy()
         for site in self.site_list:
             self[site] = SiteTensor(self.dims, tensor_network[site], dtype=self.dtype, device=self.device)
+        self.site_states_initialized = True
 
     def copy(self):
         """
-- 
2.43.0


From a701205cc578451768844c595102f75652ec9829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 04/21] fix: do not share dims and model parameters with the
 caller's config or with copies

set_chi() and set_model_params() wrote through into the configuration dictionary
the user passed in, and from there into every other Ipeps built from it; a
copy()/to() of a network likewise changed its chi when the original did.
---
 acetn/ipeps/ipeps.py          | 2 +-
 acetn/ipeps/ipeps_config.py   | 5 +++--
 acetn/ipeps/tensor_network.py | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index c63c9d0..ab1c5be 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -78,7 +78,7 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
-        self.config.model.params = params
+        self.config.model.params = dict(params)
 
     def set_model_params(self, **kwargs):
         """
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index a456fb7..db96554 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -1,3 +1,4 @@
+import copy
 import torch
 import os
 from dataclasses import dataclass, field
@@ -57,14 +58,14 @@ class IpepsConfig:
     def __post_init__(self):
         self.set_dtype(self.dtype)
         self.set_device(self.device)
-        self.TN = TNConfig(**self.TN)
+        self.TN = TNConfig(**copy.deepcopy(self.TN))
         self.ctmrg = CTMRGConfig(**self.ctmrg)
         self.evolution = EvolutionConfig(**self.evolution)
         self.validate_backend()
         self.model = ModelConfig(dtype=self.dtype,
                            device=self.device,
                            dim=self.TN.dims['phys'],
-                           **self.model)
+                           **copy.deepcopy(self.model))
         # disable tqdm progress bar in SLURM environment
         self.disable_pbar_if_slurm()
 
diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 7777c93..cb7fde3 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -1,3 +1,4 @@
+import copy
 import torch
 from .site_tensor import SiteTensor
 from .bond import Bond
@@ -75,7 +76,7 @@ class TensorNetwork:
         Returns:
             TensorNetwork: A new `TensorNetwork` with identical contents and metadata.
         """
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=self.dtype, device=self.device)
+        return TensorNetwork(tensor_network=self, config=copy.deepcopy(self.tn_config), dtype=self.dtype, device=self.device)
 
     def to(self, dtype=None, device=None):
         """
@@ -90,7 +91,7 @@ class TensorNetwork:
         """
         device = device or self.device
         dtype = dtype or self.dtype
-        return TensorNetwork(tensor_network=self, config=self.tn_config, dtype=dtype, device=device)
+        return TensorNetwork(tensor_network=self, config=copy.deepcopy(self.tn_config), dtype=dtype, device=device)
 
     def save(self, filename='ipeps.pt'):
         """
-- 
2.43.0


From 475b96203f564955f2b2ce50effdfb099ad9bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 05/21] fix: keep the model given to set_model on the iPEPS it
 was set on

set_model() stored the class only in the process-wide registry under a default
name, so setting a custom model on one iPEPS replaced the model of another.
---
 acetn/ipeps/ipeps.py         | 1 +
 acetn/ipeps/ipeps_config.py  | 1 +
 acetn/model/model_factory.py | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index ab1c5be..0fbbc42 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -78,6 +78,7 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
+        self.config.model.cls = model_cls
         self.config.model.params = dict(params)
 
     def set_model_params(self, **kwargs):
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index db96554..7b67f07 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -44,6 +44,7 @@ class ModelConfig:
     dim: int
     name: str = None
     params: Dict[str, int] = None
+    cls: type = None  # model class given to this iPEPS, if not created by name
 
 @dataclass
 class IpepsConfig:
diff --git a/acetn/model/model_factory.py b/acetn/model/model_factory.py
index 1f6c703..974fa51 100644
--- a/acetn/model/model_factory.py
+++ b/acetn/model/model_factory.py
@@ -62,6 +62,8 @@ class ModelFactory:
         Returns:
             Model: An instance of the registered model class initialized with the provided configuration.
         """
+        if getattr(config, "cls", None) is not None:
+            return config.cls(config)
         if config.name is None:
             raise ValueError("Model has not been set.")
         elif config.name not in self._models:
-- 
2.43.0


From 878a7935c789d3a536bd5870d8a1e45161618f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 06/21] fix: let a model without parameters be evolved and be
 given parameters later

params defaulted to None, so evolve() failed while logging the parameters and
set_model_params() failed assigning to None.
---
 acetn/ipeps/ipeps_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 7b67f07..25f2f00 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -43,7 +43,7 @@ class ModelConfig:
     device: torch.device
     dim: int
     name: str = None
-    params: Dict[str, int] = None
+    params: Dict[str, int] = field(default_factory=dict)
     cls: type = None  # model class given to this iPEPS, if not created by name
 
 @dataclass
-- 
2.43.0


From feb7075e632c62574ce144766efc5cfe604a070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:04 +0000
Subject: [PATCH 07/21] fix: build evolution gates from every term of the
 Hamiltonian without changing it

A one-site term was dropped from a bond gate when only one of the two sites has
one; the bond Hamiltonian returned by the model was modified in place, so a model
that caches its matrices accumulated one-site terms with every evolve() call; and
Hamiltonians given as tensors, which measure() accepts, raised AttributeError.
---
 acetn/evolution/gate.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 1637a40..8ce8114 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -77,7 +77,7 @@ class Gate:
             site_ham = model.one_site_hamiltonian(site)
             if site_ham is not None:
                 scale = 1. if self.wrap_one_site else 0.25
-                self[site] = self.calculate_gate(site_ham.mat, scale*dtau)
+                self[site] = self.calculate_gate(self.as_matrix(site_ham), scale*dtau)
 
     def build_two_site_gates(self, model, dtau, bond_list):
         """
@@ -95,17 +95,24 @@ class Gate:
         """
         for bond in bond_list:
             pD = model.dim
-            bond_ham = model.two_site_hamiltonian(bond).mat
+            bond_ham = self.as_matrix(model.two_site_hamiltonian(bond)).reshape(pD**2, pD**2)
             if self.wrap_one_site:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
-                if site_ham_1 is not None and site_ham_2 is not None:
-                    site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
-                    site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham += 0.25*(site_ham_1 + site_ham_2)
+                if site_ham_1 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(self.as_matrix(site_ham_1), id_mat)
+                if site_ham_2 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, self.as_matrix(site_ham_2))
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
+    @staticmethod
+    def as_matrix(ham):
+        """
+        Returns the matrix of a Hamiltonian given as a PauliMatrix or as a tensor.
+        """
+        return ham.mat if hasattr(ham, 'mat') else ham
+
     def calculate_gate(self, ham, dtau):
         """
         Calculates the gate from the Hamiltonian using the matrix exponential and time step.
-- 
2.43.0


From 116829eedc5f065295b1681b41986e5c4f91360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 08/21] fix: apply operators, not their transposes, in
 measurement and gate application

<O> was evaluated as <O^T> and gates acted as G^T, which goes unnoticed for
symmetric matrices but gives e.g. <Y> = -1 on the +1 eigenstate of Y and applies
non-symmetric operators backwards.
---
 acetn/evolution/full_update.py   | 2 +-
 acetn/evolution/simple_update.py | 6 +++---
 acetn/evolution/tensor_update.py | 4 ++--
 acetn/measurement/measure.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 8b95149..f0c9fc3 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -87,7 +87,7 @@ class FullUpdater(TensorUpdater):
             The updated reduced tensors for the first and second sites.
         """
         a12g = einsum("yup,xuq->yxpq", a1r, a2r)
-        a12g = einsum("yxpq,pqrs->yxrs", a12g, gate)
+        a12g = einsum("yxpq,rspq->yxrs", a12g, gate)
 
         n12, a12g = self.precondition_norm_tensor(n12, a12g)
         a1r,a2r = ALSSolver(n12, a12g, a1r.shape, self.config).solve()
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 068beb0..58e37ed 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -45,7 +45,7 @@ class SimpleUpdater(TensorUpdater):
 
         nD, bD, pD = a1r.shape
         a12 = einsum("yup,xuq->ypxq", a1r, a2r)
-        a12g = einsum("ypxq,pqrs->yrxs", a12, self.gate[bond])
+        a12g = einsum("ypxq,rspq->yrxs", a12, self.gate[bond])
 
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
@@ -65,8 +65,8 @@ class SimpleUpdater(TensorUpdater):
         a2 = self.lambda_tensors.strip(a2, bond.s2, exclude_dir=(bond.k + 2) % 4)
 
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
 
         self.lambda_tensors[bond] = lambda_tensor
         self.ipeps[bond.s1]['A'] = a1
diff --git a/acetn/evolution/tensor_update.py b/acetn/evolution/tensor_update.py
index 910ff8f..c76a182 100644
--- a/acetn/evolution/tensor_update.py
+++ b/acetn/evolution/tensor_update.py
@@ -33,8 +33,8 @@ class TensorUpdater(ABC):
         a1,a2 = self.tensor_update(a1, a2, bond)
         a1,a2 = self.permute_bond_tensors(a1, a2, 4-k)
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
         return a1,a2
 
     def permute_bond_tensors(self, a1, a2, k):
diff --git a/acetn/measurement/measure.py b/acetn/measurement/measure.py
index c2753e9..dc6e0f4 100644
--- a/acetn/measurement/measure.py
+++ b/acetn/measurement/measure.py
@@ -181,7 +181,7 @@ def measure_one_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("Pp,pP->", rdm, operator).real
+    return einsum("Pp,Pp->", rdm, operator).real
 
 
 def measure_two_site(rdm, operator):
@@ -195,4 +195,4 @@ def measure_two_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("PQpq,pqPQ->", rdm, operator).real
+    return einsum("PQpq,PQpq->", rdm, operator).real
-- 
2.43.0


From 69fce13ac7820a378a454ff326aa39b2e1b83bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 09/21] fix: full-system rsvd projectors for complex tensors

proj1 = (Q2 Q1)^T conj(U) was computed with the conjugate transposes.
---
 acetn/renormalization/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/renormalization/projectors.py b/acetn/renormalization/projectors.py
index 71c45e1..28bd3c2 100644
--- a/acetn/renormalization/projectors.py
+++ b/acetn/renormalization/projectors.py
@@ -207,7 +207,7 @@ class ProjectorCalculator:
         V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))
 
         # proj1 = R1.T @ conj(U) = (Q2 @ Q1).T @ conj(U) = Q1.T @ (Q2.T @ conj(U))
-        proj1 = Q1.mH @ (Q2.mH @ conj(U))
+        proj1 = Q1.mT @ (Q2.mT @ conj(U))
         proj1 = proj1.view(*q1D[3:], cD_new)
 
         # proj2 = R2 @ V = (Q4 @ Q3) @ V = Q4 @ (Q3 @ V)
-- 
2.43.0


From 48fd0820d484e22480ac0474486b3fbe980220e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:45 +0000
Subject: [PATCH 10/21] fix: simple update and ALS initial guess for complex
 tensors

clamp() is not defined for complex weights, so the simple update always failed
with a complex dtype; the ALS initial guess used conj(V) instead of V^H.
---
 acetn/evolution/als_solver.py     | 2 +-
 acetn/evolution/lambda_tensors.py | 2 +-
 acetn/evolution/simple_update.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index ec1a6b5..200b1ab 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -137,7 +137,7 @@ class ALSSolver:
         nD,bD,pD = ar_shape
         a12g_tmp = einsum("yxpq->ypxq", a12g).reshape(nD*pD, nD*pD)
         U,S,Vh = svd(a12g_tmp)
-        V = Vh.mH
+        V = Vh.mT
         S = torch.sqrt(S[:bD]/S[0])
         U = U[:,:bD].reshape(nD,pD,bD)
         V = V[:,:bD].reshape(nD,pD,bD)
diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index fb9e9fd..8a20fbb 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -42,7 +42,7 @@ class LambdaTensors:
     def strip(self, a, site, exclude_dir):
         """Divide out lambda from all legs of a site tensor except ``exclude_dir``."""
         weights = [
-            1.0 / self.get(site, d).clamp(min=self.CUTOFF) if d != exclude_dir
+            (1.0 / self.get(site, d).real.clamp(min=self.CUTOFF)).to(a.dtype) if d != exclude_dir
             else torch.ones_like(self.get(site, d))
             for d in range(4)
         ]
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 58e37ed..953eeb5 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -50,7 +50,7 @@ class SimpleUpdater(TensorUpdater):
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
         S = S[:bD]
-        lambda_tensor = sqrt(S / S.norm())
+        lambda_tensor = sqrt(S / S.norm()).to(dtype=U.dtype)
 
         U = U[:, :bD].reshape(nD, pD, bD)
         Vh = Vh[:bD, :].reshape(bD, nD, pD)
-- 
2.43.0


From 83fa034111209e508964377c82e3f1e8b072d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 11/21] fix: distributed CTMRG for any number of ranks, unit
 cell and device

Ranks stepped through the rows by one instead of by the number of rows handled per
round, so projectors were missing or undefined unless world_size matched the unit
cell; .to(rank) addresses an accelerator and fails for CPU tensors; all_gather
requires equal shapes while projectors of different rows may be truncated
differently; and deleting any Ipeps destroyed the process group of the others.
---
 acetn/ipeps/ipeps.py                       |  7 ---
 acetn/renormalization/directional_mover.py | 54 +++++++++++-----------
 acetn/utils/distributed.py                 | 16 +++++--
 3 files changed, 37 insertions(+), 40 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 0fbbc42..dd86584 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -41,13 +41,6 @@ class Ipeps(TensorNetwork):
         # a provided network is the starting state; evolve() must not replace it
         self.site_states_initialized = ipeps is not None
 
-    def __del__(self):
-        """
-        Finalize the distributed environment upon object deletion.
-        """
-        if self.is_distributed:
-            finalize_distributed()
-
     def setup_distributed(self):
         """
         Set up distributed environment if available.
diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 807bfab..ea4f417 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -192,24 +192,23 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1l, proj2l = {}, {}
         proj1r, proj2r = {}, {}
-        for y_shift in range(0, 2*ipeps.ny, ws):
-            if rank < ws//2:
-                yi = rank + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
-            elif rank >= ws//2:
-                yi = rank - ws//2 + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
+        half = ws//2
+        for y_shift in range(0, ipeps.ny, half):
+            # ranks left without a row of their own repeat one; their result is not used
+            yi = min(y_shift + rank % half, ipeps.ny-1)
+            if rank < half:
+                proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
+            else:
+                proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
-            for yi in range(ws//2):
-                proj1l[yi + y_shift//ws] = proj1_all[yi].to(rank)
-                proj2l[yi + y_shift//ws] = proj2_all[yi].to(rank)
-                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2].to(rank)
-                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2].to(rank)
+            for i in range(min(half, ipeps.ny - y_shift)):
+                proj1l[y_shift + i] = proj1_all[i]
+                proj2l[y_shift + i] = proj2_all[i]
+                proj1r[y_shift + i] = proj1_all[half + i]
+                proj2r[y_shift + i] = proj2_all[half + i]
 
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
@@ -237,24 +236,23 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1u, proj2u = {}, {}
         proj1d, proj2d = {}, {}
-        for x_shift in range(0, 2*ipeps.nx, ws):
-            if rank < ws//2:
-                xi = rank + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
-            elif rank >= ws//2:
-                xi = rank - ws//2 + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
+        half = ws//2
+        for x_shift in range(0, ipeps.nx, half):
+            # ranks left without a column of their own repeat one; their result is not used
+            xi = min(x_shift + rank % half, ipeps.nx-1)
+            if rank < half:
+                proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
+            else:
+                proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
-            for xi in range(ws//2):
-                proj1u[xi + x_shift//ws] = proj1_all[xi].to(rank)
-                proj2u[xi + x_shift//ws] = proj2_all[xi].to(rank)
-                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2].to(rank)
-                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2].to(rank)
+            for i in range(min(half, ipeps.nx - x_shift)):
+                proj1u[x_shift + i] = proj1_all[i]
+                proj2u[x_shift + i] = proj2_all[i]
+                proj1d[x_shift + i] = proj1_all[half + i]
+                proj2d[x_shift + i] = proj2_all[half + i]
 
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index b099853..8fbb473 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -1,5 +1,6 @@
 import torch
 import torch.distributed as dist
+import atexit
 import os
 import builtins
 from tqdm import tqdm
@@ -57,6 +58,8 @@ def setup_process_group(rank, world_size, device):
     if world_size > 1 and not dist.is_initialized():
         backend = "nccl" if torch.cuda.is_available() else "gloo"
         dist.init_process_group(backend=backend, rank=rank, world_size=world_size)
+        # every iPEPS of the process shares the group, so it lives as long as the process
+        atexit.register(finalize_distributed)
         assert rank == dist.get_rank()
         assert world_size == dist.get_world_size()
         if device != torch.device("cpu"):
@@ -98,11 +101,14 @@ def all_gather_tensor(tensor, rank, ws):
     tensor_shape = torch.tensor(list(tensor.shape), dtype=int, device=tensor.device)
     tensor_all_shapes = [torch.empty(4, dtype=int, device=tensor.device) for _ in range(ws)]
     dist.all_gather(tensor_all_shapes, tensor_shape)
-    # gather tensors
+    # gather tensors, whose shapes may differ between workers
     tensor_all = []
     for i in range(ws):
-        tensor_buf_shape = list(tensor_all_shapes[i].to(rank))
-        tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
+        tensor_buf_shape = tensor_all_shapes[i].tolist()
+        if i == rank:
+            tensor_buf = tensor.contiguous()
+        else:
+            tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
+        dist.broadcast(tensor_buf, src=i)
         tensor_all.append(tensor_buf)
-    dist.all_gather(tensor_all, tensor)
-    return tensor_all
\ No newline at end of file
+    return tensor_all
-- 
2.43.0


From 249be0bba0fe23873cf8f4d6da1b796fc4a20461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 12/21] fix: start every rank from the same initial tensors

The initial noise was drawn independently by each rank; the generators agree only
until the first randomized SVD, after which a newly initialized network differed
between ranks.
---
 acetn/ipeps/ipeps.py       | 14 ++++++++++++++
 acetn/utils/distributed.py |  9 +++++++++
 2 files changed, 23 insertions(+)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index dd86584..60d223c 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -49,6 +49,20 @@ class Ipeps(TensorNetwork):
         self.rank, self.world_size, self.device, self.is_distributed \
             = setup_distributed(self.device)
 
+    def initialize_site_tensors(self, site_state_map):
+        """
+        Initialize the site tensors, with the same noise on every rank.
+
+        Args:
+            site_state_map (callable): Map from a site to its product-state vector.
+        """
+        super().initialize_site_tensors(site_state_map)
+        if self.is_distributed:
+            for site in self.site_list:
+                self[site]['A'] = broadcast_tensor(self[site]['A'])
+                self[site].initialize_corner_tensors()
+                self[site].initialize_edge_tensors()
+
     def set_chi(self, chi):
         """
         Set the boundary bond dimension chi.
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index 8fbb473..ad299a4 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -85,6 +85,15 @@ def finalize_distributed():
         dist.destroy_process_group()
 
 
+def broadcast_tensor(tensor, src=0):
+    """
+    Returns the tensor of worker `src` on every worker.
+    """
+    tensor = tensor.contiguous()
+    dist.broadcast(tensor, src=src)
+    return tensor
+
+
 def all_gather_tensor(tensor, rank, ws):
     """
     Gathers tensors from all workers in a distributed setting.
-- 
2.43.0


From a2b1fb89c681890b1f35df88c3df32e114f3485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 13/21] fix: write saved networks atomically

An interrupted save() destroyed the previously saved network, and in a distributed
run every rank truncates the same file, so a rank could load what another was
still writing.
---
 acetn/ipeps/tensor_network.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index cb7fde3..caa993c 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -1,4 +1,6 @@
 import copy
+import os
+import uuid
 import torch
 from .site_tensor import SiteTensor
 from .bond import Bond
@@ -107,7 +109,15 @@ class TensorNetwork:
             "tensor_network": tn_cpu,
             "tensors": tn_cpu._tensor_network,
         }
-        torch.save(state_dict, filename)
+        # replace the file in one step: an interrupted save must not destroy the previous
+        # one, and all ranks of a distributed run save to the same name
+        tmp_filename = f"{filename}.{uuid.uuid4().hex}.tmp"
+        try:
+            torch.save(state_dict, tmp_filename)
+            os.replace(tmp_filename, filename)
+        finally:
+            if os.path.exists(tmp_filename):
+                os.remove(tmp_filename)
 
     def load(self, filename):
         """
-- 
2.43.0


From 03644ea8191668743aaa5ff53b2604831cdd08c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 14/21] fix: sign of products of sums of real-valued Pauli Y
 operators

The sign of a product of real-valued Y matrices is found by counting Y in the keys
of its factors, but a sum concatenated the keys of its terms, so e.g.
(Y*I + I*Y)*(Y*I + I*Y) counted four and lost the sign.
---
 acetn/model/pauli_matrix.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index 5083e01..e9644a0 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -116,7 +116,7 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the addition.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat + other.mat))
+            return PauliMatrix(self.sum_key(other), self.dtype, self.device, mat=(self.mat + other.mat))
 
     def __sub__(self, other):
         """
@@ -131,7 +131,15 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the subtraction.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat - other.mat))
+            return PauliMatrix(self.sum_key(other), self.dtype, self.device, mat=(self.mat - other.mat))
+
+    def sum_key(self, other):
+        """
+        Returns the key of a sum, which has the Y parity of its terms.
+        """
+        if self.key.count('Y') % 2 == other.key.count('Y') % 2:
+            return self.key
+        return self.key + other.key
 
     def __neg__(self):
         """
-- 
2.43.0


From da1cf9fbf1074dbe2f1a1dbecdeb713c8ca0b04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 15/21] fix: default each tensor-network dimension separately

---
 acetn/ipeps/ipeps_config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 25f2f00..390026a 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -14,6 +14,10 @@ class TNConfig:
     dims: Dict[str, int] = field(
         default_factory=lambda: {'phys': 2, 'bond': 2, 'chi': 20})
 
+    def __post_init__(self):
+        # each dimension left out of a given dict has its own default
+        self.dims = {'phys': 2, 'bond': 2, 'chi': 20, **self.dims}
+
 @dataclass
 class CTMRGConfig:
     steps: int = 40
-- 
2.43.0


From c43e1ac8c6fdf23f0f84357dbae92785b901a391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:02 +0000
Subject: [PATCH 16/21] fix: default exchange coupling of the Heisenberg model

---
 acetn/model/models/heisenberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/model/models/heisenberg.py b/acetn/model/models/heisenberg.py
index 518dbe9..326ba56 100644
--- a/acetn/model/models/heisenberg.py
+++ b/acetn/model/models/heisenberg.py
@@ -21,6 +21,6 @@ class HeisenbergModel(Model):
 
     def two_site_hamiltonian(self, bond):
         r"""$H_{ij} = \vec{S}_i\cdot\vec{S}_j$"""
-        J = self.params.get('J')
+        J = self.params.get('J', 1.0)
         X,Y,Z,I = pauli_matrices(self.dtype, self.device)
         return 0.25*J*(X*X + Y*Y + Z*Z)
-- 
2.43.0


From d6f80133574926fd3ae4dd10b35d983f060a49bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 17/21] fix: keep the given progress bar setting in interactive
 SLURM jobs

---
 acetn/ipeps/ipeps_config.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 390026a..606233e 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -79,12 +79,9 @@ class IpepsConfig:
             # enable if interactive job
             job_name = os.getenv('SLURM_JOB_NAME', '')
             job_partition = os.getenv('SLURM_JOB_PARTITION', '')
-            if 'interactive' in job_name or job_partition == 'interactive':
-                disable_pbar = False
-            else:
-                disable_pbar = True
-            self.ctmrg.disable_progressbar = disable_pbar
-            self.evolution.disable_progressbar = disable_pbar
+            if not ('interactive' in job_name or job_partition == 'interactive'):
+                self.ctmrg.disable_progressbar = True
+                self.evolution.disable_progressbar = True
 
     def set_dtype(self, dtype):
         """Set the dtype to either the provided value or a default."""
-- 
2.43.0


From 5bf8f0a3bd50216653bd9c571ca13160e576e8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:12 +0000
Subject: [PATCH 18/21] fix: treat bond weights at rounding level as zero in
 the simple update

---
 acetn/evolution/lambda_tensors.py | 6 +++++-
 acetn/evolution/simple_update.py  | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index 8a20fbb..911dd04 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -42,8 +42,12 @@ class LambdaTensors:
     def strip(self, a, site, exclude_dir):
         """Divide out lambda from all legs of a site tensor except ``exclude_dir``."""
         weights = [
-            (1.0 / self.get(site, d).real.clamp(min=self.CUTOFF)).to(a.dtype) if d != exclude_dir
+            self.inverse(self.get(site, d).real).to(a.dtype) if d != exclude_dir
             else torch.ones_like(self.get(site, d))
             for d in range(4)
         ]
         return einsum("l,u,r,d,lurdp->lurdp", *weights, a)
+
+    def inverse(self, weights):
+        """Inverse of the weights, zero where they vanish."""
+        return torch.where(weights > self.CUTOFF, 1.0 / weights, 0.0)
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 953eeb5..aac1665 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -1,4 +1,5 @@
 import time
+import torch
 from torch import einsum, sqrt
 from torch.linalg import svd
 from ..evolution.tensor_update import TensorUpdater
@@ -50,6 +51,8 @@ class SimpleUpdater(TensorUpdater):
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
         S = S[:bD]
+        # values at the level of rounding errors are not weights to divide by
+        S = S * (S > torch.finfo(S.dtype).eps * nD * pD * S[0])
         lambda_tensor = sqrt(S / S.norm()).to(dtype=U.dtype)
 
         U = U[:, :bD].reshape(nD, pD, bD)
-- 
2.43.0


From 4fe43650d0047f0a3e55da61c3668af828aeeb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:23 +0000
Subject: [PATCH 19/21] fix: resolve lazily conjugated inputs before passing
 their data to cuTENSOR

---
 csrc/evolution/als_solve.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/csrc/evolution/als_solve.cpp b/csrc/evolution/als_solve.cpp
index d6259e2..b722722 100644
--- a/csrc/evolution/als_solve.cpp
+++ b/csrc/evolution/als_solve.cpp
@@ -115,12 +115,12 @@ std::tuple<Tensor, Tensor> als_solve(
     const std::string& method,
     double epsilon) {
 
-    // Ensure contiguous memory layout for cuTENSOR
-    a1r = a1r.contiguous();
-    a2r = a2r.contiguous();
-    n12g = n12g.contiguous();
-    n12 = n12.contiguous();
-    a12g = a12g.contiguous();
+    // Ensure materialized values in contiguous memory for cuTENSOR
+    a1r = a1r.resolve_conj().resolve_neg().contiguous();
+    a2r = a2r.resolve_conj().resolve_neg().contiguous();
+    n12g = n12g.resolve_conj().resolve_neg().contiguous();
+    n12 = n12.resolve_conj().resolve_neg().contiguous();
+    a12g = a12g.resolve_conj().resolve_neg().contiguous();
 
     SolverMethod solver_method = parse_solver_method(method);
     auto real_dtype = a1r.is_complex() ? c10::toRealValueType(a1r.scalar_type()) : a1r.scalar_type();
-- 
2.43.0


From 4bb13198b6d22014799d63fa627254d530b8d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:41 +0000
Subject: [PATCH 20/21] fix: solve with a general solver in the C++ ALS when
 the Cholesky factorization fails

---
 csrc/linalg/cholesky_solve.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/csrc/linalg/cholesky_solve.h b/csrc/linalg/cholesky_solve.h
index 8f2e78f..bbf65c2 100644
--- a/csrc/linalg/cholesky_solve.h
+++ b/csrc/linalg/cholesky_solve.h
@@ -104,6 +104,10 @@ torch::Tensor cholesky_solve_impl(torch::Tensor A, torch::Tensor B) {
     auto info_ptr = devInfo.data_ptr<int>();
 
     CUSOLVER_CHECK(potrf(handle, CUBLAS_FILL_MODE_LOWER, n, A_ptr, n, work_ptr, lwork, info_ptr));
+    if (devInfo.item<int>() != 0) {
+        // A is not positive definite: use a general solver, as the PyTorch implementation does
+        return at::linalg_solve(A, B);
+    }
     CUSOLVER_CHECK(potrs(handle, CUBLAS_FILL_MODE_LOWER, n, nrhs, A_ptr, n, B_ptr, n, info_ptr));
 
     return B_.contiguous();
-- 
2.43.0


From 9430ae7911c4276b7949f4be33a7446e37a1c43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:48 +0000
Subject: [PATCH 21/21] fix: cuTENSOR solver reads the general solver's result
 in the wrong memory order

at::linalg_solve returns a column-major tensor, and the contractions that
follow assume row-major memory.
---
 csrc/linalg/cholesky_solve.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/csrc/linalg/cholesky_solve.h b/csrc/linalg/cholesky_solve.h
index bbf65c2..cedf3d9 100644
--- a/csrc/linalg/cholesky_solve.h
+++ b/csrc/linalg/cholesky_solve.h
@@ -106,7 +106,7 @@ torch::Tensor cholesky_solve_impl(torch::Tensor A, torch::Tensor B) {
     CUSOLVER_CHECK(potrf(handle, CUBLAS_FILL_MODE_LOWER, n, A_ptr, n, work_ptr, lwork, info_ptr));
     if (devInfo.item<int>() != 0) {
         // A is not positive definite: use a general solver, as the PyTorch implementation does
-        return at::linalg_solve(A, B);
+        return at::linalg_solve(A, B).contiguous();
     }
     CUSOLVER_CHECK(potrs(handle, CUBLAS_FILL_MODE_LOWER, n, nrhs, A_ptr, n, B_ptr, n, info_ptr));
 
-- 
2.43.0

