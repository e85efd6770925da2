From b84843c656ff53ce4a5d7c021f18fcaf8f618b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 01/20] fix: give every TensorNetwork its own site dictionary
 (copies and second networks overwrote each other)

---
 acetn/ipeps/tensor_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 26d2c45..0f84071 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -9,7 +9,7 @@ class TensorNetwork:
     This class handles the construction, initialization, and manipulation of a tensor network.
     It supports operations such as saving, loading, and setting up tensor networks, as well as managing the tensors.
     """
-    _tensor_network = {}
+    _tensor_network = None
     def __init__(self, tensor_network, config, dtype, device):
         """
         Initializes the TensorNetwork object.
@@ -28,6 +28,7 @@ class TensorNetwork:
         self.dtype = dtype
         self.device = device
 
+        self._tensor_network = {}
         self.setup_tensor_network(tensor_network)
 
     def __getitem__(self, site):
-- 
2.43.0


From c820cddfdf02947e8697ca8b697e913eed917f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 02/20] fix: TensorNetwork.save no longer reloads the file into
 (and marks initialized) the network being saved

---
 acetn/ipeps/tensor_network.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index 0f84071..a8bec27 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -107,7 +107,6 @@ class TensorNetwork:
             "tensors": tn_cpu._tensor_network,
         }
         torch.save(state_dict, filename)
-        self.load(filename)
 
     def load(self, filename):
         """
-- 
2.43.0


From 63cd894547e8f37573b726d26fe2ea4249f972df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 03/20] fix: give every Gate its own dictionary (gates of one
 evolution leaked into another)

---
 acetn/evolution/gate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 99bae1f..b86c5dd 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -6,7 +6,7 @@ class Gate:
     A class representing quantum gates for one-site and two-site Hamiltonians, 
     used in time evolution algorithms.
     """
-    _gate = {}
+    _gate = None
     def __init__(self, model, dtau, bond_list=None, site_list=None):
         """
         Initializes the Gate object, creating gates for the given model.
@@ -22,6 +22,7 @@ class Gate:
         site_list : list, optional
             A list of sites for which one-site gates will be created (default is None).
         """
+        self._gate = {}
         self.dtype = model.dtype
         self.device = model.device
         self.wrap_one_site = True
-- 
2.43.0


From ae21a86f718dba30afc8eb2612ea3181b328c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 04/20] fix: building two-site gates no longer modifies the
 model's own bond Hamiltonian in place

---
 acetn/evolution/gate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index b86c5dd..6c9ab9c 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -104,7 +104,7 @@ class Gate:
                 if site_ham_1 is not None and site_ham_2 is not None:
                     site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
                     site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham += 0.25*(site_ham_1 + site_ham_2)
+                    bond_ham = bond_ham + 0.25*(site_ham_1 + site_ham_2)
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
     def calculate_gate(self, ham, dtau):
-- 
2.43.0


From 8ffc663361229b106883036d0924214160ee0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 05/20] fix: keep a one-site term when only one end of a bond
 has one

---
 acetn/evolution/gate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 6c9ab9c..2edb5f1 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -101,10 +101,10 @@ class Gate:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
-                if site_ham_1 is not None and site_ham_2 is not None:
-                    site_ham_1 = torch.kron(site_ham_1.mat, id_mat)
-                    site_ham_2 = torch.kron(id_mat, site_ham_2.mat)
-                    bond_ham = bond_ham + 0.25*(site_ham_1 + site_ham_2)
+                if site_ham_1 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(site_ham_1.mat, id_mat)
+                if site_ham_2 is not None:
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, site_ham_2.mat)
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
     def calculate_gate(self, ham, dtau):
-- 
2.43.0


From 9ad7c35086d218c7dddef6c65f628717422f994b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 06/20] fix: full-system rsvd projectors conjugated the
 half-system matrices for complex tensors

---
 acetn/renormalization/projectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/renormalization/projectors.py b/acetn/renormalization/projectors.py
index 71c45e1..28bd3c2 100644
--- a/acetn/renormalization/projectors.py
+++ b/acetn/renormalization/projectors.py
@@ -207,7 +207,7 @@ class ProjectorCalculator:
         V = V[:, :cD_new] * (1. / sqrt(s[:cD_new]))
 
         # proj1 = R1.T @ conj(U) = (Q2 @ Q1).T @ conj(U) = Q1.T @ (Q2.T @ conj(U))
-        proj1 = Q1.mH @ (Q2.mH @ conj(U))
+        proj1 = Q1.mT @ (Q2.mT @ conj(U))
         proj1 = proj1.view(*q1D[3:], cD_new)
 
         # proj2 = R2 @ V = (Q4 @ Q3) @ V = Q4 @ (Q3 @ V)
-- 
2.43.0


From 9fbd9630a758a1617f821301aaca8237837d79d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 07/20] fix: apply operators and gates, not their transposes,
 to the physical index

---
 acetn/evolution/full_update.py   | 2 +-
 acetn/evolution/simple_update.py | 6 +++---
 acetn/evolution/tensor_update.py | 4 ++--
 acetn/measurement/measure.py     | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/acetn/evolution/full_update.py b/acetn/evolution/full_update.py
index 8b95149..f0c9fc3 100644
--- a/acetn/evolution/full_update.py
+++ b/acetn/evolution/full_update.py
@@ -87,7 +87,7 @@ class FullUpdater(TensorUpdater):
             The updated reduced tensors for the first and second sites.
         """
         a12g = einsum("yup,xuq->yxpq", a1r, a2r)
-        a12g = einsum("yxpq,pqrs->yxrs", a12g, gate)
+        a12g = einsum("yxpq,rspq->yxrs", a12g, gate)
 
         n12, a12g = self.precondition_norm_tensor(n12, a12g)
         a1r,a2r = ALSSolver(n12, a12g, a1r.shape, self.config).solve()
diff --git a/acetn/evolution/simple_update.py b/acetn/evolution/simple_update.py
index 068beb0..58e37ed 100644
--- a/acetn/evolution/simple_update.py
+++ b/acetn/evolution/simple_update.py
@@ -45,7 +45,7 @@ class SimpleUpdater(TensorUpdater):
 
         nD, bD, pD = a1r.shape
         a12 = einsum("yup,xuq->ypxq", a1r, a2r)
-        a12g = einsum("ypxq,pqrs->yrxs", a12, self.gate[bond])
+        a12g = einsum("ypxq,rspq->yrxs", a12, self.gate[bond])
 
         # SVD, truncate, and compute new bond lambda tensor
         U, S, Vh = svd(a12g.reshape(nD * pD, nD * pD))
@@ -65,8 +65,8 @@ class SimpleUpdater(TensorUpdater):
         a2 = self.lambda_tensors.strip(a2, bond.s2, exclude_dir=(bond.k + 2) % 4)
 
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
 
         self.lambda_tensors[bond] = lambda_tensor
         self.ipeps[bond.s1]['A'] = a1
diff --git a/acetn/evolution/tensor_update.py b/acetn/evolution/tensor_update.py
index 910ff8f..c76a182 100644
--- a/acetn/evolution/tensor_update.py
+++ b/acetn/evolution/tensor_update.py
@@ -33,8 +33,8 @@ class TensorUpdater(ABC):
         a1,a2 = self.tensor_update(a1, a2, bond)
         a1,a2 = self.permute_bond_tensors(a1, a2, 4-k)
         if not self.gate.wrap_one_site:
-            a1 = einsum("pq,lurdp->lurdq", self.gate[bond.s1], a1)
-            a2 = einsum("pq,lurdp->lurdq", self.gate[bond.s2], a2)
+            a1 = einsum("qp,lurdp->lurdq", self.gate[bond.s1], a1)
+            a2 = einsum("qp,lurdp->lurdq", self.gate[bond.s2], a2)
         return a1,a2
 
     def permute_bond_tensors(self, a1, a2, k):
diff --git a/acetn/measurement/measure.py b/acetn/measurement/measure.py
index c2753e9..dc6e0f4 100644
--- a/acetn/measurement/measure.py
+++ b/acetn/measurement/measure.py
@@ -181,7 +181,7 @@ def measure_one_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("Pp,pP->", rdm, operator).real
+    return einsum("Pp,Pp->", rdm, operator).real
 
 
 def measure_two_site(rdm, operator):
@@ -195,4 +195,4 @@ def measure_two_site(rdm, operator):
     Returns:
         float: The expectation value of the operator.
     """
-    return einsum("PQpq,pqPQ->", rdm, operator).real
+    return einsum("PQpq,PQpq->", rdm, operator).real
-- 
2.43.0


From 5c738e8a5b42c0f89002d41fabf14909e02f3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 08/20] fix: evolve keeps the state of an Ipeps constructed
 from another network

---
 acetn/ipeps/ipeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 467f571..d0de9b5 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -38,7 +38,7 @@ class Ipeps(TensorNetwork):
         self.setup_distributed()
         log_initial_message(self.device, config)
         super().__init__(ipeps, self.config.TN, self.dtype, self.device)
-        self.site_states_initialized = False
+        self.site_states_initialized = ipeps is not None
 
     def __del__(self):
         """
-- 
2.43.0


From 6dd4fd9d10af71da9b0a2b9c77769963bb388d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 09/20] fix: sign of real-valued Pauli-Y products of sums and
 of in-place products

---
 acetn/model/pauli_matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/acetn/model/pauli_matrix.py b/acetn/model/pauli_matrix.py
index 5083e01..fe58927 100644
--- a/acetn/model/pauli_matrix.py
+++ b/acetn/model/pauli_matrix.py
@@ -85,7 +85,7 @@ class PauliMatrix:
             PauliMatrix or torch.Tensor: A new `PauliMatrix` object (in the case of scalar) or a tensor (in the case of matrix Kronecker product).
         """
         if isinstance(other, (PauliMatrix)):
-            return torch.kron(self.mat, other.mat)
+            return (self * other).mat
         else:
             return PauliMatrix(self.key, self.dtype, self.device, mat=other*self.mat)
 
@@ -116,7 +116,7 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the addition.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat + other.mat))
+            return PauliMatrix(self.key, self.dtype, self.device, mat=(self.mat + other.mat))
 
     def __sub__(self, other):
         """
@@ -131,7 +131,7 @@ class PauliMatrix:
             PauliMatrix: A new `PauliMatrix` object containing the result of the subtraction.
         """
         if isinstance(other, (PauliMatrix)):
-            return PauliMatrix(self.key + other.key, self.dtype, self.device, mat=(self.mat - other.mat))
+            return PauliMatrix(self.key, self.dtype, self.device, mat=(self.mat - other.mat))
 
     def __neg__(self):
         """
-- 
2.43.0


From c77efc3ad64e0dd95aa8f60d6dc72866759201cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 10/20] fix: simple update with a complex dtype failed on its
 (real) bond weights

---
 acetn/evolution/lambda_tensors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/lambda_tensors.py b/acetn/evolution/lambda_tensors.py
index fb9e9fd..512f95a 100644
--- a/acetn/evolution/lambda_tensors.py
+++ b/acetn/evolution/lambda_tensors.py
@@ -16,7 +16,7 @@ class LambdaTensors:
         self._site_bonds = {}
 
         for bond in bond_list:
-            self._data[bond] = torch.ones(bD, dtype=dtype, device=device)
+            self._data[bond] = torch.ones(bD, dtype=dtype, device=device).real
             self._site_bonds.setdefault(bond.s1, {})[bond.k] = bond
             self._site_bonds.setdefault(bond.s2, {})[(bond.k + 2) % 4] = bond
 
-- 
2.43.0


From 75e16eb39bbde0e4b9aad737004140e846ffb767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 11/20] fix: Heisenberg coupling defaults to the documented J=1

---
 acetn/model/models/heisenberg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/model/models/heisenberg.py b/acetn/model/models/heisenberg.py
index 518dbe9..326ba56 100644
--- a/acetn/model/models/heisenberg.py
+++ b/acetn/model/models/heisenberg.py
@@ -21,6 +21,6 @@ class HeisenbergModel(Model):
 
     def two_site_hamiltonian(self, bond):
         r"""$H_{ij} = \vec{S}_i\cdot\vec{S}_j$"""
-        J = self.params.get('J')
+        J = self.params.get('J', 1.0)
         X,Y,Z,I = pauli_matrices(self.dtype, self.device)
         return 0.25*J*(X*X + Y*Y + Z*Z)
-- 
2.43.0


From 36ccd45b9a7770f6c335e0efa0cef80e6b35a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 12/20] fix: evolution accepts Hamiltonians given as plain
 tensors, as measurement does

---
 acetn/evolution/gate.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/acetn/evolution/gate.py b/acetn/evolution/gate.py
index 2edb5f1..5365bd9 100644
--- a/acetn/evolution/gate.py
+++ b/acetn/evolution/gate.py
@@ -60,6 +60,11 @@ class Gate:
         """
         self._gate[key] = gate
 
+    @staticmethod
+    def to_matrix(ham):
+        """Matrix of a Hamiltonian given as a PauliMatrix or as a plain tensor."""
+        return ham.mat if hasattr(ham, 'mat') else ham
+
     def build_one_site_gates(self, model, dtau, site_list):
         """
         Builds the one-site gates for the given list of sites by calculating the exponential of
@@ -78,7 +83,7 @@ class Gate:
             site_ham = model.one_site_hamiltonian(site)
             if site_ham is not None:
                 scale = 1. if self.wrap_one_site else 0.25
-                self[site] = self.calculate_gate(site_ham.mat, scale*dtau)
+                self[site] = self.calculate_gate(self.to_matrix(site_ham), scale*dtau)
 
     def build_two_site_gates(self, model, dtau, bond_list):
         """
@@ -96,15 +101,15 @@ class Gate:
         """
         for bond in bond_list:
             pD = model.dim
-            bond_ham = model.two_site_hamiltonian(bond).mat
+            bond_ham = self.to_matrix(model.two_site_hamiltonian(bond))
             if self.wrap_one_site:
                 id_mat = torch.eye(pD, dtype=self.dtype, device=self.device)
                 site_ham_1 = model.one_site_hamiltonian(bond.s1)
                 site_ham_2 = model.one_site_hamiltonian(bond.s2)
                 if site_ham_1 is not None:
-                    bond_ham = bond_ham + 0.25*torch.kron(site_ham_1.mat, id_mat)
+                    bond_ham = bond_ham + 0.25*torch.kron(self.to_matrix(site_ham_1), id_mat)
                 if site_ham_2 is not None:
-                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, site_ham_2.mat)
+                    bond_ham = bond_ham + 0.25*torch.kron(id_mat, self.to_matrix(site_ham_2))
             self[bond] = self.calculate_gate(bond_ham, dtau).reshape(pD,pD,pD,pD)
 
     def calculate_gate(self, ham, dtau):
-- 
2.43.0


From 23eb6daa02e98adaddde8aea4bcc92f7c1870f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 13/20] fix: networks no longer share their dimension and
 model-parameter dictionaries with each other or with the caller's config

---
 acetn/ipeps/ipeps.py          | 2 +-
 acetn/ipeps/ipeps_config.py   | 4 ++++
 acetn/ipeps/tensor_network.py | 6 ++++--
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index d0de9b5..56624c7 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -77,7 +77,7 @@ class Ipeps(TensorNetwork):
         name = "custom" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
-        self.config.model.params = params
+        self.config.model.params = dict(params)
 
     def set_model_params(self, **kwargs):
         """
diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index a456fb7..bcade21 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -44,6 +44,10 @@ class ModelConfig:
     name: str = None
     params: Dict[str, int] = None
 
+    def __post_init__(self):
+        if self.params is not None:
+            self.params = dict(self.params)
+
 @dataclass
 class IpepsConfig:
     """Configuration class for iPEPS setup."""
diff --git a/acetn/ipeps/tensor_network.py b/acetn/ipeps/tensor_network.py
index a8bec27..184cb6f 100644
--- a/acetn/ipeps/tensor_network.py
+++ b/acetn/ipeps/tensor_network.py
@@ -1,3 +1,4 @@
+from copy import copy
 import torch
 from .site_tensor import SiteTensor
 from .bond import Bond
@@ -20,10 +21,11 @@ class TensorNetwork:
             dtype (torch.dtype): The data type for the tensors (e.g., torch.float32).
             device (torch.device): The device on which the tensors will be allocated (e.g., 'cpu' or 'cuda').
         """
-        self.tn_config = config
+        self.tn_config = copy(config)
+        self.tn_config.dims = dict(config.dims)
         self.nx = config.nx
         self.ny = config.ny
-        self.dims = config.dims
+        self.dims = self.tn_config.dims
 
         self.dtype = dtype
         self.device = device
-- 
2.43.0


From 16b562af3e65e21692b425783d1ac51422c5b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 14/20] fix: two networks with unnamed custom models no longer
 use each other's model

---
 acetn/ipeps/ipeps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps.py b/acetn/ipeps/ipeps.py
index 56624c7..1e982b4 100644
--- a/acetn/ipeps/ipeps.py
+++ b/acetn/ipeps/ipeps.py
@@ -74,7 +74,7 @@ class Ipeps(TensorNetwork):
             params (dict): Parameters for the model.
             name (str, optional): Name for the custom model.
         """
-        name = "custom" if name is None else name.lower()
+        name = f"custom-{id(self)}" if name is None else name.lower()
         model_factory.register(name, model_cls)
         self.config.model.name = name
         self.config.model.params = dict(params)
-- 
2.43.0


From e3d4aad4442d09bda3a0f96bd9b849bbc3c39e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 15/20] fix: distributed moves skipped rows for more than two
 processes, could hang or fail on CPU and on unequal projector shapes

---
 acetn/renormalization/directional_mover.py | 54 +++++++++++-----------
 acetn/utils/distributed.py                 | 11 +++--
 2 files changed, 32 insertions(+), 33 deletions(-)

diff --git a/acetn/renormalization/directional_mover.py b/acetn/renormalization/directional_mover.py
index 807bfab..bf43a3e 100644
--- a/acetn/renormalization/directional_mover.py
+++ b/acetn/renormalization/directional_mover.py
@@ -192,24 +192,23 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1l, proj2l = {}, {}
         proj1r, proj2r = {}, {}
-        for y_shift in range(0, 2*ipeps.ny, ws):
-            if rank < ws//2:
-                yi = rank + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
-            elif rank >= ws//2:
-                yi = rank - ws//2 + y_shift//ws
-                if yi < ipeps.ny:
-                    proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
+        half = ws//2
+        for y_shift in range(0, ipeps.ny, half):
+            # every rank takes part in every gather, also without a row left to work on
+            yi = (rank % half + y_shift) % ipeps.ny
+            if rank // half != 1:
+                proj1_i, proj2_i = self.calculate_left_projectors(ipeps, x1, yi)
+            else:
+                proj1_i, proj2_i = self.calculate_right_projectors(ipeps, x2, yi)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
-            for yi in range(ws//2):
-                proj1l[yi + y_shift//ws] = proj1_all[yi].to(rank)
-                proj2l[yi + y_shift//ws] = proj2_all[yi].to(rank)
-                proj1r[yi + y_shift//ws] = proj1_all[yi + ws//2].to(rank)
-                proj2r[yi + y_shift//ws] = proj2_all[yi + ws//2].to(rank)
+            for yi in range(min(half, ipeps.ny - y_shift)):
+                proj1l[yi + y_shift] = proj1_all[yi]
+                proj2l[yi + y_shift] = proj2_all[yi]
+                proj1r[yi + y_shift] = proj1_all[yi + half]
+                proj2r[yi + y_shift] = proj2_all[yi + half]
 
         for yi in range(ipeps.ny):
             xj = (x1+1) % ipeps.nx
@@ -237,24 +236,23 @@ class DirectionalMover:
         rank, ws = ipeps.rank, ipeps.world_size
         proj1u, proj2u = {}, {}
         proj1d, proj2d = {}, {}
-        for x_shift in range(0, 2*ipeps.nx, ws):
-            if rank < ws//2:
-                xi = rank + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
-            elif rank >= ws//2:
-                xi = rank - ws//2 + x_shift//ws
-                if xi < ipeps.nx:
-                    proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
+        half = ws//2
+        for x_shift in range(0, ipeps.nx, half):
+            # every rank takes part in every gather, also without a column left to work on
+            xi = (rank % half + x_shift) % ipeps.nx
+            if rank // half != 1:
+                proj1_i, proj2_i = self.calculate_up_projectors(ipeps, xi, y1)
+            else:
+                proj1_i, proj2_i = self.calculate_down_projectors(ipeps, xi, y2)
 
             proj1_all = all_gather_tensor(proj1_i, rank, ws)
             proj2_all = all_gather_tensor(proj2_i, rank, ws)
 
-            for xi in range(ws//2):
-                proj1u[xi + x_shift//ws] = proj1_all[xi].to(rank)
-                proj2u[xi + x_shift//ws] = proj2_all[xi].to(rank)
-                proj1d[xi + x_shift//ws] = proj1_all[xi + ws//2].to(rank)
-                proj2d[xi + x_shift//ws] = proj2_all[xi + ws//2].to(rank)
+            for xi in range(min(half, ipeps.nx - x_shift)):
+                proj1u[xi + x_shift] = proj1_all[xi]
+                proj2u[xi + x_shift] = proj2_all[xi]
+                proj1d[xi + x_shift] = proj1_all[xi + half]
+                proj2d[xi + x_shift] = proj2_all[xi + half]
 
         for xi in range(ipeps.nx):
             xj = (xi+1) % ipeps.nx
diff --git a/acetn/utils/distributed.py b/acetn/utils/distributed.py
index b099853..4163f47 100644
--- a/acetn/utils/distributed.py
+++ b/acetn/utils/distributed.py
@@ -94,15 +94,16 @@ def all_gather_tensor(tensor, rank, ws):
     Returns:
         list: A list of gathered tensors from all workers.
     """
+    tensor = tensor.contiguous()
     # gather shapes
     tensor_shape = torch.tensor(list(tensor.shape), dtype=int, device=tensor.device)
     tensor_all_shapes = [torch.empty(4, dtype=int, device=tensor.device) for _ in range(ws)]
     dist.all_gather(tensor_all_shapes, tensor_shape)
-    # gather tensors
+    # gather tensors (shapes can differ between ranks)
     tensor_all = []
     for i in range(ws):
-        tensor_buf_shape = list(tensor_all_shapes[i].to(rank))
-        tensor_buf = torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
+        tensor_buf_shape = tensor_all_shapes[i].tolist()
+        tensor_buf = tensor if i == rank else torch.empty(tensor_buf_shape, dtype=tensor.dtype, device=tensor.device)
+        dist.broadcast(tensor_buf, src=i)
         tensor_all.append(tensor_buf)
-    dist.all_gather(tensor_all, tensor)
-    return tensor_all
\ No newline at end of file
+    return tensor_all
-- 
2.43.0


From 248f128865f47c106195c401dd5d972974fb534f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 16/20] fix: start the ALS from the truncated SVD of the target
 also for complex tensors

---
 acetn/evolution/als_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/evolution/als_solver.py b/acetn/evolution/als_solver.py
index ec1a6b5..200b1ab 100644
--- a/acetn/evolution/als_solver.py
+++ b/acetn/evolution/als_solver.py
@@ -137,7 +137,7 @@ class ALSSolver:
         nD,bD,pD = ar_shape
         a12g_tmp = einsum("yxpq->ypxq", a12g).reshape(nD*pD, nD*pD)
         U,S,Vh = svd(a12g_tmp)
-        V = Vh.mH
+        V = Vh.mT
         S = torch.sqrt(S[:bD]/S[0])
         U = U[:,:bD].reshape(nD,pD,bD)
         V = V[:,:bD].reshape(nD,pD,bD)
-- 
2.43.0


From 83fe3da9a583d69c115ce0ff8eb3af335226778e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 17/20] fix: omitted dimensions take their documented default
 value

---
 acetn/ipeps/ipeps_config.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index bcade21..6d0b75f 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -13,6 +13,15 @@ class TNConfig:
     dims: Dict[str, int] = field(
         default_factory=lambda: {'phys': 2, 'bond': 2, 'chi': 20})
 
+    def __post_init__(self):
+        # omitted dimensions take their default value
+        dims = {'phys': 2, 'bond': 2, 'chi': 20}
+        for key in self.dims:
+            if key not in dims:
+                raise TypeError(f"Unknown dimension: '{key}'")
+        dims.update(self.dims)
+        self.dims = dims
+
 @dataclass
 class CTMRGConfig:
     steps: int = 40
-- 
2.43.0


From d2d92242bfc2cd65121976496cc2d2f3babe5b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 18/20] fix: keep a configured disable_progressbar in
 interactive SLURM jobs

---
 acetn/ipeps/ipeps_config.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 6d0b75f..5d627c6 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -83,15 +83,12 @@ class IpepsConfig:
 
     def disable_pbar_if_slurm(self):
         if 'SLURM_JOB_ID' in os.environ:
-            # enable if interactive job
+            # keep the configured setting if interactive job
             job_name = os.getenv('SLURM_JOB_NAME', '')
             job_partition = os.getenv('SLURM_JOB_PARTITION', '')
-            if 'interactive' in job_name or job_partition == 'interactive':
-                disable_pbar = False
-            else:
-                disable_pbar = True
-            self.ctmrg.disable_progressbar = disable_pbar
-            self.evolution.disable_progressbar = disable_pbar
+            if not ('interactive' in job_name or job_partition == 'interactive'):
+                self.ctmrg.disable_progressbar = True
+                self.evolution.disable_progressbar = True
 
     def set_dtype(self, dtype):
         """Set the dtype to either the provided value or a default."""
-- 
2.43.0


From 14527fdf8ad1492ff51f46d50164c556049036d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:28 +0000
Subject: [PATCH 19/20] fix: fall back to the cpu for every cuda device when
 CUDA is unavailable

---
 acetn/ipeps/ipeps_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 5d627c6..00619e6 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -105,7 +105,7 @@ class IpepsConfig:
         elif isinstance(device, torch.device):
             self.device = device
         # Use cpu if device=cuda is set in config but cuda is not available
-        if self.device == torch.device("cuda") and not torch.cuda.is_available():
+        if torch.device(self.device).type == "cuda" and not torch.cuda.is_available():
             tqdm.write("Torch not compiled with CUDA enabled")
             tqdm.write("Using device='cpu'")
             self.device = torch.device("cpu")
-- 
2.43.0


From ebbec79f0e5d3dd7551ff968ebaa86e0b81d171c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:51 +0000
Subject: [PATCH 20/20] fix: model parameters left out of the configuration can
 be set and take their defaults

---
 acetn/ipeps/ipeps_config.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/acetn/ipeps/ipeps_config.py b/acetn/ipeps/ipeps_config.py
index 00619e6..dfd2e14 100644
--- a/acetn/ipeps/ipeps_config.py
+++ b/acetn/ipeps/ipeps_config.py
@@ -54,8 +54,7 @@ class ModelConfig:
     params: Dict[str, int] = None
 
     def __post_init__(self):
-        if self.params is not None:
-            self.params = dict(self.params)
+        self.params = {} if self.params is None else dict(self.params)
 
 @dataclass
 class IpepsConfig:
-- 
2.43.0

