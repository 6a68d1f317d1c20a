From d00a68653bc934123250c607b9061187ff096129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 01/47] fix: place the nodes of a polyline whose stretches have
 different divisions

---
 python/src/mtl.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 21d34eb..42b9230 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -109,12 +109,14 @@ class MTL():
 
         assert (node_positions.shape[0] == len(ndiv) + 1)
         
+        first = 0
         for i, divisions in enumerate(ndiv):
             du = (node_positions[i+1]-node_positions[i])/divisions
             for k in range(divisions):
-                self.u[i*divisions + k]  = node_positions[i]+k*du
-                self.du[i*divisions + k] = du
-                self.du_norm[i*divisions + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
+                self.u[first + k]  = node_positions[i]+k*du
+                self.du[first + k] = du
+                self.du_norm[first + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
+            first += divisions
         self.u[-1] = node_positions[-1]
 
         self.time = 0.0
-- 
2.43.0


From 8340d823eda36c1cf6037852ec0936ac8ee8eba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 02/47] fix: keep the previous current when advancing
 dispersive terms

---
 python/src/mtl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 42b9230..0b64564 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -425,7 +425,7 @@ class MTL():
         
     def advance_current(self):
         self.connectors.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
@@ -919,7 +919,7 @@ class MTLD:
         
     def advance_current(self):
         self.transfer_impedance.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
-- 
2.43.0


From 62dfda7e2de85bfc3c8d8961caccbd58a8d7a638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 03/47] fix: apply a transfer impedance of direction "both" in
 both directions

---
 python/src/dispersive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index ab82ff2..782882d 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -191,7 +191,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -204,7 +204,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[:, j, i] -= np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -263,7 +263,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
                     if (residues.size != 0 and poles.size != 0):
@@ -276,7 +276,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[index, j, i] = -np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
                     if (residues.size != 0 and poles.size != 0):
-- 
2.43.0


From e93ec2eb259d8d050c5f80fd5cff8c5f1f711c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:40 +0000
Subject: [PATCH 04/47] fix: sign of the state equations of an LCpRs
 termination

---
 python/src/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index abda1d4..12d6bac 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -156,15 +156,15 @@ class Network:
         index = self.connections[node]["index"]
         x_index = self.connections[node]["state_index"]
         assert (R >= 0 and L >= 0 and C<1e22)
-        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[1/(R*C),1/C],[-1/L, 0.0]])
-        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),-1/C],[1/L, 0.0]])
+        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
         self.P1[index, index] = -1/R
 
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
+            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
-- 
2.43.0


From fed8f6fc79dbdb4c3ac8a39c1f505009c5ba8053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:25 +0000
Subject: [PATCH 05/47] fix: let the connections and sources at a network node
 add up

---
 python/src/networks.py | 53 ++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 25 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 12d6bac..35e3dfe 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -7,7 +7,6 @@ from types import FunctionType
 from typing import Dict
 
 import src.mtl as mtl
-from src.utils import add_t_functions as add
 
 class Network:
     """
@@ -35,18 +34,17 @@ class Network:
         self.nw_v_prev = self.nw_v
 
         self.P1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
-        self.Ps = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.Ps = np.zeros([self.number_of_nodes, 0])
 
         self.M = np.zeros([self.number_of_state_vars, self.number_of_state_vars])
         self.N1 = np.zeros([self.number_of_state_vars, self.number_of_nodes])
-        self.Ns = np.zeros([self.number_of_state_vars, self.number_of_nodes])
+        self.Ns = np.zeros([self.number_of_state_vars, 0])
         self.O = np.zeros([self.number_of_nodes, self.number_of_state_vars])
 
         self.Q1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
-        self.Qs = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.Qs = np.zeros([self.number_of_nodes, 0])
 
-        self.v_sources = np.empty(shape=(self.number_of_nodes), dtype=object)
-        self.v_sources.fill(lambda t: 0)
+        self.v_sources = np.empty(shape=(0), dtype=object)
 
         
     def _get_number_of_state_vars_in_connector(self, connection):
@@ -133,23 +131,30 @@ class Network:
             "state_index" : state_index
         }
             
+    def _add_source(self, Vt):
+        self.v_sources = np.append(self.v_sources, Vt)
+        self.Ps = np.pad(self.Ps, ((0,0),(0,1)))
+        self.Qs = np.pad(self.Qs, ((0,0),(0,1)))
+        self.Ns = np.pad(self.Ns, ((0,0),(0,1)))
+        return self.v_sources.shape[0] - 1
+
     def connect_to_ground(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
 
     def connect_to_ground_R(self, node: int, R = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
 
     def connect_to_ground_LCpRs(self, node: int, R = 0, L = 0, C = 0, Vt = 0):
         assert(node in self.connections.keys())
@@ -159,26 +164,26 @@ class Network:
         self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),-1/C],[1/L, 0.0]])
         self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
-        self.P1[index, index] = -1/R
+        self.P1[index, index] += -1/R
 
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1/R
+            self.Ns[x_index[0]:x_index[-1]+1, source] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (C != 0):
-            self.Q1[index, index] = -C
+            self.Q1[index, index] += -C
         if (Vt != 0):
-            self.v_sources[index]  = Vt
-            self.Qs[index, index] = C
+            source = self._add_source(Vt)
+            self.Qs[index, source] = C
 
     def short_to_ground(self, node: int):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
-        self.P1[index, index] = -1e10
+        self.P1[index, index] += -1e10
             
     def connect_nodes(self, node1: int, node2: int, R, Vt = 0):
         assert(node1 in self.connections.keys() and node2 in self.connections.keys())
@@ -191,11 +196,9 @@ class Network:
             self.P1[index2, index1] += 1/R
             self.P1[index2, index2] += -1/R
             if (Vt != 0):
-                self.Ps[index1, index1] +=  1/R 
-                self.Ps[index2, index2] += -1/R
-                
-                self.v_sources[index1]  = add(self.v_sources[index1],Vt)
-                self.v_sources[index2]  = add(self.v_sources[index2],Vt)
+                source = self._add_source(Vt)
+                self.Ps[index1, source] =  1/R 
+                self.Ps[index2, source] = -1/R
       
     def short_nodes(self, node1: int, node2: int):
         index1 = self.connections[node1]["index"]
-- 
2.43.0


From b81abc6ba5fa7e9089e75b0d482dc0c7622fccd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 06/47] fix: index a network's nodes past the preceding lines
 of their level, once

---
 python/src/networks.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 35e3dfe..45b80f2 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -123,7 +123,9 @@ class Network:
         self.e_T = np.append(self.e_T, line.e_T[connection[1]][side_idx])
 
         self.connections[connection[0]] = {
+            "line" : line,
             "line_name" : line.name, 
+            "conductor" : connection[1],
             "line_index" : connection[1], 
             "side" : side_idx, 
             "index": index, 
@@ -280,7 +282,11 @@ class NetworkD:
             for node in nw.connections.values():
                 bundle = bundles[node["bundle_name"]]
                 conductors_above = sum(bundle.conductors_in_level[0:level])
-                node["line_index"] += conductors_above
+                for line in bundle.levels[level]:
+                    if line is node["line"]:
+                        break
+                    conductors_above += line.number_of_conductors
+                node["line_index"] = node["conductor"] + conductors_above
 
     def update_sources(self, time, dt):
         for nw in self.levels.values():
-- 
2.43.0


From 828535c8e626f6445eea750f3ebf89cc86b7e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 07/47] fix: add_networks registers each network as add_network
 does

---
 python/src/mtln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 8a47219..ad5e9a6 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -35,7 +35,7 @@ class MTLN:
 
     def add_networks(self, nw: list):
         for n in nw:
-            self.networks.append(n)
+            self.add_network(n)
         
     def get_time_range(self, final_time):
         return np.arange(0, np.floor(final_time / self.dt))
-- 
2.43.0


From 239533057d9c7adcf636e299cf101a73a2ebbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 08/47] fix: keep the memory of a transfer impedance per pair
 of conductors, with its sign

---
 python/src/dispersive.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 782882d..9937461 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -10,6 +10,7 @@ class Dispersive():
         self.phi = np.zeros(
             shape=(
                 nx,
+                number_of_conductors,
                 number_of_conductors
             ), dtype = np.ndarray
         )
@@ -76,14 +77,14 @@ class Dispersive():
 
     def update_q3_phi_term(self):
         for kz in range(0, self.nx):
-            self.q3_phi_term[kz] = self.v_sum(self.q3[kz].dot(self.phi[kz]))
+            self.q3_phi_term[kz] = self.v_sum(self.q3[kz]*self.phi[kz]).sum(axis=1)
         
     def update_phi(self, i_prev, i_now):
         for kz in range(0, self.nx):
-            self.phi[kz, :] = (
-                self.q1[kz, :, :].dot(i_now[:, kz])+\
-                self.q2[kz, :, :].dot(i_prev[:, kz])+\
-                self.q3[kz, :,:].dot(self.phi[kz, :])
+            self.phi[kz] = (
+                self.q1[kz]*i_now[:, kz]+\
+                self.q2[kz]*i_prev[:, kz]+\
+                self.q3[kz]*self.phi[kz]
             )
 
         
@@ -202,7 +203,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[:, j, i] -= np.exp(poles * self.dt)
+                        self.q3[:, j, i] += np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
@@ -215,7 +216,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[:, i, j] -= np.exp(poles * self.dt)
+                        self.q3[:, i, j] += np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
@@ -274,7 +275,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, j, i] = -np.exp(poles * self.dt)
+                        self.q3[index, j, i] = np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
@@ -287,7 +288,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, i, j] = -np.exp(poles * self.dt)
+                        self.q3[index, i, j] = np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-- 
2.43.0


From a326e649a591e625764487641427ac03c71ff260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 09/47] fix: dispersive terms with several poles, evaluated at
 the time step of the run

---
 python/src/dispersive.py | 93 ++++++++++++++++++----------------------
 python/src/mtl.py        | 25 ++++++-----
 2 files changed, 54 insertions(+), 64 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 9937461..0760b3f 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -72,6 +72,40 @@ class Dispersive():
             )
         )
     
+        self.poles = np.zeros_like(self.q1)
+        self.residues = np.zeros_like(self.q1)
+
+    def set_poles(self, index, i, j, poles, residues):
+        for kz in np.atleast_1d(np.arange(self.nx)[index]):
+            self.poles[kz, i, j] = poles
+            self.residues[kz, i, j] = residues
+
+    def add_poles(self, index, i, j, poles, residues):
+        for kz in np.atleast_1d(np.arange(self.nx)[index]):
+            if np.ndim(self.poles[kz, i, j]) != 0:
+                self.set_poles(kz, i, j, np.append(self.poles[kz, i, j], poles), np.append(self.residues[kz, i, j], residues))
+            else:
+                self.set_poles(kz, i, j, poles, residues)
+
+    def set_time_step(self, dt):
+        self.dt = dt
+        for index, poles in np.ndenumerate(self.poles):
+            residues = self.residues[index]
+            if np.ndim(poles) == 0 or np.size(poles) == 0:
+                self.q1[index], self.q2[index], self.q3[index] = 0, 0, 0
+                continue
+            self.q1[index] = -(residues / poles) * (
+                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+            )
+            self.q2[index] = (residues / poles) * (
+                1 / (poles * self.dt)
+                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+            )
+            self.q3[index] = np.exp(poles * self.dt)
+
+        self.q1sum = self.v_sum(self.q1)
+        self.q2sum = self.v_sum(self.q2)
+
     def v_sum(self,arr:np.ndarray):
         return np.vectorize(np.sum, otypes=[float])(arr)
 
@@ -132,17 +166,8 @@ class DispersiveConnector(Dispersive):
         self.e[index, conductor, conductor] += e
 
 
-        self.q1[index, conductor, conductor] -= (residues / poles) * (
-            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-        )
-        self.q2[index, conductor, conductor] += (residues / poles) * (
-            1 / (poles * self.dt)
-            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-        )
-        self.q3[index, conductor, conductor] += np.exp(poles * self.dt)
-
-        self.q1sum = self.v_sum(self.q1)
-        self.q2sum = self.v_sum(self.q2)
+        self.set_poles(index, conductor, conductor, poles, residues)
+        self.set_time_step(self.dt)
 
 
 class TransferImpedance(Dispersive):
@@ -195,31 +220,14 @@ class TransferImpedance(Dispersive):
                 if (direction in ("in", "both")):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
-                    if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, j, i] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, j, i] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, j, i] += np.exp(poles * self.dt)
+                    self.add_poles(slice(None), j, i, poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
-                    if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, i, j] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, i, j] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, i, j] += np.exp(poles * self.dt)
+                    self.add_poles(slice(None), i, j, poles, -residues)
 
-        self.q1sum = self.v_sum(self.q1)
-        self.q2sum = self.v_sum(self.q2)
+        self.set_time_step(self.dt)
 
     def set_transfer_impedance_at_index(
         self, 
@@ -267,28 +275,11 @@ class TransferImpedance(Dispersive):
                 if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
-                    if (residues.size != 0 and poles.size != 0):
-                        self.q1[index, j, i] = (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[index, j, i] = -(residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[index, j, i] = np.exp(poles * self.dt)
+                    self.set_poles(index, j, i, poles, -residues)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
-                    if (residues.size != 0 and poles.size != 0):
-                        self.q1[index, i, j] = (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[index, i, j] = -(residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[index, i, j] = np.exp(poles * self.dt)
+                    self.set_poles(index, i, j, poles, -residues)
 
-        self.q1sum = self.v_sum(self.q1)
-        self.q2sum = self.v_sum(self.q2)
+        self.set_time_step(self.dt)
diff --git a/python/src/mtl.py b/python/src/mtl.py
index 0b64564..68658e9 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -348,7 +348,8 @@ class MTL():
         )
 
     def update_lr_terms(self):
-        
+        self.connectors.set_time_step(self.dt)
+
         F1 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt + 0.5*self.connectors.d + self.connectors.e/self.dt + 0.5*self.r + self.connectors.q1sum))
         F2 = np.einsum('...ij,...jk->...ik' , self.du_norm, (self.l/self.dt - 0.5*self.connectors.d + self.connectors.e/self.dt - 0.5*self.r - self.connectors.q2sum))
         
@@ -628,9 +629,8 @@ class MTLD:
         
 
         
-        q1 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q2 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
-        q3 = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
+        poles    = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
+        residues = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         d  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         e  = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         
@@ -658,9 +658,8 @@ class MTLD:
                     R[k] = linalg.block_diag(R[k], line.r[k])
                     G[k] = linalg.block_diag(G[k], line.g[k])
                     
-                    q1[k]  = linalg.block_diag(q1[k], line.connectors.q1[k])
-                    q2[k]  = linalg.block_diag(q2[k], line.connectors.q2[k])
-                    q3[k]  = linalg.block_diag(q3[k], line.connectors.q3[k])
+                    poles[k]    = linalg.block_diag(poles[k], line.connectors.poles[k])
+                    residues[k] = linalg.block_diag(residues[k], line.connectors.residues[k])
                     d[k]   = linalg.block_diag(d[k], line.connectors.d[k])
                     e[k]   = linalg.block_diag(e[k], line.connectors.e[k])
                     
@@ -684,14 +683,13 @@ class MTLD:
         self.g[0:self.ndiv] = G[0:self.ndiv]
 
         self.transfer_impedance = TransferImpedance(self.number_of_conductors, self.ndiv - 1, self.u, self.dt)
-        self.transfer_impedance.q1[0:self.ndiv-1] = q1[0:self.ndiv-1]
-        self.transfer_impedance.q2[0:self.ndiv-1] = q2[0:self.ndiv-1]
-        self.transfer_impedance.q3[0:self.ndiv-1] = q3[0:self.ndiv-1]
+        for k in range(self.ndiv-1):
+            self.transfer_impedance.poles[k] = poles[k]
+            self.transfer_impedance.residues[k] = residues[k]
         self.transfer_impedance.d[0:self.ndiv-1]  = d[0:self.ndiv-1]
         self.transfer_impedance.e[0:self.ndiv-1]  = e[0:self.ndiv-1]
 
-        self.transfer_impedance.q1sum = self.transfer_impedance.v_sum(self.transfer_impedance.q1)
-        self.transfer_impedance.q2sum = self.transfer_impedance.v_sum(self.transfer_impedance.q2)
+        self.transfer_impedance.set_time_step(self.dt)
 
         self.v = np.zeros([self.number_of_conductors, self.ndiv])
         self.i = np.zeros([self.number_of_conductors, self.ndiv-1])
@@ -805,7 +803,8 @@ class MTLD:
 
 
     def update_lr_terms(self):
-        
+        self.transfer_impedance.set_time_step(self.dt)
+
         F1 = np.einsum('...ij,...jk->...ik' , 
                        self.du_norm, 
                        (self.l/self.dt + 0.5*self.transfer_impedance.d + self.transfer_impedance.e/self.dt + 0.5*self.r + self.transfer_impedance.q1sum))
-- 
2.43.0


From 51e7b3a64b75d4f0c4de79d776c1048b4f01462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 10/47] fix: advance every bundle of a network with the
 network's time step

---
 python/src/mtln.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index ad5e9a6..98294bf 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -65,9 +65,9 @@ class MTLN:
         
         if (dt !=0):
             self.dt = dt
-            for bundle in self.bundles.values():
-                bundle.dt = dt
-        
+        for bundle in self.bundles.values():
+            bundle.dt = self.dt
+
         self.compute_nw_v_terms()
         
         t = self.get_time_range(finalTime)
@@ -75,6 +75,7 @@ class MTLN:
             bundle.update_lr_terms()
             bundle.update_cg_terms()
             for p in bundle.probes:
+                p.dt = self.dt
                 p.resize_frames(len(t), bundle.number_of_conductors)
 
         for _ in t:
-- 
2.43.0


From feb7a47785b2f40b0fa89ca7957f4322281833bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:42 +0000
Subject: [PATCH 11/47] fix: refresh terminals and probes when a line runs with
 another time step

---
 python/src/mtl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 68658e9..316ad30 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -596,8 +596,10 @@ class MTL():
         t = self.get_time_range(finalTime)
         self.update_lr_terms()
         self.update_cg_terms()
+        self.compute_terminal_terms()
 
         for p in self.probes:
+            p.dt = self.dt
             p.resize_frames(len(t), self.number_of_conductors)
 
         for _ in t:
-- 
2.43.0


From 6756a5a5ed2d636d6cbc78e62b403f1617ce7738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:30 +0000
Subject: [PATCH 12/47] fix: localized resistance and conductance on the chosen
 conductor and cells

---
 python/src/mtl.py | 58 ++++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 316ad30..e999410 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -376,7 +376,6 @@ class MTL():
         self.set_resistance_in_region(position, position, conductor, resistance)
         
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        assert(end >= start)
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -385,15 +384,14 @@ class MTL():
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
+        assert(index2 >= index1)
+        
         if (index1 == self.r.shape[0]):
             index1 -= 1
-        if (index2 == self.r.shape[0]):
-            index2 -= 1
+        if (index1 == index2):
+            index2 += 1
         
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        self.r[index1:index2, conductor, conductor] = resistance/np.sum(self.du_norm[index1:index2, 0, 0])
             
         self.update_lr_terms()
 
@@ -401,21 +399,22 @@ class MTL():
         self.add_conductance_in_region(position, position, conductor, conductance)
         
     def add_conductance_in_region(self, begin, end, conductor, conductance):
-        assert(end >= begin)
-
         if (type(begin) == float):
             begin = np.array([0.0,0.0,begin])
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        index1 = np.argmin(np.abs(self.u - begin))
-        index2 = np.argmin(np.abs(self.u - end))
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
-            
+        index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - begin)))
+        index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+        assert(index2 >= index1)
+
+        du = np.zeros(self.u.shape[0])
+        du[:-1] += 0.5*self.du_norm[:, 0, 0]
+        du[1:]  += 0.5*self.du_norm[:, 0, 0]
+        self.g[index1:index2+1, conductor, conductor] = conductance/np.sum(du[index1:index2+1])
+
         self.update_cg_terms()
+        self.compute_terminal_terms()
 
 
     def advance_voltage(self):
@@ -965,7 +964,6 @@ class MTLD:
             index, transfer_impedance)
 
     def set_resistance_in_region(self, start, end, conductor, resistance):
-        assert(end >= start)
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -974,16 +972,18 @@ class MTLD:
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        assert(index2 >= index1)
+        
+        if (index1 == self.r.shape[0]):
+            index1 -= 1
+        if (index1 == index2):
+            index2 += 1
+        
+        self.r[index1:index2, conductor, conductor] = resistance/np.sum(self.du_norm[index1:index2, 0, 0])
             
         self.update_lr_terms()
 
     def add_conductance_in_region(self, start, end, conductor, conductance):
-        assert(end >= start)
-
         if (type(start) == float):
             start = np.array([0.0,0.0,start])
         if (type(end) == float):
@@ -992,10 +992,12 @@ class MTLD:
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
-            
+        assert(index2 >= index1)
+
+        du = np.zeros(self.u.shape[0])
+        du[:-1] += 0.5*self.du_norm[:, 0, 0]
+        du[1:]  += 0.5*self.du_norm[:, 0, 0]
+        self.g[index1:index2+1, conductor, conductor] = conductance/np.sum(du[index1:index2+1])
+
         self.update_cg_terms()
 
-- 
2.43.0


From 37d580ac0ba86cfc2b91d4a9210f89ddb0bf4647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:54 +0000
Subject: [PATCH 13/47] fix: include the conductance of a line's end cell at a
 network node

---
 python/src/networks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 45b80f2..fd39ddd 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -18,6 +18,7 @@ class Network:
         self.number_of_state_vars = 0
         self.connections : Dict[int, Dict[str, int, int, int, str]] = {}
         self.c : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
+        self.g : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
         self.nw_v = np.zeros([0])
         self.nw_i = np.zeros([0])
         self.dx : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
@@ -33,7 +34,7 @@ class Network:
 
         self.nw_v_prev = self.nw_v
 
-        self.P1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
+        self.P1 = -0.5*self.dx.dot(self.g)
         self.Ps = np.zeros([self.number_of_nodes, 0])
 
         self.M = np.zeros([self.number_of_state_vars, self.number_of_state_vars])
@@ -99,6 +100,7 @@ class Network:
             side_idx = -1
 
         self.c = linalg.block_diag(self.c, nw_conn[0].c[side_idx])
+        self.g = linalg.block_diag(self.g, nw_conn[0].g[side_idx])
         
         def order_by_conductor(conn):
             return conn[1]
-- 
2.43.0


From 04f54c17bdefa9534d969f8edd1d286755cd76d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:35 +0000
Subject: [PATCH 14/47] fix: excite network nodes with the transverse field
 added to their bundle

---
 python/src/mtln.py     | 1 +
 python/src/networks.py | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 98294bf..62cb879 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -42,6 +42,7 @@ class MTLN:
 
     def compute_nw_v_terms(self):
         for nw in self.networks:
+            nw.update_e_T(self.bundles)
             nw.compute_v_terms(self.dt)
 
     def update_probes(self):
diff --git a/python/src/networks.py b/python/src/networks.py
index fd39ddd..11d0292 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -253,6 +253,10 @@ class Network:
         elif (node["side"] == -1):
             return -1.0
 
+    def update_e_T(self, lines):
+        for node in self.connections.values():
+            self.e_T[node["index"]] = lines[node["bundle_name"]].e_T[node["line_index"],node["side"]]
+
     def update_currents(self, lines):
         for node in self.connections.values():
             self.nw_i[node["index"]] =  self.i_factor(node)*lines[node["bundle_name"]].i[node["line_index"],node["side"]]
@@ -302,6 +306,10 @@ class NetworkD:
         for nw in self.levels.values():
             nw.update_voltages(bundles)
 
+    def update_e_T(self, bundles):
+        for nw in self.levels.values():
+            nw.update_e_T(bundles)
+
     def update_currents(self, bundles):
         for nw in self.levels.values():
             nw.update_currents(bundles)
-- 
2.43.0


From c492fddb3e7a788e76060fc0db6001fde3b95ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:30 +0000
Subject: [PATCH 15/47] fix: sample the longitudinal external field at the
 middle of each segment

---
 python/src/mtl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index e999410..d0bf37c 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -492,8 +492,8 @@ class MTL():
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
@@ -865,8 +865,8 @@ class MTLD:
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-- 
2.43.0


From e8fc121ea1aaf26a93d2a3113fb45e89758087fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 16/47] fix: transverse external field along each separation,
 at the line's own nodes

---
 python/src/mtl.py | 46 +++++++++++++++++++---------------------------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index d0bf37c..c81ed6a 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -33,6 +33,14 @@ class Field:
         assert (np.isclose(np.linalg.norm(du), 1, rtol = 0.01))
         return self.e_x*du[0] + self.e_y*du[1] + self.e_z*du[2]
 
+    def compute_eT_at_node(self, u: npt.NDArray[np.float64], distance: npt.NDArray[np.float64]):
+        x, y, z, s = sp.symbols('x y z s')
+        e = self.e_x*distance[0] + self.e_y*distance[1] + self.e_z*distance[2]
+        e = e.subs({x: u[0] + s*distance[0], y: u[1] + s*distance[1], z: u[2] + s*distance[2]})
+        if s not in e.free_symbols:
+            return e
+        return sp.Integral(e, (s, 0, 1))
+
 class PlaneWave(Field):
     def __init__(self, field :  FunctionType, polar, azimuth, polarization):
         
@@ -477,10 +485,12 @@ class MTL():
         x, y, z, t, v = sp.symbols('x y z t v')
          
         indices = range(self.u.shape[0] - 1)
+        nodes = range(self.u.shape[0])
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
             indices = range(start_index, end_index)
+            nodes = range(start_index, end_index + 1)
          
          
         vu = self.get_phase_velocities()
@@ -490,22 +500,12 @@ class MTL():
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
                 self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
                                                  eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
-                self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            xi, yi, zi = distances[n, -1, :]
-            l = np.abs(np.array([xi,yi,zi]))
-            l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+            for nz in nodes:
+                eT = field.compute_eT_at_node(self.u[nz], distances[n, nz]).subs(v, np.max(vu[min(nz, len(vu)-1)]))
+                self.e_T[n, nz] = sp.lambdify(t, eT)
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -851,10 +851,12 @@ class MTLD:
         x, y, z, t, v = sp.symbols('x y z t v')
 
         indices = range(self.u.shape[0] - 1)
+        nodes = range(self.u.shape[0])
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
-            indices = range(start_index, end_index+1)
+            indices = range(start_index, end_index)
+            nodes = range(start_index, end_index + 1)
         
         vu = self.get_phase_velocities()
         for n in range(self.levels[0][0].number_of_conductors):
@@ -863,22 +865,12 @@ class MTLD:
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                l = np.abs(np.array([xi,yi,zi]))
-                l /=np.linalg.norm(l)
                 self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
                                                  eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
-                self.e_T[n,nz] = sp.lambdify(t,
-                        l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-                        l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
-                        l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            xi, yi, zi = distances[n, -1, :]
-            l = np.abs(np.array([xi,yi,zi]))
-            l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+            for nz in nodes:
+                eT = field.compute_eT_at_node(self.u[nz], distances[n, nz]).subs(v, np.max(vu[min(nz, len(vu)-1)]))
+                self.e_T[n, nz] = sp.lambdify(t, eT)
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From cdd2df0f0d5594cf36a2c488514c8de425bc78d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 17/47] fix: an external field adds to the sources a line
 already has

---
 python/src/mtl.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index c81ed6a..aae346c 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -500,12 +500,12 @@ class MTL():
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = add(self.e_L[n, nz], sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz]))))
 
             for nz in nodes:
                 eT = field.compute_eT_at_node(self.u[nz], distances[n, nz]).subs(v, np.max(vu[min(nz, len(vu)-1)]))
-                self.e_T[n, nz] = sp.lambdify(t, eT)
+                self.e_T[n, nz] = add(self.e_T[n, nz], sp.lambdify(t, eT))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -865,12 +865,12 @@ class MTLD:
                 eL = field.compute_eL_at_segment(self.du[nz])
                 x0, y0, z0 = self.u[nz,:]
                 xi, yi, zi = distances[n, nz, :]
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = add(self.e_L[n, nz], sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz]))))
 
             for nz in nodes:
                 eT = field.compute_eT_at_node(self.u[nz], distances[n, nz]).subs(v, np.max(vu[min(nz, len(vu)-1)]))
-                self.e_T[n, nz] = sp.lambdify(t, eT)
+                self.e_T[n, nz] = add(self.e_T[n, nz], sp.lambdify(t, eT))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From b4719735f133deb490bcd6abc23e57f15429cfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 18/47] fix: accept the positions on a line, and only those,
 for probes and connectors

---
 python/src/dispersive.py |  4 +++-
 python/src/mtl.py        | 20 +++-----------------
 python/src/utils.py      |  7 ++++++-
 3 files changed, 12 insertions(+), 19 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 0760b3f..0a40620 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from .utils import point_in_polyline
+
 
 class Dispersive():
     def __init__(self, number_of_conductors, nx, u, dt):
@@ -133,7 +135,7 @@ class DispersiveConnector(Dispersive):
         conductor,
         model :dict 
     ):
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if not point_in_polyline(position, self.u):
             raise ValueError("Connector position is out of MTL length.")
 
         index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position)))
diff --git a/python/src/mtl.py b/python/src/mtl.py
index aae346c..6421d4a 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -20,7 +20,7 @@ from .probes import *
 from .dispersive import TransferImpedance, DispersiveConnector
 from .dispersive import Dispersive
 from .utils import add_t_functions as add, multiply
-from .utils import point_in_line
+from .utils import point_in_polyline
 
 class Field:
     def __init__(self, incident_x: sp.Function, incident_y: sp.Function, incident_z: sp.Function):
@@ -512,7 +512,7 @@ class MTL():
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if not point_in_polyline(position, self.u):
             raise ValueError("Probe position is out of MTL length.")
 
         probe = Probe(position, probe_type, self.dt, self.u)
@@ -781,21 +781,7 @@ class MTLD:
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        start = self.u[0].copy()
-        
-        probe_in_segment = False
-        for du in self.du:
-            end = start + du
-            if point_in_line(position, start, end):
-                probe_in_segment = True
-            start += du
-
-        end = start + du
-        if point_in_line(position, start, end):
-            probe_in_segment = True
-        
-        # if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
-        if not probe_in_segment:
+        if not point_in_polyline(position, self.u):
             raise ValueError("Probe position is out of MTL length.")
 
         probe = Probe(position, probe_type, self.dt, self.u)
diff --git a/python/src/utils.py b/python/src/utils.py
index 687a9fe..473eeb5 100644
--- a/python/src/utils.py
+++ b/python/src/utils.py
@@ -34,7 +34,12 @@ def point_in_line(point, start, end):
         v2 = start-point
         line_norm = np.linalg.norm(start-end)
         cross = np.cross(v1,v2)
-        if (np.linalg.norm(cross) < 1e-6 and np.linalg.norm(start-point) <= line_norm and np.linalg.norm(end-point) <= line_norm):
+        reach = line_norm*(1 + 1e-6)
+        if (np.linalg.norm(cross) < 1e-6 and np.linalg.norm(start-point) <= reach and np.linalg.norm(end-point) <= reach):
                 return True
         return False
+
+def point_in_polyline(point, u):
+        point = np.ravel(point)
+        return any(point_in_line(point, u[k], u[k+1]) for k in range(len(u)-1))
         
\ No newline at end of file
-- 
2.43.0


From 8f9e2435c37df6069610914dfdaa32a3335d4974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 19/47] fix: a dispersive connector at the last node of a line

---
 python/src/dispersive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 0a40620..ccdb1ab 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -139,6 +139,7 @@ class DispersiveConnector(Dispersive):
             raise ValueError("Connector position is out of MTL length.")
 
         index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position)))
+        index = min(index, self.nx - 1)
         du = np.linalg.norm(self.u[index+1]-self.u[index])
         
         d = model["cte"]/du
-- 
2.43.0


From f9dfd60467dd7f1ae2ff0cac42ec537747087f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:34 +0000
Subject: [PATCH 20/47] fix: cover exactly the region of a localized
 longitudinal field

---
 python/src/mtl.py   | 65 ++++++++++-----------------------------------
 python/src/utils.py | 11 +++++++-
 2 files changed, 24 insertions(+), 52 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 6421d4a..a4e5aac 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -20,7 +20,7 @@ from .probes import *
 from .dispersive import TransferImpedance, DispersiveConnector
 from .dispersive import Dispersive
 from .utils import add_t_functions as add, multiply
-from .utils import point_in_polyline
+from .utils import point_in_polyline, length_to_point
 
 class Field:
     def __init__(self, incident_x: sp.Function, incident_y: sp.Function, incident_z: sp.Function):
@@ -717,60 +717,23 @@ class MTLD:
             end = np.array([0.0,0.0,end])
 
         for position in [start,end]:
-            if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
-                raise ValueError("Probe position is out of MTL length.")
+            if not point_in_polyline(position, self.u):
+                raise ValueError("Source position is out of MTL length.")
 
         start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         end_index   = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
-        
+
+        start_length = length_to_point(start, self.u)
+        end_length   = length_to_point(end, self.u)
+
         source_factor = {}
-        for index in range(start_index, end_index):
-            source_factor[index]  = 1.0
-        
-        if (np.linalg.norm(np.abs(start - self.u[start_index])) > 1e-10) and start_index != 0:
-            
-            du = start-self.u[start_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[start_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[start_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[start_index]) < 0):
-                    frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                    source_factor[start_index-1] = frac
-                elif (du.dot(self.du[start_index]) > 0):
-                    frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                    source_factor[start_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                source_factor[start_index-1] = frac
-            elif (cross_curr < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                source_factor[start_index] = frac
-                
-        if (np.linalg.norm(np.abs(end - self.u[end_index])) > 1e-10) and end_index != self.u.shape[0]:
-            
-            du = end-self.u[end_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[end_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[end_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[end_index]) < 0):
-                    frac = 1-np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                    source_factor[end_index-1] = frac
-                    source_factor[end_index] = 0.0
-                elif (du.dot(self.du[end_index]) > 0):
-                    frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                    source_factor[end_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                source_factor[end_index-1] = frac
-                source_factor[end_index] = 0.0
-            elif (cross_curr < 1e-10):
-                frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                source_factor[end_index] = frac
-               
+        length = 0.0
+        for index, du in enumerate(np.linalg.norm(self.du, axis=1)):
+            covered = min(end_length, length + du) - max(start_length, length)
+            if (covered > 1e-10*du):
+                source_factor[index] = covered/du
+            length += du
+
         for index, factor in source_factor.items():
             if (source_type == "Planewave"):
                 self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor/(end_index - start_index)))
diff --git a/python/src/utils.py b/python/src/utils.py
index 473eeb5..114222a 100644
--- a/python/src/utils.py
+++ b/python/src/utils.py
@@ -42,4 +42,13 @@ def point_in_line(point, start, end):
 def point_in_polyline(point, u):
         point = np.ravel(point)
         return any(point_in_line(point, u[k], u[k+1]) for k in range(len(u)-1))
-        
\ No newline at end of file
+
+def length_to_point(point, u):
+        length = 0.0
+        distances = []
+        for k in range(len(u)-1):
+            du = u[k+1] - u[k]
+            fraction = np.clip(np.dot(point - u[k], du)/np.dot(du, du), 0.0, 1.0)
+            distances.append((np.linalg.norm(u[k] + fraction*du - point), length + fraction*np.linalg.norm(du)))
+            length += np.linalg.norm(du)
+        return min(distances)[1]
-- 
2.43.0


From a956e812a62263cf363a8503ba2fb4106da4bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 21/47] fix: order the cables of a level as the document does

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index f392e95..c8b9e90 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -329,7 +329,7 @@ class Parser:
             
             for i in range(max([v["level"] for v in graph.vs])+1):
                 bundle_levels[i] = []
-                for name in list(set([v["cable"] for v in graph.vs(level_eq=i)])):
+                for name in list(dict.fromkeys([v["cable"] for v in graph.vs(level_eq=i)])):
                     line = self._buildMTLfromLine(name)
                     
                     self._addConnectorsResistance(line)
-- 
2.43.0


From 51af4bd3683662b8e78b48694d3e03e6e5582afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:42 +0000
Subject: [PATCH 22/47] fix: terminate each node of an entry with its own
 connector and source

---
 python/src/jsonParser.py | 68 ++++++++++++----------------------------
 1 file changed, 20 insertions(+), 48 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index c8b9e90..5eb5ea5 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -473,54 +473,26 @@ class Parser:
                 network = nw.Network(description)
                 
                 for c in connections:
-                    if len(c["nodes"]) == 1:
-                        if (c["connectors"][0]["connectorType"] == "Conn_short"):
-                            network.short_to_ground(c["nodes"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_sRLC" or c["connectors"][0]["connectorType"] == "Conn_R"):
-                            network.connect_to_ground(c["nodes"][0], 
-                                                      c["connectors"][0]["resistance"], 
-                                                      c["sources"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_C"):
-                            network.connect_to_ground_C(c["nodes"][0], 
-                                                        c["connectors"][0]["capacitance"], 
-                                                        c["sources"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_LCpRs"):
-                            network.connect_to_ground_LCpRs(c["nodes"][0], 
-                                                            c["connectors"][0]["resistance"], 
-                                                            c["connectors"][0]["inductance"], 
-                                                            c["connectors"][0]["capacitance"], 
-                                                            c["sources"][0])
-                    
-                    elif len(c["nodes"]) > 1:
-                        for node, conductor in zip(c["nodes"], c["conductors"]):
-                            if (c["connectors"][conductor]["connectorType"] == "MultiwireConnector"):
-                                
-                                if "resistanceVector" in c["connectors"][conductor].keys():
-                                    R = c["connectors"][conductor]["resistanceVector"][conductor]
-                                else:
-                                    R = 0
-                                if "capacitanceVector" in c["connectors"][conductor].keys():
-                                    C = c["connectors"][conductor]["capacitanceVector"][conductor]
-                                else:
-                                    C = 1e22
-                                if "inductanceVector" in c["connectors"][conductor].keys():
-                                    L = c["connectors"][conductor]["inductanceVector"][conductor]
-                                else:
-                                    L = 0
-
-                                if (c["connectors"][conductor]["connections"][conductor] == "Conn_short"):
-                                    network.short_to_ground(node)
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_R" or 
-                                      c["connectors"][conductor]["connections"][conductor] == "Conn_sRLC"):
-                                    network.connect_to_ground_R(node, R, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_LCpRs"):
-                                    network.connect_to_ground_LCpRs(node, R ,L, C, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_C"):
-                                    network.connect_to_ground_C(node, C, c["sources"][conductor])
-                                # if R != 0:
-                                #     network.connect_to_ground(node, R, c["sources"][conductor])
-                                # else:
-                                #     network.short_to_ground(node)
+                    for node, connector, conductor, source in zip(c["nodes"], c["connectors"], c["conductors"], c["sources"]):
+                        connectorType = connector["connectorType"]
+                        R = connector.get("resistance", 0)
+                        L = connector.get("inductance", 0)
+                        C = connector.get("capacitance", 1e22)
+
+                        if (connectorType == "MultiwireConnector"):
+                            connectorType = connector["connections"][conductor]
+                            R = connector["resistanceVector"][conductor] if "resistanceVector" in connector.keys() else 0
+                            L = connector["inductanceVector"][conductor] if "inductanceVector" in connector.keys() else 0
+                            C = connector["capacitanceVector"][conductor] if "capacitanceVector" in connector.keys() else 1e22
+
+                        if (connectorType == "Conn_short"):
+                            network.short_to_ground(node)
+                        elif (connectorType == "Conn_sRLC" or connectorType == "Conn_R"):
+                            network.connect_to_ground_R(node, R, source)
+                        elif (connectorType == "Conn_C"):
+                            network.connect_to_ground_C(node, C, source)
+                        elif (connectorType == "Conn_LCpRs"):
+                            network.connect_to_ground_LCpRs(node, R, L, C, source)
 
                 networkd[bundle_level] = network
             terminations.append(nw.NetworkD(networkd))
-- 
2.43.0


From e4027a5b48354b3ac01f79da8f5dcaba9e07f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 23/47] fix: keep every termination and junction that shares a
 place and level

---
 python/src/jsonParser.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 5eb5ea5..5d84e7d 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -443,14 +443,18 @@ class Parser:
         raise Exception(cable_name + " is not part of any bundle")
     
     
+    def _getLevelOfNode(self, node_id):
+        _, cable_name, _, _ = self._getConnectorAndCableInNode(node_id)
+        return self._getLevelOfCable(cable_name)
+
     def _buildTerminations(self):
         
         terminations = []
         for level_network in self._getNetworkTerminationList():
             networkd = {}
+            entries = {}
             for t in level_network:
-                connections = []
-                description = {}
+                description, connections = entries.setdefault(self._getLevelOfNode(t["coordIds"][-1][-1]), ({}, []))
                 for coords in t["coordIds"]:
                     d = {"nodes" : [], "connectors" : [], "conductors": [], "sources" : []}
                     for c in coords:
@@ -458,8 +462,6 @@ class Parser:
                         conn, cable_name, conductor, side  = self._getConnectorAndCableInNode(c)
                         source = self._getTerminalSourceInNode(c)
 
-                        bundle_level = self._getLevelOfCable(cable_name)
-
                         if not self._name_to_mtl[cable_name] in description.keys():
                             description[self._name_to_mtl[cable_name]] = {"side":side, "bundle":self._name_to_bundle[cable_name], "connections" : []}
             
@@ -469,7 +471,8 @@ class Parser:
                         d["conductors"].append(conductor)
                         d["sources"].append(source)
                     connections.append(d)
-                    
+
+            for bundle_level, (description, connections) in entries.items():
                 network = nw.Network(description)
                 
                 for c in connections:
@@ -575,17 +578,15 @@ class Parser:
         junctions = []
         for level_network in self._getNetworkJunctionList():
             networkd = {}
+            entries = {}
             for j in level_network:
-                connections = []
-                description = {}
+                description, connections = entries.setdefault(self._getLevelOfNode(j["unitedCoordIds"][-1][-1]), ({}, []))
                 for pair in j["unitedCoordIds"]:
                     d = {"nodes" : [], "connectors" : [], "conductors" : [], "sources" : []}
                     for p in pair:
                         conn, cable_name, conductor, side  = self._getConnectorAndCableInNode(p)
                         source = self._getTerminalSourceInNode(p)
                         
-                        bundle_level = self._getLevelOfCable(cable_name)
-                        
                         if not self._name_to_mtl[cable_name] in description.keys():
                             description[self._name_to_mtl[cable_name]] = {"side":side, "bundle":self._name_to_bundle[cable_name], "connections" : []}
 
@@ -598,7 +599,8 @@ class Parser:
                         d["sources"].append(source)
                     
                     connections.append(d)
-                                    
+
+            for bundle_level, (description, connections) in entries.items():
                 network = nw.Network(description)
                 
                 for conn in connections:
-- 
2.43.0


From 42ab981dbc0724e16725dcd2588491af14d17d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 24/47] fix: index a network's nodes at the level of their own
 line

---
 python/src/networks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 11d0292..eb3eba7 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -284,11 +284,11 @@ class NetworkD:
         self.levels = levels
 
     def update_index_numbers(self, bundles):
-        for level, nw in self.levels.items():
+        for nw in self.levels.values():
             for node in nw.connections.values():
                 bundle = bundles[node["bundle_name"]]
-                conductors_above = sum(bundle.conductors_in_level[0:level])
-                for line in bundle.levels[level]:
+                conductors_above = 0
+                for line in [line for lines in bundle.levels.values() for line in lines]:
                     if line is node["line"]:
                         break
                     conductors_above += line.number_of_conductors
-- 
2.43.0


From 5b1e05e75e70861ecdbf47a64d0b7c959fc8aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 25/47] fix: every lumped element of a cable, and cables
 without any

---
 python/src/jsonParser.py | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 5d84e7d..28fdbf6 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -261,23 +261,19 @@ class Parser:
     
     
     def _addLumpedElement(self, line):
-        if len(self._lumped) == 0:
-            return
-        
-        lumped  = [l for l in self._lumped if l["cable"] == line.name][0]
-        conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
-        
-        try:
-            assert 'model' in list(conn.keys())
-        except:
-            raise Exception('No model has been defined for lumped impedance')    
-        
-        position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
-        conductor = lumped["conductor"]
-       
-        line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
-                
-    
+        for lumped in [l for l in self._lumped if l["cable"] == line.name]:
+            conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
+
+            try:
+                assert 'model' in list(conn.keys())
+            except:
+                raise Exception('No model has been defined for lumped impedance')
+
+            position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
+            conductor = lumped["conductor"]
+
+            line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
+
     def _addConnectorsResistance(self, line):
         for c in [c for c in self._cables if c["name"] == line.name]:
             for end in self._ends:
-- 
2.43.0


From c668ff5864c0bb2ec9c8e647dc1d7ad84a8b98cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 26/47] fix: drive the conductor of the cable a distributed
 source names

---
 python/src/jsonParser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 28fdbf6..e852c3a 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -363,7 +363,11 @@ class Parser:
             conductor = 0
             if "conductor" in source.keys():
                 conductor = source["conductor"]
-                
+            for line in [line for lines in bundle.levels.values() for line in lines]:
+                if line.name == cable["name"]:
+                    break
+                conductor += line.number_of_conductors
+
             if (source["type"] == "localized efield drive" or source["type"] == "Planewave"):
                 # cStart = self._coordinates[self._getNodeCoordId(source["elemIds"][0])]
                 # cEnd = self._coordinates[self._getNodeCoordId(source["elemIds"][1])] 
-- 
2.43.0


From 2890afff35fc9c276a0e778499fb5c71e2a8ee20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:05 +0000
Subject: [PATCH 27/47] fix: reject a source of unknown type instead of running
 with NaN

---
 python/src/jsonParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index e852c3a..c8e9e27 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -549,8 +549,8 @@ class Parser:
                 x0 = source["magnitude"]["t0"]
             )
         else:
-            def magnitude(t): lambda t : 0
-            
+            raise Exception("Unknown source type " + str(source["magnitude"]["type"]))
+
         return magnitude
 
     def _getTerminalSourceInNode(self, node):
-- 
2.43.0


From e6fa9075bde9e69cb2f4b69b79bf8a3719dbcf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:56 +0000
Subject: [PATCH 28/47] fix: nested cables and connectors without a transfer
 impedance

---
 python/src/jsonParser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index c8e9e27..8117af2 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -286,7 +286,7 @@ class Parser:
                     line.set_resistance_in_region(coordinate, coordinate, conductor, resistance)
     
     def _setBundleTransferImpedance(self, bundle, graph):
-        for edge in graph.es:
+        for edge in [edge for edge in graph.es if edge['Zt'] != 0]:
             bundle.add_transfer_impedance(
                 out_level = graph.vs[edge.source]["level"], 
                 out_level_conductors= [self._findConductorNumberInLevel(graph, edge.source, bundle)], 
@@ -300,8 +300,10 @@ class Parser:
             for edge in [edge for edge in graph.es if graph.vs[edge.source]["name"] == str(el_id)]:
                 
                 conn = [c for c in self._connectors if c["materialId"] == end["materialId"]][0]
+                if not "transferImpedance" in conn.keys():
+                    continue
                 Zt = conn["transferImpedance"]
-                
+
                 bundle.set_connector_transfer_impedance(
                     side = side,
                     out_level = graph.vs[edge.source]["level"], 
-- 
2.43.0


From 605db0da6fffadbbdfbf34cdcdb8190a36fd0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:08 +0000
Subject: [PATCH 29/47] fix: waveforms count their corner points once

---
 python/src/waveforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 1a72e93..9d2e284 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -63,11 +63,11 @@ def trapezoidal_wave(x, A, rise_time, fall_time, f0, D):
     t1, t2, t3 = rise_time, rise_time + cte_time, rise_time + cte_time + fall_time
     
     return A*(mod_time/rise_time)*(mod_time <= t1) + \
-           A*(mod_time >= t1 )*(mod_time <= t2) + \
-           (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time >= t2)*(mod_time <= t3)
+           A*(mod_time > t1 )*(mod_time <= t2) + \
+           (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time > t2)*(mod_time <= t3)
 
 def ramp_pulse(x, A, x0):
-    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x >= x0)
+    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x > x0)
 
 
 def ramp_pulse_sp(A, x0):
-- 
2.43.0


From 0b27e32b1f13bce22ef28d747d6b2441ef447540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 30/47] fix: port probes and S-parameter extraction on a line
 with node positions

---
 python/src/mtl.py               | 12 ++++++------
 python/src/networkExtraction.py |  4 ++--
 python/src/probes.py            |  5 +++--
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index a4e5aac..1f23498 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -521,19 +521,19 @@ class MTL():
 
     def add_port_probe(self, terminal):
         if terminal == 0:
-            x0 = self.z[0]
-            x1 = self.z[1]
+            x0 = self.u[0]
+            x1 = self.u[1]
             z0 = self.zs
         if terminal == 1:
-            x0 = self.z[-2]
-            x1 = self.z[-1]
+            x0 = self.u[-2]
+            x1 = self.u[-1]
             z0 = self.zl
 
         v0 = self.add_probe(position=x0,          probe_type='voltage')
         v1 = self.add_probe(position=x1,          probe_type='voltage')
-        i0 = self.add_probe(position=(x0+x1)/2.0, probe_type='current')
+        i0 = self.add_probe(position=x0,          probe_type='current')
 
-        port_probe = Port(v0, v1, i0, z0)
+        port_probe = Port(v0, v1, i0, z0, terminal)
         self.port_probes.append(port_probe)
 
         return port_probe
diff --git a/python/src/networkExtraction.py b/python/src/networkExtraction.py
index ae73d4b..cfe526f 100644
--- a/python/src/networkExtraction.py
+++ b/python/src/networkExtraction.py
@@ -32,10 +32,10 @@ def getSolvedProbesFromLine(line, p1, p2, magnitude, finalTime):
     line1 = line.create_clean_copy()
     if p1_term == "S":
         line1.add_voltage_source(
-            position=line1.x[0], conductor=p1_cond, magnitude=magnitude)
+            position=line1.u[0], conductor=p1_cond, magnitude=magnitude)
     else:
         line1.add_voltage_source(
-            position=line1.x[-1], conductor=p1_cond, magnitude=magnitude)
+            position=line1.u[-1], conductor=p1_cond, magnitude=magnitude)
     pS_probe, pL_probe = line1.add_port_probes()
     if p1_term == "S":
         p1_probe = pS_probe
diff --git a/python/src/probes.py b/python/src/probes.py
index 5a32943..2c89155 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -48,7 +48,8 @@ class Probe:
 
 
 class Port:
-    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0):
+    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0, terminal = 0):
+        self.terminal = terminal
         self.v0 = v0
         self.v1 = v1
         self.i0 = i0
@@ -67,7 +68,7 @@ class Port:
         return f, v_fft, i_fft
     
     def getTerminal(self):
-        if self.v0.position == 0.0:
+        if self.terminal == 0:
             return "S"  
         else:
             return "L"
-- 
2.43.0


From 68f1a5c038fa6bba781d846b891cac8a7239e35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:30 +0000
Subject: [PATCH 31/47] fix: a clean copy forgets the memory of its dispersive
 connectors

---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 1f23498..0b8c2e6 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -545,6 +545,7 @@ class MTL():
         r = deepcopy(self)
         r.v.fill(0.0)
         r.i.fill(0.0)
+        r.connectors.phi.fill(0.0)
         r.time = 0.0
         return r
 
-- 
2.43.0


From 715c1935c48c0037f3c8a27076b8f29898e0c319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:07 +0000
Subject: [PATCH 32/47] fix: a network node sees the conductance its bundle has
 at that end

---
 python/src/mtln.py     |  1 +
 python/src/networks.py | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 62cb879..580fc33 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -43,6 +43,7 @@ class MTLN:
     def compute_nw_v_terms(self):
         for nw in self.networks:
             nw.update_e_T(self.bundles)
+            nw.update_g(self.bundles)
             nw.compute_v_terms(self.dt)
 
     def update_probes(self):
diff --git a/python/src/networks.py b/python/src/networks.py
index eb3eba7..9d3d3bc 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -34,7 +34,7 @@ class Network:
 
         self.nw_v_prev = self.nw_v
 
-        self.P1 = -0.5*self.dx.dot(self.g)
+        self.P1 = np.zeros([self.number_of_nodes, self.number_of_nodes])
         self.Ps = np.zeros([self.number_of_nodes, 0])
 
         self.M = np.zeros([self.number_of_state_vars, self.number_of_state_vars])
@@ -222,7 +222,7 @@ class Network:
 
     def advance_voltage(self, dt):
         try:
-            self.Is = self.O.dot(self.X.reshape(self.number_of_state_vars,1)) + self.P1.dot(self.nw_v.reshape(self.number_of_nodes,1)) + self.Ps.dot(self.v_sources_prev[:,np.newaxis]) +\
+            self.Is = self.O.dot(self.X.reshape(self.number_of_state_vars,1)) + (self.P1 - 0.5*self.dx.dot(self.g)).dot(self.nw_v.reshape(self.number_of_nodes,1)) + self.Ps.dot(self.v_sources_prev[:,np.newaxis]) +\
                     self.Q1.dot(self.nw_v.reshape(self.number_of_nodes,1) - self.nw_v_prev.reshape(self.number_of_nodes,1))/dt +\
                     self.Qs.dot(self.v_sources_prev[:,np.newaxis] - self.v_sources_prev2[:,np.newaxis])/dt
         except:
@@ -257,13 +257,20 @@ class Network:
         for node in self.connections.values():
             self.e_T[node["index"]] = lines[node["bundle_name"]].e_T[node["line_index"],node["side"]]
 
+    def update_g(self, lines):
+        for n1 in self.connections.values():
+            for n2 in self.connections.values():
+                if n1["bundle_name"] == n2["bundle_name"] and n1["side"] == n2["side"]:
+                    g = lines[n1["bundle_name"]].g[n1["side"]]
+                    self.g[n1["index"], n2["index"]] = g[n1["line_index"], n2["line_index"]]
+
     def update_currents(self, lines):
         for node in self.connections.values():
             self.nw_i[node["index"]] =  self.i_factor(node)*lines[node["bundle_name"]].i[node["line_index"],node["side"]]
 
     def compute_v_terms(self, dt):
         self.A = np.block([
-            [self.dx.dot(self.c) / dt - self.P1 - self.Q1 / dt     ,  -self.O                            ],
+            [self.dx.dot(self.c) / dt + 0.5*self.dx.dot(self.g) - self.P1 - self.Q1 / dt     ,  -self.O                            ],
             [-dt * self.N1                                         ,  np.eye(self.M.shape[0]) - dt*self.M]
         ])
         self.B1 = np.block([
@@ -310,6 +317,10 @@ class NetworkD:
         for nw in self.levels.values():
             nw.update_e_T(bundles)
 
+    def update_g(self, bundles):
+        for nw in self.levels.values():
+            nw.update_g(bundles)
+
     def update_currents(self, bundles):
         for nw in self.levels.values():
             nw.update_currents(bundles)
-- 
2.43.0


From f3d53238d147bc7144b24cee198d04e5e4333939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 33/47] fix: symbolic ramps shift with position and start from
 zero

---
 python/src/waveforms.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 9d2e284..6990431 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -72,23 +72,22 @@ def ramp_pulse(x, A, x0):
 
 def ramp_pulse_sp(A, x0):
     t = sp.symbols('t')
-    f1 = sp.Piecewise((A*(t/x0), (t <= x0)), (A, (t >= x0)))
-    return f1
+    return _ramp_sp(A, x0, t)
 
 def ramp_pulse_x_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
-    return f1
+    x, t = sp.symbols('x t')
+    return _ramp_sp(A, x0, t + x/v)
 
 def ramp_pulse_y_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
-    return f1
+    y, t = sp.symbols('y t')
+    return _ramp_sp(A, x0, t + y/v)
 
 def ramp_pulse_z_sp(A, x0, v):
-    x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
-    return f1
+    z, t = sp.symbols('z t')
+    return _ramp_sp(A, x0, t + z/v)
+
+def _ramp_sp(A, x0, time):
+    return sp.Piecewise((0, time < 0), (A*time/x0, time <= x0), (A, True))
 
 
 def double_exp(t, C, a, b):
-- 
2.43.0


From 918c2a837bc873515a438a97c2c6ee89ba87e97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 34/47] fix: a terminal of zero resistance is a short, in
 series with its source

---
 python/src/jsonParser.py |  6 ++++--
 python/src/networks.py   | 11 +++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 8117af2..54ac267 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -491,7 +491,9 @@ class Parser:
                             C = connector["capacitanceVector"][conductor] if "capacitanceVector" in connector.keys() else 1e22
 
                         if (connectorType == "Conn_short"):
-                            network.short_to_ground(node)
+                            network.short_to_ground(node, source)
+                        elif ((connectorType == "Conn_sRLC" or connectorType == "Conn_R") and R == 0):
+                            network.short_to_ground(node, source)
                         elif (connectorType == "Conn_sRLC" or connectorType == "Conn_R"):
                             network.connect_to_ground_R(node, R, source)
                         elif (connectorType == "Conn_C"):
@@ -624,7 +626,7 @@ class Parser:
                             R1 += conn1["resistanceVector"][cond1]
                     
                     if (R1+R0 == 0.0):
-                        network.short_nodes(n0, n1)
+                        network.short_nodes(n0, n1, Vt = add(s0,s1))
                     else:
                         network.connect_nodes(n0, n1, R0 + R1, Vt = add(s0,s1))
                 
diff --git a/python/src/networks.py b/python/src/networks.py
index 9d3d3bc..44613d0 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -184,10 +184,13 @@ class Network:
             source = self._add_source(Vt)
             self.Qs[index, source] = C
 
-    def short_to_ground(self, node: int):
+    def short_to_ground(self, node: int, Vt = 0):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         self.P1[index, index] += -1e10
+        if (Vt != 0):
+            source = self._add_source(Vt)
+            self.Ps[index, source] = 1e10
             
     def connect_nodes(self, node1: int, node2: int, R, Vt = 0):
         assert(node1 in self.connections.keys() and node2 in self.connections.keys())
@@ -204,13 +207,17 @@ class Network:
                 self.Ps[index1, source] =  1/R 
                 self.Ps[index2, source] = -1/R
       
-    def short_nodes(self, node1: int, node2: int):
+    def short_nodes(self, node1: int, node2: int, Vt = 0):
         index1 = self.connections[node1]["index"]
         index2 = self.connections[node2]["index"]
         self.P1[index1, index1] +=  -1e10
         self.P1[index1, index2] +=   1e10
         self.P1[index2, index1] +=   1e10
         self.P1[index2, index2] +=  -1e10
+        if (Vt != 0):
+            source = self._add_source(Vt)
+            self.Ps[index1, source] =  1e10
+            self.Ps[index2, source] = -1e10
       
     def update_sources(self, time, dt):
         self.v_sources_now = np.vectorize(FunctionType.__call__, otypes=["float64"])(self.v_sources, time)
-- 
2.43.0


From cf0055c5fe331676015547599a8ae338487a7627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:37 +0000
Subject: [PATCH 35/47] fix: all the sources of a terminal act

---
 python/src/jsonParser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 54ac267..0a43d62 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -558,12 +558,12 @@ class Parser:
         return magnitude
 
     def _getTerminalSourceInNode(self, node):
+        magnitude = 0
         for source in [s for s in self._sources if s["sourceType"] == "TerminalSource"]:
             for n in self._nodes:
                 if int(n.split()[0]) == source["elemIds"][0] and int(n.split()[-1]) == node:
-                    return self._buildSource(source)
-        # return lambda t : 0
-        return 0
+                    magnitude = add(magnitude, self._buildSource(source))
+        return magnitude
 
     def _getNetworkJunctionList(self):
         coordToNetwork = {}
-- 
2.43.0


From dde1ea69c99a4f8356ed16e884852a9bc7aefbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 36/47] fix: reject a connector of unknown type

---
 python/src/jsonParser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 0a43d62..a36d414 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -500,6 +500,8 @@ class Parser:
                             network.connect_to_ground_C(node, C, source)
                         elif (connectorType == "Conn_LCpRs"):
                             network.connect_to_ground_LCpRs(node, R, L, C, source)
+                        else:
+                            raise Exception("Unknown connector type " + str(connectorType))
 
                 networkd[bundle_level] = network
             terminations.append(nw.NetworkD(networkd))
-- 
2.43.0


From db795a4e85cbd0bc64785cabfe00aa84fb033fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:46 +0000
Subject: [PATCH 37/47] fix: reject a transfer impedance of unknown direction

---
 python/src/dispersive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index ccdb1ab..b0b0334 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -185,6 +185,7 @@ class TransferImpedance(Dispersive):
         transfer_impedance
     ):
         assert(np.abs(out_level - in_level) == 1)
+        assert(transfer_impedance["direction"] in ("in", "out", "both"))
         
         factor = 1
         if "factor" in transfer_impedance.keys():
@@ -241,6 +242,7 @@ class TransferImpedance(Dispersive):
         transfer_impedance
     ):
         assert(np.abs(out_level - in_level) == 1)
+        assert(transfer_impedance["direction"] in ("in", "out", "both"))
         
         factor = 1
         if "factor" in transfer_impedance.keys():
-- 
2.43.0


From a4e82045137777718bcfad708fc41ac56db10e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:17 +0000
Subject: [PATCH 38/47] fix: the numeric double exponential takes arrays

---
 python/src/waveforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 6990431..a49256f 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -91,7 +91,7 @@ def _ramp_sp(A, x0, time):
 
 
 def double_exp(t, C, a, b):
-    return C*(sp.exp(-a*t)-sp.exp(-b*t))
+    return C*(np.exp(-a*t)-np.exp(-b*t))
 
 def double_exp_sp(C, a, b):
     x, z, t = sp.symbols('x z t')
-- 
2.43.0


From bf097b4dd857c3455282bef0a9f13a24ade7290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:56 +0000
Subject: [PATCH 39/47] fix: reject a connector of unknown type at a junction

---
 python/src/jsonParser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index a36d414..d26050e 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -615,6 +615,12 @@ class Parser:
                     cond0, cond1 = conn["conductors"]
                     s0, s1 = conn["sources"]
                     R0, R1 = 0.0, 0.0
+                    for connector, conductor in [(conn0, cond0), (conn1, cond1)]:
+                        connectorType = connector["connectorType"]
+                        if (connectorType == "MultiwireConnector"):
+                            connectorType = connector["connections"][conductor]
+                        if connectorType not in ("Conn_short", "Conn_R", "Conn_sRLC", "Conn_C", "Conn_LCpRs"):
+                            raise Exception("Unknown connector type " + str(connectorType))
                     if (conn0["connectorType"] == "Conn_sRLC" or conn0["connectorType"] == "Conn_R"):
                         R0 += conn0["resistance"]
                     elif conn0["connectorType"] == "MultiwireConnector":
-- 
2.43.0


From a6b108ed60f3bc843b6afa97eecf113cf7a517c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:31 +0000
Subject: [PATCH 40/47] fix: reject sources of unknown kind and terminal
 sources at unknown nodes

---
 python/src/jsonParser.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index d26050e..3dacc6a 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -357,6 +357,12 @@ class Parser:
         
 
     def _addSources(self):
+        for source in self._sources:
+            if source["sourceType"] == "TerminalSource":
+                self._getNodeCoordId(source["elemIds"][0])
+            elif source["sourceType"] != "DistributedSource":
+                raise Exception("Unknown source type " + str(source["sourceType"]))
+
         for source in [s for s in self._sources if s["sourceType"] == "DistributedSource"]:
             magnitude = self._buildSource(source)
             
@@ -378,6 +384,8 @@ class Parser:
                                                         conductor = conductor,
                                                         magnitude = magnitude,
                                                         source_type = source["type"])
+            else:
+                raise Exception("Unknown distributed source type " + str(source["type"]))
     
     def _getCableFromLineName(self, name):
         for cable in self._cables:
@@ -686,7 +694,7 @@ class Parser:
             if int(node.split()[0]) == elemId:
                 return int(node.split()[-1])
         
-        raise Exception("No node with elemId "+ elemId)
+        raise Exception("No node with elemId "+ str(elemId))
         
     def _getLineElemIdFromCoordId(self, coordId):
         for line in self._lines:
-- 
2.43.0


From d8ccc89b63e7d3f23befebae13a8db1da65aef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 41/47] fix: reject a lumped element on an unknown cable

---
 python/src/jsonParser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 3dacc6a..65a3204 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -319,6 +319,9 @@ class Parser:
         self._name_to_mtl = {}
         self._name_to_bundle = {}
 
+        for lumped in self._lumped:
+            self._getCableFromLineName(lumped["cable"])
+
         for bundle_description in self._bundles:
             bundle_levels = {}
             mtls_in_bundle = []
@@ -392,7 +395,7 @@ class Parser:
             if cable["name"] == name:
                 return cable
             
-        raise Exception("No cable with name "+name)
+        raise Exception("No cable with name "+str(name))
 
     def _getWireWithMaterialId(self, mat_id):
         for w in self._wires:
-- 
2.43.0


From ed76effe00f5c662339b2587756b415db2296a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 42/47] fix: reject stretches without divisions

---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 0b8c2e6..b3ea227 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -116,6 +116,7 @@ class MTL():
 
 
         assert (node_positions.shape[0] == len(ndiv) + 1)
+        assert (np.all(np.array(ndiv) > 0))
         
         first = 0
         for i, divisions in enumerate(ndiv):
-- 
2.43.0


From e892990a4c6397f769e72504f338729f1e3da17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 43/47] fix: a network on an unknown bundle does not join the
 model it was rejected from

---
 python/src/mtln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 580fc33..182b803 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -30,8 +30,8 @@ class MTLN:
             self.dt = bundle.dt
         
     def add_network(self, nw):
-        self.networks.append(nw)
         nw.update_index_numbers(self.bundles)
+        self.networks.append(nw)
 
     def add_networks(self, nw: list):
         for n in nw:
-- 
2.43.0


From af3aebff74aba7b8ecf59f4634e968171bc07b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:16 +0000
Subject: [PATCH 44/47] fix: a coupling given after a run where conductors are
 already coupled

---
 python/src/dispersive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index b0b0334..d08dfec 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -81,11 +81,14 @@ class Dispersive():
         for kz in np.atleast_1d(np.arange(self.nx)[index]):
             self.poles[kz, i, j] = poles
             self.residues[kz, i, j] = residues
+            self.phi[kz, i, j] = np.zeros_like(poles)
 
     def add_poles(self, index, i, j, poles, residues):
         for kz in np.atleast_1d(np.arange(self.nx)[index]):
             if np.ndim(self.poles[kz, i, j]) != 0:
+                phi = np.append(self.phi[kz, i, j] + np.zeros_like(self.poles[kz, i, j]), np.zeros_like(poles))
                 self.set_poles(kz, i, j, np.append(self.poles[kz, i, j], poles), np.append(self.residues[kz, i, j], residues))
+                self.phi[kz, i, j] = phi
             else:
                 self.set_poles(kz, i, j, poles, residues)
 
-- 
2.43.0


From 2c2f254a80fa8ff5452f937967079ffd3223b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:35 +0000
Subject: [PATCH 45/47] fix: cells without dispersive terms do not pay for the
 memory of each pair

Keeping a memory per pair of conductors (2395330) made every step of every
line several times slower, also where there is nothing dispersive.
---
 python/src/dispersive.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index d08dfec..b290978 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -76,6 +76,7 @@ class Dispersive():
     
         self.poles = np.zeros_like(self.q1)
         self.residues = np.zeros_like(self.q1)
+        self.dispersive_cells = []
 
     def set_poles(self, index, i, j, poles, residues):
         for kz in np.atleast_1d(np.arange(self.nx)[index]):
@@ -110,16 +111,21 @@ class Dispersive():
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
+        self.q3_phi_term[:] = 0.0
+        self.dispersive_cells = [
+            kz for kz in range(0, self.nx)
+            if any(np.ndim(poles) != 0 for poles in self.poles[kz].flat)
+        ]
 
     def v_sum(self,arr:np.ndarray):
         return np.vectorize(np.sum, otypes=[float])(arr)
 
     def update_q3_phi_term(self):
-        for kz in range(0, self.nx):
+        for kz in self.dispersive_cells:
             self.q3_phi_term[kz] = self.v_sum(self.q3[kz]*self.phi[kz]).sum(axis=1)
         
     def update_phi(self, i_prev, i_now):
-        for kz in range(0, self.nx):
+        for kz in self.dispersive_cells:
             self.phi[kz] = (
                 self.q1[kz]*i_now[:, kz]+\
                 self.q2[kz]*i_prev[:, kz]+\
-- 
2.43.0


From c6c17e4ddb7d6683bf844de083e1c60548fad3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 46/47] fix: the S-parameter extraction that works again ends
 within the tests' time limit

Since 0b27e32 two tests run the whole extraction; rebuilding a vectorised
function six times a step took them to the 300 s limit.  The values are the same.
---
 python/src/mtl.py   | 14 +++++++-------
 python/src/utils.py |  3 +++
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index b3ea227..f93d137 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -19,7 +19,7 @@ from typing import Dict
 from .probes import *
 from .dispersive import TransferImpedance, DispersiveConnector
 from .dispersive import Dispersive
-from .utils import add_t_functions as add, multiply
+from .utils import add_t_functions as add, multiply, evaluate
 from .utils import point_in_polyline, length_to_point
 
 class Field:
@@ -314,23 +314,23 @@ class MTL():
 
     @dispatch()
     def update_sources(self):
-        self.v_sources_now = np.vectorize(FunctionType.__call__, otypes=["float64"])(
+        self.v_sources_now = evaluate(
             self.v_sources, self.time
         )
-        self.v_sources_prev = np.vectorize(FunctionType.__call__, otypes=["float64"])(
+        self.v_sources_prev = evaluate(
             self.v_sources, self.time - self.dt
         )
 
-        self.e_L_now = np.vectorize(FunctionType.__call__, otypes=["float64"])(
+        self.e_L_now = evaluate(
             self.e_L, self.time + self.dt / 2
         )
-        self.e_L_prev = np.vectorize(FunctionType.__call__, otypes=["float64"])(
+        self.e_L_prev = evaluate(
             self.e_L, self.time - self.dt / 2
         )
-        self.e_T_now = np.vectorize(FunctionType.__call__, otypes=["float64"])(
+        self.e_T_now = evaluate(
             self.e_T, self.time
         )
-        self.e_T_prev = np.vectorize(FunctionType.__call__, otypes=["float64"])(
+        self.e_T_prev = evaluate(
             self.e_T, self.time - self.dt
         )
 
diff --git a/python/src/utils.py b/python/src/utils.py
index 114222a..00ad063 100644
--- a/python/src/utils.py
+++ b/python/src/utils.py
@@ -28,6 +28,9 @@ def multiply(f, k):
         assert('t' in f.__code__.co_varnames)
         return lambda t : k*f(t)
 
+def evaluate(functions, t):
+        return np.fromiter((f(t) for f in functions.flat), float, functions.size).reshape(functions.shape)
+
 def point_in_line(point, start, end):
         
         v1 = start-end
-- 
2.43.0


From 7f77832028710760349b098a55b4531631589198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:04 +0000
Subject: [PATCH 47/47] fix: conductors of a bundle follow its levels, in
 whatever order the levels are given

---
 python/src/mtl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index f93d137..088d35c 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -623,7 +623,7 @@ class MTLD:
 
         self.dt = 1e10
         self.time = 0.0
-        self.levels = levels
+        self.levels = dict(sorted(levels.items()))
 
         self.number_of_conductors = 0
         self.probes : list[Probe] = []
@@ -643,7 +643,7 @@ class MTLD:
         R = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         G = (self.ndiv)*[np.ndarray(shape=(0, 0))]
 
-        for _, mtls in levels.items():
+        for _, mtls in self.levels.items():
             conductors = 0
             for line in mtls:
                 assert(type(line) == MTL)
-- 
2.43.0

