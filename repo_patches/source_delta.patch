From f3a8e7e7ddc48c2ac90839ca03cfc6c7aa3d2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 01/39] fix: report the number of layers as the depth of a
 causal flow

---
 mentpy/mbqc/flow.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index a54dd99..97f80d8 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -144,7 +144,12 @@ def find_cflow(graph: GraphState, input_nodes, output_nodes) -> object:
     if len(flow) != len(graph.nodes()) - len(output_nodes):
         return None, None, None, None
 
-    return lambda x: flow[x], lambda u, v: ln[u] > ln[v], max(flow.values()), ln
+    return (
+        lambda x: flow[x],
+        lambda u, v: ln[u] > ln[v],
+        max(ln.values(), default=0),
+        ln,
+    )
 
 
 def causal_flow_aux(graph: GraphState, inputs, outputs, C, past, k, g, l) -> object:
-- 
2.43.0


From 21c58df2fd19bcaf6715c219a35ca8cbf9be0d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 02/39] fix: keep input nodes at their place in the measurement
 order

Moving the inputs to the front contradicts the partial order whenever an input
depends on another node. The numpy simulators, which need the inputs first,
now build their own schedule.
---
 mentpy/mbqc/flow.py                  |  3 ---
 mentpy/mbqc/mbqcircuit.py            |  4 ----
 mentpy/simulators/np_simulator_dm.py | 11 +++++++----
 mentpy/simulators/np_simulator_sv.py | 11 +++++++----
 4 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index 97f80d8..e18b9fb 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -76,9 +76,6 @@ class Flow:
 
             # This can be optimized!!
             order = [item for sublist in self.layers for item in sublist]
-            for i in self.input_nodes[::-1]:
-                order.remove(i)
-                order.insert(0, i)
             self.measurement_order = order
         else:
             self.layers = None
diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 389e841..cc1b6cb 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -415,10 +415,6 @@ class MBQCircuit:
 
         order = [item for sublist in sorted_labels for item in sublist]
 
-        for i in self.input_nodes[::-1]:
-            order.remove(i)
-            order.insert(0, i)
-
         return order
 
     def add_edge(self, u, v):
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index b01aae1..a973a34 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -50,13 +50,16 @@ class NumpySimulatorDM(BaseSimulator):
                 i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
-            # remove output nodes from the measurement order
-            self.schedule_measure = [
+            # the input qubits are the first ones to be loaded
+            self.schedule = list(mbqcircuit.input_nodes) + [
                 i
                 for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.quantum_output_nodes
+                if i not in mbqcircuit.input_nodes
+            ]
+            # remove output nodes from the measurement order
+            self.schedule_measure = [
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
-            self.schedule = mbqcircuit.measurement_order
             if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index e7491f8..2a2453c 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -64,13 +64,16 @@ class NumpySimulatorSV(BaseSimulator):
                 i for i in self.schedule if i not in mbqcircuit.output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
-            # remove output nodes from the measurement order
-            self.schedule_measure = [
+            # the input qubits are the first ones to be loaded
+            self.schedule = list(mbqcircuit.input_nodes) + [
                 i
                 for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.output_nodes
+                if i not in mbqcircuit.input_nodes
+            ]
+            # remove output nodes from the measurement order
+            self.schedule_measure = [
+                i for i in self.schedule if i not in mbqcircuit.output_nodes
             ]
-            self.schedule = mbqcircuit.measurement_order
             if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = len(mbqcircuit.input_nodes) + 1
         else:
-- 
2.43.0


From 3e41ddff1f1f7ce7f96221be24311e073a7c7935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:29 +0000
Subject: [PATCH 03/39] fix: accept exactly the measurement orders that respect
 the partial order

---
 mentpy/mbqc/mbqcircuit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index cc1b6cb..c19a393 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -296,6 +296,10 @@ class MBQCircuit:
     @measurement_order.setter
     def measurement_order(self, measurement_order: List[int]) -> None:
         r"""Set the measurement order of the MBQC circuit."""
+        if len(measurement_order) != len(self.graph) or set(measurement_order) != set(
+            self.graph.nodes
+        ):
+            raise ValueError(f"{measurement_order} must list every node exactly once.")
         if not _check_measurement_order(measurement_order, self.partial_order):
             raise ValueError(f"Invalid measurement order {measurement_order}.")
         self._measurement_order = measurement_order
@@ -447,7 +451,7 @@ def _check_measurement_order(measurement_order: List, partial_order: Callable):
     r"""Checks that the measurement order is valid"""
     for i in range(len(measurement_order)):
         for j in range(i + 1, len(measurement_order)):
-            if partial_order(measurement_order[i], measurement_order[j]):
+            if partial_order(measurement_order[j], measurement_order[i]):
                 return False
     return True
 
-- 
2.43.0


From c4d125316098e9d1352d4bc5ea06b54946986558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 04/39] fix: numpy simulators apply every edge before measuring
 its nodes

Track the simulated qubits by name and never use a window that measures a
node before all its neighbours are loaded.
---
 mentpy/simulators/base_simulator.py  | 18 +++++++++
 mentpy/simulators/np_simulator_dm.py | 57 ++++++++++++++--------------
 mentpy/simulators/np_simulator_sv.py | 57 ++++++++++++++--------------
 3 files changed, 74 insertions(+), 58 deletions(-)

diff --git a/mentpy/simulators/base_simulator.py b/mentpy/simulators/base_simulator.py
index de9eb08..ccae460 100644
--- a/mentpy/simulators/base_simulator.py
+++ b/mentpy/simulators/base_simulator.py
@@ -67,6 +67,24 @@ class BaseSimulator(abc.ABC):
         """Sets the outcomes of the simulation."""
         self._outcomes = outcomes
 
+    def _required_window_size(self) -> int:
+        """Returns the smallest window in which every node is measured only once
+        all its neighbours have been loaded."""
+        position = {node: i for i, node in enumerate(self.schedule)}
+        if len(self.schedule) != len(self.mbqcircuit) or set(position) != set(
+            self.mbqcircuit.graph.nodes
+        ):
+            raise ValueError("The schedule must contain every node exactly once.")
+
+        required = max(
+            len(self.mbqcircuit.input_nodes),
+            len(self.schedule) - len(self.schedule_measure),
+        )
+        for k, node in enumerate(self.schedule_measure):
+            for needed in [node, *self.mbqcircuit.graph.neighbors(node)]:
+                required = max(required, position[needed] + 1 - k)
+        return required
+
     def __call__(self, angles: List[float], **kwargs):
         return self.run(angles, **kwargs)
 
diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index a973a34..d138c11 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -58,15 +58,23 @@ class NumpySimulatorDM(BaseSimulator):
             ]
             # remove output nodes from the measurement order
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
+                i
+                for i in mbqcircuit.measurement_order
+                if i not in mbqcircuit.quantum_output_nodes
             ]
             if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
+                self.window_size = min(
+                    len(mbqcircuit.input_nodes) + 1, len(self.schedule)
+                )
         else:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
 
+        if not self.dev_mode:
+            # a smaller window would measure nodes before all their edges exist
+            self.window_size = max(self.window_size, self._required_window_size())
+
         input_state = self.reorder_qubits(
             input_state,
             self.mbqcircuit.input_nodes,
@@ -82,9 +90,9 @@ class NumpySimulatorDM(BaseSimulator):
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
             )
 
         self.current_measurement = 0
@@ -100,8 +108,7 @@ class NumpySimulatorDM(BaseSimulator):
 
         self.initial_czs = np.eye(2**self.window_size)
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
         # apply cz gates to neighboring qubits
         for node in self.subgraph.nodes:
@@ -119,12 +126,7 @@ class NumpySimulatorDM(BaseSimulator):
 
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
-        if not self.dev_mode:
-            return self.schedule[
-                self.current_measurement : self.current_measurement + self.window_size
-            ]
-        elif self.dev_mode:
-            return self._current_simulated_nodes
+        return self._current_simulated_nodes
 
     def current_number_simulated_nodes(self) -> int:
         """Returns the number of nodes that are currently simulated."""
@@ -156,10 +158,9 @@ class NumpySimulatorDM(BaseSimulator):
             raise ValueError("No more measurements to be done.")
 
         if not self.dev_mode:
-            current_ment = self.mbqcircuit[
-                self.schedule_measure[self.current_measurement]
-            ].copy()
-            indx = 0
+            node = self.schedule_measure[self.current_measurement]
+            current_ment = self.mbqcircuit[node].copy()
+            indx = self.current_simulated_nodes().index(node)
         elif self.dev_mode:
             # if in dev mode, we measure the first node in the current_simulated_nodes
             # only if a neighbor in the same wire is also in the current_simulated_nodes
@@ -187,17 +188,16 @@ class NumpySimulatorDM(BaseSimulator):
 
         self.qstate = calc.partial_trace(self.qstate, [indx])
 
-        if self.dev_mode:
-            # remove qubit at indx from current_simulated_nodes
-            self._current_simulated_nodes = [
-                i for i in self._current_simulated_nodes if i != node
-            ]
-            if self.current_measurement + self.window_size <= len(
-                self.mbqcircuit.graph.nodes
-            ):
-                self._current_simulated_nodes.append(
-                    self.schedule[self.current_measurement + self.window_size - 1]
-                )
+        # remove qubit at indx from current_simulated_nodes
+        self._current_simulated_nodes = [
+            i for i in self._current_simulated_nodes if i != node
+        ]
+        if self.current_measurement + self.window_size <= len(
+            self.mbqcircuit.graph.nodes
+        ):
+            self._current_simulated_nodes.append(
+                self.schedule[self.current_measurement + self.window_size - 1]
+            )
 
         if self.current_measurement + self.window_size <= len(
             self.mbqcircuit.graph.nodes
@@ -304,8 +304,7 @@ class NumpySimulatorDM(BaseSimulator):
         self.qstate = self.initial_czs @ self.qstate @ np.conj(self.initial_czs).T
         self.outcomes = {}
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
     def measure_ment(self, ment: Ment, angle, i, force0=False, mode="sample"):
         """
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 2a2453c..fe60517 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -72,15 +72,23 @@ class NumpySimulatorSV(BaseSimulator):
             ]
             # remove output nodes from the measurement order
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.output_nodes
+                i
+                for i in mbqcircuit.measurement_order
+                if i not in mbqcircuit.output_nodes
             ]
             if self.window_size == 1 and mbqcircuit.flow is not None:
-                self.window_size = len(mbqcircuit.input_nodes) + 1
+                self.window_size = min(
+                    len(mbqcircuit.input_nodes) + 1, len(self.schedule)
+                )
         else:
             raise ValueError(
                 "Schedule must be provided for numpy simulator as the MBQCircuit does not have a flow."
             )
 
+        if not self.dev_mode:
+            # a smaller window would measure nodes before all their edges exist
+            self.window_size = max(self.window_size, self._required_window_size())
+
         input_state = self.reorder_qubits(
             input_state,
             self.mbqcircuit.input_nodes,
@@ -96,9 +104,9 @@ class NumpySimulatorSV(BaseSimulator):
                 " Input state must have at most as many qubits as the window size minus one."
             )
 
-        if self.window_size > len(self.schedule_measure):
+        if self.window_size > len(self.schedule):
             raise ValueError(
-                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule_measure)} measurements."
+                f"Window size is set to {self.window_size}, but schedule only has {len(self.schedule)} nodes."
             )
 
         self.current_measurement = 0
@@ -114,8 +122,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.initial_czs = np.eye(2**self.window_size)
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
         # apply cz gates to neighboring qubits
         for node in self.subgraph.nodes:
@@ -132,12 +139,7 @@ class NumpySimulatorSV(BaseSimulator):
 
     def current_simulated_nodes(self) -> List[int]:
         """Returns the nodes that are currently simulated."""
-        if not self.dev_mode:
-            return self.schedule[
-                self.current_measurement : self.current_measurement + self.window_size
-            ]
-        elif self.dev_mode:
-            return self._current_simulated_nodes
+        return self._current_simulated_nodes
 
     def current_number_simulated_nodes(self) -> int:
         """Returns the number of nodes that are currently simulated."""
@@ -169,10 +171,9 @@ class NumpySimulatorSV(BaseSimulator):
             raise ValueError("No more measurements to be done.")
 
         if not self.dev_mode:
-            current_ment = self.mbqcircuit[
-                self.schedule_measure[self.current_measurement]
-            ].copy()
-            indx = 0
+            node = self.schedule_measure[self.current_measurement]
+            current_ment = self.mbqcircuit[node].copy()
+            indx = self.current_simulated_nodes().index(node)
         elif self.dev_mode:
             # if in dev mode, we measure the first node in the current_simulated_nodes
             # only if a neighbor in the same wire is also in the current_simulated_nodes
@@ -195,17 +196,16 @@ class NumpySimulatorSV(BaseSimulator):
         self.current_measurement += 1
         self.qstate = calc.partial_trace(self.qstate, [indx])
 
-        if self.dev_mode:
-            # remove qubit at indx from current_simulated_nodes
-            self._current_simulated_nodes = [
-                i for i in self._current_simulated_nodes if i != node
-            ]
-            if self.current_measurement + self.window_size <= len(
-                self.mbqcircuit.graph.nodes
-            ):
-                self._current_simulated_nodes.append(
-                    self.schedule[self.current_measurement + self.window_size - 1]
-                )
+        # remove qubit at indx from current_simulated_nodes
+        self._current_simulated_nodes = [
+            i for i in self._current_simulated_nodes if i != node
+        ]
+        if self.current_measurement + self.window_size <= len(
+            self.mbqcircuit.graph.nodes
+        ):
+            self._current_simulated_nodes.append(
+                self.schedule[self.current_measurement + self.window_size - 1]
+            )
 
         if self.current_measurement + self.window_size <= len(
             self.mbqcircuit.graph.nodes
@@ -319,8 +319,7 @@ class NumpySimulatorSV(BaseSimulator):
 
         self.outcomes = {}
 
-        if self.dev_mode:
-            self._current_simulated_nodes = self.schedule[0 : self.window_size]
+        self._current_simulated_nodes = self.schedule[0 : self.window_size]
 
     def measure_ment(self, ment: Ment, angle, i, force0=False):
         """
-- 
2.43.0


From c231b3462fea0f7b2f9855b91860137c9b0c571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 05/39] fix: state-vector simulator measures output nodes by
 position and angle of their own

---
 mentpy/simulators/np_simulator_sv.py | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index fe60517..8dc1d37 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -61,7 +61,7 @@ class NumpySimulatorSV(BaseSimulator):
         # TODO: FIND SCHEDULE IF NOT PROVIDED
         if self.schedule is not None:
             self.schedule_measure = [
-                i for i in self.schedule if i not in mbqcircuit.output_nodes
+                i for i in self.schedule if i not in mbqcircuit.quantum_output_nodes
             ]
         elif mbqcircuit.measurement_order is not None:
             # the input qubits are the first ones to be loaded
@@ -74,7 +74,7 @@ class NumpySimulatorSV(BaseSimulator):
             self.schedule_measure = [
                 i
                 for i in mbqcircuit.measurement_order
-                if i not in mbqcircuit.output_nodes
+                if i not in mbqcircuit.quantum_output_nodes
             ]
             if self.window_size == 1 and mbqcircuit.flow is not None:
                 self.window_size = min(
@@ -278,18 +278,10 @@ class NumpySimulatorSV(BaseSimulator):
                 self.qstate, outcome = self.measure(angle)
                 self.outcomes[node] = outcome
 
-        # check if output nodes have a measurement, if so, measure them
-        for i in self.mbqcircuit.output_nodes:
-            if isinstance(self.mbqcircuit[i], Ment):
-                self.qstate, outcome = self.measure_ment(
-                    self.mbqcircuit[i], self.mbqcircuit[i].angle, i, force0=self.force0
-                )
-                self.outcomes[i] = outcome
-
         current_output_order = self.current_simulated_nodes()
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
             self.qstate = self.reorder_qubits(
-                self.qstate, current_output_order, self.mbqcircuit.output_nodes
+                self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
-- 
2.43.0


From 826bb67c09cd4dbd5fa541e9805c90ef9302e923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 06/39] fix: insert relabelled nodes in sorted order

Code that identifies a node with its position (stacking, merging, Lie
algebras) failed for graphs built in another order.
---
 mentpy/mbqc/mbqcircuit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index c19a393..88376ba 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -72,7 +72,10 @@ class MBQCircuit:
             N = graph.number_of_nodes()
             mapping = dict(zip(sorted(graph.nodes), range(N)))
             inv_mapping = dict(zip(range(N), sorted(graph.nodes)))
-            graph = nx.relabel_nodes(graph, mapping)
+            relabelled = graph.__class__()
+            relabelled.add_nodes_from(range(N))  # keeps the nodes sorted
+            relabelled.update(nx.relabel_nodes(graph, mapping))
+            graph = relabelled
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
-- 
2.43.0


From 2dde64ebdf81a9bd2b4729bab1569fef605d82d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:10 +0000
Subject: [PATCH 07/39] fix: endless recursion with relabelled custom flows and
 in attribute lookup

---
 mentpy/mbqc/mbqcircuit.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 88376ba..602daa6 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -79,9 +79,11 @@ class MBQCircuit:
             input_nodes = [mapping[i] for i in input_nodes]
             output_nodes = [mapping[i] for i in output_nodes]
             if flow is not None:
-                flow = lambda x: mapping[flow(inv_mapping[x])]
+                old_flow = flow
+                flow = lambda x: mapping[old_flow(inv_mapping[x])]
             if partial_order is not None:
-                partial_order = lambda x, y: partial_order(
+                old_partial_order = partial_order
+                partial_order = lambda x, y: old_partial_order(
                     inv_mapping[x], inv_mapping[y]
                 )
             if measurement_order is not None:
@@ -171,6 +173,9 @@ class MBQCircuit:
     # if an attribute is not found, look for it in the graph
     def __getattr__(self, name):
         # try getting the attribute in graph, if not there, look in gflow
+        if name in ("_graph", "gflow"):
+            # not initialized (yet), e.g. while copying or unpickling
+            raise AttributeError(f"Attribute {name} not found in MBQCircuit.")
         try:
             return getattr(self.graph, name)
         except AttributeError:
-- 
2.43.0


From c10e8975eb06f4a6061571f5440b39c4970dee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:30 +0000
Subject: [PATCH 08/39] fix: adding edges keeps the measurements of the circuit

---
 mentpy/mbqc/mbqcircuit.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 602daa6..aa6e8a9 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -92,6 +92,7 @@ class MBQCircuit:
                 measurements = {mapping[k]: v for k, v in measurements.items()}
 
         self._graph = graph
+        self._relabel_indices = relabel_indices
 
         # check input and output nodes are in graph. If not, raise error with the node(s) that are not in the graph
         if not all([v in self.graph.nodes for v in input_nodes]):
@@ -429,14 +430,26 @@ class MBQCircuit:
 
         return order
 
+    def _reset_with_graph(self, graph):
+        r"""Rebuilds the circuit on a new graph, keeping all its measurements"""
+        new = MBQCircuit(
+            graph,
+            self.input_nodes,
+            self.output_nodes,
+            measurements=dict(self.measurements),
+            default_measurement=self._default_measurement,
+            relabel_indices=self._relabel_indices,
+        )
+        self.__dict__ = new.__dict__
+
     def add_edge(self, u, v):
         r"""Adds an edge between nodes u and v"""
-        self.graph.add_edge(u, v)
-        # try resetting self with new graph, if it fails, remove the edge
+        new_graph = self.graph.copy()
+        new_graph.add_edge(u, v)
+        # try resetting self with new graph, if it fails, keep the old graph
         try:
-            self.__init__(self.graph, self.input_nodes, self.output_nodes)
+            self._reset_with_graph(new_graph)
         except Exception as e:
-            self.graph.remove_edge(u, v)
             raise ValueError(f"Cannot add edge between {u} and {v}.\n" + str(e))
 
     def add_edges_from(self, edges, **kwargs):
@@ -444,13 +457,7 @@ class MBQCircuit:
         new_graph = self.graph.copy()
         new_graph.add_edges_from(edges, **kwargs)
         try:
-            self.__init__(
-                new_graph,
-                self.input_nodes,
-                self.output_nodes,
-                self.flow,
-                self.partial_order,
-            )
+            self._reset_with_graph(new_graph)
         except Exception as e:
             raise ValueError(f"Cannot add edges {edges}.\n" + str(e))
 
-- 
2.43.0


From 419bffac525006089cccc782acd6e92ce25a5e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 09/39] fix: list quantum and classical outputs in the order of
 the output nodes

The constructor and the later updates disagreed on order and content.
---
 mentpy/mbqc/mbqcircuit.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index aa6e8a9..9a1da08 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -156,11 +156,6 @@ class MBQCircuit:
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
 
-        # in case we measure an output node
-        quantum_output_nodes = [
-            node for node, i in self.measurements.items() if i is None
-        ]
-        self._quantum_output_nodes = quantum_output_nodes
         self._measurement_order = measurement_order
 
     def __repr__(self) -> str:
@@ -339,8 +334,10 @@ class MBQCircuit:
         trainable_nodes = []
         controlled_nodes = []
         planes = {}
-        quantum_outputs = []
-        classical_outputs = []
+        quantum_outputs = [v for v in self._output_nodes if self._measurements[v] is None]
+        classical_outputs = [
+            v for v in self._output_nodes if self._measurements[v] is not None
+        ]
         for nodei, menti in self._measurements.items():
             if menti is not None:
                 if isinstance(menti, ControlMent):
@@ -352,12 +349,8 @@ class MBQCircuit:
                 planes[nodei] = menti.plane
                 self._measurements[nodei] = copy.deepcopy(menti)
                 self._measurements[nodei].node_id = nodei
-                if nodei in self._output_nodes:
-                    classical_outputs.append(nodei)
             else:
                 planes[nodei] = ""
-                if nodei in self._output_nodes:
-                    quantum_outputs.append(nodei)
 
         self._trainable_nodes = trainable_nodes
         self._controlled_nodes = controlled_nodes
-- 
2.43.0


From 7e974f63a4ba76501e03632d17f4e3d6dbc92d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 10/39] fix: measurement deletion and assignment keep the node
 lists consistent

---
 mentpy/mbqc/mbqcircuit.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 9a1da08..acd8a79 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -130,6 +130,8 @@ class MBQCircuit:
                     f"Values {measurements.values()} are not instances of Ment."
                 )
 
+            measurements = dict(measurements)  # do not modify the caller's dictionary
+
             # set X Ment in outputc nodes that are not in measurements
             for node in self.graph.nodes:
                 if node not in measurements:
@@ -210,6 +212,7 @@ class MBQCircuit:
             raise ValueError(f"Node {key} is not in the graph.")
 
         self._measurements[key] = None
+        self._update_attributes()
 
     @property
     def measurements(self) -> Dict[int, Ment]:
@@ -221,10 +224,16 @@ class MBQCircuit:
         r"""Set the measurements of the MBQC circuit."""
         if not all([v in self.graph.nodes for v in measurements.keys()]):
             raise ValueError(f"Nodes {measurements.keys()} are not in the graph.")
-        if not all([isinstance(v, Ment) for v in measurements.values()]):
+        if not all([isinstance(v, Ment) or v is None for v in measurements.values()]):
             raise ValueError(
                 f"Values {measurements.values()} are not Measurement objects."
             )
+        measurements = dict(measurements)
+        for node in self.graph.nodes:
+            if node not in measurements:
+                measurements[node] = (
+                    self._default_measurement if node in self.outputc else None
+                )
         self._measurements = measurements
         self._update_attributes()
 
-- 
2.43.0


From 201775c9f44256ce8b3a9297b5392d99472ffbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 11/39] fix: partial order and measurement order follow the
 current conditions

The order was wrapped again on every update and kept stale conditions. It is
now derived from the flow and the controlled nodes of the moment, and
conditions that contradict the flow are rejected.
---
 mentpy/mbqc/mbqcircuit.py | 78 ++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 33 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index acd8a79..7e20e9a 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -141,6 +141,7 @@ class MBQCircuit:
 
         self._measurements = measurements
         self._flow, self._partial_order = None, None
+        self._flow_partial_order = None
         self._update_attributes()
 
         if (flow is None) or (partial_order is None):
@@ -154,6 +155,8 @@ class MBQCircuit:
 
         self._flow = flow
         self._partial_order = partial_order
+        self._flow_partial_order = partial_order
+        self._update_partial_order()
 
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
@@ -189,14 +192,11 @@ class MBQCircuit:
         if not isinstance(value, Ment):
             raise ValueError(f"Value {value} is not a Measurement object.")
 
-        self._measurements[key] = value
+        old_measurements = self._measurements
+        self._measurements = {**old_measurements, key: value}
 
         # self._update_attributes_key(key)
-        self._update_attributes()
-
-        if isinstance(value, ControlMent):
-            # recalculate measurement order
-            self._measurement_order = self.calculate_order()
+        self._update_or_restore(old_measurements)
 
     def __getitem__(self, key):
         r"""Return the value of the measurement of the node with index key."""
@@ -234,8 +234,9 @@ class MBQCircuit:
                 measurements[node] = (
                     self._default_measurement if node in self.outputc else None
                 )
+        old_measurements = self._measurements
         self._measurements = measurements
-        self._update_attributes()
+        self._update_or_restore(old_measurements)
 
     @property
     def graph(self) -> GraphState:
@@ -339,6 +340,21 @@ class MBQCircuit:
             ]
         return self.gflow.layers
 
+    def _update_or_restore(self, old_measurements) -> None:
+        """Updates the attributes, or goes back to the old measurements on failure"""
+        try:
+            self._update_attributes()
+        except Exception:
+            self._measurements = old_measurements
+            self._update_attributes()
+            raise
+
+        if self._partial_order is not None and not _check_measurement_order(
+            self._measurement_order, self._partial_order
+        ):
+            # recalculate measurement order
+            self._measurement_order = self.calculate_order()
+
     def _update_attributes(self) -> None:
         trainable_nodes = []
         controlled_nodes = []
@@ -381,11 +397,28 @@ class MBQCircuit:
         #     self._partial_order = partial_order
         #     self._depth = depth
 
-        if self._partial_order is not None:
-            old_partial_order = self._partial_order
-            self._partial_order = _create_new_partial_order(
-                self.controlled_nodes, self.measurements, old_partial_order
-            )
+        self._update_partial_order()
+
+    def _update_partial_order(self) -> None:
+        """Extends the order imposed by the flow with the current conditions"""
+        if self._flow_partial_order is None or len(self.controlled_nodes) == 0:
+            self._partial_order = self._flow_partial_order
+            return
+
+        before = nx.DiGraph()
+        for u in self.outputc:
+            fu = self.flow(u)
+            before.add_edges_from((u, v) for v in [fu, *self.graph.neighbors(fu)])
+            before.remove_edge(u, u)
+        for c in self.controlled_nodes:
+            cond_nodes = getattr(self.measurements[c].condition, "cond_nodes", ())
+            before.add_edges_from((cn, c) for cn in cond_nodes)
+
+        if not nx.is_directed_acyclic_graph(before):
+            raise ValueError("A condition depends on a node that is measured later.")
+
+        pairs = set(nx.transitive_closure_dag(before).edges())
+        self._partial_order = lambda i, j: (i, j) in pairs
 
     def _update_attributes_key(self, key) -> None:
         menti = self._measurements[key]
@@ -626,24 +659,3 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
 
     # TODO: Compute flow and partial order
     return MBQCircuit(graph, input_nodes, output_nodes, measurements=measurements)
-
-
-def _create_new_partial_order(controlled_nodes, measurements, old_partial_order):
-    def new_partial_order(i, j):
-        for c in controlled_nodes:
-            cns = measurements[c].condition.cond_nodes
-
-            ibeforecns = any([old_partial_order(i, cn) for cn in cns]) or i in cns
-            jafterc = old_partial_order(c, j) or j == c
-            # print(f"Comparing {i} and {j}")
-            # print(any([old_partial_order(i, cn) for cn in cns]), i in cns)
-            # print(old_partial_order(c, j), j == c)
-            if ibeforecns and jafterc and i != j:
-                return True
-
-            if j in cns and i == c:
-                return False
-
-        return old_partial_order(i, j)
-
-    return new_partial_order
-- 
2.43.0


From 9067a31ebecaa16f00bdce423a1143eeeedd535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 12/39] fix: check measurement orders given to the constructor

---
 mentpy/mbqc/mbqcircuit.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 7e20e9a..6e32f06 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -161,7 +161,9 @@ class MBQCircuit:
         if measurement_order is None and flow is not None:
             measurement_order = self.calculate_order()
 
-        self._measurement_order = measurement_order
+        self._measurement_order = None
+        if measurement_order is not None:
+            self.measurement_order = measurement_order
 
     def __repr__(self) -> str:
         """Return the representation of the current MBQC circuit state"""
@@ -314,7 +316,9 @@ class MBQCircuit:
             self.graph.nodes
         ):
             raise ValueError(f"{measurement_order} must list every node exactly once.")
-        if not _check_measurement_order(measurement_order, self.partial_order):
+        if self.partial_order is not None and not _check_measurement_order(
+            measurement_order, self.partial_order
+        ):
             raise ValueError(f"Invalid measurement order {measurement_order}.")
         self._measurement_order = measurement_order
 
-- 
2.43.0


From 51197f5e55e6cbef418466cd1b678407aa273ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:38 +0000
Subject: [PATCH 13/39] fix: stack and merge circuits whose identified outputs
 are also inputs

---
 mentpy/mbqc/mbqcircuit.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index 6e32f06..b5a96cd 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -519,9 +519,11 @@ def merge(state1: MBQCircuit, state2: MBQCircuit, along=[]) -> MBQCircuit:
             raise ValueError(f"Cannot merge states at indices {i} and {j}")
 
     graph = nx.disjoint_union(state1.graph, state2.graph)
-    along1, along2 = zip(*along)
+    along1, along2 = zip(*along) if len(along) > 0 else ((), ())
 
-    input_nodes = state1.input_nodes + [
+    # nodes of the first state that are kept under the name of the second one
+    renamed = {i: j + len(state1.graph) for i, j in along}
+    input_nodes = [renamed.get(i, i) for i in state1.input_nodes] + [
         i + len(state1.graph) for i in state2.input_nodes if i not in along2
     ]
     output_nodes = []
@@ -648,7 +650,11 @@ def _hstack2(state1: MBQCircuit, state2: MBQCircuit) -> MBQCircuit:
             nodes2.index(state2.input_nodes[i]) + len(nodes1),
         )
 
-    input_nodes = [nodes1.index(i) for i in state1.input_nodes]
+    renamed = {
+        i: nodes2.index(j) + len(nodes1)
+        for i, j in zip(state1.output_nodes, state2.input_nodes)
+    }
+    input_nodes = [renamed.get(i, nodes1.index(i)) for i in state1.input_nodes]
     output_nodes = [nodes2.index(j) + len(nodes1) for j in state2.output_nodes]
 
     measurements = {nodes1.index(i): ment for i, ment in state1.measurements.items()}
-- 
2.43.0


From f9b0dfb5d69082b295719ec67926cdabbf2b86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 14/39] fix: copies and effects of controlled measurements
 follow the selected branch

---
 mentpy/operators/controlled_ment.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mentpy/operators/controlled_ment.py b/mentpy/operators/controlled_ment.py
index aa0b13e..ba51661 100644
--- a/mentpy/operators/controlled_ment.py
+++ b/mentpy/operators/controlled_ment.py
@@ -80,7 +80,7 @@ class ControlMent(Ment):
 
     def copy(self):
         return ControlMent(
-            self.condition,
+            self._condition,
             self._true_ment.angle,
             self._true_ment.plane,
             self._angle,
@@ -104,10 +104,10 @@ class ControlMent(Ment):
                 return super().matrix()
 
     def get_povm(self, angle: float | None = None, *args, **kwargs):
-        if self.condition(*args, **kwargs):
-            return self._true_ment.get_povm(angle, *args, **kwargs)
-        else:
-            return super().get_povm(angle, *args, **kwargs)
+        mat = self.matrix(angle, *args, **kwargs)
+        m0 = (np.eye(2) + mat) / 2
+        m1 = (np.eye(2) - mat) / 2
+        return m0, m1
 
 
 ControlledMent = ControlMent
-- 
2.43.0


From a04e94095f50f33f0bca32024622d14e46cd4461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 15/39] fix: simulate fixed controlled measurements

---
 mentpy/simulators/np_simulator_dm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index d138c11..c77b017 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -234,6 +234,8 @@ class NumpySimulatorDM(BaseSimulator):
             for i in self.schedule_measure:
                 if i in self.mbqcircuit.trainable_nodes:
                     angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+                elif isinstance(self.mbqcircuit[i], ControlledMent):
+                    angle = None  # fixed by the branch that is selected
                 else:
                     angle = self.mbqcircuit[i].angle
 
-- 
2.43.0


From d6274506fb87f4fbaf3ef58b95b14de4a486cdd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 16/39] fix: negated outcomes keep track of the nodes they
 depend on

---
 mentpy/operators/ment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/operators/ment.py b/mentpy/operators/ment.py
index 722123b..bbfa483 100644
--- a/mentpy/operators/ment.py
+++ b/mentpy/operators/ment.py
@@ -117,7 +117,9 @@ class MentOutcome:
         return self._binary_operation(lambda x, y: x ^ y, other)
 
     def __invert__(self):
-        return MentOutcome(lambda x: not self._outcome(x))
+        return MentOutcome(
+            lambda x: not self._outcome(x), cond_nodes=self._cond_nodes
+        )
 
 
 class Ment:
-- 
2.43.0


From 9bce8dbaf0b13124d2e0661674ecf5c8a2c7bdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 17/39] fix: swap_qubits swaps the qubits instead of flipping
 them

---
 mentpy/operators/gates.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/mentpy/operators/gates.py b/mentpy/operators/gates.py
index af9d58b..e98c43f 100644
--- a/mentpy/operators/gates.py
+++ b/mentpy/operators/gates.py
@@ -39,24 +39,9 @@ def swap_qubits(state_vector, i, j):
 
     n_qubits = int(np.log2(len(state_vector)))
 
-    swap_matrix = np.zeros((2, 2), dtype=int)
-    swap_matrix[0, 1] = swap_matrix[1, 0] = 1
-
-    identity = np.identity(2)
-    swap_operator = None
-    for k in range(n_qubits):
-        if k == i or k == j:
-            current_operator = swap_matrix
-        else:
-            current_operator = identity
-
-        if swap_operator is None:
-            swap_operator = current_operator
-        else:
-            swap_operator = np.kron(swap_operator, current_operator)
-
-    swapped_state_vector = swap_operator @ state_vector
-    return swapped_state_vector
+    if i == j:
+        return state_vector.copy()
+    return swap_ij(i, j, n_qubits) @ state_vector
 
 
 def arbitrary_qubit_gate(u, i, n):
-- 
2.43.0


From ceedafb19ffff29becb26f753caf82ed23afa3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 18/39] fix: partial trace of pure states whose traced part
 sums to zero

---
 mentpy/calculator/state_ops.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mentpy/calculator/state_ops.py b/mentpy/calculator/state_ops.py
index a978593..e9e0c08 100644
--- a/mentpy/calculator/state_ops.py
+++ b/mentpy/calculator/state_ops.py
@@ -66,11 +66,11 @@ def partial_trace_pure_state(psi, indices):
     num_qubits = int(np.log2(psi.shape[0]))
     remaining_qubits = sorted(set(range(num_qubits)) - set(indices))
     tensor = psi.reshape([2] * num_qubits).transpose(remaining_qubits + indices)
-    traced_tensor = tensor.reshape([-1] + [2] * len(indices)).sum(
-        axis=tuple(range(1, 1 + len(indices)))
-    )
-    traced_tensor = traced_tensor.reshape(-1)
-    traced_tensor /= np.linalg.norm(traced_tensor)
+    # one column per basis state of the traced qubits; for product states all of
+    # them are proportional to the remaining state
+    columns = tensor.reshape([2 ** len(remaining_qubits), -1])
+    norms = np.linalg.norm(columns, axis=0)
+    traced_tensor = columns[:, np.argmax(norms)] / np.max(norms)
     return traced_tensor
 
 
-- 
2.43.0


From 2d1844de35c08ddbc0074b6a25e2995a6d343e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 19/39] fix: normalise parameter-shift rules with the sine of
 the shift

---
 mentpy/gradients/_parameter_shift.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/gradients/_parameter_shift.py b/mentpy/gradients/_parameter_shift.py
index 30da5b4..105cdd5 100644
--- a/mentpy/gradients/_parameter_shift.py
+++ b/mentpy/gradients/_parameter_shift.py
@@ -21,7 +21,7 @@ def psr_gradient(cost, x, shift=1.5):
     for i in range(len(x)):
         grad[i] = (
             cost(x + shift * np.eye(len(x))[i]) - cost(x - shift * np.eye(len(x))[i])
-        ) / (2 * shift)
+        ) / (2 * np.sin(shift))
     return grad
 
 
@@ -44,5 +44,5 @@ def psr_hessian(cost, x, shift=1.5):
                 - cost(x + shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
                 - cost(x - shift * np.eye(len(x))[i] + shift * np.eye(len(x))[j])
                 + cost(x - shift * np.eye(len(x))[i] - shift * np.eye(len(x))[j])
-            ) / (4 * shift**2)
+            ) / (4 * np.sin(shift) ** 2)
     return hess
-- 
2.43.0


From 8f5042dd1b9a7b098984ecce166416f25bbf65ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 20/39] fix: random coordinate descent never modifies the
 points it is given

---
 mentpy/optimizers/rcd.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/optimizers/rcd.py b/mentpy/optimizers/rcd.py
index c51b93b..b5bd455 100644
--- a/mentpy/optimizers/rcd.py
+++ b/mentpy/optimizers/rcd.py
@@ -40,6 +40,7 @@ class RCDOptimizer(BaseOptimizer):
 
     def step(self, f, x, i, **kwargs):
         """Take a step using the random coordinate descent optimizer."""
+        x = np.array(x, dtype=float)  # do not modify the caller's point
         coord_idx = random.randint(0, len(x) - 1)
         delta = np.zeros_like(x)
         delta[coord_idx] = 1e-5
@@ -78,6 +79,7 @@ class RCDOptimizer(BaseOptimizer):
 
         for i in range(num_iters):
             # Random coordinate descent optimizer
+            x = np.array(x, dtype=float)  # do not modify the caller's point
             coord_idx = random.randint(0, len(x) - 1)
             coord_iters[coord_idx] += 1
             delta = np.zeros_like(x)
-- 
2.43.0


From 61a560c937de86dd1483bbea9a7abda46b241b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 21/39] fix: build the flow space from graph states

---
 mentpy/utils/flow_space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/flow_space.py b/mentpy/utils/flow_space.py
index cc89e46..a9d67a4 100644
--- a/mentpy/utils/flow_space.py
+++ b/mentpy/utils/flow_space.py
@@ -3,7 +3,7 @@
 # This program is released under the GNU GPL v3.0 or later.
 # See <https://www.gnu.org/licenses/> for details.
 """A module to study graphs with flow."""
-from mentpy.mbqc import MBQCircuit
+from mentpy.mbqc import MBQCircuit, GraphState
 
 import networkx as nx
 import itertools
@@ -50,7 +50,7 @@ class FlowSpace:
         completegraph = nx.complete_graph(n)
         its = itertools.product([0, 1], repeat=total_n)
         for j in its:
-            g = nx.Graph()
+            g = GraphState()
             g.add_nodes_from(list(range(n)))
             edgs = [edg for i, edg in enumerate(list(completegraph.edges())) if j[i]]
             g.add_edges_from(edgs)
-- 
2.43.0


From 6722ae1d35e06e8bfe5a7f1a00f2790b1c7506ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:28 +0000
Subject: [PATCH 22/39] fix: datasets with one sample and shuffled splits of
 lists

---
 mentpy/utils/generate_data.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mentpy/utils/generate_data.py b/mentpy/utils/generate_data.py
index 9c7c8aa..8baf8cf 100644
--- a/mentpy/utils/generate_data.py
+++ b/mentpy/utils/generate_data.py
@@ -35,7 +35,7 @@ def generate_random_dataset(
 ) -> tuple:
     r"Return random training and test data (input, target) for a given unitary gate ``unitary``."
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     random_targets = [(unitary @ st.T).T for st in random_inputs]
     return train_test_split(random_inputs, random_targets, test_size=test_size)
 
@@ -48,8 +48,14 @@ def train_test_split(inputs, targets, test_size: float = 0.3, randomize=False) -
 
     if randomize:
         shuffled_indices = np.random.permutation(n_samples)
-        inputs = inputs[shuffled_indices]
-        targets = targets[shuffled_indices]
+        inputs, targets = (
+            (
+                data[shuffled_indices]
+                if isinstance(data, np.ndarray)
+                else [data[i] for i in shuffled_indices]
+            )
+            for data in (inputs, targets)
+        )
 
     return (inputs[:n_train_samples], targets[:n_train_samples]), (
         inputs[n_train_samples:],
@@ -95,7 +101,7 @@ def generate_random_dataset_noisy(
         raise ValueError("noise_level must be between 0 and 1")
 
     n_qubits = int(np.log2(unitary.shape[0]))
-    random_inputs = generate_haar_random_states(n_qubits, n_samples=n_samples)
+    random_inputs = [_generate_haar_random_state(n_qubits) for _ in range(n_samples)]
     n_samples = len(random_inputs)
     n_test_samples = int(n_samples * test_size)
     n_train_samples = n_samples - n_test_samples
-- 
2.43.0


From ba8de931d5f6954669f8a62754a4a1e91a13f48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:57 +0000
Subject: [PATCH 23/39] fix: give every node its own angle in the PennyLane
 simulator

Angles follow the order of the trainable nodes, also when all measured nodes
are trainable, and planes or outputs that would be ignored are rejected.
---
 mentpy/simulators/pennylane_simulator.py | 41 ++++++++++++------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index 298f0cf..b77a1c2 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -52,6 +52,11 @@ class PennylaneSimulator(BaseSimulator):
                 "Controlled nodes are not supported with the PennyLane simulator."
             )
 
+        if len(mbqcircuit.classical_output_nodes) > 0:
+            raise NotImplementedError(
+                "Measured outputs are not supported with the PennyLane simulator."
+            )
+
     def measure(self, angle: float, plane: str = "XY"):
         raise NotImplementedError
 
@@ -65,26 +70,22 @@ class PennylaneSimulator(BaseSimulator):
 
         extended_angles = []
 
-        if len(self.mbqcircuit.trainable_nodes) != len(self.mbqcircuit.outputc):
-            for i in self.mbqcircuit.outputc:
-                if i in self.mbqcircuit.trainable_nodes:
-                    angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
-                else:
-                    plane = self.mbqcircuit.planes[i]
-                    if plane == "X":
-                        angle = 0
-                    elif plane == "Y":
-                        angle = np.pi / 2
-                    elif plane == "XY":
-                        angle = self.mbqcircuit[i].angle
-                    else:
-                        raise ValueError(
-                            f"Plane {plane} is not supported for pennylane simulator."
-                        )
-
-                extended_angles.append(angle)
-        else:
-            extended_angles = angles
+        for i in self.mbqcircuit.outputc:
+            plane = self.mbqcircuit.planes[i]
+            if plane not in ("X", "Y", "XY"):
+                raise ValueError(
+                    f"Plane {plane} is not supported for pennylane simulator."
+                )
+            if i in self.mbqcircuit.trainable_nodes:
+                angle = angles[self.mbqcircuit.trainable_nodes.index(i)]
+            elif plane == "X":
+                angle = 0
+            elif plane == "Y":
+                angle = np.pi / 2
+            else:
+                angle = self.mbqcircuit[i].angle
+
+            extended_angles.append(angle)
 
         return self.circuit(extended_angles, st=self.input_state, **kwargs)
 
-- 
2.43.0


From cedafa7041948a245a81059d893bc9f76435c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:28 +0000
Subject: [PATCH 24/39] fix: reduce the solutions of binary systems modulo 2

---
 mentpy/calculator/linalg2.py | 2 +-
 mentpy/mbqc/flow.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/calculator/linalg2.py b/mentpy/calculator/linalg2.py
index 727e5d7..242d954 100644
--- a/mentpy/calculator/linalg2.py
+++ b/mentpy/calculator/linalg2.py
@@ -47,4 +47,4 @@ def solve(A, b):
             augmented_matrix[row, col + 1 : cols] * x[col + 1 : cols]
         )
 
-    return x
+    return x % 2
diff --git a/mentpy/mbqc/flow.py b/mentpy/mbqc/flow.py
index e18b9fb..c249d2e 100644
--- a/mentpy/mbqc/flow.py
+++ b/mentpy/mbqc/flow.py
@@ -52,7 +52,7 @@ def binary_gaussian_elimination(A, b):
             augmented_matrix[row, col + 1 : cols] * x[col + 1 : cols]
         )
 
-    return x
+    return x % 2
 
 
 class Flow:
-- 
2.43.0


From 06298f90c1a3efd94585964f7b5555c2ef4b90da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 25/39] fix: are_lc_equivalent accepts circuits and graph
 states

---
 mentpy/utils/lc_equivalence.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 65dcd55..938fc05 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -225,8 +225,13 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
             Clifford output according to 'clifford_form' specification.
     """
     # get adjacency matrices of input graphs
-    G = nx.adjacency_matrix(graph1.graph)
-    H = nx.adjacency_matrix(graph2.graph)
+    graph1, graph2 = (g if isinstance(g, nx.Graph) else g.graph for g in (graph1, graph2))
+    # use the same order of the nodes for both graphs
+    nodes1, nodes2 = list(graph1.nodes), list(graph2.nodes)
+    if set(nodes1) == set(nodes2):
+        nodes2 = nodes1
+    G = nx.to_numpy_array(graph1, nodelist=nodes1, dtype=int)
+    H = nx.to_numpy_array(graph2, nodelist=nodes2, dtype=int)
 
     # check adjacency matrices for same non-empty square shape
     if np.shape(G) == (0, 0) or np.shape(H) == (0, 0):
-- 
2.43.0


From 2a0484ff6a5ba720cd8897be27a1801c046b4b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:43 +0000
Subject: [PATCH 26/39] fix: search single basis vectors and small nullspaces
 for local Cliffords

---
 mentpy/utils/lc_equivalence.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 938fc05..8dfd520 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -3,6 +3,8 @@
 TAKEN FROM: https://github.com/XanaduAI/flamingpy/blob/main/flamingpy/utils/linalg.py
 """
 
+from itertools import combinations
+
 import numpy as np
 import networkx as nx
 
@@ -103,9 +105,9 @@ def nullspace_basis(M):
 
 def search_nullspace(basis):
     """Check if the nullspace satisfies the determinant constraints.
-     Search through sums of pairs of basis vectors of the nullspace and
-     see if any satisfy the determinant constraints. If no solution is found,
-     output None. If a solution is found, return a vector specifying the local
+     Search through the basis vectors of the nullspace and sums of pairs of them
+     (sums of any number of them if there are few) and see if any satisfy the
+     determinant constraints. If no solution is found, output None. If a solution is found, return a vector specifying the local
      Clifford in the form:
         (a_1, a_2, ..., a_n, b_1, b_2, ..., b_n, c_1, c_2, ..., c_n, d_1, d_2, ..., d_n),
      where n is the number of nodes of the graph.
@@ -122,13 +124,13 @@ def search_nullspace(basis):
     equivalent = False
     # array to store potential solutions
     sols = []
-    # search through distinct pairs of basis vectors
-    for i in range(d):
-        for j in range(i):
+    # search through the sums of few distinct basis vectors
+    for size in range(1, (d if d <= 10 else 2) + 1):
+        for inds in combinations(range(d), size):
             # boolean for checking solution constraints
             sat = True
-            # potential solution as sum (modulo 2) of basis pair
-            sol = np.vectorize(lambda x: x % 2)(np.add(basis[i], basis[j]))
+            # potential solution as sum (modulo 2) of basis vectors
+            sol = np.sum(basis[list(inds)], axis=0) % 2
             # store potential solution
             sols.append(sol)
             for k in range(n):
-- 
2.43.0


From 4cdf94823c0653f62ad0d185ddf48a1ce11faaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 27/39] fix: decide local-Clifford equivalence of disconnected
 graphs per component

---
 mentpy/utils/lc_equivalence.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/mentpy/utils/lc_equivalence.py b/mentpy/utils/lc_equivalence.py
index 8dfd520..5428dde 100644
--- a/mentpy/utils/lc_equivalence.py
+++ b/mentpy/utils/lc_equivalence.py
@@ -250,12 +250,29 @@ def are_lc_equivalent(graph1, graph2, clifford_form="tensor"):
 
     # perform algorithm to search for solution
     #
-    # construct system of constraints for two adjacency matrices G and H
-    system = lc_constraint_system(G, H)
-    # construct nullspace basis of system of constraints
-    nullspace = nullspace_basis(system)
-    # search nullspace for solution vector
-    solution_vector = search_nullspace(nullspace)
+    # local operations cannot connect or disconnect qubits
+    components = list(nx.connected_components(nx.from_numpy_array(G)))
+    if any(c not in components for c in nx.connected_components(nx.from_numpy_array(H))):
+        return False, None
+
+    n = len(G)
+    solution_vector = np.zeros(4 * n, dtype=int)
+    for component in components:
+        inds = np.array(sorted(component))
+        block = np.ix_(inds, inds)
+        # construct system of constraints for two adjacency matrices G and H
+        system = lc_constraint_system(G[block], H[block])
+        # construct nullspace basis of system of constraints
+        nullspace = nullspace_basis(system)
+        # search nullspace for solution vector
+        solution = search_nullspace(nullspace)
+        if solution is None:
+            solution_vector = None
+            break
+        for k in range(4):
+            solution_vector[inds + k * n] = solution[
+                k * len(inds) : (k + 1) * len(inds)
+            ]
 
     # if graphs are not equivalent set clifford_output to None
     if solution_vector is None:
-- 
2.43.0


From 436f502ed5fea2ebcfa93706bba835f0cdcdebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 28/39] fix: draw arrow and angle labels of controlled and
 two-angle measurements

---
 mentpy/mbqc/view.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 33a571d..1b4368c 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -205,16 +205,25 @@ def process_labels(state: MBQCircuit, options: dict):
             "XYZ": r"$\nwarrow \nearrow$",
             "": "",
         }
-        labels = {node: plane2arrow[state.planes[node]] for node in state.graph.nodes()}
+        labels = {
+            node: plane2arrow[state.planes[node]]
+            for node in state.graph.nodes()
+            if node not in state.controlled_nodes
+        }
         for node in state.controlled_nodes:
             labels[node] = "Ctrl"
         return labels
     elif label_option in ("angles", "angle"):
         labels = {}
         for node in state.graph.nodes():
-            if state.measurements[node] is not None:
-                if state.measurements[node].angle is not None:
-                    labels[node] = round(state.measurements[node].angle, 3)
+            if node in state.controlled_nodes:
+                labels[node] = "Ctrl"
+            elif state.measurements[node] is not None:
+                angle = state.measurements[node].angle
+                if isinstance(angle, tuple):
+                    labels[node] = tuple(round(a, 3) for a in angle)
+                elif angle is not None:
+                    labels[node] = round(angle, 3)
                 else:
                     labels[node] = r"$\theta$"
             else:
-- 
2.43.0


From cc1343e0e580990b2b75bd796342f2666ccd036e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 29/39] fix: Lie-algebra generators of circuits that keep their
 own labels

---
 mentpy/utils/lie_algebra.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index c06059b..073c5cc 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -23,18 +23,16 @@ def _constrains(j: int, state: MBQCircuit, stabilizers: PauliOp):
 
     mo = state.measurement_order
     mapping = state.index_mapping()
-    mo = [mapping[i] for i in mo]
-    j = mapping[j]
 
     A = []
     b = []
     for k in mo:
         if (not state.partial_order(j, k)) or k == j:
-            A.append(stabilizers[k].matrix[0, : len(mo)])
+            A.append(stabilizers[mapping[k]].matrix[0, : len(mo)])
             b.append(np.zeros(1, dtype=int))
 
-    for k in [mapping[i] for i in state.outputc]:
-        A.append(stabilizers[k].matrix[0, len(mo) :])
+    for k in state.outputc:
+        A.append(stabilizers[mapping[k]].matrix[0, len(mo) :])
         p = 0 if k != j else 1
         b.append(np.array([p]))
 
@@ -78,14 +76,11 @@ def calculate_complete_gens_lie_algebra(state: MBQCircuit):
 
 def calculate_gens_lie_algebra(state: MBQCircuit):
     """Calculates the generators of the Lie algebra of a given state"""
-    mapping = {
-        i: j
-        for i, j in zip(state.measurement_order, range(len(state.measurement_order)))
-    }
+    mapping = state.index_mapping()
 
     lieAlgebra = calculate_complete_gens_lie_algebra(state)
 
-    output_ops = lieAlgebra.get_subset(state.output_nodes)
+    output_ops = lieAlgebra.get_subset([mapping[i] for i in state.output_nodes])
     return remove_repeated_ops(output_ops)
 
 
-- 
2.43.0


From 664005029c92f86c4fdf919ce771d393ac7c95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 30/39] fix: Pauli operators of different sizes are not equal

---
 mentpy/operators/pauliop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 3ba3ea3..6730bf1 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -117,7 +117,9 @@ class PauliOp:
         return hash(str(self.matrix))
 
     def __eq__(self, other: "PauliOp"):
-        return np.all(self.matrix == other.matrix)
+        return self.matrix.shape == other.matrix.shape and bool(
+            np.all(self.matrix == other.matrix)
+        )
 
     def _mat_to_txt(self, op):
         n_qubits = op.shape[1] // 2
-- 
2.43.0


From e7e41420bd450f1c027c7923cdd507e10a3b9a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 31/39] fix: reject unknown letters in Pauli operators

---
 mentpy/operators/pauliop.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mentpy/operators/pauliop.py b/mentpy/operators/pauliop.py
index 6730bf1..c972395 100644
--- a/mentpy/operators/pauliop.py
+++ b/mentpy/operators/pauliop.py
@@ -153,6 +153,8 @@ class PauliOp:
                 elif char == "Y":
                     mat[i, j] = 1
                     mat[i, j + n_qubits] = 1
+                elif char != "I":
+                    raise ValueError(f"Unknown Pauli operator {char}")
         return GF(mat)
 
     @property
-- 
2.43.0


From 7e487fbd45ca91b7632d5caaa5dd08114968f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 32/39] fix: draw circuits with a node that is both input and
 output

---
 mentpy/mbqc/view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index 1b4368c..ac3a1ce 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -112,7 +112,7 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         if state.flow is not None:
             fix_wires = []
             for inp in state.input_nodes:
-                is_output = False
+                is_output = inp in state.output_nodes
                 wire = [inp]
                 while not is_output:
                     out = state.flow(wire[-1])
-- 
2.43.0


From f49a31713ad02ac10b9a0784ef9746b50dbc52f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:32 +0000
Subject: [PATCH 33/39] fix: stabilizers of graph states without edges

---
 mentpy/mbqc/states/graphstate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/states/graphstate.py b/mentpy/mbqc/states/graphstate.py
index a90420f..6ab6ca8 100644
--- a/mentpy/mbqc/states/graphstate.py
+++ b/mentpy/mbqc/states/graphstate.py
@@ -112,7 +112,7 @@ def _get_stabilizers(graph: GraphState) -> List[PauliOp]:
     -----
     states
     """
-    z_mat = nx.adjacency_matrix(graph).todense()
+    z_mat = nx.adjacency_matrix(graph, dtype=int).todense()
     x_mat = np.eye(graph.number_of_nodes(), dtype=int)
 
     return PauliOp(np.hstack((x_mat, z_mat)))
-- 
2.43.0


From eb74e63343ca97f6de4463f36a71eef92453fc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:32 +0000
Subject: [PATCH 34/39] fix: draw circuits whose controlled measurements have a
 constant condition

---
 mentpy/mbqc/view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mentpy/mbqc/view.py b/mentpy/mbqc/view.py
index ac3a1ce..be55753 100644
--- a/mentpy/mbqc/view.py
+++ b/mentpy/mbqc/view.py
@@ -167,7 +167,8 @@ def draw(state: Union[MBQCircuit, GraphState], fix_wires=None, **kwargs):
         if show_controls:
             dashed_edges = []
             for node in state.controlled_nodes:
-                for k in state.measurements[node].condition.cond_nodes:
+                condition = state.measurements[node].condition
+                for k in getattr(condition, "cond_nodes", ()):
                     dashed_edges.append((node, k))
             nx.draw_networkx_edges(
                 state.graph,
-- 
2.43.0


From 022e12a77f25d1e102cf7150776ce5a17ab3837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:51 +0000
Subject: [PATCH 35/39] fix: run circuits that keep their own labels with the
 PennyLane simulator

---
 mentpy/simulators/pennylane_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mentpy/simulators/pennylane_simulator.py b/mentpy/simulators/pennylane_simulator.py
index b77a1c2..71a354c 100644
--- a/mentpy/simulators/pennylane_simulator.py
+++ b/mentpy/simulators/pennylane_simulator.py
@@ -101,7 +101,7 @@ def mbqcircuit_to_circuit(
     """Converts a MBQCircuit to a PennyLane circuit."""
     gr = gsc.graph
     N = gr.number_of_nodes()
-    dev = qml.device(device, wires=N)
+    dev = qml.device(device, wires=list(gr.nodes()))
 
     @qml.qnode(dev)
     def circuit(param, output="density", st=None):
@@ -122,7 +122,7 @@ def mbqcircuit_to_circuit(
             qml.CZ(wires=[i, j])
 
         if circuit_noise is not None:
-            for i in range(N):
+            for i in gr.nodes():
                 if circuit_noise == "depolarizing":
                     qml.DepolarizingChannel(wires=i, *args, **kwargs)
                 elif circuit_noise == "amplitude_damping":
-- 
2.43.0


From 21d777717457270c3af26e4b1faa1a76e48d08db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:10 +0000
Subject: [PATCH 36/39] fix: copying a circuit no longer recurses endlessly
 while the graph is not set

---
 mentpy/mbqc/mbqcircuit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/mbqc/mbqcircuit.py b/mentpy/mbqc/mbqcircuit.py
index b5a96cd..8215464 100644
--- a/mentpy/mbqc/mbqcircuit.py
+++ b/mentpy/mbqc/mbqcircuit.py
@@ -176,7 +176,7 @@ class MBQCircuit:
     # if an attribute is not found, look for it in the graph
     def __getattr__(self, name):
         # try getting the attribute in graph, if not there, look in gflow
-        if name in ("_graph", "gflow"):
+        if name in ("_graph", "graph", "gflow"):
             # not initialized (yet), e.g. while copying or unpickling
             raise AttributeError(f"Attribute {name} not found in MBQCircuit.")
         try:
-- 
2.43.0


From 8b629016a70ea6b94b5fa9d2df972d43bef556ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:37 +0000
Subject: [PATCH 37/39] fix: Lie-algebra generators of circuits with a single
 measured node

---
 mentpy/utils/lie_algebra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index 073c5cc..76bf745 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -156,7 +156,7 @@ def remove_repeated_ops(ops: PauliOp):
     """Removes repeated Pauli operators from a set"""
     ops = copy.deepcopy(ops)
     unrep_ops = ops[0]
-    for op in ops[1:]:
+    for op in ops:
         if op not in unrep_ops:
             unrep_ops.append(op)
     return unrep_ops
-- 
2.43.0


From 69a86be6ebcabb7a80b20a68d857e9798418d8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 38/39] fix: Lie-algebra generators do not use the stabilizers
 of the inputs

---
 mentpy/utils/lie_algebra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mentpy/utils/lie_algebra.py b/mentpy/utils/lie_algebra.py
index 76bf745..ed16f76 100644
--- a/mentpy/utils/lie_algebra.py
+++ b/mentpy/utils/lie_algebra.py
@@ -27,7 +27,8 @@ def _constrains(j: int, state: MBQCircuit, stabilizers: PauliOp):
     A = []
     b = []
     for k in mo:
-        if (not state.partial_order(j, k)) or k == j:
+        # an input can carry any state, so its stabilizer cannot be used
+        if (not state.partial_order(j, k)) or k == j or k in state.input_nodes:
             A.append(stabilizers[mapping[k]].matrix[0, : len(mo)])
             b.append(np.zeros(1, dtype=int))
 
-- 
2.43.0


From ea4481bf4076bc70ddad230a4d3a7f3da844001d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 39/39] fix: a repeated run of a circuit without measured nodes
 reordered the qubits again

---
 mentpy/simulators/np_simulator_dm.py | 6 ++++--
 mentpy/simulators/np_simulator_sv.py | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/mentpy/simulators/np_simulator_dm.py b/mentpy/simulators/np_simulator_dm.py
index c77b017..e7557f3 100644
--- a/mentpy/simulators/np_simulator_dm.py
+++ b/mentpy/simulators/np_simulator_dm.py
@@ -272,8 +272,10 @@ class NumpySimulatorDM(BaseSimulator):
         current_output_order = [
             i for i in self.schedule if i not in self.schedule_measure
         ]
+        # self.qstate stays in the order of the simulated nodes
+        output_state = self.qstate
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
-            self.qstate = self.reorder_qubits(
+            output_state = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
 
@@ -285,7 +287,7 @@ class NumpySimulatorDM(BaseSimulator):
         #         )
         #         self.outcomes[i] = outcome
 
-        return self.qstate
+        return output_state
 
     def reset(self, input_state: np.ndarray = None):
         """Resets the simulator to the initial state."""
diff --git a/mentpy/simulators/np_simulator_sv.py b/mentpy/simulators/np_simulator_sv.py
index 8dc1d37..e15ca93 100644
--- a/mentpy/simulators/np_simulator_sv.py
+++ b/mentpy/simulators/np_simulator_sv.py
@@ -279,15 +279,17 @@ class NumpySimulatorSV(BaseSimulator):
                 self.outcomes[node] = outcome
 
         current_output_order = self.current_simulated_nodes()
+        # self.qstate stays in the order of the simulated nodes
+        output_state = self.qstate
         if self.mbqcircuit.quantum_output_nodes != current_output_order:
-            self.qstate = self.reorder_qubits(
+            output_state = self.reorder_qubits(
                 self.qstate, current_output_order, self.mbqcircuit.quantum_output_nodes
             )
 
         if output_form.lower() == "dm" or output_form.lower() == "densitymatrix":
-            return np.outer(self.qstate, np.conj(self.qstate).T)
+            return np.outer(output_state, np.conj(output_state).T)
         elif output_form.lower() == "sv" or output_form.lower() == "statevector":
-            return self.qstate
+            return output_state
         else:
             raise ValueError(f"Output form {output_form} is not supported.")
 
-- 
2.43.0

