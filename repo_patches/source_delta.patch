From 1e1a51d6a259f2bb7b50600b99198d39af8a942b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:35 +0000
Subject: [PATCH 01/35] fix: use collections.abc.Sequence, so that
 evolve(input=...) and plot1D work on Python >= 3.10

---
 netomaton/evolution.py | 3 ++-
 netomaton/utils.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 0272482..d696e89 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -1,4 +1,5 @@
 import collections
+import collections.abc
 from enum import Enum
 from .state import State
 
@@ -418,7 +419,7 @@ def _get_input_function(timesteps=None, input=None):
 
 
 def _is_indexable(obj):
-    return isinstance(obj, collections.Sequence)
+    return isinstance(obj, collections.abc.Sequence)
 
 
 class _TimestepInputFunction:
diff --git a/netomaton/utils.py b/netomaton/utils.py
index 15eb8ee..89872ae 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -5,6 +5,7 @@ import matplotlib.pyplot as plt
 import matplotlib.animation as animation
 import matplotlib.collections as mcoll
 import collections
+import collections.abc
 from .state import State
 from .substitution_system import SubstitutionSystem
 try:
@@ -273,7 +274,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     def _get_item(items, i):
         if isinstance(items, str):
             return items
-        if isinstance(items, collections.Sequence):
+        if isinstance(items, collections.abc.Sequence):
             return items[i]
         return items
 
-- 
2.43.0


From 6bf1f2760e3039ed96b1abca9f8bd8094856d410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:35 +0000
Subject: [PATCH 02/35] fix: keep the neighbourhood current when a topology
 rule follows a node addition or removal

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index d696e89..9845b81 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -205,7 +205,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
                                                            memoize, memo_table, neighbourhood_map, memoization_key)
             curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,
                                            trajectory, copy_network, persist_network, added_nodes, removed_nodes)
-            if added_nodes or removed_nodes:
+            if topology_rule is None and (added_nodes or removed_nodes):
                 # re-build the neighbourhood map, since the network has changed
                 neighbourhood_map = _get_neighbourhood_map(curr_network)
 
-- 
2.43.0


From fc67a0c1c4bb84cdb0a5c6c16b549d8ae562180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:54 +0000
Subject: [PATCH 03/35] fix: do not perturb a node that removed itself, and
 convert the perturbation's NumPy results like the rule's

---
 netomaton/evolution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 9845b81..51f806e 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -285,9 +285,10 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
         if node_label not in ctx.removed_nodes:
             curr_activities[node_label] = new_activity
 
-        if perturbation is not None:
+        # a node which removes itself has no activity to perturb
+        if perturbation is not None and node_label in curr_activities:
             pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
-            curr_activities[node_label] = perturbation(pctx)
+            curr_activities[node_label] = check_np(perturbation(pctx))
 
     return added_nodes, removed_nodes
 
-- 
2.43.0


From fa086e56a9d6d4c188f7ebd6c246e45a524a9f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 04/35] fix: let past_conditions be used when the activities
 are not persisted

---
 netomaton/evolution.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 51f806e..2a48c55 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -180,6 +180,9 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
     prev_activities = initial_conditions
     prev_network = network
 
+    # the past activities are not read from the trajectory, since they may not be persisted there
+    history = {0: initial_conditions}
+
     memo_table = {}
     if memoize and memoization_key is None:
         memoization_key = _UnorderedMemoizationKey() if network.rotation_system is None else _OrderedMemoizationKey()
@@ -195,7 +198,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         if inp is None:
             break
 
-        past = _get_past_activities(past_conditions, trajectory, t)
+        past = _get_past_activities(past_conditions, history, t)
         curr_activities = {}
         trajectory[t] = State(compression=compression)
 
@@ -230,6 +233,10 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         prev_activities = curr_activities
         prev_network = curr_network
 
+        if past_conditions:
+            history[t] = curr_activities
+            history.pop(t - len(past_conditions) - 1, None)
+
         t += 1
 
     # since we require Python 3.6, and dicts respect insertion order, we don't sort the trajectory entries by key
@@ -384,13 +391,13 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
     return network
 
 
-def _get_past_activities(past_conditions, trajectory, t):
+def _get_past_activities(past_conditions, history, t):
     if past_conditions and len(past_conditions) > 0:
         past_activities = [None]*len(past_conditions)
         last_t = t - 1
         for i in range(len(past_conditions)-1, -1, -1):
 
-            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else trajectory[last_t-1].activities
+            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else history[last_t-1]
             if not isinstance(curr_past_cond, dict) and isinstance(curr_past_cond, (list, np.ndarray)):
                 curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}
 
-- 
2.43.0


From a9c74eaa384676aa409ea7db0ebd54575b7265a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 05/35] fix: remove a node's activity when another node removes
 it, and allow several nodes to remove it

---
 netomaton/evolution.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 2a48c55..6d8d709 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -254,6 +254,11 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
                                                       activity_rule, past, perturbation, memoize, memoization_table,
                                                       neighbourhood_map, memoization_key)
 
+        # a node may have been removed by another node, or by several nodes
+        removed_nodes = list(dict.fromkeys(removed_nodes))
+        for node_label in removed_nodes:
+            curr_activities.pop(node_label, None)
+
         if added_nodes:
             for state, outgoing_links, node_label in added_nodes:
                 curr_activities[node_label] = check_np(state)
-- 
2.43.0


From dc09c95371c8874071a695406936220a1fbe88ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 06/35] fix: stop when timesteps is less than 1

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 6d8d709..3c52fb1 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -440,7 +440,7 @@ class _TimestepInputFunction:
         self._num_steps = num_steps
 
     def __call__(self, t, activities, network):
-        if t == self._num_steps:
+        if t >= self._num_steps:
             return None
         return "__timestep__"
 
-- 
2.43.0


From d1642655cc55d98c3cfc8b2e9bba821e9c2d8017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 07/35] fix: keep the empty network and its activities in the
 State, and accept an empty network from a topology rule

---
 netomaton/evolution.py | 2 +-
 netomaton/state.py     | 8 ++++----
 netomaton/utils.py     | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 3c52fb1..98e4631 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -387,7 +387,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         if copy_network:
             network = network.copy()
         network = topology_rule(TopologyContext(network, activities, t))
-        if not network:
+        if network is None:
             raise Exception("topology rule must return a network")
 
     if persist_network:
diff --git a/netomaton/state.py b/netomaton/state.py
index 5a4723e..56b6e6c 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -303,22 +303,22 @@ class State:
 
     @property
     def activities(self):
-        if self._activities:
+        if self._activities is not None:
             return _Compressor.decompress(self._activities) if self._compression else self._activities
 
     @activities.setter
     def activities(self, a):
-        if a:
+        if a is not None:
             self._activities = _Compressor.compress(a) if self._compression else a
 
     @property
     def network(self):
-        if self._network:
+        if self._network is not None:
             return Network.decompress(self._network) if self._compression else self._network
 
     @network.setter
     def network(self, n):
-        if n:
+        if n is not None:
             self._network = n.compress() if self._compression else n
 
 
diff --git a/netomaton/utils.py b/netomaton/utils.py
index 89872ae..3f8961d 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -33,7 +33,7 @@ def get_activities_over_time_as_list(trajectory):
     for state in trajectory:
         ac = state.activities
         row = []
-        if ac:
+        if ac is not None:
             for a in sorted(ac):
                 row.append(ac[a])
             activities.append(row)
-- 
2.43.0


From 1d3b041bdff717cfda82681a9bdf53823529f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 08/35] fix: leave the garbage collector as it was found when
 decompressing

---
 netomaton/state.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 56b6e6c..2b8e5e1 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -346,7 +346,10 @@ class _Compressor:
 
         :return: a decompressed object
         """
+        gc_was_enabled = gc.isenabled()
         gc.disable()
-        d = msgpack.unpackb(packed, strict_map_key=False)
-        gc.enable()
-        return d
\ No newline at end of file
+        try:
+            return msgpack.unpackb(packed, strict_map_key=False)
+        finally:
+            if gc_was_enabled:
+                gc.enable()
\ No newline at end of file
-- 
2.43.0


From c73c824cceff00a5351ee82cff4bc4c51566417a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 09/35] fix: preserve the order of ten or more relations in
 network_to_config

---
 netomaton/wolfram_physics_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index 36be62e..da1dbb8 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -70,7 +70,7 @@ class WolframPhysicsModel:
                 merged_hyperedges[edge_label] = tuple(merged)
 
         edges.update(merged_hyperedges)
-        config = [edges[label] for label in sorted(edges)]  # sort so that we can preserve the order of the relations
+        config = [edges[label] for label in sorted(edges, key=int)]  # sort so that we can preserve the order of the relations
 
         return config
 
-- 
2.43.0


From d38bfe7806d12faba147dd70108d6ce88701e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 10/35] fix: treat each activity as one symbol in the average
 entropy and mutual information

---
 netomaton/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index f8b2430..4e133b8 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -40,7 +40,7 @@ def average_node_entropy(trajectory_or_activities):
     num_cols = len(activities[0])
     entropies = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(y[i]) for y in activities]
         entropy = shannon_entropy(node_states_over_time)
         entropies.append(entropy)
     return np.mean(entropies)
@@ -109,7 +109,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(y[i]) for y in activities]
         mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])
         mutual_informations.append(mi)
     return np.mean(mutual_informations)
-- 
2.43.0


From 830da741ab8b1e5691e3cc6f6482cebdb593bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 11/35] fix: limit the temporal distance by the number of
 timesteps, not the number of nodes

---
 netomaton/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index 4e133b8..2b6174a 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -105,7 +105,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
     else:
         activities = trajectory_or_activities
     num_cols = len(activities[0])
-    if not (0 < temporal_distance < num_cols):
+    if not (0 < temporal_distance < len(activities)):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-- 
2.43.0


From 485d44383b3fb10edd807b010e66dddd64692f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 12/35] fix: keep the given nodes when the update order is
 randomized after each cycle

---
 netomaton/asynchronous_rule.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 2016ae7..2551309 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -24,17 +24,19 @@ class AsynchronousRule:
             raise Exception("either update_order or n must be specified")
         self._activity_rule = activity_rule
         if update_order is not None:
-            self._update_order = update_order
+            self._nodes = list(update_order)
+            self._update_order = self._nodes
         else:
-            self._shuffle_update_order(n)
+            self._nodes = list(range(n))
+            self._shuffle_update_order()
         self._curr = 0
         self._num_applied = 0
         self._randomize_each_cycle = randomize_each_cycle
 
-    def _shuffle_update_order(self, n):
-        self._update_order = np.arange(n)
-        np.random.shuffle(self._update_order)
-        self._update_order = self._update_order.tolist()
+    def _shuffle_update_order(self):
+        indices = np.arange(len(self._nodes))
+        np.random.shuffle(indices)
+        self._update_order = [self._nodes[i] for i in indices]
 
     def __call__(self, ctx):
         if ctx.node_label in self._update_order:
@@ -53,4 +55,4 @@ class AsynchronousRule:
             self._curr = (self._curr + 1) % len(self._update_order)
             self._num_applied = 0
             if self._randomize_each_cycle:
-                self._shuffle_update_order(len(self._update_order))
+                self._shuffle_update_order()
-- 
2.43.0


From 4191e7f52cd43ffef0a58c5742fd5d741d8677e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 13/35] fix: break ties randomly in majority_rule
 (statistics.mode does not raise since Python 3.8)

---
 netomaton/rules/activity_rule.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index 4d11ea7..d227b89 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -1,4 +1,4 @@
-from statistics import mode, StatisticsError
+from collections import Counter
 import numpy as np
 
 
@@ -40,11 +40,13 @@ def majority_rule(ctx):
 
     :return: the new activity for the node with the given neighbourhood
     """
-    try:
-        return mode(ctx.neighbourhood_activities)
-    except StatisticsError:
-        # a StatisticsError is raised if there is a tie, and there is no single most common element
-        return np.random.choice(ctx.neighbourhood_activities)
+    counts = Counter(ctx.neighbourhood_activities)
+    highest = max(counts.values())
+    most_frequent = [x for x in ctx.neighbourhood_activities if counts[x] == highest]
+    if len(most_frequent) == highest:
+        return most_frequent[0]
+    # there is a tie, and there is no single most common element
+    return np.random.choice(most_frequent)
 
 
 def bits_to_int(bits):
-- 
2.43.0


From c1d61972d245015c2b46123da02bef5fd1e47ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 14/35] fix: add the self loops a lattice is asked for, and the
 node of a single-node lattice

---
 netomaton/topology/networks.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 2410044..fce1920 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -61,10 +61,14 @@ def lattice(dim, periodic=False, self_loops=False, first_label=0):
     G = nx.convert_node_labels_to_integers(G, first_label=first_label)
     network = ntm.Network()
     for edge in G.edges:
-        if edge[0] == edge[1] and not self_loops:
+        if edge[0] == edge[1]:
             continue
         network.add_edge(edge[1], edge[0])
         network.add_edge(edge[0], edge[1])
+    for node in G.nodes:
+        network.add_node(node)
+        if self_loops:
+            network.add_edge(node, node)
     return network
 
 
-- 
2.43.0


From 85d6c49ab43d4be2fe17c12db480e4f15627cc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 15/35] fix: keep the nodes without connections in
 from_adjacency_matrix

---
 netomaton/topology/networks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index fce1920..028c015 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -92,6 +92,8 @@ def from_adjacency_matrix(adj):
         for j, val in enumerate(row):
             if val != 0:
                 network.add_edge(i, j, weight=val)
+    for i in range(len(adj)):
+        network.add_node(i)  # a node may have no connections
     return network
 
 
-- 
2.43.0


From a6572b9841cba979c60bc7feb5d56e4b34d6208c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 16/35] fix: use a seed of 0 in the FungalGrowthModel

---
 netomaton/fungal_growth_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/fungal_growth_model.py b/netomaton/fungal_growth_model.py
index c1adeb7..5f7e1b9 100644
--- a/netomaton/fungal_growth_model.py
+++ b/netomaton/fungal_growth_model.py
@@ -29,7 +29,7 @@ class FungalGrowthModel:
         """
         self._R_E = R_E
         self._d = 4  # the maximum node degree allowable
-        if seed:
+        if seed is not None:
             np.random.seed(seed)
         self._verbose = verbose
 
-- 
2.43.0


From 0c56794a97a85b6b50353d044898a45978ce3baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 17/35] fix: give the HeadCentricTuringMachine the whole tape
 symbol when it is a string or tuple

---
 netomaton/turing_machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/turing_machine.py b/netomaton/turing_machine.py
index 9d9e20d..6927bb1 100644
--- a/netomaton/turing_machine.py
+++ b/netomaton/turing_machine.py
@@ -119,7 +119,8 @@ class HeadCentricTuringMachine(TuringMachine):
         if self._halt:
             return None
 
-        return self._tape_history[-1][self._head_pos]
+        # there is a single node, whose input is the symbol, which may itself be a sequence
+        return [self._tape_history[-1][self._head_pos]]
 
     def activities_for_plotting(self, trajectory):
         activities = get_activities_over_time_as_list(trajectory)
-- 
2.43.0


From d2c9c56792948ed73d24db14f4ee8b5cbee3c74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:04 +0000
Subject: [PATCH 18/35] fix: do not change the rules given to a
 SubstitutionSystem

---
 netomaton/substitution_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index a561ae2..08f968e 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -4,10 +4,10 @@ from .state import Network
 
 class SubstitutionSystem:
     def __init__(self, axiom, rules, constants=None):
-        self._rules = rules
+        self._rules = dict(rules)
         self._constants = constants if constants else []
         self._rules.update({c: c for c in self._constants})
-        self._neighbourhood_size = self._get_neighbourhood_size(rules)
+        self._neighbourhood_size = self._get_neighbourhood_size(self._rules)
         self._initial_conditions = [s for s in axiom]
         self._dtype = type(self._initial_conditions[0])
         self._network = self._init_network(len(self._initial_conditions))
-- 
2.43.0


From 3b1e472463ae198debc2c0bcffcb76a001c70389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:05 +0000
Subject: [PATCH 19/35] fix: do not record activities when there is no activity
 rule to compute them

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 98e4631..59a4242 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -263,7 +263,7 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
             for state, outgoing_links, node_label in added_nodes:
                 curr_activities[node_label] = check_np(state)
 
-    if persist_activities:
+    if persist_activities and activity_rule:
         trajectory[t].activities = curr_activities
 
     return added_nodes, removed_nodes
-- 
2.43.0


From bc4a0f570dea9c218cbed4ed3bac3bfd60916393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:56 +0000
Subject: [PATCH 20/35] fix: let copy, compress and State compression keep
 tuples and NumPy scalars

---
 netomaton/state.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 2b8e5e1..1c6c7b0 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -1,6 +1,7 @@
 import msgpack
 import gc
 import networkx as nx
+import numpy as np
 
 
 class Network:
@@ -323,9 +324,31 @@ class State:
 
 
 class _Compressor:
+    _TUPLE = 1
+
     def __init__(self):
         pass
 
+    @staticmethod
+    def _encode(obj):
+        """
+        Encodes the types that msgpack has no representation of (in strict mode, this includes tuples and subclasses).
+        """
+        if isinstance(obj, tuple):
+            return msgpack.ExtType(_Compressor._TUPLE, _Compressor.compress(list(obj)))
+        if isinstance(obj, np.generic):
+            return obj.item()
+        for base in (int, float, str, bytes, list, dict):
+            if isinstance(obj, base):
+                return base(obj)
+        raise TypeError("can not serialize '%s' object" % type(obj).__name__)
+
+    @staticmethod
+    def _decode(code, data):
+        if code == _Compressor._TUPLE:
+            return tuple(_Compressor.decompress(data))
+        return msgpack.ExtType(code, data)
+
     @staticmethod
     def compress(obj):
         """
@@ -335,7 +358,7 @@ class _Compressor:
 
         :return: packed bytes
         """
-        return msgpack.packb(obj)
+        return msgpack.packb(obj, default=_Compressor._encode, strict_types=True)
 
     @staticmethod
     def decompress(packed):
@@ -349,7 +372,7 @@ class _Compressor:
         gc_was_enabled = gc.isenabled()
         gc.disable()
         try:
-            return msgpack.unpackb(packed, strict_map_key=False)
+            return msgpack.unpackb(packed, strict_map_key=False, ext_hook=_Compressor._decode)
         finally:
             if gc_was_enabled:
                 gc.enable()
\ No newline at end of file
-- 
2.43.0


From ee65790a3062f72764d541a89b9818c6f0c62534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:14 +0000
Subject: [PATCH 21/35] fix: plot1D limits the y-axis to a given 2-tuple

---
 netomaton/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index 3f8961d..88b5b72 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -299,7 +299,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
         if xlim:
             current_axis.set_xlim(xlim)
         if ylim:
-            current_axis.set_ylim(_get_item(ylim, i % 2))
+            current_axis.set_ylim(ylim[i % 2] if isinstance(ylim, list) else ylim)
         if legend:
             current_axis.legend(**legend)
 
-- 
2.43.0


From 33f5cede82a356bbd76e167ed535a2dffeeb1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:14 +0000
Subject: [PATCH 22/35] fix: animate_hex uses vmin and vmax

---
 netomaton/hexplot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netomaton/hexplot.py b/netomaton/hexplot.py
index 3a54535..9306e37 100644
--- a/netomaton/hexplot.py
+++ b/netomaton/hexplot.py
@@ -77,6 +77,7 @@ def animate_hex(trajectory, title='', shape=None, save=False, interval=50, color
         patches.append(hex)
 
     p = PatchCollection(patches, match_original=True, cmap=m.get_cmap())
+    p.set_clim(vmin, vmax)
     ax.add_collection(p)
 
     i = {'index': 0}
-- 
2.43.0


From a461b151702ae483c308f0a84cb423f8f7117d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:25 +0000
Subject: [PATCH 23/35] fix: updating a connection with an edge index which
 doesn't exist must change none of its edges

---
 netomaton/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 1c6c7b0..241529e 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -75,8 +75,8 @@ class Network:
             for edge in self._network[j]["incoming"][i]:
                 edge.update(attr)
         else:
-            for k in indices:
-                self._network[j]["incoming"][i][k].update(attr)
+            for edge in [self._network[j]["incoming"][i][k] for k in indices]:
+                edge.update(attr)
 
     def remove_node(self, node_label):
         for i, v in self._network[node_label]["incoming"].items():
-- 
2.43.0


From 3e2c9d68df37bdf1a6e2561aae814c1aafe07c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:45 +0000
Subject: [PATCH 24/35] fix: a totalistic rule must give a node without
 neighbours the digit for the sum 0

---
 netomaton/rules/activity_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index d227b89..c15f02f 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -25,7 +25,7 @@ def totalistic_ca(k, rule):
         rule_string = np.base_repr(rule, base=k).zfill(n*(k - 1) + 1)
         if len(rule_string) > n*(k - 1) + 1:
             raise Exception("rule number out of range")
-        neighbourhood_sum = np.sum(neighbourhood)
+        neighbourhood_sum = sum(ctx.neighbourhood_activities)
         # the rightmost element of the rule is for the average color 0, in NKS convention
         return int(rule_string[n*(k - 1) - neighbourhood_sum], k)
     return _rule
-- 
2.43.0


From b50b9f256763c3b84c1ffaed8856636e5a161ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:29 +0000
Subject: [PATCH 25/35] fix: a substitution system can be evolved again after
 an evolution of two timesteps

---
 netomaton/substitution_system.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index 08f968e..914ee2f 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -13,7 +13,8 @@ class SubstitutionSystem:
         self._network = self._init_network(len(self._initial_conditions))
         self._last_node_index = len(self._initial_conditions) - 1
         self._num_nodes_added = 0
-        self._last_timestep = 0
+        self._last_activities = None
+        self._rewritten_nodes = set()
 
     def _get_neighbourhood_size(self, rules):
         neighbourhood_size = len(next(iter(rules)))
@@ -36,7 +37,7 @@ class SubstitutionSystem:
     def activity_rule(self, ctx):
         ctx.remove_node(ctx.node_label)
 
-        self._update_last_timestep(ctx)
+        self._check_for_next_step(ctx)
 
         if len(ctx.neighbour_labels) != self._neighbourhood_size:
             return
@@ -57,10 +58,13 @@ class SubstitutionSystem:
         # we return None here, since the graph has been re-written through the context, and the newly added node(s)
         #  carry the state information
 
-    def _update_last_timestep(self, ctx):
-        if self._last_timestep != ctx.timestep:
+    def _check_for_next_step(self, ctx):
+        # the step may be the same timestep of another evolution, so the timestep can't be relied upon
+        if self._last_activities is not ctx.activities or ctx.node_label in self._rewritten_nodes:
             self._num_nodes_added = 0
-        self._last_timestep = ctx.timestep
+            self._last_activities = ctx.activities
+            self._rewritten_nodes = set()
+        self._rewritten_nodes.add(ctx.node_label)
 
     def _get_state(self, ctx):
         state = ""
-- 
2.43.0


From 88a6ac1b90c396ba8b65276e45abcbb43f0df39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:01 +0000
Subject: [PATCH 26/35] fix: random rule tables of more than ten states can be
 looked up by table_rule

---
 netomaton/rule_tables.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/netomaton/rule_tables.py b/netomaton/rule_tables.py
index a1ae947..4449a19 100644
--- a/netomaton/rule_tables.py
+++ b/netomaton/rule_tables.py
@@ -16,11 +16,21 @@ def table_rule(table):
     def _rule(ctx):
         state_repr = ''.join(str(x) for x in ctx.neighbourhood_activities)
         if not state_repr in table:
+            # each state is a single digit in the tables made by random_rule_table, i.e. 10 is 'A', 11 is 'B', etc.
+            digits = ''.join(_to_digit(x) for x in ctx.neighbourhood_activities)
+            if digits in table:
+                return table[digits]
             raise Exception("could not find state '%s' in table" % state_repr)
         return table[state_repr]
     return _rule
 
 
+def _to_digit(state):
+    if isinstance(state, (int, np.integer)) and 10 <= state < 36:
+        return np.base_repr(state, 36)
+    return str(state)
+
+
 def random_rule_table(k, r, lambda_val=None, quiescent_state=None, strong_quiescence=False, isotropic=False):
     """
     Constructs and returns a random rule table, as described in [Langton, C. G. (1990). Computation at the edge of
-- 
2.43.0


From 712837e8ff76a73608d2c9fc32a3b73f4fe2e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 27/35] fix: a TapeCentricTuringMachine can be evolved again,
 on another tape

---
 netomaton/turing_machine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/netomaton/turing_machine.py b/netomaton/turing_machine.py
index 6927bb1..c6b340b 100644
--- a/netomaton/turing_machine.py
+++ b/netomaton/turing_machine.py
@@ -45,6 +45,8 @@ class TapeCentricTuringMachine(TuringMachine):
                 next_head_state, new_node_state, direction = self._rule_table[head_state][node_state]
             except KeyError as err:
                 raise Exception("no rule defined for head state %s, input %s" % (head_state, node_state)) from err
+            # the machine may have been evolved before
+            del self._head_history[self._current_timestep:]
             self._head_history.append((next_head_state, ctx.neighbour_labels[direction]))
             return new_node_state
         return node_state
@@ -52,7 +54,7 @@ class TapeCentricTuringMachine(TuringMachine):
     def head_activities(self, trajectory):
         activities = get_activities_over_time_as_list(trajectory)
         annotations = [[None for _ in range(self._n)] for _ in range(len(activities))]
-        for i, h in enumerate(self._head_history):
+        for i, h in enumerate(self._head_history[:len(activities)]):
             annotations[i][h[1]] = str(h[0])
         return annotations
 
-- 
2.43.0


From 94b4e986613b78eefa399a0c6068465d37fe30ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 28/35] fix: plot1D accepts a list of legends, one for each
 y-axis

---
 netomaton/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index 88b5b72..e517079 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -301,7 +301,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
         if ylim:
             current_axis.set_ylim(ylim[i % 2] if isinstance(ylim, list) else ylim)
         if legend:
-            current_axis.legend(**legend)
+            current_axis.legend(**(legend[i % 2] if isinstance(legend, list) else legend))
 
         current_axis_idx += 1
 
-- 
2.43.0


From def055284a147e790d3f11dc82cbc9b6513060a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:52 +0000
Subject: [PATCH 29/35] fix: plot1D labels a series with the number 0

---
 netomaton/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index e517079..5137910 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -284,7 +284,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     for i, y_series in enumerate(y):
         current_axis = axes[current_axis_idx % len(axes)]
         plot_args = {}
-        if label:
+        if label is not None:
             plot_args["label"] = _get_item(label, i)
         if color:
             plot_args["color"] = _get_item(color, i)
-- 
2.43.0


From 416fc657dea69e496c0080e4820d6a319a0ba5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:06 +0000
Subject: [PATCH 30/35] fix: copy and compress networks and activities with
 integers beyond 64 bits

Network.copy() and compression raised an OverflowError for them, so that e.g. an evolution with
compression=True failed as soon as an activity exceeded what msgpack has a representation of.
---
 netomaton/state.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netomaton/state.py b/netomaton/state.py
index 241529e..6adcaf8 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -325,6 +325,7 @@ class State:
 
 class _Compressor:
     _TUPLE = 1
+    _INTEGER = 2
 
     def __init__(self):
         pass
@@ -338,6 +339,8 @@ class _Compressor:
             return msgpack.ExtType(_Compressor._TUPLE, _Compressor.compress(list(obj)))
         if isinstance(obj, np.generic):
             return obj.item()
+        if isinstance(obj, int) and not -2**63 <= obj < 2**64:
+            return msgpack.ExtType(_Compressor._INTEGER, b"%x" % obj)
         for base in (int, float, str, bytes, list, dict):
             if isinstance(obj, base):
                 return base(obj)
@@ -347,6 +350,8 @@ class _Compressor:
     def _decode(code, data):
         if code == _Compressor._TUPLE:
             return tuple(_Compressor.decompress(data))
+        if code == _Compressor._INTEGER:
+            return int(data, 16)
         return msgpack.ExtType(code, data)
 
     @staticmethod
-- 
2.43.0


From b06d0e2d1c8bb36e10c080d52c8bc25baade750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:06 +0000
Subject: [PATCH 31/35] fix: to_networkx keeps connections with an attribute
 named key

The attribute was taken for the key of the connection in the MultiDiGraph: it was lost, and parallel
connections with the same one were merged.
---
 netomaton/state.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 6adcaf8..9bfab2b 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -210,8 +210,8 @@ class Network:
                 if key not in self._new_node():
                     atts[key] = self._network[node][key]
             G.add_node(node, **atts)
-        for i, j, data in self.edges:
-            G.add_edge(i, j, **data)
+        # an attribute may have the name of a parameter of G.add_edge, such as "key"
+        G.add_edges_from((i, j, data) for i, j, data in self.edges)
         return G
 
     def to_adjacency_matrix(self, nodelist=None, sum_multiedges=True, weight="weight"):
-- 
2.43.0


From 9bd27142e941bf4b039d196b443da27b58d3a9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:31 +0000
Subject: [PATCH 32/35] fix: update one node per timestep when the update order
 of an asynchronous rule repeats a node

---
 netomaton/asynchronous_rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 2551309..9a5e3b9 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -51,7 +51,8 @@ class AsynchronousRule:
         return c == self._update_order[self._curr]
 
     def _check_for_end_of_cycle(self):
-        if self._num_applied == len(self._update_order):
+        # the update order may contain a node more than once
+        if self._num_applied == len(set(self._update_order)):
             self._curr = (self._curr + 1) % len(self._update_order)
             self._num_applied = 0
             if self._randomize_each_cycle:
-- 
2.43.0


From 335257a0a3591946371f0b62d9addb1ade4a07eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:31 +0000
Subject: [PATCH 33/35] fix: compare symbols exactly in the joint Shannon
 entropy

---
 netomaton/analysis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index 2b6174a..f78e664 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -56,12 +56,12 @@ def joint_shannon_entropy(stringX, stringY):
 
     :return: a real number representing the joint Shannon entropy between the given strings
     """
-    X = np.array(list(stringX))
-    Y = np.array(list(stringY))
+    X = list(stringX)
+    Y = list(stringY)
     joint_symbol_probabilities = []
     for x in set(X):
         for y in set(Y):
-            joint_symbol_probabilities.append(np.mean(np.logical_and(X == x, Y == y)))
+            joint_symbol_probabilities.append(np.mean(np.logical_and([s == x for s in X], [s == y for s in Y])))
     return sum(-p * np.log2(p) for p in joint_symbol_probabilities if p != 0)
 
 
-- 
2.43.0


From c2f35dcdab8099600669cf90794f10726cb32309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:31 +0000
Subject: [PATCH 34/35] fix: break the ties of the majority rule without
 converting the states

---
 netomaton/rules/activity_rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index c15f02f..05debc9 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -46,7 +46,7 @@ def majority_rule(ctx):
     if len(most_frequent) == highest:
         return most_frequent[0]
     # there is a tie, and there is no single most common element
-    return np.random.choice(most_frequent)
+    return most_frequent[np.random.randint(len(most_frequent))]
 
 
 def bits_to_int(bits):
-- 
2.43.0


From e9b0602cb41b14cbacfc67478439f7617317b930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:18 +0000
Subject: [PATCH 35/35] fix: networks with the same nodes and edges are equal,
 in whichever order the edges were added

---
 netomaton/state.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 9bfab2b..40b85be 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -283,7 +283,12 @@ class Network:
         return len(self._network)
 
     def __eq__(self, other):
-        return self._network == other._network
+        # the outgoing links follow from the incoming ones, and the order in which they were added doesn't matter
+        return self._without_outgoing() == other._without_outgoing()
+
+    def _without_outgoing(self):
+        return {node_label: {k: v for k, v in node.items() if k != "outgoing"}
+                for node_label, node in self._network.items()}
 
 
 class State:
-- 
2.43.0

