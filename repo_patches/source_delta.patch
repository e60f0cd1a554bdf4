From 350692d92323153df1adb762301630ebd254de3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:53 +0000
Subject: [PATCH 01/27] fix: use collections.abc.Sequence (collections.Sequence
 is gone since Python 3.10)

---
 netomaton/evolution.py | 3 ++-
 netomaton/utils.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 0272482..d696e89 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -1,4 +1,5 @@
 import collections
+import collections.abc
 from enum import Enum
 from .state import State
 
@@ -418,7 +419,7 @@ def _get_input_function(timesteps=None, input=None):
 
 
 def _is_indexable(obj):
-    return isinstance(obj, collections.Sequence)
+    return isinstance(obj, collections.abc.Sequence)
 
 
 class _TimestepInputFunction:
diff --git a/netomaton/utils.py b/netomaton/utils.py
index 15eb8ee..89872ae 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -5,6 +5,7 @@ import matplotlib.pyplot as plt
 import matplotlib.animation as animation
 import matplotlib.collections as mcoll
 import collections
+import collections.abc
 from .state import State
 from .substitution_system import SubstitutionSystem
 try:
@@ -273,7 +274,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     def _get_item(items, i):
         if isinstance(items, str):
             return items
-        if isinstance(items, collections.Sequence):
+        if isinstance(items, collections.abc.Sequence):
             return items[i]
         return items
 
-- 
2.43.0


From a11fe8fba73a1bb4a5aaf5dcb224d05eef8176ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 02/27] fix: majority_rule chooses among the most frequent
 states when there is a tie

---
 netomaton/rules/activity_rule.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/netomaton/rules/activity_rule.py b/netomaton/rules/activity_rule.py
index 4d11ea7..d1e3cc8 100644
--- a/netomaton/rules/activity_rule.py
+++ b/netomaton/rules/activity_rule.py
@@ -1,4 +1,4 @@
-from statistics import mode, StatisticsError
+from collections import Counter
 import numpy as np
 
 
@@ -33,18 +33,20 @@ def totalistic_ca(k, rule):
 
 def majority_rule(ctx):
     """
-    Returns the value of the most frequent state in the neighbourhood. If all states are equally frequent, then a
-    random state is chosen from the neighbourhood.
+    Returns the value of the most frequent state in the neighbourhood. If there is no single most frequent state, then
+    a random state is chosen from the most frequent states in the neighbourhood.
 
     :param ctx: the NodeContext for a node
 
     :return: the new activity for the node with the given neighbourhood
     """
-    try:
-        return mode(ctx.neighbourhood_activities)
-    except StatisticsError:
-        # a StatisticsError is raised if there is a tie, and there is no single most common element
-        return np.random.choice(ctx.neighbourhood_activities)
+    counts = Counter(ctx.neighbourhood_activities)
+    highest_count = max(counts.values())
+    most_frequent = [a for a in ctx.neighbourhood_activities if counts[a] == highest_count]
+    if len(most_frequent) == highest_count:
+        return most_frequent[0]
+    # there is a tie, and there is no single most common element
+    return np.random.choice(most_frequent)
 
 
 def bits_to_int(bits):
-- 
2.43.0


From 7864ede4a9f140489247afb291eab78b6fb59dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 03/27] fix: evolve terminates when timesteps is 0

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index d696e89..5f72015 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -427,7 +427,7 @@ class _TimestepInputFunction:
         self._num_steps = num_steps
 
     def __call__(self, t, activities, network):
-        if t == self._num_steps:
+        if t >= self._num_steps:
             return None
         return "__timestep__"
 
-- 
2.43.0


From cd3650cf68fbe12d7c6c9471c9be6156c2b128e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 04/27] fix: do not freeze the neighbourhoods after nodes are
 added or removed when there is a topology rule

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 5f72015..e61c57b 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -205,7 +205,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
                                                            memoize, memo_table, neighbourhood_map, memoization_key)
             curr_network = evolve_topology(topology_rule, t, curr_activities, prev_network,
                                            trajectory, copy_network, persist_network, added_nodes, removed_nodes)
-            if added_nodes or removed_nodes:
+            if neighbourhood_map is not None and (added_nodes or removed_nodes):
                 # re-build the neighbourhood map, since the network has changed
                 neighbourhood_map = _get_neighbourhood_map(curr_network)
 
-- 
2.43.0


From 3ae92ab7b706a5e961e106d6db961f991916578d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:41 +0000
Subject: [PATCH 05/27] fix: nodes removed by the rule of another node, twice
 or under a perturbation leave the state and the network

---
 netomaton/evolution.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index e61c57b..c3f2f95 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -247,6 +247,9 @@ def evolve_activities(activity_rule, t, inp, curr_activities, prev_activities, t
                                                       activity_rule, past, perturbation, memoize, memoization_table,
                                                       neighbourhood_map, memoization_key)
 
+        for node_label in removed_nodes:
+            curr_activities.pop(node_label, None)
+
         if added_nodes:
             for state, outgoing_links, node_label in added_nodes:
                 curr_activities[node_label] = check_np(state)
@@ -285,7 +288,7 @@ def do_activity_rule(t, inp, curr_activities, prev_activities, network, activity
         if node_label not in ctx.removed_nodes:
             curr_activities[node_label] = new_activity
 
-        if perturbation is not None:
+        if perturbation is not None and node_label in curr_activities:
             pctx = PerturbationContext(node_label, curr_activities[node_label], t, node_in)
             curr_activities[node_label] = perturbation(pctx)
 
@@ -362,7 +365,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         network = network.copy()
 
         # adjust connectivity map according to node deletions and insertions
-        for node_label in removed_nodes:
+        for node_label in dict.fromkeys(removed_nodes):
             network.remove_node(node_label)
 
         for activity, outgoing_links, node_label in added_nodes:
-- 
2.43.0


From 8d477a841a2cf43f734b13f97d5e8999dbcd5cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:13 +0000
Subject: [PATCH 06/27] fix: past activities do not depend on the activities
 being persisted in the State

---
 netomaton/evolution.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index c3f2f95..47c0701 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -180,6 +180,9 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
     prev_activities = initial_conditions
     prev_network = network
 
+    # the most recent activities, by timestep, as far back as the past_conditions reach
+    recent_activities = {0: initial_conditions}
+
     memo_table = {}
     if memoize and memoization_key is None:
         memoization_key = _UnorderedMemoizationKey() if network.rotation_system is None else _OrderedMemoizationKey()
@@ -195,7 +198,7 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         if inp is None:
             break
 
-        past = _get_past_activities(past_conditions, trajectory, t)
+        past = _get_past_activities(past_conditions, recent_activities, t)
         curr_activities = {}
         trajectory[t] = State(compression=compression)
 
@@ -230,6 +233,9 @@ def evolve(network, initial_conditions=None, activity_rule=None, timesteps=None,
         prev_activities = curr_activities
         prev_network = curr_network
 
+        recent_activities[t] = curr_activities
+        recent_activities.pop(t - 1 - len(past_conditions or []), None)
+
         t += 1
 
     # since we require Python 3.6, and dicts respect insertion order, we don't sort the trajectory entries by key
@@ -386,13 +392,13 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
     return network
 
 
-def _get_past_activities(past_conditions, trajectory, t):
+def _get_past_activities(past_conditions, recent_activities, t):
     if past_conditions and len(past_conditions) > 0:
         past_activities = [None]*len(past_conditions)
         last_t = t - 1
         for i in range(len(past_conditions)-1, -1, -1):
 
-            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else trajectory[last_t-1].activities
+            curr_past_cond = past_conditions[last_t-1] if last_t < 1 else recent_activities[last_t-1]
             if not isinstance(curr_past_cond, dict) and isinstance(curr_past_cond, (list, np.ndarray)):
                 curr_past_cond = {i: v for i, v in enumerate(curr_past_cond)}
 
-- 
2.43.0


From ef7bb52edef78f485991dd36529dd5e4bb14bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:10 +0000
Subject: [PATCH 07/27] fix: AsynchronousRule keeps the given nodes when the
 update order is randomized each cycle

---
 netomaton/asynchronous_rule.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 2016ae7..264f571 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -24,17 +24,19 @@ class AsynchronousRule:
             raise Exception("either update_order or n must be specified")
         self._activity_rule = activity_rule
         if update_order is not None:
+            self._nodes = list(update_order)
             self._update_order = update_order
         else:
-            self._shuffle_update_order(n)
+            self._nodes = list(range(n))
+            self._shuffle_update_order()
         self._curr = 0
         self._num_applied = 0
         self._randomize_each_cycle = randomize_each_cycle
 
-    def _shuffle_update_order(self, n):
-        self._update_order = np.arange(n)
-        np.random.shuffle(self._update_order)
-        self._update_order = self._update_order.tolist()
+    def _shuffle_update_order(self):
+        indices = np.arange(len(self._nodes))
+        np.random.shuffle(indices)
+        self._update_order = [self._nodes[i] for i in indices]
 
     def __call__(self, ctx):
         if ctx.node_label in self._update_order:
@@ -53,4 +55,4 @@ class AsynchronousRule:
             self._curr = (self._curr + 1) % len(self._update_order)
             self._num_applied = 0
             if self._randomize_each_cycle:
-                self._shuffle_update_order(len(self._update_order))
+                self._shuffle_update_order()
-- 
2.43.0


From b83a9c339442bc67a334a784d490a73f33bc93c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:47 +0000
Subject: [PATCH 08/27] fix: average_mutual_information bounds the temporal
 distance by the number of time steps

---
 netomaton/analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index f8b2430..4f84561 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -105,7 +105,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
     else:
         activities = trajectory_or_activities
     num_cols = len(activities[0])
-    if not (0 < temporal_distance < num_cols):
+    if not (0 < temporal_distance < len(activities)):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-- 
2.43.0


From 200a6da5e73e2dcac539cb9a72230e93f2742a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:16 +0000
Subject: [PATCH 09/27] fix: average entropy and mutual information treat a
 state of several characters as one symbol

---
 netomaton/analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/analysis.py b/netomaton/analysis.py
index 4f84561..1a39fc0 100644
--- a/netomaton/analysis.py
+++ b/netomaton/analysis.py
@@ -40,7 +40,7 @@ def average_node_entropy(trajectory_or_activities):
     num_cols = len(activities[0])
     entropies = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(x) for x in [y[i] for y in activities]]
         entropy = shannon_entropy(node_states_over_time)
         entropies.append(entropy)
     return np.mean(entropies)
@@ -109,7 +109,7 @@ def average_mutual_information(trajectory_or_activities, temporal_distance=1):
         raise Exception("the temporal distance must be greater than 0 and less than the number of time steps")
     mutual_informations = []
     for i in range(0, num_cols):
-        node_states_over_time = ''.join([str(x) for x in [y[i] for y in activities]])
+        node_states_over_time = [str(x) for x in [y[i] for y in activities]]
         mi = mutual_information(node_states_over_time[:-temporal_distance], node_states_over_time[temporal_distance:])
         mutual_informations.append(mi)
     return np.mean(mutual_informations)
-- 
2.43.0


From 0540f8fc922ad505b89215b9764cd122f2e5cfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 10/27] fix: WolframPhysicsModel keeps the order of ten or more
 relations

---
 netomaton/wolfram_physics_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/wolfram_physics_model.py b/netomaton/wolfram_physics_model.py
index 36be62e..da1dbb8 100644
--- a/netomaton/wolfram_physics_model.py
+++ b/netomaton/wolfram_physics_model.py
@@ -70,7 +70,7 @@ class WolframPhysicsModel:
                 merged_hyperedges[edge_label] = tuple(merged)
 
         edges.update(merged_hyperedges)
-        config = [edges[label] for label in sorted(edges)]  # sort so that we can preserve the order of the relations
+        config = [edges[label] for label in sorted(edges, key=int)]  # sort so that we can preserve the order of the relations
 
         return config
 
-- 
2.43.0


From ae7d120cbf8e9af485c8b4fad3f702b894c77d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:45 +0000
Subject: [PATCH 11/27] fix: FungalGrowthModel uses a seed of zero

---
 netomaton/fungal_growth_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/fungal_growth_model.py b/netomaton/fungal_growth_model.py
index c1adeb7..5f7e1b9 100644
--- a/netomaton/fungal_growth_model.py
+++ b/netomaton/fungal_growth_model.py
@@ -29,7 +29,7 @@ class FungalGrowthModel:
         """
         self._R_E = R_E
         self._d = 4  # the maximum node degree allowable
-        if seed:
+        if seed is not None:
             np.random.seed(seed)
         self._verbose = verbose
 
-- 
2.43.0


From 906d9c536e8ae2adfde8b2c15e600a5d14c350d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:16 +0000
Subject: [PATCH 12/27] fix: lattice connects each node to itself when
 self_loops is True

---
 netomaton/topology/networks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 2410044..a78cf02 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -61,10 +61,13 @@ def lattice(dim, periodic=False, self_loops=False, first_label=0):
     G = nx.convert_node_labels_to_integers(G, first_label=first_label)
     network = ntm.Network()
     for edge in G.edges:
-        if edge[0] == edge[1] and not self_loops:
+        if edge[0] == edge[1]:
             continue
         network.add_edge(edge[1], edge[0])
         network.add_edge(edge[0], edge[1])
+    if self_loops:
+        for node in G.nodes:
+            network.add_edge(node, node)
     return network
 
 
-- 
2.43.0


From 70b5be335d3fe039719ede3428adc19bfbc96c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 13/27] fix: from_adjacency_matrix keeps nodes without
 connections

---
 netomaton/topology/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index a78cf02..dec6ba4 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -91,6 +91,9 @@ def from_adjacency_matrix(adj):
         for j, val in enumerate(row):
             if val != 0:
                 network.add_edge(i, j, weight=val)
+    # nodes without any connections are nodes of the network as well
+    for i in range(len(adj)):
+        network.add_node(i)
     return network
 
 
-- 
2.43.0


From 31c608461daf6554d118ff886a414d7fef5ce974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 14/27] fix: equality of networks does not depend on the order
 in which the edges were added

---
 netomaton/state.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 5a4723e..8724144 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -282,7 +282,11 @@ class Network:
         return len(self._network)
 
     def __eq__(self, other):
-        return self._network == other._network
+        # the outgoing connections mirror the incoming ones; their order only depends on when the edges were added
+        def comparable(network):
+            return {label: {key: value for key, value in node.items() if key != "outgoing"}
+                    for label, node in network.items()}
+        return comparable(self._network) == comparable(other._network)
 
 
 class State:
-- 
2.43.0


From 56eefa1d811955e41503a89519226803c4f89fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:40 +0000
Subject: [PATCH 15/27] fix: to_networkx keeps edge attributes named key

---
 netomaton/state.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 8724144..31057c9 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -210,7 +210,8 @@ class Network:
                     atts[key] = self._network[node][key]
             G.add_node(node, **atts)
         for i, j, data in self.edges:
-            G.add_edge(i, j, **data)
+            # the attributes are not given as keyword arguments, since one could be named like a parameter (e.g. key)
+            G.add_edges_from([(i, j, data)])
         return G
 
     def to_adjacency_matrix(self, nodelist=None, sum_multiedges=True, weight="weight"):
-- 
2.43.0


From 818d86cb846967813672cce1c8be1c106e48caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:06 +0000
Subject: [PATCH 16/27] fix: a State keeps empty activities and an empty
 network

---
 netomaton/state.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/netomaton/state.py b/netomaton/state.py
index 31057c9..dea0c60 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -308,22 +308,22 @@ class State:
 
     @property
     def activities(self):
-        if self._activities:
+        if self._activities is not None:
             return _Compressor.decompress(self._activities) if self._compression else self._activities
 
     @activities.setter
     def activities(self, a):
-        if a:
+        if a is not None:
             self._activities = _Compressor.compress(a) if self._compression else a
 
     @property
     def network(self):
-        if self._network:
+        if self._network is not None:
             return Network.decompress(self._network) if self._compression else self._network
 
     @network.setter
     def network(self, n):
-        if n:
+        if n is not None:
             self._network = n.compress() if self._compression else n
 
 
-- 
2.43.0


From 3cd2e32d5c8118240fa9ecebb3ab6d4f1527a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:58 +0000
Subject: [PATCH 17/27] fix: tape symbols that are None or sequences in
 HeadCentricTuringMachine

---
 netomaton/turing_machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/turing_machine.py b/netomaton/turing_machine.py
index 9d9e20d..b023b3b 100644
--- a/netomaton/turing_machine.py
+++ b/netomaton/turing_machine.py
@@ -119,7 +119,8 @@ class HeadCentricTuringMachine(TuringMachine):
         if self._halt:
             return None
 
-        return self._tape_history[-1][self._head_pos]
+        # the input of the single node; a list, since the symbol itself may be None or a sequence
+        return [self._tape_history[-1][self._head_pos]]
 
     def activities_for_plotting(self, trajectory):
         activities = get_activities_over_time_as_list(trajectory)
-- 
2.43.0


From 9dea695013bc8854b16278dcb66ef54158786ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:39 +0000
Subject: [PATCH 18/27] fix: plot1D accepts ylim as a 2-tuple

---
 netomaton/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index 89872ae..a19e222 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -299,7 +299,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
         if xlim:
             current_axis.set_xlim(xlim)
         if ylim:
-            current_axis.set_ylim(_get_item(ylim, i % 2))
+            current_axis.set_ylim(ylim[i % 2] if isinstance(ylim, list) else ylim)
         if legend:
             current_axis.legend(**legend)
 
-- 
2.43.0


From 3a67b6c329e8117ea8d4f3e80733a0dbdfc50cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:11 +0000
Subject: [PATCH 19/27] fix: plot1D keeps a label that is the number 0

---
 netomaton/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/utils.py b/netomaton/utils.py
index a19e222..faccb30 100644
--- a/netomaton/utils.py
+++ b/netomaton/utils.py
@@ -284,7 +284,7 @@ def plot1D(x, y, color=None, label=None, xlabel=None, ylabel=None, xlim=None, yl
     for i, y_series in enumerate(y):
         current_axis = axes[current_axis_idx % len(axes)]
         plot_args = {}
-        if label:
+        if label is not None:
             plot_args["label"] = _get_item(label, i)
         if color:
             plot_args["color"] = _get_item(color, i)
-- 
2.43.0


From e9f05cfa27c84c8d9e691a6deb73da5141eac98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:44 +0000
Subject: [PATCH 20/27] fix: animate_hex uses the given vmin and vmax

---
 netomaton/hexplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/hexplot.py b/netomaton/hexplot.py
index 3a54535..a3f8cd1 100644
--- a/netomaton/hexplot.py
+++ b/netomaton/hexplot.py
@@ -76,7 +76,7 @@ def animate_hex(trajectory, title='', shape=None, save=False, interval=50, color
                              orientation=np.radians(60), edgecolor=edgecolor)
         patches.append(hex)
 
-    p = PatchCollection(patches, match_original=True, cmap=m.get_cmap())
+    p = PatchCollection(patches, match_original=True, cmap=m.get_cmap(), norm=mpl.colors.Normalize(vmin=vmin, vmax=vmax))
     ax.add_collection(p)
 
     i = {'index': 0}
-- 
2.43.0


From aa2685d7a4ccd2c20625371589c79e22fb1a1f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:22 +0000
Subject: [PATCH 21/27] fix: the HTML view quotes node labels that are not
 numbers

---
 netomaton/vis/vis_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/netomaton/vis/vis_utils.py b/netomaton/vis/vis_utils.py
index fef9262..a3715a1 100644
--- a/netomaton/vis/vis_utils.py
+++ b/netomaton/vis/vis_utils.py
@@ -1,3 +1,5 @@
+import json
+import numbers
 import os
 import webbrowser
 import networkx as nx
@@ -39,9 +41,13 @@ def show_network(G, name="out.html", is_notebook=False):
     # TODO if we are in a notebook, then there are some extra steps to render the html
 
 
+def _to_js(label):
+    return str(label) if isinstance(label, numbers.Number) else json.dumps(str(label))
+
+
 def get_html(G):
 
-    nodes = "[" + ",".join(["{id: " + str(n) + ", label: " + str(n) + ", shape: \"dot\", size: 10}" for n in G.nodes]) + "]"
+    nodes = "[" + ",".join(["{id: " + _to_js(n) + ", label: " + _to_js(n) + ", shape: \"dot\", size: 10}" for n in G.nodes]) + "]"
 
     edges = []
     self_references = {}
@@ -52,7 +58,7 @@ def get_html(G):
                 self_references[(e[0], e[1])] = 0
             self_references[(e[0], e[1])] += 1
             self_reference = ", selfReferenceSize: %s" % (15 + self_references[(e[0], e[1])]*5)
-        edges.append("{from: %s, to: %s, arrows: \"to\", weight: 1%s}" % (str(e[0]), str(e[1]), self_reference))
+        edges.append("{from: %s, to: %s, arrows: \"to\", weight: 1%s}" % (_to_js(e[0]), _to_js(e[1]), self_reference))
     edges = "[" + ",".join(edges) + "]"
 
     ret = """<html><head>
-- 
2.43.0


From 2fd267415d82ac903989884bc2cbfba6428225c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:53 +0000
Subject: [PATCH 22/27] fix: a lattice of a single cell has that cell as its
 node

---
 netomaton/topology/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index dec6ba4..68caf5a 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -65,6 +65,9 @@ def lattice(dim, periodic=False, self_loops=False, first_label=0):
             continue
         network.add_edge(edge[1], edge[0])
         network.add_edge(edge[0], edge[1])
+    # a node without any neighbours is a node of the network as well
+    for node in G.nodes:
+        network.add_node(node)
     if self_loops:
         for node in G.nodes:
             network.add_edge(node, node)
-- 
2.43.0


From 22eea14baabfa1f4cf6b1f044e47b41ecfce85ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:20 +0000
Subject: [PATCH 23/27] fix: a bipartite network has the nodes of one set if
 the other is empty

---
 netomaton/topology/networks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/netomaton/topology/networks.py b/netomaton/topology/networks.py
index 68caf5a..e383324 100644
--- a/netomaton/topology/networks.py
+++ b/netomaton/topology/networks.py
@@ -151,6 +151,9 @@ def bipartite(set1, set2, edge_attributes=None):
             else:
                 attrs = edge_attributes[node1][node2]
                 network.add_edge_bidir(node1, node2, **attrs)
+    # if one of the sets is empty, the nodes of the other have no connections
+    for node in [*set1, *set2]:
+        network.add_node(node)
     return network
 
 
-- 
2.43.0


From 2e27de748e34bbbb26ce3de3a69be12f92940969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:48 +0000
Subject: [PATCH 24/27] fix: AsynchronousRule with an update order that has a
 node more than once updates one node per timestep

---
 netomaton/asynchronous_rule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netomaton/asynchronous_rule.py b/netomaton/asynchronous_rule.py
index 264f571..c2e91c9 100644
--- a/netomaton/asynchronous_rule.py
+++ b/netomaton/asynchronous_rule.py
@@ -51,7 +51,8 @@ class AsynchronousRule:
         return c == self._update_order[self._curr]
 
     def _check_for_end_of_cycle(self):
-        if self._num_applied == len(self._update_order):
+        # a node may be in the update order more than once
+        if self._num_applied == len(set(self._update_order)):
             self._curr = (self._curr + 1) % len(self._update_order)
             self._num_applied = 0
             if self._randomize_each_cycle:
-- 
2.43.0


From 82218ccf179ef3ce9fe5cb307de456e41ff9d2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:21 +0000
Subject: [PATCH 25/27] fix: the constants of a SubstitutionSystem are not
 added to the rules it was given

---
 netomaton/substitution_system.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/netomaton/substitution_system.py b/netomaton/substitution_system.py
index a561ae2..08f968e 100644
--- a/netomaton/substitution_system.py
+++ b/netomaton/substitution_system.py
@@ -4,10 +4,10 @@ from .state import Network
 
 class SubstitutionSystem:
     def __init__(self, axiom, rules, constants=None):
-        self._rules = rules
+        self._rules = dict(rules)
         self._constants = constants if constants else []
         self._rules.update({c: c for c in self._constants})
-        self._neighbourhood_size = self._get_neighbourhood_size(rules)
+        self._neighbourhood_size = self._get_neighbourhood_size(self._rules)
         self._initial_conditions = [s for s in axiom]
         self._dtype = type(self._initial_conditions[0])
         self._network = self._init_network(len(self._initial_conditions))
-- 
2.43.0


From d4cb19552d2a60ba6c4be787d487288d5ad7f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:19 +0000
Subject: [PATCH 26/27] fix: a topology rule may return a network without nodes

---
 netomaton/evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netomaton/evolution.py b/netomaton/evolution.py
index 47c0701..c943995 100644
--- a/netomaton/evolution.py
+++ b/netomaton/evolution.py
@@ -383,7 +383,7 @@ def evolve_topology(topology_rule, t, activities, prev_network, trajectory, copy
         if copy_network:
             network = network.copy()
         network = topology_rule(TopologyContext(network, activities, t))
-        if not network:
+        if network is None:
             raise Exception("topology rule must return a network")
 
     if persist_network:
-- 
2.43.0


From 77527307c0769ae88c0dd5e780361a6e44f0c570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:06 +0000
Subject: [PATCH 27/27] fix: comparing a Network with something else is not an
 error

---
 netomaton/state.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/netomaton/state.py b/netomaton/state.py
index dea0c60..dbd79aa 100644
--- a/netomaton/state.py
+++ b/netomaton/state.py
@@ -283,6 +283,8 @@ class Network:
         return len(self._network)
 
     def __eq__(self, other):
+        if not isinstance(other, Network):
+            return NotImplemented
         # the outgoing connections mirror the incoming ones; their order only depends on when the edges were added
         def comparable(network):
             return {label: {key: value for key, value in node.items() if key != "outgoing"}
-- 
2.43.0

