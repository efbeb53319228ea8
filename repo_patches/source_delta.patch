From 4dd9a086b98a87e791fedefd1599fec8f0ddb5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:40 +0000
Subject: [PATCH 01/32] fix: reset a demand's path_detail in update_simulation

A demand that became Unrouted kept the path_detail of the previous
simulation, although update_simulation carries no state forward.
---
 pyNTM/flex_model.py        | 1 +
 pyNTM/performance_model.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4a4160b..598d631 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -263,6 +263,7 @@ class FlexModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 62ec964..ee69b20 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -296,6 +296,7 @@ class PerformanceModel(_MasterModel):
 
         for demand in iter(self.demand_objects):
             demand.path = "Unrouted"
+            demand._path_detail = "Unrouted_detail"
 
         time_before_lsp_load = datetime.now()
         print("Routing the LSPs . . . ")
-- 
2.43.0


From cf3f5aa97ff96fdb0a45d6ce1f9a0bd582700a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 02/32] fix: route IGP traffic over interfaces that are not
 rsvp_enabled

rsvp_enabled only says whether an interface may carry RSVP LSPs, but the
reservable bandwidth of -1 that it implies also excluded the interface from
the IGP topology, from path queries and from circuit matching.
---
 pyNTM/flex_model.py        |  6 +++---
 pyNTM/master_model.py      | 13 +++++++++++++
 pyNTM/performance_model.py |  4 ++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 598d631..7afb940 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -983,14 +983,14 @@ class FlexModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and self._has_needed_bw(interface, needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if self._has_needed_bw(interface, needed_bw)
             )
 
         if rsvp_required is True:
@@ -1505,7 +1505,7 @@ class FlexModel(_MasterModel):
                 interface = [
                     interface
                     for interface in self.get_interface_object_from_nodes(hop, next_hop)
-                    if interface.reservable_bandwidth >= needed_bw
+                    if self._has_needed_bw(interface, needed_bw)
                 ]
 
                 model_path.append(interface)
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index d5d6875..51caa8b 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -462,6 +462,19 @@ class _MasterModel(object):
         else:
             return True
 
+    @staticmethod
+    def _has_needed_bw(interface, needed_bw):
+        """
+        Does interface have at least needed_bw of reservable bandwidth?  When no
+        bandwidth is needed, every interface qualifies, including the interfaces
+        that RSVP LSPs may not use (rsvp_enabled = False).
+
+        :param interface: Interface object
+        :param needed_bw: amount of reservable bandwidth required
+        :return: Boolean
+        """
+        return needed_bw == 0 or interface.reservable_bandwidth >= needed_bw
+
     @property
     def all_interface_circuit_ids(self):
         """
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index ee69b20..12ead56 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -530,14 +530,14 @@ class PerformanceModel(_MasterModel):
                 for interface in self.interface_objects
                 if (
                     interface.failed is False
-                    and interface.reservable_bandwidth >= needed_bw
+                    and self._has_needed_bw(interface, needed_bw)
                 )
             )
         elif include_failed_circuits is True:
             considered_interfaces = (
                 interface
                 for interface in self.interface_objects
-                if interface.reservable_bandwidth >= needed_bw
+                if self._has_needed_bw(interface, needed_bw)
             )
 
         if rsvp_required is True:
-- 
2.43.0


From 33566138faf15fc04900c5f02abdec907da4f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:29 +0000
Subject: [PATCH 03/32] fix: account for reserved bandwidth without
 accumulating rounding errors

Interfaces accumulated reservations through a getter that rounds to one
decimal while validate_model summed the rounded reservations, so valid models
(e.g. four parallel LSPs carrying 1.25 each) failed with int_res_bw_sum_error.
---
 pyNTM/flex_model.py        |  2 +-
 pyNTM/master_model.py      | 20 ++++++++++++--------
 pyNTM/performance_model.py |  2 +-
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 7afb940..1c0fcee 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1666,7 +1666,7 @@ class FlexModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def _make_weighted_network_graph_routed_lsp(self, lsp, needed_bw=0):
         """
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 51caa8b..73b7df4 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -145,9 +145,9 @@ class _MasterModel(object):
         for lsp in (lsp for lsp in self.rsvp_lsp_objects if "Unrouted" not in lsp.path):
             for interface in lsp.path["interfaces"]:
                 int_info[interface._key]["lsps"].append(lsp)
-                int_info[interface._key]["reserved_bandwidth"] += round(
-                    lsp.reserved_bandwidth, 1
-                )
+                int_info[interface._key][
+                    "reserved_bandwidth"
+                ] += lsp.reserved_bandwidth
         return int_info
 
     def _validate_circuit_interface_capacity(
@@ -198,9 +198,13 @@ class _MasterModel(object):
 
         if interface.reserved_bandwidth > interface.capacity:
             int_res_bw_too_high.add(interface)
-        if round(interface.reserved_bandwidth, 1) != round(
-            int_info[interface._key]["reserved_bandwidth"], 1
-        ):  # pragma: no cover  # noqa
+        # Compare the unrounded values; rounding each one first would make values
+        # that only differ by floating point error disagree
+        unaccounted_bw = (
+            interface._reserved_bandwidth
+            - int_info[interface._key]["reserved_bandwidth"]
+        )
+        if round(unaccounted_bw, 1) != 0:  # pragma: no cover  # noqa
             int_res_bw_sum_error.add(
                 (interface, interface.reserved_bandwidth, tuple(interface.lsps(self)))
             )
@@ -348,11 +352,11 @@ class _MasterModel(object):
             # prior path['interfaces'] list
             if lsp_res_bw_before != lsp.reserved_bandwidth:
                 for interface in lsp_path_interfaces_before:
-                    interface.reserved_bandwidth -= lsp_res_bw_before
+                    interface._reserved_bandwidth -= lsp_res_bw_before
                 # . . . and then remove the new reserved bandwidth from the
                 # new path interfaces
                 for interface in lsp.path["interfaces"]:
-                    interface.reserved_bandwidth += lsp.reserved_bandwidth
+                    interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def parallel_lsp_groups(self):
         """
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 12ead56..0adb0a9 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -467,7 +467,7 @@ class PerformanceModel(_MasterModel):
                 for interface in lsp.path["interfaces"]
                 if lsp.path != "Unrouted"
             ]:
-                interface.reserved_bandwidth += lsp.reserved_bandwidth
+                interface._reserved_bandwidth += lsp.reserved_bandwidth
 
     def _convert_graph_path_to_model_path(self, nx_sp):
         """
-- 
2.43.0


From ca60465d017a265eac608cedffaf34eeebe7fc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:54 +0000
Subject: [PATCH 04/32] fix: keep LSPs with a configured setup bandwidth at
 that bandwidth

The optimization of a partly routed parallel LSP group re-signaled LSPs with a
fixed configured_setup_bandwidth for an automatic bandwidth.
---
 pyNTM/master_model.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 73b7df4..8d2033d 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -337,6 +337,11 @@ class _MasterModel(object):
         # Determine if any of the LSPs can signal for the amount of
         # traffic they would carry (setup_bandwidth_optimized)
         for lsp in routed_lsps_in_group:
+            # An LSP with a fixed, configured setup bandwidth is not auto-bandwidth;
+            # it stays signaled for its configured value
+            if lsp.configured_setup_bandwidth is not None:
+                continue
+
             # traffic_in_demand_group will ECMP split over routed_lsps_in_group
             # For each lsp in routed_lsp_group, see if it can signal for
             # a 'setup_bandwidth_optimized' amount of setup_bandwidth
-- 
2.43.0


From a3b4d2ca2ed288113c34866f6a4435bf659adee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 05/32] fix: FlexModel path queries only use eligible parallel
 interfaces

get_shortest_path, get_all_paths_reservable_bw and
get_shortest_path_for_routed_lsp looked up all the interfaces between two
nodes, so paths held failed or more expensive parallel interfaces, and the
path of a re-signaled LSP could hold both parallel interfaces in sequence.
---
 pyNTM/flex_model.py | 120 ++++----------------------------------------
 1 file changed, 11 insertions(+), 109 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 1c0fcee..4dbef70 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1369,7 +1369,11 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_unique_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                # All the eligible interfaces in G for each hop
+                model_path = [
+                    [edge["interface"] for edge in G[hop][next_hop].values()]
+                    for hop, next_hop in zip(path, path[1:])
+                ]
                 converted_path["path"].append(model_path)
         except BaseException:
             return converted_path
@@ -1410,7 +1414,8 @@ class FlexModel(_MasterModel):
         # that have multiple links between nodes
         try:
             for path in multidigraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path(path, needed_bw)
+                # Only the eligible, lowest cost interface(s) in G for each hop
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1452,9 +1457,8 @@ class FlexModel(_MasterModel):
 
         try:
             for path in digraph_shortest_paths:
-                model_path = self._convert_nx_path_to_model_path_routed_lsp(
-                    path, needed_bw, lsp
-                )
+                # Only the eligible, lowest cost interface(s) in G for each hop
+                model_path = self._get_all_paths_mdg(G, [path])[0]
                 converted_path["path"].append(model_path)
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
@@ -1468,108 +1472,6 @@ class FlexModel(_MasterModel):
 
         return {"cost": converted_path["cost"], "path": path_info}
 
-    def _convert_nx_path_to_model_path(self, nx_graph_path, needed_bw):
-        """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
-
-        A networkx path is a list of nodes in order of transit.
-        ex: ['A', 'B', 'G', 'D', 'F']
-
-        The corresponding model style path would be::
-
-            [Interface(name = 'A-to-B', cost = 20, capacity = 125, node_object = Node('A'),
-                remote_node_object = Node('B'), circuit_id = 9),
-            Interface(name = 'B-to-G', cost = 10, capacity = 100, node_object = Node('B'),
-                remote_node_object = Node('G'), circuit_id = 6),
-            Interface(name = 'G-to-D', cost = 10, capacity = 100, node_object = Node('G'),
-                remote_node_object = Node('D'), circuit_id = 2),
-            Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
-                remote_node_object = Node('F'), circuit_id = 1)]
-
-        :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
-        :return: List of Model Interfaces from source to destination
-        """
-
-        # Define a model-style path to build
-        model_path = []
-
-        # look at each hop in the path
-        for hop in nx_graph_path:
-            current_hop_index = nx_graph_path.index(hop)
-            next_hop_index = current_hop_index + 1
-            if next_hop_index < len(nx_graph_path):
-                next_hop = nx_graph_path[next_hop_index]
-
-                interface = [
-                    interface
-                    for interface in self.get_interface_object_from_nodes(hop, next_hop)
-                    if self._has_needed_bw(interface, needed_bw)
-                ]
-
-                model_path.append(interface)
-
-        return model_path
-
-    def _convert_nx_path_to_model_path_routed_lsp(self, nx_graph_path, needed_bw, lsp):
-        """
-        Given a path from an networkx DiGraph, converts that
-        path to a Model style path and returns that Model style path
-
-        A networkx path is a list of nodes in order of transit.
-        ex: ['A', 'B', 'G', 'D', 'F']
-
-        Because a networkx path does not show the edges used, this def
-        examines the interface(s) from each hop to the next hop and adds them
-        to a hop_interface_list
-
-        The corresponding model style path could be::
-            [Interface(name = 'A-to-B', cost = 20, capacity = 125, node_object = Node('A'),
-                remote_node_object = Node('B'), circuit_id = 9),
-            Interface(name = 'B-to-G', cost = 10, capacity = 100, node_object = Node('B'),
-                remote_node_object = Node('G'), circuit_id = 6),
-            Interface(name = 'G-to-D', cost = 10, capacity = 100, node_object = Node('G'),
-                remote_node_object = Node('D'), circuit_id = 2),
-            Interface(name = 'D-to-F', cost = 10, capacity = 300, node_object = Node('D'),
-                remote_node_object = Node('F'), circuit_id = 1)]
-
-        :param nx_graph_path: list of node names
-        :param needed_bw: needed reservable bandwidth on the requested path
-        :param lsp: RSVP LSP object to be acted on
-        :return: List of Model Interfaces from source to destination
-        """
-
-        # Define a model-style path to build
-        model_path = []
-
-        # look at each hop in the path
-        for hop in nx_graph_path:
-            current_hop_index = nx_graph_path.index(hop)
-            next_hop_index = current_hop_index + 1
-            if next_hop_index < len(nx_graph_path):
-                next_hop = nx_graph_path[next_hop_index]
-                for interface in self.get_interface_object_from_nodes(hop, next_hop):
-                    # Look at all the interface(s) from (current) hop to next_hop; see if
-                    # any of those interfaces are in the current path for lsp; if they are,
-                    # see if any of them could handle the additional_needed_bandwidth for lsp
-                    hop_interface_list = []
-                    if interface in lsp.path["interfaces"] and (
-                        interface.reservable_bandwidth + lsp.reserved_bandwidth
-                        >= needed_bw
-                    ):
-                        hop_interface_list.append(interface)
-
-                    elif interface.reservable_bandwidth >= needed_bw:
-                        # If the interface is not in the current path but can
-                        # accommodate the needed_bw, then add that interface
-                        # to model_path
-                        hop_interface_list.append(interface)
-
-                    if hop_interface_list:
-                        model_path.append(hop_interface_list)
-        return model_path
-
     def _determine_lsp_state_info(self, lsps, traff_on_each_group_lsp):
         """
         Determine LSP's specific path and reserved bandwidth; also consume
@@ -1712,7 +1614,7 @@ class FlexModel(_MasterModel):
             (
                 interface.node_object.name,
                 interface.remote_node_object.name,
-                interface.cost,
+                {"cost": interface.cost, "interface": interface},
             )
             for interface in eligible_interfaces
         )
@@ -1722,7 +1624,7 @@ class FlexModel(_MasterModel):
         G = nx.MultiDiGraph()
 
         # Add edges to networkx MultiDiGraph
-        G.add_weighted_edges_from(edge_names, weight="cost")
+        G.add_edges_from(edge_names)
 
         # Add all the nodes
         node_name_iterator = (node.name for node in self.node_objects)
-- 
2.43.0


From 83277a104230d9b42263ee0d0f5d91378944548f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:50 +0000
Subject: [PATCH 06/32] fix: path queries only treat a missing path as an empty
 result

They caught BaseException, so a KeyboardInterrupt or MemoryError during the
query was swallowed and the paths found so far returned as the full answer.
---
 pyNTM/flex_model.py        | 6 +++---
 pyNTM/performance_model.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4dbef70..89a25f2 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1375,7 +1375,7 @@ class FlexModel(_MasterModel):
                     for hop, next_hop in zip(path, path[1:])
                 ]
                 converted_path["path"].append(model_path)
-        except BaseException:
+        except (nx.NetworkXNoPath, nx.NodeNotFound):
             return converted_path
 
         # Normalize the path info to get all combinations of with parallel
@@ -1420,7 +1420,7 @@ class FlexModel(_MasterModel):
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
                 )
-        except BaseException:
+        except (nx.NetworkXNoPath, nx.NodeNotFound):
             return converted_path
 
         # Normalize the path info to get all combinations of with parallel
@@ -1463,7 +1463,7 @@ class FlexModel(_MasterModel):
                 converted_path["cost"] = nx.shortest_path_length(
                     G, source_node_name, dest_node_name, weight="cost"
                 )
-        except BaseException:
+        except (nx.NetworkXNoPath, nx.NodeNotFound):
             return converted_path
 
         # Normalize the path info to get all combinations of with parallel
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 0adb0a9..0a5e455 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -789,7 +789,7 @@ class PerformanceModel(_MasterModel):
                 model_path = self._convert_nx_path_to_model_path(path)
                 converted_path["path"].append(model_path)
             return converted_path
-        except BaseException:
+        except (nx.NetworkXNoPath, nx.NodeNotFound):
             return converted_path
 
     def get_shortest_path(self, source_node_name, dest_node_name, needed_bw=0):
@@ -828,7 +828,7 @@ class PerformanceModel(_MasterModel):
                 )
 
             return converted_path
-        except BaseException:
+        except (nx.NetworkXNoPath, nx.NodeNotFound):
             return converted_path
 
     def get_shortest_path_for_routed_lsp(
@@ -876,7 +876,7 @@ class PerformanceModel(_MasterModel):
                     G, source_node_name, dest_node_name, weight="cost"
                 )
             return converted_path
-        except BaseException:
+        except (nx.NetworkXNoPath, nx.NodeNotFound):
             return converted_path
 
     def _convert_nx_path_to_model_path(self, nx_graph_path):
-- 
2.43.0


From d82a7017d9f8eee4fac8d8251ec2c350971db8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 07/32] fix: do not share default object sets between models

Models created without explicit interface/node/demand/LSP sets all used the
same mutable default arguments, so a change to one showed up in the others.
---
 pyNTM/flex_model.py        | 16 ++++++++--------
 pyNTM/master_model.py      | 17 +++++++++--------
 pyNTM/performance_model.py | 16 ++++++++--------
 3 files changed, 25 insertions(+), 24 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 89a25f2..2e30742 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -66,10 +66,10 @@ class FlexModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1945,10 +1945,10 @@ class Parallel_Link_Model(FlexModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 8d2033d..3b7389d 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -28,16 +28,17 @@ class _MasterModel(object):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
-        self.interface_objects = interface_objects
-        self.node_objects = node_objects
-        self.demand_objects = demand_objects
+        # A default must be a new set for each model, not one that all models share
+        self.interface_objects = set() if interface_objects is None else interface_objects
+        self.node_objects = set() if node_objects is None else node_objects
+        self.demand_objects = set() if demand_objects is None else demand_objects
         self.circuit_objects = set()
-        self.rsvp_lsp_objects = rsvp_lsp_objects
+        self.rsvp_lsp_objects = set() if rsvp_lsp_objects is None else rsvp_lsp_objects
         self.srlg_objects = set()
         self._parallel_lsp_groups = {}
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 0a5e455..b441060 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -70,10 +70,10 @@ class PerformanceModel(_MasterModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
@@ -1557,10 +1557,10 @@ class Model(PerformanceModel):
 
     def __init__(
         self,
-        interface_objects=set(),
-        node_objects=set(),
-        demand_objects=set(),
-        rsvp_lsp_objects=set(),
+        interface_objects=None,
+        node_objects=None,
+        demand_objects=None,
+        rsvp_lsp_objects=None,
     ):
         self.interface_objects = interface_objects
         self.node_objects = node_objects
-- 
2.43.0


From be185c5f713be9597a42e0dd5f1e821108a43540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 08/32] fix: unfail_node leaves out interfaces held down by a
 failed SRLG

It raised a ModelException at the first such interface, which left the node's
remaining interfaces failed depending on iteration order.
---
 pyNTM/master_model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index 3b7389d..f5ea38f 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -840,8 +840,11 @@ class _MasterModel(object):
 
         for interface in ints_to_unfail_iterator:
 
-            # Unfail the interfaces if the remote node is not failed
-            if not interface.remote_node_object.failed:
+            # Unfail the interfaces if the remote node is not failed and the
+            # interface is not a member of an SRLG that is still failed
+            if not interface.remote_node_object.failed and not any(
+                srlg.failed for srlg in interface.srlgs
+            ):
                 # Unfail the specific interface
                 self.unfail_interface(interface.name, node_name, False)
 
-- 
2.43.0


From d0b28859657d27f272a7409f46c8d50c281baec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:45 +0000
Subject: [PATCH 09/32] fix: Interface.remove_from_srlg unfails both ends of
 the circuit

Only the interface it was called on came back, so the circuit was half failed.
---
 pyNTM/interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 8254124..49eaa38 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -428,3 +428,4 @@ remote_node_object = %r, circuit_id = %r)" % (
             remote_int._srlgs.remove(get_srlg)
 
         self.failed = False
+        remote_int.failed = False
-- 
2.43.0


From 062885176d62822e130918946ac956104b602761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:04 +0000
Subject: [PATCH 10/32] fix: keep reservations consistent when an interface
 fails or unfails

Zeroing an interface's reserved bandwidth outside of update_simulation made it
disagree with the LSPs still routed over it, so validate_model (called by
unfail_interface, unfail_node, add_demand, ...) rejected a valid model after an
interface that carries LSPs failed, and unfail_srlg silently stopped half way.
update_simulation resets all reservations.
---
 pyNTM/interface.py    | 3 ---
 pyNTM/master_model.py | 2 --
 2 files changed, 5 deletions(-)

diff --git a/pyNTM/interface.py b/pyNTM/interface.py
index 49eaa38..ed55754 100644
--- a/pyNTM/interface.py
+++ b/pyNTM/interface.py
@@ -158,7 +158,6 @@ remote_node_object = %r, circuit_id = %r)" % (
 
             if len(failed_srlgs) > 0:
                 self._failed = True
-                self.reserved_bandwidth = 0
                 raise ModelException(
                     "Interface must be failed since it is a member "
                     "of one or more SRLGs that are failed"
@@ -173,11 +172,9 @@ remote_node_object = %r, circuit_id = %r)" % (
 
             else:
                 self._failed = True
-                self.reserved_bandwidth = 0
 
         else:
             self._failed = True
-            self.reserved_bandwidth = 0
 
     @property
     def cost(self):
diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index f5ea38f..db07a01 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -780,9 +780,7 @@ class _MasterModel(object):
         ):
 
             remote_interface.failed = False
-            remote_interface.reserved_bandwidth = 0
             interface_object.failed = False
-            interface_object.reserved_bandwidth = 0
             self.validate_model()
         else:
             if raise_exception:
-- 
2.43.0


From 88b5455de92990b229b155bf405f91a27ca10313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 11/32] fix: validate_model reports duplicate interface names
 on a node

The check tested the truth value of the error message, which is always true,
so duplicate names on one node were never reported.
---
 pyNTM/flex_model.py        |  4 ++--
 pyNTM/performance_model.py | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 2e30742..f90a7c8 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -157,8 +157,8 @@ class FlexModel(_MasterModel):
         unique_interfaces_per_node = self._unique_interface_per_node()
 
         # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
+        if unique_interfaces_per_node is not True:  # pragma: no cover
+            error_data.append({"duplicate_interface_names": unique_interfaces_per_node})
 
         # Make validate_model() check for matching failed statuses
         # on the interfaces and matching interface capacity
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index b441060..02c4118 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -161,13 +161,6 @@ class PerformanceModel(_MasterModel):
         if int_res_bw_sum_error:  # pragma: no cover
             error_data.append({"int_res_bw_sum_error": int_res_bw_sum_error})
 
-        # Validate there are no duplicate interfaces
-        unique_interfaces_per_node = self._unique_interface_per_node()
-
-        # Log any duplicate interfaces on a node
-        if not unique_interfaces_per_node:  # pragma: no cover
-            error_data.append(unique_interfaces_per_node)
-
         # Log any Nodes with IGP shortcuts enabled
         igp_shortcut_nodes = [
             node for node in self.node_objects if node.igp_shortcuts_enabled is True
@@ -199,6 +192,13 @@ class PerformanceModel(_MasterModel):
 
             error_data.append(multiple_links_between_nodes)
 
+        # Validate there are no duplicate interfaces
+        unique_interfaces_per_node = self._unique_interface_per_node()
+
+        # Log any duplicate interfaces on a node
+        if unique_interfaces_per_node is not True:  # pragma: no cover
+            error_data.append({"duplicate_interface_names": unique_interfaces_per_node})
+
         srlg_errors = self.validate_srlg_nodes()
 
         if len(srlg_errors) > 0:
-- 
2.43.0


From a9b0ac65b31ef6732d3c1c3330f133edfbcd07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:58 +0000
Subject: [PATCH 12/32] fix: traffic_on_lsp returns 0 for an LSP that is not
 routed

It raised a ValueError when none of the parallel LSPs was routed.
---
 pyNTM/rsvp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 3a6af30..86ab961 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -275,6 +275,10 @@ class RSVP_LSP(object):
         :return: Units of traffic on the LSP
         """
 
+        # An LSP that is not routed carries no traffic
+        if "Unrouted" in self.path:
+            return 0
+
         # Find all LSPs with same source and dest as self
         parallel_lsp_groups = model.parallel_lsp_groups()
 
-- 
2.43.0


From 4387cc4a2cabd7a28fb94bea818fc2cfdefa49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 13/32] fix: setting an LSP's manual_metric overrides its
 configured metric

The setter ignored the new value (including -1, not set) as long as the
configured_manual_metric had not been read once.
---
 pyNTM/rsvp.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 86ab961..44b6482 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -169,14 +169,7 @@ class RSVP_LSP(object):
 
     @manual_metric.setter
     def manual_metric(self, value):
-        if self.initial_manual_metric:
-            if (
-                isinstance(self.initial_manual_metric, int)
-                and self.initial_manual_metric > 0
-            ):
-                self._manual_metric = self.initial_manual_metric
-                self.initial_manual_metric = None
-        elif isinstance(value, int) and value > 0:
+        if isinstance(value, int) and value > 0:
             self.initial_manual_metric = None
             self._manual_metric = value
         elif value == -1:
-- 
2.43.0


From 3afdf40176ff89e55e976b9039d26797c3690577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 14/32] fix: concurrent reads of an LSP's manual_metric

Two threads reading the metric of an LSP with a configured_manual_metric could
leave it at None or raise, since the value was read several times while the
other reader cleared it.
---
 pyNTM/rsvp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyNTM/rsvp.py b/pyNTM/rsvp.py
index 44b6482..c19d67e 100644
--- a/pyNTM/rsvp.py
+++ b/pyNTM/rsvp.py
@@ -150,12 +150,12 @@ class RSVP_LSP(object):
 
         """
 
-        if self.initial_manual_metric:
-            if (
-                isinstance(self.initial_manual_metric, int)
-                and self.initial_manual_metric > 0
-            ):
-                self._manual_metric = self.initial_manual_metric
+        # Read initial_manual_metric once; another thread may clear it meanwhile
+        initial_manual_metric = self.initial_manual_metric
+
+        if initial_manual_metric:
+            if isinstance(initial_manual_metric, int) and initial_manual_metric > 0:
+                self._manual_metric = initial_manual_metric
                 self.initial_manual_metric = None
             else:
                 msg = (
-- 
2.43.0


From 7099d639aeb3c42fd10305c4dceab68e7f54ced3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:45 +0000
Subject: [PATCH 15/32] fix: PerformanceModel.add_circuit before the first
 update_simulation

Interfaces not yet matched into circuits have no circuit_id, which made the
choice of the next circuit_id fail with a TypeError.
---
 pyNTM/performance_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 02c4118..6855141 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -691,7 +691,8 @@ class PerformanceModel(_MasterModel):
         """
 
         if circuit_id is None:
-            circuit_ids = self.all_interface_circuit_ids
+            # Interfaces not yet matched into a circuit have no circuit_id
+            circuit_ids = self.all_interface_circuit_ids - {None}
             circuit_id = 1 if len(circuit_ids) == 0 else max(circuit_ids) + 1
         int_a = Interface(
             node_a_interface_name,
-- 
2.43.0


From 82a2a8e26949c616f9bce9b6f93da5465816d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:55 +0000
Subject: [PATCH 16/32] fix: add_circuit honors its failed argument and failed
 nodes

The argument was ignored and a circuit added to a failed node was up.
---
 pyNTM/flex_model.py        | 4 ++++
 pyNTM/performance_model.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index f90a7c8..4d4b2e9 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -1301,6 +1301,10 @@ class FlexModel(_MasterModel):
                 "interface already exists in model".format(int_b, node_b_object)
             )
 
+        # A circuit to a failed node is failed regardless of the failed argument
+        int_a.failed = failed
+        int_b.failed = failed
+
         self.interface_objects.add(int_a)
         self.interface_objects.add(int_b)
 
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 6855141..bfa7cdb 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -726,6 +726,10 @@ class PerformanceModel(_MasterModel):
                 )
             )
 
+        # A circuit to a failed node is failed regardless of the failed argument
+        int_a.failed = failed
+        int_b.failed = failed
+
         self.interface_objects.add(int_a)
         self.interface_objects.add(int_b)
 
-- 
2.43.0


From 71f88ceb92add0fce2165e2db21ac7d24e617eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 17/32] fix: a rejected add_circuit or
 add_network_interfaces_from_list leaves no residue

The interfaces that made validation fail stayed in the model, so every later
update_simulation failed as well.
---
 pyNTM/flex_model.py        | 27 +++++++++++++++++++++------
 pyNTM/performance_model.py | 27 +++++++++++++++++++++------
 2 files changed, 42 insertions(+), 12 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 4d4b2e9..0a97175 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -114,9 +114,17 @@ class FlexModel(_MasterModel):
         new_interface_objects, new_node_objects = self._make_network_interfaces(
             network_interfaces
         )
+        previous_objects = (self.node_objects, self.interface_objects)
         self.node_objects = self.node_objects.union(new_node_objects)
         self.interface_objects = self.interface_objects.union(new_interface_objects)
-        self.validate_model()
+
+        try:
+            self.validate_model()
+        except ModelException:
+            # Leave the model as it was before the rejected interfaces
+            self.node_objects, self.interface_objects = previous_objects
+            self._make_circuits_multidigraph(return_exception=False)
+            raise
 
     def validate_model(self):
         """
@@ -1301,14 +1309,21 @@ class FlexModel(_MasterModel):
                 "interface already exists in model".format(int_b, node_b_object)
             )
 
-        # A circuit to a failed node is failed regardless of the failed argument
-        int_a.failed = failed
-        int_b.failed = failed
-
         self.interface_objects.add(int_a)
         self.interface_objects.add(int_b)
 
-        self.validate_model()
+        try:
+            self.validate_model()
+        except ModelException:
+            # Leave the model as it was before the rejected circuit
+            self.interface_objects.discard(int_a)
+            self.interface_objects.discard(int_b)
+            self._make_circuits_multidigraph(return_exception=False)
+            raise
+
+        # A circuit to a failed node is failed regardless of the failed argument
+        int_a.failed = failed
+        int_b.failed = failed
 
     def get_all_paths_reservable_bw(
         self,
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index bfa7cdb..2a812c8 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -122,9 +122,17 @@ class PerformanceModel(_MasterModel):
         new_interface_objects, new_node_objects = self._make_network_interfaces(
             network_interfaces
         )
+        previous_objects = (self.node_objects, self.interface_objects)
         self.node_objects = self.node_objects.union(new_node_objects)
         self.interface_objects = self.interface_objects.union(new_interface_objects)
-        self.validate_model()
+
+        try:
+            self.validate_model()
+        except ModelException:
+            # Leave the model as it was before the rejected interfaces
+            self.node_objects, self.interface_objects = previous_objects
+            self._make_circuits(return_exception=False)
+            raise
 
     def validate_model(self):
         """
@@ -726,14 +734,21 @@ class PerformanceModel(_MasterModel):
                 )
             )
 
-        # A circuit to a failed node is failed regardless of the failed argument
-        int_a.failed = failed
-        int_b.failed = failed
-
         self.interface_objects.add(int_a)
         self.interface_objects.add(int_b)
 
-        self.validate_model()
+        try:
+            self.validate_model()
+        except ModelException:
+            # Leave the model as it was before the rejected circuit
+            self.interface_objects.discard(int_a)
+            self.interface_objects.discard(int_b)
+            self._make_circuits(return_exception=False)
+            raise
+
+        # A circuit to a failed node is failed regardless of the failed argument
+        int_a.failed = failed
+        int_b.failed = failed
 
     def get_all_paths_reservable_bw(
         self,
-- 
2.43.0


From dccc88ea561e4ddff34cc6ad59946bb99e630cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 18/32] fix: interfaces added from a list refer to the model's
 own Node objects

Each one got new Node objects, so later changes to the model's nodes (failed,
igp_shortcuts_enabled, SRLGs) were not seen through those interfaces.
---
 pyNTM/master_model.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index db07a01..ae57d42 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -1219,23 +1219,25 @@ class _MasterModel(object):
         network_interface_objects = set([])
         network_node_objects = set([])
 
+        # Interfaces must refer to the Node objects that are in the model
+        nodes_by_name = {node.name: node for node in self.node_objects}
+
         # Create the Interface objects
         for interface in interface_info_list:
+            # Check to see if the Interface's Node already exists, if not, add it
+            for node_name in (interface["node"], interface["remote_node"]):
+                if node_name not in nodes_by_name:
+                    nodes_by_name[node_name] = Node(node_name)
+                    network_node_objects.add(nodes_by_name[node_name])
+
             intf = Interface(
                 interface["name"],
                 interface["cost"],
                 interface["capacity"],
-                Node(interface["node"]),
-                Node(interface["remote_node"]),
+                nodes_by_name[interface["node"]],
+                nodes_by_name[interface["remote_node"]],
                 interface["circuit_id"],
             )
             network_interface_objects.add(intf)
 
-            # Check to see if the Interface's Node already exists, if not, add it
-            node_names = [node.name for node in self.node_objects]
-            if interface["node"] not in node_names:
-                network_node_objects.add(Node(interface["node"]))
-            if interface["remote_node"] not in node_names:
-                network_node_objects.add(Node(interface["remote_node"]))
-
         return (network_interface_objects, network_node_objects)
-- 
2.43.0


From c56af4a644cc6bb4bacfb97839cfdd09d76e6167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:29 +0000
Subject: [PATCH 19/32] fix: add_network_interfaces_from_list honors 'failed'
 and failed nodes

The documented 'failed' key was ignored and an interface added to a failed
node was up.
---
 pyNTM/flex_model.py        | 6 ++++++
 pyNTM/performance_model.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 0a97175..cbca903 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -126,6 +126,12 @@ class FlexModel(_MasterModel):
             self._make_circuits_multidigraph(return_exception=False)
             raise
 
+        # An interface facing a failed node is failed, whatever its info says
+        for info in network_interfaces:
+            interface = self.get_interface_object(info["name"], info["node"])
+            if interface not in previous_objects[1]:
+                interface.failed = info.get("failed", False)
+
     def validate_model(self):
         """
         Validates that data fed into the model creates a valid network model
diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 2a812c8..13fb18a 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -134,6 +134,12 @@ class PerformanceModel(_MasterModel):
             self._make_circuits(return_exception=False)
             raise
 
+        # An interface facing a failed node is failed, whatever its info says
+        for info in network_interfaces:
+            interface = self.get_interface_object(info["name"], info["node"])
+            if interface not in previous_objects[1]:
+                interface.failed = info.get("failed", False)
+
     def validate_model(self):
         """
         Validates that data fed into the model creates a valid network model
-- 
2.43.0


From 9a4fd5665eda4287cdf70f8812230dfba4e81774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 20/32] fix: IGP shortcuts on every ECMP path, not only on the
 last one examined

Only the LSPs found for the last node path were substituted into the paths, so
which shortcuts a demand used depended on the iteration order of the paths.
---
 pyNTM/flex_model.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index cbca903..17b9f57 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -427,11 +427,15 @@ class FlexModel(_MasterModel):
         of the any applicable Interfaces
         """
 
+        # LSPs to substitute into each path, by the path's node names
+        lsps_by_node_path = {}
+
         # Substitute IGP enabled LSPs for Interfaces in paths
         for node_path in node_paths:
             # Find Nodes along the path that have igp_shortcuts_enabled and have
             # LSPs to downstream Nodes in the path
             path_lsps = []  # List of LSPs to substitute into path
+            lsps_by_node_path[tuple(node_path)] = path_lsps
             next_node_to_check = []  # Next node name in path to check for LSPs
 
             for node_name in node_path:
@@ -485,21 +489,21 @@ class FlexModel(_MasterModel):
                             next_node_to_check.append(lsp_end_node)
                             break
 
-        # Now that path_lsps is known, substitute those into path
+        # Now that each path's LSPs are known, substitute those into the path
         finalized_paths = []
-        if len(path_lsps) > 0:
-            for interface_path in paths:
-                finalized_path = self._insert_lsps_into_path(path_lsps, interface_path)
-                if finalized_path != -1:
-                    for path in finalized_path:
-                        # finalized_path may be a list of lists, so add each component path
-                        if path not in finalized_paths:
-                            finalized_paths.append(path)
-                else:
-                    finalized_paths.append(interface_path)
-        else:
-            # No LSPs available for shortcuts
-            finalized_paths = paths
+        for interface_path in paths:
+            node_path = [interface.node_object.name for interface in interface_path]
+            node_path.append(interface_path[-1].remote_node_object.name)
+            path_lsps = lsps_by_node_path[tuple(node_path)]
+
+            finalized_path = self._insert_lsps_into_path(path_lsps, interface_path)
+            if finalized_path != -1:
+                for path in finalized_path:
+                    # finalized_path may be a list of lists, so add each component path
+                    if path not in finalized_paths:
+                        finalized_paths.append(path)
+            else:
+                finalized_paths.append(interface_path)
 
         return finalized_paths
 
-- 
2.43.0


From 434434e7dc7db48f2580ab0a1196d678df554970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:19 +0000
Subject: [PATCH 21/32] fix: FlexModel splits a demand's traffic only among the
 paths that share a point

With IGP shortcuts the number of next hops in use at a node depends on how the
traffic got there; dividing by every next hop any path uses at that node lost
part of the demand's traffic.
---
 pyNTM/flex_model.py | 85 ++++++++++++++-------------------------------
 1 file changed, 26 insertions(+), 59 deletions(-)

diff --git a/pyNTM/flex_model.py b/pyNTM/flex_model.py
index 17b9f57..d31a973 100644
--- a/pyNTM/flex_model.py
+++ b/pyNTM/flex_model.py
@@ -685,7 +685,7 @@ class FlexModel(_MasterModel):
         # shortest_path_int_set = set(shortest_path_int_list)
         shortest_path_item_set = set(shortest_path_item_list)
 
-        unique_next_hops = self._find_unique_next_hops(shortest_path_item_set)
+        unique_next_items = self._find_unique_next_items(demand.path)
 
         # shortest_path_info will be a dict with the following info for each path:
         # - an ordered list of interfaces in the path
@@ -729,18 +729,12 @@ class FlexModel(_MasterModel):
             # Create cumulative path splits for each item in the path
             total_splits = 1
 
-            # Normalize any paths with LSPs
-            for item in path:
+            for position, item in enumerate(path):
                 # Update the total cumulative splits in the path before
                 # traffic reaches the item in the path
-                if isinstance(item, Interface):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.node_object.name]
-                    )
-                elif isinstance(item, RSVP_LSP):
-                    total_splits = total_splits * len(
-                        unique_next_hops[item.source_node_object.name]
-                    )
+                total_splits = total_splits * len(
+                    unique_next_items[tuple(path[:position])]
+                )
 
                 traffic_splits_per_interface[item] = total_splits
 
@@ -771,61 +765,34 @@ class FlexModel(_MasterModel):
 
         return traff_per_int
 
-    def _find_unique_next_hops(self, shortest_path_item_set):
+    def _find_unique_next_items(self, paths):
         """
-        From a set of items from all the shortest paths, determine how many unique
-        next hops there are from a given node.
+        From all of a demand's paths, determine the unique items (Interfaces, RSVP_LSPs)
+        that traffic can take next after each leading part of the paths.
 
-        :param shortest_path_item_set: a set of items (Interfaces, RSVP_LSPs) from all
-        the shortest paths
+        Traffic that arrives at a given node over different leading items can have
+        different next items: an IGP shortcut can replace some of the node's next hops
+        for the traffic that enters the LSP further upstream.  The split at each point
+        of a path is therefore among the paths that lead to that point.
 
-        :return: a dict with keys for each Node name and values being a list of each unique
-        next hop from that Node
+        :param paths: list of lists; each component list is a path, holding
+        Interfaces and/or RSVP_LSPs
 
-        In the example output below, Node B has 2 unique next hops, buth of which are RSVP LSPs
+        :return: a dict with tuples of the leading items of a path as keys and sets of the
+        unique next items as values
 
-        Example output::
+        Example output, where traffic from A first splits over two Interfaces, and then
+        the traffic that arrives over interface A-B splits over 2 RSVP LSPs::
 
-            {'A': [Interface(name = 'A-G', cost = 25, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('G'), circuit_id = '6'),
-                   Interface(name = 'A-B', cost = 10, capacity = 100, node_object = Node('A'),
-                   remote_node_object = Node('B'), circuit_id = '1')],
-             'B': [RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_1'),
-                   RSVP_LSP(source = B, dest = D, lsp_name = 'lsp_b_d_2')],
-             'D': [RSVP_LSP(source = D, dest = F, lsp_name = 'lsp_d_f_1')],
-             'G': [Interface(name = 'G-F', cost = 25, capacity = 100, node_object = Node('G'),
-                   remote_node_object = Node('F'), circuit_id = '7')]}
+            {(): {Interface A-B, Interface A-G},
+             (Interface A-B,): {RSVP_LSP lsp_b_d_1, RSVP_LSP lsp_b_d_2},
+             (Interface A-G,): {Interface G-D}}
         """
-        # Dict to store how many unique next hops each node has in the shortest paths
-        unique_next_hops = {}
-        # Iterate through all the items
-        for item in shortest_path_item_set:
-            if isinstance(item, Interface):
-                unique_next_hops[item.node_object.name] = []
-                # For a given Interface's node_object, determine how many
-                # Interfaces on that Node are facing next hops
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.node_object.name
-                    ):
-                        unique_next_hops[item.node_object.name].append(hop)
-            elif isinstance(item, RSVP_LSP):
-                unique_next_hops[item.source_node_object.name] = []
-                # For an LSP's source_node_object,
-                for hop in shortest_path_item_set:
-                    if (
-                        isinstance(hop, Interface)
-                        and hop.node_object.name == item.source_node_object.name
-                        or not isinstance(hop, Interface)
-                        and isinstance(hop, RSVP_LSP)
-                        and hop.source_node_object.name == item.source_node_object.name
-                    ):
-                        unique_next_hops[item.source_node_object.name].append(hop)
-        return unique_next_hops
+        unique_next_items = {}
+        for path in paths:
+            for position, item in enumerate(path):
+                unique_next_items.setdefault(tuple(path[:position]), set()).add(item)
+        return unique_next_items
 
     def _insert_lsps_into_path(self, path_lsps, path):
         """
-- 
2.43.0


From a2fb1961f3f30baae07f33d7cc81214e19f634a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:19 +0000
Subject: [PATCH 22/32] fix: node names with hyphens do not look like parallel
 links

PerformanceModel rejected networks such as a--b-c with a-b--c, whose
'node-remote' strings coincide.
---
 pyNTM/performance_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyNTM/performance_model.py b/pyNTM/performance_model.py
index 13fb18a..794d001 100644
--- a/pyNTM/performance_model.py
+++ b/pyNTM/performance_model.py
@@ -1550,7 +1550,7 @@ class PerformanceModel(_MasterModel):
         """
 
         connected_nodes_list = [
-            (interface.node_object.name + "-" + interface.remote_node_object.name)
+            (interface.node_object.name, interface.remote_node_object.name)
             for interface in self.interface_objects
         ]
 
@@ -1560,7 +1560,7 @@ class PerformanceModel(_MasterModel):
         # parallel links, sort it, and return the list
         if len(connected_nodes_list) != len(connected_nodes_set):
             parallel_links = [
-                connection
+                "-".join(connection)
                 for connection in connected_nodes_list
                 if connected_nodes_list.count(connection) > 1
             ]
-- 
2.43.0


From b59ac5407e5a76d9521d00059ff61721def12e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:22 +0000
Subject: [PATCH 23/32] fix: validation tolerates the rounding that LSPs are
 admitted with

---
 pyNTM/master_model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index ae57d42..c9bf6d8 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -197,7 +197,10 @@ class _MasterModel(object):
         :return: None
         """
 
-        if interface.reserved_bandwidth > interface.capacity:
+        # LSPs signal for the interface's reservable_bandwidth, which is rounded to one
+        # decimal place, so what they reserve can exceed the capacity by that much
+        excess_bw = interface._reserved_bandwidth - interface.capacity
+        if round(excess_bw, 1) > 0.1:
             int_res_bw_too_high.add(interface)
         # Compare the unrounded values; rounding each one first would make values
         # that only differ by floating point error disagree
-- 
2.43.0


From 5fbe0eab7b24541dc3897b832a27434dfb59dbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:42 +0000
Subject: [PATCH 24/32] fix: fractional lat and lon in a model file are not
 read as 0

---
 pyNTM/master_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyNTM/master_model.py b/pyNTM/master_model.py
index c9bf6d8..f01b720 100644
--- a/pyNTM/master_model.py
+++ b/pyNTM/master_model.py
@@ -616,12 +616,12 @@ class _MasterModel(object):
         node_name = node_info[0]
         # Set latitude
         try:
-            node_lat = int(node_info[2])
+            node_lat = float(node_info[2])
         except (ValueError, IndexError):
             node_lat = 0
         # Set longitude
         try:
-            node_lon = int(node_info[1])
+            node_lon = float(node_info[1])
         except (ValueError, IndexError):
             node_lon = 0
 
-- 
2.43.0


From 5767f4e4530d7e8a3c9614573cecb9733a156937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:20 +0000
Subject: [PATCH 25/32] fix: weather map with hyphens in node names

---
 pyNTM/weathermap.py | 102 ++++++++++++++++++--------------------------
 1 file changed, 41 insertions(+), 61 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 1adecbc..eba0bb4 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -360,6 +360,24 @@ class WeatherMap(object):  # pragma: no cover
                         interfaces_to_highlight.add(hop)
         return interfaces_to_highlight, lsps
 
+    def _source_dest_pairs(self, object_type):
+        """
+        Returns the (source node name, destination node name) pairs that the model's
+        LSPs or Demands have
+
+        :param object_type: Either 'demand' or 'lsp'
+
+        :return: sorted list of (source, destination) tuples
+        """
+        if object_type == "demand":
+            objects = self.model.demand_objects
+        else:
+            objects = self.model.rsvp_lsp_objects
+
+        return sorted(
+            {(obj.source_node_object.name, obj.dest_node_object.name) for obj in objects}
+        )
+
     def get_sources(self, destination, object_type):
         """
         Returns a list of sources in the model that have
@@ -377,14 +395,7 @@ class WeatherMap(object):  # pragma: no cover
             msg = "'object_type' value must be 'demand'|'lsp'"
             raise Exception(msg)
 
-        if object_type == "demand":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
-            ]
-        elif object_type == "lsp":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
-            ]
+        source_dest_pairs = self._source_dest_pairs(object_type)
 
         sources = [pair[0] for pair in source_dest_pairs if pair[1] == destination]
 
@@ -407,14 +418,7 @@ class WeatherMap(object):  # pragma: no cover
             msg = "'object_type' value must be 'demand'|'lsp'"
             raise Exception(msg)
 
-        if object_type == "demand":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_demand_groups().keys()
-            ]
-        elif object_type == "lsp":
-            source_dest_pairs = [
-                pair.split("-") for pair in self.model.parallel_lsp_groups().keys()
-            ]
+        source_dest_pairs = self._source_dest_pairs(object_type)
 
         destinations = [pair[1] for pair in source_dest_pairs if pair[0] == src]
 
@@ -868,8 +872,7 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in demand source and destination options
         demand_sources = set()
         demand_destinations = set()
-        for entry in self.model.parallel_demand_groups().keys():
-            source, dest = entry.split("-")
+        for source, dest in self._source_dest_pairs("demand"):
             demand_sources.add(source)
             demand_destinations.add(dest)
         demand_sources_list = list(demand_sources)
@@ -890,8 +893,7 @@ class WeatherMap(object):  # pragma: no cover
         # Fill in LSP source and destination options
         lsp_sources = set()
         lsp_destinations = set()
-        for entry in self.model.parallel_lsp_groups().keys():
-            source, dest = entry.split("-")
+        for source, dest in self._source_dest_pairs("lsp"):
             lsp_sources.add(source)
             lsp_destinations.add(dest)
         lsp_sources_list = list(lsp_sources)
@@ -1260,16 +1262,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 # Get the lsps with specified destination
-                lsp_keys = self.model.parallel_lsp_groups().keys()
-                src_keys = [
-                    src_key
-                    for src_key in lsp_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
+                lsp_list = [
+                    lsp
+                    for lsp in model.rsvp_lsp_objects
+                    if lsp.dest_node_object.name == ctx_dest_inputs
                 ]
-                lsp_list = []
-
-                for src_key in src_keys:
-                    lsp_list += self.model.parallel_lsp_groups()[src_key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1282,16 +1279,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": dest, "value": dest} for dest in dest_list]
 
                 # Get the lsps with specified source
-                lsp_keys = self.model.parallel_lsp_groups().keys()
-                dest_keys = [
-                    dest_key
-                    for dest_key in lsp_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
+                lsp_list = [
+                    lsp
+                    for lsp in model.rsvp_lsp_objects
+                    if lsp.source_node_object.name == ctx_src_inputs
                 ]
-                lsp_list = []
-
-                for dest_key in dest_keys:
-                    lsp_list += self.model.parallel_lsp_groups()[dest_key]
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1370,16 +1362,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 # Get the demands with specified destination
-                dmd_keys = self.model.parallel_demand_groups().keys()
-                src_keys = [
-                    src_key
-                    for src_key in dmd_keys
-                    if src_key.split("-")[1] == ctx_dest_inputs
+                demand_list = [
+                    demand
+                    for demand in model.demand_objects
+                    if demand.dest_node_object.name == ctx_dest_inputs
                 ]
-                demand_list = []
-
-                for src_key in src_keys:
-                    demand_list += model.parallel_demand_groups()[src_key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1393,16 +1380,11 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": dest, "value": dest} for dest in dest_list]
 
                 # Get the demands with specified source
-                dmd_keys = model.parallel_demand_groups().keys()
-                dest_keys = [
-                    dest_key
-                    for dest_key in dmd_keys
-                    if dest_key.split("-")[0] == ctx_src_inputs
+                demand_list = [
+                    demand
+                    for demand in model.demand_objects
+                    if demand.source_node_object.name == ctx_src_inputs
                 ]
-                demand_list = []
-
-                for dest_key in dest_keys:
-                    demand_list += model.parallel_demand_groups()[dest_key]
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
@@ -1517,11 +1499,9 @@ class WeatherMap(object):  # pragma: no cover
                 # the selected edge is not null
                 int_data = ctx.triggered[0]["value"][0]
 
-                end_target = [
-                    item
-                    for item in int_data["target"].split("-")[1:]
-                    if item != int_data["source"]
-                ][0]
+                end_target = model.get_interface_object(
+                    int_data["interface-name"], int_data["source"]
+                ).remote_node_object.name
                 int_info = {
                     "source": int_data["source"],
                     "interface-name": int_data["interface-name"],
-- 
2.43.0


From 543f81f686b33efa014a3d254add713ab3ef1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:56 +0000
Subject: [PATCH 26/32] fix: clicking the weather map's "no routed lsp
 selected" interface choice clears the selection

---
 pyNTM/weathermap.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index eba0bb4..f2fccd5 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1514,7 +1514,10 @@ class WeatherMap(object):  # pragma: no cover
                 selected_interface = json.dumps(int_info)
             elif ctx.triggered[0]["prop_id"] != ".":
                 # No interface has been selected
-                if ctx.triggered[0]["value"] == no_selected_demand_text:
+                if ctx.triggered[0]["value"] in [
+                    no_selected_demand_text,
+                    no_selected_lsp_text,
+                ]:
                     selected_interface = json.dumps(
                         {"label": no_selected_interface_text, "value": ""}
                     )
-- 
2.43.0


From 8362f7537d970764577862fa271935c04f361f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:56 +0000
Subject: [PATCH 27/32] fix: weather map colors interfaces whose utilization
 lies between two ranges

---
 pyNTM/weathermap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index f2fccd5..56ab85e 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -251,7 +251,8 @@ class WeatherMap(object):  # pragma: no cover
                     lower = int(range.split("-")[0])
                     upper = int(range.split("-")[1])
 
-                    if lower <= utilization <= upper:
+                    # The ranges are in whole percent, so 24.9 is in 0-24
+                    if lower <= int(utilization) <= upper:
                         group = util_ranges[range]
                         break
                 except (ValueError, IndexError):
-- 
2.43.0


From 1da03ea599228f80e2ce19000ef6237a8c0bf0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:56 +0000
Subject: [PATCH 28/32] fix: weather map starts with Dash releases that have no
 run_server

---
 pyNTM/weathermap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 56ab85e..c5361eb 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1825,6 +1825,8 @@ class WeatherMap(object):  # pragma: no cover
 
         # ## END OF CALLBACK DEFS ## #
 
-        app.run_server()
+        # Dash 3 removed run_server in favor of run
+        run = getattr(app, "run", None) or app.run_server
+        run()
 
         return app
-- 
2.43.0


From c9e2c89f315b7f53ff3cb3f89a0766947aaea9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:56 +0000
Subject: [PATCH 29/32] fix: weather map search for a source and destination
 without LSPs or demands finds nothing

---
 pyNTM/weathermap.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index c5361eb..8b578f4 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -292,20 +292,15 @@ class WeatherMap(object):  # pragma: no cover
 
         """
 
-        if isinstance(object_list[0], RSVP_LSP):
-            object_type = "lsp"
-        elif isinstance(object_list[0], Demand):
-            object_type = "demand"
-
         # Initialize object list
         objects = []
         for object in object_list:
             # Return the demand's value as a dict with demand info (dmd_info)
             src = object.source_node_object.name
             dest = object.dest_node_object.name
-            if object_type == "demand":
+            if isinstance(object, Demand):
                 name = object.name
-            elif object_type == "lsp":
+            elif isinstance(object, RSVP_LSP):
                 name = object.lsp_name
             object_info = {"source": src, "dest": dest, "name": name}
             objects.append(
@@ -1248,7 +1243,7 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 key = "{}-{}".format(ctx_src_inputs, ctx_dest_inputs)
-                lsp_list = self.model.parallel_lsp_groups()[key]
+                lsp_list = self.model.parallel_lsp_groups().get(key, [])
 
                 # Format lsps for display
                 lsps = self.format_objects_for_display(lsp_list)
@@ -1349,7 +1344,7 @@ class WeatherMap(object):  # pragma: no cover
                 dest_options = [{"label": ctx_dest_inputs, "value": ctx_dest_inputs}]
 
                 key = "{}-{}".format(ctx_src_inputs, ctx_dest_inputs)
-                demand_list = self.model.parallel_demand_groups()[key]
+                demand_list = self.model.parallel_demand_groups().get(key, [])
 
                 # Format demands for display
                 demands = format_objects_for_display(demand_list)
-- 
2.43.0


From db911b149161cf10b8b787452df1f7079f921989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 30/32] fix: weather map shows the model as it is when the page
 is loaded

---
 pyNTM/weathermap.py | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 8b578f4..165d586 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -935,7 +935,8 @@ class WeatherMap(object):  # pragma: no cover
         app = self.app
         model = self.model
 
-        app.layout = self.make_app_layout()
+        # Dash makes the layout anew for each page load
+        app.layout = self.make_app_layout
         default_stylesheet = self.default_stylesheet
 
         demand_color = self.demand_color
@@ -946,12 +947,6 @@ class WeatherMap(object):  # pragma: no cover
         no_selected_lsp_text = self.no_selected_lsp_text
         no_selected_demand_text = self.no_selected_demand_text
 
-        lsp_sources_list, lsp_destinations_list = self.lsp_sources_and_destinations()
-        (
-            demand_sources_list,
-            demand_destinations_list,
-        ) = self.demand_sources_and_destinations()
-
         # Defs ported from class . . .
         format_objects_for_display = self.format_objects_for_display
         get_destinations = self.get_destinations
@@ -1230,12 +1225,9 @@ class WeatherMap(object):  # pragma: no cover
 
             if ctx_src_inputs is None and ctx_dest_inputs is None:
                 # No source or destination specified
-                dest_options = [
-                    {"label": dest, "value": dest} for dest in lsp_destinations_list
-                ]
-                src_options = [
-                    {"label": source, "value": source} for source in lsp_sources_list
-                ]
+                sources, destinations = self.lsp_sources_and_destinations()
+                dest_options = [{"label": dest, "value": dest} for dest in destinations]
+                src_options = [{"label": source, "value": source} for source in sources]
 
             elif ctx_src_inputs is not None and ctx_dest_inputs is not None:
                 # Both source and destination specified
@@ -1331,12 +1323,9 @@ class WeatherMap(object):  # pragma: no cover
 
             if ctx_src_inputs is None and ctx_dest_inputs is None:
                 # No source or destination specified
-                dest_options = [
-                    {"label": dest, "value": dest} for dest in demand_destinations_list
-                ]
-                src_options = [
-                    {"label": source, "value": source} for source in demand_sources_list
-                ]
+                sources, destinations = self.demand_sources_and_destinations()
+                dest_options = [{"label": dest, "value": dest} for dest in destinations]
+                src_options = [{"label": source, "value": source} for source in sources]
 
             elif ctx_src_inputs is not None and ctx_dest_inputs is not None:
                 # Both source and destination specified
-- 
2.43.0


From 4bbc79f4eb8d46e56632513efb1d80bca5d1ee49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:16 +0000
Subject: [PATCH 31/32] fix: weather map shows no path for a selected LSP or
 demand that lost its route

---
 pyNTM/weathermap.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 165d586..0e88e1d 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -345,6 +345,8 @@ class WeatherMap(object):  # pragma: no cover
         interfaces_to_highlight = set()
         lsps = set()
         for dmd in dmds:
+            if dmd.path == "Unrouted":
+                continue
             dmd_path = dmd.path[:]
             for path in dmd_path:
                 for hop in path:
@@ -431,7 +433,7 @@ class WeatherMap(object):  # pragma: no cover
         """
 
         lsp = model.get_rsvp_lsp(lsp_data["source"], lsp_data["dest"], lsp_data["name"])
-        lsp_interfaces = lsp.path["interfaces"]
+        lsp_interfaces = [] if lsp.path == "Unrouted" else lsp.path["interfaces"]
         nodes = set()
         for interface in lsp_interfaces:
             nodes.add(interface.node_object.name)
@@ -1784,8 +1786,7 @@ class WeatherMap(object):  # pragma: no cover
                 if no_selected_lsp_text not in lsp and '"routed": false' not in lsp:
                     # LSP is selected and selected LSP is routed
                     lsp = json.loads(lsp)
-                    lsp = model.get_rsvp_lsp(lsp["source"], lsp["dest"], lsp["name"])
-                    lsp_interfaces = lsp.path["interfaces"]
+                    lsp_interfaces, _ = get_lsp_interface_data(model, lsp)
 
                     interfaces_list = format_interfaces_for_display(lsp_interfaces)
 
-- 
2.43.0


From ffd9f5a82a040767bf705aa009c7eecd8702d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:11 +0000
Subject: [PATCH 32/32] fix: weather map shows the selected LSP and interface
 when the selected demand is gone

---
 pyNTM/weathermap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyNTM/weathermap.py b/pyNTM/weathermap.py
index 0e88e1d..a2dcd72 100644
--- a/pyNTM/weathermap.py
+++ b/pyNTM/weathermap.py
@@ -1047,7 +1047,8 @@ class WeatherMap(object):  # pragma: no cover
                         "{}-{}".format(source, destination)
                     ]
                 except KeyError:
-                    return default_stylesheet + new_style
+                    # There are no longer any such demands to display
+                    dmds = []
 
                 # Find the interfaces on the demand paths for each demand
                 interfaces_to_highlight = find_demand_interfaces_and_lsps(dmds)[0]
-- 
2.43.0

