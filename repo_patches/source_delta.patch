From 80adf08cd2f1650e67d359bd84fc5620bc23287a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:12 +0000
Subject: [PATCH 01/76] fix: copy() maps a trace edge to the edge the copied
 node uses

---
 tensornetwork/network_operations.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 9817511..f69a841 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -72,11 +72,15 @@ def copy(nodes: Iterable[AbstractNode],
       edge_dict[edge] = new_edge
       continue
 
+    # `node.copy` has already created the trace edges of the copied node
+    if edge.is_trace():
+      edge_dict[edge] = node_dict[node1].edges[axis1]
+      continue
+
     # both nodes should be copied
     new_edge = Edge(node_dict[node1], axis1, edge.name, node_dict[node2], axis2)
-    if not edge.is_trace():
-      node_dict[node2].add_edge(new_edge, axis2)
-      node_dict[node1].add_edge(new_edge, axis1)
+    node_dict[node2].add_edge(new_edge, axis2)
+    node_dict[node1].add_edge(new_edge, axis1)
 
     edge_dict[edge] = new_edge
 
-- 
2.43.0


From 39de509bae914b2ae9c220c0bf18d9850e015a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 02/76] fix: axis names follow their axes when edges are
 flattened or split

flatten_edges and split_edge assigned the names the node had before its axes
were permuted, so a name ended up on another axis; the trace versions left the
old number of names; split_edge could give two axes the same name.
---
 tensornetwork/network_components.py | 51 ++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d8125e8..314ee9d 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1358,6 +1358,9 @@ def _flatten_trace_edges(edges: List[Edge],
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
+  # Not through the setter: the shape of a `CopyNode` is fixed.
+  # pylint: disable=protected-access
+  node._axis_names = node.axis_names[:len(node.edges)]
   new_edge = connect(edge1, edge2, new_edge_name)
   # pylint: disable=expression-not-assigned
   [edge.disable() for edge in edges]  #disable edges!
@@ -1418,7 +1421,6 @@ def flatten_edges(edges: List[Edge],
     # Required for dangling case.
     if node is None:
       continue
-    axis_names = node.axis_names
     perm_back = []
     for edge in edges:
       # There will only be 1 edge since we are in the standard edge case.
@@ -1440,10 +1442,8 @@ def flatten_edges(edges: List[Edge],
     node.edges = node.edges[:len(perm_front)] + [edge]
     new_dangling_edges.append(edge)
     # TODO: Allow renaming of the new axis.
-    if axis_names:
-      node.axis_names = [axis_names[n] for n in range(len(node.edges))]
-    else:
-      node.axis_names = [str(n) for n in range(len(node.edges))]
+    # `reorder_axes` permuted the names along with the axes.
+    node.axis_names = node.axis_names[:len(node.edges)]
 
   node1, node2 = tuple(expected_nodes)
   # Sets are returned in a random order, so this is how we deal with
@@ -1492,6 +1492,32 @@ def flatten_all_edges(nodes: Iterable[AbstractNode]) -> List[Edge]:
   return flattened_edges
 
 
+def _append_axis_names(axis_names: List[Text],
+                       num_new: int,
+                       preferred: Optional[List[Text]] = None) -> List[Text]:
+  """Append names for `num_new` new axes, without repeating a name in use.
+
+  Args:
+    axis_names: The names of the axes that are kept.
+    num_new: The number of axes to name.
+    preferred: Optional names for the new axes; one that is already in use is
+      replaced.
+
+  Returns:
+    The list of all names.
+  """
+  names = list(axis_names)
+  for n in range(num_new):
+    if preferred is not None and preferred[n] not in names:
+      names.append(preferred[n])
+      continue
+    number = len(names)
+    while str(number) in names:
+      number += 1
+    names.append(str(number))
+  return names
+
+
 def _split_trace_edge(
     edge: Edge,
     shape: Tuple[int, ...],
@@ -1521,6 +1547,8 @@ def _split_trace_edge(
   node.tensor = backend.reshape(node.tensor, new_shape)
   # Trim edges and add placeholder edges for new axes.
   node.edges = node.edges[:len(perm_front)] + 2 * len(shape) * [None]
+  node.axis_names = _append_axis_names(node.axis_names[:len(perm_front)],
+                                       2 * len(shape))
   # Create new dangling edges and connect them to each other.
   new_edges = []
   for idx in range(len(shape)):
@@ -1585,7 +1613,6 @@ def split_edge(edge: Edge,
     # Required for dangling case.
     if node is None:
       continue
-    axis_names = node.axis_names
     # Permute until edge axes to be split are at the back and reshape.
     perm_back = [node.edges.index(edge)]
     perm_front = set(range(len(node.edges))) - set(perm_back)
@@ -1605,16 +1632,8 @@ def split_edge(edge: Edge,
       node.edges += [new_dangling_edge]
       new_dangling_edges.append(new_dangling_edge)
     # TODO: Allow renaming of new axes (possibly distinct from new_edge_names).
-    if axis_names:
-      new_axis_names = [axis_names[n] for n in range(len(unaffected_shape))]
-      if new_edge_names:
-        new_axis_names.extend(new_edge_names)
-      else:
-        new_axis_names.extend(
-            [str(n) for n in range(len(unaffected_shape), len(node.edges))])
-      node.axis_names = new_axis_names
-    else:
-      node.axis_names = [str(n) for n in range(len(node.edges))]
+    node.axis_names = _append_axis_names(node.axis_names[:len(perm_front)],
+                                         len(shape), new_edge_names)
 
   node1, node2 = tuple(expected_nodes)
   # pylint: disable=expression-not-assigned
-- 
2.43.0


From 0a840eb7b5870c0a533286094491cf2d433a031c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:53 +0000
Subject: [PATCH 03/76] fix: CopyNode.copy keeps both axes of a trace edge

---
 tensornetwork/network_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 314ee9d..c346714 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -812,11 +812,11 @@ class CopyNode(AbstractNode):
       visited_edges.add(edge)
       if edge.node1 == edge.node2:
         new_edge = Edge(new_node,
-                        i,
+                        edge.axis1,
                         name=edge.name,
                         node2=new_node,
                         axis2=edge.axis2)
-        new_node.add_edge(new_edge, i)
+        new_node.add_edge(new_edge, edge.axis1)
         new_node.add_edge(new_edge, edge.axis2)
       else:
         new_node.add_edge(Edge(new_node, i, name=edge.name), i)
-- 
2.43.0


From 1f10a552e9e8b02f6f9b6c41f58edf8afd600c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 04/76] fix: reordering, flattening, splitting or slicing edges
 is all or nothing

The new tensors are computed before any node or edge is changed, so that a
failing backend call (e.g. out of memory) no longer leaves the two ends of an
edge inconsistent.
---
 tensornetwork/network_components.py | 90 ++++++++++++++++++-----------
 1 file changed, 57 insertions(+), 33 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index c346714..c733cac 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -235,21 +235,12 @@ class AbstractNode(ABC):
         raise ValueError("Edge reordering does not support trace edges. "
                          "Found trace edge: '{}'".format(edge))
 
-    permutation = []
-    for i, edge in enumerate(edge_order):
-      # This is O(n^2), but the number of edges will likely never be >100
-      # so this should be fine for now.
-      old_position = self.edges.index(edge)
-      permutation.append(old_position)
-      edge.update_axis(old_position, self, i, self)
-    self.edges = edge_order[:]
+    # This is O(n^2), but the number of edges will likely never be >100
+    # so this should be fine for now.
+    permutation = [self.edges.index(edge) for edge in edge_order]
+    # Transpose first: if it fails nothing has changed.
     self.tensor = self.backend.transpose(self.tensor, perm=permutation)
-    if self.axis_names is not None:
-      # Update axis_names:
-      tmp_axis_names = []
-      for i in permutation:
-        tmp_axis_names.append(self.axis_names[i])
-      self.axis_names = tmp_axis_names
+    self._permute_edges(permutation)
     return self
 
   def reorder_axes(self, perm: List[int]) -> "AbstractNode":
@@ -273,6 +264,11 @@ class AbstractNode(ABC):
       raise ValueError("A full permutation was not passed. "
                        "Permutation passed: {}".format(perm))
     self.tensor = self.backend.transpose(self.tensor, perm=perm)
+    self._permute_edges(perm)
+    return self
+
+  def _permute_edges(self, perm: List[int]) -> None:
+    """Permute the edges and axis names, but not the tensor."""
     tmp_edges = []
     for i, position in enumerate(perm):
       edge = self.edges[position]
@@ -285,7 +281,6 @@ class AbstractNode(ABC):
       for i in perm:
         tmp_axis_names.append(self.axis_names[i])
       self.axis_names = tmp_axis_names
-    return self
 
   def tensor_from_edge_order(self, perm: List["Edge"]) -> "AbstractNode":
     order = []
@@ -1350,16 +1345,19 @@ def _flatten_trace_edges(edges: List[Edge],
   perm = perm_front + perm_back
   new_dim = backend.shape_prod(
       [backend.shape_tensor(node.tensor)[e.axis1] for e in edges])
-  node.reorder_axes(perm)
-  unaffected_shape = backend.shape_tensor(node.tensor)[:len(perm_front)]
+  # Compute the new tensor before anything is changed.
+  new_tensor = backend.transpose(node.tensor, perm=perm)
+  unaffected_shape = backend.shape_tensor(new_tensor)[:len(perm_front)]
   new_shape = backend.shape_concat([unaffected_shape, [new_dim, new_dim]],
                                    axis=-1)
-  node.tensor = backend.reshape(node.tensor, new_shape)
+  new_tensor = backend.reshape(new_tensor, new_shape)
+  # pylint: disable=protected-access
+  node._permute_edges(perm)
+  node.tensor = new_tensor
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
   # Not through the setter: the shape of a `CopyNode` is fixed.
-  # pylint: disable=protected-access
   node._axis_names = node.axis_names[:len(node.edges)]
   new_edge = connect(edge1, edge2, new_edge_name)
   # pylint: disable=expression-not-assigned
@@ -1416,7 +1414,9 @@ def flatten_edges(edges: List[Edge],
   if len(expected_nodes) == 1:
     return _flatten_trace_edges(edges, new_edge_name)  #disables edges
   # Flatten standard or dangling edges.
-  new_dangling_edges = []
+  # First compute the new tensors of all nodes, then change the nodes, so that
+  # a failing computation leaves the network unchanged.
+  flattened = []
   for node in expected_nodes:
     # Required for dangling case.
     if node is None:
@@ -1426,23 +1426,28 @@ def flatten_edges(edges: List[Edge],
       # There will only be 1 edge since we are in the standard edge case.
       perm_back.append(node.edges.index(edge))
     perm_front = sorted(set(range(len(node.edges))) - set(perm_back))
-    node.reorder_axes(perm_front + perm_back)
-    old_tensor_shape = backend.shape_tensor(node.tensor)
+    new_tensor = backend.transpose(node.tensor, perm=perm_front + perm_back)
+    old_tensor_shape = backend.shape_tensor(new_tensor)
     # Calculate the new axis dimension as a product of the other
     # axes dimensions.
     flattened_axis_dim = backend.shape_prod(old_tensor_shape[len(perm_front):])
     new_tensor_shape = backend.shape_concat(
         [old_tensor_shape[:len(perm_front)], [flattened_axis_dim]], axis=-1)
-    new_tensor = backend.reshape(node.tensor, new_tensor_shape)
+    new_tensor = backend.reshape(new_tensor, new_tensor_shape)
+    flattened.append((node, perm_front, perm_back, new_tensor))
+  new_dangling_edges = []
+  for node, perm_front, perm_back, new_tensor in flattened:
     # Modify the node in place. Currently, this is they only method that
     # modifies a node's tensor.
+    # pylint: disable=protected-access
+    node._permute_edges(perm_front + perm_back)
     node.tensor = new_tensor
     # This Edge is required for the connect call later.
     edge = Edge(node1=node, axis1=len(perm_front), name=new_edge_name)
     node.edges = node.edges[:len(perm_front)] + [edge]
     new_dangling_edges.append(edge)
     # TODO: Allow renaming of the new axis.
-    # `reorder_axes` permuted the names along with the axes.
+    # The names were permuted along with the axes.
     node.axis_names = node.axis_names[:len(node.edges)]
 
   node1, node2 = tuple(expected_nodes)
@@ -1541,10 +1546,14 @@ def _split_trace_edge(
   perm_back += [max(edge.axis1, edge.axis2)]
   perm_front = set(range(len(node.edges))) - set(perm_back)
   perm_front = sorted(perm_front)
-  node.reorder_axes(perm_front + perm_back)
-  unaffected_shape = backend.shape_tensor(node.tensor)[:len(perm_front)]
+  # Compute the new tensor before anything is changed.
+  new_tensor = backend.transpose(node.tensor, perm=perm_front + perm_back)
+  unaffected_shape = backend.shape_tensor(new_tensor)[:len(perm_front)]
   new_shape = backend.shape_concat([unaffected_shape, shape, shape], axis=-1)
-  node.tensor = backend.reshape(node.tensor, new_shape)
+  new_tensor = backend.reshape(new_tensor, new_shape)
+  # pylint: disable=protected-access
+  node._permute_edges(perm_front + perm_back)
+  node.tensor = new_tensor
   # Trim edges and add placeholder edges for new axes.
   node.edges = node.edges[:len(perm_front)] + 2 * len(shape) * [None]
   node.axis_names = _append_axis_names(node.axis_names[:len(perm_front)],
@@ -1607,8 +1616,10 @@ def split_edge(edge: Edge,
   backend = backends[0]
 
   # Split standard or dangling edge.
-  new_dangling_edges = []
+  # First compute the new tensors of all nodes, then change the nodes, so that
+  # a failing computation leaves the network unchanged.
   expected_nodes = set(edge.get_nodes())
+  split = []
   for node in expected_nodes:
     # Required for dangling case.
     if node is None:
@@ -1617,10 +1628,16 @@ def split_edge(edge: Edge,
     perm_back = [node.edges.index(edge)]
     perm_front = set(range(len(node.edges))) - set(perm_back)
     perm_front = sorted(perm_front)
-    node.reorder_axes(perm_front + perm_back)
-    unaffected_shape = backend.shape_tensor(node.tensor)[:len(perm_front)]
+    new_tensor = backend.transpose(node.tensor, perm=perm_front + perm_back)
+    unaffected_shape = backend.shape_tensor(new_tensor)[:len(perm_front)]
     new_shape = backend.shape_concat([unaffected_shape, shape], axis=-1)
-    node.tensor = backend.reshape(node.tensor, new_shape)  # in-place update
+    new_tensor = backend.reshape(new_tensor, new_shape)
+    split.append((node, perm_front, perm_back, new_tensor))
+  new_dangling_edges = []
+  for node, perm_front, perm_back, new_tensor in split:
+    # pylint: disable=protected-access
+    node._permute_edges(perm_front + perm_back)
+    node.tensor = new_tensor  # in-place update
     # Trim edges.
     node.edges = node.edges[:len(perm_front)]
     # Create new dangling edges.
@@ -1686,17 +1703,24 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
   backend = backends[0]
 
   # Handles all three types of edges
+  # First compute the slices of both axes, then change the nodes, so that a
+  # failing computation leaves the network unchanged.
+  sliced = []
   for node, axis in zip(edge.get_nodes(), [edge.axis1, edge.axis2]):
     if node is not None:
       tensor = node.get_tensor()
+      if sliced and sliced[0][0] is node:
+        tensor = sliced[0][1]  # trace edge
       start_indices = [0] * node.get_rank()
       start_indices[axis] = start_index
       start_indices = tuple(start_indices)
-      slice_sizes = list(node.shape)
+      slice_sizes = list(backend.shape_tuple(tensor))
       slice_sizes[axis] = length
       slice_sizes = tuple(slice_sizes)
       new_tensor = backend.slice(tensor, start_indices, slice_sizes)
-      node.set_tensor(new_tensor)
+      sliced.append((node, new_tensor))
+  for node, new_tensor in sliced:
+    node.set_tensor(new_tensor)
 
   return edge
 
-- 
2.43.0


From 8a6a3168f5541ca52cc80f7615e25d577485abf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:03 +0000
Subject: [PATCH 05/76] fix: split_node creates both parts before it moves any
 edge

---
 tensornetwork/network_operations.py | 30 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index f69a841..6e35c20 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -234,6 +234,11 @@ def split_node(
                    axis_names=left_axis_names,
                    backend=backend)
 
+  right_node = Node(vh_s,
+                    name=right_name,
+                    axis_names=right_axis_names,
+                    backend=backend)
+
   left_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in left_edges
   ]
@@ -241,11 +246,6 @@ def split_node(
     left_node.add_edge(edge, i)
     edge.update_axis(left_axes_order[i], node, i, left_node)
 
-  right_node = Node(vh_s,
-                    name=right_name,
-                    axis_names=right_axis_names,
-                    backend=backend)
-
   right_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in right_edges
   ]
@@ -326,6 +326,11 @@ def split_node_qr(
                    axis_names=left_axis_names,
                    backend=backend)
 
+  right_node = Node(r,
+                    name=right_name,
+                    axis_names=right_axis_names,
+                    backend=backend)
+
   left_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in left_edges
   ]
@@ -333,11 +338,6 @@ def split_node_qr(
     left_node.add_edge(edge, i)
     edge.update_axis(left_axes_order[i], node, i, left_node)
 
-  right_node = Node(r,
-                    name=right_name,
-                    axis_names=right_axis_names,
-                    backend=backend)
-
   right_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in right_edges
   ]
@@ -421,6 +421,11 @@ def split_node_rq(
                    axis_names=left_axis_names,
                    backend=backend)
 
+  right_node = Node(q,
+                    name=right_name,
+                    axis_names=right_axis_names,
+                    backend=backend)
+
   left_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in left_edges
   ]
@@ -428,11 +433,6 @@ def split_node_rq(
     left_node.add_edge(edge, i)
     edge.update_axis(left_axes_order[i], node, i, left_node)
 
-  right_node = Node(q,
-                    name=right_name,
-                    axis_names=right_axis_names,
-                    backend=backend)
-
   right_axes_order = [
       edge.axis1 if edge.node1 is node else edge.axis2 for edge in right_edges
   ]
-- 
2.43.0


From eddc875e1b90b20e78b213c950f34383c6b296c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:27 +0000
Subject: [PATCH 06/76] fix: contractors accept any iterable, contract_path
 replaces traced nodes

auto() of a single node needed an output order even when told to ignore it; an
iterator of nodes was consumed before the open edges were collected;
contract_path kept using the consumed node after contracting its trace edges
and appended to the list of the caller.
---
 .../opt_einsum_paths/path_contractors.py      | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 764f2e8..78d9371 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -60,13 +60,13 @@ def base(nodes: Iterable[AbstractNode],
 
   if not ignore_edge_order:
     if output_edge_order is None:
-      output_edge_order = list(get_subgraph_dangling(nodes))
+      output_edge_order = list(get_subgraph_dangling(nodes_set))
       if len(output_edge_order) > 1:
         raise ValueError("The final node after contraction has more than "
                          "one remaining edge. In this case `output_edge_order` "
                          "has to be provided.")
 
-    if set(output_edge_order) != get_subgraph_dangling(nodes):
+    if set(output_edge_order) != get_subgraph_dangling(nodes_set):
       raise ValueError("output edges are not equal to the remaining "
                        "non-contracted edges of the final node.")
 
@@ -216,7 +216,8 @@ def auto(nodes: Iterable[AbstractNode],
     Final node after full contraction.
   """
 
-  n = len(list(nodes))  #pytype thing
+  nodes = list(nodes)  # `nodes` may be an iterator
+  n = len(nodes)
   _nodes = nodes
   if n <= 0:
     raise ValueError("Cannot contract empty tensor network.")
@@ -236,7 +237,6 @@ def auto(nodes: Iterable[AbstractNode],
       final_node = contract_parallel(edges.pop())
     else:
       final_node = list(_nodes)[0]
-    final_node.reorder_edges(output_edge_order)
     if not ignore_edge_order:
       final_node.reorder_edges(output_edge_order)
     return final_node
@@ -325,8 +325,8 @@ def path_solver(
   elif algorithm == "greedy":
     alg = functools.partial(opt_einsum.paths.greedy, memory_limit=memory_limit)
   elif algorithm == "auto":
-    n = len(list(nodes))  #pytype thing
-    _nodes = nodes
+    nodes = list(nodes)  # `nodes` may be an iterator
+    n = len(nodes)
     if n <= 1:
       return []
     if n < 5:
@@ -365,11 +365,10 @@ def contract_path(path: Tuple[List[Tuple[int,
   Returns:
     Final node after full contraction.
   """
-  edges = get_all_edges(nodes)
-  for edge in edges:
-    if not edge.is_disabled:  #if its disabled we already contracted it
-      if edge.is_trace():
-        contract_parallel(edge)
+  nodes = list(nodes)  # do not modify the list of the caller
+  for n, node in enumerate(nodes):
+    # a contracted trace yields a new node, in the same place of `path`
+    nodes[n] = contract_trace_edges(node)
 
   if len(nodes) == 1:
     newnode = nodes[0].copy()
-- 
2.43.0


From 2b63da221318710bc6d3930971ba730d7e0ae4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 07/76] fix: a saved node without axis names (a scalar) can be
 loaded again

---
 tensornetwork/network_components.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index c733cac..bc52597 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -457,7 +457,11 @@ class AbstractNode(ABC):
     name = node_data['name'].asstr(STRING_ENCODING)[()]
     backend = node_data['backend'].asstr(STRING_ENCODING)[()]
     shape = node_data['shape'][()]
-    axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
+    axis_names = node_data['axis_names']
+    if h5py.check_string_dtype(axis_names.dtype) is not None:
+      axis_names = axis_names.asstr(STRING_ENCODING)[()]
+    else:  # no names (e.g. a scalar), see `_save_node`
+      axis_names = []
     return name, shape, axis_names, backend
 
   @abstractmethod
-- 
2.43.0


From 2c5a91a345e42d59d0fc58ed2e39dd6c9bc179d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:18 +0000
Subject: [PATCH 08/76] fix: save_nodes restores all names also on failure,
 load_nodes keeps the order and refuses incomplete files

---
 tensornetwork/utils.py | 83 +++++++++++++++++++++---------------------
 1 file changed, 41 insertions(+), 42 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index b91dd8c..9f87322 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -33,58 +33,57 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
       `nodes`.
     path: path to file where network is saved.
   """
+  nodes = list(nodes)  # `nodes` may be an iterator
   if reachable(nodes) > set(nodes):
     raise ValueError(
         "Some nodes in `nodes` are connected to nodes not contained in `nodes`."
         " Saving not possible.")
-  if len(set(nodes)) < len(list(nodes)):
+  if len(set(nodes)) < len(nodes):
     raise ValueError(
         'Some nodes in `nodes` appear more than once. This is not supported')
   #we need to iterate twice and order matters
   edges = list(get_all_edges(nodes))
-  nodes = list(nodes)
 
   old_edge_names = {n: edge.name for n, edge in enumerate(edges)}
   old_node_names = {n: node.name for n, node in enumerate(nodes)}
 
-  #generate unique names for nodes and edges
-  #for saving them
-  for n, node in enumerate(nodes):
-    node.set_name('node{}'.format(n))
-
-  for e, edge in enumerate(edges):
-    edge.set_name('edge{}'.format(e))
-
-  with h5py.File(path, 'w') as net_file:
-    nodes_group = net_file.create_group('nodes')
-    node_names_group = net_file.create_group('node_names')
-    node_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_node_names.values()), dtype=object))
-
-    edges_group = net_file.create_group('edges')
-    edge_names_group = net_file.create_group('edge_names')
-    edge_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_edge_names.values()), dtype=object))
-
+  try:
+    #generate unique names for nodes and edges
+    #for saving them
     for n, node in enumerate(nodes):
-      node_group = nodes_group.create_group(node.name)
-      node._save_node(node_group)
-      for edge in node.edges:
-        if edge.node1 == node and edge in edges:
-          edge_group = edges_group.create_group(edge.name)
-          edge._save_edge(edge_group)
-          edges.remove(edge)
-
-  #name edges and nodes back  to their original names
-  for n, node in enumerate(nodes):
-    nodes[n].set_name(old_node_names[n])
+      node.set_name('node{}'.format(n))
+
+    for e, edge in enumerate(edges):
+      edge.set_name('edge{}'.format(e))
+
+    with h5py.File(path, 'w') as net_file:
+      nodes_group = net_file.create_group('nodes')
+      node_names_group = net_file.create_group('node_names')
+      node_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_node_names.values()), dtype=object))
+
+      edges_group = net_file.create_group('edges')
+      edge_names_group = net_file.create_group('edge_names')
+      edge_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_edge_names.values()), dtype=object))
+
+      for node in nodes:
+        node_group = nodes_group.create_group(node.name)
+        node._save_node(node_group)
+      for edge in edges:
+        edge_group = edges_group.create_group(edge.name)
+        edge._save_edge(edge_group)
+  finally:
+    #name edges and nodes back to their original names, also if saving failed
+    for n, node in enumerate(nodes):
+      node.set_name(old_node_names[n])
 
-  for n, edge in enumerate(edges):
-    edges[n].set_name(old_edge_names[n])
+    for n, edge in enumerate(edges):
+      edge.set_name(old_edge_names[n])
 
 
 def load_nodes(path: str) -> List[AbstractNode]:
@@ -98,7 +97,6 @@ def load_nodes(path: str) -> List[AbstractNode]:
   nodes_list = []
   edges_list = []
   with h5py.File(path, 'r') as net_file:
-    nodes = list(net_file["nodes"].keys())
     node_names = {
         'node{}'.format(n): v for n, v in enumerate(
             net_file["node_names"]['names'].asstr(STRING_ENCODING)[()])#pylint: disable=no-member
@@ -107,13 +105,14 @@ def load_nodes(path: str) -> List[AbstractNode]:
         'edge{}'.format(n): v for n, v in enumerate(
             net_file["edge_names"]['names'].asstr(STRING_ENCODING)[()])#pylint: disable=no-member
     }
-    edges = list(net_file["edges"].keys())
-    for node_name in nodes:
+    # The names tell which nodes and edges were saved, and in which order: if
+    # one is missing the file is incomplete and a KeyError is raised.
+    for node_name in node_names:
       node_data = net_file["nodes/" + node_name]
       node_type = get_component(node_data['type'].asstr()[()])
       nodes_list.append(node_type._load_node(node_data=node_data))
     nodes_dict = {node.name: node for node in nodes_list}
-    for edge in edges:
+    for edge in edge_names:
       edge_data = net_file["edges/" + edge]
       edges_list.append(Edge._load_edge(edge_data, nodes_dict))
 
-- 
2.43.0


From 8e04af3a6b3a7a8da8f804e3d58d0d2d723e5fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:57 +0000
Subject: [PATCH 09/76] fix: an edge whose first node was not serialized loads
 as a dangling edge

---
 tensornetwork/network_operations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 6e35c20..49b1c28 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -971,6 +971,8 @@ def nodes_from_json(json_str: str) -> Tuple[List[AbstractNode],
   for e in network_dict['edges']:
     e_nodes = [node_ids.get(n_id) for n_id in e['node_ids']]
     axes = e['attributes']['axes']
+    if e_nodes[0] is None:  # the first node was excluded: now a dangling edge
+      e_nodes, axes = e_nodes[::-1], axes[::-1]
     edge = Edge(node1=e_nodes[0],
                 axis1=axes[0],
                 node2=e_nodes[1],
-- 
2.43.0


From dc6d070f2d793f0407f43829e655f1950e2e7256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 10/76] fix: ncon sums closed labels that appear once on
 several tensors

---
 tensornetwork/ncon_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ab70948..ccbf8f5 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -414,7 +414,9 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
 
   for loc in locs:
     labels = network_structure[loc]
-    contractable_inds = [labels.index(l) for l in contractable_labels]
+    contractable_inds = [
+        labels.index(l) for l in contractable_labels if l in labels
+    ]
     network_structure[loc] = [l for l in labels if l not in contractable_labels]
     tensors[loc] = backend_obj.sum(tensors[loc], tuple(contractable_inds))
 
-- 
2.43.0


From 361bf9d0ea5b58050a9d7fb4a6082fa458533372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:20 +0000
Subject: [PATCH 11/76] fix: ncon takes the diagonal of batch labels repeated
 on one tensor

---
 tensornetwork/ncon_interface.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ccbf8f5..7a4ea02 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -277,6 +277,34 @@ def _partial_trace(
   return tensor, labels, []
 
 
+def _batch_diagonal(tensor: Tensor, labels: List, flat_labels: List,
+                    backend_obj: AbstractBackend) -> Tuple[Tensor, List]:
+  """
+  Take the diagonal of `tensor` along batch labels which appear more
+  than once in `labels`, such that each of them is left on a single axis.
+  Args:
+    tensor: A tensor.
+    labels: The ncon-style labels of `tensor`.
+    flat_labels: The ncon-style labels of all tensors.
+    backend_obj: A backend object.
+  Returns:
+    Tensor: The tensor with collapsed batch labels.
+    List: The updated labels.
+  """
+  repeated = sorted({
+      l for l in labels
+      if labels.count(l) > 1 and (l < 0 or flat_labels.count(l) > 2)
+  })
+  for label in repeated:
+    while labels.count(label) > 1:
+      axis1 = labels.index(label)
+      axis2 = labels.index(label, axis1 + 1)
+      tensor = backend_obj.diagonal(tensor, axis1=axis1, axis2=axis2)
+      labels = [l for n, l in enumerate(labels) if n not in (axis1, axis2)
+               ] + [label]
+  return tensor, labels
+
+
 def _batch_cont(
     t1: Tensor, t2: Tensor, tensors: List[Tensor],
     network_structure: List[List], con_order: List, common_batch_labels: Set,
@@ -391,6 +419,11 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   init_con_order = [c for c in con_order]
   init_network_structure = [c for c in network_structure]
 
+  # batch labels appearing more than once on the same tensor
+  for n in range(len(tensors)):
+    tensors[n], network_structure[n] = _batch_diagonal(
+        tensors[n], network_structure[n], flat_labels, backend_obj)
+
   # partial trace
   for n, tensor in enumerate(tensors):
     tensors[n], network_structure[n], contracted_labels = _partial_trace(
-- 
2.43.0


From a78e77328fc054a6a6c5b9680de5c6bf85028895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:23 +0000
Subject: [PATCH 12/76] fix: cached block data of one symmetry is not used for
 another

---
 .../block_sparse/blocksparse_utils.py         | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 9285632..77ef8bc 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -23,7 +23,7 @@ from tensornetwork.block_sparse.utils import (fuse_stride_arrays, unique,
                                               fuse_degeneracies, intersect,
                                               _find_best_partition,
                                               fuse_ndarrays)
-from tensornetwork.block_sparse.caching import get_cacher
+from tensornetwork.block_sparse.caching import get_cacher, Cacher
 from typing import List, Union, Any, Tuple, Optional, Sequence, Callable
 from tensornetwork.block_sparse.sizetypes import SIZE_T
 
@@ -350,10 +350,12 @@ def _find_diagonal_sparse_blocks(
     block_dims (np.ndarray): 2-by-m array of matrix dimensions of each block.
   """
   cacher = get_cacher()
-  if cacher.do_caching:
+  do_caching = cacher.do_caching
+  if do_caching:
     hash_val = _to_string(charges, flows, partition, list(range(len(charges))))
-    if hash_val in cacher.cache:
-      return cacher.cache[hash_val]
+    cached = _get_cached(cacher, hash_val, charges)
+    if cached is not None:
+      return cached
 
   num_inds = len(charges)
   if partition in (0, num_inds):
@@ -421,9 +423,8 @@ def _find_diagonal_sparse_blocks(
   obj.__init__(block_qnums,
                np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
                charges[0].charge_types)
-  if cacher.do_caching:
+  if do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
-    return cacher.cache[hash_val]
   return block_maps, obj, block_dims
 
 
@@ -457,10 +458,12 @@ def _find_transposed_diagonal_sparse_blocks(
   """
   flows = np.asarray(flows)
   cacher = get_cacher()
-  if cacher.do_caching:
+  do_caching = cacher.do_caching
+  if do_caching:
     hash_val = _to_string(charges, flows, tr_partition, order)
-    if hash_val in cacher.cache:
-      return cacher.cache[hash_val]
+    cached = _get_cached(cacher, hash_val, charges)
+    if cached is not None:
+      return cached
 
   if np.array_equal(order, None) or (np.array_equal(
       np.array(order), np.arange(len(charges)))):
@@ -628,11 +631,23 @@ def _find_transposed_diagonal_sparse_blocks(
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
                  charges[0].charge_types)
 
-  if cacher.do_caching:
+  if do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
-    return cacher.cache[hash_val]
   return block_maps, obj, block_dims
 
+def _get_cached(cacher: Cacher, hash_val: str,
+                charges: List[BaseCharge]) -> Optional[Tuple]:
+  """
+  Return the cached block-data for `hash_val`, or `None` if there is none.
+  `hash_val` only encodes the values of the charges. Charges of a different
+  symmetry can have the same values, but fuse to different blocks.
+  """
+  cached = cacher.cache.get(hash_val)
+  if cached is not None and cached[1].charge_types == charges[0].charge_types:
+    return cached
+  return None
+
+
 def _to_string(charges: List[BaseCharge], flows: Union[np.ndarray, List],
                tr_partition: int, order: List[int]) -> str:
   """
-- 
2.43.0


From a4cea02af401078b9c443327fc8667640e968fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:42 +0000
Subject: [PATCH 13/76] fix: block-sparse tensors work with legs of dimension
 one (numpy 2)

---
 tensornetwork/block_sparse/utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index b1caad7..238ea39 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -201,11 +201,11 @@ def collapse(array: np.ndarray) -> np.ndarray:
     else:
       width = 8 - array.shape[1]
 
-    tmparray = np.squeeze(
-        np.concatenate(
-            [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
-            axis=1).view(newdtype))
-  return np.squeeze(tmparray)
+    tmparray = np.concatenate(
+        [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
+        axis=1).view(newdtype)
+  # always return a 1d array, also for a single row
+  return np.ravel(tmparray)
 
 
 def expand(array: np.ndarray, original_dtype: Type[np.number],
@@ -226,7 +226,7 @@ def expand(array: np.ndarray, original_dtype: Type[np.number],
   """
   if original_ndim <= 1:
     #nothing to expand
-    return np.squeeze(array)
+    return np.ravel(array)
   if array.ndim == 1:
     #the array has been collapsed
     #now we uncollapse it
-- 
2.43.0


From e0d3e81d2195fee9fe2e7794d1d47e3f16a46cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:43 +0000
Subject: [PATCH 14/76] fix: outer product of block-sparse tensors keeps the
 dtype of the second tensor

---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 771aa1b..90f4cf6 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -903,7 +903,8 @@ def outerproduct(tensor1: BlockSparseTensor,
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
 
   data = np.zeros(
-      compute_num_nonzero(final_charges, final_flows), dtype=tensor1.dtype)
+      compute_num_nonzero(final_charges, final_flows),
+      dtype=np.result_type(tensor1.dtype, tensor2.dtype))
   if ((len(tensor1.data) > 0) and (len(tensor2.data) > 0)) and (len(data) > 0):
     # find the location of the zero block in the output
     final_block_maps, final_block_charges, _ = _find_diagonal_sparse_blocks(
-- 
2.43.0


From 93b56d7fbe96dd52de4ec046d0f70921cb79f770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 15/76] fix: the trace of a block-sparse tensor keeps the other
 axes

---
 tensornetwork/block_sparse/linalg.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index da2bf6d..31aec7d 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -653,7 +653,19 @@ def trace(tensor: BlockSparseTensor,
       a1 = list(a1ar)
     if out.ndim == 0:
       return out.item()
-    return out  # pytype: disable=bad-return-type
+    # restore the grouping of the remaining legs
+    flat_order = list(flatten(out._order))
+    order = []
+    for n, o in enumerate(tensor._order):
+      if n not in (axes[0] % tensor.ndim, axes[1] % tensor.ndim):
+        order.append(flat_order[:len(o)])
+        flat_order = flat_order[len(o):]
+    return BlockSparseTensor(
+        out.data,
+        charges=out._charges,
+        flows=out._flows,
+        order=order,
+        check_consistency=False)  # pytype: disable=bad-return-type
   raise ValueError("trace can only be taken for tensors with ndim > 1")
 
 
-- 
2.43.0


From 7e2d7338a65b70aac60056f9e1e967c52c8bad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 16/76] fix: symmetric svd/qr/rq accept legs of dimension one
 next to the pivot

---
 .../backends/symmetric/decompositions.py      | 68 +++++++++++++------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 3bd437a..d07603f 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -14,7 +14,7 @@
 """Tensor Decomposition Implementations."""
 import numpy as np
 import warnings
-from typing import Optional, Any, Tuple
+from typing import Optional, Any, Tuple, Sequence
 from tensornetwork.block_sparse.blocksparse_utils import (
     _find_transposed_diagonal_sparse_blocks)
 from tensornetwork.block_sparse.utils import get_real_dtype
@@ -24,6 +24,40 @@ from tensornetwork.block_sparse.blocksparsetensor import (BlockSparseTensor,
 Tensor = Any
 
 
+def _as_matrix(tensor: BlockSparseTensor,
+               pivot_axis: int) -> BlockSparseTensor:
+  """
+  Fuse the axes of `tensor` left and right of `pivot_axis`.
+  Unlike `reshape`, this never moves a leg of dimension one across the pivot.
+  """
+  order = tensor._order
+  return BlockSparseTensor(
+      tensor.data,
+      charges=tensor._charges,
+      flows=tensor._flows,
+      order=[[o for os in order[:pivot_axis] for o in os],
+             [o for os in order[pivot_axis:] for o in os]],
+      check_consistency=False)
+
+
+def _unfuse_axis(matrix: BlockSparseTensor, axis: int,
+                 axes: Sequence[Sequence[int]]) -> BlockSparseTensor:
+  """
+  Undo the fusion of `axes` into `axis` of `matrix`.
+  """
+  flat_order = list(matrix._order[axis])
+  order = []
+  for a in axes:
+    order.append(flat_order[:len(a)])
+    flat_order = flat_order[len(a):]
+  return BlockSparseTensor(
+      matrix.data,
+      charges=matrix._charges,
+      flows=matrix._flows,
+      order=matrix._order[:axis] + order + matrix._order[axis + 1:],
+      check_consistency=False)
+
+
 def svd(
     bt,
     tensor: BlockSparseTensor,
@@ -36,10 +70,7 @@ def svd(
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
 
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-
-  matrix = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  matrix = _as_matrix(tensor, pivot_axis)
 
   flat_charges = matrix._charges
   flat_flows = matrix._flows
@@ -211,9 +242,9 @@ def svd(
       flows=flows_v,
       order=order_v,
       check_consistency=False)
-  left_shape = left_dims + (S.shape[0],)
-  right_shape = (S.shape[0],) + right_dims
-  return U.reshape(left_shape), S, V.reshape(right_shape), Sdisc
+  U = _unfuse_axis(U, 0, tensor._order[:pivot_axis])
+  V = _unfuse_axis(V, 1, tensor._order[pivot_axis:])
+  return U, S, V, Sdisc
 
 
 def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -221,13 +252,9 @@ def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
-  q, r = bt.qr(tensor)
-  center_dim = q.shape[1]
-  q = bt.reshape(q, list(left_dims) + [center_dim])
-  r = bt.reshape(r, [center_dim] + list(right_dims))
+  q, r = bt.qr(_as_matrix(tensor, pivot_axis))
+  q = _unfuse_axis(q, 0, tensor._order[:pivot_axis])
+  r = _unfuse_axis(r, 1, tensor._order[pivot_axis:])
   return q, r
 
 
@@ -236,13 +263,10 @@ def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
-  q, r = bt.qr(bt.conj(bt.transpose(tensor, (1, 0))))
+  matrix = _as_matrix(tensor, pivot_axis)
+  q, r = bt.qr(bt.conj(bt.transpose(matrix, (1, 0))))
   r, q = bt.conj(bt.transpose(r, (1, 0))), bt.conj(bt.transpose(
       q, (1, 0)))  #M=r*q at this point
-  center_dim = r.shape[1]
-  r = bt.reshape(r, list(left_dims) + [center_dim])
-  q = bt.reshape(q, [center_dim] + list(right_dims))
+  r = _unfuse_axis(r, 0, tensor._order[:pivot_axis])
+  q = _unfuse_axis(q, 1, tensor._order[pivot_axis:])
   return r, q
-- 
2.43.0


From ae7650aaf2b53dd1e4eb1ac9d9fb07393a7349aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:58 +0000
Subject: [PATCH 17/76] fix: the trace of a block-sparse tensor keeps its dtype

---
 tensornetwork/block_sparse/linalg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index 31aec7d..f980c95 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -634,7 +634,8 @@ def trace(tensor: BlockSparseTensor,
       j = a1.pop(0)
       identity = eye(
           Index([out._charges[out._order[i][0]]],
-                [not out._flows[out._order[i][0]]]))
+                [not out._flows[out._order[i][0]]]),
+          dtype=tensor.dtype)
       #pylint: disable=line-too-long
       out = tensordot(out, identity, ([i, j], [0, 1]))  # pytype: disable=wrong-arg-types
       a0ar = np.asarray(a0)
-- 
2.43.0


From f0a8cb91a64476b9b2dd2bae15cfbe5cff641085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:45 +0000
Subject: [PATCH 18/76] fix: outer product of two scalar block-sparse tensors

---
 tensornetwork/block_sparse/blocksparsetensor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 90f4cf6..80b6138 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -898,6 +898,14 @@ def outerproduct(tensor1: BlockSparseTensor,
     BlockSparseTensor: The result of taking the outer product.
   """
 
+  if len(tensor1._charges) == 0 and len(tensor2._charges) == 0:
+    # the product of two scalars
+    return BlockSparseTensor(
+        tensor1.data * tensor2.data,
+        charges=[],
+        flows=[],
+        order=[],
+        check_consistency=False)
   final_charges = tensor1._charges + tensor2._charges
   final_flows = list(tensor1._flows) + list(tensor2._flows)
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
-- 
2.43.0


From 46bfe773817ffe1ab5e1239091020ed123393823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:44 +0000
Subject: [PATCH 19/76] fix: the trace over fused block-sparse legs pairs them
 in order

---
 tensornetwork/block_sparse/linalg.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index f980c95..14c9dad 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -621,13 +621,11 @@ def trace(tensor: BlockSparseTensor,
     #flatten the shape of `tensor`
     out = tensor.reshape(
         flatten([[tensor._charges[n].dim for n in o] for o in tensor._order]))
-    _, _, labels0 = np.intersect1d(
-        tensor._order[axes[0]], flatten(out._order), return_indices=True)
-    _, _, labels1 = np.intersect1d(
-        tensor._order[axes[1]], flatten(out._order), return_indices=True)
-
-    a0 = list(labels0[np.argsort(tensor._order[axes[0]])])
-    a1 = list(labels1[np.argsort(tensor._order[axes[1]])])
+    # the positions of the elementary legs of the two axes
+    offsets = np.append(0, np.cumsum([len(o) for o in tensor._order]))
+    n0, n1 = axes[0] % tensor.ndim, axes[1] % tensor.ndim
+    a0 = list(range(offsets[n0], offsets[n0 + 1]))
+    a1 = list(range(offsets[n1], offsets[n1 + 1]))
 
     while len(a0) > 0:
       i = a0.pop(0)
@@ -658,7 +656,7 @@ def trace(tensor: BlockSparseTensor,
     flat_order = list(flatten(out._order))
     order = []
     for n, o in enumerate(tensor._order):
-      if n not in (axes[0] % tensor.ndim, axes[1] % tensor.ndim):
+      if n not in (n0, n1):
         order.append(flat_order[:len(o)])
         flat_order = flat_order[len(o):]
     return BlockSparseTensor(
-- 
2.43.0


From 90ec73266620a7781c7dcd3148c28990f55bb219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:22 +0000
Subject: [PATCH 20/76] fix: truncated symmetric svd does not count padding as
 singular values

---
 tensornetwork/backends/symmetric/decompositions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index d07603f..aaa0b0d 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -114,6 +114,10 @@ def svd(
     extended_flat_singvals = np.ravel(extended_singvals)
     #sort singular values
     inds = np.argsort(extended_flat_singvals, kind='stable')
+    #drop the padding, it must not be mistaken for singular values
+    is_singval = np.ravel(
+        np.arange(max_D)[:, None] < np.array(orig_block_size, dtype=SIZE_T))
+    inds = inds[is_singval[inds]]
     discarded_inds = np.zeros(0, dtype=SIZE_T)
     if max_truncation_error is not None:
       if relative and (len(singvals) > 0):
-- 
2.43.0


From d8466b901fbe6840c95a75a0155cc64d3db5db42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:32 +0000
Subject: [PATCH 21/76] fix: mismatching fused block-sparse legs are reported
 with a ValueError

---
 tensornetwork/block_sparse/blocksparsetensor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 80b6138..e1e9c86 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -1019,8 +1019,9 @@ def tensordot(
     raise ValueError(
         "`axes = {}` of tensor1 and `axes = {}` of tensor2 have "
         "incompatible charges {} and {}".format(
-            np.array(axes1)[inds],
-            np.array(axes2)[inds], [contr_charges_1[i] for i in inds],
+            np.array([a for a in axes1 for _ in tensor1._order[a]])[inds],
+            np.array([a for a in axes2 for _ in tensor2._order[a]])[inds],
+            [contr_charges_1[i] for i in inds],
             [contr_charges_2[i] for i in inds]))
 
   #checks finished
-- 
2.43.0


From bfab28400561b3f11c3632fbe7961ef817a9e5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:03 +0000
Subject: [PATCH 22/76] fix: equal charges compare equal whatever the order of
 their unique values

---
 tensornetwork/block_sparse/charge.py | 11 ++++-------
 tensornetwork/block_sparse/index.py  |  9 +++------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 237b30d..708fcb4 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -652,13 +652,10 @@ def charge_equal(c1: BaseCharge, c2: BaseCharge) -> bool:
 
   res = True      
   if c1._unique_charges is not None and c2._unique_charges is not None:
-    if c1._unique_charges.shape != c2._unique_charges.shape:
-      res = False
-    elif not np.all(c1._unique_charges == c2._unique_charges):
-      res = False
-    elif not np.all(c1.charge_labels == c2.charge_labels):
-      res = False
-    return res
+    # the order of the unique charges depends on how they were computed,
+    # it only can be used if it is the same in both
+    if np.array_equal(c1._unique_charges, c2._unique_charges):
+      return bool(np.all(c1.charge_labels == c2.charge_labels))
 
   if c1._charges is not None and c2._charges is not None:
     if c1._charges.shape != c2._charges.shape:
diff --git a/tensornetwork/block_sparse/index.py b/tensornetwork/block_sparse/index.py
index 6d0aa68..a652741 100644
--- a/tensornetwork/block_sparse/index.py
+++ b/tensornetwork/block_sparse/index.py
@@ -12,7 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 import numpy as np
-from tensornetwork.block_sparse.charge import BaseCharge, fuse_charges
+from tensornetwork.block_sparse.charge import (BaseCharge, fuse_charges,
+                                               charge_equal)
 import copy
 from typing import List, Union
 
@@ -55,11 +56,7 @@ class Index:
     if len(other._charges) != len(self._charges):
       return False
     for n in range(len(self._charges)):
-      if not np.array_equal(self._charges[n].unique_charges,
-                            other._charges[n].unique_charges):
-        return False
-      if not np.array_equal(self._charges[n].charge_labels,
-                            other._charges[n].charge_labels):
+      if not charge_equal(self._charges[n], other._charges[n]):
         return False
     if not np.all(np.asarray(self.flow) == np.asarray(other.flow)):
       return False
-- 
2.43.0


From 0170a0ff706d5e419e246ad91bca525858a5b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 23/76] fix: diag of a ChargeArray with fused legs

---
 tensornetwork/block_sparse/linalg.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index 14c9dad..5f44712 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -59,6 +59,8 @@ def diag(tensor: ChargeArray) -> Any:
       raise ValueError(
           "`diag` currently only implemented for `ChargeArray` with ndim=1, "
           "found `ndim={}`".format(tensor.ndim))
+    # bring fused legs into the order of the data
+    tensor = tensor.contiguous()
     flat_charges = tensor._charges + tensor._charges
     flat_flows = list(tensor._flows) + list(np.logical_not(tensor._flows))
     flat_order = list(tensor.flat_order) + list(
@@ -79,7 +81,7 @@ def diag(tensor: ChargeArray) -> Any:
         tensor._order[0],
         list(np.asarray(tensor._order[0]) + len(tensor._charges))
     ]
-    new_charges = [tensor._charges[0].copy(), tensor._charges[0].copy()]
+    new_charges = [c.copy() for c in flat_charges]
     return BlockSparseTensor(
         data,
         charges=new_charges,
-- 
2.43.0


From 76e16521020d9b33eab691027839579e2553356a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:14 +0000
Subject: [PATCH 24/76] fix: the hermitian conjugate of a symmetric matrix has
 dual legs

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index e1e9c86..caf13ce 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -388,7 +388,7 @@ class ChargeArray:
     tensor.__init__(
         data=np.conj(self.data),
         charges=self._charges,
-        flows=self._flows,
+        flows=np.logical_not(self._flows),
         order=order,
         check_consistency=False)
 
-- 
2.43.0


From 704367da158b7c0aecda4897b9022a31012d9e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 25/76] fix: a failing MPS position leaves a valid state and
 never writes into shared tensors

---
 tensornetwork/matrixproductstates/base_mps.py | 34 +++++++++----------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c8500cb..95c9f6c 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -169,7 +169,7 @@ class BaseMPS:
     if site == self.center_position:
       Z = self.norm(self.tensors[self.center_position])
       if normalize:
-        self.tensors[self.center_position] /= Z
+        self.tensors[site] = self.tensors[site] / Z
       return Z
 
     #shift center_position to the right using QR or SV decomposition
@@ -186,17 +186,18 @@ class BaseMPS:
           rest = ncon.ncon([self.backend.diagflat(S), V], [[-1, 1], [1, -2]],
                            backend=self.backend)
 
-        self.tensors[n] = isometry
-        self.tensors[n + 1] = ncon.ncon([rest, self.tensors[n + 1]],
-                                        [[-1, 1], [1, -2, -3]],
-                                        backend=self.backend.name)
-        Z = self.norm(self.tensors[n + 1])
+        center = ncon.ncon([rest, self.tensors[n + 1]], [[-1, 1], [1, -2, -3]],
+                           backend=self.backend.name)
+        Z = self.norm(center)
         # for an mps with > O(10) sites one needs to normalize to avoid
         # over or underflow errors; this takes care of the normalization
         if normalize:
-          self.tensors[n + 1] /= Z
-
-      self.center_position = site
+          center /= Z
+        # both tensors are replaced together, so that an error raised above
+        # leaves a valid mps with its center at `center_position`
+        self.tensors[n] = isometry
+        self.tensors[n + 1] = center
+        self.center_position = n + 1
 
     #shift center_position to the left using RQ or SV decomposition
     else:
@@ -211,17 +212,16 @@ class BaseMPS:
           rest = ncon.ncon([U, self.backend.diagflat(S)], [[-1, 1], [1, -2]],
                            backend=self.backend)
 
-        self.tensors[n] = isometry  #a right-isometric tensor of rank 3
-        self.tensors[n - 1] = ncon.ncon([self.tensors[n - 1], rest],
-                                        [[-1, -2, 1], [1, -3]],
-                                        backend=self.backend.name)
-        Z = self.norm(self.tensors[n - 1])
+        center = ncon.ncon([self.tensors[n - 1], rest], [[-1, -2, 1], [1, -3]],
+                           backend=self.backend.name)
+        Z = self.norm(center)
         # for an mps with > O(10) sites one needs to normalize to avoid
         # over or underflow errors; this takes care of the normalization
         if normalize:
-          self.tensors[n - 1] /= Z
-
-      self.center_position = site
+          center /= Z
+        self.tensors[n] = isometry  #a right-isometric tensor of rank 3
+        self.tensors[n - 1] = center
+        self.center_position = n - 1
     #return the norm of the last R tensor (useful for checks)
     return Z
 
-- 
2.43.0


From 878bff2498bb6746dc3417286342f3b9567e3ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 26/76] fix: two-site gates and interrupted canonicalization
 keep center_position truthful

---
 tensornetwork/matrixproductstates/base_mps.py   | 15 +++++----------
 tensornetwork/matrixproductstates/finite_mps.py | 16 ++++++++++------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 95c9f6c..b454ded 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -570,29 +570,24 @@ class BaseMPS:
         right_tensor = ncon.ncon([self.backend.diagflat(S), V],
                                  [[-1, 1], [1, -2, -3]],
                                  backend=self.backend)
-        set_center_position(site2)
       else:
         left_tensor = ncon.ncon([U, self.backend.diagflat(S)],
                                 [[-1, -2, 1], [1, -3]],
                                 backend=self.backend)
         right_tensor = V
-        set_center_position(site1)
 
     else:
       tw = self.backend.zeros(1, dtype=self.dtype)
       if center_position == site2:
-        R, Q = self.backend.rq(tensor, pivot_axis=2)
-        left_tensor = R
-        right_tensor = Q
-        set_center_position(site2)
+        # the center is at `site2`: the tensor at `site1` is left-orthogonal
+        left_tensor, right_tensor = self.backend.qr(tensor, pivot_axis=2)
       else:
-        Q, R = self.backend.qr(tensor, pivot_axis=2)
-        left_tensor = Q
-        right_tensor = R
-        set_center_position(site1)
+        # the center is at `site1`: the tensor at `site2` is right-orthogonal
+        left_tensor, right_tensor = self.backend.rq(tensor, pivot_axis=2)
 
     self.tensors[site1] = left_tensor
     self.tensors[site2] = right_tensor
+    set_center_position(center_position)
     return tw
 
   def apply_one_site_gate(self, gate: Tensor, site: int) -> None:
diff --git a/tensornetwork/matrixproductstates/finite_mps.py b/tensornetwork/matrixproductstates/finite_mps.py
index bc5dd8e..48c43a8 100644
--- a/tensornetwork/matrixproductstates/finite_mps.py
+++ b/tensornetwork/matrixproductstates/finite_mps.py
@@ -132,18 +132,22 @@ class FiniteMPS(BaseMPS):
       `Tensor`: The norm of the MPS.
     """
     N = len(self.tensors)
-    if self.center_position is not None:
-      pos = self.center_position
+    pos = self.center_position
+    try:
+      if pos is None:
+        self.center_position = N - 1
+        return self.position(0, normalize=normalize)
       if pos >= N // 2:
         self.center_position = 0
         self.position(N - 1, normalize=normalize)
       else:
-        self.center_position = len(self.tensors) - 1
+        self.center_position = N - 1
         self.position(0, normalize=normalize)
       return self.position(pos, normalize=normalize)
-
-    self.center_position = len(self.tensors) - 1
-    return self.position(0, normalize=normalize)
+    except BaseException:
+      # the sweep did not finish: the state is not known to be canonical
+      self.center_position = None
+      raise
 
   def check_canonical(self) -> Tensor:
     """Check whether the MPS is in the expected canonical form.
-- 
2.43.0


From 9a42e7cef3c780d037924a170208c957c770a4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 27/76] fix: check_canonical of a single-site MPS

---
 tensornetwork/matrixproductstates/base_mps.py   | 3 +++
 tensornetwork/matrixproductstates/finite_mps.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index b454ded..5163e6c 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -663,6 +663,9 @@ class BaseMPS:
       else:
         continue
       deviations.append(deviation**2)
+    if not deviations:  # a single site is its own orthogonality center
+      norm = self.norm(self.tensors[self.center_position])
+      return norm - norm
     return self.backend.sqrt(sum(deviations[1:], deviations[0]))
 
   def get_tensor(self, site: int) -> Tensor:
diff --git a/tensornetwork/matrixproductstates/finite_mps.py b/tensornetwork/matrixproductstates/finite_mps.py
index 48c43a8..5d9fc87 100644
--- a/tensornetwork/matrixproductstates/finite_mps.py
+++ b/tensornetwork/matrixproductstates/finite_mps.py
@@ -167,6 +167,9 @@ class FiniteMPS(BaseMPS):
       else:
         continue
       deviations.append(deviation**2)
+    if not deviations:  # a single site is its own orthogonality center
+      norm = self.norm(self.tensors[self.center_position])
+      return norm - norm
     return self.backend.sqrt(sum(deviations[1:], deviations[0]))
 
   def left_envs(self, sites: Sequence[int]) -> Dict:
-- 
2.43.0


From 43bde10b94d8a1b628bfbb37c736e110d66b4971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:59 +0000
Subject: [PATCH 28/76] fix: two-body correlators come back in the order of
 sites2

---
 tensornetwork/matrixproductstates/base_mps.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 5163e6c..10073b3 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -363,7 +363,7 @@ class BaseMPS:
     ls = self.left_envs(
         np.append(np.mod(left_sites, N), site1).astype(np.int64))
 
-    c = []
+    c = {}  # maps sites to correlators
     if len(left_sites) > 0:
 
       A = Node(self.tensors[site1], backend=self.backend)
@@ -404,14 +404,12 @@ class BaseMPS:
           R[1] ^ conj_A[2]
 
           res = (((L @ A) @ O2) @ conj_A) @ R
-          c.append(res.tensor)
+          c[n] = res.tensor
         if n > n1:
           R = Node(
               self.apply_transfer_operator(n % N, 'right', R.tensor),
               backend=self.backend)
 
-      c = list(reversed(c))
-
     # compute <op2(site1)op1(site1)>
     if site1 in sites2:
       O1 = Node(op1, backend=self.backend)
@@ -430,7 +428,7 @@ class BaseMPS:
       conj_A[1] ^ O1[0]
       O = O1 @ O2
       res = (((L @ A) @ O) @ conj_A) @ R
-      c.append(res.tensor)
+      c[site1] = res.tensor
 
     # compute <op1(site1) op2(site2)> for site1 < site2
     if len(right_sites) > 0:
@@ -470,13 +468,13 @@ class BaseMPS:
           R[0] ^ A[2]
           R[1] ^ conj_A[2]
           res = L @ A @ O2 @ conj_A @ R
-          c.append(res.tensor)
+          c[n] = res.tensor
 
         if n < n2:
           L = Node(
               self.apply_transfer_operator(n % N, 'left', L.tensor),
               backend=self.backend)
-    return [self.backend.item(o) for o in c]
+    return [self.backend.item(c[n]) for n in sites2]
 
   def apply_two_site_gate(self,
                           gate: Tensor,
-- 
2.43.0


From a7414c5ce58222f5b53cabc177653cd5051808c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:42 +0000
Subject: [PATCH 29/76] fix: two-site gates without truncation on symmetric MPS

---
 tensornetwork/matrixproductstates/base_mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 10073b3..7771acc 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -575,7 +575,9 @@ class BaseMPS:
         right_tensor = V
 
     else:
-      tw = self.backend.zeros(1, dtype=self.dtype)
+      # nothing is truncated (`zeros` needs indices for symmetric tensors)
+      norm = self.norm(tensor)
+      tw = norm - norm
       if center_position == site2:
         # the center is at `site2`: the tensor at `site1` is left-orthogonal
         left_tensor, right_tensor = self.backend.qr(tensor, pivot_axis=2)
-- 
2.43.0


From 3434993428e5a00e0f984326b89758d97284a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:10 +0000
Subject: [PATCH 30/76] fix: Krylov solvers leave the caller's tensors alone
 and accept fused legs

---
 tensornetwork/backends/numpy/numpy_backend.py | 13 ++++-----
 .../backends/symmetric/symmetric_backend.py   | 27 ++++++++++---------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 2d37539..d548221 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -479,9 +479,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
       raise TypeError("Expected a `np.ndarray`. Got {}".format(
           type(initial_state)))
 
-    vector_n = initial_state
-    Z = self.norm(vector_n)
-    vector_n /= Z
+    # neither `initial_state` nor the results of `A` are modified in place
+    Z = self.norm(initial_state)
+    vector_n = initial_state / Z
     norms_vector_n = []
     diag_elements = []
     krylov_vecs = []
@@ -513,12 +513,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
             break
         first = False
         eigvalsold = eigvals[0:numeig]
+      vector_n = A_vector_n - (krylov_vecs[-1] * diag_elements[-1])
       if it > 0:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
-        A_vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
-      else:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
-      vector_n = A_vector_n
+        vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
 
     A_tridiag = np.diag(diag_elements) + np.diag(
         norms_vector_n[1:], 1) + np.diag(np.conj(norms_vector_n[1:]), -1)
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 8cedc6d..6450baa 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -240,17 +240,18 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
       raise TypeError("Expected a `BlockSparseTensor`. Got {}".format(
           type(initial_state)))
     
-    initial_state.contiguous(inplace=True)
+    # the tensor of the caller keeps its memory layout
+    initial_state = initial_state.contiguous()
     dim = len(initial_state.data)
     def matvec(vector):
       tmp.data = vector
       res = A(tmp, *args)
-      res.contiguous(inplace=True)
-      return res.data
+      return res.contiguous().data
     tmp = BlockSparseTensor(
         numpy.empty(0, dtype=initial_state.dtype),
         initial_state._charges,
         initial_state._flows,
+        order=initial_state._order,
         check_consistency=False)
     lop = sp.sparse.linalg.LinearOperator(
         dtype=initial_state.dtype, shape=(dim, dim), matvec=matvec)
@@ -279,6 +280,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             U[:, n],
             initial_state._charges,
             initial_state._flows,
+            order=initial_state._order,
             check_consistency=False) for n in range(numeig)
     ]
 
@@ -368,11 +370,11 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     if enable_caching:
       cache_was_empty = self.bs.get_cacher().is_empty
     try:
-      vector_n = initial_state
-      vector_n.contiguous(inplace=True)  # bring into contiguous memory layout
+      # bring into contiguous memory layout (without altering `initial_state`)
+      vector_n = initial_state.contiguous()
 
       Z = self.norm(vector_n)
-      vector_n /= Z
+      vector_n = vector_n / Z
       norms_vector_n = []
       diag_elements = []
       krylov_vecs = []
@@ -396,8 +398,8 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             vector_n.data -= numpy.dot(numpy.conj(v.data),
                                        vector_n.data) * v.data
         krylov_vecs.append(vector_n)
-        A_vector_n = A(vector_n, *args)
-        A_vector_n.contiguous(inplace=True)  # contiguous memory layout
+        # contiguous memory layout; the tensor returned by `A` is not altered
+        A_vector_n = A(vector_n, *args).contiguous()
 
         # operate on tensor-data for scalar products
         # this can be potentially problematic if vector_n and A_vector_n
@@ -571,18 +573,19 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     if A_kwargs is None:
       A_kwargs = {}
 
-    x0.contiguous(inplace=True)
-    b.contiguous(inplace=True)
+    # the tensors of the caller keep their memory layout
+    x0 = x0.contiguous()
+    b = b.contiguous()
     tmp = BlockSparseTensor(
         numpy.empty(0, dtype=x0.dtype),
         x0._charges,
         x0._flows,
+        order=x0._order,
         check_consistency=False)
     def matvec(vector):
       tmp.data = vector
       res = A_mv(tmp, *A_args, **A_kwargs)
-      res.contiguous(inplace=True)
-      return res.data
+      return res.contiguous().data
 
     dim = len(x0.data)
     A_op = sp.sparse.linalg.LinearOperator(
-- 
2.43.0


From ca1c3c20d4c0a72f504f644408b4d59ea10c7531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:35 +0000
Subject: [PATCH 31/76] fix: gmres does not modify the tensors returned by the
 operator

---
 tensornetwork/backends/numpy/numpy_backend.py         | 2 +-
 tensornetwork/backends/symmetric/symmetric_backend.py | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index d548221..d52fe9e 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -392,7 +392,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     def matvec(v):
       v_tensor = v.reshape(b.shape)
       Av = A_mv(v_tensor, *A_args, **A_kwargs)
-      Avec = Av.ravel()
+      Avec = Av.flatten() # a copy: scipy modifies the returned array in place
       return Avec
 
     A_shape = (b.size, b.size)
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 6450baa..c85946b 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -585,7 +585,8 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     def matvec(vector):
       tmp.data = vector
       res = A_mv(tmp, *A_args, **A_kwargs)
-      return res.contiguous().data
+      # scipy modifies the returned array in place
+      return numpy.array(res.contiguous().data)
 
     dim = len(x0.data)
     A_op = sp.sparse.linalg.LinearOperator(
-- 
2.43.0


From f6a1606e04c506f30f4255d2fa99c54abf726931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:08 +0000
Subject: [PATCH 32/76] fix: backend and collection contexts of concurrent
 threads are independent

The stacks of entered contexts were process-wide lists. A thread saw the
default backend and the node collection of blocks entered by other threads,
and leaving a block removed the entry of whichever thread entered last.
---
 tensornetwork/backend_contextmanager.py | 29 ++++++++++++++++++++-----
 tensornetwork/network_components.py     |  4 ++--
 tensornetwork/ops.py                    | 24 +++++++++++++++++---
 3 files changed, 46 insertions(+), 11 deletions(-)

diff --git a/tensornetwork/backend_contextmanager.py b/tensornetwork/backend_contextmanager.py
index 70b6a21..ea78df8 100644
--- a/tensornetwork/backend_contextmanager.py
+++ b/tensornetwork/backend_contextmanager.py
@@ -1,4 +1,5 @@
-from typing import Text, Union
+import contextvars
+from typing import Text, Tuple, Union
 from tensornetwork.backends.abstract_backend import AbstractBackend
 from tensornetwork.backends import backend_factory
 
@@ -13,21 +14,37 @@ class DefaultBackend():
     self.backend = backend
 
   def __enter__(self):
-    _default_backend_stack.stack.append(self)
+    _default_backend_stack.push(self)
 
   def __exit__(self, exc_type, exc_val, exc_tb):
-    _default_backend_stack.stack.pop()
+    _default_backend_stack.pop()
 
 
 class _DefaultBackendStack():
-  """A stack to keep track default backends context manager"""
+  """A stack to keep track default backends context manager
+
+  The contexts that were entered by a thread (or an asyncio task) are only
+  visible in that thread. The backend used outside of any context is the same
+  for all threads.
+  """
 
   def __init__(self):
-    self.stack = []
+    self._stack = contextvars.ContextVar("default_backend_stack", default=())
     self.default_backend = "numpy"
 
+  @property
+  def stack(self) -> Tuple[DefaultBackend, ...]:
+    return self._stack.get()
+
+  def push(self, item: DefaultBackend) -> None:
+    self._stack.set(self.stack + (item,))
+
+  def pop(self) -> None:
+    self._stack.set(self.stack[:-1])
+
   def get_current_backend(self):
-    return self.stack[-1].backend if self.stack else self.default_backend
+    stack = self.stack
+    return stack[-1].backend if stack else self.default_backend
 
 
 _default_backend_stack = _DefaultBackendStack()
diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index bc52597..6aa7374 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -2276,7 +2276,7 @@ class NodeCollection:
       self._container.append(node)
 
   def __enter__(self):
-    ops._default_collection_stack.stack.append(self)
+    ops._default_collection_stack.push(self)
 
   def __exit__(self, exc_type, exc_val, exc_tb):
-    ops._default_collection_stack.stack.pop()
+    ops._default_collection_stack.pop()
diff --git a/tensornetwork/ops.py b/tensornetwork/ops.py
index 4504bd6..58a6ee3 100644
--- a/tensornetwork/ops.py
+++ b/tensornetwork/ops.py
@@ -12,15 +12,33 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import contextvars
+from typing import Any, Tuple
+
 
 class _DefaultNodeCollectionStack:
-  """A stack to keep track of contexts that were entered."""
+  """A stack to keep track of contexts that were entered.
+
+  The contexts that were entered by a thread (or an asyncio task) are only
+  visible in that thread.
+  """
 
   def __init__(self):
-    self.stack = []
+    self._stack = contextvars.ContextVar("node_collection_stack", default=())
+
+  @property
+  def stack(self) -> Tuple:
+    return self._stack.get()
+
+  def push(self, item: Any) -> None:
+    self._stack.set(self.stack + (item,))
+
+  def pop(self) -> None:
+    self._stack.set(self.stack[:-1])
 
   def get_current_item(self):
-    return self.stack[-1] if self.stack else None
+    stack = self.stack
+    return stack[-1] if stack else None
 
 
 _default_collection_stack = _DefaultNodeCollectionStack()
-- 
2.43.0


From 216afdbd5a244867537dd63b9f136f05eb20d89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:08 +0000
Subject: [PATCH 33/76] fix: charges shared between threads switch
 representation safely

unique_charges and charge_labels drop the full charges after computing the
compressed representation. Another thread that used the same charge at that
time found neither representation.
---
 tensornetwork/block_sparse/charge.py | 71 +++++++++++++++-------------
 1 file changed, 39 insertions(+), 32 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 708fcb4..a9f6e32 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -80,23 +80,29 @@ class BaseCharge:
   @property
   def unique_charges(self):
     if self._unique_charges is None:
-      self._unique_charges, self._charge_labels = unique(
-          self.charges, return_inverse=True)
-      self._charges = None
+      self._set_unique_charges()
     return self._unique_charges
 
   @property
   def charge_labels(self):
     if self._charge_labels is None:
-      self._unique_charges, self._charge_labels = unique(
-          self.charges, return_inverse=True)
-      self._charges = None
+      self._set_unique_charges()
     return self._charge_labels
 
+  def _set_unique_charges(self) -> None:
+    # A charge may be shared between threads: the labels are set before the
+    # unique charges, and the full charges are dropped last, so that any other
+    # thread finds either representation complete.
+    unique_charges, charge_labels = unique(self.charges, return_inverse=True)
+    self._charge_labels = charge_labels
+    self._unique_charges = unique_charges
+    self._charges = None
+
   @property
   def charges(self):
-    if self._charges is not None:
-      return self._charges
+    charges = self._charges
+    if charges is not None:
+      return charges
     return self._unique_charges[self._charge_labels, :]
 
   @staticmethod
@@ -120,9 +126,10 @@ class BaseCharge:
 
   @property
   def dim(self):
-    if self._charge_labels is not None:
-      return len(self._charge_labels)
-    return self._charges.shape[0]
+    charges = self._charges
+    if charges is not None:
+      return charges.shape[0]
+    return len(self._charge_labels)
 
   @property
   def num_unique(self) -> int:
@@ -135,12 +142,13 @@ class BaseCharge:
     """
     Return a copy of `BaseCharge`.
     """
-    if self._unique_charges is not None:
+    charges = self._charges
+    if charges is not None:
+      charges = charges.copy()
+      labels = None
+    else:
       charges = self._unique_charges.copy()
       labels = self._charge_labels.copy()
-    else:
-      charges = self._charges.copy()
-      labels = None
 
     obj = self.__new__(type(self))
     obj.__init__(
@@ -152,9 +160,10 @@ class BaseCharge:
 
   @property
   def dtype(self):
-    if self._unique_charges is not None:
-      return self._unique_charges.dtype
-    return self._charges.dtype
+    charges = self._charges
+    if charges is not None:
+      return charges.dtype
+    return self._unique_charges.dtype
 
   def __repr__(self):
     return 'BaseCharge object:' + '\n   charge types: ' + self.names + \
@@ -165,8 +174,9 @@ class BaseCharge:
     return self.Iterator(self.charges)
 
   def __len__(self):
-    if self._charges is not None:
-      return self.charges.shape[0]
+    charges = self._charges
+    if charges is not None:
+      return charges.shape[0]
     return self._charge_labels.shape[0]
 
   def __eq__(self, target_charges: Union[np.ndarray,
@@ -230,7 +240,8 @@ class BaseCharge:
       BaseCharge
     """
     if take_dual:
-      if self._unique_charges is not None:
+      charges = self._charges
+      if charges is None:
         unique_dual_charges = np.stack([
             self.charge_types[n].dual_charges(self._unique_charges[:, n])
             for n in range(len(self.charge_types))
@@ -244,7 +255,7 @@ class BaseCharge:
             charge_types=self.charge_types)
         return obj
       dual_charges = np.stack([
-          self.charge_types[n].dual_charges(self._charges[:, n])
+          self.charge_types[n].dual_charges(charges[:, n])
           for n in range(len(self.charge_types))
       ],
                               axis=1)
@@ -354,9 +365,10 @@ class BaseCharge:
     """
 
     obj = self.__new__(type(self))
-    if self._charges is not None:
+    charges = self._charges
+    if charges is not None:
       tmp = unique(
-          self._charges,
+          charges,
           return_index=return_index,
           return_inverse=return_inverse,
           return_counts=return_counts)
@@ -467,14 +479,15 @@ class BaseCharge:
       n = np.asarray([n])
     n = np.asarray(n)
     obj = self.__new__(type(self))
-    if self._unique_charges is not None:
+    charges = self._charges
+    if charges is None:
       labels = self.charge_labels[n]
       unique_labels, new_labels = unique(labels, return_inverse=True)
       unique_charges = self.unique_charges[unique_labels, :]
       obj.__init__(unique_charges, new_labels, self.charge_types)
       return obj
     obj.__init__(
-        self._charges[n, :], charge_labels=None, charge_types=self.charge_types)
+        charges[n, :], charge_labels=None, charge_types=self.charge_types)
     return obj
 
   @property
@@ -657,12 +670,6 @@ def charge_equal(c1: BaseCharge, c2: BaseCharge) -> bool:
     if np.array_equal(c1._unique_charges, c2._unique_charges):
       return bool(np.all(c1.charge_labels == c2.charge_labels))
 
-  if c1._charges is not None and c2._charges is not None:
-    if c1._charges.shape != c2._charges.shape:
-      res = False
-    elif not np.all(c1._charges == c2._charges):
-      res = False
-    return res
   if c1.charges.shape != c2.charges.shape:
     res = False
   elif not np.all(c1.charges == c2.charges):
-- 
2.43.0


From bc959574a84a928f4825918e32f0a66cc6ec6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:05 +0000
Subject: [PATCH 34/76] fix: the order of unique charges does not depend on the
 representation

Conjugating a charge after its unique values had been computed left them in
reverse order. A contraction that fused the same charge before and after that
combined block data of two different orders.
---
 tensornetwork/block_sparse/charge.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index a9f6e32..87d020b 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -248,10 +248,14 @@ class BaseCharge:
         ],
                                        axis=1)
 
+        # as for full charges, the order of the unique charges must only depend
+        # on their values
+        unique_dual_charges, labels = unique(
+            unique_dual_charges, return_inverse=True)
         obj = self.__new__(type(self))
         obj.__init__(
             unique_dual_charges,
-            charge_labels=self.charge_labels,
+            charge_labels=labels[self.charge_labels],
             charge_types=self.charge_types)
         return obj
       dual_charges = np.stack([
-- 
2.43.0


From 10d8afc5b19699cf6919bfdd59a952c9002c3f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 35/76] fix: a failing DMRG step or center shift leaves a valid
 mps and usable environments

The optimized tensors, the center position and the environments were updated
one by one; an error in between lost part of the state.
---
 tensornetwork/matrixproductstates/dmrg.py | 121 +++++++++++++---------
 1 file changed, 73 insertions(+), 48 deletions(-)

diff --git a/tensornetwork/matrixproductstates/dmrg.py b/tensornetwork/matrixproductstates/dmrg.py
index 647e333..f63ab12 100644
--- a/tensornetwork/matrixproductstates/dmrg.py
+++ b/tensornetwork/matrixproductstates/dmrg.py
@@ -124,24 +124,30 @@ class BaseDMRG:
       raise IndexError("site > length of mps")
     if site < 0:
       raise IndexError("site < 0")
+    # an earlier call that failed can have moved the center without completing
+    # the environments
+    if self.mps.center_position not in self.left_envs:
+      self.compute_left_envs()
+    if self.mps.center_position not in self.right_envs:
+      self.compute_right_envs()
     if site == self.mps.center_position:
       return self
 
-    if site > self.mps.center_position:
+    while site > self.mps.center_position:
       pos = self.mps.center_position
-      self.mps.position(site)
-      for m in range(pos, site):
-        self.left_envs[m + 1] = self.add_left_layer(self.left_envs[m],
-                                                    self.mps.tensors[m],
-                                                    self.mpo.tensors[m])
+      self.left_envs.pop(pos + 1, None)
+      self.mps.position(pos + 1)
+      self.left_envs[pos + 1] = self.add_left_layer(self.left_envs[pos],
+                                                    self.mps.tensors[pos],
+                                                    self.mpo.tensors[pos])
 
-    elif site < self.mps.center_position:
+    while site < self.mps.center_position:
       pos = self.mps.center_position
-      self.mps.position(site)
-      for m in reversed(range(site, pos)):
-        self.right_envs[m] = self.add_right_layer(self.right_envs[m + 1],
-                                                  self.mps.tensors[m + 1],
-                                                  self.mpo.tensors[m + 1])
+      self.right_envs.pop(pos - 1, None)
+      self.mps.position(pos - 1)
+      self.right_envs[pos - 1] = self.add_right_layer(self.right_envs[pos],
+                                                      self.mps.tensors[pos],
+                                                      self.mpo.tensors[pos])
 
     for m in range(site + 1, len(self.mps) + 1):
       try:
@@ -181,6 +187,44 @@ class BaseDMRG:
                                                     self.mps.tensors[n],
                                                     self.mpo.tensors[n])
 
+  def _move_to_left_end(self) -> None:
+    """
+    Move the center position to the left end and compute all right environment
+    blocks. All other blocks are dropped, the mps may have been changed.
+    """
+    self.left_envs = {0: self.left_envs[0]}
+    self.right_envs = {len(self.mps) - 1: self.right_envs[len(self.mps) - 1]}
+    self.mps.position(0)
+    self.compute_right_envs()
+
+  def _shift_right(self, isometry, center) -> None:
+    """
+    Replace the center tensor by `isometry` and its right neighbor by `center`,
+    the new center tensor. All changes are made together, so that an error
+    leaves a valid mps.
+    """
+    site = self.mps.center_position
+    left_env = self.add_left_layer(self.left_envs[site], isometry,
+                                   self.mpo.tensors[site])
+    self.mps.tensors[site] = isometry
+    self.mps.tensors[site + 1] = center
+    self.mps.center_position += 1
+    self.left_envs[site + 1] = left_env
+
+  def _shift_left(self, isometry, center) -> None:
+    """
+    Replace the center tensor by `isometry` and its left neighbor by `center`,
+    the new center tensor. All changes are made together, so that an error
+    leaves a valid mps.
+    """
+    site = self.mps.center_position
+    right_env = self.add_right_layer(self.right_envs[site], isometry,
+                                     self.mpo.tensors[site])
+    self.mps.tensors[site] = isometry
+    self.mps.tensors[site - 1] = center
+    self.mps.center_position -= 1
+    self.right_envs[site - 1] = right_env
+
   def _optimize_1s_local(self,
                          sweep_dir,
                          num_krylov_vecs=10,
@@ -226,25 +270,21 @@ class BaseDMRG:
 
     if sweep_dir in ('r', 'right'):
       Q, R = self.mps.qr(local_ground_state)
-      self.mps.tensors[site] = Q
       if site < len(self.mps.tensors) - 1:
-        self.mps.center_position += 1
-        self.mps.tensors[site + 1] = ncon([R, self.mps.tensors[site + 1]],
-                                          [[-1, 1], [1, -2, -3]],
-                                          backend=self.backend.name)
-        self.left_envs[site + 1] = self.add_left_layer(self.left_envs[site], Q,
-                                                       self.mpo.tensors[site])
+        center = ncon([R, self.mps.tensors[site + 1]], [[-1, 1], [1, -2, -3]],
+                      backend=self.backend.name)
+        self._shift_right(Q, center)
+      else:
+        self.mps.tensors[site] = Q
 
     elif sweep_dir in ('l', 'left'):
       R, Q = self.mps.rq(local_ground_state)
-      self.mps.tensors[site] = Q
       if site > 0:
-        self.mps.center_position -= 1
-        self.mps.tensors[site - 1] = ncon([self.mps.tensors[site - 1], R],
-                                          [[-1, -2, 1], [1, -3]],
-                                          backend=self.backend.name)
-        self.right_envs[site - 1] = self.add_right_layer(
-            self.right_envs[site], Q, self.mpo.tensors[site])
+        center = ncon([self.mps.tensors[site - 1], R], [[-1, -2, 1], [1, -3]],
+                      backend=self.backend.name)
+        self._shift_left(Q, center)
+      else:
+        self.mps.tensors[site] = Q
 
     return energy
 
@@ -299,13 +339,8 @@ class BaseDMRG:
 
       u, s, vh, _ = self.mps.svd(local_ground_state, 2, max_bond_dim, None)
       s = self.backend.diagflat(s)
-      self.mps.tensors[site] = u
-      if site < len(self.mps.tensors) - 1:
-        self.mps.center_position += 1
-        self.mps.tensors[site + 1] = ncon([s, vh], [[-1, 1], [1, -2, -3]],
-                                          backend=self.backend.name)
-        self.left_envs[site + 1] = self.add_left_layer(self.left_envs[site], u,
-                                                       self.mpo.tensors[site])
+      center = ncon([s, vh], [[-1, 1], [1, -2, -3]], backend=self.backend.name)
+      self._shift_right(u, center)
 
     elif sweep_dir in ('l', 'left'):
       bond_mps = ncon([self.mps.tensors[site - 1], self.mps.tensors[site]],
@@ -330,15 +365,8 @@ class BaseDMRG:
 
       u, s, vh, _ = self.mps.svd(local_ground_state, 2, max_bond_dim, None)
       s = self.backend.diagflat(s)
-      self.mps.tensors[site] = vh
-      if site > 0:
-        self.mps.center_position -= 1
-        self.mps.tensors[site - 1] = ncon([u, s],
-                                          [[-1, -2, 1], [1, -3]],
-                                          backend=self.backend.name)
-        self.right_envs[site - 1] = \
-          self.add_right_layer(self.right_envs[site], vh,
-                               self.mpo.tensors[site])
+      center = ncon([u, s], [[-1, -2, 1], [1, -3]], backend=self.backend.name)
+      self._shift_left(vh, center)
 
     return energy
 
@@ -381,8 +409,7 @@ class BaseDMRG:
     iteration = 1
     initial_site = 0
 
-    self.mps.position(0)  #move center position to the left end
-    self.compute_right_envs()
+    self._move_to_left_end()
 
     def print_msg(site):
       if verbose < 2:
@@ -484,8 +511,7 @@ class BaseDMRG:
     iteration = 1
     initial_site = 0
 
-    self.mps.position(0)  #move center position to the left end
-    self.compute_right_envs()
+    self._move_to_left_end()
 
     # TODO (pedersor): print max truncation errors
     def print_msg(left_site, right_site):
@@ -559,8 +585,7 @@ class BaseDMRG:
     return final_energy
 
   def compute_energy(self):
-    self.mps.position(0)  #move center position to the left end
-    self.compute_right_envs()
+    self._move_to_left_end()
     return ncon([
         self.add_right_layer(self.right_envs[0], self.mps.tensors[0],
                              self.mpo.tensors[0]),
-- 
2.43.0


From 7d20c8e9c83acf1a42d70bc19189a5b61a4c603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 36/76] fix: transfer_matrix_eigs and canonicalize accept
 initial states

The truth value of the array raised ValueError.
---
 tensornetwork/matrixproductstates/infinite_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index ff7d4ed..3b396da 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -131,7 +131,7 @@ class InfiniteMPS(BaseMPS):
           direction, self.backend.reshape(vector, (D, D)))
       return self.backend.reshape(result, (D * D,))
 
-    if not initial_state:
+    if initial_state is None:
       initial_state = self.backend.randn((self.bond_dimensions[0]**2,),
                                          dtype=self.dtype)
     else:
-- 
2.43.0


From 055091eedc22c04329dfe8cf6c4f976cd1ea304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 37/76] fix: canonicalizing a real InfiniteMPS keeps its dtype

The dominant eigenvectors of a real transfer matrix came back complex and made
the tensors complex.
---
 tensornetwork/matrixproductstates/infinite_mps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index 3b396da..b21b554 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -162,9 +162,12 @@ class InfiniteMPS(BaseMPS):
         which='LR',
         maxiter=maxiter,
         dtype=self.dtype)
+    eigval = eta[0]
     result = self.backend.reshape(
         dens[0], (self.bond_dimensions[0], self.bond_dimensions[0]))
-    return eta[0], result
+    if not np.issubdtype(self.dtype, np.complexfloating):
+      eigval, result = eigval.real, result.real
+    return eigval, result
 
   def right_envs(self, sites: Sequence[int]) -> Dict:
     raise NotImplementedError()
-- 
2.43.0


From b26c8fd887e8504b8b39f23226f38c43b8d9051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:23 +0000
Subject: [PATCH 38/76] fix: InfiniteMPS.canonicalize takes the connector
 matrix into account

The transfer matrices ignored the connector, so canonicalizing a second time
gave a state that was neither normalized nor canonical. The new tensors replace
the old ones together, so that an error leaves a valid mps.
---
 tensornetwork/matrixproductstates/base_mps.py | 13 +++++---
 .../matrixproductstates/infinite_mps.py       | 31 +++++++++++--------
 2 files changed, 27 insertions(+), 17 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 7771acc..c5f25d9 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -276,12 +276,17 @@ class BaseMPS:
     Returns:
       `Tensor`: The result of applying the MPS transfer-operator to `matrix`
     """
+    # the connector matrix is part of the last tensor of the unit cell
+    if self.connector_matrix is None:
+      tensor = self.tensors[site]
+    else:
+      tensor = self.get_tensor(site)
     if direction in (1, 'l', 'left'):
-      return self.left_transfer_operator(self.tensors[site], matrix,
-                                         self.backend.conj(self.tensors[site]))
+      return self.left_transfer_operator(tensor, matrix,
+                                         self.backend.conj(tensor))
     if direction in (-1, 'r', 'right'):
-      return self.right_transfer_operator(self.tensors[site], matrix,
-                                          self.backend.conj(self.tensors[site]))
+      return self.right_transfer_operator(tensor, matrix,
+                                          self.backend.conj(tensor))
     raise ValueError(f'unknown value {direction} for direction')
 
   def measure_local_operator(self, ops: List[Tensor],
diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index b21b554..c35bcda 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -217,8 +217,13 @@ class InfiniteMPS(BaseMPS):
     if self.center_position is None:
       self.center_position = 0
 
+    # The new tensors are computed first and replace the old ones together, so
+    # that an error in between leaves a valid mps for the same state.
     # bring center_position to 0
     self.position(0)
+    # absorb the connector matrix, it is part of the transfer matrix
+    self.tensors[-1] = self.get_tensor(len(self) - 1)
+    self.connector_matrix = None
     # dtype of eta is the same as InfiniteMPS.dtype
     # this is assured in the backend.
     eta, l = self.transfer_matrix_eigs(
@@ -228,7 +233,8 @@ class InfiniteMPS(BaseMPS):
         num_krylov_vecs=num_krylov_vecs,
         maxiter=maxiter)
     sqrteta = self.backend.sqrt(self.backend.abs(eta))
-    self.tensors[0] /= sqrteta
+    tensors = list(self.tensors)
+    tensors[0] = tensors[0] / sqrteta
 
     # TODO: would be nice to do the algebra directly on the nodes here
     l /= self.backend.trace(l)
@@ -288,23 +294,22 @@ class InfiniteMPS(BaseMPS):
         max_truncation_error=truncation_threshold,
         relative=True)
     lam = self.backend.diagflat(singvals)
-    self.tensors[0] = ncon([lam, V, inv_sqrtr, self.tensors[0]],
-                           [[-1, 1], [1, 2], [2, 3], [3, -2, -3]],
-                           backend=self.backend.name)
+    tensors[0] = ncon([lam, V, inv_sqrtr, tensors[0]],
+                      [[-1, 1], [1, 2], [2, 3], [3, -2, -3]],
+                      backend=self.backend.name)
 
-    # absorb connector * inv_sqrtl * U * lam into the right-most tensor
+    # absorb inv_sqrtl * U * lam into the right-most tensor
     # Note that lam is absorbed here, which means that the state
     # is in the parallel decomposition
-    # Note that we absorb connector_matrix here
-    self.tensors[-1] = ncon([self.get_tensor(len(self) - 1), inv_sqrtl, U, lam],
-                            [[-1, -2, 1], [1, 2], [2, 3], [3, -3]],
-                            backend=self.backend.name)
+    tensors[-1] = ncon([tensors[-1], inv_sqrtl, U, lam],
+                       [[-1, -2, 1], [1, 2], [2, 3], [3, -3]],
+                       backend=self.backend.name)
+    lam_norm = self.backend.norm(singvals)
+    connector_matrix = self.backend.inv(lam / lam_norm)
+    self.tensors = tensors
+    self.connector_matrix = connector_matrix
     # now do a sweep of QR decompositions to bring the mps tensors into
     # left canonical form (except the last one)
     self.position(len(self) - 1)
-    lam_norm = self.backend.norm(singvals)
-    lam /= lam_norm
-    self.center_position = len(self) - 1
-    self.connector_matrix = self.backend.inv(lam)
 
     return lam_norm
-- 
2.43.0


From c16b875d688bd06fd9c5c0b4fc95ff461036a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:39 +0000
Subject: [PATCH 39/76] fix: chains of identities in a QuOperator contract in
 any iteration order

---
 tensornetwork/quantum/quantum.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 1dc7981..79d5c81 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -140,6 +140,13 @@ def eliminate_identities(nodes: Collection[AbstractNode]) -> Tuple[dict, dict]:
         dangling_edges_dict[e] = e
       nodes_dict[n] = n
 
+  # A replacement can itself have been replaced, if it belonged to an identity
+  # that was eliminated later.
+  for e, new_edge in dangling_edges_dict.items():
+    while dangling_edges_dict.get(new_edge, new_edge) is not new_edge:
+      new_edge = dangling_edges_dict[new_edge]
+    dangling_edges_dict[e] = new_edge
+
   return nodes_dict, dangling_edges_dict
 
 
-- 
2.43.0


From 7b806f0875a6fe18735bdac642cd48083a9de480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:29 +0000
Subject: [PATCH 40/76] fix: a seed of 0 counts, and random_uniform of the
 tensorflow backend uses its seed

---
 tensornetwork/backends/jax/jax_backend.py               | 4 ++--
 tensornetwork/backends/numpy/numpy_backend.py           | 4 ++--
 tensornetwork/backends/pytorch/pytorch_backend.py       | 4 ++--
 tensornetwork/backends/symmetric/symmetric_backend.py   | 4 ++--
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 5 ++---
 5 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 447cb56..78a14dc 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -163,7 +163,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
@@ -194,7 +194,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if not seed:
+    if seed is None:
       seed = np.random.randint(0, 2**63)
     key = libjax.random.PRNGKey(seed)
 
diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index d52fe9e..969832e 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -133,7 +133,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
             dtype: Optional[np.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
@@ -148,7 +148,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[np.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       np.random.seed(seed)
     dtype = dtype if dtype is not None else np.float64
     if ((np.dtype(dtype) is np.dtype(np.complex128)) or
diff --git a/tensornetwork/backends/pytorch/pytorch_backend.py b/tensornetwork/backends/pytorch/pytorch_backend.py
index e0b1dc7..c3aefd2 100644
--- a/tensornetwork/backends/pytorch/pytorch_backend.py
+++ b/tensornetwork/backends/pytorch/pytorch_backend.py
@@ -152,7 +152,7 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[Any] = None,
             seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       torchlib.manual_seed(seed)
     dtype = dtype if dtype is not None else torchlib.float64
     return torchlib.randn(shape, dtype=dtype)
@@ -162,7 +162,7 @@ class PyTorchBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[Any] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       torchlib.manual_seed(seed)
     dtype = dtype if dtype is not None else torchlib.float64
     return torchlib.empty(shape, dtype=dtype).uniform_(*boundaries)
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index c85946b..784d42a 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -146,7 +146,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             dtype: Optional[numpy.dtype] = None,
             seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     return self.bs.randn(shape, dtype)
 
@@ -156,7 +156,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
                      dtype: Optional[numpy.dtype] = None,
                      seed: Optional[int] = None) -> Tensor:
 
-    if seed:
+    if seed is not None:
       numpy.random.seed(seed)
     dtype = dtype if dtype is not None else numpy.float64
     return self.bs.random(shape, boundaries, dtype)
diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index d0d2463..af81fe2 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -142,7 +142,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
             shape: Tuple[int, ...],
             dtype: Optional[Type[np.number]] = None,
             seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
@@ -157,7 +157,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                      boundaries: Optional[Tuple[float, float]] = (0.0, 1.0),
                      dtype: Optional[Type[np.number]] = None,
                      seed: Optional[int] = None) -> Tensor:
-    if seed:
+    if seed is not None:
       tf.random.set_seed(seed)
 
     dtype = dtype if dtype is not None else tf.float64
@@ -174,7 +174,6 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
               minval=boundaries[0],
               maxval=boundaries[1],
               dtype=dtype.real_dtype))
-    tf.random.set_seed(10)
     #pylint: disable=unexpected-keyword-arg
     a = tf.random.uniform(
         shape=shape, minval=boundaries[0], maxval=boundaries[1], dtype=dtype)
-- 
2.43.0


From 2aff2616988ae8aeb6398406075d8cdb7829dfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 41/76] fix: node initializers use the default backend,
 transposed nodes take their axis names

---
 tensornetwork/linalg/node_linalg.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 67e414c..a662f95 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -55,9 +55,8 @@ def initialize_node(fname: Text,
           axis of data.
   """
   if backend is None:
-    backend_obj = backend_contextmanager.get_default_backend()
-  else:
-    backend_obj = backends.backend_factory.get_backend(backend)
+    backend = backend_contextmanager.get_default_backend()
+  backend_obj = backends.backend_factory.get_backend(backend)
   func = getattr(backend_obj, fname)
   data = func(*fargs, **fkwargs)
   node = Node(data, name=name, axis_names=axis_names, backend=backend)
@@ -286,12 +285,12 @@ def transpose(node: AbstractNode,
         node, type(node)))
 
   perm = [node.get_axis_number(p) for p in permutation]
-  if not axis_names:
-    axis_names = node.axis_names
-
   new_node = Node(
       node.tensor, name=name, axis_names=node.axis_names, backend=node.backend)
-  return new_node.reorder_axes(perm)
+  new_node.reorder_axes(perm)
+  if axis_names:
+    new_node.add_axis_names(axis_names)
+  return new_node
 
 
 def kron(nodes: Sequence[AbstractNode]) -> AbstractNode:
-- 
2.43.0


From e08a4c30093bdac83fe61075292fb5b62389daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 42/76] fix: kron of tensors checks the backend of both
 arguments

---
 tensornetwork/linalg/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/linalg/operations.py b/tensornetwork/linalg/operations.py
index d8c484f..139323f 100644
--- a/tensornetwork/linalg/operations.py
+++ b/tensornetwork/linalg/operations.py
@@ -322,7 +322,7 @@ def kron(tensorA: Tensor, tensorB: Tensor) -> Tensor:
     ValueError: - If backends, are not matching.
                 - If ndims of the input tensors are not even.
   """
-  tensors = [tensorA, tensorA]
+  tensors = [tensorA, tensorB]
   all_backends_same, errstr = _check_backends(tensors, "kron")
   if not all_backends_same:
     raise ValueError(errstr)
-- 
2.43.0


From 0dff4c50507d2da668228c0bc061e6f413b5d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:10 +0000
Subject: [PATCH 43/76] fix: ones_like and zeros_like accept arrays and use the
 dtype

---
 tensornetwork/linalg/initialization.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tensornetwork/linalg/initialization.py b/tensornetwork/linalg/initialization.py
index a0e4340..2db6d07 100644
--- a/tensornetwork/linalg/initialization.py
+++ b/tensornetwork/linalg/initialization.py
@@ -116,11 +116,11 @@ def ones_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
+    dtype = dtype if dtype is not None else tensor.dtype
     the_tensor = initialize_tensor("ones", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend, dtype=dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
@@ -128,7 +128,7 @@ def ones_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid type causing " \
               "error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("ones", tensor.get_shape().as_list(),
+    the_tensor = initialize_tensor("ones", tensor.shape,
                                    backend=backend, dtype=dtype)
   return the_tensor
 
@@ -144,11 +144,11 @@ def zeros_like(tensor: Union[Any],
      backend(optional): The backend or its name."""
   if backend is None:
     backend = backend_contextmanager.get_default_backend()
-  else:
-    backend = backend_contextmanager.backend_factory.get_backend(backend)
+  backend = backends.backend_factory.get_backend(backend)
   if isinstance(tensor, Tensor):
+    dtype = dtype if dtype is not None else tensor.dtype
     the_tensor = initialize_tensor("zeros", tensor.shape,
-                                   backend=tensor.backend, dtype=tensor.dtype)
+                                   backend=tensor.backend, dtype=dtype)
   else:
     try:
       tensor = backend.convert_to_tensor(tensor)
-- 
2.43.0


From b7cbba418499afcb51efc7b11347c7868ccf4492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:59 +0000
Subject: [PATCH 44/76] fix: non_negative_diagonal keeps the factorization for
 complex and rank-deficient matrices

---
 tensornetwork/backends/numpy/decompositions.py      |  6 ++++--
 tensornetwork/backends/tensorflow/decompositions.py | 12 ++++++++----
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/backends/numpy/decompositions.py b/tensornetwork/backends/numpy/decompositions.py
index 29feb63..1548d98 100644
--- a/tensornetwork/backends/numpy/decompositions.py
+++ b/tensornetwork/backends/numpy/decompositions.py
@@ -89,7 +89,8 @@ def qr(
   tensor = np.reshape(tensor, [numpy.prod(left_dims), numpy.prod(right_dims)])
   q, r = np.linalg.qr(tensor)
   if non_negative_diagonal:
-    phases = np.sign(np.diagonal(r))
+    diagonal = np.diagonal(r)
+    phases = np.where(diagonal == 0, np.ones_like(diagonal), np.sign(diagonal))
     q = q * phases
     r = phases.conj()[:, None] * r
   center_dim = q.shape[1]
@@ -113,7 +114,8 @@ def rq(
   tensor = np.reshape(tensor, [numpy.prod(left_dims), numpy.prod(right_dims)])
   q, r = np.linalg.qr(np.conj(np.transpose(tensor)))
   if non_negative_diagonal:
-    phases = np.sign(np.diagonal(r))
+    diagonal = np.diagonal(r)
+    phases = np.where(diagonal == 0, np.ones_like(diagonal), np.sign(diagonal))
     q = q * phases
     r = phases.conj()[:, None] * r
   r, q = np.conj(np.transpose(r)), np.conj(
diff --git a/tensornetwork/backends/tensorflow/decompositions.py b/tensornetwork/backends/tensorflow/decompositions.py
index dcc5bba..f5ce239 100644
--- a/tensornetwork/backends/tensorflow/decompositions.py
+++ b/tensornetwork/backends/tensorflow/decompositions.py
@@ -167,9 +167,11 @@ def qr(
                        tf.reduce_prod(right_dims)])
   q, r = tf.linalg.qr(tensor)
   if non_negative_diagonal:
-    phases = tf.math.sign(tf.linalg.diag_part(r))
+    diagonal = tf.linalg.diag_part(r)
+    phases = tf.where(diagonal == 0, tf.ones_like(diagonal),
+                      tf.math.sign(diagonal))
     q = q * phases
-    r = phases[:, None] * r
+    r = tf.math.conj(phases)[:, None] * r
   center_dim = tf.shape(q)[1]
   q = tf.reshape(q, tf.concat([left_dims, [center_dim]], axis=-1))
   r = tf.reshape(r, tf.concat([[center_dim], right_dims], axis=-1))
@@ -217,9 +219,11 @@ def rq(
                        tf.reduce_prod(right_dims)])
   q, r = tf.linalg.qr(tf.math.conj(tf.transpose(tensor)))
   if non_negative_diagonal:
-    phases = tf.math.sign(tf.linalg.diag_part(r))
+    diagonal = tf.linalg.diag_part(r)
+    phases = tf.where(diagonal == 0, tf.ones_like(diagonal),
+                      tf.math.sign(diagonal))
     q = q * phases
-    r = phases[:, None] * r
+    r = tf.math.conj(phases)[:, None] * r
   r, q = tf.math.conj(tf.transpose(r)), tf.math.conj(
       tf.transpose(q))  #M=r*q at this point
   center_dim = tf.shape(r)[1]
-- 
2.43.0


From e19dd3d7e83f47ae6920cca3b5afa210ead37b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:59 +0000
Subject: [PATCH 45/76] fix: diagflat of the tensorflow backend flattens its
 argument

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index af81fe2..7f318b2 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -311,7 +311,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
       tensor: A new tensor with all zeros save the specified diagonal.
     """
     #pylint: disable=unexpected-keyword-arg
-    return tf.linalg.diag(tensor, k=k)
+    return tf.linalg.diag(tf.reshape(tensor, [-1]), k=k)
 
   def trace(self, tensor: Tensor, offset: int = 0, axis1: int = -2,
             axis2: int = -1) -> Tensor:
-- 
2.43.0


From 7720fa839ee52b2b7803c2a95c41d4c5d68d5aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:59 +0000
Subject: [PATCH 46/76] fix: the size of a scalar Tensor is an integer

---
 tensornetwork/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/tensor.py b/tensornetwork/tensor.py
index 7c39448..806a173 100644
--- a/tensornetwork/tensor.py
+++ b/tensornetwork/tensor.py
@@ -32,7 +32,7 @@ class Tensor():
     self.backend = backend_obj
     self.array = self.backend.convert_to_tensor(array)
     self.shape = array.shape
-    self.size = np.prod(self.shape)
+    self.size = np.prod(self.shape, dtype=int)
     self.ndim = len(self.shape)
 
   @property
-- 
2.43.0


From cb22c9fd3aae2e9faef69d4b522358e43a957abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:47 +0000
Subject: [PATCH 47/76] fix: the tensorflow backend traces tensors of more than
 seven axes

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 7f318b2..2686e50 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -355,11 +355,9 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if axis2 < 0:
       axis2 = N+axis2
 
-    inds = list(map(chr, range(98, 98+N)))
-    indsout = [i for n, i in enumerate(inds) if n not in (axis1, axis2)]
-    inds[axis1] = 'a'
-    inds[axis2] = 'a'
-    return tf.einsum(''.join(inds) + '->' +''.join(indsout), tensor)
+    # tf.einsum traces only tensors with ndim <= 7.
+    perm = [n for n in range(N) if n not in (axis1, axis2)] + [axis1, axis2]
+    return tf.linalg.trace(tf.transpose(tensor, perm))
 
   def abs(self, tensor: Tensor) -> Tensor:
     """
-- 
2.43.0


From 67c26907cdc81c4f994d84ef7f564b2b80ab2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:47 +0000
Subject: [PATCH 48/76] fix: moving the center of a jax MPS with a truncation
 error

---
 tensornetwork/matrixproductstates/base_mps.py | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c5f25d9..9e9feeb 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -94,11 +94,10 @@ class BaseMPS:
     ########################################################################
     ##########       define functions for jitted operations       ##########
     ########################################################################
-    @partial(jit, backend=self.backend, static_argnums=(1, 2, 3))
-    def svd(tensor,
-            pivot_axis=2,
-            max_singular_values=None,
-            max_truncation_error=None):
+    def truncated_svd(tensor,
+                      pivot_axis=2,
+                      max_singular_values=None,
+                      max_truncation_error=None):
       return self.backend.svd(
           tensor=tensor,
           pivot_axis=pivot_axis,
@@ -106,6 +105,18 @@ class BaseMPS:
           max_truncation_error=max_truncation_error,
           relative=True)
 
+    jitted_svd = jit(
+        truncated_svd, backend=self.backend, static_argnums=(1, 2, 3))
+
+    def svd(tensor,
+            pivot_axis=2,
+            max_singular_values=None,
+            max_truncation_error=None):
+      # With a truncation error, the shapes of the result depend on the values
+      # of `tensor`: such a function can't be jitted.
+      fun = jitted_svd if max_truncation_error is None else truncated_svd
+      return fun(tensor, pivot_axis, max_singular_values, max_truncation_error)
+
     self.svd = svd
 
     @partial(jit, backend=self.backend)
-- 
2.43.0


From b888b7aad84a2cf72724ee119f957ce4e6b3b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:47 +0000
Subject: [PATCH 49/76] fix: a number times a QuOperator takes the dtype of the
 operator

---
 tensornetwork/quantum/quantum.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 79d5c81..bbee5fd 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -382,7 +382,13 @@ class QuOperator():
       if isinstance(other, AbstractNode):
         node = other
       else:
-        node = Node(other, backend=self.nodes.pop().backend)
+        ref_node = self.nodes.pop()
+        backend = ref_node.backend
+        if isinstance(other, (int, float, complex)):
+          # Not every backend promotes a Python number to the operator's dtype.
+          other = backend.multiply(
+              backend.ones((), dtype=ref_node.dtype), other)
+        node = Node(other, backend=backend)
       if node.shape:
         raise ValueError("Cannot perform elementwise multiplication by a "
                          "non-scalar tensor.")
-- 
2.43.0


From 181704be93876e056aa9d2e11257eaec4f407d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:03 +0000
Subject: [PATCH 50/76] fix: ChargeArray.random draws from the given interval

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index caf13ce..1e281de 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -104,7 +104,7 @@ class ChargeArray:
 
     data, charges, flows, order = _data_initializer(
         _random, lambda charges, flows: np.prod([c.dim for c in charges]),
-        indices, dtype=dtype)
+        indices, dtype=dtype, boundaries=boundaries)
     return cls(data=data, charges=charges, flows=flows, order=order)
 
   @property
-- 
2.43.0


From 2b672983cd4102a6756a274ca946794e6a674786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:56 +0000
Subject: [PATCH 51/76] fix: contract_between and outer_product_final_nodes
 reject wrong edge orders and names before contracting

---
 tensornetwork/network_components.py | 104 +++++++++++++++++-----------
 1 file changed, 63 insertions(+), 41 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 6aa7374..447a735 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -33,6 +33,40 @@ Tensor = Any
 # network_components.py and network.py types.
 
 
+def _check_axis_names(axis_names: List[Text], rank: int) -> None:
+  """Check that `axis_names` are valid names for `rank` axes."""
+  if len(axis_names) != len(set(axis_names)):
+    raise ValueError("Not all axis names are unique.")
+  if len(axis_names) != rank:
+    raise ValueError("axis_names is not the same length as the tensor shape."
+                     "axis_names length: {}, tensor.shape length: {}".format(
+                         len(axis_names), rank))
+  for axis_name in axis_names:
+    if not isinstance(axis_name, str):
+      raise TypeError("axis_names should be str type")
+
+
+def _check_edge_order(edge_order: List["Edge"], edges: List["Edge"]) -> None:
+  """Check that `edge_order` is a valid order of `edges`."""
+  extra_edges = set(edge_order).difference(set(edges))
+  if extra_edges:
+    raise ValueError("Given edge order does not match expected edges. "
+                     "Additional edges that do not belong to node found: "
+                     "{}".format(extra_edges))
+  missing_edges = set(edges).difference(set(edge_order))
+  if missing_edges:
+    raise ValueError("Given edge order does not match expected edges. "
+                     "Missing edges that belong to node found: "
+                     "{}".format(missing_edges))
+  for edge in edge_order:
+    if edge.node1 == edge.node2:
+      raise ValueError("Edge reordering does not support trace edges. "
+                       "Found trace edge: '{}'".format(edge))
+  if len(edge_order) != len(edges):
+    raise ValueError("Given edge order contains an edge more than once: "
+                     "{}".format(edge_order))
+
+
 class AbstractNode(ABC):
   """Abstract class for nodes. Should be subclassed.
 
@@ -132,15 +166,7 @@ class AbstractNode(ABC):
       ValueError: If there is a repeated name in `axis_names` or if the length
         doesn't match the shape of the tensor.
     """
-    if len(axis_names) != len(set(axis_names)):
-      raise ValueError("Not all axis names are unique.")
-    if len(axis_names) != len(self.shape):
-      raise ValueError("axis_names is not the same length as the tensor shape."
-                       "axis_names length: {}, tensor.shape length: {}".format(
-                           len(axis_names), len(self.shape)))
-    for axis_name in axis_names:
-      if not isinstance(axis_name, str):
-        raise TypeError("axis_names should be str type")
+    _check_axis_names(axis_names, len(self.shape))
     self.axis_names = axis_names[:]
 
   def add_edge(self,
@@ -220,21 +246,7 @@ class AbstractNode(ABC):
     if not hasattr(self, '_tensor'):
       raise AttributeError("Please provide a valid tensor for this Node.")
 
-    extra_edges = set(edge_order).difference(set(self.edges))
-    if extra_edges:
-      raise ValueError("Given edge order does not match expected edges. "
-                       "Additional edges that do not belong to node found: "
-                       "{}".format(extra_edges))
-    missing_edges = set(self.edges).difference(set(edge_order))
-    if missing_edges:
-      raise ValueError("Given edge order does not match expected edges. "
-                       "Missing edges that belong to node found: "
-                       "{}".format(missing_edges))
-    for edge in edge_order:
-      if edge.node1 == edge.node2:
-        raise ValueError("Edge reordering does not support trace edges. "
-                         "Found trace edge: '{}'".format(edge))
-
+    _check_edge_order(edge_order, self.edges)
     # This is O(n^2), but the number of edges will likely never be >100
     # so this should be fine for now.
     permutation = [self.edges.index(edge) for edge in edge_order]
@@ -2077,12 +2089,29 @@ def contract_between(
   backend = node1.backend
   shared_edges = get_shared_edges(node1, node2)
   # Trace edges cannot be contracted using tensordot.
+  if node1 is node2 and not shared_edges:
+    raise ValueError("No trace edges found on contraction of edges between "
+                     "node '{}' and itself.".format(node1))
+  # Reject wrong arguments before anything is contracted.
+  edges = node1.edges if node1 is node2 else node1.edges + node2.edges
+  edges = [edge for edge in edges if edge not in shared_edges]
+  if output_edge_order:
+    output_edge_order = list(output_edge_order)
+    for edge in output_edge_order:
+      if edge in shared_edges:
+        raise ValueError(
+            "Edge '{}' in output_edge_order is shared by the nodes to be "
+            "contracted: '{}' and '{}'.".format(edge, node1, node2))
+      if edge not in edges:
+        raise ValueError(
+            "Edge '{}' in output_edge_order is not connected to node '{}' or "
+            "node '{}'".format(edge, node1, node2))
+    _check_edge_order(output_edge_order, edges)
+  if axis_names:
+    _check_axis_names(axis_names, len(edges))
+
   if node1 is node2:
-    flat_edge = flatten_edges_between(node1, node2)
-    if not flat_edge:
-      raise ValueError("No trace edges found on contraction of edges between "
-                       "node '{}' and itself.".format(node1))
-    new_node = contract(flat_edge, name)
+    new_node = contract(flatten_edges_between(node1, node2), name)
   elif not shared_edges:
     if not allow_outer_product:
       raise ValueError("No edges found between nodes '{}' and '{}' "
@@ -2108,19 +2137,10 @@ def contract_between(
       node1_output_axes = []
       node2_output_axes = []
       for (i, edge) in enumerate(output_edge_order):
-        if edge in shared_edges:
-          raise ValueError(
-              "Edge '{}' in output_edge_order is shared by the nodes to be "
-              "contracted: '{}' and '{}'.".format(edge, node1, node2))
-        edge_nodes = set(edge.get_nodes())
-        if node1 in edge_nodes:
+        if node1 in edge.get_nodes():
           node1_output_axes.append(i)
-        elif node2 in edge_nodes:
-          node2_output_axes.append(i)
         else:
-          raise ValueError(
-              "Edge '{}' in output_edge_order is not connected to node '{}' or "
-              "node '{}'".format(edge, node1, node2))
+          node2_output_axes.append(i)
       if node1_output_axes and node2_output_axes and (
           np.mean(node1_output_axes) > np.mean(node2_output_axes)):
         node1, node2 = node2, node1
@@ -2135,7 +2155,7 @@ def contract_between(
     _remove_edges(shared_edges, node1, node2, new_node)
 
   if output_edge_order:
-    new_node = new_node.reorder_edges(list(output_edge_order))
+    new_node = new_node.reorder_edges(output_edge_order)
   if axis_names:
     new_node.add_axis_names(axis_names)
 
@@ -2165,6 +2185,8 @@ def outer_product_final_nodes(nodes: Iterable[AbstractNode],
   for node in nodes:
     if node.has_nondangling_edge():
       raise ValueError("Node '{}' has a non-dangling edge remaining.")
+  edge_order = list(edge_order)
+  _check_edge_order(edge_order, [edge for node in nodes for edge in node.edges])
   final_node = nodes[0]
   for node in nodes[1:]:
     final_node = outer_product(final_node, node)
-- 
2.43.0


From 283cfa9a27ef922271f2c533766e085e443d4137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:47 +0000
Subject: [PATCH 52/76] fix: contracting a trace edge uses the axis names asked
 for

---
 tensornetwork/network_components.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 447a735..141b590 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1858,13 +1858,16 @@ def _remove_edges(edges: Set[Edge], node1: AbstractNode, node2: AbstractNode,
   [edge.disable() for edge in edges]  #disabled edges!
 
 
-def _contract_trace(edge: Edge, name: Optional[Text] = None) -> AbstractNode:
+def _contract_trace(edge: Edge,
+                    name: Optional[Text] = None,
+                    axis_names: Optional[List[Text]] = None) -> AbstractNode:
   """Contract a trace edge.
   `edge` is disabled before returning.
   Args:
     edge: The edge name or object to contract next.
     name: Name to give to the new node. If None, a name will automatically be
       generated.
+    axis_names: Optional list of names for the axes of the new node.
 
   Returns:
     The new node created after the contraction.
@@ -1885,7 +1888,8 @@ def _contract_trace(edge: Edge, name: Optional[Text] = None) -> AbstractNode:
   new_tensor = backend.trace(
       backend.transpose(edge.node1.tensor, perm=permutation))
   name = name if name else edge.node1.name
-  new_node = Node(new_tensor, name=name, backend=backend)
+  new_node = Node(
+      new_tensor, name=name, axis_names=axis_names, backend=backend)
   _remove_trace_edge(edge, new_node)  #disables edge
   return new_node
 
@@ -1932,7 +1936,7 @@ def contract(edge: Edge,
 
   backend = edge.node1.backend
   if edge.node1 is edge.node2:
-    return _contract_trace(edge, name)
+    return _contract_trace(edge, name, axis_names)
   new_tensor = backend.tensordot(edge.node1.tensor, edge.node2.tensor,
                                  [[edge.axis1], [edge.axis2]])
   new_node = Node(tensor=new_tensor,
-- 
2.43.0


From b6d5f694097ae36fdc947cedcd5bf997743393b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:04 +0000
Subject: [PATCH 53/76] fix: slice_edge with a negative start counts from the
 end

---
 tensornetwork/network_components.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 141b590..53025b9 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1696,7 +1696,8 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
 
   Args:
     edge: The edge to slice.
-    start_index: Integer specifying the beginning of the slice.
+    start_index: Integer specifying the beginning of the slice. A negative
+      value counts from the end.
     length: Integer specifying the length of the slice.
 
   Returns:
@@ -1709,7 +1710,8 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
   """
   if length <= 0:
     raise ValueError("Length of slice must be positive.")
-  if ((start_index + length > edge.dimension) or (-length < start_index < 0)):
+  start = start_index + edge.dimension if start_index < 0 else start_index
+  if start < 0 or start + length > edge.dimension:
     raise ValueError("Length {} slice beginning at {} is invalid for edge of "
                      "dimension {}".format(length, start_index, edge.dimension))
 
@@ -1728,7 +1730,7 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
       if sliced and sliced[0][0] is node:
         tensor = sliced[0][1]  # trace edge
       start_indices = [0] * node.get_rank()
-      start_indices[axis] = start_index
+      start_indices[axis] = start
       start_indices = tuple(start_indices)
       slice_sizes = list(backend.shape_tuple(tensor))
       slice_sizes[axis] = length
-- 
2.43.0


From 84af0ef4b283a9d9d8c44121599b88c80e49c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:52 +0000
Subject: [PATCH 54/76] fix: auto on one node contracts its trace edges only,
 not bonds to other nodes

---
 .../opt_einsum_paths/path_contractors.py      | 24 +------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 78d9371..0709b2b 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -21,8 +21,7 @@ from tensornetwork.network_operations import (check_connected, get_all_edges,
                                               contract_trace_edges,
                                               redirect_edge)
 
-from tensornetwork.network_components import (get_all_nondangling,
-                                              contract_parallel,
+from tensornetwork.network_components import (contract_parallel,
                                               contract_between)
 from tensornetwork.network_components import Edge, AbstractNode
 from tensornetwork.contractors.opt_einsum_paths import utils
@@ -218,29 +217,8 @@ def auto(nodes: Iterable[AbstractNode],
 
   nodes = list(nodes)  # `nodes` may be an iterator
   n = len(nodes)
-  _nodes = nodes
   if n <= 0:
     raise ValueError("Cannot contract empty tensor network.")
-  if n == 1:
-    if not ignore_edge_order:
-      if output_edge_order is None:
-        output_edge_order = list(
-            (get_all_edges(_nodes) - get_all_nondangling(_nodes)))
-        if len(output_edge_order) > 1:
-          raise ValueError(
-              "The final node after contraction has more than "
-              "one dangling edge. In this case `output_edge_order` "
-              "has to be provided.")
-
-    edges = get_all_nondangling(_nodes)
-    if edges:
-      final_node = contract_parallel(edges.pop())
-    else:
-      final_node = list(_nodes)[0]
-    if not ignore_edge_order:
-      final_node.reorder_edges(output_edge_order)
-    return final_node
-
   if n < 5:
     return optimal(nodes, output_edge_order, memory_limit, ignore_edge_order)
   if n < 7:
-- 
2.43.0


From d1e21a94822f80b217c0bf276954f8058fc26325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 55/76] fix: adding symmetric tensors does not reorder the
 storage of its operands

---
 .../block_sparse/blocksparsetensor.py         | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 1e281de..a6b210e 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -708,6 +708,10 @@ class BlockSparseTensor(ChargeArray):
   def _align_storage_layout(self, other):
     """
     Align storage layouts of self and other.
+    Returns:
+      Two tensors with the values of `self` and `other` and with matching
+      storage layouts. `self` and `other` are not modified, another thread
+      may be using them.
     """
     self_is_ordered = np.array_equal(self.flat_order,
                                      np.arange(len(self.flat_order)))
@@ -718,32 +722,35 @@ class BlockSparseTensor(ChargeArray):
       #bring other into the same storage layout as other
       perm = np.empty(len(other.flat_order), dtype=np.int32)
       perm[self.flat_order] = other.flat_order
-      other.contiguous(perm, inplace=True)
-    elif ((not self_is_ordered) and other_is_ordered) or both_unordered:
+      return self, other.contiguous(perm)
+    if ((not self_is_ordered) and other_is_ordered) or both_unordered:
       #bring self into the same storage layout as other
       perm = np.empty(len(self.flat_order), dtype=np.int32)
       perm[other.flat_order] = self.flat_order
-      self.contiguous(perm, inplace=True)
+      return self.contiguous(perm), other
+    return self, other
 
   def __sub__(self, other: "BlockSparseTensor") -> "BlockSparseTensor":
     self._sub_add_protection(other)  #perform checks
-    self._align_storage_layout(other)  #align storage layout of self and other
+    #align storage layout of self and other
+    tensor1, tensor2 = self._align_storage_layout(other)
     return BlockSparseTensor(
-        data=self.data - other.data,
-        charges=self._charges,
-        flows=self._flows,
-        order=self._order,
+        data=tensor1.data - tensor2.data,
+        charges=tensor1._charges,
+        flows=tensor1._flows,
+        order=tensor1._order,
         check_consistency=False)
 
   def __add__(self, other: "BlockSparseTensor") -> "BlockSparseTensor":
     self._sub_add_protection(other)  #perform checks
-    self._align_storage_layout(other)  #align storage layout of self and other
+    #align storage layout of self and other
+    tensor1, tensor2 = self._align_storage_layout(other)
     #now addition is save
     return BlockSparseTensor(
-        data=self.data + other.data,
-        charges=self._charges,
-        flows=self._flows,
-        order=self._order,
+        data=tensor1.data + tensor2.data,
+        charges=tensor1._charges,
+        flows=tensor1._flows,
+        order=tensor1._order,
         check_consistency=False)
 
   def __neg__(self) -> "BlockSparseTensor":
-- 
2.43.0


From d6dcac1d8bcf26402f6cf03d9b05e110e67adf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:25 +0000
Subject: [PATCH 56/76] fix: tensorflow random tensors accept numpy complex
 dtypes

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 2686e50..e217a7d 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -145,7 +145,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if seed is not None:
       tf.random.set_seed(seed)
 
-    dtype = dtype if dtype is not None else tf.float64
+    dtype = tf.as_dtype(dtype if dtype is not None else tf.float64)
     if (dtype is tf.complex128) or (dtype is tf.complex64):
       return tf.complex(
           tf.random.normal(shape=shape, dtype=dtype.real_dtype),
@@ -160,7 +160,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     if seed is not None:
       tf.random.set_seed(seed)
 
-    dtype = dtype if dtype is not None else tf.float64
+    dtype = tf.as_dtype(dtype if dtype is not None else tf.float64)
     if (dtype is tf.complex128) or (dtype is tf.complex64):
       #pylint: disable=unexpected-keyword-arg
       return tf.complex(
-- 
2.43.0


From a686a68e2a6a705f3262489a8b132eccb274a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:29 +0000
Subject: [PATCH 57/76] fix: contractors refuse a memory limit they cannot keep
 before contracting

---
 .../contractors/opt_einsum_paths/path_contractors.py   | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 0709b2b..9fd3641 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -32,6 +32,14 @@ from typing import Any, Optional, Sequence, Iterable, Text, Tuple, List
 #               _base_nodes -> base
 
 
+def _check_pairwise(path: Iterable[Sequence[int]]) -> None:
+  # `opt_einsum` contracts all remaining tensors in one step when no pair of
+  # them can be contracted within the memory limit.
+  if any(len(step) > 2 for step in path):
+    raise ValueError("No path of pairwise contractions was found for the "
+                     "given `memory_limit`.")
+
+
 def base(nodes: Iterable[AbstractNode],
          algorithm: utils.Algorithm,
          output_edge_order: Optional[Sequence[Edge]] = None,
@@ -83,6 +91,7 @@ def base(nodes: Iterable[AbstractNode],
 
   # Then apply `opt_einsum`'s algorithm
   path, nodes = utils.get_path(nodes_set, algorithm)
+  _check_pairwise(path)
   for a, b in path:
     new_node = contract_between(nodes[a], nodes[b], allow_outer_product=True)
     nodes.append(new_node)
@@ -343,6 +352,7 @@ def contract_path(path: Tuple[List[Tuple[int,
   Returns:
     Final node after full contraction.
   """
+  _check_pairwise(path)
   nodes = list(nodes)  # do not modify the list of the caller
   for n, node in enumerate(nodes):
     # a contracted trace yields a new node, in the same place of `path`
-- 
2.43.0


From 6daf38a5f8ddd4f29b056388bc20aaaa13525673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:24 +0000
Subject: [PATCH 58/76] fix: product of a symmetric node with a scalar node

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 784d42a..3eb04ea 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -626,6 +626,11 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     return tensor1 - tensor2
 
   def multiply(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
+    if (isinstance(tensor1, BlockSparseTensor) and
+        isinstance(tensor2, BlockSparseTensor) and
+        (tensor1.ndim == 0 or tensor2.ndim == 0)):
+      # multiplication with a scalar tensor
+      return self.bs.outerproduct(tensor1, tensor2)
     return tensor1 * tensor2
 
   def divide(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
-- 
2.43.0


From e2dda679ff1b1f01975aa608912c6eb52714434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:24 +0000
Subject: [PATCH 59/76] fix: reshaping a block-sparse tensor keeps the legs of
 unchanged leading axes

---
 .../block_sparse/blocksparsetensor.py         | 68 +++++++++++++------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index a6b210e..fffae2d 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -202,6 +202,34 @@ class ChargeArray:
     tmp = self.contiguous()
     return np.reshape(tmp.data, tmp.shape)
 
+  def _count_legs(self, flat_dims: np.ndarray, new_shape: Sequence[int],
+                  num_kept: int) -> Optional[List[int]]:
+    """
+    The number of elementary legs of every axis of `new_shape`, if the first
+    `num_kept` axes have the same legs as before.
+
+    Args:
+      flat_dims: The dimensions of the elementary legs.
+      new_shape: The new shape.
+      num_kept: The number of leading axes that keep their legs.
+
+    Returns:
+      List of int, or `None` if `new_shape` can't be formed this way.
+    """
+    num_legs = [len(o) for o in self._order[:num_kept]]
+    dims = flat_dims[sum(num_legs):]
+    for ns in new_shape[num_kept:]:
+      tmp = np.nonzero(np.cumprod(dims) == ns)[0]
+      if len(tmp) == 0:
+        return None
+      num_legs.append(tmp[0] + 1)
+      dims = dims[num_legs[-1]:]
+    if np.any(dims != 1):
+      return None
+    if len(num_legs) > 0:
+      num_legs[-1] += len(dims)
+    return num_legs
+
   def reshape(self, shape: Sequence[Union[Index, int]]) -> "ChargeArray":
     """
     Reshape `tensor` into `shape.
@@ -271,28 +299,24 @@ class ChargeArray:
       raise ValueError("reshaping empty arrays is ambiguous, and is currently "
                        "not supported.")
 
-    partitions = [0]
-    for n, ns in enumerate(new_shape):
-      tmp = np.nonzero(np.cumprod(flat_dims) == ns)[0]
-      if len(tmp) == 0:
-        raise ValueError(
-            "The shape {} is incompatible with the "
-            "elementary shape {} of the tensor.".format(
-                tuple(new_shape),
-                tuple(self._charges[n].dim for o in self._order for n in o)))
-
-      partitions.append(tmp[0] + 1)
-      flat_dims = flat_dims[partitions[-1]:]
-    for d in flat_dims:
-      if d != 1: #Note (martin): I suspect this will never be raised
-        raise ValueError(
-            "The shape {} is incompatible with the "
-            "elementary shape {} of the tensor.".format(
-                tuple(new_shape),
-                tuple(self._charges[n].dim for o in self._order for n in o)))
-      partitions[-1] += 1
-
-    partitions = np.cumsum(partitions)
+    # Legs of dimension 1 can belong to the axis on their left or on their
+    # right: leading axes which do not change keep their legs, if possible.
+    num_kept = 0
+    while (num_kept < min(len(new_shape), len(self.shape)) and
+           new_shape[num_kept] == self.shape[num_kept]):
+      num_kept += 1
+    num_legs = None
+    while num_legs is None and num_kept >= 0:
+      num_legs = self._count_legs(flat_dims, new_shape, num_kept)
+      num_kept -= 1
+    if num_legs is None:
+      raise ValueError("The shape {} is incompatible with the "
+                       "elementary shape {} of the tensor.".format(
+                           tuple(new_shape),
+                           tuple(self._charges[n].dim
+                                 for o in self._order for n in o)))
+
+    partitions = np.cumsum([0] + num_legs)
 
     flat_order = self.flat_order
     new_order = []
-- 
2.43.0


From 05bee6b9ed82bacbec412d01968231dbfd51dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:24 +0000
Subject: [PATCH 60/76] fix: flattening and splitting trace edges keeps legs of
 dimension 1 in place

---
 tensornetwork/network_components.py | 40 ++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 53025b9..b82e422 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1361,11 +1361,22 @@ def _flatten_trace_edges(edges: List[Edge],
   perm = perm_front + perm_back
   new_dim = backend.shape_prod(
       [backend.shape_tensor(node.tensor)[e.axis1] for e in edges])
-  # Compute the new tensor before anything is changed.
-  new_tensor = backend.transpose(node.tensor, perm=perm)
-  unaffected_shape = backend.shape_tensor(new_tensor)[:len(perm_front)]
-  new_shape = backend.shape_concat([unaffected_shape, [new_dim, new_dim]],
-                                   axis=-1)
+  # Compute the new tensor before anything is changed. The two groups of axes
+  # are merged one after the other, at the back, where their legs are
+  # unambiguous also for axes of dimension 1 of block-sparse tensors.
+  num_front = len(perm_front)
+  new_tensor = backend.transpose(
+      node.tensor,
+      perm=perm_front + perm_back[len(edges):] + perm_back[:len(edges)])
+  unaffected_shape = backend.shape_tensor(new_tensor)[:-len(edges)]
+  new_shape = backend.shape_concat([unaffected_shape, [new_dim]], axis=-1)
+  new_tensor = backend.reshape(new_tensor, new_shape)
+  new_tensor = backend.transpose(
+      new_tensor,
+      perm=list(range(num_front)) + [num_front + len(edges)] +
+      list(range(num_front, num_front + len(edges))))
+  unaffected_shape = backend.shape_tensor(new_tensor)[:num_front + 1]
+  new_shape = backend.shape_concat([unaffected_shape, [new_dim]], axis=-1)
   new_tensor = backend.reshape(new_tensor, new_shape)
   # pylint: disable=protected-access
   node._permute_edges(perm)
@@ -1562,10 +1573,21 @@ def _split_trace_edge(
   perm_back += [max(edge.axis1, edge.axis2)]
   perm_front = set(range(len(node.edges))) - set(perm_back)
   perm_front = sorted(perm_front)
-  # Compute the new tensor before anything is changed.
-  new_tensor = backend.transpose(node.tensor, perm=perm_front + perm_back)
-  unaffected_shape = backend.shape_tensor(new_tensor)[:len(perm_front)]
-  new_shape = backend.shape_concat([unaffected_shape, shape, shape], axis=-1)
+  # Compute the new tensor before anything is changed. The two axes are split
+  # one after the other, at the back, where their legs are unambiguous also for
+  # axes of dimension 1 of block-sparse tensors.
+  num_front = len(perm_front)
+  new_tensor = backend.transpose(
+      node.tensor, perm=perm_front + [perm_back[1], perm_back[0]])
+  unaffected_shape = backend.shape_tensor(new_tensor)[:num_front + 1]
+  new_shape = backend.shape_concat([unaffected_shape, shape], axis=-1)
+  new_tensor = backend.reshape(new_tensor, new_shape)
+  new_tensor = backend.transpose(
+      new_tensor,
+      perm=list(range(num_front)) +
+      list(range(num_front + 1, num_front + 1 + len(shape))) + [num_front])
+  unaffected_shape = backend.shape_tensor(new_tensor)[:num_front + len(shape)]
+  new_shape = backend.shape_concat([unaffected_shape, shape], axis=-1)
   new_tensor = backend.reshape(new_tensor, new_shape)
   # pylint: disable=protected-access
   node._permute_edges(perm_front + perm_back)
-- 
2.43.0


From 75556b371c4dbf7a4a1df9a318f4408e11874864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:49 +0000
Subject: [PATCH 61/76] fix: legs of MPO layers for dimensions whose
 floating-point root is inexact

ceil(5**5 ** (1/5)) is 6: the layer built weights of the wrong shape.
---
 tensornetwork/tn_keras/conv2d_mpo.py | 5 ++---
 tensornetwork/tn_keras/mpo.py        | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 2382833..3c5d1da 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -7,7 +7,6 @@ from tensorflow.python.keras.utils import conv_utils #pylint: disable=no-name-in
 from typing import List, Tuple, Text, Optional, Union
 import numpy as np
 import tensornetwork as tn
-import math
 
 # pytype: disable=module-attr
 @tf.keras.utils.register_keras_serializable(package='tensornetwork')# pylint: disable=no-member
@@ -161,8 +160,8 @@ class Conv2DMPO(Layer):
 
     super().build(input_shape)
 
-    in_leg_dim = math.ceil(channels**(1. / self.num_nodes))
-    out_leg_dim = math.ceil(self.filters**(1. / self.num_nodes))
+    in_leg_dim = round(channels**(1. / self.num_nodes))
+    out_leg_dim = round(self.filters**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index a7247bb..cbf579b 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -7,7 +7,6 @@ from typing import List, Optional, Text, Tuple
 import tensornetwork as tn
 from tensornetwork.network_components import Node
 import numpy as np
-import math
 
 
 # pytype: disable=module-attr
@@ -108,8 +107,8 @@ class DenseMPO(Layer):
 
     super().build(input_shape)
 
-    self.in_leg_dim = math.ceil(input_dim**(1. / self.num_nodes))
-    self.out_leg_dim = math.ceil(self.output_dim**(1. / self.num_nodes))
+    self.in_leg_dim = round(input_dim**(1. / self.num_nodes))
+    self.out_leg_dim = round(self.output_dim**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
-- 
2.43.0


From 0ae448e615b4a6bebc5f36fd0dacf5b28917a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:46 +0000
Subject: [PATCH 62/76] fix: ncon_cost_check with numpy versions without
 np.float

---
 tensornetwork/contractors/custom_path_solvers/nconinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/nconinterface.py b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
index 1ddd52d..f63975c 100644
--- a/tensornetwork/contractors/custom_path_solvers/nconinterface.py
+++ b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
@@ -140,7 +140,7 @@ def ncon_cost_check(tensors: List[np.ndarray],
     float: the cost of the network contraction, given as log10(total_FLOPS).
   """
 
-  total_cost = np.float('-inf')
+  total_cost = float('-inf')
   N = len(tensors)
   tensor_dims = [np.array(np.log10(ele.shape)) for ele in tensors]
   connect_list = [np.array(ele) for ele in labels]
-- 
2.43.0


From 30362584f15333f5b62480ebd5719c069ef2f720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:30 +0000
Subject: [PATCH 63/76] fix: ncon_solver for networks with indices of dimension
 1

They counted as no connection: the reported cost was that of a path with
outer products that the returned order does not take, an order flagged
optimal was not, and orders could name an index twice.
---
 .../contractors/custom_path_solvers/nconinterface.py        | 6 ++++--
 .../contractors/custom_path_solvers/pathsolvers.py          | 5 ++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/nconinterface.py b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
index f63975c..12197fa 100644
--- a/tensornetwork/contractors/custom_path_solvers/nconinterface.py
+++ b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
@@ -75,8 +75,10 @@ def ncon_to_adj(tensors: List[np.ndarray], labels: List[List[int]]):
       log_adj[tnr[0], tnr[0]] += np.log10(tensors[tnr[0]].shape[ind[0]])
     elif len(ind) == 2:  # internal index
       if tnr[0] != tnr[1]:  # ignore partial traces
-        log_adj[tnr[0], tnr[1]] += np.log10(tensors[tnr[0]].shape[ind[0]])
-        log_adj[tnr[1], tnr[0]] += np.log10(tensors[tnr[0]].shape[ind[0]])
+        # an index of dimension 1 still connects its tensors
+        log_dim = max(np.log10(tensors[tnr[0]].shape[ind[0]]), 1e-12)
+        log_adj[tnr[0], tnr[1]] += log_dim
+        log_adj[tnr[1], tnr[0]] += log_dim
 
   return log_adj
 
diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 9a96bdc..f1625df 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -101,7 +101,6 @@ def greedy_cost_solve(log_adj_in: np.ndarray):
       binary contractions.
     float: the cost of the network contraction, given as log10(total_FLOPS).
   """
-  tol = 1e-6  # tolerance for float comparison
   N = log_adj_in.shape[0]
   log_adj = log_adj_in.copy().reshape(N, N)
   orders = np.zeros([2, 0], dtype=int)
@@ -115,9 +114,9 @@ def greedy_cost_solve(log_adj_in: np.ndarray):
     single_cost = comb_dims - log_adj
 
     # penalize trivial contractions and self-contractions
-    triv_conts = (log_adj < tol)
+    triv_conts = (log_adj <= 0)
     trimmed_costs = single_cost + np.max(single_cost.flatten()) * triv_conts
-    trimmed_costs = trimmed_costs + np.max(trimmed_costs.flatten()) * np.eye(N)
+    np.fill_diagonal(trimmed_costs, np.inf)
 
     # find best contraction
     tensors_to_contract = np.divmod(np.argmin(trimmed_costs), N)
-- 
2.43.0


From 3d0a83662572e9f237b3a7958b661dd59ebc0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:31 +0000
Subject: [PATCH 64/76] fix: ncon_solver for a single tensor

---
 tensornetwork/contractors/custom_path_solvers/pathsolvers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index f1625df..03acd1d 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -159,6 +159,10 @@ def full_solve_complete(log_adj: np.ndarray,
     bool: specifies if contraction order is guaranteed optimal.
   """
   tol = 1e-6  # tolerance for float comparison
+  if log_adj.shape[0] == 1:
+    # a single tensor: nothing to contract
+    return np.zeros([2, 0], dtype=int), float('-inf'), True
+
   # start by trying both greedy algorithms
   order0, cost0 = greedy_size_solve(log_adj)
   order1, cost1 = greedy_cost_solve(log_adj)
-- 
2.43.0


From 390845a407b2c16ec4ff623c64420e93137c8618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:35 +0000
Subject: [PATCH 65/76] fix: ncon traces over several pairs of legs of
 symmetric tensors next to legs of dimension 1

---
 tensornetwork/ncon_interface.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 7a4ea02..a758dcf 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -257,21 +257,27 @@ def _partial_trace(
     trace_label_positions = [[
         n for n, label in enumerate(labels) if label == trace_label
     ] for trace_label in unique_trace_labels]
-    contracted_indices = [l[0] for l in trace_label_positions
-                         ] + [l[1] for l in trace_label_positions]
+    first = [l[0] for l in trace_label_positions]
+    second = [l[1] for l in trace_label_positions]
     free_indices = [
-        n for n in range(len(labels)) if n not in contracted_indices
+        n for n in range(len(labels)) if n not in first and n not in second
     ]
     shape = backend_obj.shape_tuple(tensor)
-    contracted_dimension = np.prod(
-        [shape[d] for d in contracted_indices[:num_cont]])
-    temp_shape = tuple([shape[pos] for pos in free_indices] +
-                       [contracted_dimension, contracted_dimension])
+    contracted_dimension = np.prod([shape[d] for d in first])
+    free_shape = [shape[pos] for pos in free_indices]
+    second_shape = [shape[pos] for pos in second]
+    # The two groups are merged one after the other, at the back, where their
+    # legs are unambiguous also for axes of dimension 1 of block-sparse tensors.
+    result = backend_obj.reshape(
+        backend_obj.transpose(tensor, tuple(free_indices + second + first)),
+        tuple(free_shape + second_shape + [contracted_dimension]))
+    num_free = len(free_indices)
+    perm = list(range(num_free)) + [num_free + num_cont] + list(
+        range(num_free, num_free + num_cont))
     result = backend_obj.trace(
         backend_obj.reshape(
-            backend_obj.transpose(tensor,
-                                  tuple(free_indices + contracted_indices)),
-            temp_shape))
+            backend_obj.transpose(result, tuple(perm)),
+            tuple(free_shape + [contracted_dimension, contracted_dimension])))
     new_labels = [l for l in labels if l not in unique_trace_labels]
     return result, new_labels, unique_trace_labels
   return tensor, labels, []
-- 
2.43.0


From a7737d1e6de4e71bde50d1b6ed2b68f1b8c96964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:21 +0000
Subject: [PATCH 66/76] fix: charges keep their dtype when they are fused,
 conjugated, sliced or reduced

---
 .../block_sparse/blocksparse_utils.py         | 33 ++++++++----
 tensornetwork/block_sparse/charge.py          | 54 ++++++++++++++-----
 2 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 77ef8bc..d7112c1 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -109,7 +109,8 @@ def compute_sparse_lookup(
   obj.__init__(
       charges=unique_charges,
       charge_labels=None,
-      charge_types=charges[0].charge_types)
+      charge_types=charges[0].charge_types,
+      charge_dtype=unique_charges.dtype)
 
   tmp[label_to_unique] = label_to_unique
   lookup = tmp[inverse]
@@ -267,7 +268,8 @@ def reduce_charges(charges: List[BaseCharge],
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
     if return_locations:
       return obj, np.empty(0, dtype=SIZE_T)
     return obj
@@ -296,7 +298,11 @@ def reduce_charges(charges: List[BaseCharge],
   reduced_labels = np.concatenate(
       [reduced_rows[n] for n in left_ind.charge_labels])
   obj = charges[0].__new__(type(charges[0]))
-  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types)
+  obj.__init__(
+      reduced_qnums,
+      reduced_labels,
+      charges[0].charge_types,
+      charge_dtype=reduced_qnums.dtype)
 
   if return_locations:
     row_locs = [0] * left_ind.num_unique
@@ -370,7 +376,8 @@ def _find_diagonal_sparse_blocks(
 
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums, np.arange(1, dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=block_qnums.dtype)
 
     return block_maps, obj, block_dims
 
@@ -390,7 +397,8 @@ def _find_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.zeros((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -422,7 +430,8 @@ def _find_diagonal_sparse_blocks(
   obj = charges[0].__new__(type(charges[0]))
   obj.__init__(block_qnums,
                np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-               charges[0].charge_types)
+               charges[0].charge_types,
+               charge_dtype=block_qnums.dtype)
   if do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
   return block_maps, obj, block_dims
@@ -495,7 +504,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charge_dtype=charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -553,7 +563,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=block_qnums.dtype)
 
   elif tr_partition == len(charges):
     # special case: reshape into col vector
@@ -585,7 +596,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=block_qnums.dtype)
   else:
 
     unique_row_qnums, new_row_degen = compute_fused_charge_degeneracies(
@@ -629,7 +641,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 charge_dtype=block_qnums.dtype)
 
   if do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 87d020b..35faaf5 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -212,7 +212,10 @@ class BaseCharge:
         axis=0)
     obj = self.__new__(type(self))
     obj.__init__(
-        charges=charges, charge_labels=None, charge_types=self.charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   def __add__(self, other: "BaseCharge") -> "BaseCharge":
@@ -227,7 +230,10 @@ class BaseCharge:
     fused_charges = fuse_ndarray_charges(self.charges, other.charges,
                                          self.charge_types)
     obj = self.__new__(type(self))
-    obj.__init__(fused_charges, charge_types=self.charge_types)
+    obj.__init__(
+        fused_charges,
+        charge_types=self.charge_types,
+        charge_dtype=fused_charges.dtype)
     return obj
 
   def dual(self, take_dual: Optional[bool] = False) -> "BaseCharge":
@@ -256,7 +262,8 @@ class BaseCharge:
         obj.__init__(
             unique_dual_charges,
             charge_labels=labels[self.charge_labels],
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         return obj
       dual_charges = np.stack([
           self.charge_types[n].dual_charges(charges[:, n])
@@ -266,7 +273,10 @@ class BaseCharge:
 
       obj = self.__new__(type(self))
       obj.__init__(
-          dual_charges, charge_labels=None, charge_types=self.charge_types)
+          dual_charges,
+          charge_labels=None,
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       return obj
 
     return self
@@ -279,7 +289,10 @@ class BaseCharge:
     charges = np.concatenate([self.charges, other.charges], axis=1)
     charge_types = self.charge_types + other.charge_types
     return BaseCharge(
-        charges=charges, charge_labels=None, charge_types=charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=charge_types,
+        charge_dtype=charges.dtype)
 
   def __mul__(self, number: bool) -> "BaseCharge":
     if not isinstance(number, (bool, np.bool_)):
@@ -328,12 +341,14 @@ class BaseCharge:
           charges=out[0],
           charge_labels=np.arange(out[0].shape[0], dtype=self.label_dtype),
           charge_types=self.charge_types,
+          charge_dtype=self.dtype,
       )
       return obj, out[1], out[2]
     obj.__init__(
         charges=out,
         charge_labels=np.arange(out.shape[0], dtype=self.label_dtype),
         charge_types=self.charge_types,
+        charge_dtype=self.dtype,
     )
     return obj
 
@@ -383,13 +398,15 @@ class BaseCharge:
             charges=unique_charges,
             charge_labels=np.arange(
                 unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp[0] = obj
       else:
         obj.__init__(
             charges=tmp,
             charge_labels=np.arange(tmp.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp = obj
       return tmp
 
@@ -399,7 +416,8 @@ class BaseCharge:
             charges=self._unique_charges,
             charge_labels=np.arange(
                 self._unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
 
         out = [obj]
         if return_inverse:
@@ -422,7 +440,8 @@ class BaseCharge:
           charges=unique_charges,
           charge_labels=np.arange(
               unique_charges.shape[0], dtype=self.label_dtype),
-          charge_types=self.charge_types)
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       tmp[0] = obj
       return tmp
 
@@ -463,7 +482,11 @@ class BaseCharge:
     reduced_locs = reduced_ind_labels >= 0
     new_ind_labels = reduced_ind_labels[reduced_locs].astype(self.label_dtype)
     obj = self.__new__(type(self))
-    obj.__init__(reduced_charges, new_ind_labels, self.charge_types)
+    obj.__init__(
+        reduced_charges,
+        new_ind_labels,
+        self.charge_types,
+        charge_dtype=self.dtype)
 
     if return_locations:
       return obj, strides * np.flatnonzero(reduced_locs).astype(np.uint32)
@@ -488,10 +511,17 @@ class BaseCharge:
       labels = self.charge_labels[n]
       unique_labels, new_labels = unique(labels, return_inverse=True)
       unique_charges = self.unique_charges[unique_labels, :]
-      obj.__init__(unique_charges, new_labels, self.charge_types)
+      obj.__init__(
+          unique_charges,
+          new_labels,
+          self.charge_types,
+          charge_dtype=self.dtype)
       return obj
     obj.__init__(
-        charges[n, :], charge_labels=None, charge_types=self.charge_types)
+        charges[n, :],
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   @property
-- 
2.43.0


From 3a8e78bc77486bbaf2f6d5962db30494f2da0eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:23 +0000
Subject: [PATCH 67/76] fix: labels of charges with more than 32767 different
 values

---
 tensornetwork/block_sparse/charge.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 35faaf5..2434e1a 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -58,7 +58,7 @@ class BaseCharge:
           "`len(charge_types) = {}` does not match `charges.shape[1]={}`"
           .format(len(charge_types), charges.shape[1]))
     self.num_symmetries = charges.shape[1]
-    if charges.shape[1] < 3:
+    if charges.shape[1] < 3 and charges.shape[0] <= np.iinfo(np.int16).max:
       self.label_dtype = np.int16
     else:
       self.label_dtype = np.int32
@@ -93,7 +93,8 @@ class BaseCharge:
     # A charge may be shared between threads: the labels are set before the
     # unique charges, and the full charges are dropped last, so that any other
     # thread finds either representation complete.
-    unique_charges, charge_labels = unique(self.charges, return_inverse=True)
+    unique_charges, charge_labels = unique(
+        self.charges, return_inverse=True, label_dtype=self.label_dtype)
     self._charge_labels = charge_labels
     self._unique_charges = unique_charges
     self._charges = None
-- 
2.43.0


From 8bf463251a7a348c5d105db8e69264dcf4a29d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:22 +0000
Subject: [PATCH 68/76] fix: numpy backend sum over all axes

---
 tensornetwork/backends/numpy/numpy_backend.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 969832e..81b853c 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -601,7 +601,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
           tensor: Tensor,
           axis: Optional[Sequence[int]] = None,
           keepdims: bool = False) -> Tensor:
-    return np.sum(tensor, axis=tuple(axis), keepdims=keepdims)
+    if axis is not None:
+      axis = tuple(axis)
+    return np.sum(tensor, axis=axis, keepdims=keepdims)
 
   def matmul(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
     if (tensor1.ndim <= 1) or (tensor2.ndim <= 1):
-- 
2.43.0


From 8123c9043e0b77206f3b02e27cae8fe7065c66de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:22 +0000
Subject: [PATCH 69/76] fix: jit with backend_argnum and a single static
 argument number

---
 tensornetwork/backends/decorators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/backends/decorators.py b/tensornetwork/backends/decorators.py
index f5dc677..f56d31d 100644
--- a/tensornetwork/backends/decorators.py
+++ b/tensornetwork/backends/decorators.py
@@ -60,6 +60,8 @@ def jit(fun: Callable,
     if backend is not None:
       raise ValueError("backend must be None if backend_argnum is specified.")
     argnum_mode = True
+    if isinstance(static_argnums, int):
+      static_argnums = (static_argnums,)
     static_argnums = tuple(list(static_argnums) + [backend_argnum,])
 
   if not argnum_mode:
-- 
2.43.0


From 0930afb17cac3208da7465a40433ac9a3a935673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:43:09 +0000
Subject: [PATCH 70/76] fix: tensorflow item of one-element tensors of higher
 order

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index e217a7d..c13310c 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -391,7 +391,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                          f"got {tensor.shape}")
 
     if numel == 1:
-      return tensor[0]
+      return tf.reshape(tensor, ())
     return tensor
 
   def power(self, a: Tensor, b: Union[Tensor, float]) -> Tensor:
-- 
2.43.0


From c5a5799c8b9893b4f893cf3fac3830b8c08d4497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:26 +0000
Subject: [PATCH 71/76] fix: legs of different symmetry groups with the same
 numbers are not equal

---
 tensornetwork/block_sparse/charge.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 2434e1a..e04bfea 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -594,6 +594,10 @@ class Z2Charge(BaseCharge):
     return cls(charges=charges)
 
 
+# the charge classes created by `ZNCharge`, so that there is one for each `n`
+_MODULAR_CHARGES = {}
+
+
 def ZNCharge(n: int) -> Callable:
   """Contstructor for charge classes of the ZN symmetry groups.
 
@@ -646,7 +650,7 @@ def ZNCharge(n: int) -> Callable:
       charges = np.random.randint(minval, maxval + 1, dimension, dtype=np.int16)
       return cls(charges=charges)
 
-  return ModularCharge
+  return _MODULAR_CHARGES.setdefault(n, ModularCharge)
 
 
 def fuse_ndarray_charges(charges_A: np.ndarray, charges_B: np.ndarray,
@@ -694,10 +698,13 @@ def charge_equal(c1: BaseCharge, c2: BaseCharge) -> bool:
   Compare two BaseCharges `c1` and `c2`.
   Return `True` if they are equal, else `False`.
   """
-  res = True
   if c1.dim != c2.dim:
     return False
 
+  if c1.charge_types != c2.charge_types:
+    # the same numbers are different elements in different groups
+    return False
+
   res = True      
   if c1._unique_charges is not None and c2._unique_charges is not None:
     # the order of the unique charges depends on how they were computed,
-- 
2.43.0


From c3434240c0d4d194dcb76dd2a19143397ec177c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:37:30 +0000
Subject: [PATCH 72/76] fix: canonicalize of infinite mps whose fixed points do
 not have full rank

---
 .../matrixproductstates/infinite_mps.py       | 35 ++++++-------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index c35bcda..8db6623 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -203,11 +203,9 @@ class InfiniteMPS(BaseMPS):
         of the mps.
       num_krylov_vecs: Number of Krylov vectors to diagonalize transfer_matrix
       maxiter: Maximum number of iterations in `eigs`
-      pseudo_inverse_cutoff: A cutoff for taking the Moore-Penrose
-        pseudo-inverse of a matrix. Given the SVD of a matrix :math:`M=U S V`,
-        the inverse isd is computed as :math:`V^* S^{-1}_+ U^*`,
-        where :math:`S^{-1}_+` equals `S^{-1}` for all values in `S` which
-        are larger than `pseudo_inverse_cutoff`, and is 0 for all others.
+      pseudo_inverse_cutoff: Eigenvalues of the left and right fixed points of
+        the transfer matrix that are not larger than `pseudo_inverse_cutoff`
+        are treated as 0. Defaults to the machine precision.
     Returns:
       None
     """
@@ -246,18 +244,10 @@ class InfiniteMPS(BaseMPS):
     mask = eigvals_left <= pseudo_inverse_cutoff
     eigvals_left = self.backend.index_update(eigvals_left, mask, 0.0)
 
-    inveigvals_left = 1.0 / eigvals_left
-    inveigvals_left = self.backend.index_update(inveigvals_left, mask, 0.0)
-
     sqrtl = ncon(
         [u_left, self.backend.diagflat(self.backend.sqrt(eigvals_left))],
         [[-2, 1], [1, -1]],
         backend=self.backend.name)
-    inv_sqrtl = ncon([
-        self.backend.diagflat(self.backend.sqrt(inveigvals_left)),
-        self.backend.conj(u_left)
-    ], [[-2, 1], [-1, 1]],
-                     backend=self.backend.name)
 
     eta, r = self.transfer_matrix_eigs(
         direction='right',
@@ -274,17 +264,10 @@ class InfiniteMPS(BaseMPS):
     mask = eigvals_right <= pseudo_inverse_cutoff
 
     eigvals_right = self.backend.index_update(eigvals_right, mask, 0.0)
-    inveigvals_right = 1.0 / eigvals_right
-    inveigvals_right = self.backend.index_update(inveigvals_right, mask, 0.0)
     sqrtr = ncon(
         [u_right, self.backend.diagflat(self.backend.sqrt(eigvals_right))],
         [[-1, 1], [1, -2]],
         backend=self.backend.name)
-    inv_sqrtr = ncon([
-        self.backend.diagflat(self.backend.sqrt(inveigvals_right)),
-        self.backend.conj(u_right)
-    ], [[-1, 1], [-2, 1]],
-                     backend=self.backend.name)
 
     tmp = ncon([sqrtl, sqrtr], [[-1, 1], [1, -2]], backend=self.backend.name)
     U, singvals, V, _ = self.backend.svd(
@@ -294,15 +277,17 @@ class InfiniteMPS(BaseMPS):
         max_truncation_error=truncation_threshold,
         relative=True)
     lam = self.backend.diagflat(singvals)
-    tensors[0] = ncon([lam, V, inv_sqrtr, tensors[0]],
-                      [[-1, 1], [1, 2], [2, 3], [3, -2, -3]],
+    # inserting sqrtr * V^+ * 1/lam * U^+ * sqrtl at the boundary does not
+    # change the state, also if the fixed points do not have full rank
+    tensors[0] = ncon([self.backend.conj(U), sqrtl, tensors[0]],
+                      [[1, -1], [1, 2], [2, -2, -3]],
                       backend=self.backend.name)
 
-    # absorb inv_sqrtl * U * lam into the right-most tensor
+    # absorb sqrtr * V^+ into the right-most tensor
     # Note that lam is absorbed here, which means that the state
     # is in the parallel decomposition
-    tensors[-1] = ncon([tensors[-1], inv_sqrtl, U, lam],
-                       [[-1, -2, 1], [1, 2], [2, 3], [3, -3]],
+    tensors[-1] = ncon([tensors[-1], sqrtr, self.backend.conj(V)],
+                       [[-1, -2, 1], [1, 2], [-3, 2]],
                        backend=self.backend.name)
     lam_norm = self.backend.norm(singvals)
     connector_matrix = self.backend.inv(lam / lam_norm)
-- 
2.43.0


From 0a9be37c77645c4969bdfe7e5929f9a17768bb81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:52 +0000
Subject: [PATCH 73/76] fix: tensordot of block-sparse tensors along negative
 axes

---
 tensornetwork/block_sparse/blocksparsetensor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index fffae2d..59de639 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -1019,6 +1019,13 @@ def tensordot(
         "rank of `tensor2` is smaller than `max(axes2) = {}`".format(
             max(axes1)))
 
+  #negative axes count from the end
+  axes1 = [a + tensor1.ndim if a < 0 else a for a in axes1]
+  axes2 = [a + tensor2.ndim if a < 0 else a for a in axes2]
+  if min(axes1) < 0 or min(axes2) < 0:
+    raise ValueError("`axes = {}` are out of bounds for tensors of rank {} "
+                     "and {}".format(axes, tensor1.ndim, tensor2.ndim))
+
   contr_flows_1 = []
   contr_flows_2 = []
   contr_charges_1 = []
@@ -1054,6 +1061,8 @@ def tensordot(
             np.array([a for a in axes2 for _ in tensor2._order[a]])[inds],
             [contr_charges_1[i] for i in inds],
             [contr_charges_2[i] for i in inds]))
+  if len(set(axes1)) != len(axes1) or len(set(axes2)) != len(axes2):
+    raise ValueError("repeated axis in `axes = {}`".format(axes))
 
   #checks finished
 
-- 
2.43.0


From 93c30b47cc45d93f69b62a572b7e15a2f87c7e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:52 +0000
Subject: [PATCH 74/76] fix: transpose of a block-sparse tensor with repeated
 axes is refused

---
 tensornetwork/block_sparse/blocksparsetensor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 59de639..7adb4a5 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -377,6 +377,8 @@ class ChargeArray:
       raise ValueError(
           "`len(order)={}` is different form `self.ndim={}`".format(
               len(order), self.ndim))
+    if len({o % self.ndim for o in order}) != self.ndim:
+      raise ValueError("repeated axis in `order={}`".format(order))
 
     order = [self._order[o] for o in order]
     tensor = self.__new__(type(self))
-- 
2.43.0


From 9d395b6689bcc9268df00d41b6a30795b3fc6305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:51 +0000
Subject: [PATCH 75/76] fix: cutoff of the pseudo inverse of a block-sparse
 matrix is relative to the whole matrix

---
 tensornetwork/block_sparse/linalg.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index 5f44712..637fef1 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -692,12 +692,17 @@ def pinv(matrix: BlockSparseTensor,
       flat_charges, flat_flows, tr_partition, flat_order)
 
   data = np.empty(np.sum(np.prod(shapes, axis=0)), dtype=matrix.dtype)
+  mats = [
+      np.reshape(matrix.data[block], shapes[:, n])
+      for n, block in enumerate(blocks)
+  ]
+  #the cutoff is relative to the largest singular value of the whole matrix
+  norms = [np.linalg.norm(mat, 2) for mat in mats]
+  largest = max(norms, default=0)
   for n, block in enumerate(blocks):
+    cutoff = rcond * largest / norms[n] if norms[n] > 0 else rcond
     data[block] = np.ravel(
-        np.linalg.pinv(
-            np.reshape(matrix.data[block], shapes[:, n]),
-            rcond=rcond,
-            hermitian=hermitian).T)
+        np.linalg.pinv(mats[n], rcond=cutoff, hermitian=hermitian).T)
   #pylint: disable=line-too-long
   return BlockSparseTensor(
       data=data,
-- 
2.43.0


From a96609167e8285b63babb66e66fb9a2a534558bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:42 +0000
Subject: [PATCH 76/76] fix: bias of a channels-first Conv2DMPO layer is added
 to the channels

---
 tensornetwork/tn_keras/conv2d_mpo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 3c5d1da..b2e9990 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -218,8 +218,7 @@ class Conv2DMPO(Layer):
                           dilations=self.dilation_rate)
 
     if self.use_bias:
-      bias = tf.reshape(self.bias_var, (1, self.filters,))
-      result += bias
+      result = tf.nn.bias_add(result, self.bias_var, data_format=tf_df)
 
     if self.activation is not None:
       result = self.activation(result)
-- 
2.43.0

