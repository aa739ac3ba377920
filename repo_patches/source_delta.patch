From 082e3d1f68f49fb576997271a566ce33d44c427f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:11 +0000
Subject: [PATCH 01/29] fix: perfect customization rebuild for small, edgeless
 or partially isolated CCHs

The chunks of the parallel rebuild were derived from the tails of the forward
edges only: with fewer chunks than threads * 4 this indexed out of bounds, with no
edges the chunk size was zero, and nodes before the first tail were dropped, which
misaligned first_out and lost backward edges.
---
 .../customization.rs                              | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index ec27315..d056b8e 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -458,12 +458,17 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
             let mut edges_of_each_thread = vec![(0, 0); k + 1];
             let mut local_edge_counts = &mut edges_of_each_thread[1..];
             let target_edges_per_thread = (m_fw + k - 1) / k;
-            let first_node_of_chunk: Vec<_> = cch
-                .forward_tail()
-                .chunks(target_edges_per_thread)
-                .map(|chunk| chunk[0] as usize)
-                .chain(std::iter::once(n))
+            // the first chunk has to start at the first node, even if it has no outgoing edges
+            let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+                .chain(
+                    cch.forward_tail()
+                        .chunks(std::cmp::max(target_edges_per_thread, 1))
+                        .skip(1)
+                        .map(|chunk| chunk[0] as usize),
+                )
                 .collect();
+            // there may be less than k chunks, the remaining ones are empty
+            first_node_of_chunk.resize(k + 1, n);
 
             // let nodes_per_thread = (n + k - 1) / k;
             // let first_node_of_chunk: Vec<_> = (0..=k).map(|i| min(n, i * nodes_per_thread)).collect();
-- 
2.43.0


From 8045db856415152ecc4d04a98d0398e8643e52f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:48 +0000
Subject: [PATCH 02/29] fix: sequential perfect customization panics on valid
 orders and unreachable arcs

With cch-disable-par, the separator layout was validated only for perfect
customization and only when it is not needed, and debug builds asserted
that no kept arc has infinite weight, which one-way arcs violate.
---
 .../algo/customizable_contraction_hierarchy/customization.rs    | 2 --
 .../customization/parallelization.rs                            | 2 +-
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
index d056b8e..8f6d71c 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization.rs
@@ -405,7 +405,6 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
                     .zip(fw_edge_ids)
                 {
                     if !modified {
-                        debug_assert!(link.weight < INFINITY);
                         forward_id_mapping[edge_idx] = forward_head.len() as EdgeId;
                         forward_head.push(link.node);
                         forward_tail.push(node);
@@ -423,7 +422,6 @@ pub fn rebuild_customized_perfect<'c, C: CCHT + Sync>(
                     .zip(bw_edge_ids)
                 {
                     if !modified {
-                        debug_assert!(link.weight < INFINITY);
                         backward_id_mapping[edge_idx] = backward_head.len() as EdgeId;
                         backward_head.push(link.node);
                         backward_tail.push(node);
diff --git a/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs b/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
index 1bcd425..ec05eda 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/customization/parallelization.rs
@@ -316,7 +316,7 @@ where
     /// The separator routine will be invoked only very few times in parallel, the final separator will be customized completely alone and nodes have high degrees.
     pub fn new_with_aux(cch: &'a C, customize_cell: F, customize_separator: G) -> Self {
         let separators = cch.separators();
-        if cfg!(feature = "cch-disable-par") {
+        if !cfg!(feature = "cch-disable-par") {
             separators.validate_for_parallelization();
         }
 
-- 
2.43.0


From a47ec46390dbe9dc57c0b2ea155838fa233a255f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:13 +0000
Subject: [PATCH 03/29] fix: CH path unpacking works on ranks and unpacks
 shortcuts correctly

---
 .../src/algo/contraction_hierarchy/query.rs   | 82 +++++++++----------
 1 file changed, 38 insertions(+), 44 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/query.rs b/engine/src/algo/contraction_hierarchy/query.rs
index d28ec11..ad7a8d2 100644
--- a/engine/src/algo/contraction_hierarchy/query.rs
+++ b/engine/src/algo/contraction_hierarchy/query.rs
@@ -91,58 +91,52 @@ impl Server {
         }
     }
 
-    // Ugly path unpacking.
-    // Should probably switch to something similar as in CCH query, which utilizes the parent pointers in the dijkstra struct.
     fn path(&self, query: Query) -> Vec<NodeId> {
-        use std::collections::LinkedList;
-
-        let &(ref forward_middle_nodes, ref backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
-        let mut forwad_path = LinkedList::new();
-        forwad_path.push_front(self.meeting_node);
-
-        while *forwad_path.front().unwrap() != query.from {
-            let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.forward_data.predecessors[*forwad_path.front().unwrap() as usize].0;
-                let middle = forward_middle_nodes[self.forward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.forward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    forwad_path.push_front(node);
-                }
-            }
+        // everything in here happens on ranks, only the final path is translated back to node ids
+        let from = self.order.rank(query.from);
+        let to = self.order.rank(query.to);
+
+        // path in the hierarchy, still containing shortcuts
+        let mut up_down_path = vec![self.meeting_node];
+        while *up_down_path.last().unwrap() != from {
+            up_down_path.push(self.forward_data.predecessors[*up_down_path.last().unwrap() as usize].0);
         }
-
-        let mut backward_path = LinkedList::new();
-        backward_path.push_back(self.meeting_node);
-
-        while *backward_path.back().unwrap() != query.to {
-            let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-            let mut shortcut_stack = vec![next];
-
-            while let Some(node) = shortcut_stack.pop() {
-                let next = self.backward_data.predecessors[*backward_path.back().unwrap() as usize].0;
-                let middle = backward_middle_nodes[self.backward.edge_indices(node, next).next().unwrap().0 as usize];
-                if middle < self.backward.num_nodes() as NodeId {
-                    shortcut_stack.push(node);
-                    shortcut_stack.push(middle);
-                } else {
-                    backward_path.push_back(node);
-                }
-            }
+        up_down_path.reverse();
+        while *up_down_path.last().unwrap() != to {
+            up_down_path.push(self.backward_data.predecessors[*up_down_path.last().unwrap() as usize].0);
         }
 
-        forwad_path.pop_back();
-        forwad_path.append(&mut backward_path);
+        let mut path = vec![from];
+        for arc in up_down_path.windows(2) {
+            self.unpack_arc(arc[0], arc[1], &mut path);
+        }
 
-        for node in &mut forwad_path {
+        for node in &mut path {
             *node = self.order.node(*node);
         }
 
-        forwad_path.into_iter().collect()
+        path
+    }
+
+    // appends all nodes after `tail` on the original path represented by the arc
+    fn unpack_arc(&self, tail: NodeId, head: NodeId, path: &mut Vec<NodeId>) {
+        let &(ref forward_middle_nodes, ref backward_middle_nodes) = self.shortcut_middle_nodes.as_ref().unwrap();
+
+        // arcs are stored at their lower ranked endpoint
+        let (graph, middle_nodes, low, high) = if tail < head {
+            (&self.forward, forward_middle_nodes, tail, head)
+        } else {
+            (&self.backward, backward_middle_nodes, head, tail)
+        };
+        let edge = graph.edge_indices(low, high).min_by_key(|&EdgeIdT(edge)| graph.link(edge).weight).unwrap().0;
+        let middle = middle_nodes[edge as usize];
+
+        if middle < graph.num_nodes() as NodeId {
+            self.unpack_arc(tail, middle, path);
+            self.unpack_arc(middle, head, path);
+        } else {
+            path.push(head);
+        }
     }
 }
 
-- 
2.43.0


From 976503deb4411a92f8d63de1f413ad31093d5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:13 +0000
Subject: [PATCH 04/29] fix: partial contraction drops arcs of the first node
 that is not contracted

---
 engine/src/algo/contraction_hierarchy/mod.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index f3fafcf..cbe0f00 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -163,13 +163,13 @@ impl ContractionGraph {
         // witness search dijkstra data
         let mut data = (DijkstraData::new(graph.nodes.len()), DijkstraData::new(graph.nodes.len()));
 
-        // split of the lowest node, the one that will be contracted
-        while let Some((node, mut subgraph)) = graph.remove_lowest() {
-            if contraction_count == 0 {
-                break;
-            } else {
-                contraction_count -= 1;
-            }
+        while contraction_count > 0 {
+            contraction_count -= 1;
+            // split of the lowest node, the one that will be contracted
+            let (node, mut subgraph) = match graph.remove_lowest() {
+                Some(split) => split,
+                None => break,
+            };
             // for all pairs of neighbors
             for &(Link { node: from, weight: from_wght }, _) in &node.incoming {
                 for &(Link { node: to, weight: to_wght }, _) in &node.outgoing {
-- 
2.43.0


From 65b4ab97652d65cc348d8d0a6e0485906623792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:13 +0000
Subject: [PATCH 05/29] fix: CH contraction overflows on shortcuts longer than
 INFINITY

---
 engine/src/algo/contraction_hierarchy/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index cbe0f00..b5a8ace 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -173,6 +173,10 @@ impl ContractionGraph {
             // for all pairs of neighbors
             for &(Link { node: from, weight: from_wght }, _) in &node.incoming {
                 for &(Link { node: to, weight: to_wght }, _) in &node.outgoing {
+                    // paths of at least infinite length never need to be preserved
+                    if from_wght + to_wght >= INFINITY {
+                        continue;
+                    }
                     // do witness search to check if we need the shortcut
                     let (shortcut_required, new_data) = subgraph.shortcut_required(from, to, from_wght + to_wght, data);
                     data = new_data;
-- 
2.43.0


From d5ae4fa168c4fc146ca0d8c0396efdc68b859246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:17 +0000
Subject: [PATCH 06/29] fix: wrong debug assertion in BucketCHPotential

---
 engine/src/algo/ch_potentials.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index 3f0d434..a273bf7 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -551,7 +551,7 @@ impl<GF: LinkIterGraph, GB: LinkIterGraph> BucketCHPotential<GF, GB> {
                 num_pot_computations,
                 num_targets,
             );
-            debug_assert!(pot_final.get(node as usize));
+            debug_assert!(pot_final.get(l.node as usize));
             let (potentials, upper_dists) = potentials.split_at_mut(l.node as usize);
             let head_dists = upper_dists[0].as_ref().unwrap();
             let self_dists = potentials[node as usize].as_mut().unwrap();
-- 
2.43.0


From 49fb9562a8526f3b36a09947a4c2cb2ed22c457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:38 +0000
Subject: [PATCH 07/29] fix: CH contraction panics on parallel arcs

---
 engine/src/algo/contraction_hierarchy/mod.rs | 30 +++++++++-----------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/engine/src/algo/contraction_hierarchy/mod.rs b/engine/src/algo/contraction_hierarchy/mod.rs
index b5a8ace..169a616 100644
--- a/engine/src/algo/contraction_hierarchy/mod.rs
+++ b/engine/src/algo/contraction_hierarchy/mod.rs
@@ -56,22 +56,20 @@ impl Node {
     }
 
     fn insert_or_decrease(links: &mut Vec<(Link, NodeId)>, node: NodeId, weight: Weight, over: NodeId) -> ShortcutResult {
-        for &mut (
-            Link {
-                node: other,
-                weight: ref mut other_weight,
-            },
-            ref mut shortcut_middle,
-        ) in links.iter_mut()
-        {
-            if node == other {
-                if weight < *other_weight {
-                    *shortcut_middle = over;
-                    *other_weight = weight;
-                    return ShortcutResult::ShortenedExisting;
-                } else {
-                    return ShortcutResult::ShorterExisting;
-                }
+        // with parallel links, the shortest one has to be considered,
+        // because the order of the links may differ between the outgoing and the incoming side
+        let existing = links
+            .iter_mut()
+            .filter(|&&mut (Link { node: other, .. }, _)| node == other)
+            .min_by_key(|&&mut (Link { weight, .. }, _)| weight);
+
+        if let Some((Link { weight: other_weight, .. }, shortcut_middle)) = existing {
+            if weight < *other_weight {
+                *shortcut_middle = over;
+                *other_weight = weight;
+                return ShortcutResult::ShortenedExisting;
+            } else {
+                return ShortcutResult::ShorterExisting;
             }
         }
 
-- 
2.43.0


From ff3cec55d40be308e49ab8a1060b56c527ef3de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:33 +0000
Subject: [PATCH 08/29] fix: bucket selection panics when a terminal is given
 twice

---
 engine/src/algo/ch_potentials.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/ch_potentials.rs b/engine/src/algo/ch_potentials.rs
index a273bf7..85840cf 100644
--- a/engine/src/algo/ch_potentials.rs
+++ b/engine/src/algo/ch_potentials.rs
@@ -641,7 +641,7 @@ pub struct BucketCHSelectionRun<'a, G, H> {
     queue: &'a mut IndexdMinHeap<NodeIdT>,
     incoming: &'a mut [Vec<(NodeIdT, Weight)>],
     incoming_pruning: &'a mut [Vec<(NodeIdT, Weight)>],
-    terminal_dists: &'a mut [Weight],
+    terminal_dists: &'a mut Vec<Weight>,
     used_terminals: &'a mut Vec<NodeIdT>,
 }
 
@@ -669,8 +669,12 @@ where
         self.queue.clear();
         self.distances.reset();
         for (i, terminal) in terminals.enumerate() {
-            self.queue.push(NodeIdT(terminal));
+            // the same node might be a terminal several times
+            self.queue.push_unless_contained(NodeIdT(terminal));
             self.distances[terminal as usize].push((i as u32, 0));
+            if i >= self.terminal_dists.len() {
+                self.terminal_dists.push(INFINITY);
+            }
         }
     }
 
-- 
2.43.0


From 6955977a04b4db7f2c8363533013cd62d695cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:28 +0000
Subject: [PATCH 09/29] fix: bucket based nearest neighbor queries report
 unreachable targets

---
 .../query/nearest_neighbor.rs                                | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 037ea23..6549501 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -215,6 +215,11 @@ impl<'a> BCCHNearestNeighbor<'a> {
                 for &(target, bw_dist) in self.selection_data.buckets(node).iter().take(k) {
                     let dist = fw_dist + bw_dist;
 
+                    // unreachable, just like all following targets
+                    if dist >= INFINITY {
+                        break;
+                    }
+
                     if dist >= self.closest_targets.peek().map(|&Reverse((d, _))| d).unwrap_or(INFINITY) && self.closest_targets.len() >= k {
                         break;
                     }
-- 
2.43.0


From 238a9ea698804279a7e99cc7f4f59b4bd86e714c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:13 +0000
Subject: [PATCH 10/29] fix: separator based nearest neighbor queries miss
 targets in the cell of the source

---
 .../query/nearest_neighbor.rs                          | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
index 6549501..b1067bf 100644
--- a/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
+++ b/engine/src/algo/customizable_contraction_hierarchy/query/nearest_neighbor.rs
@@ -36,6 +36,7 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
 
     fn query(&mut self, source: NodeId, k: usize) -> Vec<(Weight, NodeId)> {
         self.one_to_many.init(source);
+        let source_rank = self.cch.node_order().rank(source);
 
         if k < self.targets.len() {
             self.stack.push((0, self.cch.separators()));
@@ -101,8 +102,13 @@ impl<'a> SeparatorBasedNearestNeighbor<'a> {
                     let top_cell_node = child.nodes.highest_ranked_node().unwrap();
                     let top_node_out_edges = self.cch.neighbor_edge_indices_usize(top_cell_node);
                     let mut lower_bound_dist = INFINITY;
-                    for &boundary in &self.cch.head()[top_node_out_edges] {
-                        lower_bound_dist = std::cmp::min(lower_bound_dist, self.one_to_many.potential_with_cch_rank(boundary).unwrap_or(INFINITY));
+                    if (top_cell_node + 1 - child.num_nodes as NodeId..=top_cell_node).contains(&source_rank) {
+                        // the targets in the cell of the source can be reached without passing the boundary
+                        lower_bound_dist = 0;
+                    } else {
+                        for &boundary in &self.cch.head()[top_node_out_edges] {
+                            lower_bound_dist = std::cmp::min(lower_bound_dist, self.one_to_many.potential_with_cch_rank(boundary).unwrap_or(INFINITY));
+                        }
                     }
                     self.stack.push((lower_bound_dist, child));
                 }
-- 
2.43.0


From 49a23c240c5c678078a7d3d40da0cfea20da2cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 11/29] fix: inverting a rank select map across empty blocks

The prefix sums of empty blocks are equal to the one of the next block, so
the binary search could hit an empty block in front of the right one.
---
 engine/src/datastr/rank_select_map.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index 6481915..aa9c411 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -330,10 +330,9 @@ impl InvertableRankSelectMap {
     pub fn inverse(&self, value: usize) -> usize {
         debug_assert!(value < self.map.len());
         let group = value / GROUPED_LOCALS;
-        let block_index = match self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].binary_search(&value) {
-            Ok(block_index) => block_index,
-            Err(block_index) => block_index - 1,
-        } + self.blocks[group];
+        // the last block starting with a local id of at most `value` - there may be empty blocks with the same prefix sum in front of it
+        let block_index =
+            self.map.prefix_sum[self.blocks[group]..=self.blocks[group + 1]].partition_point(|&prefix_sum| prefix_sum <= value) - 1 + self.blocks[group];
 
         let block_local_rank = value - self.map.prefix_sum[block_index];
         let block_local_index = self.block_local_index(block_index, block_local_rank);
-- 
2.43.0


From ab8784e234708513cb02c67ff22da4e0813bb985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 12/29] fix: BitVec::set_all must not set bits beyond the size

count_ones and the rank select maps count over all words, so the padding
bits of the last word were counted too.
---
 engine/src/datastr/rank_select_map.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/engine/src/datastr/rank_select_map.rs b/engine/src/datastr/rank_select_map.rs
index aa9c411..adf8c2c 100644
--- a/engine/src/datastr/rank_select_map.rs
+++ b/engine/src/datastr/rank_select_map.rs
@@ -91,6 +91,12 @@ impl BitVec {
         for val in &mut self.data {
             *val = !0;
         }
+        // keep the unused bits beyond `size` zero, all the counting relies on that
+        if self.size % STORAGE_BITS != 0 {
+            if let Some(last) = self.data.last_mut() {
+                *last = (1 << (self.size % STORAGE_BITS)) - 1;
+            }
+        }
     }
 
     /// The total number of bits set to 1.
-- 
2.43.0


From 5082dcfff32a1be2c10be167d62fc34d4e021ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:30 +0000
Subject: [PATCH 13/29] fix: reversing a graph view which iterates fewer arcs
 than num_arcs

Views such as the infinity filter do not yield all arcs, so the reversed
graph got trailing bogus arcs or failed its consistency check.
---
 engine/src/datastr/graph/first_out_graph.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/engine/src/datastr/graph/first_out_graph.rs b/engine/src/datastr/graph/first_out_graph.rs
index eab7310..668328c 100644
--- a/engine/src/datastr/graph/first_out_graph.rs
+++ b/engine/src/datastr/graph/first_out_graph.rs
@@ -141,8 +141,8 @@ impl<G: LinkIterable<Link>> BuildReversed<G> for OwnedGraph {
             *deg = prefix_sum;
         }
 
-        let mut head = vec![0; graph.num_arcs()];
-        let mut weights = vec![0; graph.num_arcs()];
+        let mut head = vec![0; prefix_sum as usize];
+        let mut weights = vec![0; prefix_sum as usize];
 
         // iterate over all edges and insert them in the reversed structure
         for node in 0..(graph.num_nodes() as NodeId) {
@@ -503,7 +503,7 @@ impl<G: LinkIterable<NodeIdT>> BuildReversed<G> for UnweightedOwnedGraph {
             *deg = prefix_sum;
         }
 
-        let mut head = vec![0; graph.num_arcs()];
+        let mut head = vec![0; prefix_sum as usize];
 
         // iterate over all edges and insert them in the reversed structure
         for node in 0..(graph.num_nodes() as NodeId) {
@@ -567,8 +567,8 @@ impl<G: LinkIterable<(NodeIdT, EdgeIdT)>> BuildReversed<G> for ReversedGraphWith
             *deg = prefix_sum;
         }
 
-        let mut head = vec![0; graph.num_arcs()];
-        let mut edge_ids = vec![0; graph.num_arcs()];
+        let mut head = vec![0; prefix_sum as usize];
+        let mut edge_ids = vec![0; prefix_sum as usize];
 
         // iterate over all edges and insert them in the reversed structure
         for node in 0..(graph.num_nodes() as NodeId) {
-- 
2.43.0


From ef989145d8ae6c1f050b0b60845aa0f4fe1ef7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:04 +0000
Subject: [PATCH 14/29] fix: nodes outside of the core treated as core nodes

When no core node has a degree below four (three), the end of the range of
high degree nodes was searched beyond the core, so the first nodes of the
attached components were classified as core nodes.
---
 engine/src/algo/topocore.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 50bd563..5985bec 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -597,8 +597,9 @@ pub fn virtual_topocore<Graph: LinkIterable<NodeIdT>>(graph: &Graph) -> VirtualT
             bcc.push(components[node as usize] - 1);
         }
     }
-    let deg3 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 4).unwrap_or(n as usize);
-    let deg2 = new_order.iter().position(|&node| symmetric_degrees[node as usize] < 3).unwrap_or(n as usize);
+    let core = &new_order[..biggest_bcc_size];
+    let deg3 = core.iter().position(|&node| symmetric_degrees[node as usize] < 4).unwrap_or(biggest_bcc_size);
+    let deg2 = core.iter().position(|&node| symmetric_degrees[node as usize] < 3).unwrap_or(biggest_bcc_size);
 
     report!("biggest_bcc_size", biggest_bcc_size);
     report!("deg2", deg2);
-- 
2.43.0


From ed5bd56a3bc224ca5719d55f303f3b2fcf91e68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:48 +0000
Subject: [PATCH 15/29] fix: topocore queries within components attached to the
 core

When source and target are attached to the core through the same node, or
not attached to it at all, the search in the component was stopped at the
bridge node and its queue thrown away, so existing paths were not found.
Reaching the target without being able to reach the core did not work,
either.
---
 engine/src/algo/ch_potentials/query.rs    | 17 +++++++++++++++--
 engine/src/algo/ch_potentials/td_query.rs | 18 ++++++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/engine/src/algo/ch_potentials/query.rs b/engine/src/algo/ch_potentials/query.rs
index 0ca9a22..be6febd 100644
--- a/engine/src/algo/ch_potentials/query.rs
+++ b/engine/src/algo/ch_potentials/query.rs
@@ -95,7 +95,11 @@ where
 
         let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
         let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
-        let into_core_pot = potential.potential(into_core)?;
+        // The core does not matter when both nodes are attached to it through the same node, or when they are not attached to it at all.
+        let within_component = into_core == out_of_core
+            || (!virtual_topocore.node_type(query.from()).in_core() && virtual_topocore.bridge_node(query.from()).is_none());
+        let comp_target = if within_component { query.to() } else { into_core };
+        let comp_target_pot = potential.potential(comp_target)?;
 
         let mut comp_search = TopoDijkstraRun::query(
             &self.comp_graph,
@@ -111,13 +115,22 @@ where
             if comp_search
                 .queue()
                 .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
+                .map(|e| e.key >= *comp_search.tentative_distance(comp_target) + comp_target_pot)
                 .unwrap_or(true)
             {
                 break;
             }
         }
 
+        if within_component {
+            report!("num_queue_pops", num_queue_pops);
+            report!("num_queue_pushs", comp_search.num_queue_pushs());
+            report!("num_relaxed_arcs", comp_search.num_relaxed_arcs());
+
+            let dist = *comp_search.tentative_distance(query.to());
+            return if dist < INFINITY { Some(dist - departure) } else { None };
+        }
+
         if *comp_search.tentative_distance(into_core) >= INFINITY {
             return None;
         }
diff --git a/engine/src/algo/ch_potentials/td_query.rs b/engine/src/algo/ch_potentials/td_query.rs
index 9eb3852..f3f1796 100644
--- a/engine/src/algo/ch_potentials/td_query.rs
+++ b/engine/src/algo/ch_potentials/td_query.rs
@@ -108,7 +108,11 @@ where
 
         let into_core = virtual_topocore.bridge_node(query.from()).unwrap_or(query.from());
         let out_of_core = virtual_topocore.bridge_node(query.to()).unwrap_or(query.to());
-        let into_core_pot = potential.potential(into_core, None).unwrap_or(INFINITY);
+        // The core does not matter when both nodes are attached to it through the same node, or when they are not attached to it at all.
+        let within_component = into_core == out_of_core
+            || (!virtual_topocore.node_type(query.from()).in_core() && virtual_topocore.bridge_node(query.from()).is_none());
+        let comp_target = if within_component { query.to() } else { into_core };
+        let comp_target_pot = potential.potential(comp_target, None).unwrap_or(INFINITY);
 
         let mut comp_search = TopoDijkstraRun::query(
             &self.comp_graph,
@@ -124,13 +128,23 @@ where
             if comp_search
                 .queue()
                 .peek()
-                .map(|e| e.key >= *comp_search.tentative_distance(into_core) + into_core_pot)
+                .map(|e| e.key >= *comp_search.tentative_distance(comp_target) + comp_target_pot)
                 .unwrap_or(true)
             {
                 break;
             }
         }
 
+        if within_component {
+            report!("num_queue_pops", num_queue_pops);
+            report!("num_queue_pushs", comp_search.num_queue_pushs());
+            report!("num_relaxed_arcs", comp_search.num_relaxed_arcs());
+            potential.report_stats();
+
+            let dist = *comp_search.tentative_distance(query.to());
+            return if dist < INFINITY { Some(dist - departure) } else { None };
+        }
+
         let mut pushs = comp_search.num_queue_pushs();
         let mut relaxed = comp_search.num_relaxed_arcs();
 
-- 
2.43.0


From f65c348fa69cd09e7392ce6c065748d652ee9d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 16/29] fix: bidirectional topocore search with graphs cut at
 the bridges

The forward and the backward graph lacked the arcs leaving the core in
their direction, but stopping and pruning assume that both searches see the
whole graph: paths through attached components were missed or too long.
---
 engine/src/algo/topocore.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/engine/src/algo/topocore.rs b/engine/src/algo/topocore.rs
index 5985bec..578cd99 100644
--- a/engine/src/algo/topocore.rs
+++ b/engine/src/algo/topocore.rs
@@ -682,21 +682,17 @@ impl<Graph> VirtualTopocoreGraph<Graph> {
         Graph: BuildPermutated<G>,
         Graph: BuildPermutated<Graph>,
     {
+        // Both searches have to see all arcs: stopping (and pruning) relies on each search
+        // having settled everything up to its progress, also beyond the bridges out of the core.
         let reversed = Graph::reversed(graph);
         let topocore = virtual_topocore(graph);
         (
             VirtualTopocoreGraph {
-                graph: <Graph as BuildPermutated<G>>::permutated_filtered(&graph, &topocore.order, {
-                    let topocore = topocore.clone();
-                    Box::new(move |t, h| !(topocore.node_type(t).in_core() && !topocore.node_type(h).in_core()))
-                }),
+                graph: <Graph as BuildPermutated<G>>::permutated(graph, &topocore.order),
                 virtual_topocore: topocore.clone(),
             },
             VirtualTopocoreGraph {
-                graph: <Graph as BuildPermutated<Graph>>::permutated_filtered(&reversed, &topocore.order, {
-                    let topocore = topocore.clone();
-                    Box::new(move |t, h| !(topocore.node_type(t).in_core() && !topocore.node_type(h).in_core()))
-                }),
+                graph: <Graph as BuildPermutated<Graph>>::permutated(&reversed, &topocore.order),
                 virtual_topocore: topocore.clone(),
             },
             topocore,
-- 
2.43.0


From 420d30725a3d31fc6a1da21f7549ab380e0ee243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:58 +0000
Subject: [PATCH 17/29] fix: time-dependent Dijkstra server reports the travel
 time instead of the arrival time

---
 engine/src/algo/dijkstra/query/dijkstra.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/algo/dijkstra/query/dijkstra.rs b/engine/src/algo/dijkstra/query/dijkstra.rs
index 7d064a4..5617ce1 100644
--- a/engine/src/algo/dijkstra/query/dijkstra.rs
+++ b/engine/src/algo/dijkstra/query/dijkstra.rs
@@ -57,7 +57,7 @@ where
         while let Some(node) = dijkstra.next_step_with_potential(|node| potential.potential(node)) {
             num_queue_pops += 1;
             if node == to {
-                result = Some(*dijkstra.tentative_distance(node));
+                result = Some(*dijkstra.tentative_distance(node) - query.initial_state());
                 break;
             }
         }
-- 
2.43.0


From 75b190837af7ebbfdbfd2b03a4f562538628a87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:58 +0000
Subject: [PATCH 18/29] fix: an empty departure range does not make the upper
 bound of a travel time function infinite

---
 .../datastr/graph/time_dependent/piecewise_linear_function.rs   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 00c3b23..0d3c64c 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -101,7 +101,7 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     pub fn upper_bound_in_included(&self, range: Range<Timestamp>) -> Weight {
         if range.is_empty() {
-            return INFINITY;
+            return 0;
         }
         let (first_idx, first_lower) = match self.departure_time.locate(range.start, |&dt| dt) {
             Location::On(index) => (index, INFINITY),
-- 
2.43.0


From 04f91d56122c9ac63b12801ad4eff2c6d6698769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:58 +0000
Subject: [PATCH 19/29] fix: average of constant travel time functions and over
 time windows past midnight

---
 .../graph/time_dependent/piecewise_linear_function.rs     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index 0d3c64c..f9c7bc5 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -30,9 +30,15 @@ impl<'a> PiecewiseLinearFunction<'a> {
 
     /// Calculate average Weight over a given time range.
     pub fn average(&self, range: WrappingRange) -> Weight {
+        if let &[const_tt] = self.travel_time {
+            return const_tt;
+        }
+
         let monotone_range = range.monotonize();
         let total_time = monotone_range.end - monotone_range.start;
-        let (first_range, second_range) = monotone_range.split(period());
+        let (first_range, mut second_range) = monotone_range.split(period());
+        second_range.start -= period();
+        second_range.end -= period();
         let mut sum: u64 = 0;
         for seg in self.non_wrapping_seg_iter(first_range).chain(self.non_wrapping_seg_iter(second_range)) {
             let delta = seg.valid.end - seg.valid.start;
-- 
2.43.0


From bf29f7f59421b4f7bef6ff1ec6de6e6fbd1db90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:16 +0000
Subject: [PATCH 20/29] fix: the live lower bound covers the time until the
 prediction applies

---
 engine/src/datastr/graph/time_dependent/graph.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/graph.rs b/engine/src/datastr/graph/time_dependent/graph.rs
index 71eaa5f..4d6e2a9 100644
--- a/engine/src/datastr/graph/time_dependent/graph.rs
+++ b/engine/src/datastr/graph/time_dependent/graph.rs
@@ -426,8 +426,13 @@ impl PessimisticLiveTDGraph {
     pub fn live_lower_bound(&self, edge_id: EdgeId, now: Timestamp, until: Timestamp) -> Weight {
         let ttf = self.graph.travel_time_function(edge_id);
         if let Some((live, soon)) = self.live[edge_id as usize].value() {
-            if until >= soon {
-                ttf.lower_bound_in_range(soon..until)
+            if until > soon {
+                let predicted = ttf.lower_bound_in_range(soon..until);
+                if now < soon {
+                    std::cmp::min(live, predicted)
+                } else {
+                    predicted
+                }
             } else {
                 let tt_soon = ttf.eval(soon);
                 std::cmp::min(live, tt_soon.saturating_add(soon - until))
-- 
2.43.0


From b067c7e2fc4ccb75ddce05ec3a5057d7a370f918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:22 +0000
Subject: [PATCH 21/29] fix: upper bounds of travel time functions for ranges
 that start or end at a breakpoint

---
 .../datastr/graph/time_dependent/piecewise_linear_function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
index f9c7bc5..a34cc52 100644
--- a/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/time_dependent/piecewise_linear_function.rs
@@ -110,12 +110,12 @@ impl<'a> PiecewiseLinearFunction<'a> {
             return 0;
         }
         let (first_idx, first_lower) = match self.departure_time.locate(range.start, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+            Location::On(index) => (index, 0),
             Location::Between(_lower_index, upper_index) => (upper_index, self.evaluate(range.start)),
         };
 
         let (last_idx, last_lower) = match self.departure_time.locate(range.end, |&dt| dt) {
-            Location::On(index) => (index, INFINITY),
+            Location::On(index) => (index, 0),
             Location::Between(lower_index, _upper_index) => (lower_index, self.evaluate(range.end)),
         };
 
-- 
2.43.0


From eed8643e0fc077254f707cd6621c1490615fbf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 22/29] fix: chunks of the parallel potential construction on
 small CCHs

Same as in the rebuild of the perfect customization: with fewer chunks than
threads * 4 this indexed out of bounds, with no edges the chunk size was zero and
nodes before the first tail were dropped.
---
 engine/src/algo/td_astar.rs                   | 30 ++++++++++++-------
 .../src/algo/traffic_aware/td_traffic_pots.rs | 30 ++++++++++++-------
 2 files changed, 40 insertions(+), 20 deletions(-)

diff --git a/engine/src/algo/td_astar.rs b/engine/src/algo/td_astar.rs
index d1d46df..8d01b5e 100644
--- a/engine/src/algo/td_astar.rs
+++ b/engine/src/algo/td_astar.rs
@@ -318,12 +318,17 @@ impl<'a> MultiMetric<'a> {
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
         let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
+        // the first chunk has to start at the first node, even if it has no outgoing edges
+        let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+            .chain(
+                cch.forward_tail()
+                    .chunks(std::cmp::max(target_edges_per_thread, 1))
+                    .skip(1)
+                    .map(|chunk| chunk[0] as usize),
+            )
             .collect();
+        // there may be less than k chunks, the remaining ones are empty
+        first_node_of_chunk.resize(k + 1, n);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -1095,12 +1100,17 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
         let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
+        // the first chunk has to start at the first node, even if it has no outgoing edges
+        let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+            .chain(
+                cch.forward_tail()
+                    .chunks(std::cmp::max(target_edges_per_thread, 1))
+                    .skip(1)
+                    .map(|chunk| chunk[0] as usize),
+            )
             .collect();
+        // there may be less than k chunks, the remaining ones are empty
+        first_node_of_chunk.resize(k + 1, n);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
diff --git a/engine/src/algo/traffic_aware/td_traffic_pots.rs b/engine/src/algo/traffic_aware/td_traffic_pots.rs
index 20b00ed..af58663 100644
--- a/engine/src/algo/traffic_aware/td_traffic_pots.rs
+++ b/engine/src/algo/traffic_aware/td_traffic_pots.rs
@@ -219,12 +219,17 @@ impl<'a> MultiMetric<'a> {
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
         let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
+        // the first chunk has to start at the first node, even if it has no outgoing edges
+        let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+            .chain(
+                cch.forward_tail()
+                    .chunks(std::cmp::max(target_edges_per_thread, 1))
+                    .skip(1)
+                    .map(|chunk| chunk[0] as usize),
+            )
             .collect();
+        // there may be less than k chunks, the remaining ones are empty
+        first_node_of_chunk.resize(k + 1, n);
 
         rayon::scope(|s| {
             let fw_lower = &fw_lower;
@@ -885,12 +890,17 @@ impl<'a, W: TDBounds + Default + Send + Sync> IntervalMinPotential<'a, W> {
         let mut edges_of_each_thread = vec![(0, 0); k + 1];
         let mut local_edge_counts = &mut edges_of_each_thread[1..];
         let target_edges_per_thread = (m + k - 1) / k;
-        let first_node_of_chunk: Vec<_> = cch
-            .forward_tail()
-            .chunks(target_edges_per_thread)
-            .map(|chunk| chunk[0] as usize)
-            .chain(std::iter::once(n))
+        // the first chunk has to start at the first node, even if it has no outgoing edges
+        let mut first_node_of_chunk: Vec<_> = std::iter::once(0)
+            .chain(
+                cch.forward_tail()
+                    .chunks(std::cmp::max(target_edges_per_thread, 1))
+                    .skip(1)
+                    .map(|chunk| chunk[0] as usize),
+            )
             .collect();
+        // there may be less than k chunks, the remaining ones are empty
+        first_node_of_chunk.resize(k + 1, n);
 
         // BUCKETS
         let mut fw_first_out = vec![0; cch.first_out().len()];
-- 
2.43.0


From d1a40f076164c2b5711240b5fc6a00250e5a402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 23/29] fix: inverse evaluation of travel time functions on
 later days

split_of_period returns the number of periods, not their length.
---
 .../graph/floating_time_dependent/piecewise_linear_function.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 8f6d023..6e7c19b 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -85,7 +85,8 @@ impl<'a> PLF for PeriodicPiecewiseLinearFunction<'a> {
         }
 
         let wrap_val = self.ipps.first().unwrap().val;
-        let (p, t) = (t - wrap_val).split_of_period();
+        let (times_period, t) = (t - wrap_val).split_of_period();
+        let p = times_period * FlWeight::from(period());
         let t = t + wrap_val;
 
         let first = self.first().unwrap();
-- 
2.43.0


From 21beab4b479ef6c719c7978a7d015c3617bcef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:24 +0000
Subject: [PATCH 24/29] fix: evaluate travel time functions of arcs without
 live data

The debug assertion accessed the first point of an empty update.
---
 .../graph/floating_time_dependent/piecewise_linear_function.rs  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
index 6e7c19b..ba313e1 100644
--- a/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/piecewise_linear_function.rs
@@ -1760,7 +1760,7 @@ impl<'a> UpdatedPiecewiseLinearFunction<'a> {
 
 impl<'a> PLF for UpdatedPiecewiseLinearFunction<'a> {
     fn evaluate(&self, t: Timestamp) -> FlWeight {
-        debug_assert!(!t.fuzzy_lt(self.update[0].at));
+        debug_assert!(self.update.first().map(|p| !t.fuzzy_lt(p.at)).unwrap_or(true));
         if self.update.last().map(|p| t <= p.at).unwrap_or(false) {
             PartialPiecewiseLinearFunction::new(self.update).eval(t)
         } else {
-- 
2.43.0


From 7f23065b5515b9e32fa0d78883d91dfe22f92166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:39 +0000
Subject: [PATCH 25/29] fix: naive profile queries to unreachable targets

They failed a debug assertion on the empty corridor instead of returning None.
---
 engine/src/algo/catchup/profiles_naive.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine/src/algo/catchup/profiles_naive.rs b/engine/src/algo/catchup/profiles_naive.rs
index 3eeefee..ee39fe2 100644
--- a/engine/src/algo/catchup/profiles_naive.rs
+++ b/engine/src/algo/catchup/profiles_naive.rs
@@ -232,6 +232,11 @@ impl<'a> Server<'a> {
 
         // elimination tree query done, now we want to retrieve the corridor
 
+        // target is not reachable, so there is no corridor
+        if !tentative_distance.0.fuzzy_lt(FlWeight::INFINITY) {
+            return None;
+        }
+
         let tentative_upper_bound = tentative_distance.1;
         let tentative_latest_arrival = tentative_upper_bound;
 
-- 
2.43.0


From ceff061a00adc884abd927596d5654a4512bc288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:05 +0000
Subject: [PATCH 26/29] fix: bounds of merged approximated functions when the
 other function takes over between two ties

When exact merging found the other function to be better throughout the overlapping
range, from a tie at its start to a tie at its end, the bounds of the currently better
function were kept for this range.
---
 .../graph/floating_time_dependent/travel_time_function.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
index 642ca0c..fbd53e2 100644
--- a/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
+++ b/engine/src/datastr/graph/floating_time_dependent/travel_time_function.rs
@@ -390,7 +390,7 @@ impl<'a> PeriodicATTF<'a> {
                     if intersections.len() > 1
                         || result
                             .last()
-                            .map(|(_, self_better)| *self_better != self_dominating_iter.peek().unwrap().1)
+                            .map(|(_, self_better)| *self_better != self_dominating_iter.peek().unwrap().1 || *self_better != intersections[0].1)
                             .unwrap_or(true)
                     {
                         debug_assert!(
@@ -449,7 +449,7 @@ impl<'a> PeriodicATTF<'a> {
                     if intersections.len() > 1
                         || result
                             .last()
-                            .map(|(_, self_better)| !*self_better != other_dominating_iter.peek().unwrap().1)
+                            .map(|(_, self_better)| !*self_better != other_dominating_iter.peek().unwrap().1 || *self_better != intersections[0].1)
                             .unwrap_or(true)
                     {
                         debug_assert!(
@@ -958,7 +958,7 @@ impl<'a> PartialATTF<'a> {
                     if intersections.len() > 1
                         || result
                             .last()
-                            .map(|(_, self_better)| *self_better != self_dominating_iter.peek().unwrap().1)
+                            .map(|(_, self_better)| *self_better != self_dominating_iter.peek().unwrap().1 || *self_better != intersections[0].1)
                             .unwrap_or(true)
                     {
                         debug_assert!(
@@ -1017,7 +1017,7 @@ impl<'a> PartialATTF<'a> {
                     if intersections.len() > 1
                         || result
                             .last()
-                            .map(|(_, self_better)| !*self_better != other_dominating_iter.peek().unwrap().1)
+                            .map(|(_, self_better)| !*self_better != other_dominating_iter.peek().unwrap().1 || *self_better != intersections[0].1)
                             .unwrap_or(true)
                     {
                         debug_assert!(
-- 
2.43.0


From 497c8bc4ff82eaae4d62e2e03ea5190526dfb91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:21 +0000
Subject: [PATCH 27/29] fix: time-dependent multi metric potentials ignored the
 day of the departure

---
 engine/src/algo/td_astar.rs                      | 6 ++++++
 engine/src/algo/traffic_aware/td_traffic_pots.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/engine/src/algo/td_astar.rs b/engine/src/algo/td_astar.rs
index 8d01b5e..a475c1f 100644
--- a/engine/src/algo/td_astar.rs
+++ b/engine/src/algo/td_astar.rs
@@ -126,6 +126,7 @@ pub struct MultiMetric<'a> {
     upper_bound_dist: query::Server<CustomizedPerfect<'a, CCH>>,
     num_pot_computations: usize,
     current_metrics: Vec<(TRange<Timestamp>, usize)>,
+    departure_day_start: Timestamp,
 }
 
 impl crate::io::Deconstruct for MultiMetric<'_> {
@@ -157,6 +158,7 @@ impl<'a> crate::io::ReconstructPrepared<MultiMetric<'a>> for &'a CCH {
             potentials: TimestampedVector::new(n),
             num_pot_computations: 0,
             current_metrics: Vec::new(),
+            departure_day_start: 0,
         })
     }
 }
@@ -499,6 +501,7 @@ impl<'a> MultiMetric<'a> {
             potentials: TimestampedVector::new(n),
             num_pot_computations: 0,
             current_metrics: Vec::new(),
+            departure_day_start: 0,
             upper_bound_dist: query::Server::new(mmp.customized_upper),
         }
     }
@@ -506,6 +509,7 @@ impl<'a> MultiMetric<'a> {
 
 impl TDPotential for MultiMetric<'_> {
     fn init(&mut self, source: NodeId, target: NodeId, departure: Timestamp) {
+        self.departure_day_start = departure - departure % period();
         let departure = departure % period();
         self.num_pot_computations = 0;
         self.potentials.reset();
@@ -565,6 +569,8 @@ impl TDPotential for MultiMetric<'_> {
     }
     fn potential(&mut self, node: NodeId, t: Option<Timestamp>) -> Option<Weight> {
         let relevant_idx = if let Some(t) = t {
+            // metric ranges are relative to the day of the departure
+            let t = t - self.departure_day_start;
             debug_assert!(t < period() * 2);
             let mut last_valid = 0;
             for (idx, (r, _)) in self.current_metrics.iter().enumerate() {
diff --git a/engine/src/algo/traffic_aware/td_traffic_pots.rs b/engine/src/algo/traffic_aware/td_traffic_pots.rs
index af58663..0d003ba 100644
--- a/engine/src/algo/traffic_aware/td_traffic_pots.rs
+++ b/engine/src/algo/traffic_aware/td_traffic_pots.rs
@@ -26,6 +26,7 @@ pub struct MultiMetric<'a> {
     sp_in_smooth: CCHServer<CustomizedPerfect<'a, CCH>>,
     num_pot_computations: usize,
     current_metrics: Vec<(TRange<Timestamp>, usize)>,
+    departure_day_start: Timestamp,
     volatile_graph: &'a TDGraph,
 }
 
@@ -58,6 +59,7 @@ impl<'a> crate::io::ReconstructPrepared<MultiMetric<'a>> for (&'a CCH, &'a TDGra
             potentials: TimestampedVector::new(n),
             num_pot_computations: 0,
             current_metrics: Vec::new(),
+            departure_day_start: 0,
             volatile_graph: self.1,
         })
     }
@@ -400,6 +402,7 @@ impl<'a> MultiMetric<'a> {
             potentials: TimestampedVector::new(n),
             num_pot_computations: 0,
             current_metrics: Vec::new(),
+            departure_day_start: 0,
             sp_in_smooth: CCHServer::new(mmp.customized_smooth),
             volatile_graph,
         }
@@ -408,6 +411,7 @@ impl<'a> MultiMetric<'a> {
 
 impl TDPotential for MultiMetric<'_> {
     fn init(&mut self, source: NodeId, target: NodeId, departure: Timestamp) {
+        self.departure_day_start = departure - departure % period();
         let departure = departure % period();
         self.num_pot_computations = 0;
         self.potentials.reset();
@@ -470,6 +474,8 @@ impl TDPotential for MultiMetric<'_> {
     }
     fn potential(&mut self, node: NodeId, t: Option<Timestamp>) -> Option<Weight> {
         let relevant_idx = if let Some(t) = t {
+            // metric ranges are relative to the day of the departure
+            let t = t - self.departure_day_start;
             debug_assert!(t < period() * 2);
             let mut last_valid = 0;
             for (idx, (r, _)) in self.current_metrics.iter().enumerate() {
-- 
2.43.0


From c24d3c4a450f0236a9a2973ff6a8c048ea3eec61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:21 +0000
Subject: [PATCH 28/29] fix: alternative routes along paths of length zero
 divided by zero

---
 engine/src/algo/ch_potentials/penalty.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index b7d49ca..eb56af9 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -129,7 +129,8 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                         Some(*state)
                     }))
                     .collect();
-                let total_penalized_dist = dists.last().unwrap();
+                // may be zero if all arcs of the path have weight zero
+                let total_penalized_dist = dists.last().unwrap().max(&1);
                 for (&[tail, head], &[tail_dist, head_dist]) in path.array_windows::<2>().zip(dists.array_windows::<2>()) {
                     if self.times_penalized[head as usize] < max_num_penalizations {
                         for (NodeIdT(rev_head), Reversed(EdgeIdT(edge))) in self.reversed.link_iter(head) {
@@ -348,7 +349,8 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                         Some(*state)
                     }))
                     .collect();
-                let total_penalized_dist = dists.last().unwrap();
+                // may be zero if all arcs of the path have weight zero
+                let total_penalized_dist = dists.last().unwrap().max(&1);
                 for (&[tail, head], &[tail_dist, head_dist]) in path.array_windows::<2>().zip(dists.array_windows::<2>()) {
                     if self.times_penalized[head as usize] < max_num_penalizations {
                         for (NodeIdT(rev_head), Reversed(EdgeIdT(edge))) in self.reversed.link_iter(head) {
@@ -672,7 +674,8 @@ impl<'a> PenaltyIterative<'a> {
                         Some(*state)
                     }))
                     .collect();
-                let total_penalized_dist = dists.last().unwrap();
+                // may be zero if all arcs of the path have weight zero
+                let total_penalized_dist = dists.last().unwrap().max(&1);
                 for (&[tail, head], &[tail_dist, head_dist]) in path.array_windows::<2>().zip(dists.array_windows::<2>()) {
                     if self.times_penalized[head as usize] < max_num_penalizations {
                         for (NodeIdT(rev_head), Reversed(EdgeIdT(edge))) in self.reversed.link_iter(head) {
-- 
2.43.0


From dfc63524f55ea683c525561d1925275209830d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:44 +0000
Subject: [PATCH 29/29] fix: alternative routes of the penalty method used
 internal node ids

---
 engine/src/algo/ch_potentials/penalty.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/src/algo/ch_potentials/penalty.rs b/engine/src/algo/ch_potentials/penalty.rs
index eb56af9..a10f12f 100644
--- a/engine/src/algo/ch_potentials/penalty.rs
+++ b/engine/src/algo/ch_potentials/penalty.rs
@@ -454,6 +454,10 @@ impl<P: Potential + Send + Clone> Penalty<P> {
                 }
             }
 
+            for node in alternatives.iter_mut().flatten() {
+                *node = self.virtual_topocore.order.node(*node);
+            }
+
             Some(alternatives)
         } else {
             None
-- 
2.43.0

