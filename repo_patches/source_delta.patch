From 89815f951f4e72e04cad7edca57e552739070d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 1/6] fix: keep unrelated edges when a depth-first traversal
 meets a back edge

On meeting an already visited neighbor, the pending edge between that
neighbor and the current node must be dropped, because it will be reported
from the current node instead. The filter dropped every pending edge leaving
the neighbor, so traversals lost edges and nodes (e.g. node 3 of
[[1,2,3],[0,2],[1,0],[0]] from root 0), and components overlapped.
---
 src/traversal/depth_first.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/traversal/depth_first.rs b/src/traversal/depth_first.rs
index 5976d0f..68bd9cc 100644
--- a/src/traversal/depth_first.rs
+++ b/src/traversal/depth_first.rs
@@ -99,7 +99,7 @@ impl<'a, G> Iterator for DepthFirst<'a, G>
 
                         if self.nodes.contains(&neighbor) {
                             self.stack.retain(
-                                |edge| edge.0 != neighbor && edge.1 != node
+                                |edge| edge.0 != neighbor || edge.1 != node
                             );
                         }
 
-- 
2.43.0


From c7902d299eda8c69df351bfeafae4e7934056b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 2/6] fix: return a maximal matching from greedy

A step from a free node to a paired one marked the free node as used
without pairing it, so a later edge between two free nodes was skipped and
the matching was not maximal (e.g. [[1,2],[0,2],[1,0,3],[2]] left the edge
(2,3) with both ends free).
---
 src/matching/greedy.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/matching/greedy.rs b/src/matching/greedy.rs
index 42e147f..2b51c0e 100644
--- a/src/matching/greedy.rs
+++ b/src/matching/greedy.rs
@@ -1,5 +1,3 @@
-use std::collections::HashSet;
-
 use crate::graph::Graph;
 use crate::selection::components;
 use crate::traversal::{ DepthFirst, Step };
@@ -41,7 +39,6 @@ use super::pairing::Pairing;
 pub fn greedy<G: Graph>(graph: &G) -> Pairing {
     // let mut edges = Vec::new();
     let mut pairing = Pairing::new();
-    let mut nodes = HashSet::new();
 
     for graph in components(graph) {
         let root = graph.nodes().next().expect("root");
@@ -50,7 +47,7 @@ pub fn greedy<G: Graph>(graph: &G) -> Pairing {
         );
 
         for Step { sid, tid, cut: _ } in traversal {
-            if nodes.insert(sid) && nodes.insert(tid) {
+            if sid != tid && !pairing.has_node(sid) && !pairing.has_node(tid) {
                 // edges.push((sid, tid));
                 pairing.pair(sid, tid);
             }
-- 
2.43.0


From 3d614a9cc9eb6f5d7b7a90699ec63001456b04cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:17 +0000
Subject: [PATCH 3/6] fix: lift every node of a blossom inside an augmenting
 path

The walk through a blossom with path nodes on both sides was chosen without
regard to the blossom's base. It could come out with the wrong parity, making
maximum_matching panic with "even path augmentation" (e.g. on the edges
(5,4) (2,1) (2,0) (3,2) (3,0) (6,1) (4,1) (6,2) (4,0) (5,0) (6,3) (6,0)), and
could leave blossom nodes without their mates. As is done already when the
blossom ends the path, put the whole cycle in the path, rotated so that the
node it is paired with outside the blossom is adjacent.
---
 src/matching/blossom.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/matching/blossom.rs b/src/matching/blossom.rs
index cf2d770..b5f33e1 100644
--- a/src/matching/blossom.rs
+++ b/src/matching/blossom.rs
@@ -98,8 +98,22 @@ impl Blossom {
             self.lift_left_blossom(left, graph)
         } else if left.is_empty() && !right.is_empty() {
             self.lift_blossom_right(right, graph)
-        } else {
+        } else if path.len() % 2 == 1 {
             self.lift_left_blossom_right(left, right, graph)
+        } else if left.len() % 2 == 1 {
+            // the blossom pairs with the node to its left
+            let mut result = self.lift_left_blossom(left, graph);
+
+            result.extend(right);
+
+            result
+        } else {
+            // the blossom pairs with the node to its right
+            let mut result = left;
+
+            result.append(&mut self.lift_blossom_right(right, graph));
+
+            result
         }
     }
 
-- 
2.43.0


From 1e586b2a0bba6255e4ea013bd615e6b32703a72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 4/6] fix: do not recurse once per augmentation in
 maximum_matching

The loop already repeats until no augmenting path is left. The recursive call
after every augmentation added one stack frame per pair, so that large graphs
overflowed the stack (1000 disjoint edges need more than 64 KiB), and repeated
the final, unsuccessful search once per pair.
---
 src/matching/maximum_matching.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index 1ba8234..f3082b9 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -39,7 +39,6 @@ pub fn maximum_matching<'a, G: Graph>(
 ) {
     while let Some(path) = augmenting_path(graph, pairing) {
         pairing.augment(path);
-        maximum_matching(graph, pairing);
     }
 }
 
-- 
2.43.0


From 7411d9db39c6ffe5b32611905a0143ff64d012a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 5/6] fix: pick an unused id for a contracted blossom

The id was one more than the greatest node id, which overflows when a node
has the id usize::MAX (or, for nested blossoms, one close to it): a panic in
debug builds, and in release builds the id 0, which may be taken.
---
 src/matching/maximum_matching.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matching/maximum_matching.rs b/src/matching/maximum_matching.rs
index f3082b9..f99f0c7 100644
--- a/src/matching/maximum_matching.rs
+++ b/src/matching/maximum_matching.rs
@@ -123,8 +123,8 @@ fn even_path<G: Graph>(
 fn process_blossom<G:Graph>(
     left: Vec<usize>, right: Vec<usize>, graph: &G, pairing: &Pairing
 ) -> Option<Vec<usize>> {
-    let max_id = graph.nodes().max().expect("no max id");
-    let blossom =  Blossom::new(max_id + 1, left, right);
+    let id = (0..).find(|&id| !graph.has_node(id)).expect("no free id");
+    let blossom =  Blossom::new(id, left, right);
     let contracted_graph = blossom.contract_graph(graph).expect("bad graph");
     let mut contracted_pairing = blossom.contract_pairing(&pairing);
 
-- 
2.43.0


From 57b0888594b17119c15831fdfcceff21793309f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 6/6] fix: represent an edge from a node to itself consistently

DefaultGraph accepts such edges, but add_edge listed the node twice among its
own neighbors, which made components panic with "traversal error" (duplicate
edge), and try_from(adjacency) left the edge out of edges() and size() while
has_edge, neighbors and degree reported it. List it once everywhere.
---
 src/graph/default_graph.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/graph/default_graph.rs b/src/graph/default_graph.rs
index 80be412..9477262 100644
--- a/src/graph/default_graph.rs
+++ b/src/graph/default_graph.rs
@@ -74,7 +74,11 @@ impl DefaultGraph {
         }
         
         self.adjacency[source_index].push(tid);
-        self.adjacency[target_index].push(sid);
+
+        if target_index != source_index {
+            self.adjacency[target_index].push(sid);
+        }
+
         self.edges.push((sid, tid));
 
         Ok(())
@@ -155,7 +159,7 @@ impl TryFrom<Vec<Vec<usize>>> for DefaultGraph {
                     return Err(Error::MissingEdge(tid, sid));
                 }
 
-                if sid < tid {
+                if sid <= tid {
                     result.edges.push((sid, tid));
                 }
             }
-- 
2.43.0

