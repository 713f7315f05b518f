From 0f9470ea05e46b6992f4ab4fb089d447493c5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:11 +0000
Subject: [PATCH 01/19] fix: setEdgeWeight invalidates the cached degrees

---
 lib/data_structure/graph_access.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/data_structure/graph_access.h b/lib/data_structure/graph_access.h
index 26f0875..31c428d 100644
--- a/lib/data_structure/graph_access.h
+++ b/lib/data_structure/graph_access.h
@@ -565,6 +565,8 @@ class graph_access {
     }
 
     void setEdgeWeight(EdgeID edge, EdgeWeight weight) {
+        // cached degrees do not include the new weight
+        m_degrees_computed = false;
 #ifdef NDEBUG
         graphref->m_edges[edge].weight = weight;
 #else
-- 
2.43.0


From 3b978d7a82b9effcc4cdf93f5dbd2bf0f0976536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 02/19] fix: new_node gives the added vertex a contained vertex
 of its own

---
 lib/data_structure/mutable_graph.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index a4447fb..fe38c14 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -73,7 +73,8 @@ class mutable_graph {
           partition_count(copy.partition_count),
           original_nodes(copy.original_nodes) { }
 
-    mutable_graph() : last_node(0), num_edges(0), partition_count(0) { }
+    mutable_graph()
+        : last_node(0), num_edges(0), partition_count(0), original_nodes(0) { }
 
     void start_construction(NodeID n, EdgeID = 0) {
         vertices.resize(n);
@@ -96,9 +97,10 @@ class mutable_graph {
 
     NodeID new_node() {
         if (last_node == vertices.size()) {
-            contained_in_this.emplace_back(last_node);
-            current_position.emplace_back();
-            current_position[last_node] = vertices.size();
+            // the new vertex stands for itself, under a fresh original id
+            contained_in_this.emplace_back(1, current_position.size());
+            current_position.emplace_back(vertices.size());
+            original_nodes = current_position.size();
             vertices.emplace_back();
             partition_index.emplace_back();
             node_in_cut.emplace_back();
-- 
2.43.0


From bf8763858f0dfebdf1a10f5248d69fcdef13c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:21 +0000
Subject: [PATCH 03/19] fix: deleteVertex drops the deleted vertex from the
 vertex mapping

---
 lib/data_structure/mutable_graph.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index fe38c14..cca0fed 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -371,17 +371,18 @@ class mutable_graph {
         last_node--;
         NodeID back = number_of_nodes() - 1;
 
+        for (NodeID n : contained_in_this[node]) {
+            current_position[n] = UNDEFINED_NODE;
+        }
+
         if (node < back) {
             for (NodeID n : contained_in_this[back]) {
                 current_position[n] = node;
             }
 
-            for (NodeID n : contained_in_this[node]) {
-                current_position[n] = back;
-            }
-
-            contained_in_this[node] = contained_in_this[back];
+            contained_in_this[node] = std::move(contained_in_this[back]);
         }
+        contained_in_this.pop_back();
 
         for (EdgeID e : edges_of(node)) {
             NodeID tgt = getEdgeTarget(node, e);
-- 
2.43.0


From 077f369f2ba43d9d76320e5712af4921114ccdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 04/19] fix: contractions into the last vertex do not read past
 the vertices

---
 lib/data_structure/mutable_graph.h | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index cca0fed..91dd761 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -508,9 +508,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (unless 'target' itself was the last vertex)
+        if (target < number_of_nodes()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -558,9 +561,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (unless 'target' itself was the last vertex)
+        if (target < number_of_nodes()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         return target;
@@ -647,9 +653,12 @@ class mutable_graph {
         contained_in_this.pop_back();
 
         // remap all reverse edges of vertex that was now moved to 'target'
-        for (EdgeID ed : edges_of(target)) {
-            RevEdge e = vertices[target][ed];
-            vertices[e.target][e.reverse_edge].target = target;
+        // (unless 'target' itself was the last vertex)
+        if (target < number_of_nodes()) {
+            for (EdgeID ed : edges_of(target)) {
+                RevEdge e = vertices[target][ed];
+                vertices[e.target][e.reverse_edge].target = target;
+            }
         }
 
         // delete edge of 'node' to 'target', remap reverse
-- 
2.43.0


From ea76a0959a549805a166ccc14b1ffcce0e7ad2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:35 +0000
Subject: [PATCH 05/19] fix: from_graph_access adds the weight of a parallel
 edge once

---
 lib/data_structure/mutable_graph.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 91dd761..c8402b7 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -816,7 +816,10 @@ class mutable_graph {
             for (EdgeID e : G->edges_of(n)) {
                 NodeID t = G->getEdgeTarget(e);
                 if (last_incident[t] == n) {
-                    // double edge
+                    // double edge, counted from the smaller endpoint only
+                    if (n > t) {
+                        continue;
+                    }
                     // LOG1 << "double edge";
 
                     for (EdgeID e2 : m_G->edges_of(n)) {
-- 
2.43.0


From b1adbc0334acaa76d8fc7a26bb7cf4ad9637c2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 06/19] fix: serialized vertex markers cannot be confused with
 edge targets

---
 lib/data_structure/mutable_graph.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index c8402b7..4350b4b 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -864,13 +864,15 @@ class mutable_graph {
         G->setOriginalNodes(original_nodes);
         size_t n = 0;
         size_t deserial = 4;
-        while (n < num_nodes) {
+        // values below 'offset' are edge targets, others mark a new vertex
+        const uint64_t offset = std::max<uint64_t>(num_edges, num_nodes);
+        while (true) {
             uint64_t next = v[deserial++];
-            if (next >= num_edges) {
+            if (next >= offset) {
                 if (next == UNDEFINED_EDGE) {
                     break;
                 }
-                n = next - num_edges;
+                n = next - offset;
                 continue;
             }
             uint64_t wgt = v[deserial++];
@@ -900,9 +902,10 @@ class mutable_graph {
         serial[2] = static_cast<uint64_t>(partition_count);
         serial[3] = static_cast<uint64_t>(original_nodes);
         size_t next = 4;
+        const uint64_t offset = std::max<uint64_t>(num_edges, vertices.size());
 
         for (NodeID n : nodes()) {
-            serial[next++] = static_cast<uint64_t>(num_edges + n);
+            serial[next++] = offset + n;
             for (const auto& [t, w, r, f, l] : vertices[n]) {
                 // I am deeply sorry for this ugly code, but structured bindings
                 // seem to not work in combination with maybe_unused to suppress
-- 
2.43.0


From b6706198521937912b66bdd7afba7806d3342460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 07/19] fix: serialize and deserialize agree on the original
 vertices

---
 lib/data_structure/mutable_graph.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 4350b4b..233f08c 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -887,7 +887,9 @@ class mutable_graph {
         for (size_t i = 0; i < original_nodes; ++i) {
             NodeID pos = static_cast<NodeID>(v[deserial++]);
             G->setCurrentPosition(i, pos);
-            G->addContainedVertex(pos, i);
+            if (pos < num_nodes) {
+                G->addContainedVertex(pos, i);
+            }
         }
 
         G->finish_construction();
@@ -926,8 +928,8 @@ class mutable_graph {
             serial[next++] = static_cast<uint64_t>(p);
         }
 
-        for (const auto& c : current_position) {
-            serial[next++] = static_cast<uint64_t>(c);
+        for (NodeID i = 0; i < original_nodes; ++i) {
+            serial[next++] = static_cast<uint64_t>(current_position[i]);
         }
 
         return serial;
-- 
2.43.0


From a2511bdc8decb98412cf1a8d1555984a21ce7138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 08/19] fix: resetContainedvertices drops positions of former
 vertices

---
 lib/data_structure/mutable_graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/data_structure/mutable_graph.h b/lib/data_structure/mutable_graph.h
index 233f08c..e0463de 100644
--- a/lib/data_structure/mutable_graph.h
+++ b/lib/data_structure/mutable_graph.h
@@ -951,6 +951,7 @@ class mutable_graph {
 
     void resetContainedvertices() {
         original_nodes = vertices.size();
+        current_position.resize(original_nodes);
         for (NodeID n : nodes()) {
             current_position[n] = n;
             contained_in_this[n] = { n };
-- 
2.43.0


From f71678c747bab5fbc1010e0ca7789ea23c7e90cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 09/19] fix: reverse indices of a self-loop in the flow network

---
 lib/data_structure/flow_graph.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/data_structure/flow_graph.h b/lib/data_structure/flow_graph.h
index 6a345fa..f015201 100644
--- a/lib/data_structure/flow_graph.h
+++ b/lib/data_structure/flow_graph.h
@@ -69,9 +69,11 @@ class flow_graph {
     EdgeID getReverseEdge(NodeID source, EdgeID e);
 
     void new_edge(NodeID source, NodeID target, FlowType capacity) {
+        // both edges of a self-loop are stored at the same vertex
+        const EdgeID offset = (source == target) ? 1 : 0;
         m_adjacency_lists[source].push_back(
             rEdge(source, target, capacity, 0,
-                  m_adjacency_lists[target].size()));
+                  m_adjacency_lists[target].size() + offset));
         // for each edge we add a reverse edge
         m_adjacency_lists[target].push_back(
             rEdge(target, source, 0, 0, m_adjacency_lists[source].size() - 1));
-- 
2.43.0


From 729d062b0f28ba71f96cb316b2fb1ec1cf0d75cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:25 +0000
Subject: [PATCH 10/19] fix: Padberg-Rinaldi and Matula contract a copy of the
 input

On adjacency-list graphs the in-place contraction destroyed the caller's
graph and the saved cut did not match the returned value.
---
 lib/algorithms/global_mincut/matula_approx.h   | 3 ++-
 lib/algorithms/global_mincut/padberg_rinaldi.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/algorithms/global_mincut/matula_approx.h b/lib/algorithms/global_mincut/matula_approx.h
index 3f36082..f162bfe 100644
--- a/lib/algorithms/global_mincut/matula_approx.h
+++ b/lib/algorithms/global_mincut/matula_approx.h
@@ -57,7 +57,8 @@ class matula_approx : public minimum_cut {
             auto uf = noi.modified_capforest(
                 graphs.back(),
                 std::max(mincut / 2, static_cast<EdgeWeight>(1)));
-            graphs.emplace_back(contraction::fromUnionFind(graphs.back(), &uf));
+            graphs.emplace_back(
+                contraction::fromUnionFind(graphs.back(), &uf, true));
             mincut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, mincut);
         }
 
diff --git a/lib/algorithms/global_mincut/padberg_rinaldi.h b/lib/algorithms/global_mincut/padberg_rinaldi.h
index 09a4b04..856eea0 100644
--- a/lib/algorithms/global_mincut/padberg_rinaldi.h
+++ b/lib/algorithms/global_mincut/padberg_rinaldi.h
@@ -54,12 +54,12 @@ class padberg_rinaldi : public minimum_cut {
                && graphs.back()->number_of_nodes() < last_nodes) {
             last_nodes = graphs.back()->number_of_nodes();
             union_find uf_34 = tests::prTests34(graphs.back(), cut);
-            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34);
+            auto G_34 = contraction::fromUnionFind(graphs.back(), &uf_34, true);
             graphs.push_back(G_34);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
 
             union_find uf_12 = tests::prTests12(graphs.back(), cut);
-            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12);
+            auto G_12 = contraction::fromUnionFind(graphs.back(), &uf_12, true);
             graphs.push_back(G_12);
             cut = minimum_cut_helpers<GraphPtr>::updateCut(graphs, cut);
         }
-- 
2.43.0


From ae1f7a596ff68a53f09ff4dfcd341357a3f61d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:31 +0000
Subject: [PATCH 11/19] fix: VieCut saves the cut whose value it returns

A vertex split off by the trivial-cut search kept the partition index of its
old block, and a cut improved by the final exact run was not saved.
---
 lib/algorithms/global_mincut/viecut.h | 14 +++++++++++++-
 lib/coarsening/contract_graph.h       |  3 +++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lib/algorithms/global_mincut/viecut.h b/lib/algorithms/global_mincut/viecut.h
index 0a7e601..6754a46 100644
--- a/lib/algorithms/global_mincut/viecut.h
+++ b/lib/algorithms/global_mincut/viecut.h
@@ -106,7 +106,19 @@ class viecut : public minimum_cut {
         if (graphs.back()->number_of_nodes() > 1) {
             timer t;
             noi_minimum_cut<GraphPtr> noi;
-            cut = std::min(cut, noi.perform_minimum_cut(graphs.back(), true));
+            EdgeWeight exact = noi.perform_minimum_cut(graphs.back(), true);
+
+            if (exact < cut && configuration::getConfig()->save_cut) {
+                for (NodeID idx : graphs[0]->nodes()) {
+                    NodeID coarseID = idx;
+                    for (size_t lv = 0; lv < graphs.size() - 1; ++lv) {
+                        coarseID = graphs[lv]->getPartitionIndex(coarseID);
+                    }
+                    graphs[0]->setNodeInCut(
+                        idx, graphs.back()->getNodeInCut(coarseID));
+                }
+            }
+            cut = std::min(cut, exact);
 
             LOGC(timing) << "Exact Algorithm:"
                          << t.elapsedToZero() << " deg: "
diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index 4abb7ba..3f7ca3f 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -122,6 +122,9 @@ class contraction {
                     reverse_mapping.push_back({ bestNode });
                     LOG << reverse_mapping.size() << " size";
                     mapping[bestNode] = reverse_mapping.size() - 1;
+                    if (configuration::getConfig()->save_cut) {
+                        G->setPartitionIndex(bestNode, mapping[bestNode]);
+                    }
                     p--;
                 }
             }
-- 
2.43.0


From 472aeac4b961bd3e4ffb6df8f3f6bdd253e6a316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 12/19] fix: findHeavyTriangles compares the two lightest
 triangle edges

sort3 sorted copies of the weights, so any two edges of a triangle could
exceed the limit and vertices with a lighter cut between them were merged.
---
 lib/coarsening/contraction_tests.h          | 2 +-
 lib/parallel/coarsening/contraction_tests.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/coarsening/contraction_tests.h b/lib/coarsening/contraction_tests.h
index b944909..54edefe 100644
--- a/lib/coarsening/contraction_tests.h
+++ b/lib/coarsening/contraction_tests.h
@@ -25,7 +25,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight&
                       w3) {
         if (w1 < w2) {
             if (w2 < w3) {
diff --git a/lib/parallel/coarsening/contraction_tests.h b/lib/parallel/coarsening/contraction_tests.h
index 9266e8f..14382ec 100644
--- a/lib/parallel/coarsening/contraction_tests.h
+++ b/lib/parallel/coarsening/contraction_tests.h
@@ -29,7 +29,7 @@
 
 class tests {
  private:
-    static void sort3(EdgeWeight w1, EdgeWeight w2, EdgeWeight w3) {
+    static void sort3(EdgeWeight& w1, EdgeWeight& w2, EdgeWeight& w3) {
         if (w1 < w2) {
             if (w2 < w3) {
                 return;
-- 
2.43.0


From a26199192805cddbc53dc28379c32fe35e87dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:59 +0000
Subject: [PATCH 13/19] fix: contractEdge maps terminals without relying on
 saved partition indices

Partition indices are only written when save_cut is set, so the returned
terminals were wrong otherwise.
---
 lib/coarsening/contract_graph.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/coarsening/contract_graph.h b/lib/coarsening/contract_graph.h
index 3f7ca3f..d420be0 100644
--- a/lib/coarsening/contract_graph.h
+++ b/lib/coarsening/contract_graph.h
@@ -11,6 +11,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cstdint>
 #include <cstdlib>
 #include <memory>
@@ -66,7 +67,10 @@ class contraction {
         auto G_out = contraction::fromUnionFind(G, &uf);
         std::vector<NodeID> terminals_out;
         for (NodeID t : terminals) {
-            terminals_out.emplace_back(G->getPartitionIndex(t));
+            // groups are numbered by their first vertex
+            NodeID last = std::max(src, tgt);
+            terminals_out.emplace_back(
+                t == last ? std::min(src, tgt) : (t > last ? t - 1 : t));
         }
 
         return std::make_pair(G_out, terminals_out);
-- 
2.43.0


From 1005393d3154d7e0b231eab5641aba144e49db10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 14/19] fix: strong_components resets the block sizes of an
 earlier call

---
 lib/algorithms/misc/strongly_connected_components.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/algorithms/misc/strongly_connected_components.h b/lib/algorithms/misc/strongly_connected_components.h
index 39d7096..eb94199 100644
--- a/lib/algorithms/misc/strongly_connected_components.h
+++ b/lib/algorithms/misc/strongly_connected_components.h
@@ -36,6 +36,7 @@ class strongly_connected_components {
         m_comp_num.resize(G->number_of_nodes());
         m_dfscount = 0;
         m_comp_count = 0;
+        m_blocksizes.clear();
         m_fpid = fpid;
 
         for (NodeID node : G->nodes()) {
-- 
2.43.0


From dfedac8eac62b04a9add22cc198989e79772ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 15/19] fix: createCoreGraph accepts weighted graphs

The sanity check compared the weighted minimum degree with the core number
and ended the process for graphs with edge weights.
---
 lib/algorithms/misc/core_decomposition.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/algorithms/misc/core_decomposition.h b/lib/algorithms/misc/core_decomposition.h
index 2bb0e7f..1782524 100644
--- a/lib/algorithms/misc/core_decomposition.h
+++ b/lib/algorithms/misc/core_decomposition.h
@@ -13,6 +13,7 @@
 
 #include <stdlib.h>
 
+#include <algorithm>
 #include <cstdint>
 #include <memory>
 #include <vector>
@@ -134,8 +135,17 @@ class core_decomposition {
 
         core_graph->finish_construction();
 
-        if (core_graph->getMinDegree() != min_degree) {
-            LOG1 << "ERROR: Wrong min degree " << core_graph->getMinDegree()
+        // core numbers count edges, not their weights
+        EdgeWeight core_min_degree = core_graph->number_of_edges();
+        for (NodeID n : core_graph->nodes()) {
+            core_min_degree = std::min(
+                core_min_degree,
+                static_cast<EdgeWeight>(
+                    core_graph->getUnweightedNodeDegree(n)));
+        }
+
+        if (core_min_degree != min_degree) {
+            LOG1 << "ERROR: Wrong min degree " << core_min_degree
                  << " instead of " << min_degree;
             exit(1);
         }
-- 
2.43.0


From 2a60106c8caa620de8381c1eb42dfbfdcb1b767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 16/19] fix: reading a weighted self-loop skips its weight too

---
 lib/io/graph_io.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index a156fee..2139cd1 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -191,6 +191,10 @@ class graph_io {
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
+                EdgeWeight edge_weight = 1;
+                if (read_ew) {
+                    edge_weight = fast_atoi(line, &line_ptr);
+                }
                 // check for self-loops
                 if (target - 1 == node) {
                     LOG0 << "The graph file contains self-loops. "
@@ -199,10 +203,6 @@ class graph_io {
                     continue;
                 }
 
-                EdgeWeight edge_weight = 1;
-                if (read_ew) {
-                    edge_weight = fast_atoi(line, &line_ptr);
-                }
                 edge_counter++;
                 G->new_edge(node, target - 1, edge_weight);
             }
-- 
2.43.0


From 17ecc0bc134f4ebc5b6f2470c9ffa2677f3520fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 17/19] fix: METIS vertex weights are not read as edge targets

---
 lib/io/graph_io.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index 2139cd1..ddca340 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -160,6 +160,7 @@ class graph_io {
         ss >> ew;
 
         bool read_ew = false;
+        bool skip_vw = (ew == 10 || ew == 11);  // lines start with node weight
 
         if (ew == 1) {
             read_ew = true;
@@ -188,6 +189,10 @@ class graph_io {
             while (line[line_ptr] == ' ')
                 ++line_ptr;
 
+            if (skip_vw) {
+                fast_atoi(line, &line_ptr);
+            }
+
             while (line_ptr < line.size()) {
                 NodeID target = fast_atoi(line, &line_ptr);
                 if (!target) break;
-- 
2.43.0


From 9b26dbd7671aa60a72d153a390fb151dba24e367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:53 +0000
Subject: [PATCH 18/19] fix: numbers in METIS lines may be separated by several
 blanks

---
 lib/io/graph_io.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/io/graph_io.h b/lib/io/graph_io.h
index ddca340..1e164bd 100644
--- a/lib/io/graph_io.h
+++ b/lib/io/graph_io.h
@@ -378,6 +378,10 @@ class graph_io {
     static uint64_t fast_atoi(const std::string& str, size_t* line_ptr) {
         uint64_t x = 0;
 
+        // numbers may be separated by more than one blank
+        while (str[*line_ptr] == ' ' || str[*line_ptr] == '\t')
+            ++(*line_ptr);
+
         while (str[*line_ptr] >= '0' && str[*line_ptr] <= '9') {
             x = (x * 10) + (str[*line_ptr] - '0');
             ++(*line_ptr);
-- 
2.43.0


From c884aff8b0d718dde383c96dc2f6fe137d027a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 19/19] fix: concurrent union-find links by index with a single
 compare-and-swap

Parent and rank were changed by two separate compare-and-swaps. A root whose
rank was raised in between could be linked below an element that was being
linked below it, closing a cycle of parents, and a rolled back link could make
two unions report the same merge.
---
 lib/parallel/data_structure/union_find.h | 41 ++++--------------------
 1 file changed, 7 insertions(+), 34 deletions(-)

diff --git a/lib/parallel/data_structure/union_find.h b/lib/parallel/data_structure/union_find.h
index 71080ae..1796087 100644
--- a/lib/parallel/data_structure/union_find.h
+++ b/lib/parallel/data_structure/union_find.h
@@ -22,18 +22,15 @@
 // This is sometimes also caled "disjoint sets datastructure.
 class union_find {
  public:
-    explicit union_find(unsigned n) : m_parent(n), m_rank(n) {
+    explicit union_find(unsigned n) : m_parent(n) {
         for (unsigned i = 0; i < m_parent.size(); i++) {
             m_parent[i] = i;
-            m_rank[i] = 0;
         }
     }
 
     union_find(const union_find& uf) = default;
 
     inline bool Union(unsigned lhs, unsigned rhs) {
-        unsigned r_lhs, r_rhs;
-
         while (true) {
             lhs = Find(lhs);
             rhs = Find(rhs);
@@ -42,23 +39,16 @@ class union_find {
                 return false;
             }
 
-            r_lhs = m_rank[lhs];
-            r_rhs = m_rank[rhs];
-
-            if (r_lhs > r_rhs || (r_lhs == r_rhs && lhs > rhs)) {
+            // roots are only ever linked to larger elements, thus concurrent
+            // unions can not close a cycle of parents
+            if (lhs > rhs) {
                 std::swap(lhs, rhs);
-                std::swap(r_lhs, r_rhs);
             }
 
-            if (UpdateRoot(lhs, r_lhs, rhs, r_rhs))
-                break;
-        }
-
-        if (r_lhs == r_rhs) {
-            UpdateRoot(rhs, r_rhs, rhs, r_rhs + 1);
+            if (__sync_bool_compare_and_swap(&m_parent[lhs], lhs, rhs)) {
+                return true;
+            }
         }
-
-        return true;
     }
 
     inline bool SameSet(unsigned x, unsigned y) {
@@ -97,22 +87,5 @@ class union_find {
     }
 
  private:
-    inline bool UpdateRoot(unsigned x, unsigned xr, unsigned y, unsigned yr) {
-        unsigned old = x;
-        if (m_parent[old] != x || m_rank[old] != xr) {
-            return false;
-        }
-
-        if (__sync_bool_compare_and_swap(&m_parent[x], old, y)) {
-            if (__sync_bool_compare_and_swap(&m_rank[x], m_rank[old], yr)) {
-                return true;
-            }
-
-            __sync_bool_compare_and_swap(&m_parent[x], y, old);
-        }
-        return false;
-    }
-
     std::vector<unsigned> m_parent;
-    std::vector<unsigned> m_rank;
 };
-- 
2.43.0

