#!/usr/bin/env python3
"""writes properties.jsonl"""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [])))
D = "lib/data_structure/"; M = "lib/algorithms/global_mincut/"
p("C01", "Union-find represents exactly the partition generated by the unions",
  "After any sequence of union operations on a disjoint-set structure created with n elements, two elements report the same representative if and only if they are connected by the performed unions, and the representative is itself a member of that class. A union reports whether it merged two different classes, and the reported number of classes is always the exact number of classes. Looking up a representative never changes the partition.",
  ["inputs", "histories"], "every n and every finite sequence of find and union operations with elements below n",
  "Unit tests perform a handful of unions on fixed sizes; path compression and rank decisions depend on the whole history.",
  [D + "union_find.h"], [("union by rank, path compression", "union_find::Union, union_find::Find")], ["Find, Union, n()"])
p("C02", "Priority queues always hand out an element of maximum key",
  "Each maximum priority queue (bucket queues and binary heaps) represents exactly the set of elements inserted and not yet removed, each with its most recently set key, whatever sequence of inserts, key changes, deletions and extractions happened. Reading or extracting the maximum returns an element of that set whose key is the largest, and size, emptiness, membership and key queries agree with that set.",
  ["inputs", "histories"], "every finite sequence of operations that respects the queues' documented usage (elements in range, insert only absent elements, query only non-empty queues, keys within the configured bucket range)",
  "The tests run fixed short sequences; corrupted positions or a stale maximum need a particular interleaving of inserts, key changes and deletions.",
  [D + "priority_queues/" + f for f in ("bucket_pq.h", "node_bucket_pq.h", "fifo_node_bucket_pq.h", "maxNodeHeap.h", "vecMaxNodeHeap.h")],
  [("bucket index + per-element position", "bucket_pq, node_bucket_pq, fifo_node_bucket_pq"), ("sift up/down with position index", "maxNodeHeap, vecMaxNodeHeap")])
p("C03", "Static graph stores exactly the graph it was built from",
  "A static graph built through its construction interface reports exactly the vertices and directed edges added, in order, each edge with its own source, target and weight (self loops are dropped). Vertex degrees, weighted degrees and the minimum weighted degree equal the counts and weight sums over the stored edges, whichever vertices have no edges.",
  ["inputs"], "every sequence of node and edge insertions grouped by ascending source, including isolated vertices first, last or in between",
  "The tests build a few fixed graphs; gaps caused by isolated vertices and cached degree values depend on the input.",
  [D + "graph_access.h"], [("CSR offsets filled while building", "basicGraph::new_node/new_edge/finish_construction"), ("degree cache", "graph_access::computeDegrees")])
p("C04", "Mutable graph adjacency stays symmetric and consistent under every update",
  "After every public operation of the adjacency-list graph, each undirected edge is stored once at both endpoints with equal weight and correct cross references to its reverse, and vertex, edge and degree counts match the stored edges. An operation changes exactly the edges and vertices it names: inserting, reweighting and deleting an edge or vertex leave all other edges and weights as they were. The mapping from original vertices to current vertices stays a partition that agrees with its inverse.",
  ["inputs", "histories"], "every finite sequence of insertions, deletions, reweightings and contractions on valid vertices and edges",
  "Tests exercise short scripted sequences; swap-with-last deletions and reverse-edge indices break only for particular positions and histories.",
  [D + "mutable_graph.h"], [("reverse-edge index repair on deletion", "mutable_graph::deleteEdge"), ("swap-with-last vertex removal", "mutable_graph::deleteVertex"), ("current_position / contained_in_this", "mutable_graph::setCurrentPosition")])
p("C05", "Contraction preserves every cut that separates no merged vertices",
  "Contracting a graph along any grouping of its vertices yields a graph whose vertices are exactly the groups and in which the edge weight between two groups is the total weight of the original edges between them, with no self-loops. Every original vertex is mapped to its group's vertex, so each cut of the contracted graph has the same weight as the corresponding cut of the original.",
  ["inputs", "histories"], "every graph with positive weights, every grouping, and every sequence of successive contractions, for each sequential contraction routine",
  "Tests contract a few fixed small graphs; lost or doubled parallel edges and wrong mappings depend on which vertices merge and in which order.",
  ["lib/coarsening/contract_graph.h", D + "mutable_graph.h", D + "graph_access.h"],
  [("edge aggregation by block pair", "contraction::contractGraph*, contractGraphSparse*"), ("in-place merging", "mutable_graph::contractEdge*, contractVertexSet")])
p("C06", "The exact sequential algorithm returns the minimum cut value",
  "The Nagamochi-Ono-Ibaraki algorithm returns exactly the weight of a global minimum cut of the input graph, zero if the graph is disconnected, for every choice of its priority queue. A scan only ever merges two vertices when no cut lighter than the current best separates them.",
  ["inputs", "configurations"], "every undirected graph with positive integer weights (total weight within 32 bits), every queue configuration and random seed",
  "Tests compare a few dozen small known graphs; an unsafe merge only shows when it destroys every minimum cut.",
  [M + "noi_minimum_cut.h"], [("attachment-value scan", "noi_minimum_cut::modified_capforest"), ("contract and update loop", "noi_minimum_cut::perform_minimum_cut_internal"), ("trivial cut update", "minimum_cut_helpers::updateCut")])
p("C07", "The reported cut side has exactly the returned cut value",
  "When asked to save the cut, the exact, Padberg-Rinaldi and Matula cut algorithms mark a vertex set that is neither empty nor all vertices, and the total weight of the edges between it and the rest equals the returned cut value.",
  ["inputs", "configurations"], "every connected undirected graph with at least two vertices and positive weights",
  "Tests check a few instances; the mapping from contracted to original vertices depends on the whole contraction history.",
  [M + "minimum_cut_helpers.h", M + "noi_minimum_cut.h", M + "matula_approx.h", M + "padberg_rinaldi.h"],
  [("partition index of the best trivial cut", "minimum_cut_helpers::updateCut/findTrivialCuts/setVertexLocations/retrieveMinimumCut")])
p("C08", "Padberg-Rinaldi tests only merge vertices no lighter cut separates",
  "The local contraction tests, given a graph and an upper bound on its minimum cut not above its minimum weighted degree, only mark pairs of vertices whose merging preserves at least one cut of weight below the bound of every value it had, that is the minimum of the bound and the minimum cut value is unchanged by contracting all marked pairs.",
  ["inputs"], "every simple undirected graph with positive weights and every bound at least the minimum cut and at most the minimum weighted degree",
  "Tests run the whole heuristic on fixed graphs; a test that merges wrongly is masked whenever some minimum cut survives.",
  ["lib/coarsening/contraction_tests.h"], [("tests 1 and 2", "tests::prTests12"), ("tests 3 and 4", "tests::prTests34")])
p("C09", "Maximum flow equals minimum cut and the source side realises it",
  "The push-relabel solver returns the exact maximum flow value between the given source and sink sets, and when asked for it a vertex set that contains all sources and no sink and whose outgoing capacity equals that value.",
  ["inputs", "configurations"], "every undirected capacitated graph, every choice of disjoint terminals and source set",
  "Tests use a few fixed graphs; global relabelling and gap decisions depend on the order of pushes.",
  ["lib/algorithms/flow/push_relabel.h"], [("discharge/push/relabel", "push_relabel"), ("residual BFS", "push_relabel::global_relabeling")])
p("C10", "Flow network residual bookkeeping keeps reverse edges paired",
  "Every edge added to the flow network is paired with exactly one reverse edge, following the pairing twice returns to the edge, and the total capacity and flow readable from the network are those set.",
  ["inputs", "histories"], "every sequence of edge insertions and flow updates on valid nodes",
  "Tests add few edges; pairing breaks only for particular insertion orders.",
  [D + "flow_graph.h"], [("rev_edge_index set on insertion", "flow_graph::new_edge")])
p("C11", "Reading a METIS file yields exactly the graph it describes, and writing round-trips",
  "Reading a well-formed METIS file, weighted or unweighted edges, with or without comment lines, yields a graph with exactly the vertices, edges and weights the file lists, for both graph representations. Writing a graph and reading it back gives the same graph.",
  ["inputs"], "every well-formed METIS file of a simple graph with positive integer weights, including isolated vertices, comments and arbitrary line lengths",
  "Tests read a few committed files; blank lines, comments and trailing spaces are input dependent.",
  ["lib/io/graph_io.h"], [("line parser", "graph_io::readGraphWeighted"), ("writer", "graph_io::writeGraph*")])
p("C12", "Core decomposition computes the exact core number of every vertex",
  "The core decomposition assigns each vertex the largest k for which it belongs to a subgraph of minimum degree k, and a k-core extraction returns a largest connected component of the subgraph induced by the vertices of core number at least k, with its edges and weights.",
  ["inputs"], "every undirected graph",
  "Tests use a few graphs; bucket positions break for particular degree sequences only.",
  ["lib/algorithms/misc/core_decomposition.h"], [("bucket peeling", "core_decomposition::batagelj_zaversnik"), ("core extraction", "core_decomposition::createCoreGraph")])
p("C13", "Component algorithms return exactly the connected components",
  "The connected-component routine partitions the vertices so that two vertices share a component number exactly if a path joins them, reports the right number of components, and the largest-component routine returns the induced subgraph of a component of maximum size.",
  ["inputs"], "every undirected graph, including empty, disconnected and isolated-vertex graphs",
  "Tests have no disconnected-input sweep; the traversal order depends on the input.",
  ["lib/algorithms/misc/strongly_connected_components.h", "lib/tools/graph_extractor.h"], [("explicit-stack search", "strongly_connected_components"), ("induced subgraph", "graph_extractor::extract_block")])
p("C14", "The cactus represents all minimum cuts",
  "The all-minimum-cuts algorithm returns a cactus graph whose minimum cuts are in correspondence with the minimum cuts of the input: every minimum cut of the input is induced by removing a tree edge or two edges of a cycle, and every such removal induces a minimum cut.",
  ["inputs"], "every connected undirected weighted graph", "Tests compare cut counts on a few graphs.",
  [M + "cactus/cactus_mincut.h", M + "cactus/recursive_cactus.h"], [("recursive Karzanov-Timofeev construction", "recursive_cactus")])
p("C15", "Dynamic minimum cut stays exact across updates",
  "After every edge insertion or deletion, the dynamic algorithm reports the exact minimum cut value of the current graph.",
  ["histories"], "every sequence of insertions and deletions", "Tests replay short fixed sequences.",
  [M + "dynamic/dynamic_mincut.h"], [("cactus maintenance", "dynamic_mincut")])
p("C16", "Multiterminal cut is optimal and separates all terminals",
  "The multiterminal branch-and-reduce solver returns the weight of a minimum edge set separating every pair of terminals, and the returned assignment realises it.",
  ["inputs", "configurations", "schedules"], "every graph and terminal set", "Tests use a few small graphs.",
  ["lib/algorithms/multicut/multiterminal_cut.h"], [("branching and reductions", "branch_multicut")])
p("C17", "Concurrent union-find links stay acyclic and only join requested classes",
  "Under any interleaving of concurrent finds and unions, the shared parent links never form a cycle, every element's representative is in its own class, and two elements end in the same class exactly if the unions performed connect them.",
  ["schedules", "histories"], "every number of threads, every interleaving of their atomic accesses", "Unit tests are single-threaded.",
  ["lib/parallel/data_structure/union_find.h"], [("compare-and-swap linking", "union_find::Union"), ("path halving", "union_find::Find")])
p("C18", "Serialising a graph and deserialising it gives the same graph",
  "Deserialising the serialised form of an adjacency-list graph yields a graph with the same vertices, the same edges and the same weights.",
  ["inputs"], "every graph of the adjacency-list representation", "Tests round-trip one graph.",
  [D + "mutable_graph.h"], [("vertex markers in the serial stream", "mutable_graph::serialize, deserialize")])
p("C19", "The parallel exact algorithm returns the minimum cut under every schedule",
  "The shared-memory exact algorithm returns the minimum cut value for every number of threads and every schedule.",
  ["inputs", "schedules", "configurations"], "all graphs, thread counts, schedules", "Tests sample few schedules.",
  ["lib/parallel/algorithm/exact_parallel_minimum_cut.h"], [("parallel capforest", "exact_parallel_minimum_cut")])
p("C20", "VieCut returns the value of a real cut",
  "The inexact VieCut algorithm never returns a value below the minimum cut, and the value it returns is the weight of some cut of the input graph, the one it marks when asked to save the cut.",
  ["inputs", "configurations", "schedules"], "every connected weighted graph, every seed", "Tests only compare with known values on easy graphs.",
  [M + "viecut.h"], [("cluster, contract, update", "viecut::perform_minimum_cut"), ("trivial cuts", "minimum_cut_helpers::updateCut")])
p("C21", "Matula's algorithm is a (2+epsilon)-approximation",
  "The approximation algorithm returns the weight of a cut of the graph that is at least the minimum cut and, apart from integer rounding by one, at most twice it (within the (2+epsilon) guarantee).",
  ["inputs"], "every connected undirected weighted graph", "Tests only check a few graphs.",
  [M + "matula_approx.h"], [("capforest with reduced bound", "matula_approx::perform_minimum_cut")])
import sys
ids = set(sys.argv[1:])
with open("properties.jsonl", "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
