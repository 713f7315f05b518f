"""What each check runs: units under contract and the native replay harness."""
PROPS = {
    "C01": dict(units=["union_find"], native=["union_find"], nbudget=8,
                note="Every function of the class is under contract and proved for all sizes (up to 2^31-1 elements) and histories; trusts the translator, Why3 and the SMT solvers."),
    "C02": dict(units=["node_bucket_pq", "bucket_pq", "fifo_node_bucket_pq", "vecMaxNodeHeap", "maxNodeHeap"], native=["priority_queues"], nbudget=15,
                note="Every method of the five queues is under contract over the abstract view 'set of elements with keys' and proved for all sizes and histories (bucket index below 2^30, fewer than 2^62 removals per FIFO bucket, fewer than 2^30 stored heap elements). bucket_pq and maxNodeHeap use a model of std::unordered_map."),
    "C03": dict(units=["graph_access"], native=["graph_access"], nbudget=12,
                note="Every function of the construction interface and every query of basicGraph/graph_access is under contract over the sequence of inserted edges; proved for all graphs below 2^31 vertices, 2^32 directed edges (an unsigned loop counter in getWeightedNodeDegree) and 2^64 total weight. getPercentile and the METIS-array functions are not under contract."),
    "C04": dict(units=["mutable_graph"], native=["mutable_graph"], nbudget=20,
                note="Construction, node and edge insertion, reweighting, edge deletion and vertex deletion are under contract and proved for all graphs. The contraction operations, simplify, to/from graph_access are bounded stand-ins (random histories against a naive multigraph), not counted as proved."),
    "C05": dict(units=["contraction"], native=["contraction"], nbudget=15,
                note="Static graphs: contractGraphSparse, contractGraph, fromUnionFind and contractEdge are under contract and proved for all graphs, groupings and union-finds (distinct groups, exact weights between groups, vertex-to-group map, every cut keeps its weight). Mutable-graph contraction is a bounded stand-in (random graphs and groupings against a naive quotient), not counted as proved. std::shared_ptr aliasing of a returned argument and the unordered_set iteration order are modelled (any order)."),
    "C13": dict(units=["components"], native=["components"], nbudget=12,
                note="Static graphs: the depth-first search, strong_components, largest_scc and graph_extractor::extract_block are under contract and proved for all undirected graphs below 2^31 vertices (same number exactly if joined by a path, every number used, largest component, induced subgraph edge by edge). The overloads for the mutable graph (residual search with flows) are a bounded stand-in, not counted as proved. std::max_element has an assumed contract."),
    "C12": dict(units=["core"], native=["core"], nbudget=12,
                note="batagelj_zaversnik and createCoreGraph (with largest_scc and extract_block below them) are under contract and proved for all symmetric loop-free graphs below 2^31 vertices: core numbers exact, positions a sorted permutation, the minimum-degree self check never exits, the extraction is a largest component of the induced subgraph edge by edge with weights. std::max_element has an assumed contract."),
    "C18": dict(units=["serialize"], native=["serialize"], nbudget=12,
                note="mutable_graph::serialize and deserialize are under contract and proved for every well-formed graph with fewer than 2^31 vertices (the word format, and that reading back gives the same vertices, edges with multiplicity and weight, degrees, partition indices and contained-vertex mapping), on top of the proved contracts of mutable_graph."),
    "C10": dict(units=["flow_graph"], native=["flow_graph"], nbudget=8,
                note="Every function of flow_graph is under contract and proved for all networks and histories (fewer than 2^32 nodes and edges, capacity sums within 64 bits)."),
}
import json, os
_ids = [json.loads(l)['id'] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'))]
NA = {
 "C14": "the cactus construction works on tlx and growt containers that are not installed here (it does not compile in this sandbox), and its correctness argument (every minimum cut appears exactly once in a cactus of recursively contracted graphs) is far beyond contracts on the single functions",
 "C15": "dynamic_mincut needs the cactus code and tlx/xxhash headers that are not installed here: its functions cannot be parsed, so no contract can be attached to the real code",
 "C16": "multiterminal_cut needs tlx and MPI headers that are not installed here: its functions cannot be parsed, so no contract can be attached to the real code",
 "C19": "exact_parallel_minimum_cut needs growt and tlx headers that are not installed here; it cannot be parsed, and its guarantee is a property of thread interleavings that the sequential contracts cannot state",
}
for _i in _ids:
    if _i not in PROPS and _i not in NA:
        NA[_i] = 'no contracts written yet (work in progress)'
