// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C18: serialize, deserialize and compare graphs after random histories.
#include "common.h"
#include <memory>
#include "data_structure/mutable_graph.h"
static void check(mutable_graph& A, mutable_graph& B, const char* what) {
    std::string at = std::string(" (") + what + ")";
    if (A.n() != B.n()) h::fail("n: " + h::str(A.n()) + " became " + h::str(B.n()) + at);
    if (A.m() != B.m()) h::fail("m: " + h::str(A.m()) + " became " + h::str(B.m()) + at);
    if (A.get_partition_count() != B.get_partition_count()) h::fail("partition count" + at);
    if (A.getOriginalNodes() != B.getOriginalNodes()) h::fail("original nodes: " + h::str(A.getOriginalNodes()) + " became " + h::str(B.getOriginalNodes()) + at);
    for (uint32_t v = 0; v < A.n(); ++v) {
        std::map<uint32_t, std::multiset<uint64_t>> a, b;
        for (auto e : A.edges_of(v)) a[A.getEdgeTarget(v, e)].insert(A.getEdgeWeight(v, e));
        for (auto e : B.edges_of(v)) { uint32_t t = B.getEdgeTarget(v, e); uint64_t r = B.getReverseEdge(v, e), w = B.getEdgeWeight(v, e); b[t].insert(w);
            if (t >= B.n() || r >= B.get_first_invalid_edge(t) || B.getEdgeTarget(t, r) != v || B.getReverseEdge(t, r) != e || B.getEdgeWeight(t, r) != w) h::fail("reverse edge of " + h::str(v) + "/" + h::str(e) + at); }
        if (a != b) h::fail("edges of vertex " + h::str(v) + " differ" + at);
        if (A.getWeightedNodeDegree(v) != B.getWeightedNodeDegree(v)) h::fail("weighted degree of " + h::str(v) + at);
        if (A.getPartitionIndex(v) != B.getPartitionIndex(v)) h::fail("partition index of " + h::str(v) + at);
        auto ca = A.containedVertices(v), cb = B.containedVertices(v);
        std::sort(ca.begin(), ca.end()); std::sort(cb.begin(), cb.end());
        if (ca != cb) h::fail("contained vertices of " + h::str(v) + " differ" + at);
    }
    for (uint32_t o = 0; o < A.getOriginalNodes(); ++o) if (A.getCurrentPosition(o) != B.getCurrentPosition(o)) h::fail("position of original vertex " + h::str(o) + at);
}
static void onecase() {
    h::begin();
    uint32_t n = h::rnd(0, h::chance(80) ? 8 : 40); auto Gp = std::make_shared<mutable_graph>(); mutable_graph& G = *Gp;
    bool grow = h::chance(15); h::log("n=" + h::str(n));
    if (grow) for (uint32_t i = 0; i < n; ++i) G.new_node(); else G.start_construction(n);
    int dens = h::chance(40) ? 8 : h::rnd(5, 95); bool big = h::chance(20), par = h::chance(10);
    for (uint32_t i = 0; i < n; ++i) for (uint32_t j = i + 1; j < n; ++j) for (int q = 0; q < (par ? 2 : 1); ++q) if (h::chance(dens)) { uint64_t w = big ? h::rng() : h::rnd(50); G.new_edge(i, j, w); h::log(h::str(i) + "-" + h::str(j) + ":" + h::str(w)); }
    G.finish_construction();
    G.set_partition_count(h::rnd(5));
    int steps = par ? 0 : h::rnd(4); bool it = false;
    for (int s = 0; s < steps && G.n() > 0; ++s) {
        uint32_t v = h::rnd(G.n()); auto d = G.get_first_invalid_edge(v); int op = h::rnd(7);
        if (op == 0 && d) { auto e = h::rnd(d); h::log("contractEdge(" + h::str(v) + "," + h::str(e) + ")"); G.contractEdge(v, e); it = true; }
        if (op == 1 && d) { auto e = h::rnd(d); h::log("deleteEdge(" + h::str(v) + "," + h::str(e) + ")"); G.deleteEdge(v, e); }
        if (op == 2) { h::log("deleteVertex(" + h::str(v) + ")"); G.deleteVertex(v); it = true; }
        if (op == 3) { std::unordered_set<NodeID> S = {v, (NodeID)h::rnd(G.n()), (NodeID)h::rnd(G.n())}; h::log("contractVertexSet"); for (auto x : S) h::log(h::str(x)); G.contractVertexSet(S); it = true; }
        if (op == 4) { h::log("reset"); G.resetContainedvertices(); it = true; }
        if (op == 5) { h::log("new_node"); G.new_node(); it = true; }
        if (op == 6 && d) { auto e = h::rnd(d); auto w = h::rnd(99); h::log("setEdgeWeight(" + h::str(v) + "," + h::str(e) + "," + h::str(w) + ")"); G.setEdgeWeight(v, e, w); }
    }
    for (uint32_t v = 0; v < G.n(); ++v) G.setPartitionIndex(v, h::rnd(4));
    auto s = G.serialize(); auto B = mutable_graph::deserialize(s);
    check(G, *B, "deserialize(serialize(G))");
    if (B->serialize() != s) { auto C = mutable_graph::deserialize(B->serialize()); check(G, *C, "second round trip"); }
    h::count(it);
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    while (h::time_left()) onecase();
    h::finish("graphs of up to 40 vertices (sparse, dense, isolated vertices, parallel edges, 64-bit weights) after up to 4 updates, serialized and deserialized; nontrivial: histories that change the vertex mapping");
}
