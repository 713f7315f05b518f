// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C10: the flow network against a flat list of inserted edges.
#include "common.h"
#include "data_structure/flow_graph.h"
struct Rec { uint32_t s, t; int64_t cap, flow; uint32_t ps; uint64_t pe; };
static void onecase() {
    h::begin();
    uint32_t n = h::rnd(1, h::chance(80) ? 6 : 60); flow_graph G; uint64_t em = h::chance(10) ? h::rnd(50) : 0;
    h::log("n=" + h::str(n));
    if (em) G.start_construction(n, em); else G.start_construction(n);
    std::vector<std::vector<Rec>> R(n); std::vector<int64_t> cap(n, 0); uint64_t m = em;
    auto check = [&](uint32_t v) {
        if (G.get_first_edge(v) != 0 || G.get_first_invalid_edge(v) != R[v].size()) h::fail("vertex " + h::str(v) + " has " + h::str(G.get_first_invalid_edge(v)) + " edges, inserted " + h::str(R[v].size()));
        uint64_t k = 0; for (auto e : G.edges_of(v)) { if (e != k++) h::fail("edges_of order"); }
        if (k != R[v].size()) h::fail("edges_of(" + h::str(v) + ") yields " + h::str(k) + " edges");
        if (G.getCapacity(v) != cap[v]) h::fail("getCapacity(" + h::str(v) + ")=" + h::str(G.getCapacity(v)) + ", inserted " + h::str(cap[v]));
        for (uint64_t e = 0; e < R[v].size(); ++e) {
            auto& r = R[v][e]; std::string at = " of edge " + h::str(v) + "/" + h::str(e);
            if (G.getEdgeTarget(v, e) != r.t) h::fail("target" + at);
            if (G.getEdgeCapacity(v, e) != r.cap) h::fail("capacity" + at + ": " + h::str(G.getEdgeCapacity(v, e)) + " set " + h::str(r.cap));
            if (G.getEdgeFlow(v, e) != r.flow) h::fail("flow" + at + ": " + h::str(G.getEdgeFlow(v, e)) + " set " + h::str(r.flow));
            if (r.t != r.ps || G.getReverseEdge(v, e) != r.pe) h::fail("reverse" + at);
            if (G.getReverseEdge(r.ps, G.getReverseEdge(v, e)) != e) h::fail("reverse twice" + at);
        }
    };
    int ops = h::rnd(h::chance(80) ? 25 : 300);
    for (int i = 0; i < ops; ++i) {
        uint32_t a = h::rnd(n), b = h::chance(30) ? (a + 1) % n : h::rnd(n);
        if (h::chance(60)) {
            int64_t c = h::chance(30) ? 0 : h::chance(20) ? (int64_t)h::rnd((uint64_t)1 << 53) : h::rnd(40);
            h::log("e" + h::str(a) + ">" + h::str(b) + ":" + h::str(c));
            G.new_edge(a, b, c);
            uint64_t ea = R[a].size(), eb = R[b].size() + (a == b);
            R[a].push_back({a, b, c, 0, b, eb}); R[b].push_back({b, a, 0, 0, a, ea}); cap[a] += c; m += 2;
        } else if (R[a].size()) {
            uint64_t e = h::rnd(R[a].size()); int64_t f = h::chance(30) ? -(int64_t)h::rnd(40) : h::chance(20) ? (int64_t)h::rnd((uint64_t)1 << 60) : h::rnd(40);
            h::log("f" + h::str(a) + "/" + h::str(e) + ":" + h::str(f));
            G.setEdgeFlow(a, e, f); R[a][e].flow = f;
        }
        check(a); check(b);
    }
    G.finish_construction();
    if (G.number_of_nodes() != n) h::fail("number_of_nodes");
    if (G.number_of_edges() != m) h::fail("number_of_edges " + h::str(G.number_of_edges()) + ", inserted " + h::str(m));
    uint32_t k = 0; for (auto v : G.nodes()) { if (v != k++) h::fail("nodes()"); check(v); }
    if (k != n) h::fail("nodes() yields " + h::str(k));
    h::count(ops > 3);
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    while (h::time_left()) onecase();
    h::finish("flow networks of up to 60 vertices, up to 300 edge insertions (parallel, antiparallel, loops) and flow updates, every query after each step; nontrivial: more than three steps");
}
