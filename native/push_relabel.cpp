// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C09: push-relabel against augmenting-path maximum flow.
#include "graphs.h"
#include "algorithms/flow/push_relabel.h"
template <bool P> void one(push_relabel<false, P>& solver, bool fresh) {
    auto g = gr::random_graph(2, h::chance(85) ? 9 : 40);
    uint32_t k = h::rnd(2, std::min<int64_t>(g.n, h::chance(60) ? 2 : 5)); std::vector<uint32_t> p(g.n); std::iota(p.begin(), p.end(), 0); std::shuffle(p.begin(), p.end(), h::rng); p.resize(k);
    uint32_t cs = h::rnd(k); bool set = h::chance(70); uint64_t sd = h::rnd(1000000); random_functions::setSeed(sd);
    h::begin(g.str() + " terminals " + h::strv(p) + " source index " + h::str(cs) + " parallel=" + h::str(P) + " fresh=" + h::str(fresh) + " seed=" + h::str(sd), g.n > 3);
    auto G = gr::make_mutable(g);
    // reference: merge the sinks
    std::vector<uint32_t> cl(g.n); uint32_t c = 2; for (uint32_t v = 0; v < g.n; ++v) cl[v] = v == p[cs] ? 0 : std::find(p.begin(), p.end(), v) != p.end() ? 1 : c++;
    int64_t want = gr::maxflow(gr::quotient(g, cl, c), 0, 1);
    for (int rep = h::chance(20) ? 2 : 1; rep--;) {
        auto r = solver.solve_max_flow_min_cut(G, std::vector<NodeID>(p.begin(), p.end()), cs, set);
        if (r.first != want) h::fail("flow value " + h::str(r.first) + ", the maximum flow is " + h::str(want));
        gr::same(gr::matrix(G), g, "capacities were changed");
        if (set) {
            std::vector<char> in(g.n, 0); for (auto v : r.second) { if (v >= g.n || in[v]) h::fail("source set lists " + h::str(v) + " twice or out of range"); in[v] = 1; }
            for (uint32_t i = 0; i < k; ++i) if (in[p[i]] != (i == cs)) h::fail("source set and terminal " + h::str(p[i]));
            if ((int64_t)g.cut(in) != want) h::fail("the source set has outgoing capacity " + h::str(g.cut(in)) + ", the flow value is " + h::str(want));
        } else if (r.second.size()) h::fail("source set not asked for");
    }
}
static void lim(push_relabel<true, false>& solver) {
    auto g = gr::random_graph(2, h::chance(85) ? 9 : 40);
    uint32_t s = h::rnd(g.n), t = h::rnd(g.n); if (s == t) return;
    uint32_t cs = h::rnd(2); std::vector<NodeID> p{s, t}; int64_t want = gr::maxflow(g, s, t), limit = h::rnd((int64_t)1, want + 3);
    int d = h::rnd(4); configuration::getConfig()->depthOfPartialRelabeling = d;
    h::begin("limited " + g.str() + " terminals " + h::strv(p) + " source index " + h::str(cs) + " limit " + h::str(limit) + " depth " + h::str(d), g.n > 3);
    auto G = gr::make_mutable(g); auto r = solver.solve_max_flow_min_cut(G, p, cs, false, limit);
    if (std::min(r.first, limit) != std::min(want, limit)) h::fail("limited flow value " + h::str(r.first) + ", the maximum flow is " + h::str(want));
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    push_relabel<false, false> a; push_relabel<false, true> b; push_relabel<true, false> l;
    while (h::time_left()) {
        if (h::chance(30)) { push_relabel<false, false> f; one<false>(f, true); } else if (h::chance(50)) one<false>(a, false); else one<true>(b, false);
        if (h::chance(20)) lim(l);
    }
    h::finish("random graphs of 2 to 40 vertices, 2 to 5 terminals, fresh and reused solvers, both flow storages: flow value and source set against augmenting paths; nontrivial: more than three vertices");
}
