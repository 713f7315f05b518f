// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C06: the exact algorithm against Stoer-Wagner, and the scan against s-t maximum flows.
#include "mincut.h"
template <class GP> void value(const gr::Graph& g, const char* rep) {
    h::begin(std::string(rep) + " " + mc::setup(h::chance(30)) + g.str(), g.n > 3);
    uint64_t want = gr::mincut(g); auto G = gr::make<GP>(g);
    noi_minimum_cut<GP> a; uint64_t got = a.perform_minimum_cut(G);
    if (got != want) h::fail("returned " + h::str(got) + ", the minimum cut is " + h::str(want));
    gr::same(gr::matrix(G), g, "the input graph was changed");
}
template <class GP> void scan(const gr::Graph& g, const char* rep) {
    uint64_t md = g.mindeg(); if (!md) return;
    uint64_t lim = h::chance(70) ? md : h::rnd((int64_t)1, (int64_t)md);
    h::begin(std::string("scan ") + rep + " bound=" + h::str(lim) + " " + mc::setup(false) + g.str(), g.n > 3);
    auto G = gr::make<GP>(g); noi_minimum_cut<GP> a; auto uf = a.modified_capforest(G, lim);
    if (uf.n() < 1 || (g.n > 2 && gr::connected(g) && lim <= md && uf.n() == g.n)) h::fail("the scan merged nothing (" + h::str(uf.n()) + " classes)");
    // tree of merges: every class member against the first
    std::map<uint32_t, uint32_t> first;
    for (uint32_t v = 0; v < g.n; ++v) { auto r = uf.Find(v); if (!first.count(r)) first[r] = v; else { uint64_t f = gr::maxflow(g, first[r], v); if (f < lim) h::fail("merged " + h::str(first[r]) + " and " + h::str(v) + " which a cut of weight " + h::str(f) + " separates"); } }
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    while (h::time_left()) {
        auto g = gr::random_graph(2, h::chance(85) ? 9 : 30);
        if (h::chance(50)) value<graphAccessPtr>(g, "static"); else value<mutableGraphPtr>(g, "mutable");
        if (h::chance(40)) { if (h::chance(50)) scan<graphAccessPtr>(g, "static"); else scan<mutableGraphPtr>(g, "mutable"); }
    }
    h::finish("random graphs of 2 to 30 vertices (cycles, trees, grids, clusters, wheels, dense, sparse, disconnected), all queues, both graph types: returned value = Stoer-Wagner value, merged pairs have s-t max flow at least the bound; nontrivial: more than three vertices");
}
