// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C08: contracting the marked pairs keeps min(bound, minimum cut), and in all-cuts mode every minimum cut below the bound.
#include "graphs.h"
#include "coarsening/contraction_tests.h"
template <class GP> void one(const gr::Graph& g, const char* rep) {
    uint64_t md = g.mindeg(), mc = gr::mincut(g); int which = h::rnd(2); bool all = h::chance(30);
    uint64_t lim = h::chance(60) ? md : h::chance(50) ? mc + 1 : h::rnd((int64_t)mc, (int64_t)std::max(mc, md)); lim = std::max<uint64_t>(lim, 1);
    if (!all) { lim = std::min(lim, md); if (!lim) return; }
    h::begin(std::string(rep) + (which ? " tests34" : " tests12") + " bound=" + h::str(lim) + " all=" + h::str(all) + " " + g.str(), g.n > 3);
    auto G = gr::make<GP>(g);
    union_find uf = which ? tests::prTests34(G, lim, all) : tests::prTests12(G, lim, all);
    std::map<uint32_t, uint32_t> id; std::vector<uint32_t> cl(g.n);
    for (uint32_t v = 0; v < g.n; ++v) { auto r = uf.Find(v); if (!id.count(r)) { auto k = id.size(); id[r] = k; } cl[v] = id[r]; }
    if (uf.n() != id.size()) h::fail("number of classes");
    auto q = gr::quotient(g, cl, id.size());
    uint64_t a = std::min(lim, mc), b = std::min(lim, gr::mincut(q));
    if (a != b) h::fail("min(bound, minimum cut) was " + h::str(a) + ", after contracting the marked pairs " + h::str(b));
    if (all && mc < lim && g.n <= 12) {
        for (uint32_t s = 1; s < (1u << (g.n - 1)); ++s) { std::vector<char> in(g.n, 0); for (uint32_t v = 0; v + 1 < g.n; ++v) in[v] = s >> v & 1; if (g.cut(in) != mc) continue; for (uint32_t v = 0; v < g.n; ++v) for (uint32_t u = 0; u < v; ++u) if (cl[u] == cl[v] && in[u] != in[v]) h::fail("all-cuts mode merged " + h::str(u) + " and " + h::str(v) + " which a minimum cut separates"); }
    }
    gr::same(gr::matrix(G), g, "the graph was changed");
}
static void heavy(const gr::Graph& g) {
    uint64_t mc = gr::mincut(g), lim = h::rnd(mc, mc + 10); bool tri = h::chance(60);
    h::begin(std::string(tri ? "heavy triangles" : "heavy edges") + " bound=" + h::str(lim) + " " + g.str(), g.n > 3);
    auto G = gr::make_static(g); union_find uf(g.n);
    if (tri) tests::findHeavyTriangles(G, &uf, lim); else tests::findHeavyEdges(G, &uf, lim);
    std::map<uint32_t, uint32_t> first;
    for (uint32_t v = 0; v < g.n; ++v) { auto r = uf.Find(v); if (!first.count(r)) first[r] = v; else { uint64_t f = gr::maxflow(g, first[r], v); if (f <= lim) h::fail("merged " + h::str(first[r]) + " and " + h::str(v) + " which a cut of weight " + h::str(f) + " separates"); } }
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    while (h::time_left()) {
        auto g = gr::random_graph(2, h::chance(85) ? 8 : 30, h::chance(80));
        if (h::chance(15)) heavy(g);
        if (h::chance(50)) one<graphAccessPtr>(g, "static"); else one<mutableGraphPtr>(g, "mutable");
    }
    h::finish("random simple graphs of 2 to 30 vertices, both tests, both graph types, bounds up to the minimum degree (all-cuts mode: also minimum cut + 1): minimum cut below the bound unchanged; nontrivial: more than three vertices");
}
