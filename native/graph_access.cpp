// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C03: build static graphs and compare every query with the edge list.
#include "common.h"
#include "data_structure/graph_access.h"
#include <algorithm>
#include <memory>
struct E { uint32_t s, t; uint64_t w; };
static void compare(graph_access& G, size_t n, const std::vector<E>& es, const char* when) {
    std::string at = std::string(" (") + when + ")";
    if (G.number_of_nodes() != n || G.n() != n) h::fail("number_of_nodes is " + h::str(G.number_of_nodes()) + at);
    if (G.number_of_edges() != es.size() || G.m() != es.size()) h::fail("number_of_edges is " + h::str(G.number_of_edges()) + at);
    size_t pos = 0, cn = 0; uint64_t total = 0, mind = ~0ull, maxd = 0, maxu = 0;
    for (uint32_t v : G.nodes()) {
        if (v != cn++) h::fail("nodes() out of order" + at);
        size_t b = pos; uint64_t sum = 0;
        for (auto e : G.edges_of(v)) {
            if (e != pos || pos >= es.size() || es[pos].s != v) h::fail("edges_of(" + h::str(v) + ") yields edge " + h::str(e) + " which does not start there" + at);
            if (G.getEdgeTarget(e) != es[pos].t || G.getEdgeTarget(v, e) != es[pos].t) h::fail("wrong target of edge " + h::str(e) + at);
            if (G.getEdgeWeight(e) != es[pos].w || G.getEdgeWeight(v, e) != es[pos].w) h::fail("wrong weight of edge " + h::str(e) + at);
            auto pr = G.getEdge(v, e); auto pr2 = G.getEdge(e);
            if (pr.first != es[pos].t || pr.second != es[pos].w || pr2 != pr) h::fail("getEdge of edge " + h::str(e) + at);
            if (G.getEdgeSource(e) != v) h::fail("getEdgeSource(" + h::str(e) + ") is " + h::str(G.getEdgeSource(e)) + at);
            uint64_t r = G.find_reverse_edge(e); bool any = false;
            for (size_t i = 0; i < es.size(); ++i) any |= es[i].s == es[pos].t && es[i].t == v;
            if (any != (r != (uint64_t)-1) || (any && (r >= es.size() || es[r].s != es[pos].t || es[r].t != v))) h::fail("find_reverse_edge(" + h::str(e) + ")" + at);
            sum += es[pos].w; ++pos;
        }
        if (pos < es.size() && es[pos].s == v) h::fail("edges_of(" + h::str(v) + ") misses edge " + h::str(pos) + at);
        if (G.get_first_edge(v) != b || G.get_first_invalid_edge(v) != pos) h::fail("edge range of " + h::str(v) + at);
        if (pos > b + 1) { size_t k = b; for (auto e : G.edges_of_starting_at(v, b + 1)) if (e != ++k) h::fail("edges_of_starting_at" + at); if (k != pos - 1) h::fail("edges_of_starting_at" + at); }
        if (G.getUnweightedNodeDegree(v) != pos - b) h::fail("unweighted degree of " + h::str(v) + at);
        if (G.getWeightedNodeDegree(v) != sum) h::fail("weighted degree of " + h::str(v) + " is " + h::str(G.getWeightedNodeDegree(v)) + ", the weights sum to " + h::str(sum) + at);
        total += sum; mind = std::min(mind, sum); maxd = std::max(maxd, sum); maxu = std::max<uint64_t>(maxu, pos - b);
    }
    if (cn != n || pos != es.size()) h::fail("nodes()/edges_of() do not cover the graph" + at);
    size_t k = 0; for (auto e : G.edges()) if (e != k++) h::fail("edges()" + at);
    if (k != es.size()) h::fail("edges()" + at);
    if (G.getMaxUnweightedDegree() != maxu) h::fail("getMaxUnweightedDegree" + at);
    if (n) {
        int o = h::rnd(3);
        if (o == 0) G.computeDegrees();
        if (o == 1 && G.getMaxDegree() != maxd) h::fail("getMaxDegree is " + h::str(G.getMaxDegree()) + ", expected " + h::str(maxd) + at);
        if (G.getMinDegree() != mind) h::fail("getMinDegree is " + h::str(G.getMinDegree()) + ", expected " + h::str(mind) + at);
        if (G.getMaxDegree() != maxd) h::fail("getMaxDegree is " + h::str(G.getMaxDegree()) + ", expected " + h::str(maxd) + at);
        if (G.sumOfEdgeWeights() != total) h::fail("sumOfEdgeWeights" + at);
        std::vector<uint64_t> d; size_t p = 0;
        for (size_t v = 0; v < n; ++v) { uint64_t s = 0; while (p < es.size() && es[p].s == v) s += es[p++].w; d.push_back(s);
            if (G.getWeightedNodeDegree(v) != s) h::fail("cached weighted degree of " + h::str(v) + at); }
        std::sort(d.begin(), d.end());
        double q = h::rnd(10) / 10.0;
        if (G.getPercentile(q) != d[(size_t)(n * q)]) h::fail("getPercentile" + at);
    }
}
static uint64_t weight(int shape) {
    switch (shape) { case 0: return 1; case 1: return h::rnd(1, 5); case 2: return h::chance(50) ? h::rnd(3) : (1ull << 40) + h::rnd(10); default: return h::chance(30) ? (1ull << 33) + h::rnd(5) : h::rnd(1ull << 32); }
}
static void run(size_t n, std::vector<E> es, bool loops, int nodes_first) {
    std::ostringstream o; o << "n=" << n << " edges:";
    if (es.size() < 400) for (auto& e : es) o << " (" << e.s << "," << e.t << "," << e.w << ")";
    else o << " " << es.size() << " random edges";
    h::begin(o.str(), es.size() > 1);
    graph_access G;
    G.start_construction(n, es.size());
    if (nodes_first == 0) for (size_t v = 0; v < n; ++v) if (G.new_node() != v) h::fail("new_node");
    std::vector<E> kept; size_t p = 0;
    bool unit = h::chance(20);
    for (size_t v = 0; v < n; ++v) {
        if (nodes_first == 1 && G.new_node() != v) h::fail("new_node");
        for (; p < es.size() && es[p].s == v; ++p) {
            E e = es[p];
            int how = h::rnd(2);
            if (unit) e.w = 1;
            uint64_t id = unit || (how == 1 && e.s != e.t) ? G.new_edge(e.s, e.t) : G.new_edge(e.s, e.t, e.w);
            if (id != kept.size()) h::fail("new_edge returned " + h::str(id) + " for edge number " + h::str(kept.size()));
            if (e.s == e.t) continue;
            if (how == 1 && !unit) G.setEdgeWeight(id, e.w);
            kept.push_back(e);
        }
    }
    if (nodes_first == 2) for (size_t v = 0; v < n; ++v) if (G.new_node() != v) h::fail("new_node");
    G.finish_construction();
    compare(G, n, kept, "built");
    { graph_access C(G.copy()); compare(C, n, kept, "copy"); compare(G, n, kept, "original after copy"); }
    if (n) {
        std::vector<uint32_t> part(n); std::vector<int> cut(n);
        for (size_t v = 0; v < n; ++v) { part[v] = h::rnd(5); cut[v] = h::rnd(2); G.setPartitionIndex(v, part[v]); G.setNodeInCut(v, cut[v]); }
        size_t x = h::rnd(n); part[x] = 9; G.setPartitionIndex(x, 9); cut[x] ^= 1; G.setNodeInCut(x, cut[x]);
        for (size_t v = 0; v < n; ++v) if (G.getPartitionIndex(v) != part[v] || G.getNodeInCut(v) != cut[v]) h::fail("partition index or cut side of " + h::str(v));
        G.set_partition_count(7); if (G.get_partition_count() != 7) h::fail("partition count");
        G.setSeparatorBlock(3); if (G.getSeparatorBlock() != 3) h::fail("separator block");
    }
    if (!kept.empty()) for (int i = 0; i < 3; ++i) {
        size_t e = h::rnd(kept.size()); kept[e].w = h::rnd(1, 9); G.setEdgeWeight(e, kept[e].w);
        if (i == 1) compare(G, n, kept, "after setEdgeWeight");
    }
    compare(G, n, kept, "at the end");
    if (n < 50) {
        int* x = G.UNSAFE_metis_style_xadj_array(); int* a = G.UNSAFE_metis_style_adjncy_array(); int* w = G.UNSAFE_metis_style_adjwgt_array();
        size_t q = 0;
        for (size_t v = 0; v < n; ++v) { if (x[v] != (int)q) h::fail("xadj array"); while (q < kept.size() && kept[q].s == v) ++q; }
        if (x[n] != (int)kept.size()) h::fail("xadj array");
        for (size_t e = 0; e < kept.size(); ++e) if (a[e] != (int)kept[e].t || w[e] != (int)kept[e].w) h::fail("adjncy/adjwgt array");
        graph_access M; int vw[64] = {0};
        bool wtd = h::chance(50);
        if (wtd) M.build_from_metis_weighted(n, x, a, vw, w); else M.build_from_metis(n, x, a);
        std::vector<E> k2 = kept; for (auto& e : k2) e.w = wtd ? (uint64_t)(int)e.w : 1;
        bool big = false; for (auto& e : kept) big |= e.w > 0x7fffffff;
        if (!big || !wtd) compare(M, n, k2, "build_from_metis");
        delete[] x; delete[] a; delete[] w;
    }
    (void)loops;
}
// the sparsifier's way to build: offsets first, then edges with their reverse
static void hacky() {
    size_t n = h::rnd(1, 8); std::vector<std::vector<E>> adj(n);
    std::vector<E> und; std::set<std::pair<int,int>> seen;
    for (size_t i = 0, k = h::rnd(0, 12); i < k; ++i) { int a = h::rnd(n), b = h::rnd(n); if (a == b) continue; if (a > b) std::swap(a, b); if (!seen.insert({a, b}).second) continue; und.push_back({(uint32_t)a, (uint32_t)b, (uint64_t)h::rnd(1, 9)}); }
    std::vector<size_t> deg(n); for (auto& e : und) { deg[e.s]++; deg[e.t]++; }
    std::ostringstream o; o << "new_node_hacky/new_edge_and_reverse n=" << n << ":"; for (auto& e : und) o << " (" << e.s << "," << e.t << "," << e.w << ")";
    h::begin(o.str(), und.size() > 1);
    graph_access G; G.start_construction(n, 2 * und.size()); G.resize_m(2 * und.size());
    size_t s = 0; std::vector<size_t> nx(n); std::vector<E> es(2 * und.size());
    for (size_t v = 0; v < n; ++v) { nx[v] = s; s += deg[v]; if (G.new_node_hacky(s) != v + 1) h::fail("new_node_hacky"); }
    for (auto& e : und) { size_t a = nx[e.s]++, b = nx[e.t]++; G.new_edge_and_reverse(e.s, e.t, a, b, e.w); es[a] = e; es[b] = {e.t, e.s, e.w}; }
    G.finish_construction();
    compare(G, n, es, "new_edge_and_reverse");
}
static void exhaust() {
    for (size_t n = 0; n <= 4; ++n)
        for (uint32_t mask = 0; mask < (1u << (n * n)); ++mask) {
            if (n == 4 && h::rnd(24)) continue;
            std::vector<E> es;
            for (size_t i = 0; i < n * n; ++i) if (mask >> i & 1) es.push_back({(uint32_t)(i / n), (uint32_t)(i % n), 1 + i * 3 % 5});
            run(n, es, true, mask % 3 == 2 ? 2 : mask % 2);
        }
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    exhaust();
    while (h::time_left()) {
        size_t n = h::chance(80) ? h::rnd(1, 12) : h::rnd(1, 300);
        int shape = h::rnd(4), iso = h::rnd(0, 90);
        size_t k = h::rnd(0, h::chance(80) ? 3 * n : 20);
        std::vector<bool> dead(n); for (size_t v = 0; v < n; ++v) dead[v] = h::chance(iso);
        std::vector<E> es;
        for (size_t i = 0; i < k; ++i) { uint32_t a = h::rnd(n), b = h::rnd(n); if (dead[a]) continue; es.push_back({a, b, weight(shape)}); if (h::chance(50)) es.push_back({b, a, es.back().w}); }
        std::stable_sort(es.begin(), es.end(), [](const E& a, const E& b) { return a.s < b.s; });
        run(n, es, true, h::rnd(3));
        if (h::chance(30)) hacky();
    }
    h::done("edge lists grouped by ascending source: all directed graphs with loops on up to 3 vertices, a sample on 4, random multigraphs of up to 300 vertices with isolated vertices and 64-bit weights; every query, copy(), reweighting and the METIS-array interface compared with the list");
}
