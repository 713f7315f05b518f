// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C13: component numbers, counts and extracted subgraphs against breadth-first search.
#include "graphs.h"
#include "algorithms/misc/strongly_connected_components.h"
static std::vector<uint32_t> sizes(const std::vector<uint32_t>& c) { std::vector<uint32_t> s; for (auto x : c) { if (x >= s.size()) s.resize(x + 1, 0); ++s[x]; } return s; }
static void partition(const std::vector<int>& got, const std::vector<uint32_t>& want, uint32_t k) {
    if (got.size() != want.size()) h::fail("component vector size");
    for (size_t a = 0; a < got.size(); ++a) { if (got[a] < 0 || got[a] >= (int)k) h::fail("vertex " + h::str(a) + " has component " + h::str(got[a]) + " of " + h::str(k)); for (size_t b = 0; b < a; ++b) if ((got[a] == got[b]) != (want[a] == want[b])) h::fail("vertices " + h::str(b) + " and " + h::str(a) + " get components " + h::str(got[b]) + " and " + h::str(got[a]) + (want[a] == want[b] ? " but are connected" : " but are not connected")); }
}
static gr::Graph induced(const gr::Graph& g, const std::vector<uint32_t>& vs) { gr::Graph q(vs.size()); for (size_t a = 0; a < vs.size(); ++a) for (size_t b = 0; b < vs.size(); ++b) q.w[a][b] = g.w[vs[a]][vs[b]]; return q; }
static void stat(const gr::Graph& g, strongly_connected_components& shared) {
    bool reuse = h::chance(50); strongly_connected_components own; auto& s = reuse ? shared : own;
    h::begin("static reuse=" + h::str(reuse) + " " + g.str(), g.n > 3);
    auto G = gr::make_static(g); auto want = gr::components(g); uint32_t k = sizes(want).size();
    std::vector<int> c(g.n, 7); size_t ct = s.strong_components(G, &c);
    if (ct != k) h::fail("count " + h::str(ct) + ", there are " + h::str(k) + " components");
    partition(c, want, k);
    if (g.n) {
        auto L = s.largest_scc(G); auto sz = sizes(want); uint32_t mx = *std::max_element(sz.begin(), sz.end());
        std::vector<uint32_t> vs; for (uint32_t v = 0; v < g.n; ++v) if (G->getPartitionIndex(v) == 0) vs.push_back(v);
        if (vs.size() != mx || L->number_of_nodes() != mx) h::fail("largest component has " + h::str(L->number_of_nodes()) + " vertices (" + h::str(vs.size()) + " marked), the largest has " + h::str(mx));
        for (auto v : vs) if (want[v] != want[vs[0]]) h::fail("largest component spans two components");
        gr::same(gr::matrix(L), induced(g, vs), "largest component");
        if (L->number_of_edges() != induced(g, vs).m2()) h::fail("number_of_edges of the largest component");
        uint32_t blocks = h::rnd(1, 4); std::vector<uint32_t> in(g.n); for (uint32_t v = 0; v < g.n; ++v) { in[v] = h::rnd(blocks); G->setPartitionIndex(v, in[v]); }
        uint32_t b = h::rnd(blocks); graph_extractor ge; auto r = ge.extract_block(G, b); vs.clear(); for (uint32_t v = 0; v < g.n; ++v) if (in[v] == b) { if (r.second.size() != g.n || r.second[v] != vs.size()) h::fail("extract_block mapping"); vs.push_back(v); }
        h::log(" blocks " + h::strv(in) + " extract " + h::str(b)); gr::same(gr::matrix(r.first), induced(g, vs), "extracted block");
    }
    gr::same(gr::matrix(G), g, "the graph was changed");
}
static void mut(const gr::Graph& g, strongly_connected_components& shared) {
    bool reuse = h::chance(50), flow = h::chance(50); strongly_connected_components own; auto& s = reuse ? shared : own;
    h::begin("mutable reuse=" + h::str(reuse) + " flow=" + h::str(flow) + " " + g.str(), g.n > 3);
    auto G = gr::make_mutable(g); gr::Graph r = g; uint32_t fp = 5 + h::rnd(3);
    std::ostringstream fl;
    if (flow) for (uint32_t v = 0; v < g.n; ++v) for (auto e : G->edges_of(v)) { uint32_t t = G->getEdgeTarget(v, e); if (t < v) continue; int64_t w = g.w[v][t], f = h::chance(50) ? 0 : h::chance(50) ? w : -w; G->setEdgeFlow(v, e, f, fp); G->setEdgeFlow(t, G->getReverseEdge(v, e), -f, fp); if (f == w) r.w[v][t] = 0; if (-f == w) r.w[t][v] = 0; if (f) fl << " " << (f > 0 ? v : t) << ">" << (f > 0 ? t : v); }
    h::log(" saturated:" + fl.str());
    std::vector<std::vector<char>> reach(g.n, std::vector<char>(g.n, 0));
    for (uint32_t v = 0; v < g.n; ++v) { std::vector<uint32_t> q{v}; reach[v][v] = 1; while (q.size()) { auto x = q.back(); q.pop_back(); for (uint32_t u = 0; u < g.n; ++u) if (r.w[x][u] && !reach[v][u]) { reach[v][u] = 1; q.push_back(u); } } }
    std::vector<uint32_t> want(g.n); uint32_t k = 0; for (uint32_t v = 0; v < g.n; ++v) { want[v] = ~0u; for (uint32_t u = 0; u < v; ++u) if (reach[u][v] && reach[v][u]) { want[v] = want[u]; break; } if (want[v] == ~0u) want[v] = k++; }
    auto [c, ct, bs] = s.strong_components(G, fp);
    if (ct != k) h::fail("count " + h::str(ct) + ", there are " + h::str(k) + " components");
    partition(c, want, k);
    if (bs.size() != k) h::fail("block sizes of " + h::str(bs.size()) + " components"); std::vector<size_t> sz(k, 0); for (auto x : c) ++sz[x];
    for (uint32_t i = 0; i < k; ++i) if (bs[i] != sz[i]) h::fail("block size of component " + h::str(i) + " is " + h::str(bs[i]) + ", it has " + h::str(sz[i]));
    if (k) { uint32_t b = h::rnd(k); graph_extractor ge; auto [E, map, rev] = ge.extract_block(G, b, c); std::vector<uint32_t> vs; for (uint32_t v = 0; v < g.n; ++v) if (c[v] == (int)b) { if (rev.size() != g.n || rev[v] != vs.size()) h::fail("extract_block reverse mapping"); vs.push_back(v); } if (map.size() != vs.size() || !std::equal(vs.begin(), vs.end(), map.begin())) h::fail("extract_block mapping"); gr::same(gr::matrix(E), induced(g, vs), "extracted block"); }
    gr::same(gr::matrix(G), g, "the graph was changed");
}
int main(int argc, char** argv) {
    h::init(argc, argv); strongly_connected_components a, b;
    while (h::time_left()) { auto g = gr::random_graph(h::chance(3) ? 0 : 1, h::chance(85) ? 9 : 40); if (h::chance(60)) stat(g, a); else mut(g, b); }
    h::finish("random graphs of 0 to 40 vertices, static and residual adjacency-list graphs, fresh and reused objects: components, counts, block sizes, largest component and extracted blocks; nontrivial: more than three vertices");
}
