// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C12: core numbers against repeated removal of vertices below k, and core extraction.
#include "graphs.h"
#include "algorithms/misc/core_decomposition.h"
static void one() {
    auto g = gr::random_graph(1, h::chance(80) ? 10 : 60); if (h::chance(70)) for (auto& r : g.w) for (auto& x : r) x = x > 0;
    h::begin(g.str(), g.n > 3); auto G = gr::make_static(g);
    std::vector<uint32_t> core(g.n, 0); uint32_t mx = 0; bool unit = true; for (auto& r : g.w) for (auto x : r) unit &= x < 2;
    for (uint32_t k = 1; k <= g.n; ++k) {
        std::vector<char> in(g.n, 1);
        for (bool ch = true; ch;) { ch = false; for (uint32_t v = 0; v < g.n; ++v) if (in[v]) { uint32_t d = 0; for (uint32_t u = 0; u < g.n; ++u) d += in[u] && g.w[v][u]; if (d < k) { in[v] = 0; ch = true; } } }
        for (uint32_t v = 0; v < g.n; ++v) if (in[v]) { core[v] = k; mx = k; }
    }
    auto c = core_decomposition::batagelj_zaversnik(G);
    if (c.degrees.size() != g.n || c.vertices.size() != g.n || c.position.size() != g.n) h::fail("result sizes");
    for (uint32_t v = 0; v < g.n; ++v) if (c.degrees[v] != core[v]) h::fail("core number of vertex " + h::str(v) + " is " + h::str(c.degrees[v]) + ", expected " + h::str(core[v]));
    std::vector<char> seen(g.n, 0);
    for (uint32_t i = 0; i < g.n; ++i) { uint32_t v = c.vertices[i]; if (v >= g.n || seen[v]++ || c.position[v] != i) h::fail("vertex order and positions disagree at " + h::str(i)); if (i && core[c.vertices[i - 1]] > core[v]) h::fail("vertices are not ordered by core number"); }
    for (uint32_t k = 0; k <= mx; ++k) { if (k >= c.buckets.size()) h::fail("bucket missing"); for (uint32_t i = 0; i < g.n; ++i) if ((i >= c.buckets[k]) != (core[c.vertices[i]] >= k)) h::fail("bucket " + h::str(k) + " starts at " + h::str(c.buckets[k])); }
    (void)unit;
    uint32_t k = h::rnd(mx + 1); h::log(" extract core " + h::str(k));
    auto H = core_decomposition::createCoreGraph(c, k, G);
    std::vector<uint32_t> vs; for (uint32_t v = 0; v < g.n; ++v) if (core[v] >= k) vs.push_back(v);
    gr::Graph q(vs.size()); for (size_t a = 0; a < vs.size(); ++a) for (size_t b = 0; b < vs.size(); ++b) q.w[a][b] = g.w[vs[a]][vs[b]];
    auto comp = gr::components(q); uint32_t best = 0; std::map<uint32_t, uint32_t> cnt; for (auto x : comp) best = std::max(best, ++cnt[x]);
    bool ok = false; auto M = gr::matrix(H);
    for (auto& [id, ct] : cnt) if (ct == best) { gr::Graph s(best); std::vector<uint32_t> ws; for (uint32_t a = 0; a < q.n; ++a) if (comp[a] == id) ws.push_back(a); for (uint32_t a = 0; a < best; ++a) for (uint32_t b = 0; b < best; ++b) s.w[a][b] = q.w[ws[a]][ws[b]]; ok |= M.n == best && s.w == M.w; }
    if (!ok) h::fail("the extracted graph (" + M.str() + ") is not a largest component of the " + h::str(k) + "-core");
}
int main(int argc, char** argv) {
    h::init(argc, argv); while (h::time_left()) one();
    h::finish("random graphs of 1 to 60 vertices: core numbers, vertex order, bucket starts; extraction of a random core for unit weights; nontrivial: more than three vertices");
}
