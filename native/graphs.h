// Random simple weighted graphs, their matrix form, and brute-force oracles.
#pragma once
#include "common.h"
#include "data_structure/graph_access.h"
#include "data_structure/mutable_graph.h"
#include "common/configuration.h"
#include "tools/random_functions.h"
#include <memory>
#include <numeric>
namespace gr {
typedef std::vector<std::vector<uint64_t>> Mat;
struct Graph {
    uint32_t n = 0; Mat w;
    explicit Graph(uint32_t n = 0) : n(n), w(n, std::vector<uint64_t>(n, 0)) { }
    void edge(uint32_t a, uint32_t b, uint64_t c) { if (a != b) w[a][b] = w[b][a] = c; }
    uint64_t deg(uint32_t v) const { return std::accumulate(w[v].begin(), w[v].end(), (uint64_t)0); }
    uint64_t mindeg() const { uint64_t m = ~0ull; for (uint32_t v = 0; v < n; ++v) m = std::min(m, deg(v)); return m; }
    uint64_t m2() const { uint64_t c = 0; for (auto& r : w) for (auto x : r) c += x > 0; return c; }
    std::string str() const {
        std::ostringstream o; o << "n=" << n << " edges:";
        for (uint32_t a = 0; a < n; ++a) for (uint32_t b = a + 1; b < n; ++b) if (w[a][b]) o << " " << a << "-" << b << ":" << w[a][b];
        return o.str();
    }
    template <class S> uint64_t cut(const S& in) const { uint64_t c = 0; for (uint32_t a = 0; a < n; ++a) if (in[a]) for (uint32_t b = 0; b < n; ++b) if (!in[b]) c += w[a][b]; return c; }
};
inline uint64_t weight(int shape) {
    switch (shape) { case 0: return 1; case 1: return h::rnd(1, 4); case 2: return h::chance(25) ? h::rnd(20, 60) : h::rnd(1, 5); case 3: return h::rnd(1, 100); default: return h::rnd(1, 40000); }
}
// vertex order shuffled, so that ids carry no structure
inline Graph random_graph(uint32_t lo, uint32_t hi, bool connected_only = false) {
    uint32_t n = h::rnd((int64_t)lo, (int64_t)hi); Graph g(n); int sh = h::rnd(h::chance(85) ? 4 : 5), kind = h::rnd(9);
    auto W = [&]() { return weight(sh); };
    std::vector<uint32_t> p(n); std::iota(p.begin(), p.end(), 0); if (h::chance(80)) std::shuffle(p.begin(), p.end(), h::rng);
    auto E = [&](uint32_t a, uint32_t b) { g.edge(p[a], p[b], W()); };
    if (n < 2) return g;
    if (kind == 0) { for (uint32_t i = 0; i < n; ++i) E(i, (i + 1) % n); for (uint32_t i = h::rnd(3); i--;) E(h::rnd(n), h::rnd(n)); }
    else if (kind == 1) { for (uint32_t i = 1; i < n; ++i) E(i, h::rnd(i)); for (uint32_t i = h::rnd(n); i--;) E(h::rnd(n), h::rnd(n)); }
    else if (kind == 2) { int d = h::rnd(20, 100); for (uint32_t a = 0; a < n; ++a) for (uint32_t b = a + 1; b < n; ++b) if (h::chance(d)) E(a, b); }
    else if (kind == 3 || kind == 4) {            // clusters joined by few edges
        uint32_t k = h::rnd(2, 4); int d = h::rnd(50, 100);
        for (uint32_t a = 0; a < n; ++a) for (uint32_t b = a + 1; b < n; ++b) if (a % k == b % k && h::chance(d)) E(a, b);
        for (uint32_t i = h::rnd(1, 3 * k); i--;) { uint32_t a = h::rnd(n), b = h::rnd(n); E(a, b); }
        for (uint32_t i = 0; i + 1 < k && i + 1 < n; ++i) if (h::chance(90)) g.edge(p[i], p[i + 1], 1 + h::rnd(3));
    }
    else if (kind == 5) { uint32_t c = std::max<uint32_t>(2, (uint32_t)std::sqrt((double)n)); for (uint32_t i = 0; i < n; ++i) { if (i % c + 1 < c && i + 1 < n) E(i, i + 1); if (i + c < n) E(i, i + c); } }
    else if (kind == 6) { for (uint32_t i = 1; i < n; ++i) E(0, i); for (uint32_t i = 1; i + 1 < n; ++i) if (h::chance(80)) E(i, i + 1); }
    else if (kind == 7) { int d = h::rnd(5, 35); for (uint32_t a = 0; a < n; ++a) for (uint32_t b = a + 1; b < n; ++b) if (h::chance(d)) E(a, b); }
    else { for (uint32_t i = 0; i < n; ++i) for (uint32_t j = 1; j <= 2; ++j) E(i, (i + j) % n); }
    if (connected_only) {
        std::vector<uint32_t> q{0}; std::vector<char> s(n, 0); s[0] = 1;
        for (uint32_t pass = 0; pass < n; ++pass) {
            while (q.size()) { uint32_t v = q.back(); q.pop_back(); for (uint32_t u = 0; u < n; ++u) if (g.w[v][u] && !s[u]) { s[u] = 1; q.push_back(u); } }
            uint32_t u = 0; while (u < n && s[u]) ++u;
            if (u == n) break;
            uint32_t a; do a = h::rnd(n); while (!s[a]);
            g.edge(a, u, W()); s[u] = 1; q.push_back(u);
        }
    }
    return g;
}
inline std::shared_ptr<graph_access> make_static(const Graph& g, bool shuffle = true) {
    auto G = std::make_shared<graph_access>(); G->start_construction(g.n, g.m2());
    for (uint32_t v = 0; v < g.n; ++v) {
        G->new_node(); std::vector<uint32_t> t;
        for (uint32_t u = 0; u < g.n; ++u) if (g.w[v][u]) t.push_back(u);
        if (shuffle) std::shuffle(t.begin(), t.end(), h::rng);
        for (auto u : t) { auto e = G->new_edge(v, u, g.w[v][u]); (void)e; }
    }
    G->finish_construction(); G->computeDegrees();
    return G;
}
inline std::shared_ptr<mutable_graph> make_mutable(const Graph& g, bool shuffle = true) {
    auto G = std::make_shared<mutable_graph>(); G->start_construction(g.n);
    std::vector<std::pair<uint32_t, uint32_t>> es;
    for (uint32_t a = 0; a < g.n; ++a) for (uint32_t b = a + 1; b < g.n; ++b) if (g.w[a][b]) es.push_back(h::chance(50) ? std::make_pair(a, b) : std::make_pair(b, a));
    if (shuffle) std::shuffle(es.begin(), es.end(), h::rng);
    for (auto& e : es) G->new_edge_order(e.first, e.second, g.w[e.first][e.second]);
    G->finish_construction();
    return G;
}
template <class GP> GP make(const Graph& g);
template <> inline std::shared_ptr<graph_access> make(const Graph& g) { return make_static(g); }
template <> inline std::shared_ptr<mutable_graph> make(const Graph& g) { return make_mutable(g); }
template <class GP> Graph matrix(GP G) {           // total weight per vertex pair; self entry on the diagonal
    Graph g(G->number_of_nodes());
    for (auto v : G->nodes()) for (auto e : G->edges_of(v)) { auto t = G->getEdgeTarget(v, e); if (t >= g.n) h::fail("edge target " + h::str(t) + " out of range"); g.w[v][t] += G->getEdgeWeight(v, e); }
    return g;
}
// Stoer-Wagner
inline uint64_t mincut(Graph g) {
    if (g.n < 2) return ~0ull;
    uint64_t best = ~0ull; std::vector<uint32_t> act(g.n); std::iota(act.begin(), act.end(), 0);
    while (act.size() > 1) {
        std::vector<uint64_t> r(g.n, 0); std::vector<char> in(g.n, 0); uint32_t s = 0, t = 0;
        for (size_t i = 0; i < act.size(); ++i) {
            uint32_t b = ~0u; for (auto v : act) if (!in[v] && (b == ~0u || r[v] > r[b])) b = v;
            in[b] = 1; s = t; t = b; for (auto v : act) if (!in[v]) r[v] += g.w[b][v];
        }
        best = std::min(best, r[t]);
        for (auto v : act) if (v != s && v != t) { g.w[s][v] += g.w[t][v]; g.w[v][s] = g.w[s][v]; }
        act.erase(std::find(act.begin(), act.end(), t));
    }
    return best;
}
// s-t maximum flow on the matrix
inline uint64_t maxflow(const Graph& g, uint32_t s, uint32_t t) {
    Mat c = g.w; uint64_t f = 0;
    while (true) {
        std::vector<int> par(g.n, -1); par[s] = s; std::vector<uint32_t> q{s};
        for (size_t i = 0; i < q.size() && par[t] < 0; ++i) for (uint32_t u = 0; u < g.n; ++u) if (par[u] < 0 && c[q[i]][u]) { par[u] = q[i]; q.push_back(u); }
        if (par[t] < 0) return f;
        uint64_t d = ~0ull; for (uint32_t v = t; v != s; v = par[v]) d = std::min(d, c[par[v]][v]);
        for (uint32_t v = t; v != s; v = par[v]) { c[par[v]][v] -= d; c[v][par[v]] += d; }
        f += d;
    }
}
inline std::vector<uint32_t> components(const Graph& g) {
    std::vector<uint32_t> c(g.n, ~0u); uint32_t k = 0;
    for (uint32_t s = 0; s < g.n; ++s) if (c[s] == ~0u) { std::vector<uint32_t> q{s}; c[s] = k; while (q.size()) { auto v = q.back(); q.pop_back(); for (uint32_t u = 0; u < g.n; ++u) if (g.w[v][u] && c[u] == ~0u) { c[u] = k; q.push_back(u); } } ++k; }
    return c;
}
inline bool connected(const Graph& g) { auto c = components(g); for (auto x : c) if (x) return false; return true; }
// contract by class ids 0..k-1
inline Graph quotient(const Graph& g, const std::vector<uint32_t>& cl, uint32_t k) {
    Graph q(k); for (uint32_t a = 0; a < g.n; ++a) for (uint32_t b = 0; b < g.n; ++b) if (cl[a] != cl[b]) q.w[cl[a]][cl[b]] += g.w[a][b];
    return q;
}
inline void same(const Graph& a, const Graph& b, const std::string& what) {
    if (a.n != b.n) h::fail(what + ": " + h::str(a.n) + " vertices, expected " + h::str(b.n));
    for (uint32_t x = 0; x < a.n; ++x) for (uint32_t y = 0; y < a.n; ++y) if (a.w[x][y] != b.w[x][y]) h::fail(what + ": weight between " + h::str(x) + " and " + h::str(y) + " is " + h::str(a.w[x][y]) + ", expected " + h::str(b.w[x][y]));
}
}  // namespace gr
