// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C05: contracted graphs against the quotient of the weight matrix.
#include "graphs.h"
#include "coarsening/contract_graph.h"
typedef std::vector<uint32_t> V;
static V grouping(uint32_t n, uint32_t& k) {       // classes numbered by first vertex
    V raw(n); int kind = h::rnd(5);
    for (uint32_t v = 0; v < n; ++v) raw[v] = kind == 0 ? v : kind == 1 ? 0 : kind == 2 ? h::rnd(2) : kind == 3 ? h::rnd(n) : v;
    if (kind == 4) for (uint32_t i = h::rnd(3); i--;) { uint32_t a = h::rnd(n), b = h::rnd(n), c = raw[a]; for (auto& x : raw) if (x == c) x = raw[b]; }
    std::map<uint32_t, uint32_t> id; V cl(n); for (uint32_t v = 0; v < n; ++v) { if (!id.count(raw[v])) { uint32_t s = id.size(); id[raw[v]] = s; } cl[v] = id[raw[v]]; }
    k = id.size(); return cl;
}
static union_find make_uf(const V& cl) { union_find uf(cl.size()); V p(cl.size()); std::iota(p.begin(), p.end(), 0); std::shuffle(p.begin(), p.end(), h::rng); std::map<uint32_t, uint32_t> f; for (auto v : p) { if (f.count(cl[v])) uf.Union(f[cl[v]], v); f[cl[v]] = v; } return uf; }
static V check_map(const V& pos, const V& cl, uint32_t k, const char* what) {
    for (size_t a = 0; a < cl.size(); ++a) { if (pos[a] >= k) h::fail(std::string(what) + ": vertex " + h::str(a) + " is mapped to " + h::str(pos[a])); for (size_t b = 0; b < a; ++b) if ((pos[a] == pos[b]) != (cl[a] == cl[b])) h::fail(std::string(what) + ": vertices " + h::str(b) + " and " + h::str(a) + " are mapped to " + h::str(pos[b]) + " and " + h::str(pos[a]) + ", their groups are " + h::str(cl[b]) + " and " + h::str(cl[a])); }
    return pos;
}
template <class GP> bool simple(GP G) { for (auto v : G->nodes()) { std::set<uint32_t> s; for (auto e : G->edges_of(v)) { auto t = G->getEdgeTarget(v, e); if (t == v) h::fail("self-loop at " + h::str(v)); if (!s.insert(t).second) return false; } } return true; }
static void degrees(const gr::Graph& q, std::function<uint64_t(uint32_t)> f) { for (uint32_t v = 0; v < q.n; ++v) if (f(v) != q.deg(v)) h::fail("weighted degree of contracted vertex " + h::str(v)); }
static std::string prof(const gr::Graph& g) { std::vector<std::string> r; for (uint32_t v = 0; v < g.n; ++v) { auto x = g.w[v]; std::sort(x.begin(), x.end()); r.push_back(h::strv(x)); } std::sort(r.begin(), r.end()); std::string s; for (auto& x : r) s += x; return s; }
template <class GP> void fromuf(gr::Graph g, const char* rep, bool copy) {
    bool save = h::chance(75); configuration::getConfig()->save_cut = save;
    h::begin(std::string("fromUnionFind ") + rep + " copy=" + h::str(copy) + " save_cut=" + h::str(save) + " " + g.str(), g.n > 3);
    auto G = gr::make<GP>(g); constexpr bool mut = std::is_same<GP, mutableGraphPtr>::value;
    for (int lv = 1 + h::rnd(3); lv-- && g.n > 1;) {
        uint32_t k; V cl = grouping(g.n, k); auto uf = make_uf(cl); h::log(" groups " + h::strv(cl));
        auto H = contraction::fromUnionFind(G, &uf, copy);
        auto M = gr::matrix(H); simple(H);
        if (M.n != k) h::fail("contracted graph has " + h::str(M.n) + " vertices, there are " + h::str(k) + " groups");
        V pos(g.n); bool known = save || !mut;
        if constexpr (mut) { if (!copy) { known = true; for (uint32_t v = 0; v < g.n; ++v) pos[v] = H->getCurrentPosition(v); } }
        if (!mut || copy) { if (save) for (uint32_t v = 0; v < g.n; ++v) pos[v] = G->getPartitionIndex(v); else known = false; }
        if (known) { check_map(pos, cl, k, "partition"); gr::same(M, gr::quotient(g, pos, k), "contracted graph"); }
        else if (prof(M) != prof(gr::quotient(g, cl, k))) h::fail("the contracted graph is not the quotient");
        degrees(M, [&](uint32_t v) { return H->getWeightedNodeDegree(v); });
        if (H->number_of_edges() != M.m2()) h::fail("number_of_edges of the contracted graph");
        if (mut && copy) { gr::same(gr::matrix(G), g, "the uncontracted graph was changed"); }
        if (!mut) gr::same(gr::matrix(G), g, "the uncontracted graph was changed");
        if (mut && !copy) return;
        G = H; g = M;
    }
}
template <class GP> void mapped(const gr::Graph& g, const char* rep, int how) {
    uint32_t k; V cl = grouping(g.n, k); V perm(k); std::iota(perm.begin(), perm.end(), 0); std::shuffle(perm.begin(), perm.end(), h::rng); for (auto& c : cl) c = perm[c];
    configuration::getConfig()->save_cut = h::chance(50);
    h::begin(std::string("contractGraph") + (how ? "Sparse " : " ") + rep + " blocks " + h::strv(cl) + " " + g.str(), g.n > 3);
    auto G = gr::make<GP>(g); std::vector<V> rev(k); for (uint32_t v = 0; v < g.n; ++v) rev[cl[v]].push_back(v);
    GP H; V pos = cl;
    if (how == 1) H = contraction::contractGraphSparse(G, cl, rev);
    else { H = contraction::contractGraph(G, cl, rev);
        if (std::is_same<GP, mutableGraphPtr>::value && k * 2 > g.n) { for (uint32_t v = 0; v < g.n; ++v) pos[v] = G->getPartitionIndex(v); check_map(pos, cl, k, "partition"); } }
    gr::same(gr::matrix(H), gr::quotient(g, pos, k), "contracted graph"); simple(H);
    gr::same(gr::matrix(G), g, "the uncontracted graph was changed");
}
static void edge_ops(const gr::Graph& g) {
    auto G = gr::make_static(g); if (!G->number_of_edges()) return;
    uint32_t e = h::rnd(G->number_of_edges()); uint32_t s = G->getEdgeSource(e), t = G->getEdgeTarget(e); bool save = h::chance(50); configuration::getConfig()->save_cut = save;
    if (h::chance(50)) {
        h::begin("contractEdge " + h::str(s) + "-" + h::str(t) + " " + g.str());
        V ter; for (uint32_t v = 0; v < g.n; ++v) if (h::chance(60)) ter.push_back(v);
        auto r = contraction::contractEdge(G, std::vector<NodeID>(ter.begin(), ter.end()), e);
        V all(g.n), cl(g.n); std::iota(cl.begin(), cl.end(), 0); cl[std::max(s, t)] = std::min(s, t);
        auto r2 = contraction::contractEdge(G, [&] { std::vector<NodeID> x(g.n); std::iota(x.begin(), x.end(), 0); return x; }(), e);
        if (r2.second.size() != g.n || r.second.size() != ter.size()) h::fail("terminals returned");
        for (uint32_t v = 0; v < g.n; ++v) all[v] = r2.second[v];
        check_map(all, cl, g.n - 1, "contractEdge");
        for (size_t i = 0; i < ter.size(); ++i) if (r.second[i] != all[ter[i]]) h::fail("terminal mapping");
        gr::same(gr::matrix(r.first), gr::quotient(g, all, g.n - 1), "contracted graph");
    } else {
        h::begin("deleteEdge " + h::str(s) + "-" + h::str(t) + " " + g.str());
        auto H = contraction::deleteEdge(G, e); auto q = g; q.w[s][t] = q.w[t][s] = 0; gr::same(gr::matrix(H), q, "graph without the edge");
        if (H->number_of_edges() != q.m2()) h::fail("number_of_edges");
    }
    gr::same(gr::matrix(G), g, "the graph was changed");
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    while (h::time_left()) {
        auto g = gr::random_graph(1, h::chance(85) ? 9 : 40);
        switch (h::rnd(8)) {
        case 0: case 1: fromuf<graphAccessPtr>(g, "static", h::chance(50)); break;
        case 2: fromuf<mutableGraphPtr>(g, "mutable", false); break;
        case 3: fromuf<mutableGraphPtr>(g, "mutable", true); break;
        case 4: mapped<graphAccessPtr>(g, "static", h::rnd(2)); break;
        case 5: case 6: mapped<mutableGraphPtr>(g, "mutable", h::rnd(2)); break;
        default: edge_ops(g);
        }
    }
    h::finish("random graphs of 1 to 40 vertices, random groupings, one to three successive contractions, every sequential contraction routine on both graph types against the quotient matrix; nontrivial: more than three vertices");
}
