// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C04: random histories on the adjacency-list graph against an adjacency map keyed by groups of original vertices.
#include "common.h"
#include <memory>
#include "data_structure/mutable_graph.h"
#include "data_structure/graph_access.h"
typedef std::set<uint32_t> G_t;
struct Model {
    std::map<G_t, std::map<G_t, uint64_t>> adj;
    std::map<G_t, std::pair<uint32_t, bool>> attr;   // partition index, in cut
    uint32_t next = 0;
    void add(const G_t& g) { adj[g]; attr[g] = {0, false}; }
    void set(const G_t& a, const G_t& b, uint64_t w) { adj[a][b] = w; adj[b][a] = w; }
    void del(const G_t& a, const G_t& b) { adj[a].erase(b); adj[b].erase(a); }
    void remove(const G_t& a) { auto nb = adj[a]; for (auto& [b, w] : nb) adj[b].erase(a); adj.erase(a); attr.erase(a); }
    void merge(const std::set<G_t>& gs) {
        G_t u; std::map<G_t, uint64_t> out;
        for (auto& g : gs) { u.insert(g.begin(), g.end()); for (auto& [b, w] : adj[g]) if (!gs.count(b)) out[b] += w; }
        for (auto& g : gs) remove(g);
        add(u); attr[u] = {UINT32_MAX, false};
        for (auto& [b, w] : out) set(u, b, w);
    }
};
static std::string gs(const G_t& g) { std::string s = "{"; for (auto x : g) s += h::str(x) + ","; return s + "}"; }
static G_t grp(mutable_graph& G, uint32_t v) { auto c = G.containedVertices(v); G_t g(c.begin(), c.end()); if (g.size() != c.size()) h::fail("vertex " + h::str(v) + " contains an original vertex twice"); return g; }
static void compare(mutable_graph& G, const Model& M, const char* when) {
    std::string at = std::string(" (after ") + when + ")";
    size_t n = M.adj.size(), m = 0;
    if (G.number_of_nodes() != n || G.n() != n) h::fail("number_of_nodes is " + h::str(G.number_of_nodes()) + ", expected " + h::str(n) + at);
    if (G.getLastNode() != n) h::fail("getLastNode" + at);
    std::set<G_t> seen; uint64_t sum = 0, mn = ~0ull, mx = 0, mu = 0; uint32_t c = 0;
    std::vector<G_t> of(n);
    for (uint32_t v = 0; v < n; ++v) { of[v] = grp(G, v); if (!M.adj.count(of[v]) || !seen.insert(of[v]).second) h::fail("vertex " + h::str(v) + " stands for " + gs(of[v]) + at);
        if (G.isEmpty(v) != of[v].empty() || G.numContainedVertices(v) != of[v].size()) h::fail("contained count" + at);
        for (auto o : of[v]) if (G.getCurrentPosition(o) != v) h::fail("original vertex " + h::str(o) + " is contained in " + h::str(v) + " but its position is " + h::str(G.getCurrentPosition(o)) + at); }
    for (uint32_t v : G.nodes()) {
        if (v != c++) h::fail("nodes()" + at);
        auto& row = M.adj.at(of[v]); uint64_t d = 0; size_t k = 0; std::set<uint32_t> tg;
        for (auto e : G.edges_of(v)) {
            if (e != k++) h::fail("edges_of" + at);
            uint32_t t = G.getEdgeTarget(v, e); uint64_t r = G.getReverseEdge(v, e), w = G.getEdgeWeight(v, e);
            if (t >= n || t == v) h::fail("edge " + h::str(v) + "/" + h::str(e) + " leads to " + h::str(t) + at);
            if (!tg.insert(t).second) h::fail("two edges " + h::str(v) + "-" + h::str(t) + at);
            if (r >= G.get_first_invalid_edge(t) || G.getEdgeTarget(t, r) != v || G.getReverseEdge(t, r) != e || G.getEdgeWeight(t, r) != w) h::fail("reverse of edge " + h::str(v) + "/" + h::str(e) + at);
            if (G.getEdgeSource(v, e) != v || G.getEdge(v, e) != std::make_pair(t, w)) h::fail("getEdge/getEdgeSource" + at);
            auto it = row.find(of[t]);
            if (it == row.end()) h::fail("unexpected edge " + gs(of[v]) + "-" + gs(of[t]) + at);
            if (it->second != w) h::fail("edge " + gs(of[v]) + "-" + gs(of[t]) + " weighs " + h::str(w) + ", expected " + h::str(it->second) + at);
            d += w;
        }
        if (k != row.size()) h::fail("an edge of " + gs(of[v]) + " is missing" + at);
        if (G.getWeightedNodeDegree(v) != d) h::fail("weighted degree of " + h::str(v) + " is " + h::str(G.getWeightedNodeDegree(v)) + ", weights sum to " + h::str(d) + at);
        if (G.getUnweightedNodeDegree(v) != k) h::fail("unweighted degree" + at);
        m += k; sum += d; mn = std::min(mn, d); mx = std::max(mx, d); mu = std::max<uint64_t>(mu, k);
        auto& a = M.attr.at(of[v]);
        if (a.first != UINT32_MAX && (G.getPartitionIndex(v) != a.first || G.getNodeInCut(v) != a.second)) h::fail("partition index or cut side of " + h::str(v) + " changed" + at);
    }
    if (c != n) h::fail("nodes()" + at);
    if (G.number_of_edges() != m || G.m() != m) h::fail("number_of_edges is " + h::str(G.number_of_edges()) + ", stored " + h::str(m) + at);
    if (G.sumOfEdgeWeights() != sum || G.getMaxUnweightedDegree() != mu) h::fail("sums" + at);
    if (n && (G.getMinDegree() != mn || G.getMaxDegree() != mx)) h::fail("min/max degree" + at);
}
static void onecase() {
    h::begin();
    bool started = h::chance(85);
    uint32_t n = h::rnd(1, h::chance(80) ? 8 : 25);
    auto Gp = std::make_shared<mutable_graph>(); 
    Model M;
    if (started) { Gp->start_construction(n); h::log("start_construction(" + h::str(n) + ")"); }
    for (uint32_t i = 0; i < n; ++i) { if (!started || h::chance(50)) {} if (!started) { h::log("new_node()"); if (Gp->new_node() != i) h::fail("new_node id"); } M.add({i}); }
    M.next = n;
    int dens = h::rnd(5, 95);
    uint64_t big = h::chance(10) ? (1ull << 40) : h::chance(50) ? 5 : 1000;
    for (uint32_t i = 0; i < n; ++i) for (uint32_t j = i + 1; j < n; ++j) if (h::chance(dens)) {
        uint64_t w = 1 + h::rnd(big); int o = h::rnd(3);
        h::log("edge(" + h::str(i) + "," + h::str(j) + "," + h::str(w) + ")" + h::str(o));
        if (o == 0) { if (Gp->new_edge(i, j, w) != Gp->get_first_invalid_edge(i) - 1) h::fail("new_edge id"); } else if (o == 1) Gp->new_edge_order(j, i, w); else { if (h::chance(20)) { w = 1; Gp->new_edge(i, j); } else Gp->new_edge_order(i, j, w); }
        M.set({i}, {j}, w);
    }
    if (h::chance(20)) { h::log("new_edge backwards"); Gp->new_edge(0, 0, 7); if (n > 1) Gp->new_edge(1, 0, 7); Gp->new_edge_order(0, 0, 3); }
    Gp->finish_construction();
    compare(*Gp, M, "construction");
    int steps = h::rnd(1, 14); bool interesting = false;
    for (int s = 0; s < steps; ++s) {
        mutable_graph& G = *Gp; uint32_t n = G.n(); 
        if (h::chance(10)) for (uint32_t v = 0; v < n; ++v) { auto g = grp(G, v); uint32_t p = h::rnd(50); bool b = h::chance(50); G.setPartitionIndex(v, p); G.setNodeInCut(v, b); M.attr[g] = {p, b}; }
        int op = h::rnd(14); std::string nm;
        uint32_t v = n ? h::rnd(n) : 0; bool hasE = n && G.get_first_invalid_edge(v) > 0;
        uint64_t e = hasE ? h::rnd(G.get_first_invalid_edge(v)) : 0;
        uint32_t t = hasE ? G.getEdgeTarget(v, e) : 0;
        if (op == 0 && n) { uint32_t a = h::rnd(n), b = h::rnd(n); if (a == b || M.adj[grp(G, a)].count(grp(G, b))) continue;
            uint64_t w = 1 + h::rnd(big); nm = "new_edge_order(" + h::str(a) + "," + h::str(b) + "," + h::str(w) + ")"; h::log(nm); M.set(grp(G, a), grp(G, b), w); G.new_edge_order(a, b, w); }
        else if (op == 1 && hasE) { uint64_t w = h::rnd(big); nm = "setEdgeWeight(" + h::str(v) + "," + h::str(e) + "," + h::str(w) + ")"; h::log(nm); M.set(grp(G, v), grp(G, t), w); G.setEdgeWeight(v, e, w); }
        else if (op == 2 && hasE) { nm = "deleteEdge(" + h::str(v) + "," + h::str(e) + ")"; h::log(nm); M.del(grp(G, v), grp(G, t)); G.deleteEdge(v, e); }
        else if (op == 3 && n > 1) { nm = "deleteVertex(" + h::str(v) + ")"; h::log(nm); M.remove(grp(G, v)); G.deleteVertex(v); }
        else if (op == 4) { nm = "new_node()"; h::log(nm); uint32_t id = G.new_node(); if (id != n) h::fail("new_node id"); auto g = grp(G, id); if (g.size() != 1 || M.adj.count(g)) h::fail("the new vertex " + h::str(id) + " stands for " + gs(g)); 
            for (auto& kv : M.adj) if (kv.first.count(*g.begin())) h::fail("the new vertex reuses original vertex " + h::str(*g.begin())); M.add(g); }
        else if (op == 5 && hasE && n > 1) { nm = "contractEdge(" + h::str(v) + "," + h::str(e) + ")"; h::log(nm); M.merge({grp(G, v), grp(G, t)}); G.contractEdge(v, e); interesting = true; }
        else if (op == 6 && hasE && n > 1) { nm = "contractEdgeSparseTarget(" + h::str(v) + "," + h::str(e) + ")"; h::log(nm); M.merge({grp(G, v), grp(G, t)}); G.contractEdgeSparseTarget(v, e); interesting = true; }
        else if (op == 7 && n > 1) { uint32_t b = h::rnd(n); if (b == v || M.adj[grp(G, v)].count(grp(G, b))) continue; nm = "contractSparseTargetNoEdge(" + h::str(v) + "," + h::str(b) + ")"; h::log(nm); M.merge({grp(G, v), grp(G, b)}); G.contractSparseTargetNoEdge(v, b); }
        else if ((op == 8 || op == 9) && n > 1) { std::unordered_set<NodeID> S; size_t k = h::rnd(0, std::min<uint32_t>(n, 6)); nm = "contractVertexSet({"; std::set<G_t> mg; while (S.size() < k) { uint32_t x = h::rnd(n); if (S.insert(x).second) { nm += h::str(x) + ","; mg.insert(grp(G, x)); } } nm += "})"; h::log(nm); if (mg.size() > 1) M.merge(mg); G.contractVertexSet(S); interesting = true; }
        else if (op == 10) { nm = "copy"; h::log(nm); auto C = std::make_shared<mutable_graph>(G); if (C->getOriginalNodes() != G.getOriginalNodes() || C->get_partition_count() != G.get_partition_count()) h::fail("copy"); Gp = C; }
        else if (op == 11) { nm = "simplify"; h::log(nm); Model N; auto S = G.simplify(); for (uint32_t a = 0; a < n; ++a) { N.add({a}); N.attr[{a}] = {G.getPartitionIndex(a), false}; } for (uint32_t a = 0; a < n; ++a) for (auto x : G.edges_of(a)) N.set({a}, {G.getEdgeTarget(a, x)}, G.getEdgeWeight(a, x)); compare(*S, N, "simplify"); }
        else if (op == 12) { nm = "to_graph_access, from_graph_access"; h::log(nm); auto A = G.to_graph_access(); auto B = mutable_graph::from_graph_access(A); Model N; if (A->number_of_nodes() != n) h::fail("to_graph_access: n");
            for (uint32_t a = 0; a < n; ++a) N.add({a}); size_t mm = 0; for (uint32_t a = 0; a < n; ++a) { size_t q = 0; for (auto x : A->edges_of(a)) { if (q >= G.get_first_invalid_edge(a) || A->getEdgeTarget(x) != G.getEdgeTarget(a, q) || A->getEdgeWeight(x) != G.getEdgeWeight(a, q)) h::fail("to_graph_access: edges of " + h::str(a)); ++q; ++mm; N.set({a}, {A->getEdgeTarget(x)}, A->getEdgeWeight(x)); } }
            if (mm != G.m()) h::fail("to_graph_access: m"); compare(*B, N, "from_graph_access"); }
        else if (op == 13) { nm = "resetContainedvertices"; h::log(nm); Model N; std::map<G_t, G_t> f; for (uint32_t a = 0; a < n; ++a) f[grp(G, a)] = {a}; for (auto& [a, row] : M.adj) { N.adj[f[a]]; N.attr[f[a]] = M.attr[a]; for (auto& [b, w] : row) N.adj[f[a]][f[b]] = w; } M = N; G.resetContainedvertices(); if (G.getOriginalNodes() != n) h::fail("original nodes after reset"); }
        else continue;
        compare(*Gp, M, nm.c_str());
    }
    h::count(interesting);
}
static void parallel_edges() {   // a static graph with parallel edges: the mutable graph stores the total
    h::begin(); uint32_t n = h::rnd(2, 6); std::map<std::pair<uint32_t, uint32_t>, std::vector<uint64_t>> E;
    for (uint32_t i = 0; i < n; ++i) for (uint32_t j = i + 1; j < n; ++j) { size_t k = h::rnd(3); for (size_t q = 0; q < k; ++q) E[{i, j}].push_back(1 + h::rnd(9)); }
    graph_access A; A.start_construction(n, 2 * 200); Model N; for (uint32_t i = 0; i < n; ++i) N.add({i});
    size_t m = 0; for (auto& [p, ws] : E) m += 2 * ws.size();
    auto Ap = std::make_shared<graph_access>(); Ap->start_construction(n, m);
    for (uint32_t i = 0; i < n; ++i) { Ap->new_node(); for (uint32_t j = 0; j < n; ++j) { auto it = E.find({std::min(i, j), std::max(i, j)}); if (i == j || it == E.end()) continue; for (auto w : it->second) { auto e = Ap->new_edge(i, j); Ap->setEdgeWeight(e, w); h::log(h::str(i) + "-" + h::str(j) + ":" + h::str(w)); } } }
    Ap->finish_construction();
    for (auto& [p, ws] : E) { uint64_t s = 0; for (auto w : ws) s += w; if (ws.size()) N.set({p.first}, {p.second}, s); }
    auto B = mutable_graph::from_graph_access(Ap); compare(*B, N, "from_graph_access with parallel edges"); h::count(true);
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    while (h::time_left()) { onecase(); if (h::chance(10)) parallel_edges(); }
    h::finish("random histories of construction, insertion, reweighting, deletion and contraction (up to 25 vertices) against an adjacency map keyed by groups; nontrivial: histories with a contraction");
}
