// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C20: the clustering pipeline of VieCut on small graphs step by step, and whole runs on graphs above the size threshold.
#include "mincut.h"
typedef std::vector<std::pair<uint32_t, std::pair<uint32_t, uint64_t>>> Edges;
template <class GP> void steps(const gr::Graph& g, const char* rep) {
    bool save = h::chance(60);
    h::begin(std::string("step ") + rep + " " + mc::setup(save) + g.str(), g.n > 3);
    auto G = gr::make<GP>(g); label_propagation<GP> lp;
    std::vector<uint32_t> cl = lp.propagate_labels(G);
    if (cl.size() != g.n) h::fail("label propagation returns " + h::str(cl.size()) + " labels");
    for (auto c : cl) if (c >= g.n) h::fail("label " + h::str(c) + " is not a vertex");
    auto comp = gr::components(g);
    for (uint32_t v = 0; v < g.n; ++v) if (comp[cl[v]] != comp[v]) h::fail("vertex " + h::str(v) + " takes label " + h::str(cl[v]) + " of another component");
    auto rc = minimum_cut_helpers<GP>::remap_cluster(G, cl); auto mapping = rc.first; auto rev = rc.second;
    auto chk = [&](const char* w) {
        if (mapping.size() != g.n) h::fail(std::string(w) + ": mapping size");
        std::vector<int> seen(g.n, 0);
        for (size_t p = 0; p < rev.size(); ++p) { if (rev[p].empty()) h::fail(std::string(w) + ": empty block"); for (auto v : rev[p]) { if (v >= g.n || seen[v]++ || mapping[v] != p) h::fail(std::string(w) + ": block " + h::str(p) + " and mapping disagree about vertex " + h::str(v)); } }
        for (auto s : seen) if (s != 1) h::fail(std::string(w) + ": blocks do not cover the vertices");
        if (save) for (uint32_t v = 0; v < g.n; ++v) if (G->getPartitionIndex(v) != mapping[v]) h::fail(std::string(w) + ": partition index of vertex " + h::str(v) + " is " + h::str(G->getPartitionIndex(v)) + ", it is in block " + h::str(mapping[v]));
    };
    chk("remap_cluster");
    for (uint32_t a = 0; a < g.n; ++a) for (uint32_t b = 0; b < g.n; ++b) if ((cl[a] == cl[b]) != (mapping[a] == mapping[b])) h::fail("remap_cluster changes the clustering");
    std::vector<uint32_t> before(mapping.begin(), mapping.end());
    contraction::findTrivialCuts(G, &mapping, &rev, (int)g.mindeg());
    chk("findTrivialCuts");
    for (uint32_t a = 0; a < g.n; ++a) for (uint32_t b = 0; b < g.n; ++b) if (mapping[a] == mapping[b] && before[a] != before[b]) h::fail("findTrivialCuts merges clusters");
    std::vector<GP> gs{G}; minimum_cut_helpers<GP>::setInitialCutValues(gs);
    auto H = contraction::contractGraph(G, mapping, rev);
    auto q = gr::quotient(g, std::vector<uint32_t>(mapping.begin(), mapping.end()), rev.size());
    if (rev.size() * 2 > g.n && std::is_same<GP, mutableGraphPtr>::value) {
        // in-place style contraction numbers the vertices itself
        std::vector<uint32_t> pos(g.n); for (uint32_t v = 0; v < g.n; ++v) { pos[v] = G->getPartitionIndex(v); if (pos[v] >= rev.size()) h::fail("position out of range"); }
        for (uint32_t a = 0; a < g.n; ++a) for (uint32_t b = 0; b < g.n; ++b) if ((pos[a] == pos[b]) != (mapping[a] == mapping[b])) h::fail("contraction maps vertices of different blocks together");
        q = gr::quotient(g, pos, rev.size());
    }
    gr::same(gr::matrix(H), q, "contracted graph");
    gs.push_back(H); uint64_t cut = minimum_cut_helpers<GP>::updateCut(gs, g.mindeg());
    uint64_t want = g.mindeg(); if (q.n > 1) want = std::min(want, q.mindeg());
    if (cut != want) h::fail("updateCut returns " + h::str(cut) + ", expected " + h::str(want));
    if (save) mc::witness(G, g, cut, "updateCut");
}
// sparse large graphs: clusters joined weakly
struct Big { uint32_t n; std::vector<std::map<uint32_t, uint64_t>> a; };
static Big big() {
    Big g; g.n = h::rnd(10001, 10400); g.a.resize(g.n); int sh = h::rnd(4);
    auto E = [&](uint32_t x, uint32_t y, uint64_t w) { if (x != y) g.a[x][y] = g.a[y][x] = w; };
    uint32_t k = h::rnd(2, 400); std::vector<std::vector<uint32_t>> cs(k);
    for (uint32_t v = 0; v < g.n; ++v) cs[h::rnd(k)].push_back(v);
    for (auto& c : cs) for (size_t i = 0; i < c.size(); ++i) { E(c[i], c[(i + 1) % c.size()], gr::weight(sh)); for (int j = h::rnd(3); j--;) E(c[i], c[h::rnd(c.size())], gr::weight(sh)); }
    for (uint32_t i = 0; i + 1 < k; ++i) if (cs[i].size() && cs[i + 1].size()) for (int j = 1 + h::rnd(h::chance(50) ? 3 : 40); j--;) E(cs[i][h::rnd(cs[i].size())], cs[i + 1][h::rnd(cs[i + 1].size())], gr::weight(sh));
    return g;
}
template <class GP> GP mk(const Big& g);
template <> graphAccessPtr mk(const Big& g) { auto G = std::make_shared<graph_access>(); uint64_t m = 0; for (auto& r : g.a) m += r.size(); G->start_construction(g.n, m); for (uint32_t v = 0; v < g.n; ++v) { G->new_node(); for (auto& e : g.a[v]) G->new_edge(v, e.first, e.second); } G->finish_construction(); G->computeDegrees(); return G; }
template <> mutableGraphPtr mk(const Big& g) { auto G = std::make_shared<mutable_graph>(); G->start_construction(g.n); for (uint32_t v = 0; v < g.n; ++v) for (auto& e : g.a[v]) if (v < e.first) G->new_edge_order(v, e.first, e.second); G->finish_construction(); return G; }
template <class GP> void whole(const Big& g, const char* rep, uint64_t s) {
    bool save = h::chance(60);
    h::begin(std::string("whole ") + rep + " " + mc::setup(save) + "n=" + h::str(g.n) + " generator seed " + h::str(s));
    auto G = mk<GP>(g); viecut<GP> a; uint64_t got = a.perform_minimum_cut(G);
    configuration::getConfig()->save_cut = false;
    noi_minimum_cut<graphAccessPtr> ex; uint64_t want = ex.perform_minimum_cut(mk<graphAccessPtr>(g));
    uint64_t md = ~0ull; for (auto& r : g.a) { uint64_t d = 0; for (auto& e : r) d += e.second; md = std::min(md, d); }
    if (got < want) h::fail("returned " + h::str(got) + ", the minimum cut is " + h::str(want));
    if (got > md) h::fail("returned " + h::str(got) + " above the minimum degree " + h::str(md));
    if (save) {
        uint64_t c = 0; size_t k = 0; std::vector<char> in(g.n); for (uint32_t v = 0; v < g.n; ++v) k += in[v] = G->getNodeInCut(v);
        for (uint32_t v = 0; v < g.n; ++v) if (in[v]) for (auto& e : g.a[v]) if (!in[e.first]) c += e.second;
        if (k == 0 || k == g.n) h::fail("the marked side is not proper");
        if (c != got) h::fail("returned " + h::str(got) + " but the marked side has cut weight " + h::str(c));
    }
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    int i = 0;
    while (h::time_left()) {
        if (++i % 400 == 1) { uint64_t s = h::rng(); auto sv = h::rng; h::rng.seed(s); auto g = big(); h::rng = sv; if (h::chance(50)) whole<graphAccessPtr>(g, "static", s); else whole<mutableGraphPtr>(g, "mutable", s); }
        auto g = gr::random_graph(2, h::chance(85) ? 12 : 60, h::chance(80));
        if (h::chance(50)) steps<graphAccessPtr>(g, "static"); else steps<mutableGraphPtr>(g, "mutable");
    }
    h::finish("clustering, trivial-cut search, contraction and cut update on random graphs of 2 to 60 vertices, whole runs on clustered graphs of 10001 to 10400 vertices against the exact algorithm; nontrivial: more than three vertices");
}
