// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C11: METIS files written by an independent writer, read back into both graph types, and round trips.
#include "graphs.h"
#include <sstream>
#include <fstream>
#include "io/graph_io.h"
static std::string file;
static std::string sep() { if (h::chance(85)) return " "; return h::chance(50) ? "\t" : std::string(1 + h::rnd(4), ' '); }
static std::string comment() { static const char* c[] = {"%\n", "% a comment\n", "%1 2 3\n", "% 4 1 1 \n"}; return h::chance(12) ? c[h::rnd(4)] : ""; }
static void put(const std::string& s) { std::ofstream f(file, std::ios::binary); f << s; }
static uint64_t big(uint64_t w) { return w; }
template <class G> void parse() {
    auto g = gr::random_graph(1, h::chance(85) ? 9 : 60); bool wide = h::chance(10); int f = h::rnd(5), fmt = f == 0 ? 0 : f == 1 ? 10 : f == 2 ? 11 : 1; bool ew = fmt % 10 == 1, vw = fmt / 10 == 1, loops = h::chance(15), crlf = h::chance(10);
    if (wide) for (uint32_t a = 0; a < g.n; ++a) for (uint32_t b = 0; b < a; ++b) if (g.w[a][b]) g.w[a][b] = g.w[b][a] = (1ull << 33) + h::rnd(1000);
    if (!ew) for (auto& r : g.w) for (auto& x : r) x = x > 0;
    std::string nl = crlf ? "\r\n" : "\n", s; for (int i = 2; i--;) s += comment();
    s += h::str(g.n) + sep() + h::str(g.m2() / 2); if (fmt || h::chance(30)) s += sep() + (h::chance(30) ? (fmt < 10 ? "00" : "0") : "") + h::str(fmt); s += nl;
    for (uint32_t v = 0; v < g.n; ++v) {
        for (int i = 2; i--;) s += comment();
        std::string l; if (h::chance(10)) l += std::string(1 + h::rnd(3), ' ');
        bool first = true; auto tok = [&](uint64_t x) { if (!first) l += sep(); first = false; l += h::str(x); };
        if (vw) tok(h::rnd(1, 20));
        std::vector<uint32_t> t; for (uint32_t u = 0; u < g.n; ++u) if (g.w[v][u] || (loops && u == v)) t.push_back(u);
        std::shuffle(t.begin(), t.end(), h::rng);
        for (auto u : t) { tok(u + 1); if (ew) tok(u == v ? h::rnd(1, 9) : big(g.w[v][u])); }
        if (h::chance(30)) l += std::string(1 + h::rnd(2), ' ');
        s += l; if (v + 1 < g.n || h::chance(90)) s += nl; else if (l.empty()) s += nl;
    }
    h::begin("file:\n" + s, g.n > 3); put(s);
    auto G_ = graph_io::readGraphWeighted<G>(file);
    gr::same(gr::matrix(G_), g, "graph read"); if (G_->number_of_edges() != g.m2()) h::fail("number_of_edges " + h::str(G_->number_of_edges()));
    for (uint32_t v = 0; v < g.n; ++v) if (G_->getWeightedNodeDegree(v) != g.deg(v)) h::fail("weighted degree of " + h::str(v));
}
template <class GP, class G> void trip() {
    auto g = gr::random_graph(1, h::chance(85) ? 9 : 60); if (h::chance(10)) for (uint32_t a = 0; a < g.n; ++a) for (uint32_t b = 0; b < a; ++b) if (g.w[a][b]) g.w[a][b] = g.w[b][a] = (1ull << 40) + h::rnd(1000);
    bool unw = std::is_same<G, graph_access>::value && h::chance(30);
    h::begin(std::string("round trip") + (unw ? " unweighted " : " ") + g.str(), g.n > 3); auto G_ = gr::make<GP>(g);
    if constexpr (std::is_same<G, graph_access>::value) { if (unw) graph_io::writeGraph(G_, file); else graph_io::writeGraphWeighted(G_, file); }
    else graph_io::writeGraphWeighted(G_, file);
    if (unw) for (auto& r : g.w) for (auto& x : r) x = x > 0;
    if (h::chance(50)) gr::same(gr::matrix(graph_io::readGraphWeighted<graph_access>(file)), g, "graph read back"); else gr::same(gr::matrix(graph_io::readGraphWeighted<mutable_graph>(file)), g, "graph read back");
}
int main(int argc, char** argv) {
    h::init(argc, argv); char d[] = "metis_XXXXXX.txt"; int fd = mkstemps(d, 4); if (fd >= 0) close(fd); file = d;
    if (!freopen("/dev/null", "w", stderr)) return 3;
    while (h::time_left()) switch (h::rnd(4)) { case 0: parse<graph_access>(); break; case 1: parse<mutable_graph>(); break; case 2: trip<graphAccessPtr, graph_access>(); break; default: trip<mutableGraphPtr, mutable_graph>(); }
    unlink(file.c_str());
    h::finish("METIS files of 1 to 60 vertices, unweighted / edge weights / vertex weights, comments, blanks, tabs, CRLF, isolated vertices, self-loops, and write-read round trips, both graph types; nontrivial: more than three vertices");
}
