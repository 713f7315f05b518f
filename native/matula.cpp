// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C21: minimum cut <= returned value <= 2 * minimum cut + 1, and the value is that of a cut.
#include "mincut.h"
template <class GP> void one(const gr::Graph& g, const char* rep) {
    bool save = h::chance(50);
    h::begin(std::string(rep) + " " + mc::setup(save) + g.str(), g.n > 3);
    auto G = gr::make<GP>(g); matula_approx<GP> a; uint64_t got = a.perform_minimum_cut(G), want = gr::mincut(g);
    if (got < want) h::fail("returned " + h::str(got) + ", below the minimum cut " + h::str(want));
    if (got > 2 * want + 1) h::fail("returned " + h::str(got) + ", the minimum cut is " + h::str(want));
    if (save) mc::witness(G, g, got, "matula");
    if (g.n <= 12 && !save) {
        bool any = false; for (uint32_t s = 1; s < (1u << (g.n - 1)) && !any; ++s) { std::vector<char> in(g.n, 0); for (uint32_t v = 0; v + 1 < g.n; ++v) in[v] = s >> v & 1; any = g.cut(in) == got; }
        if (!any) h::fail("no cut has the returned weight " + h::str(got));
    }
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    while (h::time_left()) {
        auto g = gr::random_graph(2, h::chance(85) ? 9 : 40, h::chance(80));
        if (h::chance(50)) one<graphAccessPtr>(g, "static"); else one<mutableGraphPtr>(g, "mutable");
    }
    h::finish("random graphs of 2 to 40 vertices, both graph types; nontrivial: more than three vertices");
}
