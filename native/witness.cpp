// FLAGS: -fsanitize=address -DNDEBUG
// Bounded replay harness for C07: the marked vertex set is proper and its cut weight is the returned value.
#include "mincut.h"
template <class GP, class A> void one(const gr::Graph& g, const char* rep, const char* name) {
    h::begin(std::string(rep) + " " + name + " " + mc::setup(true) + g.str(), g.n > 3);
    auto G = gr::make<GP>(g); A a; uint64_t got = a.perform_minimum_cut(G);
    mc::witness(G, g, got, name);
}
template <class GP> void all(const gr::Graph& g, const char* rep) {
    switch (h::rnd(4)) {
    case 0: one<GP, noi_minimum_cut<GP>>(g, rep, "noi"); break;
    case 1: one<GP, padberg_rinaldi<GP>>(g, rep, "padberg_rinaldi"); break;
    case 2: one<GP, matula_approx<GP>>(g, rep, "matula"); break;
    default: one<GP, viecut<GP>>(g, rep, "viecut"); break;
    }
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    while (h::time_left()) {
        auto g = gr::random_graph(2, h::chance(85) ? 9 : 40, h::chance(80));
        if (h::chance(50)) all<graphAccessPtr>(g, "static"); else all<mutableGraphPtr>(g, "mutable");
    }
    h::finish("random graphs of 2 to 40 vertices, four algorithms, both graph types; nontrivial: more than three vertices");
}
