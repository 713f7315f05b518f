// Shared driver of the cut-value harnesses (C06 exact value, C07 witness, C20 VieCut, C21 Matula).
#pragma once
#include "graphs.h"
#include "algorithms/global_mincut/noi_minimum_cut.h"
#include "algorithms/global_mincut/padberg_rinaldi.h"
#include "algorithms/global_mincut/matula_approx.h"
#include "algorithms/global_mincut/viecut.h"
namespace mc {
inline std::string setup(bool save) {
    auto c = configuration::getConfig(); static const char* pqs[] = {"default", "bqueue", "heap", "bstack"};
    c->pq = pqs[h::rnd(4)]; c->disable_limiting = h::chance(30); c->save_cut = save; c->verbose = false;
    uint64_t s = h::rnd(1000000); random_functions::setSeed(s);
    return "pq=" + c->pq + " disable_limiting=" + h::str(c->disable_limiting) + " save_cut=" + h::str(save) + " seed=" + h::str(s) + " ";
}
template <class GP> void witness(GP G, const gr::Graph& g, uint64_t val, const char* alg) {
    std::vector<char> in(g.n); size_t k = 0; for (uint32_t v = 0; v < g.n; ++v) k += in[v] = G->getNodeInCut(v);
    if (k == 0 || k == g.n) h::fail(std::string(alg) + ": marked side has " + h::str(k) + " of " + h::str(g.n) + " vertices");
    uint64_t c = g.cut(in); if (c != val) h::fail(std::string(alg) + ": returned " + h::str(val) + " but the marked side has cut weight " + h::str(c));
}
}
