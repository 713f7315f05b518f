// FLAGS: -DNDEBUG -pthread
// Bounded replay harness for C17: the concurrent union-find of the tree, every access to the shared arrays a scheduling point of a seeded
// cooperative scheduler, so that interleavings of finds and unions are chosen (and replayed) deterministically.
#include "common.h"
#include <ucontext.h>
#include <cassert>
#include <memory>
static void point();
namespace std {
template <class T> struct vp_ref { T* p; operator T() const { point(); return *p; } vp_ref& operator=(T v) { point(); *p = v; return *this; } vp_ref& operator=(const vp_ref& o) { T v = o; point(); *p = v; return *this; } struct ptr { T* p; }; ptr operator&() const { return ptr{p}; } };
template <class T> struct vp_vector { std::vector<T> v; vp_vector() { } explicit vp_vector(size_t n) : v(n) { } vp_vector(size_t n, T x) : v(n, x) { } vp_ref<T> operator[](size_t i) { if (i >= v.size()) h::fail("index " + h::str(i) + " out of range"); return vp_ref<T>{&v[i]}; } T operator[](size_t i) const { point(); return v[i]; } size_t size() const { return v.size(); } void resize(size_t n) { v.resize(n); } auto begin() { return v.begin(); } auto end() { return v.end(); } auto begin() const { return v.begin(); } auto end() const { return v.end(); } void emplace_back(T x) { v.push_back(x); } void push_back(T x) { v.push_back(x); } };
template <> struct vp_vector<bool> : std::vector<bool> { using std::vector<bool>::vector; };
}
template <class P, class A, class B> bool vp_cas(P q, A a, B b) { unsigned x = a, y = b; point(); if (*q.p == x) { *q.p = y; return true; } return false; }
template <class P, class A, class B> unsigned vp_cas_val(P q, A a, B b) { unsigned x = a, y = b; point(); unsigned o = *q.p; if (o == x) *q.p = y; return o; }
#define vector vp_vector
#define __sync_bool_compare_and_swap vp_cas
#define __sync_val_compare_and_swap vp_cas_val
#include "tlx/logger.hpp"
#include "parallel/data_structure/union_find.h"
#undef vector
// ---- fibers
struct Fiber { ucontext_t c; std::vector<char> stack; bool done = false; std::function<void()> f; };
static std::vector<Fiber*> fibers; static int cur = -1; static ucontext_t mainc; static uint64_t steps; static bool on = false;
static void point() { if (!on || cur < 0) return; ++steps; swapcontext(&fibers[cur]->c, &mainc); }
static void entry() { fibers[cur]->f(); fibers[cur]->done = true; swapcontext(&fibers[cur]->c, &mainc); }
struct Op { int kind; unsigned a, b; bool ret = false; unsigned res = 0; };
static std::vector<unsigned> closure(unsigned n, const std::vector<std::vector<Op>>& ops) {
    std::vector<unsigned> c(n); for (unsigned i = 0; i < n; ++i) c[i] = i;
    for (auto& t : ops) for (auto& o : t) if (o.kind == 0) { unsigned x = c[o.a], y = c[o.b]; for (auto& z : c) if (z == x) z = y; }
    return c;
}
static void one() {
    unsigned n = h::rnd(2, h::chance(70) ? 5 : 12), T = h::rnd(2, 4); std::vector<std::vector<Op>> ops(T);
    union_find uf(n); std::string s = "n=" + h::str(n) + " before:";
    std::vector<std::vector<Op>> pre(1); for (int i = h::rnd(3); i--;) { Op o{0, (unsigned)h::rnd(n), (unsigned)h::rnd(n)}; pre[0].push_back(o); uf.Union(o.a, o.b); s += " U" + h::str(o.a) + "," + h::str(o.b); }
    for (unsigned t = 0; t < T; ++t) { s += " | thread " + h::str(t) + ":"; for (int i = 1 + h::rnd(4); i--;) { Op o{h::chance(65) ? 0 : h::chance(60) ? 1 : 2, (unsigned)h::rnd(n), (unsigned)h::rnd(n)}; ops[t].push_back(o); s += std::string(" ") + "UFS"[o.kind] + h::str(o.a) + (o.kind == 1 ? "" : "," + h::str(o.b)); } }
    std::string sched; h::begin(s, T > 1);
    auto c0 = closure(n, pre); auto all = pre; for (auto& t : ops) all.push_back(t); auto c1 = closure(n, all);
    fibers.clear(); static std::vector<std::unique_ptr<Fiber>> pool; while (pool.size() < T) { pool.emplace_back(new Fiber); pool.back()->stack.resize(256 << 10); }
    for (unsigned t = 0; t < T; ++t) {
        Fiber* f = pool[t].get(); f->done = false; fibers.push_back(f);
        f->f = [&, t]() { for (auto& o : ops[t]) { if (o.kind == 0) o.ret = uf.Union(o.a, o.b); else if (o.kind == 1) o.res = uf.Find(o.a); else o.ret = uf.SameSet(o.a, o.b); } };
        getcontext(&f->c); f->c.uc_stack.ss_sp = f->stack.data(); f->c.uc_stack.ss_size = f->stack.size(); f->c.uc_link = &mainc; makecontext(&f->c, entry, 0);
    }
    steps = 0; on = true; int stick = h::rnd(4); unsigned last = 0;
    while (true) {
        std::vector<unsigned> run; for (unsigned t = 0; t < T; ++t) if (!fibers[t]->done) run.push_back(t);
        if (run.empty()) break;
        unsigned t = run[h::rnd(run.size())]; if (!fibers[last]->done && stick && h::rnd(4) < (uint64_t)stick) t = last;
        last = t; if (sched.size() < 4000) sched += (char)('0' + t);
        cur = t; swapcontext(&mainc, &fibers[t]->c); cur = -1;
        if (steps > 20000) { on = false; h::note("\nschedule " + sched.substr(0, 400)); h::fail("the operations do not finish (parent links form a cycle)"); }
    }
    on = false; h::note("\nschedule " + sched);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) { bool q = uf.Find(i) == uf.Find(j); if (q != (c1[i] == c1[j])) h::fail("elements " + h::str(i) + " and " + h::str(j) + (q ? " are joined although no union connects them" : " are not joined although the unions connect them")); if (uf.SameSet(i, j) != q) h::fail("SameSet"); }
    for (unsigned i = 0; i < n; ++i) if (c1[uf.Find(i)] != c1[i]) h::fail("representative of another class");
    unsigned k0 = 0, k1 = 0, merged = 0; for (unsigned i = 0; i < n; ++i) { k0 += c0[i] == i; k1 += c1[i] == i; }
    for (auto& t : ops) for (auto& o : t) { if (o.kind == 0) merged += o.ret; else if (o.kind == 1) { if (o.res >= n || c1[o.res] != c1[o.a]) h::fail("Find(" + h::str(o.a) + ") returned " + h::str(o.res)); } else if (o.ret ? c1[o.a] != c1[o.b] : c0[o.a] == c0[o.b]) h::fail("SameSet(" + h::str(o.a) + "," + h::str(o.b) + ") returned " + h::str(o.ret)); }
    if (merged != k0 - k1) h::fail(h::str(merged) + " unions report a merge, the number of classes dropped by " + h::str(k0 - k1));
    if (uf.n() != k1) h::fail("n() is " + h::str(uf.n()) + ", there are " + h::str(k1) + " classes");
}
int main(int argc, char** argv) {
    h::init(argc, argv); while (h::time_left()) one();
    h::finish("2 to 4 threads of 1 to 4 operations on 2 to 12 elements under a seeded scheduler that may switch at every access to the shared arrays: result of every operation and the final partition; nontrivial: all");
}
