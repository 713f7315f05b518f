// Bounded replay harness for C01: the real union_find against a naive partition.
#include "common.h"
#include "data_structure/union_find.h"
struct Naive {
    std::vector<int> c; size_t k;
    explicit Naive(size_t n) : c(n), k(n) { for (size_t i = 0; i < n; ++i) c[i] = (int)i; }
    bool uni(int a, int b) {
        int x = c[a], y = c[b];
        if (x == y) return false;
        for (auto& v : c) if (v == y) v = x;
        --k; return true;
    }
};
static void compare(union_find& u, Naive& N, size_t n) {
    if (u.n() != N.k) h::fail("n() is " + h::str(u.n()) + ", the partition has " + h::str(N.k) + " classes");
    std::vector<uint64_t> f(n);
    for (size_t i = 0; i < n; ++i) {
        f[i] = u.Find(i);
        if (f[i] >= n) h::fail("Find returned an element out of range");
    }
    for (size_t i = 0; i < n; ++i) {
        if (N.c[f[i]] != N.c[i]) h::fail("Find(" + h::str(i) + ") is not a member of the element's class");
        if (u.Find(i) != f[i]) h::fail("Find is not stable without a Union in between");
        for (size_t j = 0; j < i; ++j)
            if ((f[i] == f[j]) != (N.c[i] == N.c[j]))
                h::fail("elements " + h::str(j) + "," + h::str(i) + ": same representative is " + h::str(f[i] == f[j]));
    }
}
static void run(size_t n, const std::vector<std::pair<int,int>>& ops, bool every) {
    std::ostringstream o; o << "n=" << n << " unions:";
    for (auto& p : ops) o << " (" << p.first << "," << p.second << ")";
    h::begin(o.str(), ops.size() > 1);
    union_find u(n); Naive N(n);
    if (every) compare(u, N, n);
    for (auto& p : ops) {
        bool want = N.uni(p.first, p.second), got = u.Union(p.first, p.second);
        if (want != got) h::fail("Union(" + h::str(p.first) + "," + h::str(p.second) + ") returned " + h::str(got));
        if (u.n() != N.k) h::fail("n() wrong after Union");
        if (every) compare(u, N, n);
    }
    compare(u, N, n);
}
static void exh(size_t n, size_t len, std::vector<std::pair<int,int>>& ops) {
    if (ops.size() == len) { run(n, ops, false); return; }
    for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < n; ++b) {
        ops.emplace_back(a, b); exh(n, len, ops); ops.pop_back();
    }
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    std::vector<std::pair<int,int>> ops;
    for (size_t n = 0; n <= 4; ++n) for (size_t l = 0; l <= (n <= 3 ? 4 : 3); ++l) exh(n, l, ops);
    exh(4, 4, ops);
    while (h::time_left()) {
        if (h::chance(3)) {              // linking roots only keeps the trees deep
            size_t n = 1u << h::rnd(5, 13), cut = h::rnd(n / 2);
            h::begin("tournament of " + h::str(n) + " elements, roots only, unions (i,i+s), offset " + h::str(cut));
            union_find u(n);
            bool sw = h::chance(50);
            size_t k = n;
            for (size_t s = 1; s < n; s *= 2) for (size_t i = 0; i < n; i += 2 * s) {
                size_t a = u.Find(i), b = u.Find(i + s);
                if (sw) std::swap(a, b);
                if (!u.Union(a, b)) h::fail("Union of two classes returned false");
                --k;
                if (u.n() != k) h::fail("n() wrong");
            }
            size_t r = u.Find(cut);
            for (size_t i = 0; i < n; ++i) if (u.Find((n - 1 - i + cut) % n) != r) h::fail("connected elements " + h::str((n - 1 - i + cut) % n) + " and " + h::str(cut) + " have different representatives");
            continue;
        }
        size_t n = h::chance(80) ? h::rnd(1, 12) : h::chance(90) ? h::rnd(13, 70) : h::rnd(250, 700);
        ops.clear();
        size_t l = n > 100 ? n * 2 : h::rnd(0, 3 * n);
        bool bal = h::chance(40);
        if (bal) {                       // tournament: forces high ranks
            for (size_t s = 1; s < n; s *= 2) for (size_t i = 0; i + s < n; i += 2 * s) {
                size_t a = i + h::rnd(s), b = i + s + h::rnd(std::min(s, n - i - s));
                if (h::chance(50)) std::swap(a, b);
                ops.emplace_back(a, b);
            }
        } else for (size_t i = 0; i < l; ++i) ops.emplace_back(h::rnd(n), h::rnd(n));
        run(n, ops, n <= 12);
    }
    h::done("all Union sequences of length <=4 over <=4 elements, then random sequences over up to 700 elements; non-trivial: more than one Union");
}
