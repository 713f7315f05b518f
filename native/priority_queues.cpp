// Bounded replay harness for C02: the five real priority queues against a map.
#include "common.h"
#include "data_structure/priority_queues/bucket_pq.h"
#include "data_structure/priority_queues/fifo_node_bucket_pq.h"
#include "data_structure/priority_queues/maxNodeHeap.h"
#include "data_structure/priority_queues/node_bucket_pq.h"
#include "data_structure/priority_queues/vecMaxNodeHeap.h"
#include <map>
#include <memory>
using Q = priority_queue_interface;
static const char* kind_name[] = {"bucket_pq", "node_bucket_pq", "fifo_node_bucket_pq", "maxNodeHeap", "vecMaxNodeHeap"};
static std::unique_ptr<Q> make(int kind, size_t n, size_t span) {
    switch (kind) {
    case 0: if (h::chance(50)) return std::make_unique<bucket_pq>(n, span); return std::make_unique<bucket_pq>(span);
    case 1: return std::make_unique<node_bucket_pq>(n, span);
    case 2: return std::make_unique<fifo_node_bucket_pq>(n, span);
    case 3: return std::make_unique<maxNodeHeap>();
    default: return std::make_unique<vecMaxNodeHeap>(n);
    }
}
struct Run {
    int kind; size_t n; uint64_t span; std::unique_ptr<Q> q; std::map<uint32_t, uint32_t> m; std::ostringstream log;
    Run(int kind, size_t n, uint64_t span) : kind(kind), n(n), span(span) {
        log << kind_name[kind] << " n=" << n << " span=" << span << ":";
        h::begin(log.str(), false);
        q = make(kind, n, span);
    }
    uint32_t best() { uint32_t b = 0; for (auto& p : m) b = std::max(b, p.second); return b; }
    void check(bool deep) {
        if (q->size() != m.size()) h::fail("size() is " + h::str(q->size()) + " with " + h::str(m.size()) + " elements stored");
        if (q->empty() != m.empty()) h::fail("empty() is " + h::str(q->empty()) + " with " + h::str(m.size()) + " elements stored");
        if (!m.empty()) {
            uint32_t b = best();
            if (q->maxValue() != b) h::fail("maxValue() is " + h::str(q->maxValue()) + ", the largest key is " + h::str(b));
            uint32_t e = q->maxElement();
            if (!m.count(e)) h::fail("maxElement() " + h::str(e) + " is not stored");
            if (m[e] != b) h::fail("maxElement() " + h::str(e) + " has key " + h::str(m[e]) + ", the largest key is " + h::str(b));
        }
        if (deep) for (size_t x = 0; x < n; ++x) {
            if (q->contains(x) != (m.count(x) > 0)) h::fail("contains(" + h::str(x) + ") is " + h::str(q->contains(x)));
            if (m.count(x) && q->getKey(x) != m[x]) h::fail("getKey(" + h::str(x) + ") is " + h::str(q->getKey(x)) + ", last set to " + h::str(m[x]));
        }
    }
    void say(const std::string& s) { log << " " << s; h::begin(log.str(), m.size() > 2); }
    void ins(uint32_t x, uint32_t k) { say("ins(" + h::str(x) + "," + h::str(k) + ")"); q->insert(x, k); m[x] = k; }
    void del(uint32_t x) { say("del(" + h::str(x) + ")"); q->deleteNode(x); m.erase(x); }
    void ext() {
        say("extract");
        uint32_t b = best(), e = q->deleteMax();
        if (!m.count(e)) h::fail("deleteMax() returned " + h::str(e) + " which is not stored");
        if (m[e] != b) h::fail("deleteMax() returned " + h::str(e) + " of key " + h::str(m[e]) + ", the largest key is " + h::str(b));
        m.erase(e);
    }
    void chg(uint32_t x, uint32_t k, int how) {
        uint32_t o = m[x];
        if (how == 1 && k <= o) how = k < o ? 2 : 0;
        else if (how == 2 && k >= o) how = k > o ? 1 : 0;
        say(std::string(how == 1 ? "inc(" : how == 2 ? "dec(" : "chg(") + h::str(x) + "," + h::str(k) + ")");
        if (how == 1) q->increaseKey(x, k); else if (how == 2) q->decreaseKey(x, k); else q->changeKey(x, k);
        m[x] = k;
    }
};
static uint32_t key(int kind, uint64_t span, int shape) {
    if (kind >= 3 && shape == 1) return h::chance(30) ? 0xffffffffu - h::rnd(3) : (uint32_t)h::rnd(uint64_t(1) << 32);
    if (shape == 2) return h::rnd(std::min<uint64_t>(span, 2) + 1);
    return h::rnd(span + 1);
}
static void random_run(int kind) {
    size_t n = h::rnd(1, h::chance(80) ? 12 : 60);
    uint64_t span = h::chance(60) ? h::rnd(0, 6) : h::rnd(0, 200);
    Run r(kind, n, span);
    int shape = h::rnd(3), wi = h::rnd(1, 8), wd = h::rnd(0, 4), we = h::rnd(0, 4), wc = h::rnd(0, 8);
    size_t steps = h::rnd(1, h::chance(70) ? 30 : 250);
    int every = h::rnd(1, 5);
    for (size_t s = 0; s < steps; ++s) {
        int w = h::rnd(wi + wd + we + wc);
        auto pick = [&]() { auto it = r.m.begin(); std::advance(it, h::rnd(r.m.size())); return it->first; };
        if (w < wi) { uint32_t x = h::rnd(n); if (!r.m.count(x)) r.ins(x, key(kind, span, shape)); }
        else if (r.m.empty()) continue;
        else if (w < wi + wd) r.del(pick());
        else if (w < wi + wd + we) r.ext();
        else r.chg(pick(), key(kind, span, shape), h::rnd(3));
        r.check(s % every == 0);
    }
    r.check(true);
    if (h::chance(50)) while (!r.m.empty()) { r.ext(); r.check(h::chance(20)); }
}
// every operation sequence over few elements and keys
static void exhaust(int kind, size_t n, uint64_t span, std::vector<int>& ops, size_t len) {
    if (ops.size() == len) {
        Run r(kind, n, span);
        for (int o : ops) {
            int t = o / 100, x = (o / 10) % 10, k = o % 10;
            if (t == 0) { if (r.m.count(x)) return; r.ins(x, k); }
            else if (t == 1) { if (!r.m.count(x)) return; r.chg(x, k, k % 3); }
            else if (t == 2) { if (!r.m.count(x)) return; r.del(x); }
            else { if (r.m.empty()) return; r.ext(); }
        }
        r.check(true);
        while (!r.m.empty()) { r.ext(); r.check(true); }
        return;
    }
    for (size_t x = 0; x < n; ++x) {
        for (uint64_t k = 0; k <= span; ++k) {
            ops.push_back(x * 10 + k); exhaust(kind, n, span, ops, len); ops.pop_back();
            ops.push_back(100 + x * 10 + k); exhaust(kind, n, span, ops, len); ops.pop_back();
        }
        ops.push_back(200 + x * 10); exhaust(kind, n, span, ops, len); ops.pop_back();
    }
    ops.push_back(300); exhaust(kind, n, span, ops, len); ops.pop_back();
}
// many elements in few buckets, drained in order
static void bulk(int kind) {
    size_t n = h::rnd(50, 2000); uint64_t span = h::rnd(0, 30);
    std::unique_ptr<Q> q; std::vector<int64_t> k(n, -1); size_t cnt = 0;
    h::begin(std::string("bulk ") + kind_name[kind] + " n=" + h::str(n) + " span=" + h::str(span));
    q = make(kind, n, span);
    for (size_t i = 0; i < n; ++i) if (h::chance(90)) { k[i] = h::rnd(span + 1); q->insert(i, k[i]); ++cnt; }
    for (size_t j = 0; j < n / 2; ++j) { size_t i = h::rnd(n); if (k[i] < 0) continue;
        if (h::chance(40)) { q->deleteNode(i); k[i] = -1; --cnt; } else { k[i] = h::rnd(span + 1); q->changeKey(i, k[i]); } }
    int64_t last = span;
    while (cnt) {
        if (q->empty() || q->size() != cnt) h::fail("size is " + h::str(q->size()) + " with " + h::str(cnt) + " elements stored");
        uint32_t e = q->deleteMax();
        if (e >= n || k[e] < 0) h::fail("deleteMax() returned an element that is not stored");
        if (k[e] > last) h::fail("deleteMax() returned keys out of order");
        last = k[e]; k[e] = -1; --cnt;
        if (h::chance(1)) for (size_t i = 0; i < n; ++i) if (k[i] > last) h::fail("a larger key than the extracted one is still stored");
    }
    if (!q->empty()) h::fail("not empty after removing everything");
}
int main(int argc, char** argv) {
    h::init(argc, argv);
    std::vector<int> ops;
    for (int k = 0; k < 5; ++k) for (size_t l = 1; l <= 3; ++l) exhaust(k, 2, 2, ops, l);
    for (int k = 0; k < 5; ++k) exhaust(k, 2, 1, ops, 4);
    while (h::time_left()) {
        for (int k = 0; k < 5; ++k) for (int i = 0; i < 20; ++i) random_run(k);
        bulk(h::rnd(5));
    }
    h::done("operation sequences on all five queues: every sequence of up to 4 operations on 2 elements, random histories of up to 250 operations on up to 60 elements with small, wide and 32-bit keys, bulk fill/change/drain of up to 2000 elements; compared with a std::map");
}
