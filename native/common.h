// Shared runtime of the native replay harnesses: seeded random choices, a time
// budget, and a record of the case being executed so that a failing input
// (wrong answer, crash, sanitizer report or hang) is always written out.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <chrono>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <fcntl.h>

namespace h {
static uint64_t seed = 1;
static double budget = 10;
static const char* outfile = "/dev/null";
static std::chrono::steady_clock::time_point t0;
static char cur[1 << 20];
static uint64_t evals = 0, nontrivial = 0;
static std::vector<std::string> samples;
static std::set<std::string> known_seen;
static std::mt19937_64 rng;
static volatile sig_atomic_t alarm_s = 20;

inline double elapsed() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}
inline bool time_left() { return elapsed() < budget; }
inline uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
inline int64_t rnd(int64_t lo, int64_t hi) { return lo + (int64_t)(rng() % (uint64_t)(hi - lo + 1)); }
inline bool chance(int pct) { return rnd(100) < (uint64_t)pct; }

inline void write_out(const char* why) {
    int fd = open(outfile, O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) {
        (void)!write(fd, "reason: ", 8);
        (void)!write(fd, why, strlen(why));
        (void)!write(fd, "\ninput:\n", 8);
        (void)!write(fd, cur, strlen(cur));
        (void)!write(fd, "\n", 1);
        close(fd);
    }
}
[[noreturn]] inline void fail(const std::string& why) {
    write_out(why.c_str());
    printf("FAIL %s\n%s\n", why.c_str(), cur);
    fflush(stdout);
    _exit(2);
}
inline void onsig(int s) {
    char b[64];
    if (s == SIGALRM) snprintf(b, sizeof b, "the operation did not finish within %d s", (int)alarm_s);
    else snprintf(b, sizeof b, "the code under test died with signal %d", s);
    write_out(b);
    _exit(2);
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
inline void onasan() { write_out("memory error in the code under test (address sanitizer)"); }
#endif
inline void at_exit_cb() { write_out("the code under test called exit()"); _exit(2); }

// describe the case about to run; also re-arms the hang watchdog
inline void begin(const std::string& s, bool interesting = true) {
    size_t n = std::min(s.size(), sizeof(cur) - 1);
    memcpy(cur, s.data(), n); cur[n] = 0;
    ++evals;
    if (interesting) ++nontrivial;
    if (interesting && samples.size() < 3) samples.push_back(s.substr(0, 300));
    alarm(alarm_s);
}
inline void note(const std::string& s) {
    size_t l = strlen(cur);
    if (l + s.size() + 1 < sizeof(cur)) memcpy(cur + l, s.c_str(), s.size() + 1);
}
inline void log(const std::string& s) { note(s + "; "); }
inline void begin() { begin("", false); }            // history built up with log(), classified by count()
inline void count(bool interesting) {
    if (interesting) { ++nontrivial; if (samples.size() < 3) samples.push_back(std::string(cur).substr(0, 300)); }
}
inline void init(int argc, char** argv) {
    if (argc > 1) seed = strtoull(argv[1], 0, 10);
    if (argc > 2) budget = atof(argv[2]);
    if (argc > 3) outfile = argv[3];
    rng.seed(seed * 0x9E3779B97F4A7C15ull + 12345);
    srand((unsigned)seed);
    t0 = std::chrono::steady_clock::now();
    for (int s : { SIGABRT, SIGFPE, SIGILL, SIGALRM }) signal(s, onsig);
#if defined(__SANITIZE_ADDRESS__)
    __asan_set_death_callback(onasan);
#else
    signal(SIGSEGV, onsig); signal(SIGBUS, onsig);
#endif
    atexit(at_exit_cb);
}
inline std::string jesc(const std::string& s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}
[[noreturn]] inline void done(const std::string& rule) {
    alarm(0);
    printf("STATS {\"evaluations\": %llu, \"nontrivial\": %llu, \"rule\": \"%s\", \"samples\": [", (unsigned long long)evals, (unsigned long long)nontrivial, jesc(rule).c_str());
    for (size_t i = 0; i < samples.size(); ++i) printf("%s\"%s\"", i ? ", " : "", jesc(samples[i]).c_str());
    printf("], \"known\": [");
    size_t i = 0;
    for (auto& k : known_seen) printf("%s\"%s\"", i++ ? ", " : "", jesc(k).c_str());
    printf("]}\n");
    fflush(stdout);
    _exit(0);
}
[[noreturn]] inline void finish(const std::string& rule) { done(rule); }
template <class T> std::string str(const T& x) { std::ostringstream o; o << x; return o.str(); }
template <class T> std::string strv(const std::vector<T>& v) {
    std::ostringstream o; o << "[";
    for (size_t i = 0; i < v.size(); ++i) o << (i ? " " : "") << v[i];
    o << "]"; return o.str();
}
}  // namespace h
