// Case-running core: deterministic RNG, verdict reporting, counters and samples.
#ifndef MON_CORE_H
#define MON_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <algorithm>
#include <sstream>
#include <iostream>
#include <stdexcept>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ULL;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double u(double a, double b) { return a + (b - a) * u(); }
    int i(int a, int b) { return a + (int)(next() % (uint64_t)((int64_t)b - a + 1)); }   // inclusive
    bool p(double pr) { return u() < pr; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t k = v.size(); k > 1; --k) std::swap(v[k - 1], v[next() % k]);
    }
};

struct CaseFail { };           // thrown after a violation was recorded: ends the case

std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

struct Ctx {
    uint64_t seed = 1;
    long idx = 0;
    bool thorough = false;
    bool verbose = false;
    std::string suite;
    Rng rng;
    std::string desc;                       // description of the current case (input)
    std::map<std::string, long> counters;   // what the monitors observed
    std::set<uint64_t> distinct;            // hashes of distinct non-trivial cases
    std::vector<std::string> samples;
    long violations = 0, nontrivial = 0, evaluations = 0, skipped = 0;

    void count(const std::string& k, long n = 1) { counters[k] += n; }
    void maxi(const std::string& k, long n) { long& c = counters["max_" + k]; if (n > c) c = n; }
    // marks the current case non-trivial; h identifies it
    void mark(uint64_t h) { nontrivial++; distinct.insert(h); }
    void fail(const std::string& key, const std::string& msg);   // records, then throws CaseFail
    void check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
};

typedef void (*SuiteFn)(Ctx&);
struct Suite {
    const char* name;
    SuiteFn fn;
    int fixed;            // the first `fixed` indices are fixed, seed-independent cases
};
std::vector<Suite>& registry();
struct Register {
    Register(const char* n, SuiteFn f, int fixed = 0) { registry().push_back(Suite{n, f, fixed}); }
};
#define SUITE(name, fixedN) static void suite_##name(Ctx&); static Register reg_##name(#name, suite_##name, fixedN); static void suite_##name(Ctx& c)

inline uint64_t hashmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdULL; }
inline uint64_t hashd(uint64_t h, double d) { uint64_t v; memcpy(&v, &d, 8); return hashmix(h, v); }
#endif
