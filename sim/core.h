// Basic utilities: PRNG, hashing, text encoding of scenario arguments.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <algorithm>

typedef uint64_t u64;
typedef uint32_t u32;

// splitmix64: every choice of a run comes from one of these, seeded from (VERIF_SEED, property, run).
struct Rng {
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() {
        u64 z = (s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }
    u64 below(u64 n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + (int)below((u64)(hi - lo + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    Rng fork() { return Rng(next()); }
};

inline u64 mix64(u64 z) { Rng r(z); return r.next(); }

inline u64 fnv(const void *d, size_t n, u64 h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char *)d;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; }
    return h;
}
inline u64 fnvs(const std::string &s, u64 h = 1469598103934665603ULL) {
    h = fnv(s.data(), s.size(), h);
    return h ^ (h >> 29);
}

inline std::string pct(const std::string &s) {
    std::string r;
    char b[8];
    for (unsigned char c : s) {
        if (c > 0x20 && c < 0x7f && c != '%' && c != ',' && c != ';') r += (char)c;
        else { snprintf(b, sizeof b, "%%%02x", c); r += b; }
    }
    return r;
}
inline std::string unpct(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size() + 0 + 1 && i + 2 <= s.size() - 1) {
            r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16);
            i += 2;
        } else r += s[i];
    }
    return r;
}
inline std::vector<std::string> splitc(const std::string &s, char c) {
    std::vector<std::string> v;
    size_t b = 0;
    for (;;) {
        size_t e = s.find(c, b);
        if (e == std::string::npos) { v.push_back(s.substr(b)); return v; }
        v.push_back(s.substr(b, e - b));
        b = e + 1;
    }
}
inline std::string fmt(const char *f, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
inline std::string dbl(double d) { char b[64]; snprintf(b, sizeof b, "%.17g", d); return b; }
#endif
