// Shared helpers of the native conformance harnesses.
#ifndef VH_H
#define VH_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <random>
#include <sstream>
#include <csignal>
#include <unistd.h>
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace vh {
static std::string g_case;
static long g_cases = 0, g_samples = 0;
static std::set<std::string> g_failkeys;
static std::mt19937_64 rng;
static void dump() { fprintf(stderr, "LASTCASE %s\n", g_case.substr(0, 2000).c_str()); fflush(stderr); }
static void onsig(int s) { dump(); signal(s, SIG_DFL); raise(s); }
static inline void init() {
    const char* s = getenv("VERIF_SEED");
    rng.seed(s ? atoll(s) : 1);
    setvbuf(stdout, 0, _IOLBF, 0);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(dump);
    signal(SIGABRT, onsig);
    if (!__sanitizer_set_death_callback) { signal(SIGSEGV, onsig); signal(SIGFPE, onsig); }
}
static inline bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }
static inline std::string esc(const std::string& s, size_t lim = 600) {
    std::string r; char b[8];
    for (size_t i = 0; i < s.size() && r.size() < lim; i++) {
        unsigned char c = s[i];
        if (c == '\\') r += "\\\\"; else if (c >= 32 && c < 127) r += c;
        else { sprintf(b, "\\x%02x", c); r += b; }
    }
    if (r.size() >= lim) { sprintf(b, "..."); r += b; }
    return r;
}
static inline void Case(const std::string& s) { g_case = s; g_cases++; if (g_samples < 5) { g_samples++; printf("SAMPLE %s\n", s.substr(0, 300).c_str()); } }
static inline void fail(const char* key, const std::string& what) {
    std::string w = what + " [case: " + g_case + "]";
    for (auto& c : w) if (c == '\n') c = ' ';
    if (g_failkeys.insert(key).second) printf("FAIL key=%s %s\n", key, w.c_str());
}
static inline int done() { printf("CASES %ld\nDONE\n", g_cases); fflush(stdout); return g_failkeys.empty() ? 0 : 1; }
static inline uint64_t rnd(uint64_t n) { return n ? rng() % n : 0; }
static inline std::string rbytes(size_t n) { std::string s(n, 0); for (auto& c : s) c = (char)rng(); return s; }
static inline std::string rfrom(const std::string& alpha, size_t n) { std::string s(n, 0); for (auto& c : s) c = alpha[rnd(alpha.size())]; return s; }
template <class T> static inline std::string S(const T& t) { std::ostringstream o; o << t; return o.str(); }
}
#define CHK(cond, key, what) do { if (!(cond)) vh::fail(key, what); } while (0)
#endif
