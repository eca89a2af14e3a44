// Monitoring runtime shared by all harnesses: seeded randomness, counters of what the oracles
// observed, failure reporting, attribution of sanitizer deaths to the case that was running.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <array>
#include <exception>
#include <stdexcept>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace mon {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() { // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int range(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); } // inclusive
    bool coin(int num = 1, int den = 2) { return int(next() % den) < num; }
    double uni(double a = 0, double b = 1) { return a + (b - a) * (double(next() >> 11) / 9007199254740992.0); }
    double sym() { return uni(-1, 1); }
    template<class C> auto& pick(C& c) { return c[next() % c.size()]; }
    template<class C> void shuffle(C& c) { for (size_t i = c.size(); i > 1; --i) std::swap(c[i-1], c[next() % i]); }
};

inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
    const unsigned char* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

struct Mon {
    uint64_t seed = 1; bool thorough = false; long only_case = -1; long skip_to = 0;
    std::string section;
    long cur_case = -1; char cur_desc[1024] = "(setup)"; char cur_key[256] = "";
    long evals = 0, checks = 0, nfail = 0;
    std::unordered_set<uint64_t> distinct_set;
    std::map<std::string, long> observed;
    std::map<std::string, double> maxima;
    std::vector<std::string> samples;
    std::map<std::string, long> fail_per_key;

    // number of cases for a tier
    long cases(long quick, long thorough_n) const { return thorough ? thorough_n : quick; }
    Rng rng_for(long c) const { return Rng(seed * 1000003ull + hash_str(section) + uint64_t(c) * 7919ull); }

    void desc(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        va_list ap; va_start(ap, fmt); vsnprintf(cur_desc, sizeof cur_desc, fmt, ap); va_end(ap);
    }
    // finding-key refinement for crashes in the current case
    void key(const std::string& k) { snprintf(cur_key, sizeof cur_key, "%s", k.c_str()); }
    void eval(long n = 1) { evals += n; }
    void distinct(const std::string& s) { distinct_set.insert(hash_str(s)); }
    void distinct(uint64_t h) { distinct_set.insert(h); }
    void obs(const std::string& name, long n = 1) { observed[name] += n; }
    void maxi(const std::string& name, double v) { auto& m = maxima[name]; if (v > m) m = v; }
    void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
    void fail(const std::string& key, const char* fmt, ...) __attribute__((format(printf, 3, 4))) {
        ++nfail;
        long& n = fail_per_key[key]; ++n;
        if (n > 3 || fail_per_key.size() > 200) return;
        char buf[4096]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        for (char* p = buf; *p; ++p) if (*p == '\n' || *p == '\t') *p = ' ';
        printf("FAIL\t%s\tcase=%ld\t%s | %s\n", key.c_str(), cur_case, cur_desc, buf); fflush(stdout);
    }
    bool check(bool ok, const std::string& key, const char* fmt, ...) __attribute__((format(printf, 4, 5))) {
        ++checks;
        if (ok) return true;
        char buf[3000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
        fail(key, "%s", buf);
        return false;
    }
    // |got-want| <= tol, NaN fails
    bool close(double got, double want, double tol, const std::string& key, const char* what, long i = -1, long j = -1) {
        ++checks;
        double d = std::fabs(got - want);
        if (tol > 0 && d / tol > 1e-9) maxi("max_err_over_tol", d / tol);
        if (d <= tol) return true;
        fail(key, "%s[%ld,%ld]: got %.17g want %.17g (|diff| %.3g > tol %.3g)", what, i, j, got, want, d, tol);
        return false;
    }
};
extern Mon* g_mon;

using SecFn = void (*)(Mon&);
struct Reg {
    static std::vector<std::pair<std::string, SecFn>>& all() { static std::vector<std::pair<std::string, SecFn>> v; return v; }
    Reg(const char* n, SecFn f) { all().push_back({n, f}); }
};
#define SECTION(name) static void sec_##name(mon::Mon& m); static mon::Reg reg_##name(#name, sec_##name); static void sec_##name(mon::Mon& m)

// Runs body(i, rng) for the cases of the section. An exception that escapes a case is a failure of that case.
template<class F> void run_cases(Mon& m, long n, F&& body, const char* exc_key = "unexpected-exception") {
    for (long c = 0; c < n; ++c) {
        if (m.only_case >= 0 ? c != m.only_case : c < m.skip_to) continue;
        m.cur_case = c; snprintf(m.cur_desc, sizeof m.cur_desc, "case %ld", c); m.cur_key[0] = 0;
        Rng r = m.rng_for(c);
        try { body(c, r); }
        catch (const std::exception& e) {
            std::string k = exc_key; if (m.cur_key[0]) k += std::string(":") + m.cur_key;
            m.fail(k, "exception: %s", e.what()); }
    }
}
template<class F> bool throws(F&& f) { try { f(); } catch (...) { return true; } return false; }

inline std::string fmt(const char* f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
int main_impl(int argc, char** argv);
} // namespace mon
using mon::Mon; using mon::Rng; using mon::run_cases; using mon::fmt;
