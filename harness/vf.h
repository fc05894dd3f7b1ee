// Monitoring framework shared by all drivers: deterministic case generation,
// violation reporting, observation counters.
#pragma once
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>
#include <typeinfo>
#include <algorithm>
#include <limits>
#include <fstream>
#include <iostream>
#include <iomanip>

namespace vf {

inline std::uint64_t mix(std::uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
inline std::uint64_t hashStr(const std::string& s, std::uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed) {}
    std::uint64_t next() { s += 0x9e3779b97f4a7c15ULL; std::uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    // inclusive range
    long range(long lo, long hi) { return lo + long(next() % std::uint64_t(hi - lo + 1)); }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    bool chance(double p) { return unit() < p; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template <class T> void shuffle(std::vector<T>& v) {
        for (std::size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[next() % i]); }
};

struct Sink;   // output, defined in vf.cpp

struct Ctx {
    Rng rng;
    long index = 0;             // case number
    bool thorough = false;
    std::string scratch;        // private scratch directory of this process
    std::string probe;          // name of the directed case, empty otherwise
    bool interesting = false;   // set when the case is non-trivial
    std::string canonical;      // canonical text of the generated input
    std::uint64_t digest = 1469598103934665603ULL;

    void fail(const std::string& key, const std::string& msg);
    void ev(const std::string& name, long n = 1);
    void cov(const std::string& label);
    void state(std::uint64_t h);
    void note(const std::string& s) { canonical += s; canonical += ' '; }
    template <class T> void noteV(const T& v) { std::ostringstream o; o << std::setprecision(17) << v; note(o.str()); }
    void dig(const std::string& s) { digest = hashStr(s, digest); }
    void dig(double d) { char b[40]; std::snprintf(b, sizeof b, "%.12g|", d); dig(std::string(b)); }
    std::string file(const std::string& name) const { return scratch + "/" + name; }
};

struct Probe { std::string name; std::function<void(Ctx&)> fn; };
std::vector<Probe>& probes();
struct RegProbe { RegProbe(const std::string& n, std::function<void(Ctx&)> f) { probes().push_back({n, f}); } };

template <class T> std::string str(const T& v) { std::ostringstream o; o << std::setprecision(17) << v; return o.str(); }

inline bool near(double a, double b, double rel = 1e-9, double abs = 1e-12) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

// Runs f; returns "" when it returned, or the dynamic type's name of what it threw.
template <class F> std::string thrown(F f) {
    try { f(); } catch (const std::exception& e) { return std::string("std:") + typeid(e).name(); }
    catch (...) { return "other"; }
    return "";
}

// Bytes handed out by the allocator right now (0 when not available).
std::size_t liveBytes();
bool haveLiveBytes();

} // namespace vf

// The driver of a property implements this: one generated case.
void vf_case(vf::Ctx& c);

#define VF_CAT2(a, b) a##b
#define VF_CAT(a, b) VF_CAT2(a, b)
#define VF_PROBE(NAME) \
    static void VF_CAT(probe_, __LINE__)(vf::Ctx&); \
    static vf::RegProbe VF_CAT(reg_, __LINE__)(NAME, VF_CAT(probe_, __LINE__)); \
    static void VF_CAT(probe_, __LINE__)(vf::Ctx& c)
// Check inside a case. The key names the broken clause; the message the witness.
#define VF_CHECK(c, cond, key, msg) \
    do { (c).ev("checks"); if (!(cond)) { std::ostringstream o_; o_ << std::setprecision(17) << msg; (c).fail(key, o_.str()); } } while (0)
