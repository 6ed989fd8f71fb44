// Monitoring framework shared by all property harnesses.
//
// A harness is a set of SCENARIOs.  One execution of a scenario is a *case*: it
// draws its inputs from a case-local PRNG (a function of VERIF_SEED, the scenario
// name and the case index only), drives the real library through its public API
// and judges what it observed with an oracle.  A case that disagrees calls
// c.fail(key, ...).  Exceptions that the oracle did not allow, sanitizer reports,
// assertion failures and CPU-time overruns are violations as well.
#ifndef VERIF_MON_HPP
#define VERIF_MON_HPP
#include <cstdint>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

// Eigen's own assertions become exceptions: a failed one is reported as a
// violation of the running case, and the run goes on with the next case.
namespace mon {
struct EigenAssert : std::logic_error { using std::logic_error::logic_error; };
[[noreturn]] void eigen_assert_failed(const char* expr, const char* file, int line);
inline bool eigen_check(bool ok, const char* e, const char* f, int l) {
    if (!ok) eigen_assert_failed(e, f, l);
    return ok;
}
}
#ifndef MON_KEEP_EIGEN_ASSERT
#define eigen_assert(x) do { if (!(x)) ::mon::eigen_assert_failed(#x, __FILE__, __LINE__); } while (false)
#endif

namespace mon {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {                       // splitmix64
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * u(); }
    int irange(int a, int b) { return a + (int)(next() % (uint64_t)(b - a + 1)); }   // inclusive
    bool coin(double p = 0.5) { return u() < p; }
    double gauss() {
        double r = std::sqrt(-2 * std::log(1 - u())), t = 6.283185307179586 * u();
        return r * std::cos(t);
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
    template <class It> void shuffle(It b, It e) {
        for (auto n = e - b; n > 1; --n) std::swap(b[n - 1], b[next() % n]);
    }
};

// a size: usually lo..hi, now and then far beyond (log-uniform up to big)
inline int dim(Rng& r, int lo, int hi, int big, double p = 0.04) {
    if (!r.coin(p)) return r.irange(lo, hi);
    return (int)std::lround(std::exp(r.uni(std::log((double)hi), std::log((double)big))));
}

// rarely: as many rows as no 16-bit counter holds
inline bool huge(Rng& r, int& n, int& d, double p = 0.001) {
    if (!r.coin(p)) return false;
    n = r.irange(65000, 100000); d = r.coin(0.7) ? 1 : 2; return true;
}

struct Fail { std::string key, msg; };

struct Ctx {
    Rng rng;
    std::string scenario;
    int index = 0;
    bool thorough = false;
    // observations
    uint64_t hash = 1469598103934665603ull;
    bool nontrivial = false;
    std::ostringstream dump;            // human readable inputs (kept only for samples and failures)
    std::vector<Fail> fails;
    std::map<std::string, long> events; // what the monitors saw

    void fail(const std::string& key, const std::string& msg) {
        if (fails.size() < 8) fails.push_back({key, msg});
    }
    // require
    bool req(bool ok, const std::string& key, const std::string& msg) {
        if (!ok) fail(key, msg);
        return ok;
    }
    void ev(const std::string& n, long k = 1) { events[n] += k; }
    void mix(uint64_t v) { for (int i = 0; i < 8; ++i) { hash ^= (v >> (8 * i)) & 0xff; hash *= 1099511628211ull; } }
    void mixd(double d) { uint64_t v; std::memcpy(&v, &d, 8); mix(v); }
    template <class M> void mixm(const M& m) {
        mix(m.rows()); mix(m.cols());
        for (long j = 0; j < (long)m.cols(); ++j) for (long i = 0; i < (long)m.rows(); ++i) mixd((double)m(i, j));
    }
    template <class V> void mixv(const std::vector<V>& v) { mix(v.size()); for (auto& x : v) mixd((double)x); }
};

using Fn = void (*)(Ctx&);
struct Scenario { std::string name; int quick, thorough; Fn fn; };
std::vector<Scenario>& registry();
struct Reg { Reg(const char* n, int q, int t, Fn f) { registry().push_back({n, q, t, f}); } };

// The seed of the interposed entropy sources (random_device, system_clock, srand)
void set_entropy(uint64_t seed);

#define SCENARIO(name, quick, thorough) \
    static void sc_##name(mon::Ctx& c); \
    static mon::Reg reg_##name(#name, quick, thorough, sc_##name); \
    static void sc_##name(mon::Ctx& c)

template <class... A> std::string S(const A&... a) {
    std::ostringstream o; o.precision(17);
    (void)std::initializer_list<int>{((o << a), 0)...};
    return o.str();
}
template <class M> std::string show(const M& m, long maxel = 60) {
    std::ostringstream o; o.precision(9);
    o << m.rows() << "x" << m.cols() << "[";
    long k = 0;
    for (long i = 0; i < (long)m.rows() && k < maxel; ++i) {
        if (i) o << "; ";
        for (long j = 0; j < (long)m.cols() && k < maxel; ++j, ++k) o << (j ? " " : "") << m(i, j);
    }
    if (k >= maxel) o << " ...";
    o << "]";
    return o.str();
}
template <class V> std::string showv(const std::vector<V>& v, size_t maxel = 60) {
    std::ostringstream o; o.precision(9); o << "{";
    for (size_t i = 0; i < v.size() && i < maxel; ++i) o << (i ? " " : "") << v[i];
    if (v.size() > maxel) o << " ...";
    o << "}";
    return o.str();
}
template <class V> std::string showvv(const std::vector<std::vector<V>>& v, size_t maxel = 60) {
    std::string o = "{";
    for (size_t i = 0; i < v.size() && i < maxel; ++i) o += showv(v[i]);
    return o + "}";
}

// relative/absolute closeness
inline bool close(double a, double b, double rtol, double atol) {
    if (a == b) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
template <class A, class B> bool closem(const A& a, const B& b, double rtol, double atol) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (long j = 0; j < (long)a.cols(); ++j) for (long i = 0; i < (long)a.rows(); ++i)
        if (!close((double)a(i, j), (double)b(i, j), rtol, atol)) return false;
    return true;
}
template <class A, class B> bool samem(const A& a, const B& b) {   // bitwise-ish (NaN==NaN)
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (long j = 0; j < (long)a.cols(); ++j) for (long i = 0; i < (long)a.rows(); ++i) {
        double x = (double)a(i, j), y = (double)b(i, j);
        if (!(x == y || (std::isnan(x) && std::isnan(y)))) return false;
    }
    return true;
}
template <class A> bool finite(const A& a) {
    for (long j = 0; j < (long)a.cols(); ++j) for (long i = 0; i < (long)a.rows(); ++i)
        if (!std::isfinite((double)a(i, j))) return false;
    return true;
}
// does f throw (any std::exception other than an Eigen assertion)?
template <class F> bool throws(F&& f) {
    try { f(); } catch (const EigenAssert&) { throw; } catch (const std::exception&) { return true; }
    return false;
}
} // namespace mon
#endif
