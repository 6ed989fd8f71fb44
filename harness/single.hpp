// The same call with data type double and data type float (P34).  The double
// result is the reference; how far the float result may be from it is measured,
// not guessed: the double call is repeated on inputs moved by a rounding error of
// single precision, and the movement of its results, together with the rounding
// of results of that size, bounds the difference.
#ifndef VERIF_SINGLE_HPP
#define VERIF_SINGLE_HPP
#include "eig.hpp"
#include "gen.hpp"
namespace single {
using mon::Rng; using mon::S;
template <class F> using M = Eigen::Matrix<F, Eigen::Dynamic, Eigen::Dynamic>;
template <class F> using V = Eigen::Matrix<F, Eigen::Dynamic, 1>;
struct Out { std::string name; Mat m; bool labels; };
using Outs = std::vector<Out>;
using Ins = std::vector<Mat>;
template <class T> Out real(const char* n, const T& m) { return {n, Mat(m.template cast<double>()), false}; }
inline Out real(const char* n, double v) { return {n, Mat::Constant(1, 1, v), false}; }
template <class T> Out labels(const char* n, const T& m) { return {n, Mat(m.template cast<double>()), true}; }
// representable in single precision
inline Mat round(const Mat& m) { return m.cast<float>().cast<double>(); }
struct Res { std::string threw; Outs o; };
template <class F, class G> Res run(G& g, const Ins& in, uint64_t entropy) {
    Res q; mon::set_entropy(entropy);
    try { q.o = g(F(), in); } catch (const mon::EigenAssert&) { throw; } catch (const std::exception& e) { q.threw = e.what(); if (q.threw.empty()) q.threw = "exception"; }
    return q;
}
// fixed: bit i set = input i is not moved (counts, labels)
template <class G> void compare(mon::Ctx& c, const std::string& name, G g, const Ins& in, unsigned fixed = 0, double factor = 64, double floor = 0, double limit = 0) {
    Rng& r = c.rng; uint64_t e = r.next(); const double eps = std::ldexp(1.0, -23); c.ev(name);
    Res d = run<double>(g, in, e), s = run<float>(g, in, e);
    auto moved = [&](double by) { Ins q = in; for (size_t k = 0; k < q.size(); ++k) if (!(fixed >> k & 1)) for (long i = 0; i < q[k].size(); ++i) q[k].data()[i] += by * r.uni(-1, 1) * std::max(std::fabs(q[k].data()[i]), 1e-3); return run<double>(g, q, e); };
    std::vector<Res> fine, coarse; bool any = false; for (int k = 0; k < 4; ++k) fine.push_back(moved(eps)); for (auto& o : d.o) any = any || o.labels; if (any) for (int k = 0; k < 8; ++k) coarse.push_back(moved(k & 1 ? 1e-4 : 1e-5));
    bool steady = true; for (auto* v : {&fine, &coarse}) for (auto& q : *v) steady = steady && q.threw.empty() == d.threw.empty();
    if (!steady) { c.ev("error or result hangs on rounding: nothing to compare"); return; }
    if (!c.req(d.threw.empty() == s.threw.empty(), name + "/error", S("double: '", d.threw, "', float: '", s.threw, "'"))) return;
    if (!d.threw.empty()) { c.ev("errors in both: " + name); return; }
    if (!c.req(d.o.size() == s.o.size(), name + "/outputs", "")) return;
    c.nontrivial = true; bool wild = false;
    for (int pass = 0; pass < 2; ++pass) for (size_t k = 0; k < d.o.size(); ++k) {      // the decisions last: they mean nothing when the numbers behind them are wild
        if (d.o[k].labels != (pass == 1) || (pass == 1 && wild)) continue;
        const Mat &a = d.o[k].m, &b = s.o[k].m; const std::string n = name + "/" + d.o[k].name;
        if (!c.req(a.rows() == b.rows() && a.cols() == b.cols(), n + "-shape", S(a.rows(), "x", a.cols(), " / ", b.rows(), "x", b.cols()))) return;
        bool same = true; for (auto* v : {&fine, &coarse}) for (auto& q : *v) same = same && q.o.size() > k && q.o[k].m.rows() == a.rows() && q.o[k].m.cols() == a.cols(); if (!same) { c.ev("shape hangs on rounding"); continue; }
        double sc = floor; for (long i = 0; i < a.size(); ++i) if (std::isfinite(a.data()[i])) sc = std::max(sc, std::fabs(a.data()[i]));
        double far = 0; for (auto& q : coarse) for (long j = 0; j < a.size(); ++j) { double z = std::fabs(q.o[k].m.data()[j] - a.data()[j]); if (std::isfinite(z)) far = std::max(far, z); }
        if (!d.o[k].labels && far > 5e-3 * sc + 1e-30) { c.ev("a path that hangs on rounding"); wild = true; continue; }
        for (long i = 0; i < a.size(); ++i) {
            double x = a.data()[i], y = b.data()[i];
            if (d.o[k].labels) { bool st = true; for (auto& q : coarse) st = st && q.o[k].m.data()[i] == x; for (auto& q : fine) st = st && q.o[k].m.data()[i] == x; if (!st) { c.ev("decisions within rounding of a tie"); continue; } c.ev("decisions compared"); if (!c.req((float)x == (float)y, n, S("entry ", i, ": double ", x, " float ", y))) return; continue; }
            if (!std::isfinite(x)) { c.ev("not finite in double"); continue; }
            double mv = 0; bool fin = true; for (auto& q : fine) { double z = std::fabs(q.o[k].m.data()[i] - x); if (!std::isfinite(z)) fin = false; else mv = std::max(mv, z); } if (!fin) continue;
            double all = 0; for (auto& q : fine) for (long j = 0; j < a.size(); ++j) { double z = std::fabs(q.o[k].m.data()[j] - a.data()[j]); if (std::isfinite(z)) all = std::max(all, z); }
            if (all > 1e-3 * sc + 1e-30 || (limit > 0 && sc > limit)) { c.ev("results too sensitive to compare"); wild = true; break; }
            c.ev("numbers compared"); if (!c.req(std::fabs(x - y) <= factor * (std::max(mv, all) + eps * sc) + 1e-37, n, S("entry ", i, " of ", a.size(), ": double ", x, " float ", y, ", moves by ", mv, ", scale ", sc))) return;
        }
    }
}
// features of ordinary scale, well conditioned more often than not
inline Mat features(Rng& r, int n, int d, bool scales = true) {
    Mat X = gen::mat(r, n, d, 0); int k = r.irange(0, 4); if (k == 0) X = (X * 4).array().round() / 4; if (k == 1) X.array() += r.irange(-3, 3); if (k == 2 && scales) for (int j = 0; j < d; ++j) X.col(j) *= std::pow(10, r.uni(-1.5, 1.5)); return round(X);
}
} // namespace single
#define FN(NAME, FIXED, FACTOR, FLOOR, ...) compare(c, NAME, [&](auto f, const Ins& in) { using F = decltype(f); M<F> A = in[0].cast<F>(); (void)A; __VA_ARGS__ }, in, FIXED, FACTOR, FLOOR)
#endif
