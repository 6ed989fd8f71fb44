// distances and regression scores
#include "gen.hpp"
using namespace mon;
namespace me = openml::metric;
SCENARIO(distances, 800, 15000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 20, 3000), kind = r.irange(0, 5), one; if (mon::huge(r, n, one)) c.ev("more than 65000 values");
    std::vector<double> a(n), b(n);
    for (int i = 0; i < n; ++i) { a[i] = gen::value(r, kind); b[i] = r.coin(0.15) ? a[i] : gen::value(r, kind); }
    if (r.coin(0.2)) { double f = std::pow(10.0, r.uni(2, 140) * (r.coin() ? 1 : -1)); for (auto& v : a) v *= f; for (auto& v : b) v *= f; c.ev("rescaled vectors"); }
    c.mixv(a); c.mixv(b); c.nontrivial = n > 1; c.dump << "a=" << showv(a) << " b=" << showv(b);
    long double s1 = 0, s2 = 0, si = 0;
    for (int i = 0; i < n; ++i) { long double t = fabsl((long double)a[i] - b[i]); s1 += t; s2 += t * t; si = std::max(si, t); }
    double w2 = (double)sqrtl(s2);
    Vec x = Eigen::Map<Vec>(a.data(), n), y = Eigen::Map<Vec>(b.data(), n);
    auto eq = [&](double g, long double w, const char* k) { c.req(close(g, (double)w, 1e-12, 1e-150), k, S(g, " want ", (double)w)); };
    eq(me::euclidean_distance<double>(a, b), w2, "euclidean"); eq(me::manhattan_distance<double>(a, b), s1, "manhattan");
    eq(me::minkowski_distance<Vec>(x, y, 2), w2, "minkowski2"); eq(me::minkowski_distance<Vec>(x, y, 1), s1, "minkowski1");
    eq(me::minkowski_distance<Vec>(x, y, Eigen::Infinity), si, "minkowski-inf");
    eq(me::euclidean_distance<double>(b, a), w2, "symmetry"); c.req(me::euclidean_distance<double>(a, a) == 0 && me::manhattan_distance<double>(a, a) == 0, "identity", "d(a,a) is not 0");
    Vec z = Vec::Ones(n + 1);
    c.req(throws([&] { me::minkowski_distance<Vec>(x, z, 2); }), "size-accepted", "vectors of different size accepted");
    if (n > 1) {                        // as many values, in another shape
        Mat xm = x, ym = y.transpose(); int o = r.irange(1, 2);
        c.req(throws([&] { me::minkowski_distance<Mat>(xm, ym, o); }), "shape-accepted", "a column and a row were accepted"); c.ev("shape refusals");
    }
    int p = r.coin() ? r.irange(3, 99) : -r.irange(2, 99);
    c.req(throws([&] { me::minkowski_distance<Vec>(x, y, p); }), "order-accepted", S("p=", p, " accepted"));
    c.ev("distances", 6);
}
SCENARIO(explained_variance, 600, 10000) {
    Rng& r = c.rng; int n = mon::dim(r, 2, 40, 3000), one; if (mon::huge(r, n, one)) c.ev("more than 65000 values");
    Vec y = gen::vec(r, n, r.irange(0, 5));
    if (r.coin(0.2)) y.array() += 1e6;
    y(0) += 1;                          // not constant
    double sc = std::pow(10.0, r.uni(-3, 1)), off = r.coin() ? 0 : r.gauss() * (r.coin(0.3) ? std::pow(10.0, r.uni(1, 7)) : 10);
    Vec p(n); for (int i = 0; i < n; ++i) p(i) = y(i) + sc * r.gauss() + off;
    if (r.coin(0.1)) p = y;
    double un = 1; if (r.coin(0.25)) { un = std::ldexp(1.0, r.irange(-120, 120)); y *= un; p *= un; off *= un; c.ev("rescaled targets"); }
    c.mixm(y); c.mixm(p); c.nontrivial = true; c.dump << "y=" << show(y) << " p=" << show(p);
    auto var = [&](auto f) { long double m = 0, v = 0; for (int i = 0; i < n; ++i) m += f(i); m /= n; for (int i = 0; i < n; ++i) v += (f(i) - m) * (f(i) - m); return v / n; };
    long double vy = var([&](int i) { return (long double)y(i); }), vd = var([&](int i) { return (long double)p(i) - y(i); });
    if (vy < 1e-4 * un * un) return;
    double w = (double)(1 - vd / vy), g = me::explained_variance_score<Vec>(y, p);
    // the differences are rounded at the level of the offset, and so is their mean
    double ro = 2e-16 * (std::fabs(off) + y.cwiseAbs().maxCoeff()), sl = (4 * ro * std::sqrt((double)vd) + 4 * n * ro * ro) / (double)vy;
    double am = y.cwiseAbs().maxCoeff();
    c.req(close(g, w, 1e-9, 1e-9 + 1e-14 * n * am / std::sqrt((double)vy) + sl), "value", S(g, " want ", w));
    long double ms = 0; for (int i = 0; i < n; ++i) { long double t = (long double)y(i) - p(i); ms += t * t / n; }
    c.req(close(me::mean_absolute_error<Vec>(y, p), (double)ms, 1e-13, 1e-300), "mean-squared-error", S(me::mean_absolute_error<Vec>(y, p), " want ", (double)ms));
    Vec q = p.array() + r.gauss() * 5 * un;
    c.req(close(me::explained_variance_score<Vec>(y, q), w, 1e-8, 1e-7 + 2 * sl), "shift", "a constant shift of the predictions changed the score");
    c.ev("scores", 2);
}
