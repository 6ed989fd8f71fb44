// entropy and Gini index of labelled samples
#include "gen.hpp"
using namespace mon;
namespace ma = openml::math;
SCENARIO(impurity, 1200, 20000) {
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 60, 3000), k = mon::dim(r, 1, 8, 60);
    int one = 1; if (mon::huge(r, n, one)) c.ev("more than 65000 samples");
    Vec x(n), w(n);
    bool weighted = r.coin();
    for (int i = 0; i < n; ++i) { x(i) = r.irange(0, k - 1) - (k > 4 ? 2 : 0) + (k == 3 ? 0.5 : 0); w(i) = r.coin(0.2) ? 0 : r.coin(0.3) ? 1 : r.u(); }
    if (r.coin(0.3)) { double u = r.coin() ? gen::near_unit(r) : std::pow(10.0, r.uni(-12, 12)), b = r.irange(-1, 1); for (int i = 0; i < n; ++i) x(i) = b + u * (int)std::floor(x(i)); c.ev("nearly equal or huge class names"); }
    if (weighted && r.coin(0.6)) w *= std::pow(10.0, r.uni(-6, 2));             // rare and heavy samples
    if (weighted && r.coin(0.2)) for (int i = 0; i < n; ++i) w(i) = x(i) == x(0) ? 0 : w(i);   // a whole class of weight 0
    if (weighted && r.coin(0.2)) w(r.irange(0, n - 1)) *= 50;
    c.mixm(x); if (weighted) c.mixm(w); c.nontrivial = n > 1;
    c.dump << "x=" << show(x) << (weighted ? " w=" + show(w) : "");
    std::map<double, long double> p;
    for (int i = 0; i < n; ++i) p[x(i)] += (weighted ? (long double)w(i) : 1.0L) / n;
    long double ent = 0, g = 1, mag = 1;
    for (auto& kv : p) { mag += kv.second * kv.second + (kv.second > 0 ? fabsl(kv.second * log2l(kv.second)) : 0); if (kv.second > 0) ent -= kv.second * log2l(kv.second); g -= kv.second * kv.second; }
    double ge = weighted ? ma::entropy<Vec>(x, w) : ma::entropy<Vec>(x), gg = weighted ? ma::gini<Vec>(x, w) : ma::gini<Vec>(x);
    c.req(std::abs(ge - (double)ent) <= 1e-11 * (double)mag, "entropy", S(ge, " want ", (double)ent));
    c.req(std::abs(gg - (double)g) <= 1e-11 * (double)mag, "gini", S(gg, " want ", (double)g));
    if (!weighted) {
        c.req(ge >= -1e-12 && ge <= std::log2((double)p.size()) + 1e-9, "entropy-range", S(ge, " with ", p.size(), " classes"));
        c.req(gg >= -1e-12 && gg <= 1 - 1.0 / p.size() + 1e-9, "gini-range", S(gg, " with ", p.size(), " classes"));
        // neither depends on the order of the samples nor on the names of the classes
        Vec y = x; r.shuffle(y.data(), y.data() + n);
        c.req(close(ma::entropy<Vec>(y), ge, 1e-11, 1e-11) && close(ma::gini<Vec>(y), gg, 1e-11, 1e-11), "order", "a permutation changed the impurity");
        { std::map<double, double> name; for (auto& kv : p) { double id = 7.25 - 3.0 * name.size(); name[kv.first] = id; } for (int i = 0; i < n; ++i) y(i) = name[y(i)]; }
        c.req(close(ma::entropy<Vec>(y), ge, 1e-11, 1e-11) && close(ma::gini<Vec>(y), gg, 1e-11, 1e-11), "renaming", "renaming the classes changed the impurity");
    }
    Vec bad = Vec::Ones(n + r.irange(1, 3));
    c.req(throws([&] { ma::entropy<Vec>(x, bad); }) && throws([&] { ma::gini<Vec>(x, bad); }), "weights-accepted", "weights of another length accepted");
    c.ev("classes", p.size());
}
