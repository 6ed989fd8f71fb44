// numerically stable functions: sigmoid, softmax, logsumexp, gaussian log density
#include "gen.hpp"
using namespace mon;
namespace ma = openml::math;

static Mat logits(Rng& r, int n, int d) {
    Mat x(n, d);
    int k = r.irange(0, 4);
    for (int i = 0; i < n; ++i) {
        double off = k == 1 ? r.uni(-1000, 1000) : k == 2 ? r.uni(-1e5, 1e5) : 0;
        for (int j = 0; j < d; ++j)
            x(i, j) = off + (k == 3 ? r.gauss() * 800 : k == 4 ? r.irange(-40, 40) : r.gauss() * 5);
    }
    return x;
}
SCENARIO(sigmoid, 500, 8000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 8, 300), d = mon::dim(r, 1, 8, 300); if (mon::huge(r, n, d)) c.ev("more than 65000 rows");
    Mat x = logits(r, n, d); const Mat x0 = x;
    c.mixm(x); c.nontrivial = true; c.dump << "x=" << show(x);
    Mat s = ma::sigmoid<Mat>(x);
    if (!c.req(s.rows() == n && s.cols() == d, "shape", show(s))) return;
    for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) {
        long double v = x(i, j), w = 1 / (1 + expl(-v));
        if (v < 0) w = expl(v) / (1 + expl(v));
        c.ev(std::fabs(x(i, j)) > 700 ? "extreme logits" : "logits");
        c.req(s(i, j) >= 0 && s(i, j) <= 1, "range", S("sigmoid(", x(i, j), ") = ", s(i, j)));
        c.req(close(s(i, j), (double)w, 1e-12, 1e-300), "value", S("sigmoid(", x(i, j), ") = ", s(i, j), " want ", (double)w));
    }
    c.req(samem(x, x0), "input-changed", "the input was changed");
}
SCENARIO(softmax, 600, 10000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 8, 300), d = mon::dim(r, 1, 8, 300), axis = r.irange(-1, 1); if (mon::huge(r, n, d)) c.ev("more than 65000 rows");
    Mat x = logits(r, n, d);
    if (axis == 0) x = logits(r, d, n).transpose().eval();
    n = x.rows(); d = x.cols();
    c.mixm(x); c.mix(axis + 1); c.nontrivial = n * d > 1; c.dump << "axis=" << axis << " x=" << show(x);
    Mat s = ma::softmax<Mat>(x, axis);
    if (!c.req(s.rows() == n && s.cols() == d, "shape", show(s))) return;
    int lines = axis == 1 ? n : axis == 0 ? d : 1, len = axis == 1 ? d : axis == 0 ? n : n * d;
    auto at = [&](const Mat& m, int l, int k) { return axis == 1 ? m(l, k) : axis == 0 ? m(k, l) : m(k / d, k % d); };
    for (int l = 0; l < lines; ++l) {
        long double mx = -INFINITY, z = 0, tot = 0;
        for (int k = 0; k < len; ++k) mx = std::max(mx, (long double)at(x, l, k));
        for (int k = 0; k < len; ++k) z += expl(at(x, l, k) - mx);
        for (int k = 0; k < len; ++k) {
            double g = at(s, l, k), w = (double)(expl(at(x, l, k) - mx) / z);
            tot += g;
            c.req(g >= 0 && g <= 1 + 1e-15 && close(g, w, 1e-9, 1e-300), "value", S("line ", l, " position ", k, ": ", g, " want ", w));
        }
        c.req(close((double)tot, 1, 1e-12, 0), "sum", S("line ", l, " sums to ", (double)tot));
    }
    c.ev("distributions", lines);
}
SCENARIO(logsumexp, 600, 10000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 8, 300), d = mon::dim(r, 1, 8, 300), axis = r.irange(-1, 1); if (mon::huge(r, n, d)) c.ev("more than 65000 rows");
    Mat x = logits(r, n, d);
    if (axis == 0) x = logits(r, d, n).transpose().eval();
    n = x.rows(); d = x.cols();
    c.mixm(x); c.mix(axis + 1); c.nontrivial = n * d > 1; c.dump << "axis=" << axis << " x=" << show(x);
    Vec s = ma::logsumexp<Mat, Vec>(x, axis);
    int lines = axis == 1 ? n : axis == 0 ? d : 1, len = axis == 1 ? d : axis == 0 ? n : n * d;
    if (!c.req(s.size() == lines, "size", show(s))) return;
    auto at = [&](int l, int k) { return axis == 1 ? x(l, k) : axis == 0 ? x(k, l) : x(k / d, k % d); };
    for (int l = 0; l < lines; ++l) {
        long double mx = -INFINITY, z = 0;
        for (int k = 0; k < len; ++k) mx = std::max(mx, (long double)at(l, k));
        for (int k = 0; k < len; ++k) z += expl(at(l, k) - mx);
        double w = (double)(mx + logl(z));
        c.req(close(s(l), w, 1e-12, 1e-12), "value", S("line ", l, ": ", s(l), " want ", w));
    }
    c.ev("lines", lines);
    int bad = r.coin() ? r.irange(2, 9) : -r.irange(2, 9);
    c.req(throws([&] { ma::logsumexp<Mat, Vec>(x, bad); }), "axis-accepted", S("axis ", bad, " accepted"));
    Mat e = r.coin() ? Mat(0, r.irange(0, 3)) : Mat(r.irange(1, 3), 0); int ax = r.irange(-1, 1);
    c.req(throws([&] { ma::softmax<Mat>(e, ax); }), "empty-accepted", S("softmax accepted a matrix of ", e.rows(), "x", e.cols()));
}
SCENARIO(gaussian, 300, 5000) {
    Rng& r = c.rng; c.nontrivial = true;
    double x = gen::value(r, r.irange(0, 5)), u = gen::value(r, r.irange(0, 5)), v = std::pow(10.0, r.uni(-6, 6));
    if (r.coin(0.4)) { v = std::pow(10.0, r.uni(-100, 100)); u = r.coin() ? 0 : std::sqrt(v) * r.gauss() * 1e3; x = u + std::sqrt(v) * r.gauss() * 3; c.ev("extreme variances"); }
    c.mixd(x); c.mixd(u); c.mixd(v); c.dump << "x=" << x << " u=" << u << " v=" << v;
    long double z = (long double)x - u, w = -z * z / (2 * v) - 0.5L * logl(2 * 3.14159265358979323846264L * v);
    double g = ma::gaussian_fn<double>(x, u, v);
    c.req(close(g, (double)w, 1e-9, 1e-9), "value", S(g, " want ", (double)w));
    c.ev("densities");
}
