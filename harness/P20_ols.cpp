// LinearRegression and RidgeRegression against an independent long-double solution of their defining equations
#include "eig.hpp"
#include "gen.hpp"
#include <src/methods/linear_model/linear_regression.hpp>
#include <src/methods/linear_model/ridge_regression.hpp>
using namespace mon;
namespace lm = openml::linear_model;
static Mat aug(const Mat& X, bool b) { Mat A(X.rows(), X.cols() + b); for (long i = 0; i < X.rows(); ++i) { for (long j = 0; j < X.cols(); ++j) A(i, j) = X(i, j); if (b) A(i, X.cols()) = 1; } return A; }
static double cond2(const ref::LM& g) { ref::LM a = g, v; std::vector<long double> w; ref::symeig(a, w, v); long double hi = 0, lo = INFINITY; for (auto e : w) { hi = std::max(hi, e); lo = std::min(lo, e); } return lo <= 0 ? INFINITY : (double)(hi / lo); }
template <class M> static void judge(Ctx& c, M& m, const Mat& X, const Vec& y, bool b, double lam) {
    Rng& r = c.rng; const Mat X0 = X; const Vec y0 = y; Mat A = aug(X, b); int n = A.rows(), d = A.cols();
    c.mixm(X); c.mixm(y); c.mix(b); c.mixd(lam); c.nontrivial = d > 1; c.dump << " intercept=" << b << " lambda=" << lam << " X=" << show(X) << " y=" << show(y);
    ref::LM g(d, std::vector<long double>(d, 0)); std::vector<long double> rhs(d, 0);
    for (int p = 0; p < d; ++p) { for (int q = 0; q < d; ++q) for (int i = 0; i < n; ++i) g[p][q] += (long double)A(i, p) * A(i, q); g[p][p] += lam; for (int i = 0; i < n; ++i) rhs[p] += (long double)A(i, p) * y(i); }
    double k = cond2(g); if (!(k < 1e6)) { c.nontrivial = false; c.ev("skipped: nearly rank deficient"); return; }
    auto w = ref::solve(g, rhs); long double wn = 0, hi = 0; for (auto v : w) wn += v * v; long double yn = 0; for (int i = 0; i < n; ++i) yn += (long double)y(i) * y(i); for (int p = 0; p < d; ++p) hi = std::max(hi, g[p][p]); long double rn = 0; for (int p = 0; p < d; ++p) { long double s = 0; for (int i = 0; i < n; ++i) s += fabsl((long double)A(i, p) * y(i)); rn += s * s; }
    m.fit(X, y); Mat W = m.get_coef(); c.ev("fits"); c.req(samem(X, X0) && samem(y, y0), "input-changed", "fit changed its data");
    if (!c.req(W.rows() == d && W.cols() == 1, "coef-shape", show(W))) return;
    double tol = 2e-15 * d * n * k * (double)(sqrtl(wn) + k * (sqrtl(rn) / hi + sqrtl(yn / hi))) + 1e-300; /* normal equations through an explicit inverse, or an orthogonal factorisation */
    for (int j = 0; j < d; ++j) if (!c.req(std::fabs(W(j, 0) - (double)w[j]) <= tol, "coef", S("weight ", j, ": ", W(j, 0), " want ", (double)w[j], " (condition ", k, ")"))) return;
    // predictions on new rows
    int nt = mon::dim(r, 1, 6, 200); Mat T = gen::mat(r, nt, X.cols(), r.irange(0, 5)); const Mat T0 = T; Vec p = m.predict(T); if (!c.req(p.size() == nt, "predict-size", show(p))) return;
    for (int i = 0; i < nt; ++i) { long double s = b ? W(d - 1, 0) : 0, a = fabsl(s); for (int j = 0; j < X.cols(); ++j) { s += (long double)T(i, j) * W(j, 0); a += fabsl((long double)T(i, j) * W(j, 0)); } c.ev("predictions"); c.req(std::fabs(p(i) - (double)s) <= 1e-14 * (d + 1) * (double)a + 1e-300, "predict", S("row ", i, ": ", p(i), " want ", (double)s)); }
    c.req(samem(T, T0) && samem(m.get_coef(), W), "predict-changes", "predict changed its input or the model");
}
static void design(Ctx& c, Mat& X, Vec& y, bool b, bool any, double& sc) {
    sc = 1;
    Rng& r = c.rng; int d = mon::dim(r, 1, 8, 40, 0.02), n = (any && r.coin(0.3)) ? r.irange(1, d) : mon::dim(r, d + b, d + 25, d + 800, 0.02); if (mon::huge(r, n, d)) c.ev("more than 65000 rows");
    if (any && r.coin(0.4)) X = gen::data(r, n, d);
    else if (r.coin(0.5)) X = gen::mat(r, n, d, r.coin() ? 0 : 1);
    else { std::vector<double> s; for (int j = 0; j < std::min(n, d); ++j) s.push_back(std::pow(10, r.uni(-1.5, 1.5))); X = gen::with_singular(r, n, d, s); for (int j = 0; j < d; ++j) X.col(j).array() += r.coin(0.3) ? r.gauss() * 5 : 0; }
    if (r.coin(0.3)) { Vec t = gen::vec(r, d, 0); y.resize(n); for (int i = 0; i < n; ++i) { y(i) = b ? 3.5 : 0; for (int j = 0; j < d; ++j) y(i) += X(i, j) * t(j); } c.ev("noiseless"); }
    else y = gen::vec(r, n, r.irange(0, 5));
    if (!b && r.coin(0.35)) { sc = std::pow(10, r.uni(-9, 9)); X *= sc; if (r.coin()) y *= std::pow(10, r.uni(-9, 9)); c.ev("rescaled designs"); }
}
SCENARIO(linear, 20000, 60000) {
    bool b = c.rng.coin(0.6); Mat X; Vec y; double sc; design(c, X, y, b, false, sc); if (b && c.rng.coin(0.3)) { lm::LinearRegression<double> m; judge(c, m, X, y, true, 0); } else { lm::LinearRegression<double> m(b); judge(c, m, X, y, b, 0); }
}
SCENARIO(ridge, 20000, 60000) {
    Rng& r = c.rng; bool b = r.coin(0.6); double lam = r.coin(0.1) ? 0 : std::pow(10, r.uni(-3, 3)); Mat X; Vec y; double sc; design(c, X, y, b, lam > 0, sc); lam *= sc * sc; if (b && r.coin(0.2)) { lm::RidgeRegression<double> m; judge(c, m, X, y, true, 0.5); } else { lm::RidgeRegression<double> m(lam, b); judge(c, m, X, y, b, lam); }
}
