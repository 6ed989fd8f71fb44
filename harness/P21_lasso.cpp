// LassoRegression: the returned weights satisfy the optimality conditions of the l1-penalised least squares problem
#include "gen.hpp"
#include <src/core/optimizer/base.hpp>
#include <src/core/optimizer/sgd/scd.hpp>
#include <src/methods/linear_model/lasso_regression.hpp>
using namespace mon;
namespace lm = openml::linear_model;
SCENARIO(lasso, 250, 4000) {
    Rng& r = c.rng; bool def = r.coin(0.1), b = def || r.coin(0.6); int d = r.irange(1, 5), n = r.coin(0.06) ? r.irange(900, 1600) : r.irange(d + 4, d + 30);
    std::vector<double> s; for (int j = 0; j < d; ++j) s.push_back(std::sqrt((double)n) * r.uni(0.6, 1.6)); Mat X = gen::with_singular(r, n, d, s); if (r.coin(0.4)) for (int j = 0; j < d; ++j) X.col(j).array() += r.gauss() * 0.3;
    Vec t(d), y(n); for (int j = 0; j < d; ++j) t(j) = r.coin(0.4) ? 0 : r.gauss() * 3; for (int i = 0; i < n; ++i) { y(i) = b ? 1.5 : 0; for (int j = 0; j < d; ++j) y(i) += X(i, j) * t(j); y(i) += r.gauss() * 0.3; }
    double cm = b; for (int j = 0; j < d; ++j) { double q = 0; for (int i = 0; i < n; ++i) q += X(i, j) * X(i, j) / n; cm = std::max(cm, q); }
    if (def) X /= std::sqrt(cm) , cm = 1; double lam = def ? 0.001 : std::pow(10, r.uni(-3, 0.7)), beta = def ? 1 : cm * r.uni(1, 2);
    const Mat X0 = X; const Vec y0 = y; c.mixm(X); c.mixm(y); c.mixd(lam); c.nontrivial = true; c.dump << "beta=" << beta << " lambda=" << lam << " intercept=" << b << " default=" << def << " X=" << show(X) << " y=" << show(y);
    lm::LassoRegression<double> m1, m2(4000, lam, beta, r.coin(), r.coin(0.1), b); lm::LassoRegression<double>& m = def ? m1 : m2; m.fit(X, y); Mat W = m.get_coef(); c.ev("fits"); c.req(samem(X, X0) && samem(y, y0), "input-changed", "");
    int D = d + b; if (!c.req(W.rows() == D && W.cols() == 1, "coef-shape", show(W))) return; double ys = 1 + ref::maxabs(y);
    std::vector<long double> g(D, 0); for (int i = 0; i < n; ++i) { long double e = -y(i) + (b ? W(d, 0) : 0); for (int j = 0; j < d; ++j) e += (long double)X(i, j) * W(j, 0); for (int j = 0; j < D; ++j) g[j] += e * (j < d ? X(i, j) : 1) / n; }
    for (int j = 0; j < D; ++j) { double w = W(j, 0), e = w > 0 ? fabsl(g[j] + lam) : w < 0 ? fabsl(g[j] - lam) : std::max(0.0L, fabsl(g[j]) - lam); c.ev("zero weights", w == 0); c.req(e <= 1e-6 * ys, "kkt", S("weight ", j, " = ", w, ": gradient ", (double)g[j], ", lambda ", lam)); }
    Mat T = gen::mat(r, 4, d, 0); Vec p = m.predict(T); for (int i = 0; i < 4; ++i) { double v = b ? W(d, 0) : 0; for (int j = 0; j < d; ++j) v += T(i, j) * W(j, 0); c.req(close(p(i), v, 1e-12, 1e-12 * ys), "predict", S("row ", i, ": ", p(i), " want ", v)); }
}
SCENARIO(all_zero, 300, 5000) {       // a penalty above the gradient at zero leaves nothing
    Rng& r = c.rng; int d = r.irange(1, 6), n = r.irange(2, 20); Mat X = gen::mat(r, n, d, r.coin() ? 0 : 1); Vec y = gen::vec(r, n, 0); bool b = r.coin(); double gm = 0, cm = 1; for (int j = 0; j < d + b; ++j) { double s = 0, q = 0; for (int i = 0; i < n; ++i) { double x = j < d ? X(i, j) : 1; s += x * y(i) / n; q += x * x / n; } gm = std::max(gm, std::fabs(s)); cm = std::max(cm, q); }
    double lam = gm * r.uni(1.001, 3) + 1e-12; c.mixm(X); c.mixm(y); c.mixd(lam); c.nontrivial = true; c.dump << "lambda=" << lam << " X=" << show(X) << " y=" << show(y); lm::LassoRegression<double> m(r.irange(1, 200), lam, cm, r.coin(), false, b); m.fit(X, y); Mat W = m.get_coef(); c.ev("fits"); c.req(W.rows() == d + b && ref::maxabs(W) == 0, "not-zero", show(W));
}
