// LogisticRegression, Perceptron, SoftmaxRegression: predictions follow from the coefficients, and training trains
#include "gen.hpp"
#include <src/core/optimizer/base.hpp>
#include <src/core/optimizer/sgd/sgd.hpp>
#include <src/core/optimizer/sgd/sag.hpp>
#include <src/core/optimizer/sgd/scd.hpp>
#include <src/core/optimizer/lbfgs/params.hpp>
#include <src/core/optimizer/lbfgs/lbfgs.hpp>
#include <src/methods/linear_model/logistic_regression.hpp>
#include <src/methods/linear_model/perceptron.hpp>
#include <src/methods/linear_model/softmax_regression.hpp>
using namespace mon;
namespace lm = openml::linear_model;
using LD = long double;
// blobs around K centres; gap = centre distance in units of the spread
static void blobs(Rng& r, int n, int d, int K, double gap, Mat& X, Vec& y) {
    Mat C(K, d); for (int k = 0; k < K; ++k) for (int tries = 0;; ++tries) { for (int j = 0; j < d; ++j) C(k, j) = r.uni(-1, 1) * gap * (K > 2 ? K : 1); bool ok = true; for (int l = 0; l < k; ++l) { double s = 0; for (int j = 0; j < d; ++j) s += (C(k, j) - C(l, j)) * (C(k, j) - C(l, j)); if (s < gap * gap) ok = false; } if (ok || tries > 1000) break; }
    X.resize(n, d); y.resize(n); for (int i = 0; i < n; ++i) { int k = i < K ? i : r.irange(0, K - 1); y(i) = k; for (int j = 0; j < d; ++j) { double g; do g = r.gauss(); while (std::fabs(g) > 2); X(i, j) = C(k, j) + g * 0.5; } }
}
static LD lin(const Mat& T, int i, const Mat& W, int k, LD* mag) { int d = T.cols(); LD s = W.rows() > d ? W(d, k) : 0, a = fabsl(s); for (int j = 0; j < d; ++j) { s += (LD)T(i, j) * W(j, k); a += fabsl((LD)T(i, j) * W(j, k)); } if (mag) *mag = a; return s; }
// binary model semantics from its coefficients
template <class M> static void binary(Ctx& c, const M& m, const Mat& T) {
    Mat W = m.get_coef(); const Mat T0 = T; Vec p = m.predict(T); if (!c.req(p.size() == T.rows(), "predict-size", show(p))) return;
    for (long i = 0; i < T.rows(); ++i) { LD a, s = lin(T, i, W, 0, &a); c.ev("predictions"); if (!c.req(p(i) == 0 || p(i) == 1, "label", S("row ", i, ": ", p(i)))) return; if (fabsl(s) > 1e-13 * a || a == 0) c.ev("scores of exactly zero", a == 0), c.req(p(i) == (s > 0), "label", S("row ", i, ": margin ", (double)s, " was labelled ", p(i))); }
    c.req(samem(T, T0) && samem(W, m.get_coef()), "predict-changes", "predict changed its input or the model");
}
static void proba(Ctx& c, const lm::LogisticRegression<double>& m, const Mat& T) {
    Mat W = m.get_coef(), P = m.predict_prob(T); if (!c.req(P.rows() == T.rows() && P.cols() == 2, "prob-shape", show(P))) return;
    for (long i = 0; i < T.rows(); ++i) { LD a, s = lin(T, i, W, 0, &a), q = s < 0 ? expl(s) / (1 + expl(s)) : 1 / (1 + expl(-s)); c.ev("probabilities"); c.req(std::fabs(P(i, 1) - (double)q) <= 1e-13 * (1 + (double)a) * (double)q + 1e-300 && fabsl(P(i, 0) - (1 - q)) <= 4e-16L + 1e-13L * (1 + a) * q * (1 - q), "probability", S("row ", i, ": ", P(i, 0), " ", P(i, 1), ", margin ", (double)s)); c.req(P(i, 0) >= 0 && P(i, 1) >= 0, "probability-range", S(P(i, 0), " ", P(i, 1))); }
}
static double logloss(const Mat& X, const Vec& y, const Mat& W, std::vector<LD>* g) {
    int n = X.rows(), d = X.cols(); LD v = 0; if (g) g->assign(d + 1, 0); for (int i = 0; i < n; ++i) { LD s = lin(X, i, W, 0, nullptr); v += std::max(s, (LD)0) + log1pl(expl(-fabsl(s))) - y(i) * s; LD p = s < 0 ? expl(s) / (1 + expl(s)) : 1 / (1 + expl(-s)); if (g) for (int j = 0; j <= d; ++j) (*g)[j] += (p - y(i)) * (j < d ? (LD)X(i, j) : 1) / n; } return (double)(v / n);
}
static double accuracy(const Vec& p, const Vec& y) { int k = 0; for (long i = 0; i < y.size(); ++i) k += p(i) == y(i); return (double)k / y.size(); }
static Mat probe(Rng& r, const Mat& X) { Mat T = gen::mat(r, r.irange(1, 8), X.cols(), r.irange(0, 5)); if (r.coin(0.2)) T *= 100; if (r.coin(0.2)) T.setZero(); return T; }

// rows a hair's breadth from the boundary between classes a and b (b < 0: from zero)
static Mat nearly(Rng& r, Mat T, const Mat& W) {
    int d = T.cols(), K = W.cols(); for (long i = 0; i < T.rows(); ++i) { std::vector<std::pair<LD, int>> s; for (int k = 0; k < K; ++k) s.push_back({lin(T, i, W, k, nullptr), k}); std::sort(s.rbegin(), s.rend()); int a = s[0].second, b = K > 1 ? s[1].second : -1; LD gap = s[0].first - (b < 0 ? 0 : s[1].first), nn = 0; std::vector<LD> v(d); for (int j = 0; j < d; ++j) { v[j] = W(j, a) - (b < 0 ? 0 : W(j, b)); nn += v[j] * v[j]; } if (!(nn > 1e-20L)) continue; LD want = (r.coin() ? 1 : -1) * powl(10, r.uni(-11, -4)); for (int j = 0; j < d; ++j) T(i, j) += (double)((want - gap) / nn * v[j]); }
    return T;
}
SCENARIO(logistic_lbfgs, 1500, 30000) {
    Rng& r = c.rng; int d = r.irange(1, 6), n = r.irange(3, 40); Mat X; Vec y; if (r.coin(0.7)) { X = gen::mat(r, n, d, r.coin() ? 0 : 1); y.resize(n); for (int i = 0; i < n; ++i) y(i) = r.irange(0, 1); } else blobs(r, n, d, 2, 3, X, y);
    const Mat X0 = X; const Vec y0 = y; double tol = 1e-4; std::string pol = r.coin() ? "backtracking" : "bracketing", cond = r.pick(std::vector<std::string>{"WOLFE", "STRONG_WOLFE", "ARMIJO"}); c.mixm(X); c.mixm(y); c.nontrivial = true; c.dump << pol << " " << cond << " X=" << show(X) << " y=" << show(y);
    lm::LogisticRegression<double> m(tol, 1e-4, 0.0, 0.9, 0, r.irange(2, 8), 0, 60, "lbfgs", r.coin() ? "l2" : "None", pol, cond, true, r.coin(0.1)); m.fit(X, y); c.ev("fits"); c.req(samem(X, X0) && samem(y, y0), "input-changed", "");
    Mat W = m.get_coef(); if (!c.req(W.rows() == d + 1 && W.cols() == 1 && finite(W), "coef-shape", show(W))) return; std::vector<LD> g; logloss(X, y, W, &g); LD gn = 0, wn = 0; for (auto v : g) gn += v * v; for (int j = 0; j <= d; ++j) wn += W(j, 0) * W(j, 0); gn = sqrtl(gn) / std::max((LD)1, sqrtl(wn));
    c.req(gn <= 1.01 * tol, "not-stationary", S("scaled gradient norm ", (double)gn)); binary(c, m, X); Mat T = probe(r, X); binary(c, m, T); proba(c, m, T); T = nearly(r, T, W); c.ev("rows next to the boundary", T.rows()); binary(c, m, T); proba(c, m, T);
}
SCENARIO(logistic_scd, 200, 3000) {
    Rng& r = c.rng; int d = r.irange(1, 4), n = r.irange(8, 30); Mat X; Vec y; if (r.coin(0.6)) { X = gen::mat(r, n, d, 0); y.resize(n); for (int i = 0; i < n; ++i) y(i) = r.irange(0, 1); } else blobs(r, n, d, 2, 2, X, y); double cm = 1; for (int j = 0; j < d; ++j) { double s = 0; for (int i = 0; i < n; ++i) s += X(i, j) * X(i, j) / n; cm = std::max(cm, s); }
    double lam = std::pow(10, r.uni(-1.7, 0)), beta = cm / 4 * r.uni(1, 2); c.mixm(X); c.mixm(y); c.mixd(lam); c.nontrivial = true; c.dump << "lambda=" << lam << " beta=" << beta << " X=" << show(X) << " y=" << show(y);
    lm::LogisticRegression<double> m(lam, beta, 6000, "scd", "l1", r.coin(0.2), false); m.fit(X, y); c.ev("fits"); Mat W = m.get_coef(); if (!c.req(W.rows() == d + 1 && W.cols() == 1, "coef-shape", show(W))) return; std::vector<LD> g; logloss(X, y, W, &g);
    // the loss carries an l2 term of the same lambda
    for (int j = 0; j <= d; ++j) { double w = W(j, 0), gj = (double)g[j] + lam * w / n, e = w > 0 ? std::fabs(gj + lam) : w < 0 ? std::fabs(gj - lam) : std::max(0.0, std::fabs(gj) - lam); c.ev("zero weights", w == 0); c.req(e <= 1e-4, "kkt", S("weight ", j, " = ", w, ": gradient ", gj, " lambda ", lam)); }
    binary(c, m, X); Mat T = probe(r, X); binary(c, m, T); proba(c, m, T); T = nearly(r, T, W); c.ev("rows next to the boundary", T.rows()); binary(c, m, T); proba(c, m, T);
}
SCENARIO(logistic_sgd, 400, 6000) {
    Rng& r = c.rng; int d = r.irange(1, 4), n = r.irange(40, 100); Mat X; Vec y; blobs(r, n, d, 2, 4, X, y); bool def = r.coin(0.2); std::string sv = r.coin() ? "sgd" : "sag"; int batch = r.irange(1, 8); c.mixm(X); c.mixm(y); c.mix(batch); c.nontrivial = true; c.dump << (def ? "default " : sv + " ") << "batch=" << batch << " X=" << show(X) << " y=" << show(y);
    lm::LogisticRegression<double> m1, m2(0.1, 0, 1e-4, batch, 2000, 5, sv, r.coin() ? "l2" : "None", r.coin(0.7), false); auto& m = def ? m1 : m2; const Mat X0 = X; m.fit(X, y); c.ev("fits"); c.req(samem(X, X0), "input-changed", ""); Mat W = m.get_coef(); if (!c.req(W.rows() == d + 1 && W.cols() == 1 && finite(W), "coef-shape", show(W))) return;
    double v = logloss(X, y, W, nullptr); c.req(v < 0.6931, "untrained", S("mean log loss ", v, " on separated blobs, ", std::log(2.0), " without any training")); binary(c, m, X); Mat T = probe(r, X); binary(c, m, T); proba(c, m, T); T = nearly(r, T, W); c.ev("rows next to the boundary", T.rows()); binary(c, m, T); proba(c, m, T);
}
SCENARIO(perceptron, 400, 6000) {
    Rng& r = c.rng; int d = r.irange(1, 4), n = r.irange(40, 100); Mat X; Vec y; blobs(r, n, d, 2, 4, X, y); int batch = r.irange(1, 8); double lneg = 0, lpos = 1; if (r.coin(0.7)) { lpos = r.pick(std::vector<double>{1, 2, 0.5, 5}); lneg = r.pick(std::vector<double>{0, -1, -3, -0.5}); } c.mixd(lpos - 2 * lneg); c.mixm(X); c.mixm(y); c.mix(batch); c.nontrivial = true; c.dump << "batch=" << batch << " labels " << lneg << "/" << lpos << " X=" << show(X) << " y=" << show(y);
    Vec yy = y; for (int i = 0; i < n; ++i) yy(i) = y(i) ? lpos : lneg; const Vec y1 = yy; lm::Perceptron<double> m(0.1, 0, 1e-4, batch, 2000, 5, "None", true, r.coin(0.7), false); m.fit(X, yy); c.ev("fits"); c.req(samem(yy, y1), "input-changed", ""); Mat W = m.get_coef(); if (!c.req(W.rows() == d + 1 && W.cols() == 1 && finite(W), "coef-shape", show(W))) return;
    binary(c, m, X); binary(c, m, probe(r, X)); binary(c, m, nearly(r, probe(r, X), W)); double a = accuracy(m.predict(X), y); c.req(a >= 0.75, "untrained", S("training accuracy ", a, " on separated blobs"));
    // without an intercept
    lm::Perceptron<double> q(0.1, 0, 1e-4, batch, 2000, 5, "None", false, true, false); try { q.fit(X, yy); Mat V = q.get_coef(); if (c.req(V.rows() == d && V.cols() == 1, "coef-shape", show(V))) binary(c, q, probe(r, X)); } catch (const std::runtime_error&) { c.ev("no convergence without intercept"); }
}
SCENARIO(softmax, 400, 6000) {
    Rng& r = c.rng; int d = r.irange(1, 4), K = r.irange(2, d == 1 ? 2 : 4), n = r.irange(40, 100); Mat X; Vec y; blobs(r, n, d, K, 4, X, y); int batch = r.irange(1, 8); bool def = r.coin(0.2); c.mixm(X); c.mixm(y); c.mix(batch); c.nontrivial = true; c.dump << "K=" << K << " batch=" << batch << " default=" << def << " X=" << show(X) << " y=" << show(y);
    lm::SoftmaxRegression<double> m1, m2(0.05, r.coin() ? 0 : 0.01, 1e-4, batch, 2000, 5, "sgd", "None", r.coin(0.7), false); auto& m = def ? m1 : m2; const Mat X0 = X; m.fit(X, y); c.ev("fits"); c.req(samem(X, X0), "input-changed", ""); Mat W = m.get_coef(); if (!c.req(W.rows() == d + 1 && W.cols() == K && finite(W), "coef-shape", show(W))) return;
    for (int rep = 0; rep < 3; ++rep) {
        Mat T = rep ? probe(r, X) : X; if (rep == 2) { T = nearly(r, T, W); c.ev("rows next to the boundary", T.rows()); } Mat P = m.predict_prob(T); Vec p = m.predict(T); if (!c.req(P.rows() == T.rows() && P.cols() == K && p.size() == T.rows(), "predict-size", "")) return;
        for (long i = 0; i < T.rows(); ++i) { std::vector<LD> s(K); LD mx = -INFINITY, z = 0, am = 0; for (int k = 0; k < K; ++k) { LD a; s[k] = lin(T, i, W, k, &a); am = std::max(am, a); mx = std::max(mx, s[k]); } for (auto v : s) z += expl(v - mx); double sum = 0; for (int k = 0; k < K; ++k) { sum += P(i, k); c.req(P(i, k) >= 0 && fabsl(P(i, k) - expl(s[k] - mx) / z) <= 1e-13L * (1 + am) * expl(s[k] - mx) / z + 1e-300L, "probability", S("row ", i, " class ", k, ": ", P(i, k), " want ", (double)(expl(s[k] - mx) / z))); } c.req(std::fabs(sum - 1) <= 1e-12, "probability-sum", S(sum)); c.ev("predictions"); if (!c.req(p(i) >= 0 && p(i) < K && p(i) == std::floor(p(i)), "label", S("row ", i, ": ", p(i)))) return; c.req(s[(int)p(i)] >= mx - 1e-14 * (1 + am), "label", S("row ", i, ": label ", p(i), " is not the most probable class")); }
        if (!rep) { LD v = 0; for (long i = 0; i < n; ++i) { std::vector<LD> s(K); LD mx = -INFINITY, z = 0; for (int k = 0; k < K; ++k) { s[k] = lin(X, i, W, k, nullptr); mx = std::max(mx, s[k]); } for (auto q : s) z += expl(q - mx); v += (mx + logl(z) - s[(int)y(i)]) / n; } c.req(v < std::log((double)K), "untrained", S("mean log loss ", (double)v, " of ", K, " separated blobs")); }
    }
}
SCENARIO(unsupported, 40, 200) {
    Rng& r = c.rng; Mat X = gen::mat(r, 6, 2, 0); Vec y(6); for (int i = 0; i < 6; ++i) y(i) = i % 2; auto bad = r.pick(std::vector<std::pair<std::string, std::string>>{{"scd", "l2"}, {"scd", "None"}, {"sgd", "l1"}, {"lbfgs", "l1"}, {"adam", "l2"}, {"sgd", "elastic"}, {"", "None"}}); c.nontrivial = true; c.mixm(X); c.dump << bad.first << "/" << bad.second;
    lm::LogisticRegression<double> m(0.1, 0, 1e-4, 2, 10, 5, bad.first, bad.second, true, false); bool t = false; try { m.fit(X, y); } catch (const std::invalid_argument&) { t = true; } c.ev("rejected", t); c.req(t, "accepted", bad.first + "/" + bad.second + " was not rejected");
}
