// GaussianNB and MultinomialNB against posteriors computed in long double
#include "gen.hpp"
#include <src/methods/naive_bayes/gaussian_naive_bayes.hpp>
#include <src/methods/naive_bayes/multinomial_naive_bayes.hpp>
using namespace mon;
using LD = long double;
namespace nb = openml::naive_bayes;
struct D { Mat X; Vec y; int n, d; std::map<double, std::vector<int>> cls; };
static void labels(Rng& r, D& q) {
    static const std::vector<std::vector<double>> sets = {{0, 1}, {1, 0, 2}, {-1, 1}, {7, 3, 5, 1}, {2.5, -0.5, 1.25}, {4}, {0, 1, 2, 3, 4, 5}, {1e6, -3}, {0.25, 0.75, 0}, {-0.4, 0.4}, {1, 1 + 1e-7}, {3, 3 - 1e-13, 2}, {16777216, 16777217, 5}, {4294967296, 0, 1e15}};
    auto s = r.pick(sets); q.y.resize(q.n); bool skew = r.coin(0.3); for (int i = 0; i < q.n; ++i) { q.y(i) = skew && r.coin(0.8) ? s[0] : r.pick(s); q.cls[q.y(i)].push_back(i); }
}
// posterior of one row from its joint log likelihoods; checks log prob, prob and label
template <class M> static void posterior(Ctx& c, const M& m, const Mat& T, const std::vector<double>& cl, const std::vector<std::vector<LD>>& J, const std::vector<LD>& mag) {
    const Mat T0 = T; Mat lp = m.predict_log_prob(T), p = m.predict_prob(T); Vec y = m.predict(T); int K = cl.size(); c.req(samem(T, T0), "input-changed", "");
    if (!c.req(lp.rows() == T.rows() && lp.cols() == K && p.rows() == T.rows() && p.cols() == K && y.size() == T.rows(), "predict-shape", S(show(lp), show(y)))) return;
    for (long i = 0; i < T.rows(); ++i) {
        LD mx = -INFINITY, z = 0; for (auto v : J[i]) mx = std::max(mx, v); for (auto v : J[i]) z += expl(v - mx); double tol = 1e-12 * (1 + (double)mag[i]); double sum = 0; c.ev("posteriors");
        for (int k = 0; k < K; ++k) {
            double want = (double)(J[i][k] - mx - logl(z)); sum += p(i, k);
            if (!c.req(std::fabs(lp(i, k) - want) <= tol, "log-prob", S("row ", i, " class ", cl[k], ": ", lp(i, k), " want ", want))) return;
            if (!c.req(close(p(i, k), std::exp(want), tol, 1e-300) || std::fabs(p(i, k) - std::exp(want)) <= tol, "prob", S("row ", i, " class ", cl[k], ": ", p(i, k), " want ", std::exp(want)))) return;
        }
        c.req(std::fabs(sum - 1) <= K * tol, "prob-sum", S(sum)); int at = -1; for (int k = 0; k < K; ++k) if (cl[k] == y(i)) at = k;
        if (c.req(at >= 0, "foreign-label", S("row ", i, ": ", y(i)))) c.req(J[i][at] >= mx - tol, "label", S("row ", i, ": ", y(i), " is not the most probable class"));
    }
}
template <class M> static bool common_checks(Ctx& c, const M& m, const D& q, std::vector<double>& cl) {
    Vec pr = m.get_prior_prob(), cs = m.get_classes(); for (auto& k : q.cls) cl.push_back(k.first); int K = cl.size(); if (!c.req(pr.size() == K && cs.size() == K, "classes", S(show(cs), show(pr)))) return false;
    for (int k = 0; k < K; ++k) { c.req(cs(k) == cl[k], "classes", S("class ", k, ": ", cs(k), " want ", cl[k])); c.req(close(pr(k), (double)q.cls.at(cl[k]).size() / q.n, 1e-14, 0), "prior", S("class ", cl[k], ": ", pr(k))); } return true;
}
SCENARIO(gaussian, 3000, 60000) {
    Rng& r = c.rng; D q; q.n = mon::dim(r, 2, 40, 1200); q.d = mon::dim(r, 1, 6, 50); if (mon::huge(r, q.n, q.d)) c.ev("more than 65000 rows"); q.X = gen::data(r, q.n, q.d); if (r.coin()) q.X = gen::mat(r, q.n, q.d, 0); labels(r, q);
    bool def = r.coin(0.5); double sm = def ? 1e-9 : std::pow(10, r.uni(-6, -1)); c.mixm(q.X); c.mixm(q.y); c.mixd(sm); c.nontrivial = q.cls.size() > 1; c.dump << "smoothing=" << sm << " X=" << show(q.X) << " y=" << show(q.y);
    int K = q.cls.size(); std::vector<std::vector<LD>> mu, va; LD big = 0, amax = 0, bigall = 0;
    for (auto& k : q.cls) { mu.emplace_back(q.d, 0); va.emplace_back(q.d, 0); for (int j = 0; j < q.d; ++j) { LD s = 0, v = 0; for (int i : k.second) s += q.X(i, j); s /= k.second.size(); for (int i : k.second) v += (q.X(i, j) - s) * (q.X(i, j) - s); v /= k.second.size(); mu.back()[j] = s; va.back()[j] = v; big = std::max(big, v); } }
    for (int j = 0; j < q.d; ++j) { LD s = 0, v = 0; for (int i = 0; i < q.n; ++i) s += q.X(i, j) / q.n; for (int i = 0; i < q.n; ++i) v += (q.X(i, j) - s) * (q.X(i, j) - s) / q.n; bigall = std::max(bigall, v); } amax = ref::maxabs(q.X);
    if (big <= 1e-12L * amax * amax) { c.nontrivial = false; c.ev("skipped: no variance"); return; }       // nothing to smooth with
    const Mat X0 = q.X; const Vec y0 = q.y; nb::GaussianNB<double> m1, m2(sm); auto& m = def ? m1 : m2; m.fit(q.X, q.y); c.ev("fits"); c.req(samem(q.X, X0) && samem(q.y, y0), "input-changed", ""); std::vector<double> cl; if (!common_checks(c, m, q, cl)) return;
    Mat M = m.get_mean(), V = m.get_var(); if (!c.req(M.rows() == K && M.cols() == q.d && V.rows() == K && V.cols() == q.d, "parameters-shape", S(show(M), show(V)))) return;
    // smoothing adds the same amount everywhere: the given share of the largest variance (within a class, or of the column)
    double addA = (double)(sm * big), addB = (double)(sm * bigall); bool okA = true, okB = true; std::string bad;
    for (int k = 0; k < K; ++k) for (int j = 0; j < q.d; ++j) {
        double cm = 0; for (int i = 0; i < q.n; ++i) cm = std::max(cm, std::fabs(q.X(i, j)));
        if (!c.req(std::fabs(M(k, j) - (double)mu[k][j]) <= 1e-14 * q.n * cm, "mean", S("class ", cl[k], " feature ", j, ": ", M(k, j), " want ", (double)mu[k][j]))) return;
        double t = 1e-14 * q.n * (double)big * sm + 1e-13 * q.n * (double)va[k][j] + 1e-14 * q.n * cm * std::sqrt((double)va[k][j]) + 1e-27 * q.n * q.n * cm * cm; if (!(std::fabs(V(k, j) - (double)va[k][j] - addA) <= t)) { okA = false; bad = S("class ", cl[k], " feature ", j, ": ", V(k, j), " want ", (double)va[k][j] + addA); } if (!(std::fabs(V(k, j) - (double)va[k][j] - addB) <= t)) okB = false;
    }
    if (!c.req(okA || okB, "variance", bad)) return;
    for (int rep = 0; rep < 2; ++rep) {
        Mat T = rep ? gen::mat(r, mon::dim(r, 1, 6, 300), q.d, r.irange(0, 5)) : q.X; if (rep) { if (r.coin()) for (long i = 0; i < T.rows(); ++i) T.row(i) = q.X.row(r.irange(0, q.n - 1)) * (1 + 0.1 * r.gauss()); } std::vector<std::vector<LD>> J; std::vector<LD> mg;
        for (long i = 0; i < T.rows(); ++i) { J.emplace_back(); LD a = 0; for (int k = 0; k < K; ++k) { LD s = logl((LD)q.cls[cl[k]].size() / q.n), ab = fabsl(s); for (int j = 0; j < q.d; ++j) { LD e = T(i, j) - (LD)M(k, j), t = e * e / V(k, j), l = logl(2 * M_PIl * V(k, j)); s -= (t + l) / 2; ab += fabsl(t) + fabsl(l) + 4e-4L * (fabsl((LD)T(i, j)) + fabsl((LD)M(k, j))) * fabsl(e) / V(k, j); } J.back().push_back(s); a = std::max(a, ab); } mg.push_back(a); }
        posterior(c, m, T, cl, J, mg);
    }
}
SCENARIO(multinomial, 3000, 60000) {
    Rng& r = c.rng; D q; q.n = mon::dim(r, 1, 40, 1200); q.d = mon::dim(r, 1, 8, 60); if (mon::huge(r, q.n, q.d)) c.ev("more than 65000 rows"); q.X.resize(q.n, q.d); int mx = r.pick(std::vector<int>{1, 3, 50}); bool frac = r.coin(0.2); for (int i = 0; i < q.n; ++i) for (int j = 0; j < q.d; ++j) q.X(i, j) = r.coin(0.3) ? 0 : frac ? r.uni(0, mx) : r.irange(0, mx); labels(r, q); bool def = r.coin(0.3); double al = def ? 10 : std::pow(10, r.coin(0.2) ? r.uni(-12, -3) : r.uni(-3, 1));
    c.mixm(q.X); c.mixm(q.y); c.mixd(al); c.nontrivial = q.cls.size() > 1; c.dump << "alpha=" << al << " X=" << show(q.X) << " y=" << show(q.y); const Mat X0 = q.X; nb::MultinomialNB<double> m1, m2(al); auto& m = def ? m1 : m2; m.fit(q.X, q.y); c.ev("fits"); c.req(samem(q.X, X0), "input-changed", ""); std::vector<double> cl; if (!common_checks(c, m, q, cl)) return; int K = cl.size();
    Mat F = m.get_features_count(); if (!c.req(F.rows() == K && F.cols() == q.d, "count-shape", show(F))) return; std::vector<std::vector<LD>> N(K, std::vector<LD>(q.d, 0)); std::vector<LD> tot(K, 0);
    for (int k = 0; k < K; ++k) for (int j = 0; j < q.d; ++j) { for (int i : q.cls[cl[k]]) N[k][j] += q.X(i, j); tot[k] += N[k][j]; c.req(close(F(k, j), (double)N[k][j], 1e-13, 0), "count", S("class ", cl[k], " feature ", j, ": ", F(k, j), " want ", (double)N[k][j])); }
    for (int rep = 0; rep < 2; ++rep) {
        Mat T = q.X; if (rep) { T.resize(mon::dim(r, 1, 6, 300), q.d); for (long i = 0; i < T.rows(); ++i) for (int j = 0; j < q.d; ++j) T(i, j) = r.irange(0, 60); } std::vector<std::vector<LD>> J; std::vector<LD> mg;
        for (long i = 0; i < T.rows(); ++i) { J.emplace_back(); LD a = 0; for (int k = 0; k < K; ++k) { LD s = logl((LD)q.cls[cl[k]].size() / q.n), ab = fabsl(s); for (int j = 0; j < q.d; ++j) { LD t = T(i, j) * logl((N[k][j] + al) / (tot[k] + al * q.d)); s += t; ab += fabsl(t) + T(i, j); } J.back().push_back(s); a = std::max(a, ab); } mg.push_back(a); }
        posterior(c, m, T, cl, J, mg);
    }
}
