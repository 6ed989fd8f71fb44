// GaussianMixture: conservation laws of the M step, responsibilities, EM fixed points
#include "eig.hpp"
#include "gen.hpp"
#include <src/methods/mixture/gaussian_mixture.hpp>
using namespace mon;
using LD = long double;
using GM = openml::mixture_model::GaussianMixture<double>;
struct Par { std::vector<LD> w; std::vector<std::vector<LD>> mu; std::vector<ref::LM> cov; };
// log of the weighted densities
static std::vector<std::vector<LD>> wld(const Par& p, const Mat& T) {
    int K = p.w.size(), d = T.cols(); std::vector<std::vector<LD>> o(T.rows(), std::vector<LD>(K));
    for (int k = 0; k < K; ++k) { const ref::LM& cv = p.cov[p.cov.size() == 1 ? 0 : k]; LD ld; int sg; ref::solve(cv, {}, &ld, &sg); for (long i = 0; i < T.rows(); ++i) { std::vector<LD> e(d); for (int j = 0; j < d; ++j) e[j] = T(i, j) - p.mu[k][j]; auto s = ref::solve(cv, e); LD q = 0; for (int j = 0; j < d; ++j) q += e[j] * s[j]; o[i][k] = logl(p.w[k]) - (q + ld + d * logl(2 * M_PIl)) / 2; } }
    return o;
}
static LD lse(const std::vector<LD>& v) { LD m = -INFINITY, z = 0; for (auto x : v) m = std::max(m, x); for (auto x : v) z += expl(x - m); return m + logl(z); }
static LD loglik(const Par& p, const Mat& X) { LD s = 0; for (auto& r : wld(p, X)) s += lse(r); return s / X.rows(); }
static Par mstep(const Par& p, const Mat& X, double reg) {
    int n = X.rows(), d = X.cols(), K = p.w.size(); auto J = wld(p, X); Par q; q.w.assign(K, 0); q.mu.assign(K, std::vector<LD>(d, 0)); std::vector<std::vector<LD>> R(n, std::vector<LD>(K)); for (int i = 0; i < n; ++i) { LD z = lse(J[i]); for (int k = 0; k < K; ++k) { R[i][k] = expl(J[i][k] - z); q.w[k] += R[i][k]; } }
    for (int k = 0; k < K; ++k) { for (int j = 0; j < d; ++j) { for (int i = 0; i < n; ++i) q.mu[k][j] += R[i][k] * X(i, j); q.mu[k][j] /= q.w[k]; } } bool tied = p.cov.size() == 1 && K > 1; q.cov.assign(tied ? 1 : K, ref::LM(d, std::vector<LD>(d, 0)));
    for (int k = 0; k < K; ++k) for (int a = 0; a < d; ++a) for (int b = 0; b < d; ++b) for (int i = 0; i < n; ++i) q.cov[tied ? 0 : k][a][b] += R[i][k] * (X(i, a) - q.mu[k][a]) * (X(i, b) - q.mu[k][b]) / (tied ? n : q.w[k]);
    for (auto& cv : q.cov) for (int a = 0; a < d; ++a) cv[a][a] += reg; for (auto& w : q.w) w /= n; return q;
}
SCENARIO(mixture, 600, 10000) {
    Rng& r = c.rng; int K = r.irange(1, 4), d = r.irange(1, 4), n = r.irange(8 * K * d, 8 * K * d + 60); bool tied = r.coin(), tight = r.coin(0.5), def = r.coin(0.1); if (def) { K = 3; tied = false; } else if (tied && r.coin(0.25)) { K = r.irange(5, 9); d = r.irange(1, 2); n = r.irange(8 * K * d, 8 * K * d + 60); } else if (!tied && r.coin(0.12)) { K = r.irange(5, 9); d = r.irange(1, 2); n = r.irange(8 * K * d, 8 * K * d + 30); tight = false; } double reg = def || r.coin() ? 1e-6 : std::pow(10, r.uni(-5, -1)), tol = def ? 1e-3 : tight ? 1e-10 : std::pow(10, r.uni(-5, -2)); int ninit = def ? 1 : r.irange(1, 3);
    Mat C = gen::mat(r, K, d, 0) * r.uni(0, 4); Mat X(n, d); double off = r.coin(0.2) ? 20 : 0; for (int i = 0; i < n; ++i) { int k = r.irange(0, K - 1); for (int j = 0; j < d; ++j) X(i, j) = C(k, j) + r.gauss() * (1 + 0.3 * j) + off; if (d > 1) X(i, 1) += 0.5 * X(i, 0); } const Mat X0 = X;
    c.mixm(X); c.mix(K); c.mix(tied); c.mixd(reg); c.nontrivial = K > 1; c.dump << (tied ? "tied" : "full") << " K=" << K << " init=" << ninit << " tol=" << tol << " reg=" << reg << " X=" << show(X);
    GM m1, m2(def ? 100 : 20000, ninit, K, "random", tied ? "tied" : "full", tol, reg); GM& m = def ? m1 : m2; if (r.coin(0.2)) { try { m.fit(gen::mat(r, r.coin() ? n : n + 7, r.coin() ? d : d + 1, 0)); } catch (const std::runtime_error&) {} c.ev("refits"); } try { m.fit(X); } catch (const std::runtime_error& e) { c.ev("not converged"); c.req(def || (tight && K > 1), "not-converged", e.what()); return; } c.ev("fits"); c.req(samem(X, X0), "input-changed", "");
    Vec w = m.get_weights(); Mat mu = m.get_means(); auto cov = m.get_covariance(), pr = m.get_precisions(), pc = m.get_precisions_cholesky(); int nc = tied ? 1 : K;
    if (!c.req(w.size() == K && mu.rows() == K && mu.cols() == d && (int)cov.size() == nc && (int)pr.size() == nc && (int)pc.size() == nc, "parameters-shape", S(w.size(), " ", mu.rows(), " ", cov.size(), " ", pr.size(), " ", pc.size()))) return;
    if (!c.req(finite(w) && finite(mu), "not-finite", S(show(w), show(mu)))) return; double ws = 0; for (int k = 0; k < K; ++k) { ws += w(k); c.req(w(k) > 0, "weight", S(w(k))); } c.req(std::fabs(ws - 1) <= 1e-12 * n, "weights-sum", S(ws));
    double sc = ref::maxabs(X) * ref::maxabs(X) + 1; Par p; for (int k = 0; k < K; ++k) { p.w.push_back(w(k)); p.mu.emplace_back(); for (int j = 0; j < d; ++j) p.mu[k].push_back(mu(k, j)); } double kap = 1;
    for (int k = 0; k < nc; ++k) {
        if (!c.req(cov[k].rows() == d && cov[k].cols() == d && pr[k].rows() == d && pr[k].cols() == d && pc[k].rows() == d && pc[k].cols() == d && finite(cov[k]), "covariance-shape", show(cov[k]))) return; p.cov.push_back(ref::of(cov[k])); c.req(ref::maxdiff(cov[k], ref::tr(cov[k])) <= 1e-12 * sc, "covariance-asymmetric", show(cov[k]));
        ref::LM a = p.cov[k], v; std::vector<LD> ev; ref::symeig(a, ev, v); LD lo = INFINITY, hi = 0; for (auto e : ev) { lo = std::min(lo, e); hi = std::max(hi, e); } if (!c.req(lo >= reg * (1 - 1e-6) - 1e-12 * sc, "covariance-below-regularisation", S("smallest eigenvalue ", (double)lo, ", regularisation ", reg))) return; double kp = (double)(hi / lo); kap = std::max(kap, kp);
        c.req(ref::maxdiff(ref::mul(cov[k], pr[k]), Mat::Identity(d, d).eval()) <= 1e-13 * d * d * kp * 10, "precision", S("covariance times precision is not the identity: ", show(ref::mul(cov[k], pr[k])))); c.req(ref::maxdiff(ref::mul(pc[k], ref::tr(pc[k])), pr[k]) <= 1e-13 * d * ref::maxabs(pr[k]), "precision-cholesky", "factor times its transpose is not the precision");
        for (int i = 0; i < d; ++i) { c.req(pc[k](i, i) > 0, "precision-cholesky-diagonal", ""); for (int j = 0; j < i; ++j) c.req(pc[k](i, j) == 0, "precision-cholesky-triangle", show(pc[k])); }
    }
    // an M step conserves the first two moments of the data
    for (int a = 0; a < d; ++a) { LD s = 0, x = 0; for (int k = 0; k < K; ++k) s += p.w[k] * p.mu[k][a]; for (int i = 0; i < n; ++i) x += X(i, a) / n; c.req(fabsl(s - x) <= 1e-11 * sc, "mean-not-conserved", S("feature ", a, ": components average to ", (double)s, ", the data to ", (double)x));
        for (int b = 0; b < d; ++b) { LD t = 0, z = 0; for (int k = 0; k < K; ++k) t += p.w[k] * (p.cov[tied ? 0 : k][a][b] - (a == b ? reg : 0) + p.mu[k][a] * p.mu[k][b]); for (int i = 0; i < n; ++i) z += (LD)X(i, a) * X(i, b) / n; c.req(fabsl(t - z) <= 1e-11 * sc * n, "covariance-not-conserved", S("features ", a, ",", b, ": second moment ", (double)t, " of the mixture, ", (double)z, " of the data")); } }
    // responsibilities of the training rows and of others
    for (int rep = 0; rep < 2; ++rep) { Mat T = rep ? gen::mat(r, 5, d, r.coin() ? 0 : 1) : X; const Mat T0 = T; Mat P = m.predict_prob(T); Vec y = m.predict(T); c.req(samem(T, T0), "input-changed", ""); if (!c.req(P.rows() == T.rows() && P.cols() == K && y.size() == T.rows(), "predict-shape", "")) return; auto J = wld(p, T);
        for (long i = 0; i < T.rows(); ++i) { LD z = lse(J[i]), am = 1; for (auto v : J[i]) am = std::max(am, fabsl(v)); double t = 1e-13 * kap * d * (double)am * 100, sum = 0; c.ev("responsibilities"); for (int k = 0; k < K; ++k) { sum += P(i, k); if (!c.req(std::fabs(P(i, k) - (double)expl(J[i][k] - z)) <= t, "responsibility", S("row ", i, " component ", k, ": ", P(i, k), " want ", (double)expl(J[i][k] - z)))) return; } c.req(std::fabs(sum - 1) <= 1e-12, "responsibility-sum", S(sum)); if (!c.req(y(i) >= 0 && y(i) < K && y(i) == std::floor(y(i)), "label", S(y(i)))) return; LD mx = -INFINITY; for (auto v : J[i]) mx = std::max(mx, v); c.req(J[i][(int)y(i)] >= mx - t, "label", S("row ", i, ": ", y(i), " is not the most responsible component")); } }
    // EM: the bound of the last E step is not above the likelihood after the M step, and the fit is near a fixed point
    LD L0 = loglik(p, X); double lb = m.get_lower_bound(); double slack = 1e-9 * kap + 50 * reg; c.req(lb <= (double)L0 + slack, "bound-above-likelihood", S("lower bound ", lb, ", mean log likelihood of the returned model ", (double)L0)); if (!tight || def) return;      // a loose tolerance may stop on a plateau
    LD L1 = loglik(mstep(p, X, reg), X); c.req(L1 - L0 <= 1e-7, "not-a-fixed-point", S("one more EM step gains ", (double)(L1 - L0), ", tolerance ", tol)); c.req(L0 - lb <= 1e-7 + slack, "bound-below-likelihood", S("lower bound ", lb, ", mean log likelihood of the returned model ", (double)L0));
}
SCENARIO(errors, 40, 400) {
    Rng& r = c.rng; int d = r.irange(1, 3), K = r.irange(2, 6); Mat X = gen::mat(r, r.irange(1, K - 1), d, 0); c.mixm(X); c.nontrivial = true; c.dump << "K=" << K << " X=" << show(X); GM m(100, 1, K, "random", "full", 1e-3, 1e-6); c.req(throws([&] { m.fit(X); }), "too-few-samples", "fewer samples than components were accepted"); c.ev("rejected");
    Mat Y = gen::mat(r, 30 * K, d, 0); GM q(1, r.irange(1, 3), K, "random", r.coin() ? "full" : "tied", 1e-3, 1e-6); bool t = false; try { q.fit(Y); } catch (const std::runtime_error&) { t = true; } c.req(t, "claims-convergence", "one iteration cannot establish convergence, yet fit returned");
}
// several restarts keep the best one: over data sets with several optima, best of 10 is not usually below the median of single fits
SCENARIO(best_of_restarts, 8, 60) {
    Rng& r = c.rng; int below = 0, runs = 9; double worst = 0, sc = r.coin() ? 1 : 0.01; c.ev("sets of positive log likelihood", sc < 1 ? runs : 0); for (int t = 0; t < runs; ++t) { int K = 4, n = 60; Mat X(n, 2); for (int i = 0; i < n; ++i) { int k = i % 5; X(i, 0) = 4 * (k % 3) + r.gauss() * 0.5; X(i, 1) = 4 * (k / 3) + 2 * (k % 2) + r.gauss() * 0.5; } X *= sc; c.mixm(X);
        auto fit = [&](int ni) { GM m(600, ni, K, "random", "full", 1e-4, 1e-2 * sc * sc); for (int a = 0; a < 20; ++a) try { m.fit(X); return m.get_lower_bound(); } catch (const std::runtime_error&) {} return -1e300; };
        std::vector<double> one; for (int i = 0; i < 9; ++i) one.push_back(fit(1)); std::sort(one.begin(), one.end()); double b = fit(10); c.ev("data sets"); c.ev("data sets with several optima", one[8] - one[0] > 1e-2); if (b < one[4] - 1e-3) { ++below; worst = std::max(worst, one[4] - b); } }
    c.nontrivial = true; c.dump << "9 data sets of 5 clusters, 4 components"; c.req(below <= 4, "worse-than-single", S(below, " of ", runs, " times the best of 10 restarts was below the median of single fits, by up to ", worst));
}
