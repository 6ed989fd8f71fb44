// Clustering in single precision
#include "single_fit.hpp"
#include <src/methods/cluster/kmeans.hpp>
#include <src/methods/mixture/gaussian_mixture.hpp>
// the k-means++ draws are the data type's own: what holds of every converged fit
SCENARIO(kmeans, 200, 3000) {
    Rng& r = c.rng; int k = r.irange(1, 4), d = r.irange(1, 4), n = r.irange(2 * k + 2, 40), it = r.irange(1, 30); Mat y, X = blobs(r, n, d, k, 8, y), T = features(r, 5, d) * 4; bool pp = r.coin(); c.mixm(X); c.dump << (pp ? "kmeans++" : "random") << " k " << k << " X=" << show(X);
    if (!pp) { compare(c, "KMeans/random", [&](auto f, const Ins& in) { using F = decltype(f); cluster::KMeans<F> m("random", 1, k, it, 1e-4); m.fit(M<F>(in[0].cast<F>())); return Outs{labels("predict", m.predict(M<F>(in[0].cast<F>()))), labels("predict new", m.predict(M<F>(in[1].cast<F>())))}; }, {X, T}); return; }
    M<float> F = X.cast<float>(); set_entropy(r.next()); cluster::KMeans<float> m("kmeans++", 1, k, 200, 1e-4); m.fit(F); V<float> p = m.predict(F); c.ev("KMeans/kmeans++"); c.nontrivial = k > 1; if (!c.req(p.size() == n, "KMeans/shape", "")) return; Mat C = Mat::Zero(k, d); Vec w = Vec::Zero(k); for (int i = 0; i < n; ++i) { if (!c.req(p(i) >= 0 && p(i) < k && p(i) == std::floor(p(i)), "KMeans/label", S(p(i)))) return; C.row((int)p(i)) += X.row(i); w((int)p(i)) += 1; }
    for (int a = 0; a < k; ++a) if (w(a) > 0) C.row(a) /= w(a); for (int i = 0; i < n; ++i) { c.ev("decisions compared"); double own = (X.row(i) - C.row((int)p(i))).norm(); for (int a = 0; a < k; ++a) if (w(a) > 0) c.req(own <= (X.row(i) - C.row(a)).norm() + 0.05, "KMeans/nearest", S("row ", i, ": own centre at ", own, ", centre ", a, " at ", (X.row(i) - C.row(a)).norm())); }
}
// the start of a mixture is drawn from the data type's own generator: what holds of every fit
SCENARIO(mixture, 150, 2000) {
    Rng& r = c.rng; int k = r.irange(1, 3), d = r.irange(1, 3), n = r.irange(12, 40); Mat y, X0 = blobs(r, n, d, k, 5, y); string cv = r.coin() ? "full" : "tied"; c.mixm(X0); c.dump << cv << " k " << k << " X=" << show(X0); M<float> X = X0.cast<float>(); set_entropy(r.next()); mixture_model::GaussianMixture<float> m(200, r.irange(1, 2), k, "random", cv, 1e-3, 1e-4);
    try { m.fit(X); } catch (const EigenAssert&) { throw; } catch (const std::exception& e) { c.ev("fits that threw"); return; } c.nontrivial = true; c.ev("GaussianMixture");
    V<float> w = m.get_weights(); M<float> mu = m.get_means(), p = m.predict_prob(X); V<float> lab = m.predict(X); if (!c.req(w.size() == k && mu.rows() == k && mu.cols() == d && p.rows() == n && p.cols() == k && lab.size() == n, "GaussianMixture/shape", "")) return;
    double sw = 0; for (int j = 0; j < k; ++j) { c.req(w(j) >= 0, "GaussianMixture/weights", ""); sw += w(j); } c.req(std::fabs(sw - 1) < 1e-4, "GaussianMixture/weights", S(sw)); double sc = X0.cwiseAbs().maxCoeff() + 1; for (int f = 0; f < d; ++f) { double a = 0; for (int j = 0; j < k; ++j) a += (double)w(j) * mu(j, f); c.req(std::fabs(a - X0.col(f).mean()) < 1e-4 * sc, "GaussianMixture/mean", S("component means average to ", a, ", the data to ", X0.col(f).mean())); }
    for (int i = 0; i < n; ++i) { double s = 0; long best = 0; for (int j = 0; j < k; ++j) { s += p(i, j); if (p(i, j) > p(i, best)) best = j; } c.req(std::fabs(s - 1) < 1e-4, "GaussianMixture/probabilities", S("row ", i, ": ", s)); c.req(p(i, best) - p(i, (int)lab(i)) < 1e-4, "GaussianMixture/label", S("row ", i)); c.ev("numbers compared", k); }
}
