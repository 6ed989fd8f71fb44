// Naive Bayes and nearest neighbours in single precision
#include "single_fit.hpp"
#include <src/methods/naive_bayes/gaussian_naive_bayes.hpp>
#include <src/methods/naive_bayes/multinomial_naive_bayes.hpp>
#include <src/methods/neighbors/k_nearest_neighbors.hpp>
SCENARIO(bayes, 400, 6000) {
    Rng& r = c.rng; int d = r.irange(1, 5), K = r.irange(2, 4), n = r.irange(4 * K, 40); Mat y; bool g = r.coin(); Mat X = blobs(r, n, d, K, 2, y), T; if (!g) for (long i = 0; i < X.size(); ++i) X(i) = std::floor(std::fabs(X(i)) * 3); for (int k = 0; k < K; ++k) { y(k) = k; y(k + K) = k; } relabel(r, y); T = X.topRows(r.irange(1, n)); c.mixm(X); c.mixm(y); c.dump << (g ? "Gaussian" : "Multinomial") << " X=" << show(X) << " y=" << show(y); double al = std::pow(10, r.uni(-2, 1)), vs = std::pow(10, r.uni(-6, -2));
    auto query = [](auto& m, const auto& T) { return Outs{real("prior", m.get_prior_prob()), real("classes", m.get_classes()), real("predict_log_prob", m.predict_log_prob(T)), real("predict_prob", m.predict_prob(T)), labels("predict", m.predict(T))}; };
    if (g) compare(c, "GaussianNB", [&](auto f, const Ins& in) { using F = decltype(f); naive_bayes::GaussianNB<F> m(vs); m.fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); auto o = query(m, M<F>(in[2].cast<F>())); o.push_back(real("mean", m.get_mean())); o.push_back(real("var", m.get_var())); return o; }, {X, y, T}, 2, 512, 1);
    else compare(c, "MultinomialNB", [&](auto f, const Ins& in) { using F = decltype(f); naive_bayes::MultinomialNB<F> m(al); m.fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); auto o = query(m, M<F>(in[2].cast<F>())); o.push_back(real("counts", m.get_features_count())); return o; }, {X, y, T}, 2, 512, 1);
}
SCENARIO(knn, 300, 4500) {
    Rng& r = c.rng; int K = 2, d = r.irange(1, 4), n = r.irange(8, 40), k = 2 * r.irange(0, 3) + 1, leaf = r.irange(1, 8); Mat y, X = blobs(r, n, d, K, 1, y), T = features(r, 6, d); relabel(r, y); string sv = r.coin() ? "kdtree" : "brute", me = r.coin() ? "euclidean" : "manhattan"; c.mixm(X); c.dump << sv << " " << me << " k " << k << " X=" << show(X) << " y=" << show(y) << " T=" << show(T);
    compare(c, "KNearestNeighbors/" + sv, [&](auto f, const Ins& in) { using F = decltype(f); neighbors::KNearestNeighbors<F> m(leaf, k, sv, me); m.fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); return Outs{labels("predict", m.predict(M<F>(in[2].cast<F>())))}; }, {X, y, T}, 2);
}
