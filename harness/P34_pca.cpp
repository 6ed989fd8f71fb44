// Decompositions in single precision
#include "single_fit.hpp"
#include <src/methods/decomposition/pca.hpp>
#include <src/methods/decomposition/truncated_svd.hpp>
SCENARIO(pca, 300, 4500) {
    Rng& r = c.rng; int d = r.coin(0.15) ? r.irange(16, 20) : r.irange(2, 6), n = r.irange(d + 2, d + 30), k = r.irange(1, d); std::vector<double> s; double v = std::pow(10, r.uni(0, 1)); for (int i = 0; i < d; ++i) { s.push_back(v); v *= r.uni(0.6, 0.85); if (d > 10) v /= 0.85; } Mat X = gen::with_singular(r, n, d, s); X.rowwise() += gen::mat(r, 1, d, 0).row(0) * 0.3; X = round(X); Mat T = features(r, 3, d); c.mixm(X); c.dump << "k " << k << " X=" << show(X) << " T=" << show(T);
    compare(c, "PCA", [&](auto f, const Ins& in) { using F = decltype(f); decomposition::PCA<F> m("svd", k); m.fit(M<F>(in[0].cast<F>())); M<F> T = in[1].cast<F>(); return Outs{real("components", m.get_components()), real("explained_var", m.get_explained_var()), real("ratio", m.get_explained_var_ratio()), real("singular", m.get_singular_values()), real("covariance", m.get_covariance()), real("precision", m.get_precision()), real("transform", m.transform(T)), real("score", m.score(T))}; }, {X, T}, 0, 512);
}
SCENARIO(tsvd, 200, 3000) {
    Rng& r = c.rng; int d = r.irange(3, 10), n = r.irange(d, d + 20), k = r.irange(1, 3); std::vector<double> s; double v = std::pow(10, r.uni(0, 1)); for (int i = 0; i < k; ++i) { s.push_back(v); v *= 0.5; } Mat X = round(gen::with_singular(r, n, d, s)); string nz = r.coin() ? "LU" : "QR"; int it = r.irange(1, 4); c.mixm(X); c.dump << nz << " k " << k << " iterations " << it << " X=" << show(X);
    compare(c, "TruncatedSVD", [&](auto f, const Ins& in) { using F = decltype(f); decomposition::TruncatedSVD<F> m(k, 2, it, "randomized", nz); m.fit(M<F>(in[0].cast<F>())); return Outs{real("components", m.get_components()), real("singular", m.get_singular_values()), real("explained_var", m.get_explained_var()), real("ratio", m.get_explained_var_ratio()), real("transform", m.transform(M<F>(in[0].cast<F>())))}; }, {X}, 0, 1024);
}
