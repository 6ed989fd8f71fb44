// PCA against an independent eigen-decomposition of the sample covariance
#include "eig.hpp"
#include "gen.hpp"
#include <src/methods/decomposition/pca.hpp>
using namespace mon;
static double orthdev(const Mat& q) { return ref::maxdiff(ref::mul(ref::tr(q), q), Mat::Identity(q.cols(), q.cols()).eval()); }

SCENARIO(pca, 500, 8000) {
    Rng& r = c.rng; bool wide = r.coin(0.15); int d = wide ? r.irange(16, 24) : r.irange(1, 10), n = wide && r.coin() ? r.irange(3, 15) : mon::dim(r, std::max(3, d + 2), d + 40, 900), mn = std::min(n, d);
    Mat x;
    if (r.coin(0.6)) { std::vector<double> s(mn); double dec = r.uni(0.5, 0.95); for (int i = 0; i < mn; ++i) s[i] = 10 * std::sqrt((double)n) * std::pow(dec, i); x = gen::with_singular(r, n, d, s); for (int j = 0; j < d; ++j) x.col(j).array() += r.gauss() * (r.coin(0.3) ? 50 : 1); }
    else x = gen::data(r, n, d);
    const Mat x0 = x;
    int k = r.irange(1, mn);
    c.mixm(x); c.mix(k); c.nontrivial = d > 1; c.dump << "k=" << k << " x=" << show(x);
    std::vector<long double> mu(d, 0); for (int j = 0; j < d; ++j) { for (int i = 0; i < n; ++i) mu[j] += x(i, j); mu[j] /= n; }
    ref::LM cov(d, std::vector<long double>(d, 0));
    for (int p = 0; p < d; ++p) for (int q = 0; q < d; ++q) { for (int i = 0; i < n; ++i) cov[p][q] += (x(i, p) - mu[p]) * (x(i, q) - mu[q]); cov[p][q] /= n - 1; }
    std::vector<long double> w; ref::LM v; ref::symeig(cov, w, v);
    double tot = 0; for (auto& e : w) { if (e < 0) e = 0; tot += (double)e; }
    double am = ref::maxabs(x), w0 = (double)w[0];
    if (w0 <= 1e-6 * std::max(1.0, am * am) * 1e-4) return;         // constant data has no principal axes
    openml::decomposition::PCA<double> t("svd", k);
    if (r.coin(0.3)) { t.fit(gen::mat(r, n + 1, r.irange(k, d + 2), 0)); c.ev("refits"); }
    t.fit(x);
    Mat C = t.get_components(); Vec ev = t.get_explained_var(), er = t.get_explained_var_ratio(), s = t.get_singular_values();
    if (!c.req(C.rows() == k && C.cols() == d && ev.size() == k && er.size() == k && s.size() == k, "shape", S(show(C), show(ev)))) return;
    c.req(orthdev(ref::tr(C)) <= 1e-10, "orthonormal", S(orthdev(ref::tr(C))));
    double et = 1e-10 * w0 + 1e-13 * am * am;
    for (int i = 0; i < k; ++i) {
        c.req(std::fabs(ev(i) - (double)w[i]) <= et, "explained-variance", S("component ", i, ": ", ev(i), " want ", (double)w[i]));
        c.req(close(er(i), (double)w[i] / tot, 0, 2 * et / tot + 1e-10), "explained-ratio", S("component ", i, ": ", er(i), " want ", (double)w[i] / tot));
        c.req(std::fabs(s(i) * s(i) / (n - 1) - ev(i)) <= 2 * et, "singular-values", S("component ", i, ": ", s(i)));
        // C_i is an eigenvector: cov * C_i = w_i C_i
        for (int p = 0; p < d; ++p) { long double a = 0; for (int q = 0; q < d; ++q) a += cov[p][q] * C(i, q); if (!c.req(std::fabs((double)(a - w[i] * C(i, p))) <= 1e-8 * w0 + 1e-12 * am * am, "eigenvector", S("component ", i))) break; }
    }
    Mat xc(n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) xc(i, j) = (double)(x(i, j) - mu[j]);
    double tt = 1e-12 * d * (ref::maxabs(xc) + am);
    Mat z = t.transform(x);
    if (!c.req(z.rows() == n && z.cols() == k, "transform-shape", show(z))) return;
    c.req(ref::maxdiff(z, ref::mul(xc, ref::tr(C))) <= tt, "transform", S("differs from (X-mean)*C' by ", ref::maxdiff(z, ref::mul(xc, ref::tr(C)))));
    // optimality: the residual of the reconstruction is exactly the discarded variance
    long double res = 0, drop = 0; for (int i = k; i < d; ++i) drop += w[i];
    Mat back = ref::mul(z, C); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) res += (long double)(back(i, j) - xc(i, j)) * (back(i, j) - xc(i, j));
    c.req(std::fabs((double)(res / (n - 1) - drop)) <= 1e-9 * tot + 1e-12 * am * am, "reconstruction", S((double)(res / (n - 1)), " want ", (double)drop));
    // new samples are measured against the training mean
    int m = mon::dim(r, 1, 6, 300); Mat y = gen::mat(r, m, d, 0), yc(m, d); y.array() += r.gauss() * 20;
    for (int i = 0; i < m; ++i) for (int j = 0; j < d; ++j) yc(i, j) = (double)(y(i, j) - mu[j]);
    Mat zy = t.transform(y);
    c.req(zy.rows() == m && ref::maxdiff(zy, ref::mul(yc, ref::tr(C))) <= tt + 1e-12 * d * ref::maxabs(yc), "transform-new", "transform of new data is not (y - training mean)*C'");
    // the fitted model's covariance
    long double noise = 0; if (k < mn) { for (int i = k; i < mn; ++i) noise += w[i]; noise /= mn - k; }
    Mat mc(d, d), cv = t.get_covariance();
    for (int p = 0; p < d; ++p) for (int q = 0; q < d; ++q) { long double a = p == q ? noise : 0; for (int i = 0; i < k; ++i) a += std::max(w[i] - noise, (long double)0) * C(i, p) * C(i, q); mc(p, q) = (double)a; }
    c.req(cv.rows() == d && cv.cols() == d && ref::maxdiff(cv, mc) <= 1e-9 * w0 + 1e-12 * am * am, "covariance", S("differs by ", ref::maxdiff(cv, mc)));
    double small = k < mn ? (double)noise : (d <= n - 1 ? (double)w[d - 1] : 0);
    if (k < mn && small > 1e-4 && w0 < 1e8 * small) {
        c.ev("precisions");
        Mat pr = t.get_precision();
        double e = ref::maxdiff(ref::mul(pr, mc), Mat::Identity(d, d).eval());
        c.req(e <= 1e-7 + 1e-13 * w0 / small * d, "precision", S("|precision*covariance - I| = ", e, " eigenvalues ", showv(std::vector<double>(w.begin(), w.end())), " noise ", small));
        // average log likelihood under N(mean, covariance)
        auto score = [&](const Mat& zc) {
            ref::LM A = ref::of(mc); long double ld = 0, sum = 0; ref::solve(A, {}, &ld);
            for (long i = 0; i < zc.rows(); ++i) { std::vector<long double> b(d); for (int j = 0; j < d; ++j) b[j] = zc(i, j); auto sv = ref::solve(A, b); for (int j = 0; j < d; ++j) sum += b[j] * sv[j]; }
            return (double)(-0.5L * sum / zc.rows() - 0.5L * ld - 0.5L * d * logl(2 * 3.14159265358979323846L));
        };
        double rt = 1e-6 + 1e-12 * w0 / small;
        c.req(close(t.score(x), score(xc), rt, rt), "score", S(t.score(x), " want ", score(xc)));
        c.req(close(t.score(y), score(yc), rt, rt), "score-new", S(t.score(y), " want ", score(yc)));
    }
    c.req(samem(x, x0), "input-changed", "the input was changed");
    c.ev("components", k);
}
