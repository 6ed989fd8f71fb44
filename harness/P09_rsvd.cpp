// randomised SVD and TruncatedSVD: orthonormal factors, no singular value overestimated, accuracy
#include "eig.hpp"
#include "gen.hpp"
#include <src/methods/decomposition/truncated_svd.hpp>
using namespace mon;
namespace ma = openml::math;

struct Made { Mat x; std::vector<double> s; int k, p, it; std::string norm; };
static Made make(Ctx& c) {
    Rng& r = c.rng; Made m;
    int n = mon::dim(r, 3, 40, 160), d = mon::dim(r, 3, 24, 90), mn = std::min(n, d);
    m.k = r.irange(1, std::max(1, mn / 2)); m.p = r.irange(0, mn - m.k);
    if (r.coin(0.7)) m.p = std::min(mn - m.k, std::max(m.p, 4));
    m.it = r.irange(2, 6); m.norm = std::vector<std::string>{"LU", "QR", "LU", "QR", "None"}[r.irange(0, 4)];
    int rank = r.coin(0.3) ? r.irange(1, mn) : mn;
    m.s.resize(rank);
    double sc = std::pow(10.0, m.norm != "None" && r.coin(0.2) ? r.uni(-9, 9) : r.uni(-2, 2)), dec = m.norm == "None" ? r.uni(0.75, 0.95) : r.uni(0.3, 0.95);
    for (int i = 0; i < rank; ++i) m.s[i] = sc * std::pow(dec, i);
    m.x = gen::with_singular(r, n, d, m.s);
    m.s.resize(mn, 0.0);
    c.mixm(m.x); c.mix(m.k); c.mix(m.p); c.mix(m.it); c.nontrivial = true; set_entropy(r.next());
    c.dump << n << "x" << d << " k=" << m.k << " oversamples=" << m.p << " iterations=" << m.it << " normalizer=" << m.norm << " singular values " << showv(m.s, 12);
    return m;
}
static double orthdev(const Mat& q) { return ref::maxdiff(ref::mul(ref::tr(q), q), Mat::Identity(q.cols(), q.cols()).eval()); }
// the largest relative loss the randomised range finder may have: generous, and tiny when the tail is tiny
static double slack(const Made& m) {
    int l = m.k + m.p;
    double tail = l < (int)m.s.size() ? m.s[l] : 0;
    double head = m.s[m.k - 1];
    if (head <= 0) return 1;
    // without normalisation between the iterations rounding hides the small directions
    double lost = m.norm == "None" ? 1e-12 / std::pow(head / m.s[0], 2 * m.it) : 0;
    return std::min(1.0, lost + std::pow(tail / head, 2 * m.it + 1) * 3000 * m.s.size());
}
SCENARIO(randomized_svd, 300, 5000) {
    Made m = make(c); const Mat x0 = m.x; int n = m.x.rows(), d = m.x.cols();
    bool flip = c.rng.coin(0.7);
    Mat U, Vt; Vec s; std::tie(U, s, Vt) = ma::randomized_svd<Mat, Vec, IVec>(m.x, m.k, m.p, m.it, m.norm, flip);
    if (!c.req(U.rows() == n && U.cols() == m.k && s.size() == m.k && Vt.rows() == m.k && Vt.cols() == d, "shape", S(show(U), show(s), show(Vt)))) return;
    double tol = 1e-9;
    c.req(orthdev(U) <= tol && orthdev(ref::tr(Vt)) <= tol, "orthonormal", S(orthdev(U), " ", orthdev(ref::tr(Vt))));
    double e = slack(m);
    c.ev(e < 1e-6 ? "fully resolved" : "partly resolved");
    for (int i = 0; i < m.k; ++i) {
        c.req(s(i) >= 0 && (i == 0 || s(i) <= s(i - 1)), "order", show(s));
        c.req(s(i) <= m.s[i] * (1 + 1e-9) + 1e-10 * m.s[0], "overestimate", S("s", i, " = ", s(i), " true ", m.s[i]));
        if (e < 0.1) c.req(s(i) >= m.s[i] * (1 - e) - 1e-9 * m.s[0], "underestimate", S("s", i, " = ", s(i), " true ", m.s[i], " allowed relative loss ", e));
    }
    // factors belong together: U'X = diag(s) Vt on the captured subspace
    Mat ux = ref::mul(ref::tr(U), m.x);
    for (int i = 0; i < m.k; ++i) for (int j = 0; j < d; ++j)
        if (!c.req(std::fabs(ux(i, j) - s(i) * Vt(i, j)) <= 1e-8 * m.s[0], "pairing", S("component ", i, ": U'X differs from s*Vt"))) return;
    if (flip) for (int l = 0; l < m.k; ++l) {
        double best = 0, b2 = 0, sg = 0;
        for (int i = 0; i < n; ++i) { double v = std::fabs(U(i, l)); if (v > best) { b2 = best; best = v; sg = U(i, l); } else b2 = std::max(b2, v); }
        c.req(sg > 0 || best - b2 < 1e-9, "sign", S("component ", l));
    }
    c.req(samem(m.x, x0), "input-changed", "the input was changed");
}
SCENARIO(rsvd_limits, 60, 600) {
    Rng& r = c.rng; int n = r.irange(2, 10), d = r.irange(2, 10), mn = std::min(n, d);
    Mat x = gen::mat(r, n, d, 0); c.mixm(x); c.nontrivial = true;
    int k = r.irange(1, mn + 2), p = std::max(0, mn + 1 - k) + r.irange(0, 3);
    c.dump << n << "x" << d << " k=" << k << " oversamples=" << p;
    c.req(throws([&] { ma::randomized_svd<Mat, Vec, IVec>(x, k, p, 2, "LU", true); }), "size-accepted", "k+p > min(n,d) accepted");
    c.req(throws([&] { ma::randomized_svd<Mat, Vec, IVec>(x, 1, 0, 2, "lu?", true); }), "normalizer-accepted", "unknown normalizer accepted");
    c.ev("rejections", 2);
}
SCENARIO(truncated_svd, 250, 4000) {
    Made m = make(c); int n = m.x.rows(), d = m.x.cols();
    const Mat x0 = m.x;
    openml::decomposition::TruncatedSVD<double> t(m.k, m.p, m.it, "randomized", m.norm);
    if (c.rng.coin(0.3)) { int dd = c.rng.irange(m.k + m.p, m.k + m.p + 4); t.fit(gen::mat(c.rng, m.k + m.p + 2, dd, 0)); c.ev("refits"); }
    t.fit(m.x);
    Mat C = t.get_components(); Vec s = t.get_singular_values(), ev = t.get_explained_var(), er = t.get_explained_var_ratio();
    if (!c.req(C.rows() == m.k && C.cols() == d && s.size() == m.k && ev.size() == m.k && er.size() == m.k, "shape", S(show(C), show(s), show(ev)))) return;
    c.req(orthdev(ref::tr(C)) <= 1e-9, "orthonormal", S(orthdev(ref::tr(C))));
    double e = slack(m);
    for (int i = 0; i < m.k; ++i) {
        c.req(s(i) <= m.s[i] * (1 + 1e-9) + 1e-10 * m.s[0], "overestimate", S("s", i, " = ", s(i), " true ", m.s[i]));
        if (e < 0.1) c.req(s(i) >= m.s[i] * (1 - e) - 1e-9 * m.s[0], "underestimate", S("s", i, " = ", s(i), " true ", m.s[i]));
    }
    auto colvar = [&](const Mat& z, int j) { long double mu = 0, v = 0; for (long i = 0; i < z.rows(); ++i) mu += z(i, j); mu /= z.rows(); for (long i = 0; i < z.rows(); ++i) v += (z(i, j) - mu) * (z(i, j) - mu); return (double)(v / z.rows()); };
    Mat z = ref::mul(m.x, ref::tr(C)), tz = t.transform(m.x);
    c.req(tz.rows() == n && tz.cols() == m.k && ref::maxdiff(tz, z) <= 1e-11 * m.s[0], "transform", S("differs from X*C' by ", ref::maxdiff(tz, z)));
    double tot = 0; for (int j = 0; j < d; ++j) tot += colvar(m.x, j);
    for (int i = 0; i < m.k; ++i) {
        double w = colvar(z, i);
        c.req(close(ev(i), w, 1e-9, 1e-12 * m.s[0] * m.s[0]), "explained-variance", S("component ", i, ": ", ev(i), " want ", w));
        if (tot > 1e-6 * m.s[0] * m.s[0]) c.req(close(er(i), w / tot, 1e-8, 1e-9), "explained-ratio", S("component ", i, ": ", er(i), " want ", w / tot));
    }
    Mat y = gen::mat(c.rng, c.rng.irange(1, 6), d, 0), ty = t.transform(y);
    c.req(ty.rows() == y.rows() && ref::maxdiff(ty, ref::mul(y, ref::tr(C))) <= 1e-11, "transform-new", "transform of new data is not y*C'");
    c.req(samem(m.x, x0), "input-changed", "the input was changed");
    c.ev("components", m.k);
}
