// matrix factorisations: each result has its defining properties, checked with naive long-double algebra
#include "eig.hpp"
#include "gen.hpp"
using namespace mon;
namespace ma = openml::math;

static Mat anymat(Rng& r, int n, int d) {
    if (r.coin(0.25)) {                    // rank deficient
        int k = r.irange(1, std::min(n, d));
        Mat a = gen::mat(r, n, k, gen::GRID), b = gen::mat(r, k, d, gen::GRID);
        return ref::mul(a, b);
    }
    return gen::data(r, n, d);
}
// now and then everything is tiny or huge: no result may depend on the absolute scale
static double rescale(Ctx& c, Mat& x) { double f = 1; if (c.rng.coin(0.15)) { f = std::ldexp(1.0, c.rng.irange(-120, 120)); x *= f; c.ev("scaled matrices"); } return f; }
static double orthdev(const Mat& q) {      // |q'q - I|
    Mat g = ref::mul(ref::tr(q), q);
    return ref::maxdiff(g, Mat::Identity(q.cols(), q.cols()).eval());
}
SCENARIO(lu, 500, 8000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 14, 80), d = mon::dim(r, 1, 14, 80);
    Mat x = anymat(r, n, d); rescale(c, x); const Mat x0 = x; int k = std::min(n, d);
    c.mixm(x); c.nontrivial = n * d > 1; c.dump << "x=" << show(x);
    Mat P, L, U, PL, L2, U2;
    std::tie(P, L, U) = ma::lu<Mat>(x);
    std::tie(PL, L2, U2) = ma::lu<Mat>(x, true);
    if (!c.req(P.rows() == n && P.cols() == n && L.rows() == n && L.cols() == k && U.rows() == k && U.cols() == d && PL.rows() == n && PL.cols() == k, "shape",
               S(show(P), show(L), show(U), show(PL)))) return;
    double sc = std::max(ref::maxabs(x), 1e-300);
    for (int i = 0; i < n; ++i) {
        int ones = 0, oc = 0;
        for (int j = 0; j < n; ++j) { c.req(P(i, j) == 0 || P(i, j) == 1, "permutation", show(P)); ones += P(i, j) == 1; oc += P(j, i) == 1; }
        c.req(ones == 1 && oc == 1, "permutation", show(P));
        for (int j = 0; j < k; ++j) c.req(j > i ? L(i, j) == 0 : j == i ? L(i, j) == 1 : std::fabs(L(i, j)) <= 1 + 1e-12, "unit-lower", show(L));
    }
    for (int i = 0; i < k; ++i) for (int j = 0; j < std::min(i, d); ++j) c.req(U(i, j) == 0, "upper", show(U));
    double tol = 1e-13 * sc * k * std::pow(2.0, std::min(k, 6));
    Mat LU = ref::mul(L, U);
    c.req(ref::maxdiff(ref::mul(P, LU), x) <= tol, "product", S("|P*L*U - x| = ", ref::maxdiff(ref::mul(P, LU), x)));
    c.req(ref::maxdiff(ref::mul(PL, U2), x) <= tol, "permuted-product", S("|(PL)*U - x| = ", ref::maxdiff(ref::mul(PL, U2), x)));
    c.req(samem(x, x0), "input-changed", "the input was changed");
    c.ev("lu factorisations", 2);
}
SCENARIO(qr, 500, 8000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 14, 80), d = mon::dim(r, 1, 14, 80); bool full = r.coin();
    Mat x = anymat(r, n, d); rescale(c, x); const Mat x0 = x; int k = full ? n : std::min(n, d);
    c.mixm(x); c.mix(full); c.nontrivial = n * d > 1; c.dump << "full=" << full << " x=" << show(x);
    Mat Q, R; std::tie(Q, R) = ma::qr<Mat>(x, full);
    if (!c.req(Q.rows() == n && Q.cols() == k && R.rows() == k && R.cols() == d, "shape", S(show(Q), show(R)))) return;
    for (int i = 0; i < k; ++i) for (int j = 0; j < std::min(i, d); ++j) c.req(R(i, j) == 0, "upper", show(R));
    c.req(orthdev(Q) <= 1e-12, "orthogonal", S("|Q'Q - I| = ", orthdev(Q)));
    double e = ref::maxdiff(ref::mul(Q, R), x);
    c.req(e <= 1e-12 * std::max(ref::maxabs(x), 1e-300) * (n + d), "product", S("|QR - x| = ", e));
    c.req(samem(x, x0), "input-changed", "the input was changed");
    c.ev("qr factorisations");
}
static void svd_case(Ctx& c, Mat x, bool full) {
    int n = x.rows(), d = x.cols(); rescale(c, x);
    const Mat x0 = x; int k = std::min(n, d);
    c.mixm(x); c.mix(full); c.nontrivial = n * d > 1; c.dump << "full=" << full << " x=" << show(x);
    c.ev(d < 16 ? "narrow" : "wide");
    Mat U, V; Vec s; std::tie(U, s, V) = ma::exact_svd<Mat, Vec>(x, full);
    if (!c.req(s.size() == k && U.rows() == n && V.rows() == d && U.cols() == (full ? n : k) && V.cols() == (full ? d : k), "shape", S(show(U), show(s), show(V)))) return;
    c.req(orthdev(U) <= 1e-11 && orthdev(V) <= 1e-11, "orthogonal", S(orthdev(U), " ", orthdev(V)));
    for (int i = 0; i < k; ++i) c.req(s(i) >= 0 && (i == 0 || s(i) <= s(i - 1)), "order", show(s));
    Mat y = Mat::Zero(n, d);
    for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) for (int l = 0; l < k; ++l) y(i, j) += U(i, l) * s(l) * V(j, l);
    double e = ref::maxdiff(x, y);
    c.req(e <= 1e-12 * std::max(1e-300, (double)s(0)) * (n + d), "product", S("|U s V' - x| = ", e));
    c.req(samem(x, x0), "input-changed", "the input was changed");
}
SCENARIO(svd, 400, 6000) {
    Rng& r = c.rng; bool big = r.coin(0.15); int n = r.irange(1, big ? 40 : 14), d = big ? r.irange(14, 28) : r.irange(1, 15); bool full = r.coin();
    svd_case(c, anymat(r, n, d), full);
}
// equal and nearly equal singular values: covariance-like spectra, low rank plus a flat floor
SCENARIO(svd_clustered, 400, 6000) {
    Rng& r = c.rng; int n = r.irange(14, 26), d = r.coin() ? n : r.irange(14, 26), k = std::min(n, d); bool full = r.coin();
    int h = r.irange(0, k); double dec = r.uni(0.1, 0.9), floor = r.coin(0.2) ? 0 : std::pow(10.0, r.uni(-7, 1)); std::vector<double> s(k);
    for (int i = 0; i < k; ++i) s[i] = i < h ? 100 * std::pow(dec, i) : floor;
    if (r.coin(0.3)) for (int i = 1; i < k; ++i) if (r.coin()) s[i] = s[i - 1];
    Mat x;
    if (n == d && r.coin(0.7)) { Mat q = gen::orth(r, n, n); x = Mat::Zero(n, n); for (int l = 0; l < n; ++l) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) x(i, j) += q(i, l) * s[l] * q(j, l); }
    else x = gen::with_singular(r, n, d, s);
    svd_case(c, x, full);
}
SCENARIO(svd_flip, 300, 4000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 12, 80), d = mon::dim(r, 1, 12, 80), k = std::min(n, d); bool ub = r.coin();
    Mat U = gen::orth(r, n, k), Vt = ref::tr(gen::orth(r, d, k)), U2, V2;
    c.mixm(U); c.mix(ub); c.nontrivial = true; c.dump << "u_based=" << ub << " U=" << show(U) << " Vt=" << show(Vt);
    if (ub && r.coin()) std::tie(U2, V2) = ma::svd_flip<Mat, Vec, IVec>(U, Vt); else std::tie(U2, V2) = ma::svd_flip<Mat, Vec, IVec>(U, Vt, ub);
    if (!c.req(U2.rows() == n && U2.cols() == k && V2.rows() == k && V2.cols() == d, "shape", show(U2))) return;
    for (int l = 0; l < k; ++l) {
        double best = 0, sg = 0, b2 = 0;
        for (int i = 0; i < (ub ? n : d); ++i) { double v = ub ? U2(i, l) : V2(l, i); if (std::fabs(v) > best) { b2 = best; best = std::fabs(v); sg = v; } else b2 = std::max(b2, std::fabs(v)); }
        c.req(sg > 0 || best - b2 < 1e-12, "sign", S("component ", l, " has a negative largest loading"));
        // the pair is flipped together
        double f = 0;
        for (int i = 0; i < n; ++i) if (U(i, l) != 0) { f = U2(i, l) / U(i, l); break; }
        bool ok = f == 1 || f == -1;
        for (int i = 0; i < n; ++i) ok = ok && U2(i, l) == f * U(i, l);
        for (int j = 0; j < d; ++j) ok = ok && V2(l, j) == f * Vt(l, j);
        c.req(ok, "pairing", S("component ", l, " of U and V were not flipped together"));
    }
    c.ev("components", k);
}
SCENARIO(cholesky, 400, 6000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 12, 70);
    std::vector<double> w(n); for (auto& e : w) e = std::pow(10.0, r.uni(-3, 3));
    Mat q = gen::orth(r, n, n), x(n, n);
    bool indef = r.coin(0.25);
    if (indef) w[r.irange(0, n - 1)] *= -1;
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) { long double s = 0; for (int k = 0; k < n; ++k) s += (long double)q(i, k) * w[k] * q(j, k); x(i, j) = x(j, i) = (double)s; }
    rescale(c, x); c.mixm(x); c.nontrivial = true; c.dump << "x=" << show(x);
    if (indef) { c.ev("indefinite"); c.req(throws([&] { ma::cholesky<Mat>(x); }), "indefinite-accepted", "a matrix with a negative eigenvalue was factorised"); return; }
    Mat L = ma::cholesky<Mat>(x, true), U = ma::cholesky<Mat>(x, false);
    if (!c.req(L.rows() == n && L.cols() == n && U.rows() == n && U.cols() == n, "shape", show(L))) return;
    for (int i = 0; i < n; ++i) { c.req(L(i, i) > 0 && U(i, i) > 0, "diagonal", show(L)); for (int j = i + 1; j < n; ++j) c.req(L(i, j) == 0 && U(j, i) == 0, "triangle", show(L)); }
    double tol = 1e-13 * ref::maxabs(x) * n;
    c.req(ref::maxdiff(ref::mul(L, ref::tr(L)), x) <= tol, "lower-product", S(ref::maxdiff(ref::mul(L, ref::tr(L)), x)));
    c.req(ref::maxdiff(ref::mul(ref::tr(U), U), x) <= tol, "upper-product", S(ref::maxdiff(ref::mul(ref::tr(U), U), x)));
    c.ev("positive definite");
}
SCENARIO(pinv, 400, 6000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 12, 60), d = mon::dim(r, 1, 12, 60), k = r.irange(1, std::min(n, d));
    bool wide = r.coin(0.3); double wlo = INFINITY, whi = 0;             // every singular value is far above the cutoff, zeros far below
    std::vector<double> w(k); for (auto& e : w) { e = std::pow(10.0, wide ? r.uni(-4, 4) : r.uni(-1.5, 2)); wlo = std::min(wlo, e); whi = std::max(whi, e); }
    Mat x = gen::with_singular(r, n, d, w); double f = rescale(c, x); const Mat x0 = x;
    c.mixm(x); c.nontrivial = true; c.dump << "singular values " << showv(w) << " x=" << show(x);
    c.ev(k < std::min(n, d) ? "rank deficient" : "full rank");
    Mat p = f == 1 ? ma::pinv<Mat, Vec>(x) : ma::pinv<Mat, Vec>(x, 1e-6 * f);      // the cutoff is absolute
    if (!c.req(p.rows() == d && p.cols() == n, "shape", show(p))) return;
    double sx = ref::maxabs(x), sp = ref::maxabs(p);
    Mat xp = ref::mul(x, p), px = ref::mul(p, x);
    double tol = std::max(1e-9, 1e-13 * whi / wlo * std::max(n, d)), tr = 0;
    for (int i = 0; i < d; ++i) tr += px(i, i);
    c.req(std::abs(tr - k) <= 0.01, "rank", S("trace of pinv(X) X is ", tr, ", the rank is ", k));
    c.req(ref::maxdiff(ref::mul(xp, x), x) <= tol * sx, "penrose1", S(ref::maxdiff(ref::mul(xp, x), x)));
    c.req(ref::maxdiff(ref::mul(px, p), p) <= tol * sp, "penrose2", S(ref::maxdiff(ref::mul(px, p), p)));
    c.req(ref::maxdiff(xp, ref::tr(xp)) <= tol, "penrose3", S(ref::maxdiff(xp, ref::tr(xp))));
    c.req(ref::maxdiff(px, ref::tr(px)) <= tol, "penrose4", S(ref::maxdiff(px, ref::tr(px))));
    c.req(samem(x, x0), "input-changed", "the input was changed");
}
SCENARIO(logdet, 400, 6000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 20, 80);
    Mat x = gen::orth(r, n, n);
    for (int j = 0; j < n; ++j) x.col(j) *= std::pow(10.0, r.coin(0.3) ? r.uni(-30, 30) : r.uni(-1, 1));
    if (r.coin(0.5) && n > 1) { Mat y = x; std::vector<double> w(n); for (auto& e : w) e = std::pow(10.0, r.uni(-2, 2)); Mat q = gen::orth(r, n, n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { long double s = 0; for (int k = 0; k < n; ++k) s += (long double)q(i, k) * w[k] * q(j, k); x(i, j) = (double)s; } }
    if (n <= 20 && r.coin(0.15)) { x *= std::pow(10.0, r.uni(-60, 60)); c.ev("scaled matrices"); }       // the determinant itself is out of range
    c.mixm(x); c.nontrivial = true; c.dump << "x=" << show(x);
    long double ld; int sg; ref::solve(ref::of(x), {}, &ld, &sg);
    double g = ma::logdet<Mat>(x);
    if (sg < 0) c.req(g == -INFINITY, "negative", S("determinant is negative, logdet ", g));
    else c.req(close(g, (double)ld, 1e-10, 1e-8 * n), "value", S(g, " want ", (double)ld));
    c.ev(sg < 0 ? "negative determinants" : "positive determinants");
}
SCENARIO(eig, 300, 4000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 10, 40);
    // real spectrum: symmetric, or similar to a diagonal matrix by a well conditioned transformation
    std::vector<double> w(n); for (int i = 0; i < n; ++i) w[i] = i - n / 2 + r.uni(-0.3, 0.3);
    bool sym = r.coin(); Mat t = gen::orth(r, n, n);
    if (!sym) for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) t(i, j) *= 1 + 0.3 * r.u() * (i <= j);
    ref::LM a = ref::of(t); Mat ti(n, n);
    for (int j = 0; j < n; ++j) { std::vector<long double> e(n, 0); e[j] = 1; auto s = ref::solve(a, e); for (int i = 0; i < n; ++i) ti(i, j) = (double)s[i]; }
    double cond = ref::maxabs(t) * ref::maxabs(ti) * n; if (cond > 200) return;
    Mat dg = Mat::Zero(n, n); for (int i = 0; i < n; ++i) dg(i, i) = w[i];
    Mat x = ref::mul(ref::mul(t, dg), ti); if (sym) for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) x(i, j) = x(j, i);
    // nearly symmetric: the residual of each pair must still be at the level of rounding
    bool near = sym && n > 1 && r.coin(0.4); double as = near ? std::pow(10.0, r.uni(-9, -4)) : 0; if (near) { for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) { double e = as * r.uni(-1, 1); x(i, j) += e; x(j, i) -= e * r.u(); } c.ev("nearly symmetric matrices"); }
    c.mixm(x); c.nontrivial = n > 1; c.dump << "eigenvalues " << showv(w) << " x=" << show(x);
    Mat l, v; std::tie(l, v) = ma::eig<Mat>(x);
    if (!c.req(l.size() == n && v.rows() == n && v.cols() == n, "shape", show(l))) return;
    std::vector<double> g(l.data(), l.data() + n), ws = w; std::sort(g.begin(), g.end()); std::sort(ws.begin(), ws.end());
    for (int i = 0; i < n; ++i) c.req(close(g[i], ws[i], 0, 1e-9 * cond * n + as * n), "eigenvalues", S(showv(g), " want ", showv(ws)));
    for (int j = 0; j < n; ++j) {
        double nv = 0, e = 0;
        for (int i = 0; i < n; ++i) { nv = std::max(nv, std::fabs(v(i, j))); long double s = 0; for (int k = 0; k < n; ++k) s += (long double)x(i, k) * v(k, j); e = std::max(e, (double)fabsl(s - (long double)l(j) * v(i, j))); }
        c.req(nv > 0.1 / n && e <= 1e-12 * cond * n * n * nv, "eigenvectors", S("pair ", j, " residual ", e));
    }
    c.ev("eigenpairs", n);
    c.req(throws([&] { Mat z(0, 0); ma::eig<Mat>(z); }), "empty-accepted", "an empty matrix was accepted");
}
