// shaping, element-wise and statistics utilities against naive references
#include "gen.hpp"
using namespace mon;
namespace cm = openml::common;
namespace ma = openml::math;

SCENARIO(shaping, 600, 10000) {
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 12, 200), d = mon::dim(r, 1, 12, 200), n2 = mon::dim(r, 1, 12, 200), d2 = mon::dim(r, 1, 12, 200);
    Mat x = gen::data(r, n, d), h = gen::data(r, n, d2), v = gen::data(r, n2, d);
    const Mat x0 = x;
    c.mixm(x); c.mixm(h); c.nontrivial = n * d > 1;
    c.dump << "x=" << show(x) << " h=" << show(h) << " v=" << show(v);
    Mat a = cm::hstack<Mat>(x, h), b = cm::vstack<Mat>(x, v);
    bool ok = a.rows() == n && a.cols() == d + d2;
    for (int i = 0; ok && i < n; ++i) for (int j = 0; j < d + d2; ++j) ok = ok && a(i, j) == (j < d ? x(i, j) : h(i, j - d));
    c.req(ok, "hstack", show(a));
    ok = b.rows() == n + n2 && b.cols() == d;
    for (int i = 0; ok && i < n + n2; ++i) for (int j = 0; j < d; ++j) ok = ok && b(i, j) == (i < n ? x(i, j) : v(i - n, j));
    c.req(ok, "vstack", show(b));
    if (n2 != n) c.req(throws([&] { cm::hstack<Mat>(x, v); }), "hstack-mismatch", "hstack accepted different numbers of rows");
    if (d2 != d) c.req(throws([&] { cm::vstack<Mat>(x, h); }), "vstack-mismatch", "vstack accepted different numbers of columns");
    Vec f = cm::flatten<Mat, Vec>(x);
    ok = f.size() == n * d;
    for (int i = 0; ok && i < n; ++i) for (int j = 0; j < d; ++j) ok = ok && f(i * d + j) == x(i, j);
    c.req(ok, "flatten", show(f));
    int rep = r.coin(0.1) ? r.irange(5, 260) : r.irange(1, 4), axis = r.irange(0, 1);
    Mat p = cm::repeat<Mat>(x, rep, axis);
    ok = p.rows() == (axis ? n : n * rep) && p.cols() == (axis ? d * rep : d);
    for (long i = 0; ok && i < p.rows(); ++i) for (long j = 0; j < p.cols(); ++j) ok = ok && p(i, j) == x(i % n, j % d);
    c.req(ok, "repeat", S("repeats=", rep, " axis=", axis, " ", show(p)));
    std::vector<std::vector<double>> vv(n, std::vector<double>(d));
    std::vector<double> fl;
    for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) { vv[i][j] = x(i, j); fl.push_back(x(i, j)); }
    c.req(samem(cm::vec2mat<Mat>(vv), x), "vec2mat", "vec2mat changed an element");
    Vec v1 = cm::vec2mat<Vec>(fl);
    c.req(samem(v1, f), "vec2mat-vector", show(v1));
    if (n > 1) { auto bad = vv; auto& row = bad[r.irange(1, n - 1)]; if (r.coin()) row.push_back(1); else row.pop_back();
        c.req(throws([&] { cm::vec2mat<Mat>(bad); }), "vec2mat-ragged", "vec2mat accepted rows of different length"); }
    // nested vectors of unequal length
    std::vector<std::vector<double>> ragged(r.irange(0, 6)); std::vector<double> want;
    for (auto& row : ragged) { row.resize(r.irange(0, 4)); for (auto& e : row) { e = r.irange(0, 9); want.push_back(e); } }
    c.req(cm::flatten<std::vector<double>>(ragged) == want, "flatten-nested", showvv(ragged));
    double lo = r.uni(-2, 1), hi = lo + r.uni(0, 3), y = r.uni(-2, 2);
    Mat cl = cm::clip<Mat>(x, hi, lo), fm = cm::fmin<Mat>(x, y);
    for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) {
        c.req(cl(i, j) == (x(i, j) < lo ? lo : x(i, j) > hi ? hi : x(i, j)), "clip", S("clip(", x(i, j), ",", lo, ",", hi, ") = ", cl(i, j)));
        c.req(fm(i, j) == (x(i, j) < y ? x(i, j) : y), "fmin", S("fmin(", x(i, j), ",", y, ") = ", fm(i, j)));
    }
    Vec dv = gen::vec(r, d, gen::MIXED);
    Mat dm = ma::diagmat<Mat, Vec>(dv);
    ok = dm.rows() == d && dm.cols() == d;
    for (int i = 0; ok && i < d; ++i) for (int j = 0; j < d; ++j) ok = ok && dm(i, j) == (i == j ? dv(i) : 0);
    c.req(ok, "diagmat", show(dm));
    long num = (long)(r.next() % 2000000) - 1000000;
    c.req(cm::string_to_integer<long>(S(num)) == num, "string_to_integer", S(num));
    std::map<int, double> mp; for (int k = r.irange(1, 8); k; --k) mp[r.irange(0, 20)] = r.irange(0, 5);
    auto me = cm::max_element(mp); double mxv = -1; for (auto& kv : mp) mxv = std::max(mxv, kv.second);
    c.req(me.second == mxv && mp.count(me.first) && mp[me.first] == mxv, "max_element", S(me.first, "->", me.second, " want ", mxv));
    c.req(samem(x, x0), "input-changed", "an input was changed");
    c.ev("shaping calls", 12);
}

// every statistic over axis 0, 1, -1; tolerance grows with the magnitude of the data, not with its spread squared
template <class M, class V> static void stats_case(Ctx& c, double eps) {
    using T = typename M::Scalar;
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 24, 2000), d = mon::dim(r, 1, 12, 120), axis = r.irange(-1, 1), kind; if (mon::huge(r, n, d)) c.ev("more than 65000 rows");
    M x = gen::data<M>(r, n, d, &kind);
    if (sizeof(T) == 8 && r.coin(0.15)) x.array() += (T)1e8;    // far from zero
    const M x0 = x;
    c.mixm(x); c.mix(axis + 1); c.nontrivial = n * d > 2;
    c.dump << "axis=" << axis << " x=" << show(x);
    int lines = axis == 1 ? n : axis == 0 ? d : 1, len = axis == 1 ? d : axis == 0 ? n : n * d;
    auto at = [&](int l, int k) -> long double { return axis == 1 ? x(l, k) : axis == 0 ? x(k, l) : x(k / d, k % d); };
    M sm = ma::sum<M>(x, axis), mn = ma::mean<M>(x, axis), vr = ma::var<M>(x, axis);
    V md = ma::median<M, V>(x, axis);
    M cs = ma::cumsum<M, V>(x, axis);
    c.ev("lines reduced", lines);
    auto el = [&](const M& m, int l) -> double { return axis == 1 ? m(l, 0) : m(0, l); };
    auto shape = [&](const M& m) { return m.rows() == (axis == 1 ? n : 1) && m.cols() == (axis == 0 ? d : 1); };
    if (!c.req(shape(sm) && shape(mn) && shape(vr) && md.size() == lines, "shape", S(show(sm), show(mn), show(vr), show(md)))) return;
    if (!c.req(axis == -1 ? cs.rows() == n * d && cs.cols() == 1 : cs.rows() == n && cs.cols() == d, "cumsum-shape", show(cs))) return;
    for (int l = 0; l < lines; ++l) {
        long double s = 0, sa = 0, v = 0, run = 0;
        std::vector<long double> srt;
        for (int k = 0; k < len; ++k) { s += at(l, k); sa += fabsl(at(l, k)); srt.push_back(at(l, k)); }
        long double m = s / len, amax = 0;
        for (int k = 0; k < len; ++k) { v += (at(l, k) - m) * (at(l, k) - m); amax = std::max(amax, fabsl(at(l, k))); }
        v /= len;
        std::sort(srt.begin(), srt.end());
        long double med = len % 2 ? srt[len / 2] : (srt[len / 2] + srt[len / 2 - 1]) / 2;
        double tol = eps * (double)sa * len + 1e-300;
        c.req(std::fabs(el(sm, l) - (double)s) <= tol, "sum", S("line ", l, ": ", el(sm, l), " want ", (double)s));
        c.req(std::fabs(el(mn, l) - (double)m) <= tol, "mean", S("line ", l, ": ", el(mn, l), " want ", (double)m));
        // error of a two-pass variance: relative in v, plus the squared error of the mean, plus cancellation of each difference
        double vt = eps * len * 8 * (double)v + std::pow(eps * len * (double)amax, 2) * 8 + eps * 16 * (double)amax * std::sqrt((double)v) ;
        c.req(el(vr, l) >= 0 && std::fabs(el(vr, l) - (double)v) <= vt, "var", S("line ", l, ": ", el(vr, l), " want ", (double)v, " tolerance ", vt));
        c.req(close((double)md(l), (double)med, 4 * eps, 1e-300), "median", S("line ", l, ": ", md(l), " want ", (double)med));
        for (int k = 0; k < len; ++k) {
            run += at(l, k);
            double g = axis == 1 ? cs(l, k) : axis == 0 ? cs(k, l) : cs(k, 0);
            if (!c.req(std::fabs(g - (double)run) <= tol, "cumsum", S("line ", l, " position ", k, ": ", g, " want ", (double)run))) break;
        }
    }
    c.req(samem(x, x0), "input-changed", "an input was changed");
    int bad = r.coin() ? r.irange(2, 9) : -r.irange(2, 9);
    c.req(throws([&] { ma::sum<M>(x, bad); }) && throws([&] { ma::mean<M>(x, bad); }) && throws([&] { ma::var<M>(x, bad); }) &&
          throws([&] { ma::median<M, V>(x, bad); }) && throws([&] { ma::cumsum<M, V>(x, bad); }), "axis-accepted", S("axis ", bad, " accepted"));
}
SCENARIO(stats_double, 700, 10000) { stats_case<Mat, Vec>(c, 3e-16); }
SCENARIO(stats_float, 200, 3000) { stats_case<Eigen::MatrixXf, Eigen::VectorXf>(c, 2e-7); }

SCENARIO(norms, 500, 8000) {
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 16, 400), d = mon::dim(r, 1, 10, 120), axis = r.irange(0, 1); if (mon::huge(r, n, d)) c.ev("more than 65000 rows");
    Mat x = gen::data(r, n, d); const Mat x0 = x;
    c.mixm(x); c.mix(axis); c.nontrivial = n * d > 2;
    c.dump << "axis=" << axis << " x=" << show(x);
    int lines = axis ? n : d, len = axis ? d : n;
    auto at = [&](int l, int k) -> long double { return axis ? x(l, k) : x(k, l); };
    Vec n2 = ma::norm2<Mat, Vec>(x, axis);
    Mat m1 = cm::norm<Mat>(x, axis, 1), m2 = cm::norm<Mat>(x, axis, 2), mi = cm::norm<Mat>(x, axis, Eigen::Infinity);
    if (!c.req(n2.size() == lines && m1.size() == lines && m2.size() == lines && mi.size() == lines, "size", "wrong number of norms")) return;
    for (int l = 0; l < lines; ++l) {
        long double a = 0, b = 0, e = 0;
        for (int k = 0; k < len; ++k) { a += fabsl(at(l, k)); b += at(l, k) * at(l, k); e = std::max(e, fabsl(at(l, k))); }
        double w2 = (double)sqrtl(b);
        c.req(close(n2(l), w2, 1e-13, 1e-150) && close(m2(l), w2, 1e-13, 1e-150), "norm2", S("line ", l, ": ", n2(l), " ", m2(l), " want ", w2));
        c.req(close(m1(l), (double)a, 1e-13, 0) && m1.rows() == (axis ? n : 1), "norm1", S("line ", l, ": ", m1(l), " want ", (double)a));
        c.req(mi(l) == (double)e, "norm-inf", S("line ", l, ": ", mi(l), " want ", (double)e));
    }
    Mat rn = ma::row_norms<Mat, Vec>(x, false), rs = ma::row_norms<Mat, Vec>(x, true);
    if (c.req(rn.rows() == n && rn.cols() == 1 && rs.rows() == n && rs.cols() == 1, "row_norms-shape", show(rn)))
        for (int i = 0; i < n; ++i) {
            long double s = 0; for (int j = 0; j < d; ++j) s += (long double)x(i, j) * x(i, j);
            c.req(close(rs(i), (double)s, 1e-13, 0), "row_norms-squared", S("row ", i, ": ", rs(i), " want ", (double)s));
            c.req(close(rn(i), (double)sqrtl(s), 1e-13, 0), "row_norms", S("row ", i, ": ", rn(i), " want ", (double)sqrtl(s)));
        }
    // element-wise
    double e = r.irange(0, 4);
    Mat ab = ma::abs<Mat>(x), sg = ma::sign<Mat>(x), pw = ma::power<Mat>(x, e);
    for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) {
        double v = x(i, j);
        c.req(ab(i, j) == std::fabs(v), "abs", S(v));
        c.req(sg(i, j) == (v > 0) - (v < 0), "sign", S(v, " -> ", sg(i, j)));
        c.req(close(pw(i, j), std::pow(v, e), 1e-13, 0), "power", S(v, "^", e, " -> ", pw(i, j)));
    }
    Mat ce = ma::center<Mat>(x);
    for (int j = 0; j < d; ++j) {
        long double s = 0, am = 0; for (int i = 0; i < n; ++i) { s += x(i, j); am = std::max(am, fabsl((long double)x(i, j))); }
        for (int i = 0; i < n; ++i) if (!c.req(std::fabs(ce(i, j) - (double)(x(i, j) - s / n)) <= 1e-14 * (double)am * n, "center", S("(", i, ",", j, ") ", ce(i, j)))) break;
    }
    if (n > 1) {
        Mat cv = ma::cov<Mat>(x);
        if (c.req(cv.rows() == d && cv.cols() == d, "cov-shape", show(cv)))
            for (int p = 0; p < d; ++p) for (int q = 0; q < d; ++q) {
                long double mp = 0, mq = 0, s = 0, sp = 0, sq = 0, ap = 0, aq = 0;
                for (int i = 0; i < n; ++i) { mp += x(i, p); mq += x(i, q); }
                mp /= n; mq /= n;
                for (int i = 0; i < n; ++i) { s += (x(i, p) - mp) * (x(i, q) - mq); sp += (x(i, p) - mp) * (x(i, p) - mp); sq += (x(i, q) - mq) * (x(i, q) - mq);
                    ap = std::max(ap, fabsl((long double)x(i, p))); aq = std::max(aq, fabsl((long double)x(i, q))); }
                double sdp = (double)sqrtl(sp) + 1e-15 * (double)ap * n, sdq = (double)sqrtl(sq) + 1e-15 * (double)aq * n;
                double tol = (1e-14 * n * sdp * sdq + 1e-15 * n * ((double)ap * sdq + (double)aq * sdp)) / (n - 1);
                c.req(std::fabs(cv(p, q) - (double)(s / (n - 1))) <= tol, "cov", S("(", p, ",", q, ") ", cv(p, q), " want ", (double)(s / (n - 1))));
            }
    }
    c.req(samem(x, x0), "input-changed", "an input was changed");
    c.ev("norm and moment calls", 10);
}
SCENARIO(mode, 300, 5000) {
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 16, 400), d = mon::dim(r, 1, 10, 120), axis = r.irange(0, 1); if (mon::huge(r, n, d)) c.ev("more than 65000 rows");
    Mat x = r.coin(0.6) ? gen::mat(r, n, d, gen::GRID) : r.coin() ? gen::mat(r, n, d, gen::MIXED) : gen::near_mat(r, n, d, gen::near_unit(r), r.irange(-2, 2), r.irange(1, 4));
    c.mixm(x); c.mix(axis); c.nontrivial = n * d > 2;
    c.dump << "axis=" << axis << " x=" << show(x);
    Mat m, k; std::tie(m, k) = ma::mode<Mat>(x, axis);
    int lines = axis ? n : d, len = axis ? d : n;
    if (!c.req(m.size() == lines && k.size() == lines && m.rows() == (axis ? n : 1), "shape", show(m))) return;
    for (int l = 0; l < lines; ++l) {
        std::map<double, int> cnt; int best = 0;
        for (int q = 0; q < len; ++q) best = std::max(best, ++cnt[axis ? x(l, q) : x(q, l)]);
        c.req(k(l) == best && cnt.count(m(l)) && cnt[m(l)] == best, "mode", S("line ", l, ": ", m(l), " x", k(l), " best count ", best));
    }
    c.ev("modes", lines);
}
