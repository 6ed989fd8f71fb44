#include "gen.hpp"
using namespace mon;

// rows carry their own index in the first column; the label is a function of it
static void tag(Mat& X, Vec& y, Rng& r) {
    for (long i = 0; i < X.rows(); ++i) { X(i, 0) = i; for (long j = 1; j < X.cols(); ++j) X(i, j) = 1000.0 * i + j; y(i) = 7.0 * i + 0.5; }
}
static bool row_ok(const Mat& X, long i, double yi, long n) {
    double k = X(i, 0);
    if (!(k >= 0 && k < n) || k != std::floor(k)) return false;
    for (long j = 1; j < X.cols(); ++j) if (X(i, j) != 1000.0 * k + j) return false;
    return yi == 7.0 * k + 0.5;
}
SCENARIO(split, 600, 10000) {
    Rng& r = c.rng;
    int n = r.coin(0.2) ? r.irange(1, 4) : mon::dim(r, 1, 90, 3000), d = mon::dim(r, 1, 5, 40);
    double ts = r.coin(0.15) ? r.pick<double>({0.0, 1.0, 0.5, 0.25, 0.75}) : r.coin(0.3) ? r.irange(1, 99) / 100.0 : r.u();
    bool sh = r.coin(0.6);
    Mat X(n, d); Vec y(n); tag(X, y, r);
    const Mat X0 = X; const Vec y0 = y;
    c.dump << "n=" << n << " d=" << d << " train_size=" << ts << " shuffle=" << sh;
    Mat a, b; Vec p, q;
    std::tie(a, b, p, q) = openml::data::train_test_split<Mat, Vec>(X, y, ts, sh);
    c.mix(n); c.mixd(ts); c.mixm(a); c.nontrivial = n > 1;
    c.ev(sh ? "shuffled splits" : "ordered splits");
    c.req(samem(X, X0) && samem(y, y0), "input-changed", "train_test_split changed its input");
    double exact = n * ts;
    if (!c.req(a.rows() + b.rows() == n && a.rows() == p.rows() && b.rows() == q.rows() && a.cols() == d && b.cols() == d,
               "sizes", S(a.rows(), "+", b.rows(), " rows, ", p.rows(), "+", q.rows(), " labels of ", n))) return;
    if (!c.req(a.rows() == (long)std::floor(exact), "train-size", S(a.rows(), " training rows for n*train_size=", exact))) return;
    std::vector<int> seen(n, 0);
    for (long i = 0; i < n; ++i) {
        const Mat& m = i < a.rows() ? a : b; const Vec& v = i < a.rows() ? p : q; long k = i < a.rows() ? i : i - a.rows();
        if (!c.req(row_ok(m, k, v(k), n), "pairing", S("row ", show(m.row(k)), " label ", v(k), " is no sample of the input"))) return;
        ++seen[(int)m(k, 0)];
        if (!sh && !c.req(m(k, 0) == i, "order", "order not kept without shuffle")) return;
    }
    for (int s : seen) if (!c.req(s == 1, "partition", "a sample is lost or duplicated")) return;
}
SCENARIO(shuffle, 500, 8000) {
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 60, 1500), d = mon::dim(r, 1, 12, 150), what = r.irange(0, 3);
    Mat X(n, d); Vec y(n); tag(X, y, r);
    c.mix(n); c.mix(d); c.mix(what); c.nontrivial = n > 1;
    c.dump << "n=" << n << " d=" << d << " what=" << what;
    if (what <= 1) {                       // paired, in place or not
        Mat Z = what ? Mat(gen::mat(r, r.irange(0, 3), 2, 0)) : X; Vec z = what ? Vec(gen::vec(r, r.irange(0, 3), 0)) : y;
        if (what) {
            openml::random::shuffle_data<Mat, Vec>(X, y, Z, z);
            Mat X0(n, d); Vec y0(n); tag(X0, y0, r);
            c.req(samem(X, X0) && samem(y, y0), "input-changed", "shuffle_data changed its input");
            c.ev("paired shuffles");
        } else {
            openml::random::shuffle_data<Mat, Vec>(Z, z, Z, z);
            c.ev("paired shuffles in place");
        }
        if (!c.req(Z.rows() == n && Z.cols() == d && z.rows() == n, "sizes", "shape changed")) return;
        c.mixm(Z);
        std::vector<int> seen(n, 0);
        for (int i = 0; i < n; ++i) {
            if (!c.req(row_ok(Z, i, z(i), n), "pairing", S("row ", show(Z.row(i)), " label ", z(i)))) return;
            if (!c.req(++seen[(int)Z(i, 0)] == 1, "partition", "a sample is duplicated")) return;
        }
    } else {                               // one matrix, axis 1 = rows, axis 0 = columns
        int axis = what == 2 ? 1 : 0;
        Mat Z;
        openml::random::shuffle_data<Mat>(X, Z, axis);
        c.ev(axis ? "row shuffles" : "column shuffles");
        c.mixm(Z);
        if (!c.req(Z.rows() == n && Z.cols() == d, "sizes", "shape changed")) return;
        if (axis == 1) {
            std::vector<int> seen(n, 0);
            for (int i = 0; i < n; ++i) if (!c.req(row_ok(Z, i, 7.0 * Z(i, 0) + 0.5, n) && ++seen[(int)Z(i, 0)] == 1, "rows", "not a permutation of the rows")) return;
        } else {
            std::set<int> used;
            for (int j = 0; j < d; ++j) {
                int hit = -1;
                for (int k = 0; k < d; ++k) if (!used.count(k) && samem(Mat(Z.col(j)), Mat(X.col(k)))) { hit = k; break; }
                if (!c.req(hit >= 0, "columns", "not a permutation of the columns")) return;
                used.insert(hit);
            }
        }
    }
    Mat Z;
    c.req(throws([&] { openml::random::shuffle_data<Mat>(X, Z, r.coin() ? 2 : -1); }), "axis-accepted", "an axis other than 0 and 1 was accepted");
}
// long inputs: all of them is shuffled, wherever the sample starts
SCENARIO(shuffle_long, 20, 300) {
    Rng& r = c.rng; int what = c.index % 4, n = (int)std::pow(10.0, r.uni(3.2, what == 2 ? 4.0 : 5.0)); std::vector<long> at(n);
    c.mix(n); c.mix(what); c.nontrivial = true; c.dump << "n=" << n << " what=" << what; c.ev("long shuffles");
    Mat X(n, 1), Z; Vec y(n), z; for (int i = 0; i < n; ++i) X(i, 0) = y(i) = i;
    if (what == 0) { openml::random::shuffle_data<Mat, Vec>(X, y, Z, z); if (!c.req(Z.rows() == n && samem(Vec(Z.col(0)), z), "pairing", "samples and labels are shuffled apart")) return; }
    else if (what == 1) { openml::random::shuffle_data<Mat>(X, Z, 1); }
    else if (what == 2) { Mat W = X.transpose(), V; openml::random::shuffle_data<Mat>(W, V, 0); Z = V.transpose(); }
    else { double ts = r.uni(0.1, 0.9); Mat a, b; Vec p, q; std::tie(a, b, p, q) = openml::data::train_test_split<Mat, Vec>(X, y, ts, true); if (!c.req(a.rows() + b.rows() == n, "sizes", "samples lost")) return; Z.resize(n, 1); Z << a, b; z.resize(n); z << p, q; if (!c.req(samem(Vec(Z.col(0)), z), "pairing", "samples and labels are split apart")) return; }
    if (!c.req(Z.rows() == n && Z.cols() == 1, "sizes", "shape changed")) return;
    std::vector<int> seen(n, 0); for (int i = 0; i < n; ++i) { if (!c.req(Z(i, 0) >= 0 && Z(i, 0) < n && !seen[(int)Z(i, 0)]++, "partition", "a sample is lost or duplicated")) return; at[i] = (long)Z(i, 0); }
    c.mixm(Z); int fixed = 0; for (int i = 0; i < n; ++i) fixed += at[i] == i; c.req(fixed <= 30, "unmoved", S(fixed, " of ", n, " samples did not move"));
    for (int b = 0; b < 10; ++b) { double s = 0; int lo = (long)n * b / 10, hi = (long)n * (b + 1) / 10, m = hi - lo; for (int i = lo; i < hi; ++i) s += at[i]; s = (s / m - (n - 1) / 2.0) / (n / std::sqrt(12.0 * m)); c.req(std::fabs(s) < 7, "uneven", S("tenth ", b, " of the result comes from elsewhere than everywhere: ", s, " sigma")); }
}
// every permutation of three samples turns up, and none dominates (3000 draws; each expected 500)
SCENARIO(uniform, 3, 20) {
    std::map<std::string, int> cnt;
    Mat X(3, 1); Vec y(3); X << 0, 1, 2; y << 0, 1, 2;
    set_entropy(c.rng.next());
    for (int k = 0; k < 3000; ++k) {
        Mat a, b; Vec p, q;
        std::tie(a, b, p, q) = openml::data::train_test_split<Mat, Vec>(X, y, 1.0, true);
        ++cnt[show(a)];
    }
    c.nontrivial = true; c.mix(c.index);
    c.ev("permutations seen", cnt.size());
    for (auto& e : cnt) { c.mix(e.second); c.dump << e.first << ":" << e.second << " "; }
    c.req(cnt.size() == 6, "unreachable", S(cnt.size(), " of 6 orders seen in 3000 shuffles"));
    for (auto& e : cnt) c.req(e.second > 330 && e.second < 670, "biased", S("order ", e.first, " seen ", e.second, " times of 3000"));
}

// the same for every way of shuffling, out of place and in place: the orders of four and the number of distinct orders of twenty
static std::vector<double> one_order(int kind, int n) {
    Mat X(n, 2), Z; Vec y(n), q; for (int i = 0; i < n; ++i) { X(i, 0) = i; X(i, 1) = 2 * i; y(i) = i; }
    if (kind == 0) { Mat b; Vec r; std::tie(Z, b, q, r) = openml::data::train_test_split<Mat, Vec>(X, y, 0.5, true); Mat j(n, 2); j << Z, b; Z = j; }
    if (kind == 1) openml::random::shuffle_data<Mat, Vec>(X, y, Z, q);
    if (kind == 2) { openml::random::shuffle_data<Mat, Vec>(X, y, X, y); Z = X; }
    if (kind == 3) openml::random::shuffle_data<Mat>(X, Z, 1);
    if (kind == 4) { openml::random::shuffle_data<Mat>(X, X, 1); Z = X; }
    if (kind == 5) { Mat t = X.transpose(), u; openml::random::shuffle_data<Mat>(t, u, 0); Z = u.transpose(); }
    if (kind == 6) { Mat t = X.transpose(); openml::random::shuffle_data<Mat>(t, t, 0); Z = t.transpose(); }
    std::vector<double> v; for (int i = 0; i < Z.rows(); ++i) v.push_back(Z(i, 0)); return v;
}
SCENARIO(uniform_kinds, 14, 140) {
    int kind = c.index % 7; set_entropy(c.rng.next()); c.nontrivial = true; c.mix(c.index); c.dump << "way " << kind;
    std::map<std::vector<double>, int> f; const int N = 4800;
    for (int k = 0; k < N; ++k) ++f[one_order(kind, 4)];
    for (auto& e : f) c.mix(e.second); c.ev("shuffles", N);
    c.req(f.size() == 24, "unreachable", S(f.size(), " of 24 orders seen in ", N, " shuffles"));
    for (auto& e : f) c.req(e.second > 200 - 7 * 14.2 && e.second < 200 + 7 * 14.2, "biased", S("order ", showv(e.first), " seen ", e.second, " times of ", N));
    std::set<std::vector<double>> u; for (int k = 0; k < 2000; ++k) u.insert(one_order(kind, 20)); c.ev("shuffles", 2000);
    c.req(u.size() >= 1990, "few-orders", S(u.size(), " distinct orders in 2000 shuffles of 20"));
}
// tens of thousands of samples: index arithmetic
SCENARIO(many_samples, 12, 120) {
    Rng& r = c.rng; int n = r.irange(30000, c.thorough ? 200000 : 80000); bool sh = r.coin(0.5); double ts = r.coin(0.1) ? 1 : r.u();
    Mat X(n, 1), a, b; Vec y(n), p, q; for (int i = 0; i < n; ++i) { X(i, 0) = i; y(i) = 7.0 * i + 0.5; } c.mix(n); c.mixd(ts); c.nontrivial = true; c.dump << "n=" << n << " train_size=" << ts << " shuffle=" << sh; c.ev("samples of large splits", n);
    std::tie(a, b, p, q) = openml::data::train_test_split<Mat, Vec>(X, y, ts, sh);
    if (!c.req(a.rows() == (long)std::floor(n * ts) && a.rows() + b.rows() == n && p.size() == a.rows() && q.size() == b.rows(), "sizes", S(a.rows(), "+", b.rows(), " of ", n))) return;
    std::vector<char> seen(n, 0);
    for (long i = 0; i < n; ++i) { bool tr = i < a.rows(); const Mat& m = tr ? a : b; long k = tr ? i : i - a.rows(); double l = (tr ? p : q)(k); if (!c.req(row_ok(m, k, l, n) && !seen[(long)m(k, 0)]++ && (sh || m(k, 0) == i), "partition", S("position ", i, ": row ", m(k, 0), " label ", l))) return; }
}
// divide_on_feature: the rows at most the threshold, and the others, in order
SCENARIO(divide, 800, 12000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 50, 3000), d = mon::dim(r, 1, 6, 30), f = r.irange(0, d - 1); Mat X = gen::data(r, n, d);
    int how = r.irange(0, 5); double t = X(r.irange(0, n - 1), f);
    if (r.coin(0.3)) { double b = r.gauss(); t = b; for (int i = 0; i < n; ++i) X(i, f) = b * (1 + std::ldexp(r.irange(-8, 8), -r.irange(20, 52))); }      // values within a few rounding errors of each other
    if (how == 1) t = std::nextafter(t, 1e300); if (how == 2) t = std::nextafter(t, -1e300); if (how == 3) t = r.gauss() * 3; if (how == 4) t = r.coin() ? INFINITY : -INFINITY; if (how == 5) t *= 1 + std::ldexp(r.irange(-8, 8), -r.irange(20, 52));
    const Mat X0 = X; c.mixm(X); c.mixd(t); c.mix(f); c.nontrivial = n > 1; c.dump << "feature " << f << " threshold " << S(t) << " X=" << show(X);
    std::vector<std::size_t> k, o, wk, wo; std::tie(k, o) = openml::data::divide_on_feature<Mat>(X, f, t); for (int i = 0; i < n; ++i) (X0(i, f) <= t ? wk : wo).push_back(i);
    c.ev("rows divided", n); c.req(samem(X, X0), "input-changed", ""); c.req(k == wk && o == wo, "divide", S("kept ", showv(k), " want ", showv(wk), ", others ", showv(o), " want ", showv(wo)));
}
// the number of training samples for round fractions, whose products with n fall on or next to integers
SCENARIO(fractions, 400, 6000) {
    Rng& r = c.rng; c.nontrivial = true;
    for (int k = 0; k < 60; ++k) {
        int den = r.pick(std::vector<int>{10, 20, 3, 7, 100, 1000, 6}), n = r.coin(0.1) ? r.irange(1000, 6000) : r.irange(1, 300); double f = (double)r.irange(0, den) / den; c.mix(n); c.mixd(f);
        if (k == 0) c.dump << "n=" << n << " train_size=" << f << " ...";
        Mat X = Mat::Zero(n, 1), a, b; Vec y = Vec::Zero(n), p, q; std::tie(a, b, p, q) = openml::data::train_test_split<Mat, Vec>(X, y, f, r.coin(0.2)); c.ev("fractions");
        if (!c.req(a.rows() == (long)std::floor(n * f) && a.rows() + b.rows() == n && p.size() == a.rows() && q.size() == b.rows(), "train-size", S(a.rows(), " training and ", b.rows(), " test rows for n=", n, " train_size=", f))) return;
    }
}
