// sorting, selecting, de-duplicating
#include "gen.hpp"
using namespace mon;
namespace cm = openml::common;

template <class M> static void sort_case(Ctx& c) {
    using T = typename M::Scalar;
    using IV = IVec; using IM = IMat;
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 30, 600), d = mon::dim(r, 1, 12, 150); if (mon::huge(r, n, d)) c.ev("more than 65000 rows"); int axis = r.irange(0, 1); bool rev = r.coin();
    M x = gen::data<M>(r, n, d);
    if (sizeof(T) == 8 && r.coin(0.15)) { x = gen::near_mat<M>(r, n, d, gen::near_unit(r), r.irange(-2, 2)); c.ev("matrices of nearly equal values"); }
    if (r.coin(0.05)) { n = r.irange(17, 90); d = r.irange(17, 40); x = M::Constant(n, d, (T)r.irange(-2, 2)); if (r.coin()) for (int k = r.irange(1, 20); k; --k) x(r.irange(0, n - 1), r.irange(0, d - 1)) = (T)r.irange(-3, 3); c.ev("nearly constant matrices"); }
    const M x0 = x;
    c.mixm(x); c.mix(axis * 2 + rev); c.nontrivial = n * d > 2;
    c.dump << "axis=" << axis << " reverse=" << rev << " x=" << show(x);
    M s = cm::sort<M>(x, axis, rev);
    IM a = cm::argsort<M, IM, IV>(x, axis, rev);
    c.ev("lines sorted", axis ? n : d);
    c.req(samem(x, x0), "input-changed", "sort or argsort changed its input");
    if (!c.req(s.rows() == n && s.cols() == d && a.rows() == n && a.cols() == d, "shape", "shape changed")) return;
    int lines = axis ? n : d, len = axis ? d : n;
    for (int l = 0; l < lines; ++l) {
        auto at = [&](const auto& m, int k) { return axis ? m(l, k) : m(k, l); };
        std::vector<T> want(len); std::vector<int> perm(len);
        for (int k = 0; k < len; ++k) { want[k] = at(x, k); perm[k] = k; }
        std::stable_sort(perm.begin(), perm.end(), [&](int p, int q) { return rev ? want[p] > want[q] : want[p] < want[q]; });
        std::vector<int> seen(len, 0);
        for (int k = 0; k < len; ++k) {
            if (!c.req(at(s, k) == want[perm[k]], "sort", S("line ", l, " position ", k, ": ", at(s, k), " want ", want[perm[k]]))) return;
            long i = at(a, k);
            if (!c.req(i >= 0 && i < len && ++seen[i] == 1, "argsort-permutation", S("index ", i, " out of range or repeated"))) return;
            if (!c.req(want[i] == want[perm[k]], "argsort", S("line ", l, " position ", k, " index ", i))) return;
        }
    }
}
SCENARIO(sort_double, 400, 6000) { sort_case<Mat>(c); }
SCENARIO(sort_float, 100, 2000) { sort_case<Eigen::MatrixXf>(c); }
SCENARIO(sort_axis, 40, 400) {
    Mat x = gen::mat(c.rng, 3, 3, 0); int axis = c.rng.coin() ? c.rng.irange(2, 9) : -c.rng.irange(2, 9);
    c.mix(axis); c.mixm(x); c.nontrivial = true;
    c.req(throws([&] { cm::sort<Mat>(x, axis); }) && throws([&] { cm::argsort<Mat, IMat, IVec>(x, axis); }), "axis-accepted", S("axis ", axis, " accepted"));
    c.req(throws([&] { cm::argmax<Mat, Vec, IVec>(x, axis); }) && throws([&] { cm::argmin<Mat, Vec, IVec>(x, axis); }), "axis-accepted", S("axis ", axis, " accepted by argmax or argmin"));
    c.ev("invalid axes");
    // 2d lists: an unknown axis, no rows, an empty first row; a matrix of more than one column has no unique()
    std::vector<std::vector<double>> v(c.rng.irange(1, 4), std::vector<double>(c.rng.irange(1, 4), 1.5)), none, hollow(c.rng.irange(1, 3));
    if (axis == -1) axis = 2;
    bool rev = c.rng.coin();
    c.req(throws([&] { cm::sort<double>(v, axis, rev); }), "axis-accepted", S("axis ", axis, " accepted for a 2d list"));
    for (auto* e : {&none, &hollow}) {
        c.req(throws([&] { cm::sort<double>(*e, c.rng.irange(0, 1), rev); }) && throws([&] { cm::sortrows<double>(*e, rev); }) && throws([&] { cm::remove_duplicate_rows<double>(*e); }), "empty-accepted", "an empty 2d list was accepted");
    }
    Mat wide = gen::mat(c.rng, c.rng.irange(1, 5), c.rng.irange(2, 4), 0);
    c.req(throws([&] { cm::unique<Mat>(wide); }), "wide-accepted", "unique accepted a matrix of several columns");
    c.ev("refusals", 9);
}
SCENARIO(argext, 400, 6000) {
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 20, 300), d = mon::dim(r, 1, 20, 300); if (mon::huge(r, n, d)) c.ev("more than 65000 rows"); int axis = r.irange(-1, 1);
    Mat x = gen::data(r, n, d); if (r.coin(0.15)) x = gen::near_mat(r, n, d, gen::near_unit(r), r.irange(-2, 2));
    c.mixm(x); c.mix(axis); c.nontrivial = n * d > 2;
    c.dump << "axis=" << axis << " x=" << show(x);
    IVec mx = cm::argmax<Mat, Vec, IVec>(x, axis), mn = cm::argmin<Mat, Vec, IVec>(x, axis);
    int want = axis == 1 ? n : axis == 0 ? d : 1;
    c.ev("extrema", 2 * want);
    if (!c.req(mx.size() == want && mn.size() == want, "size", S("sizes ", mx.size(), " ", mn.size()))) return;
    for (int l = 0; l < want; ++l) {
        int len = axis == 1 ? d : axis == 0 ? n : n * d;
        auto at = [&](int k) { return axis == 1 ? x(l, k) : axis == 0 ? x(k, l) : x(k / d, k % d); };
        int bmx = 0, bmn = 0;                 // first position of the extreme value
        for (int k = 1; k < len; ++k) { if (at(k) > at(bmx)) bmx = k; if (at(k) < at(bmn)) bmn = k; }
        if (!c.req(mx(l) >= 0 && mx(l) < len && at(mx(l)) == at(bmx), "argmax", S("line ", l, ": ", mx(l), " want ", bmx))) return;
        if (!c.req(mn(l) >= 0 && mn(l) < len && at(mn(l)) == at(bmn), "argmin", S("line ", l, ": ", mn(l), " want ", bmn))) return;
    }
}
SCENARIO(unique_where, 400, 6000) {
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 40, 1200);
    Vec x = gen::vec(r, n, r.coin(0.7) ? gen::GRID : gen::MIXED); if (r.coin(0.25)) { x = gen::near_mat(r, n, 1, gen::near_unit(r), r.irange(-2, 2), r.irange(1, 30)); c.ev("nearly equal values"); }
    c.mixm(x); c.nontrivial = n > 2;
    c.dump << "x=" << show(x);
    Vec v, ix; std::tie(v, ix) = cm::unique<Vec>(x);
    std::set<double> s(x.begin(), x.end());
    c.ev("distinct values", s.size());
    if (!c.req(v.size() == (long)s.size() && ix.size() == v.size(), "unique-size", S(v.size(), " values, want ", s.size()))) return;
    std::set<double> got(v.begin(), v.end());
    c.req(got == s, "unique-values", S(show(v)));
    for (long k = 0; k < v.size(); ++k) {
        long i = (long)ix(k);
        if (!c.req(i >= 0 && i < n && x(i) == v(k), "unique-index", S("value ", v(k), " index ", i))) return;
        for (long l = 0; l < i; ++l) if (!c.req(x(l) != v(k), "unique-first", S("value ", v(k), " index ", i, " but position ", l, " has it"))) return;
    }
    Vec m(n); std::vector<long> want;
    for (int i = 0; i < n; ++i) { m(i) = r.coin() ? (r.coin() ? 1.0 : r.gauss()) : 0.0; if (m(i) != 0) want.push_back(i); }
    IVec w = cm::where<Vec, IVec>(m);
    c.req(std::vector<long>(w.begin(), w.end()) == want, "where", S("mask ", show(m), " -> ", show(w)));
}
SCENARIO(vectors, 500, 8000) {
    Rng& r = c.rng;
    int n = r.irange(1, 16);
    // whole numbers, or values that agree in all but their last digits
    double unit = 1, org = 0; if (r.coin(0.35)) { unit = r.coin() ? gen::near_unit(r) : std::pow(10.0, r.uni(-9, 6)); org = r.irange(-2, 2); c.ev("nearly equal values"); }
    auto rv = [&](int k, int hi) { std::vector<double> v(k); for (auto& e : v) e = org + unit * r.irange(0, hi); return v; };
    std::vector<double> x = rv(n, r.irange(1, 20));
    c.mixv(x); c.nontrivial = n > 2;
    c.dump << "x=" << showv(x);
    bool rev = r.coin();
    // argsort of a vector: stable
    auto a = cm::argsort<double>(x, rev);
    std::vector<std::size_t> want(n); for (int i = 0; i < n; ++i) want[i] = i;
    std::stable_sort(want.begin(), want.end(), [&](size_t p, size_t q) { return rev ? x[p] > x[q] : x[p] < x[q]; });
    c.req(a.size() == x.size(), "argsort-size", S(a.size()));
    if (a.size() == x.size()) for (int i = 0; i < n; ++i) if (!c.req(a[i] < x.size() && x[a[i]] == x[want[i]], "argsort-vector", showv(a))) break;
    if (a.size() == x.size()) c.req(std::set<std::size_t>(a.begin(), a.end()).size() == a.size(), "argsort-permutation", showv(a));
    // slices
    int s = r.irange(0, n - 1), e = r.irange(s, n - 1);
    auto sl = cm::slice<double>(x, s, e);
    c.req(sl == std::vector<double>(x.begin() + s, x.begin() + e + 1), "slice", S(s, "..", e, " of ", showv(x), " -> ", showv(sl)));
    c.req(throws([&] { cm::slice<double>(x, s, n + r.irange(0, 3)); }), "slice-range", "a slice past the end was accepted");
    if (e > s) c.req(throws([&] { cm::slice<double>(x, e, s); }), "slice-range", "a slice that ends before it starts was accepted");
    // 2d
    int m = r.irange(1, 8), w = r.irange(1, 5), hi = r.irange(1, 3);
    std::vector<std::vector<double>> X(m); for (auto& row : X) row = rv(w, hi);
    for (auto& row : X) c.mixv(row);
    c.dump << " X=" << showvv(X);
    int r0 = r.irange(0, m - 1), r1 = r.irange(r0, m - 1), c0 = r.irange(0, w - 1), c1 = r.irange(c0, w - 1);
    auto s2 = cm::slice<double>(X, r0, r1, c0, c1);
    std::vector<std::vector<double>> w2;
    for (int i = r0; i <= r1; ++i) w2.emplace_back(X[i].begin() + c0, X[i].begin() + c1 + 1);
    c.req(s2 == w2, "slice2d", S(r0, "..", r1, ",", c0, "..", c1, " -> ", showvv(s2)));
    c.req(throws([&] { cm::slice<double>(X, r0, m, c0, c1); }) && throws([&] { cm::slice<double>(X, r0, r1, c0, w); }), "slice-range", "a 2d slice past the end was accepted");
    // unique rows, first occurrences in order
    std::vector<std::vector<double>> ur;
    for (auto& row : X) if (std::find(ur.begin(), ur.end(), row) == ur.end()) ur.push_back(row);
    auto gu = cm::remove_duplicate_rows<double>(X);
    c.req(gu == ur, "unique-rows", S(showvv(gu), " want ", showvv(ur)));
    // lexicographic row order
    auto so = X; std::sort(so.begin(), so.end()); if (rev) std::reverse(so.begin(), so.end());
    auto gs = cm::sortrows<double>(X, rev);
    c.req(gs == so, "sortrows", S("reverse=", rev, " ", showvv(gs)));
    // sort every column (axis 0) or every row (axis 1)
    int axis = r.irange(0, 1);
    auto wv = X;
    if (axis) for (auto& row : wv) { std::sort(row.begin(), row.end()); if (rev) std::reverse(row.begin(), row.end()); }
    else for (int j = 0; j < w; ++j) {
        std::vector<double> col; for (auto& row : X) col.push_back(row[j]);
        std::sort(col.begin(), col.end()); if (rev) std::reverse(col.begin(), col.end());
        for (int i = 0; i < m; ++i) wv[i][j] = col[i];
    }
    auto gv = cm::sort<double>(X, axis, rev);
    c.req(gv == wv, "sort2d", S("axis=", axis, " reverse=", rev, " ", showvv(gv)));
    // equality
    auto y = x; if (r.coin()) { int k = r.irange(0, 2); if (k == 0) y[r.irange(0, n - 1)] += unit; else if (k == 1) y.push_back(0); else y.pop_back(); }
    c.req(cm::is_equal<double>(x, y) == (x == y), "is_equal", S(showv(x), " ", showv(y)));
    // difference of sorted sets
    std::set<double> sa(x.begin(), x.end()); auto z = rv(r.irange(0, 8), 12); std::set<double> sb(z.begin(), z.end());
    std::vector<double> va(sa.begin(), sa.end()), vb(sb.begin(), sb.end()), wd;
    for (double q : va) if (!sb.count(q)) wd.push_back(q);
    auto gd = cm::difference<double>(va, vb);
    c.req(gd == wd, "difference", S(showv(va), " \\ ", showv(vb), " -> ", showv(gd)));
    std::shuffle(va.begin(), va.end(), std::mt19937((unsigned)r.next()));
    auto gd2 = cm::difference<double>(va, z, true);
    c.req(gd2 == wd, "difference-unsorted", S(showv(va), " \\ ", showv(z), " -> ", showv(gd2)));
    // repeated elements are one element of the set
    auto gd3 = cm::difference<double>(x, z, true);
    c.req(gd3 == wd, "difference-repeats", S(showv(x), " \\ ", showv(z), " -> ", showv(gd3)));
    // combinations
    int k = r.irange(0, std::min(n, 4)); std::vector<double> items(sa.begin(), sa.end()); if (items.size() > 9) items.resize(9);
    auto cb = cm::combinations<double>(items, k);
    double cnt = 1; for (int i = 0; i < k; ++i) cnt = cnt * ((double)items.size() - i) / (i + 1);
    if ((int)items.size() < k) cnt = 0;
    std::set<std::vector<double>> cs(cb.begin(), cb.end());
    bool ok = cb.size() == cs.size() && cb.size() == (size_t)(cnt + 0.5);
    for (auto& q : cb) ok = ok && (int)q.size() == k && std::is_sorted(q.begin(), q.end()) && std::includes(items.begin(), items.end(), q.begin(), q.end());
    c.req(ok, "combinations", S("C(", items.size(), ",", k, ") -> ", cb.size(), " ", showvv(cb)));
    // interleaving merge keeps every element and both orders
    auto mg = cm::merge<double>(x, z);
    std::vector<double> wm;
    for (size_t i = 0; i < std::max(x.size(), z.size()); ++i) { if (i < x.size()) wm.push_back(x[i]); if (i < z.size()) wm.push_back(z[i]); }
    c.req(mg == wm, "merge", S(showv(x), " + ", showv(z), " -> ", showv(mg)));
    // containment: every element of the first occurs in the second
    auto p1 = x, p2 = r.coin() ? z : x; if (r.coin()) { for (double q : x) if (r.coin(0.9)) p2.push_back(q); r.shuffle(p2.begin(), p2.end()); } if (r.coin(0.2)) p1.clear(); else if (r.coin(0.3)) p1.resize(r.irange(1, n)); if (r.coin(0.1)) p2.clear();
    bool in = true; for (double q : p1) in = in && std::count(p2.begin(), p2.end(), q); c.ev(in ? "contained" : "not contained");
    c.req(cm::contains<double>(p1, p2) == in, "contains", S(showv(p1), " in ", showv(p2)));
    c.ev("utility calls", 17);
}
SCENARIO(long_vectors, 150, 2500) {       // the same functions on inputs longer than any fixed block
    Rng& r = c.rng;
    auto rv = [&](int k, int hi) { std::vector<double> v(k); for (auto& e : v) e = r.irange(0, hi); return v; };
    int big = mon::dim(r, 17, 400, 3000); if (r.coin(0.002)) big = r.irange(65600, 68000); std::vector<double> x = rv(big, r.irange(2, 2 * big)), z = rv(r.irange(0, r.coin() ? 400 : 20), r.irange(2, 600));
    if (r.coin()) std::swap(x, z);
    c.mixv(x); c.mixv(z); c.nontrivial = true; c.dump << "x=" << showv(x) << " z=" << showv(z);
    std::vector<double> wm; for (size_t i = 0; i < std::max(x.size(), z.size()); ++i) { if (i < x.size()) wm.push_back(x[i]); if (i < z.size()) wm.push_back(z[i]); }
    c.req(cm::merge<double>(x, z) == wm, "merge", "merge of long vectors");
    std::set<double> sa(x.begin(), x.end()), sb(z.begin(), z.end()); std::vector<double> va(sa.begin(), sa.end()), vb(sb.begin(), sb.end()), wd; for (double q : va) if (!sb.count(q)) wd.push_back(q);
    c.req(cm::difference<double>(va, vb) == wd, "difference", "difference of long vectors");
    c.req(cm::difference<double>(x, z, true) == wd, "difference-repeats", "difference of long vectors with repeats");
    bool in = true; for (double q : x) in = in && sb.count(q); c.req(cm::contains<double>(x, z) == in, "contains", "containment of long vectors");
    auto both = z; both.insert(both.end(), x.begin(), x.end()); r.shuffle(both.begin(), both.end()); c.req(cm::contains<double>(x, both), "contains", "containment of long vectors");
    if (!x.empty()) { bool rev = r.coin(); auto a = cm::argsort<double>(x, rev); std::set<std::size_t> u(a.begin(), a.end()); bool ok = a.size() == x.size() && u.size() == x.size() && *u.rbegin() < x.size(); for (size_t i = 1; ok && i < a.size(); ++i) ok = rev ? x[a[i - 1]] >= x[a[i]] : x[a[i - 1]] <= x[a[i]]; c.req(ok, "argsort-vector", "argsort of a long vector"); }
    // rows, many of them equal
    int m = r.irange(17, 300), w = r.irange(1, 3); std::vector<std::vector<double>> X(m), ur; for (auto& row : X) row = rv(w, r.irange(1, 8));
    for (auto& row : X) { c.mixv(row); if (std::find(ur.begin(), ur.end(), row) == ur.end()) ur.push_back(row); }
    c.req(cm::remove_duplicate_rows<double>(X) == ur, "unique-rows", "unique rows of a long list"); bool rev = r.coin();
    auto so = X; std::sort(so.begin(), so.end()); if (rev) std::reverse(so.begin(), so.end()); c.req(cm::sortrows<double>(X, rev) == so, "sortrows", "sortrows of a long list");
    // combinations of many items, few at a time or nearly all of them
    int n = r.irange(10, 40), k = r.coin(0.3) ? n - r.irange(0, 2) : r.irange(0, n <= 20 ? 3 : 2); std::vector<double> items(n); for (int i = 0; i < n; ++i) items[i] = 2 * i + 1;
    auto cb = cm::combinations<double>(items, k); double cnt = 1; for (int i = 0; i < std::min(k, n - k); ++i) cnt = cnt * (n - i) / (i + 1);
    std::set<std::vector<double>> cs(cb.begin(), cb.end()); bool ok = cb.size() == cs.size() && cb.size() == (size_t)(cnt + 0.5);
    for (auto& q : cb) ok = ok && (int)q.size() == k && std::is_sorted(q.begin(), q.end()) && std::includes(items.begin(), items.end(), q.begin(), q.end());
    c.req(ok, "combinations", S("C(", n, ",", k, ") -> ", cb.size(), " combinations, ", cs.size(), " distinct")); c.ev("combinations", cb.size());
    c.ev("utility calls", 9);
}
