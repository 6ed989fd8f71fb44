// KD-tree queries against exhaustive search
#include "gen.hpp"
using namespace mon;
template <class T> struct KD {
    using M = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
    static constexpr double eps = sizeof(T) == 8 ? 1e-12 : 1e-5;
    M x; int ord; std::string metric; int leaf; bool exact; double unit = 0;
    openml::tree::KDTree<T>* tree = nullptr;
    ~KD() { delete tree; }
    KD(Ctx& c, int maxn) {
        Rng& r = c.rng; int n = maxn > 60000 ? r.irange(65600, maxn) : r.coin(0.1) ? r.irange(1, 4) : r.irange(1, maxn), d = r.irange(1, 6), kind;
        x = gen::data<M>(r, n, d, &kind);
        if (r.coin(0.1)) { kind = gen::GRID; x = gen::mat<M>(r, n, d, kind); x.col(r.irange(0, d - 1)) *= (T)16; exact = true; }
        else exact = false;
        if (kind == gen::GRID || kind == gen::TIES) { exact = true; for (long i = 0; i < x.size(); ++i) if (x.data()[i] * 64 != std::floor(x.data()[i] * 64)) exact = false; }
        if (r.coin(0.05)) { double s = std::ldexp(1.0, r.irange(-1, 1) * r.irange(1, sizeof(T) == 8 ? 200 : 20)); x *= (T)s; exact = false; c.ev("scaled data sets"); }
        else if (sizeof(T) == 8 && r.coin(0.15)) { unit = gen::near_unit(r); x = gen::near_mat<M>(r, n, d, unit, r.irange(-2, 2)); exact = false; c.ev("data sets of nearly equal values"); }
        metric = std::vector<std::string>{"euclidean", "manhattan", "chebyshev"}[r.irange(0, 2)];
        leaf = r.coin(0.3) ? r.irange(1, 3) : r.irange(1, 20); if (r.coin(0.1)) leaf = r.irange(20, 2 * n + 20);
        c.mixm(x); c.mix(leaf); c.mix(metric.size()); c.nontrivial = n > leaf;
        c.dump << metric << " leaf_size=" << leaf << " data=" << show(x, 80);
        if (r.coin(0.1)) { tree = new openml::tree::KDTree<T>(x); metric = "euclidean"; }
        else tree = new openml::tree::KDTree<T>(x, leaf, metric);
        ord = metric == "manhattan" ? 1 : metric == "euclidean" ? 2 : 0;
        c.ev(n > leaf ? "trees with branches" : "leaf-only trees");
    }
    long double dist(const M& q, int qi, int i) const {
        long double s = 0;
        for (long j = 0; j < x.cols(); ++j) { long double t = fabsl((long double)q(qi, j) - x(i, j)); s = ord == 1 ? s + t : ord == 2 ? s + t * t : std::max(s, t); }
        return ord == 2 ? sqrtl(s) : s;
    }
    M queries(Rng& r) const {
        int m = r.irange(1, 6); M q(m, x.cols());
        for (int i = 0; i < m; ++i) {
            int k = r.irange(0, 4);
            if (k == 0) q.row(i) = x.row(r.irange(0, x.rows() - 1));
            else for (long j = 0; j < x.cols(); ++j) {
                double v = x(r.irange(0, x.rows() - 1), j);
                if (k == 2) v += r.gauss(); if (k == 3) v = r.gauss() * 1e3; if (k == 4) v = exact ? v + r.irange(-2, 2) : v * 2;
                if (unit && k != 3) v = x(r.irange(0, x.rows() - 1), j) + unit * r.irange(-40, 40);
                q(i, j) = (T)v;
                if (exact) q(i, j) = (T)std::round(v);
            }
        }
        return q;
    }
};
template <class T> static void knn_case(Ctx& c, int maxn) {
    KD<T> g(c, maxn); using M = typename KD<T>::M; Rng& r = c.rng; int n = g.x.rows();
    M q = g.queries(r); int k = r.coin(0.1) ? n : r.irange(1, std::min(n, 12)); if (r.coin(0.1)) k = r.irange(1, n);
    c.mixm(q); c.mix(k); c.dump << " k=" << k << " queries=" << show(q);
    auto p = g.tree->query(q, k);
    if (!c.req(p.first.rows() == q.rows() && p.first.cols() == k && p.second.rows() == q.rows() && p.second.cols() == k, "shape", S(show(p.first), show(p.second)))) return;
    for (long i = 0; i < q.rows(); ++i) {
        std::vector<long double> d(n), s; for (int t = 0; t < n; ++t) d[t] = g.dist(q, i, t);
        s = d; std::sort(s.begin(), s.end());
        double sc = ref::maxabs(q) + ref::maxabs(g.x);
        std::set<long> seen;
        for (int t = 0; t < k; ++t) {
            long ix = p.second(i, t);
            if (!c.req(ix >= 0 && ix < n && seen.insert(ix).second, "index", S("query ", i, " neighbour ", t, ": index ", ix, " repeated or out of range"))) return;
            double tol = KD<T>::eps * ((double)s[t] + sc * 1e-3 + (double)d[ix]);
            if (sizeof(T) == 4) tol += 3e-7 * sc * g.x.cols();
            c.req(std::fabs((double)(d[ix] - s[t])) <= tol, "not-nearest", S("query ", i, " neighbour ", t, ": index ", ix, " at ", (double)d[ix], ", but the ", t, "-th nearest is at ", (double)s[t]));
            c.req(std::fabs((double)(p.first(i, t) - d[ix])) <= tol, "distance", S("query ", i, " neighbour ", t, ": reported ", p.first(i, t), " true ", (double)d[ix]));
            c.req(t == 0 || p.first(i, t) >= p.first(i, t - 1), "order", "neighbours are not in order of distance");
        }
        c.ev("nearest neighbour queries");
    }
}
template <class T> static void radius_case(Ctx& c, int maxn) {
    KD<T> g(c, maxn); using M = typename KD<T>::M; Rng& r = c.rng; int n = g.x.rows();
    M q = g.queries(r); int pick = r.irange(0, n - 1);
    double rad = (double)(T)g.dist(q, 0, pick);           // a point exactly on the sphere
    int kind = r.irange(0, 4);
    if (kind == 1) rad *= r.uni(0.5, 1.5); if (kind == 2) rad = r.u() * 3; if (kind == 3 && g.exact) rad = r.irange(0, 8); if (kind == 4 && r.coin(0.4)) rad = -rad - (g.exact ? r.irange(0, 2) : r.u() * rad);
    c.mixm(q); c.mixd(rad); c.dump << " radius=" << rad << " queries=" << show(q);
    auto all = g.tree->query_radius(q, rad);
    std::vector<std::vector<std::pair<T, std::size_t>>> joined;
    double sc = ref::maxabs(q) + ref::maxabs(g.x), eps = g.exact ? 0 : KD<T>::eps * sc + 1e-3 * KD<T>::eps;
    if (sizeof(T) == 4 && !g.exact) eps += 3e-6 * sc * g.x.cols();
    if (g.unit) eps = 2e-15 * sc + 1e-12 * std::fabs(rad); c.ev("negative radii", rad < 0);
    bool exact = g.exact && (sizeof(T) == 8 || g.ord != 2);
    if (!exact && g.exact) eps = 1e-5 * (1 + rad);
    for (long i = 0; i < q.rows(); ++i) {
        M one = q.row(i);
        auto res = g.tree->query_radius(one, rad);
        std::map<std::size_t, T> got;
        for (auto& l : res) for (auto& e : l) c.req(got.insert({e.second, e.first}).second, "repeated", S("query ", i, ": index ", e.second, " reported twice"));
        for (auto& l : res) if (!l.empty()) joined.push_back(l);
        c.ev("radius queries"); c.ev("neighbours in radius", got.size());
        for (int t = 0; t < n; ++t) {
            long double d = g.dist(q, i, t); bool in = got.count(t);
            if (exact ? (double)d <= rad : d < rad - eps) c.req(in, "missed", S("query ", i, ": point ", t, " at ", (double)d, " is within ", rad, " and was not reported"));
            if (exact ? (double)d > rad : d > rad + eps) c.req(!in, "outside", S("query ", i, ": point ", t, " at ", (double)d, " is farther than ", rad));
            if (in) c.req(std::fabs((double)(got[t] - d)) <= KD<T>::eps * (sc + (double)d) + (sizeof(T) == 4 ? 3e-6 * sc : 0), "distance", S("point ", t, ": ", got[t], " true ", (double)d));
        }
        for (auto& kv : got) c.req(kv.first < (std::size_t)n, "index", S("index ", kv.first));
    }
    std::vector<std::vector<std::pair<T, std::size_t>>> nonempty; for (auto& l : all) if (!l.empty()) nonempty.push_back(l);
    auto canon = [](std::vector<std::vector<std::pair<T, std::size_t>>> v) { for (auto& l : v) std::sort(l.begin(), l.end()); return v; };
    c.req(canon(nonempty) == canon(joined), "batch", "a batch of queries answers differently from the queries one at a time");
}
SCENARIO(knn_double, 900, 12000) { knn_case<double>(c, 160); }
SCENARIO(knn_float, 200, 3000) { knn_case<float>(c, 80); }
SCENARIO(knn_large, 20, 400) { knn_case<double>(c, 2500); }
SCENARIO(radius_double, 900, 12000) { radius_case<double>(c, 160); }
SCENARIO(radius_float, 200, 3000) { radius_case<float>(c, 80); }
SCENARIO(radius_large, 20, 300) { radius_case<double>(c, 2500); }
SCENARIO(knn_huge, 2, 20) { knn_case<double>(c, 70000); }
SCENARIO(radius_huge, 2, 20) { radius_case<double>(c, 70000); }
SCENARIO(unknown_metric, 20, 100) {
    Mat x = gen::mat(c.rng, 5, 2, 0); c.mixm(x); c.nontrivial = true;
    std::string m = std::vector<std::string>{"", "Euclidean", "l2", "minkowski", "cosine", "max"}[c.rng.irange(0, 5)]; c.dump << "metric '" << m << "'";
    c.req(throws([&] { openml::tree::KDTree<double> t(x, 3, m); }), "metric-accepted", S("metric '", m, "' accepted")); c.ev("rejections");
}
