// k nearest neighbour classification: a majority among k nearest neighbours
#include "gen.hpp"
#include <src/methods/neighbors/k_nearest_neighbors.hpp>
using namespace mon;
SCENARIO(vote, 800, 12000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 80, 700), d = mon::dim(r, 1, 5, 16), K = mon::dim(r, 1, 5, 30), k = r.irange(1, std::min(n, r.coin(0.05) ? 120 : 15)), leaf = mon::dim(r, 1, 15, 200);
    std::string solver = r.coin(0.6) ? "kdtree" : "brute", metric = solver == "brute" ? (r.coin() ? "euclidean" : "manhattan") : std::vector<std::string>{"euclidean", "manhattan", "chebyshev"}[r.irange(0, 2)];
    Mat x = gen::data(r, n, d); Vec y(n); double base = r.irange(-2, 3);
    double gap = r.coin(0.5) ? 2 : r.pick(std::vector<double>{1, 0.25, 0.1, 1e-9, std::ldexp(1.0, -45), 1e6, 4294967296.0}); if (r.coin(0.1)) { base = 16777215; gap = 1; }
    for (int i = 0; i < n; ++i) y(i) = base + gap * r.irange(0, K - 1);
    int m = mon::dim(r, 1, 8, 80); Mat q = gen::data(r, m, d);
    for (int i = 0; i < m; ++i) if (r.coin(0.3)) q.row(i) = x.row(r.irange(0, n - 1));
    if (r.coin(0.15)) { double u = gen::near_unit(r), b = r.irange(-2, 2); x = gen::near_mat(r, n, d, u, b); q = gen::near_mat(r, m, d, u, b); c.ev("data sets of nearly equal values"); }
    c.mixm(x); c.mixm(y); c.mixm(q); c.mix(k); c.nontrivial = n > 2;
    c.dump << solver << " " << metric << " k=" << k << " leaf=" << leaf << " X=" << show(x) << " y=" << show(y) << " query=" << show(q);
    const Mat x0 = x; const Vec y0 = y;
    openml::neighbors::KNearestNeighbors<double> clf(leaf, k, solver, metric);
    if (r.coin(0.2)) { int n2 = r.coin() ? n : n + 2; Vec yy = Vec::Constant(n2, 77); clf.fit(gen::mat(r, n2, r.coin() ? d : d + 1, 0), yy); c.ev("refits"); }
    clf.fit(x, y);
    Vec p = clf.predict(q);
    if (!c.req(p.size() == m, "size", S(p.size()))) return;
    double sc = ref::maxabs(x) + ref::maxabs(q);
    for (int i = 0; i < m; ++i) {
        std::vector<std::pair<long double, int>> ds(n);
        for (int t = 0; t < n; ++t) {
            long double s = 0;
            for (int j = 0; j < d; ++j) { long double e = fabsl((long double)q(i, j) - x(t, j)); s = metric == "manhattan" ? s + e : metric == "euclidean" ? s + e * e : std::max(s, e); }
            ds[t] = {metric == "euclidean" ? sqrtl(s) : s, t};
        }
        std::sort(ds.begin(), ds.end());
        // neighbours that are certain, and candidates tied (to rounding) at the k-th distance
        long double cut = ds[k - 1].first, eps = 1e-15L * (sc + (long double)sc) + 1e-12L * cut;
        std::map<double, int> sure, maybe; int nsure = 0;
        for (auto& e : ds) { if (e.first < cut - eps) { sure[y(e.second)]++; ++nsure; } else if (e.first <= cut + eps) maybe[y(e.second)]++; }
        int rest = k - nsure;
        // can p(i) have a maximal count for some choice of the tied neighbours?
        double w = p(i); int best = sure[w] + std::min(rest, maybe[w]); int left = rest - std::min(rest, maybe[w]);
        // the others get the remaining places; they can be spread so that nobody exceeds `best` iff the capacity suffices
        bool ok = best > 0; long cap = 0;
        for (auto& kv : maybe) if (kv.first != w) cap += std::max(0, std::min(kv.second, best - sure[kv.first]));
        for (auto& kv : sure) if (kv.second > best) ok = false;
        ok = ok && cap >= left;
        c.req(ok, "not-majority", S("query ", i, ": label ", w, " cannot be the most common of the ", k, " nearest"));
        int mx = 0, second = 0; for (auto& kv : sure) { if (kv.second > mx) { second = mx; mx = kv.second; } else second = std::max(second, kv.second); }
        c.ev(rest == 0 || maybe.size() == 1 ? "decided votes" : "votes with distance ties");
    }
    c.req(samem(x, x0) && samem(y, y0), "input-changed", "an input was changed");
    // predictions do not depend on the other samples of the batch
    for (int i = 0; i < m; ++i) { Mat one = q.row(i); Vec v = clf.predict(one); c.req(v.size() == 1 && v(0) == p(i), "batch", S("query ", i, " alone: ", v.size() ? v(0) : -99, " in the batch: ", p(i))); }
}
SCENARIO(solvers_agree, 200, 3000) {
    // distinct distances and a clear majority: both solvers answer alike, whatever the leaf size
    Rng& r = c.rng; int n = mon::dim(r, 5, 120, 800), d = r.irange(1, 4), k = 2 * r.irange(0, 3) + 1; if (k > n) k = 1;
    Mat x = gen::mat(r, n, d, 0), q = gen::mat(r, 6, d, 0); Vec y(n); for (int i = 0; i < n; ++i) y(i) = x(i, 0) + 0.5 * r.gauss() > 0;
    c.mixm(x); c.mix(k); c.nontrivial = true; c.dump << "k=" << k << " X=" << show(x) << " y=" << show(y) << " query=" << show(q);
    std::string metric = r.coin() ? "euclidean" : "manhattan";
    openml::neighbors::KNearestNeighbors<double> a(r.irange(1, 30), k, "kdtree", metric), b(1, k, "brute", metric), e(n, k, "kdtree", metric);
    a.fit(x, y); b.fit(x, y); e.fit(x, y);
    Vec pa = a.predict(q), pb = b.predict(q), pe = e.predict(q);
    c.req(samem(pa, pb) && samem(pa, pe), "solvers-differ", S("kdtree ", show(pa), " brute ", show(pb), " one leaf ", show(pe)));
    c.ev("agreements", 6);
}
SCENARIO(refusals, 60, 500) {
    // a metric the chosen solver does not offer is an error at the latest when predicting, and never a label
    Rng& r = c.rng; int n = r.irange(1, 12), d = r.irange(1, 3), k = r.irange(1, n); Mat x = gen::mat(r, n, d, 0); Vec y = Vec::Ones(n);
    std::string solver = r.coin() ? "kdtree" : "brute", m = r.pick(std::vector<std::string>{"cosine", "", "Euclidean", "minkowski", "l2", "manhattan "});
    if (solver == "brute" && r.coin(0.3)) m = "chebyshev";
    c.mixm(x); c.mix(k); c.mix(m.size()); c.nontrivial = true; c.dump << solver << " '" << m << "'";
    openml::neighbors::KNearestNeighbors<double> clf(r.irange(1, 5), k, solver, m);
    c.req(throws([&] { clf.fit(x, y); clf.predict(x); }), "metric-accepted", solver + ": metric '" + m + "' accepted"); c.ev("refused metrics");
}
