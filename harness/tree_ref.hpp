// Reference for the greedy decision trees: the set of leaves a row may end in.
// Alternatives that are too close to call (tied splits, a stop decision within
// rounding of its limit, a query next to a threshold) are all followed.
#ifndef VERIF_TREE_REF_HPP
#define VERIF_TREE_REF_HPP
#include "gen.hpp"
namespace treeref {
using LD = long double;
enum Crit { GINI, ENTROPY, SQUARED, ABSOLUTE };
struct Cfg { Crit crit; long min_split, min_leaf, max_depth; double min_dec, min_sd; };
struct Leaf { std::vector<int> rows; int depth; };
struct Ref {
    const Mat& X; const Vec& y; const Mat& Q; Cfg g; double tol;
    std::vector<double> classes; std::vector<int> cls;
    std::vector<Leaf> leaves; std::vector<std::vector<int>> allowed;      // per query row: indices into leaves
    long budget = 4000; bool over = false; int nsplit = 0;
    Ref(const Mat& X_, const Vec& y_, const Mat& Q_, Cfg g_) : X(X_), y(y_), Q(Q_), g(g_), allowed(Q_.rows()) {
        std::map<double, int> m; for (long i = 0; i < y.size(); ++i) m[y(i)]; int k = 0; for (auto& e : m) { e.second = k++; classes.push_back(e.first); }
        for (long i = 0; i < y.size(); ++i) cls.push_back(m[y(i)]);
        tol = 1e-10; if (g.crit == SQUARED || g.crit == ABSOLUTE) { LD s = 0, a = 0, mx = 0; for (long i = 0; i < y.size(); ++i) s += y(i); s /= y.size(); for (long i = 0; i < y.size(); ++i) { a = std::max(a, fabsl(y(i) - s)); mx = std::max(mx, fabsl((LD)y(i))); }
            tol = g.crit == SQUARED ? (double)(1e-11L * a * a + 1e-14L * a * mx + 1e-28L * mx * mx) : (double)(1e-11L * a + 1e-14L * mx); }
    }
    static LD H(const std::vector<long>& c, long n, Crit k) { LD s = k == GINI ? 1 : 0; for (long v : c) if (v) { LD p = (LD)v / n; s -= k == GINI ? p * p : p * log2l(p); } return s; }
    LD mad(std::vector<double> v) const { std::sort(v.begin(), v.end()); size_t n = v.size(); LD m = n % 2 ? (LD)v[n / 2] : ((LD)v[n / 2 - 1] + v[n / 2]) / 2, s = 0; for (double x : v) s += fabsl(x - m); return s; }
    struct Cand { LD dec; int f; double lo, hi, thr; bool tied; long nl; };
    std::vector<Cand> candidates(const std::vector<int>& id) const {
        std::vector<Cand> out; long n = id.size(); int K = classes.size();
        for (int f = 0; f < X.cols(); ++f) {
            std::vector<int> o = id; std::stable_sort(o.begin(), o.end(), [&](int a, int b) { return X(a, f) < X(b, f); });
            std::vector<long> L(K, 0), R(K, 0), A(K, 0); LD sl = 0, ql = 0, st = 0, qt = 0, m0 = 0; 
            if (g.crit == GINI || g.crit == ENTROPY) { for (int i : o) R[cls[i]]++; A = R; } else { for (int i : o) m0 += y(i); m0 /= n; for (int i : o) { LD t = y(i) - m0; st += t; qt += t * t; } }
            for (long k = 0; k + 1 < n; ++k) {
                int i = o[k]; if (g.crit == GINI || g.crit == ENTROPY) { L[cls[i]]++; R[cls[i]]--; } else { LD t = y(i) - m0; sl += t; ql += t * t; }
                double a = X(i, f), b = X(o[k + 1], f); if (a == b) continue; long nl = k + 1, nr = n - nl; LD dec;
                if (g.crit == GINI || g.crit == ENTROPY) dec = H(A, n, g.crit) - (LD)nl / n * H(L, nl, g.crit) - (LD)nr / n * H(R, nr, g.crit);
                else if (g.crit == SQUARED) { LD sr = st - sl; dec = (sl * sl / nl + sr * sr / nr - st * st / n) / n; }
                else { std::vector<double> t, l, r; for (long q = 0; q < n; ++q) { t.push_back(y(o[q])); (q <= k ? l : r).push_back(y(o[q])); } dec = (mad(t) - mad(l) - mad(r)) / n; }
                out.push_back({dec, f, a, b, (a + b) / 2, k > 0 && X(o[k - 1], f) == a || (k + 2 < n && false), nl});
            }
        }
        return out;
    }
    void leaf(const std::vector<int>& id, const std::vector<int>& q, int depth) { leaves.push_back({id, depth}); for (int i : q) allowed[i].push_back((int)leaves.size() - 1); }
    void rec(const std::vector<int>& id, const std::vector<int>& q, int depth) {
        if (over || --budget < 0) { over = true; return; }
        long n = id.size(); bool must = n < g.min_split || depth > g.max_depth, may = must;
        if (!must && (g.crit == SQUARED || g.crit == ABSOLUTE)) {
            LD m = 0, s = 0; for (int i : id) m += y(i); m /= n; for (int i : id) s += (y(i) - m) * (y(i) - m); double er = 1e-7 * (double)fabsl(m) * 1e-8;      // rounding of the mean
            double s1 = (double)sqrtl(sqrtl(s) / n), s2 = (double)sqrtl(s / n), z = er; bool b1 = s1 <= g.min_sd * (1 - 1e-9) || s == 0, b2 = s2 <= g.min_sd * (1 - 1e-9) || s == 0; (void)z;
            if (b1 && b2 && (s > 0 || g.min_sd > 1e-12 * (1 + (double)fabsl(m)))) must = may = true; else if (s1 <= g.min_sd * (1 + 1e-9) || s2 <= g.min_sd * (1 + 1e-9) || s == 0) may = true;
        }
        if (must) return leaf(id, q, depth);
        auto cs = candidates(id); LD best = -1; for (auto& c : cs) best = std::max(best, c.dec);
        if (cs.empty() || best <= g.min_dec - tol || (best < 1e-14L * 0 )) return leaf(id, q, depth);
        if (best <= g.min_dec + tol) may = true;
        std::vector<Cand> top; for (auto& c : cs) if (c.dec >= best - 2 * tol) top.push_back(c);
        bool small = false, ok = false; for (auto& c : top) { long nl = c.nl; if (nl < g.min_leaf || n - nl < g.min_leaf) small = true; else ok = true; }
        if (small || !ok) may = true;
        if (may) leaf(id, q, depth);
        for (auto& c : top) {
            if (c.nl < g.min_leaf || n - c.nl < g.min_leaf) continue;
            if (!(c.thr < c.hi) || !(c.thr >= c.lo)) { over = true; return; }      // neighbouring doubles
            double w = 4e-16 * (std::fabs(c.lo) + std::fabs(c.hi)), from = c.tied ? c.lo : c.thr - w, to = c.thr + w;
            std::vector<int> l, r, ql, qr; for (int i : id) (X(i, c.f) <= c.lo ? l : r).push_back(i);
            for (int i : q) { double x = Q(i, c.f); bool tr = x == c.lo || x == c.hi, amb = !tr && x > from && x <= to; if (x <= c.lo || (!tr && x <= c.thr) || amb) ql.push_back(i); if (x >= c.hi || (!tr && x > c.thr) || amb) qr.push_back(i); }
            ++nsplit; rec(l, ql, depth + 1); rec(r, qr, depth + 1);
        }
    }
    void run() { std::vector<int> id(X.rows()), q(Q.rows()); for (size_t i = 0; i < id.size(); ++i) id[i] = i; for (size_t i = 0; i < q.size(); ++i) q[i] = i; rec(id, q, 0); }
};
// sometimes columns of tiny or huge numbers, or of numbers that differ in their last digits only
inline void rescale(mon::Rng& r, Mat& X) {
    if (!r.coin(0.2)) return; int how = r.irange(0, 2);
    for (long j = 0; j < X.cols(); ++j) { if (how == 0) X.col(j) *= std::ldexp(1.0, r.irange(-45, 45)); else if (how == 1) { double b = r.irange(1, 9), e = std::ldexp(1.0, -r.irange(20, 42)); for (long i = 0; i < X.rows(); ++i) X(i, j) = b + std::round(X(i, j) * 8) * e; } else X.col(j) *= std::ldexp(1.0, -r.irange(30, 60)); }
}
inline Mat queries(mon::Rng& r, const Mat& X) {       // training values, near misses, midpoints, outside
    int m = r.irange(1, 25), d = X.cols(), n = X.rows(); Mat Q(m, d);
    for (int i = 0; i < m; ++i) for (int j = 0; j < d; ++j) { double a = X(r.irange(0, n - 1), j), b = X(r.irange(0, n - 1), j); switch (r.irange(0, 4)) { case 0: Q(i, j) = a; break; case 1: Q(i, j) = a + r.uni(0.05, 0.95) * (b - a); break; case 2: Q(i, j) = a + (r.coin() ? std::fabs(a) + 1 : std::fabs(b - a)) * r.gauss() * 1e-3; break; case 3: Q(i, j) = r.coin() ? a * 100 - 7 : -a * 100 + 7; break; default: Q(i, j) = a + r.gauss(); } }
    return Q;
}
} // namespace treeref
#endif
