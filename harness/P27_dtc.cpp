// DecisionTreeClassifier: conservation invariants and the greedy rule
#include "tree_ref.hpp"
#include <src/methods/tree/decision_tree_classifier.hpp>
using namespace mon;
namespace dt = openml::decision_tree;
using Tree = dt::DecisionTreeClassifier<double>;
static const std::vector<std::vector<double>> LSETS = {{0, 1}, {1, 0, 2}, {-1, 1}, {7, 3, 5, 1}, {2.5, -0.5, 1.25}, {4}, {0, 1, 2, 3, 4}, {1e6, -3}, {10, 20, 30}, {16777216, 16777217, 5}, {1, 1 + 1e-13, 2}, {4294967296, 0, 1e15}};
struct D { Mat X; Vec y; int n, d; };
static D draw(Rng& r, bool big = false) {
    D q; q.n = r.coin(0.03) ? r.irange(100, 260) : r.coin(0.3) ? r.irange(1, 8) : r.irange(2, 60); q.d = r.irange(1, q.n > 100 ? 3 : 5); q.X = gen::data(r, q.n, q.d); if (r.coin(0.6)) q.X = gen::mat(r, q.n, q.d, r.coin() ? 0 : 5); if (big) { int one; mon::huge(r, q.n, one, 1); if (r.coin()) q.n += r.irange(0, 60000); q.d = 1; q.X.resize(q.n, 1); double p = r.coin() ? r.uni(0.9, 0.99) : r.uni(0.3, 0.98), b = r.pick(std::vector<double>{-1, 0, 5}); for (int i = 0; i < q.n; ++i) q.X(i, 0) = r.coin(p) ? b : r.irange(1, 4); } treeref::rescale(r, q.X);
    auto s = r.pick(LSETS); q.y.resize(q.n); int mode = r.irange(0, 3), f = r.irange(0, q.d - 1), f2 = r.irange(0, q.d - 1);
    std::vector<double> xs(q.n), x2(q.n); for (int i = 0; i < q.n; ++i) { xs[i] = q.X(i, f); x2[i] = q.X(i, f2); } std::sort(xs.begin(), xs.end()); std::sort(x2.begin(), x2.end());
    for (int i = 0; i < q.n; ++i) { int k = 0; if (mode == 0) k = r.irange(0, s.size() - 1); else { long a = std::lower_bound(xs.begin(), xs.end(), q.X(i, f)) - xs.begin(), b = std::lower_bound(x2.begin(), x2.end(), q.X(i, f2)) - x2.begin(); k = (a * 3 / q.n + (mode == 2 ? b * 2 / q.n : 0)) % s.size(); if (mode == 3 && r.coin(0.15)) k = r.irange(0, s.size() - 1); } q.y(i) = s[k]; }
    return q;
}
static void judge(Ctx& c, const Tree& t, const D& q, const treeref::Cfg& g, bool unfit) {
    Rng& r = c.rng; std::map<double, long> cnt; for (int i = 0; i < q.n; ++i) cnt[q.y(i)]++; int K = cnt.size(); std::vector<double> cl; for (auto& e : cnt) cl.push_back(e.first);
    Mat T = treeref::queries(r, q.X), Q(q.n + T.rows(), q.d); Q.topRows(q.n) = q.X; Q.bottomRows(T.rows()) = T; const Mat Q0 = Q; Mat p = t.predict_prob(Q); Vec y = t.predict(Q); c.req(samem(Q, Q0), "input-changed", "");
    if (!c.req(p.rows() == Q.rows() && p.cols() == K && y.size() == Q.rows(), "shape", S(p.rows(), "x", p.cols(), " labels ", y.size(), " classes ", K))) return;
    std::map<std::vector<double>, long> groups; std::vector<double> tot(K, 0);
    for (long i = 0; i < Q.rows(); ++i) {
        double s = 0, mx = 0; for (int k = 0; k < K; ++k) { if (!c.req(p(i, k) >= 0 && p(i, k) <= 1 + 1e-12, "prob-range", S("row ", i, ": ", show(p.row(i))))) return; s += p(i, k); mx = std::max(mx, p(i, k)); }
        if (!c.req(std::fabs(s - 1) < 1e-12, "prob-sum", S("row ", i, ": ", s))) return; int at = -1; for (int k = 0; k < K; ++k) if (cl[k] == y(i)) at = k;
        if (c.req(at >= 0, "foreign-label", S("row ", i, ": ", y(i)))) c.req(p(i, at) >= mx - 1e-12, "label", S("row ", i, ": ", y(i), " of ", show(p.row(i)))); else return;
        c.ev("rows judged"); if (i < q.n) { std::vector<double> k; for (int j = 0; j < K; ++j) { k.push_back(std::round(p(i, j) * 1e12)); tot[j] += p(i, j); } groups[k]++; }
    }
    for (int k = 0; k < K; ++k) c.req(std::fabs(tot[k] - cnt[cl[k]]) < 1e-9 * q.n, "class-mass", S("class ", cl[k], ": probabilities of the training rows add up to ", tot[k], ", it has ", cnt[cl[k]]));
    if (g.max_depth < 20) c.req((double)groups.size() <= std::ldexp(1.0, (int)g.max_depth + 1), "too-many-leaves", S(groups.size(), " at max depth ", g.max_depth));
    for (auto& e : groups) if (groups.size() > 1) c.req(e.second >= g.min_leaf, "small-leaf", S(e.second, " rows"));
    treeref::Ref ref(q.X, q.y, Q, g); ref.run(); if (ref.over) { c.ev("trees too ambiguous to follow"); return; } c.ev("trees followed"); c.ev("reference splits", ref.nsplit); if (ref.nsplit) c.nontrivial = true;
    std::vector<std::vector<double>> lp; for (auto& l : ref.leaves) { std::vector<double> v(K, 0); for (int i : l.rows) v[ref.cls[i]] += 1.0 / l.rows.size(); lp.push_back(v); }
    for (long i = 0; i < Q.rows(); ++i) { bool ok = false; std::string want; for (int l : ref.allowed[i]) { bool e = true; for (int k = 0; k < K; ++k) e = e && std::fabs(p(i, k) - lp[l][k]) < 1e-12 * (q.n + 1); ok = ok || e; want += showv(lp[l]); }
        c.ev(ref.allowed[i].size() == 1 ? "rows with one possible leaf" : "rows with several possible leaves"); if (!c.req(ok, "not-greedy", S(i < q.n ? "training" : "query", " row ", i, " ", show(Q.row(i)), ": probabilities ", show(p.row(i)), " want one of ", want))) return; }
}
static treeref::Cfg config(Rng& r, bool def) {
    if (def) return {treeref::GINI, 2, 0, 4, 1e-7, 0};
    return {r.coin() ? treeref::GINI : treeref::ENTROPY, r.pick(std::vector<int>{0, 2, 2, 3, 8, 20}), r.pick(std::vector<int>{0, 0, 1, 2, 5}), r.pick(std::vector<int>{0, 1, 2, 3, 4, 6, 30}), r.pick(std::vector<double>{1e-7, 1e-7, 1e-3, 0.02, 0.1, 0.3}), 0};
}
static void tree_case(Ctx& c, bool big) {
    Rng& r = c.rng; bool def = r.coin(0.15); auto g = config(r, def); D q = draw(r, big);
    c.mixm(q.X); c.mixm(q.y); c.mix(g.crit * 1000 + g.min_split * 100 + g.min_leaf * 10 + g.max_depth); c.dump << (g.crit == treeref::GINI ? "gini" : "entropy") << " min_split " << g.min_split << " min_leaf " << g.min_leaf << " max_depth " << g.max_depth << " min_decrease " << g.min_dec << " X=" << show(q.X) << " y=" << show(q.y);
    Tree a, b(g.crit == treeref::GINI ? "gini" : "entropy", g.min_split, g.min_leaf, g.max_depth, g.min_dec); Tree& t = def ? a : b; int nfit = r.coin(0.2) ? 2 : 1; if (nfit == 2) { D o = draw(r); t.fit(o.X, o.y); if (r.coin()) t.predict(o.X); c.ev("refits"); }
    const Mat X0 = q.X; const Vec y0 = q.y; t.fit(q.X, q.y); c.ev("fits"); c.req(samem(q.X, X0) && samem(q.y, y0), "input-changed", ""); judge(c, t, q, g, false);
}
SCENARIO(tree, 6000, 80000) { tree_case(c, false); }
// more rows than a 16-bit counter holds
SCENARIO(tree_huge, 16, 120) { tree_case(c, true); c.ev("more than 65000 rows"); }
SCENARIO(bad_criterion, 60, 400) {
    Rng& r = c.rng; D q; do q = draw(r); while (q.n < 3); bool split = false; for (int i = 1; i < q.n; ++i) for (int j = 0; j < q.d; ++j) split = split || q.X(i, j) != q.X(0, j); std::string k = r.pick(std::vector<std::string>{"", "Gini", "mse", "squared_error", "gin", "entropy "}); c.mixm(q.X); c.mixv(std::vector<int>(k.begin(), k.end())); c.nontrivial = split; c.dump << "criterion '" << k << "' X=" << show(q.X);
    if (!split) return; Tree t(k, 2, 0, 4, 1e-7); c.req(throws([&] { t.fit(q.X, q.y); }), "unknown-criterion", k); c.ev("errors expected");
}
