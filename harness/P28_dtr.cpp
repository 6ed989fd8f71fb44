// DecisionTreeRegressor: conservation invariants and the greedy rule
#include "tree_ref.hpp"
#include <src/methods/tree/decision_tree_regressor.hpp>
using namespace mon;
namespace dt = openml::decision_tree;
using Tree = dt::DecisionTreeRegressor<double>;
struct D { Mat X; Vec y; int n, d; };
static D draw(Rng& r, bool big = false) {
    D q; q.n = r.coin(0.02) ? r.irange(90, 160) : r.coin(0.3) ? r.irange(1, 8) : r.irange(2, 45); q.d = r.irange(1, q.n > 80 ? 2 : 4); q.X = gen::data(r, q.n, q.d); if (r.coin(0.6)) q.X = gen::mat(r, q.n, q.d, r.coin() ? 0 : 5); if (big) { int one; mon::huge(r, q.n, one, 1); if (r.coin()) q.n += r.irange(0, 60000); q.d = 1; q.X.resize(q.n, 1); double p = r.coin() ? r.uni(0.9, 0.99) : r.uni(0.3, 0.98), b = r.pick(std::vector<double>{-1, 0, 5}); for (int i = 0; i < q.n; ++i) q.X(i, 0) = r.coin(p) ? b : r.irange(1, 4); } treeref::rescale(r, q.X);
    q.y.resize(q.n); int mode = r.irange(0, 5), f = r.irange(0, q.d - 1); double sc = r.coin(0.3) ? std::pow(10, r.irange(-3, 5)) : 1, off = r.coin(0.2) ? r.pick(std::vector<double>{-1e4, 1e6, 37}) : 0, md = q.X(r.irange(0, q.n - 1), f);
    for (int i = 0; i < q.n; ++i) { double v = 0; switch (mode) { case 0: v = r.gauss(); break; case 1: v = q.X(i, f) > md ? 2 + 0.1 * r.gauss() : 0.1 * r.gauss(); break; case 2: v = r.irange(-2, 2); break; case 3: v = (q.X(i, f) > md) + (q.X(i, 0) > 0) * 3; break; case 4: v = std::exp(2 * r.gauss()); break; default: v = r.coin(0.1) ? r.gauss() * 100 : r.gauss(); } q.y(i) = v * sc + off; }
    if (r.coin(0.04)) q.y.setConstant(r.coin() ? 0.0 : r.gauss() * sc + off); return q;
}
static void judge(Ctx& c, const Tree& t, const D& q, const treeref::Cfg& g) {
    Rng& r = c.rng; Mat T = treeref::queries(r, q.X), Q(q.n + T.rows(), q.d); Q.topRows(q.n) = q.X; Q.bottomRows(T.rows()) = T; const Mat Q0 = Q; Vec p = t.predict(Q); c.req(samem(Q, Q0), "input-changed", ""); if (!c.req(p.size() == Q.rows(), "shape", S(p.size()))) return;
    double lo = q.y.minCoeff(), hi = q.y.maxCoeff(), mx = ref::maxabs(q.y), eps = 1e-14 * q.n * mx; std::map<double, long> groups; long double sp = 0, sy = 0;
    for (long i = 0; i < Q.rows(); ++i) { c.ev("rows judged"); if (!c.req(p(i) >= lo - eps && p(i) <= hi + eps, "range", S("row ", i, ": ", p(i), " outside [", lo, ", ", hi, "]"))) return; if (i < q.n) { groups[p(i)]++; sp += p(i); sy += q.y(i); } }
    c.req(fabsl(sp - sy) <= q.n * eps + 1e-300, "sum", S("predictions of the training rows add up to ", (double)sp, ", the targets to ", (double)sy));
    if (g.max_depth < 20) c.req((double)groups.size() <= std::ldexp(1.0, (int)g.max_depth + 1), "too-many-leaves", S(groups.size(), " at max depth ", g.max_depth));
    for (auto& e : groups) if (groups.size() > 1) c.req(e.second >= g.min_leaf, "small-leaf", S(e.second, " rows"));
    treeref::Ref ref(q.X, q.y, Q, g); ref.run(); if (ref.over) { c.ev("trees too ambiguous to follow"); return; } c.ev("trees followed"); c.ev("reference splits", ref.nsplit); if (ref.nsplit) c.nontrivial = true;
    std::vector<double> lp; for (auto& l : ref.leaves) { long double s = 0; for (int i : l.rows) s += q.y(i); lp.push_back((double)(s / l.rows.size())); }
    for (long i = 0; i < Q.rows(); ++i) { bool ok = false; std::string want; for (int l : ref.allowed[i]) { ok = ok || std::fabs(p(i) - lp[l]) <= eps + 1e-300; want += S(lp[l], " "); }
        c.ev(ref.allowed[i].size() == 1 ? "rows with one possible leaf" : "rows with several possible leaves"); if (!c.req(ok, "not-greedy", S(i < q.n ? "training" : "query", " row ", i, " ", show(Q.row(i)), ": predicted ", p(i), " want one of ", want))) return; }
}
static void tree_case(Ctx& c, bool big) {
    Rng& r = c.rng; bool def = r.coin(0.15); D q = draw(r, big); double var = 0; { double m = q.y.mean(); var = (q.y.array() - m).square().mean(); }
    treeref::Cfg g = def ? treeref::Cfg{treeref::SQUARED, 2, 0, 4, 1e-7, 1e-3} : treeref::Cfg{r.coin() ? treeref::SQUARED : treeref::ABSOLUTE, r.pick(std::vector<int>{0, 2, 2, 3, 8, 20}), r.pick(std::vector<int>{0, 0, 1, 2, 5}), r.pick(std::vector<int>{0, 1, 2, 3, 4, 6, 30}), r.pick(std::vector<double>{1e-7, 1e-7, 1e-3, 0.05, 0.3}), r.pick(std::vector<double>{1e-3, 1e-3, 1e-6, 0.05, 0.3})};
    if (!def && g.min_dec > 1e-6) g.min_dec *= g.crit == treeref::SQUARED ? var : std::sqrt(var); if (!def && g.min_sd > 0.01) g.min_sd *= std::sqrt(var);
    c.mixm(q.X); c.mixm(q.y); c.mix(g.crit * 1000 + g.min_split * 100 + g.min_leaf * 10 + g.max_depth); std::string cr = g.crit == treeref::SQUARED ? "squared_error" : "absolute_error"; c.dump << cr << " min_split " << g.min_split << " min_leaf " << g.min_leaf << " max_depth " << g.max_depth << " min_decrease " << g.min_dec << " min_stdev " << g.min_sd << " X=" << show(q.X) << " y=" << show(q.y);
    Tree a, b(cr, g.min_split, g.min_leaf, g.max_depth, g.min_dec, g.min_sd); Tree& t = def ? a : b; if (r.coin(0.2)) { D o = draw(r); t.fit(o.X, o.y); if (r.coin()) t.predict(o.X); c.ev("refits"); }
    const Mat X0 = q.X; const Vec y0 = q.y; t.fit(q.X, q.y); c.ev("fits"); c.req(samem(q.X, X0) && samem(q.y, y0), "input-changed", ""); judge(c, t, q, g);
}
SCENARIO(tree, 6000, 80000) { tree_case(c, false); }
// more rows than a 16-bit counter holds
SCENARIO(tree_huge, 16, 120) { tree_case(c, true); c.ev("more than 65000 rows"); }
SCENARIO(bad_criterion, 60, 400) {
    Rng& r = c.rng; D q; bool ok; do { q = draw(r); ok = false; for (int i = 1; i < q.n; ++i) for (int j = 0; j < q.d; ++j) ok = ok || q.X(i, j) != q.X(0, j); ok = ok && q.n >= 3 && q.y.maxCoeff() - q.y.minCoeff() > 0.1; } while (!ok); std::string k = r.pick(std::vector<std::string>{"", "mse", "gini", "squared", "Squared_error", "absolute_error "}); c.mixm(q.X); c.mixv(std::vector<int>(k.begin(), k.end())); c.nontrivial = true; c.dump << "criterion '" << k << "' X=" << show(q.X);
    Tree t(k, 2, 0, 4, 1e-7, 1e-3); c.req(throws([&] { t.fit(q.X, q.y); }), "unknown-criterion", k); c.ev("errors expected");
}
