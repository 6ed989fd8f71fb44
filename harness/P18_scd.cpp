// SCD: every coordinate step against the soft-threshold rule and the greedy choice; descent; optimality
#include "gen.hpp"
#include <src/core/optimizer/base.hpp>
#include <src/core/optimizer/sgd/scd.hpp>
#include <memory>
using namespace mon;
namespace op = openml::optimizer;
struct Log { std::vector<Mat> Xs; std::vector<Vec> ys, ws, gs; };
static Vec grad(const Mat& X, const Vec& y, const Vec& w) {
    Vec g(w.size());
    for (long j = 0; j < w.size(); ++j) g(j) = 0;
    for (long i = 0; i < X.rows(); ++i) { double s = -y(i); for (long j = 0; j < w.size(); ++j) s += X(i, j) * w(j); for (long j = 0; j < w.size(); ++j) g(j) += s * X(i, j) / X.rows(); }
    return g;
}
static double value(const Mat& X, const Vec& y, const Vec& w) {
    double v = 0; for (long i = 0; i < X.rows(); ++i) { double s = -y(i); for (long j = 0; j < w.size(); ++j) s += X(i, j) * w(j); v += s * s / 2 / X.rows(); } return v;
}
struct Loss {
    std::shared_ptr<Log> log;
    Vec gradient(const Mat& X, const Vec& y, const Vec& w) const { Vec g = grad(X, y, w); log->Xs.push_back(X); log->ys.push_back(y); log->ws.push_back(w); log->gs.push_back(g); return g; }
    double evaluate(const Mat& X, const Vec& y, const Vec& w) const { return value(X, y, w); }
};
SCENARIO(trace, 8000, 100000) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 20, 200), d = mon::dim(r, 1, 6, 40), T = mon::dim(r, 1, 60, 600); int kind = r.irange(0, 1) ? 0 : 5; Mat X = gen::mat(r, n, d, kind); Vec y = gen::vec(r, n, kind), x0 = gen::vec(r, d, r.coin() ? 0 : 1);
    double curv = 1e-9; for (int j = 0; j < d; ++j) { double s = 0; for (int i = 0; i < n; ++i) s += X(i, j) * X(i, j) / n; curv = std::max(curv, s); }
    bool safe = r.coin(0.7); double beta = safe ? curv * r.uni(1, 3) : curv * r.uni(0.6, 1), lam = r.coin(0.2) ? 0 : std::pow(10, r.uni(-4, 0.5)); bool sh = r.coin();
    X.col(0).array() += 0; c.mixm(X); c.mixm(y); c.mixd(beta); c.mixd(lam); c.mix(T); c.nontrivial = d > 1; c.dump << "beta=" << beta << " lambda=" << lam << " T=" << T << " shuffle=" << sh << " x0=" << show(x0) << " X=" << show(X) << " y=" << show(y);
    auto log = std::make_shared<Log>(); const Mat X0 = X; const Vec y0 = y;
    op::SCD<double, Loss> o(x0, Loss{log}, T, beta, lam, sh, r.coin(0.1)); o.optimize(X, y); Vec w = o.get_coef();
    c.req(samem(X, X0) && samem(y, y0), "input-changed", ""); if (!c.req((int)log->ws.size() == T, "iterations", S(log->ws.size(), " gradients for max_iter=", T))) return;
    log->ws.push_back(w); if (!c.req(w.size() == d, "coef-size", show(w))) return;
    c.req(samem(log->ws[0], x0), "start", show(log->ws[0]));
    bool moved = false;
    for (int t = 0; t < T; ++t) {
        const Vec &a = log->ws[t], &b = log->ws[t + 1], &g = log->gs[t]; const Mat& Xt = log->Xs[t]; const Vec& yt = log->ys[t];
        // the rows this gradient saw are the data, each with its own label
        if (!c.req(Xt.rows() == n && Xt.cols() == d && yt.size() == n, "rows", S("iteration ", t))) return;
        std::multiset<std::vector<double>> A, B; bool ident = true;
        for (int i = 0; i < n; ++i) { std::vector<double> p, q; for (int j = 0; j < d; ++j) { p.push_back(X(i, j)); q.push_back(Xt(i, j)); } p.push_back(y(i)); q.push_back(yt(i)); ident = ident && p == q; A.insert(p); B.insert(q); }
        if (!c.req(A == B, "rows", S("iteration ", t, ": the gradient saw other rows"))) return; if (!sh) c.req(ident, "order", S("iteration ", t, ": rows moved without shuffling")); moved = moved || !ident;
        // predicted descent of every coordinate
        std::vector<double> eta(d), pd(d); double mm = 0; for (int j = 0; j < d; ++j) mm = std::max(mm, std::fabs(a(j)) + std::fabs(g(j)) / beta); double best = -INFINITY, gm = 1e-300;
        for (int j = 0; j < d; ++j) {
            double z = a(j) - g(j) / beta, th = lam / beta; double nw = z > th ? z - th : z < -th ? z + th : 0; eta[j] = nw - a(j);
            pd[j] = -eta[j] * g(j) - beta / 2 * eta[j] * eta[j] - lam * std::fabs(nw) + lam * std::fabs(a(j)); best = std::max(best, pd[j]);
            gm = std::max(gm, 1e-3 * mm * (std::fabs(g(j)) + beta * mm + lam) + std::fabs(eta[j] * g(j)) + beta * eta[j] * eta[j] + lam * (std::fabs(nw) + std::fabs(a(j))));
        }
        int ch = -1; for (int j = 0; j < d; ++j) if (a(j) != b(j)) { if (!c.req(ch < 0, "two-coordinates", S("iteration ", t, ": ", show(a), " -> ", show(b)))) return; ch = j; }
        double m = 0; for (int j = 0; j < d; ++j) m = std::max(m, std::fabs(a(j)) + std::fabs(g(j)) / beta + lam / beta);
        if (ch >= 0) {
            c.ev("coordinate steps"); c.ev("steps to zero", b(ch) == 0);
            if (!c.req(std::fabs(b(ch) - a(ch) - eta[ch]) <= 1e-12 * m, "soft-threshold", S("iteration ", t, " coordinate ", ch, ": ", a(ch), " -> ", b(ch), ", want ", a(ch) + eta[ch]))) return;
            if (!c.req(pd[ch] >= best - 1e-10 * gm, "greedy", S("iteration ", t, ": took coordinate ", ch, " with predicted descent ", pd[ch], ", best is ", best))) return;
        } else if (!c.req(best <= 1e-10 * gm, "no-step", S("iteration ", t, ": nothing changed, yet a descent of ", best, " was predicted"))) return;
        if (safe) {
            double F0 = value(X, y, a), F1 = value(X, y, b); for (int j = 0; j < d; ++j) { F0 += lam * std::fabs(a(j)); F1 += lam * std::fabs(b(j)); }
            if (!c.req(F1 <= F0 + 1e-11 * (std::fabs(F0) + 1e-3), "ascent", S("iteration ", t, ": objective ", F0, " -> ", F1))) return;
        }
    }
    if (sh && n >= 10) { std::set<double> ds; for (int i = 0; i < n; ++i) ds.insert(y(i)); if (ds.size() > 8) c.req(moved, "not-shuffled", "shuffling was asked for and never happened"); }
}
SCENARIO(optimality, 300, 5000) {
    Rng& r = c.rng; int n = r.irange(6, 25), d = r.irange(1, 5); std::vector<double> s; for (int j = 0; j < d; ++j) s.push_back(r.uni(1, 3) * std::sqrt(n)); Mat X = gen::with_singular(r, n, d, s); Vec y = gen::vec(r, n, 0) * 3;
    double curv = 0; for (int j = 0; j < d; ++j) { double q = 0; for (int i = 0; i < n; ++i) q += X(i, j) * X(i, j) / n; curv = std::max(curv, q); } double beta = curv * r.uni(1, 1.5), lam = std::pow(10, r.uni(-3, 0.5));
    Vec x0 = gen::vec(r, d, 0) * 2; c.mixm(X); c.mixm(y); c.mixd(lam); c.nontrivial = true; c.dump << "beta=" << beta << " lambda=" << lam << " X=" << show(X) << " y=" << show(y);
    auto log = std::make_shared<Log>(); op::SCD<double, Loss> o(x0, Loss{log}, 3000, beta, lam, false, false); o.optimize(X, y); Vec w = o.get_coef(), g = grad(X, y, w); c.ev("optima");
    for (int j = 0; j < d; ++j) { c.ev("zero weights", w(j) == 0); double e = w(j) > 0 ? std::fabs(g(j) + lam) : w(j) < 0 ? std::fabs(g(j) - lam) : std::max(0.0, std::fabs(g(j)) - lam); c.req(e <= 1e-8 * (1 + lam + ref::maxabs(y)), "kkt", S("coordinate ", j, " w=", w(j), " gradient ", g(j), " lambda ", lam)); }
}
