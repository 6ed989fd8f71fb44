// losses: value against the documented formula, gradient against the analytic one and against differences of the value
#include "gen.hpp"
#include <src/core/loss/huber_loss.hpp>
using namespace mon;
using LD = long double;
struct In { Mat X; Vec y; int n, d; double lambda; };
static In input(Ctx& c, bool pm) {
    Rng& r = c.rng; In q; q.n = mon::dim(r, 1, 20, 800); q.d = mon::dim(r, 1, 8, 60); if (mon::huge(r, q.n, q.d)) c.ev("more than 65000 rows"); q.X = gen::data(r, q.n, q.d);
    q.lambda = r.coin(0.4) ? 0 : r.uni(0, 3); q.y.resize(q.n); c.mixm(q.X); c.mixd(q.lambda); c.nontrivial = q.n * q.d > 1;
    c.dump << "lambda=" << q.lambda << " X=" << show(q.X);
    return q;
}
static LD margin(const In& q, const Vec& w, int i) { LD s = 0; for (int j = 0; j < q.d; ++j) s += (LD)q.X(i, j) * w(j); return s; }
static LD mag(const In& q, const Vec& w, int i) { LD s = 0; for (int j = 0; j < q.d; ++j) s += fabsl((LD)q.X(i, j) * w(j)); return s; }
static LD reg(const In& q, const Vec& w) { LD s = 0; for (int j = 0; j < q.d; ++j) s += (LD)w(j) * w(j); return s * q.lambda / (2 * q.n); }
static Vec weights(Rng& r, const In& q) { Vec w = gen::vec(r, q.d, 0); double m = ref::maxabs(q.X); w *= std::pow(10.0, r.uni(-2, 1)) / std::max(m, 1e-3); if (r.coin(0.1)) w.setZero(); return w; }
// judge one loss: f(i, margin, y) per-sample value, g(i, margin, y) its derivative, mean or sum
template <class L, class F, class G> static void judge(Ctx& c, const L& loss, const In& q, const Vec& w, bool mean, F f, G g, double slack = 1) {
    const Mat X0 = q.X; const Vec y0 = q.y, w0 = w;
    c.mixm(w); c.mixm(q.y); c.dump << " y=" << show(q.y) << " w=" << show(w);
    LD v = 0, va = 0; std::vector<LD> gr(q.d, 0), ga(q.d, 0);
    for (int i = 0; i < q.n; ++i) {
        LD m = margin(q, w, i), t = f(m, (LD)q.y(i)), s = g(m, (LD)q.y(i)); v += t;
        va += fabsl(t) + (mag(q, w, i) + 1) * std::max((LD)1, fabsl(s));
        for (int j = 0; j < q.d; ++j) { gr[j] += s * q.X(i, j); ga[j] += (fabsl(s) + slack * (mag(q, w, i) + 1)) * fabsl((LD)q.X(i, j)); }
    }
    LD N = mean ? q.n : 1; v = v / N + reg(q, w); va = va / N + reg(q, w);
    double ev = loss.evaluate(q.X, q.y, w); Vec gv = loss.gradient(q.X, q.y, w);
    c.req(std::fabs(ev - (double)v) <= 1e-13 * q.n * q.d * (double)va, "value", S(ev, " want ", (double)v));
    if (!c.req(gv.size() == q.d, "gradient-size", show(gv))) return;
    for (int j = 0; j < q.d; ++j) {
        LD want = gr[j] / N + (LD)q.lambda * w(j) / q.n, m = ga[j] / N + fabsl((LD)q.lambda * w(j) / q.n);
        c.req(std::fabs(gv(j) - (double)want) <= 1e-13 * q.n * q.d * (double)m + 1e-300, "gradient", S("component ", j, ": ", gv(j), " want ", (double)want));
    }
    c.req(samem(q.X, X0) && samem(q.y, y0) && samem(w, w0), "input-changed", "an input was changed");
    c.ev("evaluations"); c.ev("gradient components", q.d);
}
SCENARIO(mse, 400, 8000) {
    In q = input(c, 0); q.y = gen::vec(c.rng, q.n, c.rng.irange(0, 5)); Vec w = weights(c.rng, q);
    openml::loss::MSE<double> l(q.lambda);
    double ym = ref::maxabs(q.y);
    judge(c, l, q, w, true, [](LD m, LD y) { return (m - y) * (m - y) / 2; }, [](LD m, LD y) { return m - y; }, 1 + ym);
}
SCENARIO(log_loss, 500, 8000) {
    In q = input(c, 0); for (int i = 0; i < q.n; ++i) q.y(i) = c.rng.irange(0, 1); Vec w = weights(c.rng, q);
    if (c.rng.coin(0.2)) { w *= 1000; c.ev("saturated"); }      // probabilities that round to 0 and 1
    openml::loss::LogLoss<double> l(q.lambda);
    judge(c, l, q, w, true, [](LD m, LD y) { return std::max(m, (LD)0) + log1pl(expl(-fabsl(m))) - y * m; },
          [](LD m, LD y) { return (m < 0 ? expl(m) / (1 + expl(m)) : 1 / (1 + expl(-m))) - y; });
}
SCENARIO(hinge, 400, 8000) {
    In q = input(c, 0); for (int i = 0; i < q.n; ++i) q.y(i) = c.rng.coin() ? 1 : -1; Vec w = weights(c.rng, q);
    double th = c.rng.coin() ? 1.0 : c.rng.uni(0, 2);
    for (int i = 0; i < q.n; ++i) if (fabsl(th - margin(q, w, i) * q.y(i)) < 1e-9 * (1 + mag(q, w, i))) { w(0) += 0.0123; }
    for (int i = 0; i < q.n; ++i) if (fabsl(th - margin(q, w, i) * q.y(i)) < 1e-9 * (1 + mag(q, w, i))) return;   // on the kink
    openml::loss::HingeLoss<double> l(q.lambda, th); c.mixd(th); c.dump << " threshold=" << th;
    judge(c, l, q, w, false, [&](LD m, LD y) { return std::max((LD)0, th - m * y); }, [&](LD m, LD y) { return m * y > th ? (LD)0 : -y; });
}
SCENARIO(huber, 400, 8000) {
    In q = input(c, 0); q.y = gen::vec(c.rng, q.n, c.rng.irange(0, 5)); Vec w = weights(c.rng, q);
    double de = c.rng.coin() ? 1.0 : c.rng.uni(0.1, 5);
    openml::loss::HuberLoss<double> l(q.lambda, de); c.mixd(de); c.dump << " delta=" << de;
    double ym = ref::maxabs(q.y);
    judge(c, l, q, w, true, [&](LD m, LD y) { LD a = fabsl(m - y); return a <= de ? a * a / 2 : de * a - (LD)de * de / 2; }, [&](LD m, LD y) { return std::min((LD)de, std::max(-(LD)de, m - y)); }, 1 + ym);
}
SCENARIO(softmax, 500, 8000) {
    In q = input(c, 0); Rng& r = c.rng; int K = mon::dim(r, 2, 5, 20); for (int i = 0; i < q.n; ++i) q.y(i) = r.irange(0, K - 1);
    Mat W(q.d, K); for (int k = 0; k < K; ++k) W.col(k) = weights(r, q); if (r.coin(0.2)) { W *= 1000; c.ev("saturated"); }
    const Mat X0 = q.X, W0 = W; const Vec y0 = q.y;
    c.mixm(W); c.mixm(q.y); c.dump << " y=" << show(q.y) << " W=" << show(W);
    openml::loss::SoftmaxLoss<double> l(q.lambda);
    LD v = 0, va = 0; std::vector<std::vector<LD>> G(q.d, std::vector<LD>(K, 0)); LD gm = 0;
    for (int i = 0; i < q.n; ++i) {
        std::vector<LD> m(K); LD mx = -INFINITY, z = 0, am = 0;
        for (int k = 0; k < K; ++k) { m[k] = margin(q, W.col(k), i); am = std::max(am, mag(q, W.col(k), i)); mx = std::max(mx, m[k]); }
        for (int k = 0; k < K; ++k) z += expl(m[k] - mx);
        int y = (int)q.y(i); LD t = mx + logl(z) - m[y]; v += t; va += t + am + 1;
        for (int k = 0; k < K; ++k) { LD p = expl(m[k] - mx) / z - (k == y); for (int j = 0; j < q.d; ++j) { G[j][k] += p * q.X(i, j); gm = std::max(gm, (1 + am) * fabsl((LD)q.X(i, j))); } }
    }
    LD sq = 0; for (int j = 0; j < q.d; ++j) for (int k = 0; k < K; ++k) sq += (LD)W(j, k) * W(j, k);
    LD rg = sq * q.lambda / (2 * q.n); v = v / q.n + rg; va = va / q.n + rg;
    double ev = l.evaluate(q.X, q.y, W); Mat gv = l.gradient(q.X, q.y, W);
    c.req(std::fabs(ev - (double)v) <= 1e-13 * q.n * q.d * (double)va, "value", S(ev, " want ", (double)v));
    if (!c.req(gv.rows() == q.d && gv.cols() == K, "gradient-size", show(gv))) return;
    for (int j = 0; j < q.d; ++j) for (int k = 0; k < K; ++k) {
        double want = (double)(G[j][k] / q.n + (LD)q.lambda * W(j, k) / q.n);
        c.req(std::fabs(gv(j, k) - want) <= 1e-13 * q.n * q.d * ((double)gm + std::fabs(q.lambda * W(j, k))), "gradient", S("(", j, ",", k, "): ", gv(j, k), " want ", want));
    }
    c.req(samem(q.X, X0) && samem(W, W0) && samem(q.y, y0), "input-changed", "an input was changed");
    c.ev("evaluations"); c.ev("gradient components", q.d * K);
}
