// SGD / SAG / TruncatedGradient: the recorded history of every loss call against the documented algorithm
#include "gen.hpp"
#include <src/core/optimizer/base.hpp>
#include <src/core/optimizer/sgd/sgd.hpp>
#include <src/core/optimizer/sgd/sag.hpp>
#include <src/core/optimizer/sgd/tg.hpp>
#include <src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp>
#include <memory>
using namespace mon;
namespace op = openml::optimizer;

struct Call { bool grad; Mat X; Vec y; Mat W; Mat g; double v; };
struct Log { std::vector<Call> calls; Rng rng{1}; bool scripted = false; double gscale = 1; int walk = 0; double level = 5; };
// the loss the optimizer is given; shared log, because optimizers copy it
struct Loss {
    std::shared_ptr<Log> log;
    Mat gradient(const Mat& X, const Vec& y, const Mat& W) const {
        Mat g = Mat::Zero(W.rows(), W.cols());
        if (log->scripted) {
            for (long i = 0; i < g.rows(); ++i) for (long j = 0; j < g.cols(); ++j) {
                double v = log->rng.gauss() * log->gscale;
                if (log->rng.coin(0.03)) v *= 1e12;                // must be clipped to +-1e10
                if (log->rng.coin(0.1)) v = 0;
                g(i, j) = v;
            }
        } else
            for (long k = 0; k < W.cols(); ++k) for (long i = 0; i < X.rows(); ++i) {
                double s = -y(i) * (k + 1);
                for (long j = 0; j < W.rows(); ++j) s += X(i, j) * W(j, k);
                for (long j = 0; j < W.rows(); ++j) g(j, k) += s * X(i, j) / X.rows();
            }
        log->calls.push_back({true, X, y, W, g, 0});
        return g;
    }
    double evaluate(const Mat& X, const Vec& y, const Mat& W) const {
        double v = 0;
        if (log->scripted) {
            switch (log->walk) {
                case 0: log->level -= log->rng.u() * 0.3; break;              // steady improvement
                case 1: log->level += log->rng.gauss() * 0.2; break;          // random walk
                case 2: if (log->rng.coin(0.2)) log->level -= log->rng.irange(0, 3); break;   // plateaus
                case 4: log->level -= log->rng.uni(-0.2, 1) * 1e-8; break;    // improvements in the last digits only
                case 5: log->level *= log->rng.uni(0.7, 1.2); break;          // a scale of its own, also tiny, huge or negative
                default: log->level += log->rng.irange(-2, 2);                // jumps and exact ties
            }
            v = log->level;
        } else
            for (long k = 0; k < W.cols(); ++k) for (long i = 0; i < X.rows(); ++i) {
                double s = -y(i) * (k + 1);
                for (long j = 0; j < W.rows(); ++j) s += X(i, j) * W(j, k);
                v += s * s / 2 / X.rows();
            }
        log->calls.push_back({false, X, y, W, Mat(), v});
        return v;
    }
};
struct Cfg {
    Mat X; Vec y; Mat x0; int n, d, K, max_iter, batch, patience; double tol; bool shuffle;
    int upd, dec; double mu, base, gamma; int step; double alpha, l1;
};
static double lr_of(const Cfg& q, int epoch) {
    if (q.dec == 0) return q.base * std::pow(q.gamma, (double)((1 + epoch) / q.step));
    return q.base * std::exp(-q.gamma * epoch);
}
static Cfg config(Ctx& c, Log& log, bool multi) {
    Rng& r = c.rng; Cfg q;
    q.n = r.coin(0.2) ? r.irange(1, 4) : mon::dim(r, 4, 30, 300, 0.02); q.d = mon::dim(r, 1, 6, 30, 0.02); q.K = multi ? r.irange(1, 3) : 1;
    q.batch = r.coin(0.3) ? r.irange(1, q.n) : r.irange(1, std::min(q.n, 6));
    q.max_iter = mon::dim(r, 1, 25, 150, 0.02); q.patience = mon::dim(r, 1, 5, 20); q.tol = r.pick(std::vector<double>{0, 1e-4, 1e-2, 0.1, 0.5});
    q.shuffle = r.coin(0.7);
    q.X = gen::mat(r, q.n, q.d, 0); q.y.resize(q.n); q.x0 = gen::mat(r, q.d, q.K, 0); if (r.coin(0.2)) q.x0.setZero();
    for (int i = 0; i < q.n; ++i) { q.X(i, 0) = i; q.y(i) = multi ? i % q.K : i * 0.5 - 3; }     // column 0 names the row
    q.X.col(0) /= 8;
    q.upd = r.irange(0, 2); q.dec = r.irange(0, 1); q.mu = r.uni(0, 0.95); q.base = std::pow(10, r.uni(-4, -0.7));
    q.gamma = q.dec ? r.uni(0, 0.5) : r.uni(0.1, 1); q.step = r.irange(1, 6); q.alpha = r.coin(0.2) ? 0 : std::pow(10, r.uni(-3, 1)); q.l1 = r.uni(0, 1);
    log.scripted = r.coin(0.7); log.rng = Rng(r.next()); log.walk = r.irange(0, 5); if (log.walk == 4 && r.coin(0.8)) { q.tol = r.pick(std::vector<double>{0, 1e-9, 1e-10}); } if (log.walk == 5) { log.level = std::pow(10, r.uni(-9, 9)) * (r.coin(0.3) ? -1 : 1); if (r.coin()) q.tol = std::fabs(log.level) * r.uni(0, 0.3); } log.gscale = std::pow(10, r.uni(-1, 1.5));
    c.mixm(q.X); c.mixm(q.x0); c.mix(q.batch); c.mix(q.max_iter); c.mix(q.patience); c.mixd(q.tol); c.mix(q.upd * 2 + q.dec); c.mixd(q.base);
    c.dump << "n=" << q.n << " d=" << q.d << " K=" << q.K << " batch=" << q.batch << " max_iter=" << q.max_iter << " patience=" << q.patience << " tol=" << q.tol
           << " shuffle=" << q.shuffle << " update=" << q.upd << " decay=" << q.dec << " mu=" << q.mu << " base=" << q.base << " gamma=" << q.gamma << " step=" << q.step
           << " alpha=" << q.alpha << " l1=" << q.l1 << " scripted=" << log.scripted << " walk=" << log.walk;
    return q;
}
enum Algo { SGD_, SAG_, TG_ };
static double clip1(double v) { return std::min(1e10, std::max(-1e10, v)); }
static bool veq(Ctx& c, const Mat& got, const Mat& want, const Mat& mag, const std::string& key, const std::string& what) {
    if (!c.req(got.rows() == want.rows() && got.cols() == want.cols(), key + "-shape", what)) return false;
    for (long i = 0; i < got.rows(); ++i) for (long j = 0; j < got.cols(); ++j)
        if (!(std::fabs(got(i, j) - want(i, j)) <= 1e-11 * mag(i, j) + 1e-300)) { c.fail(key, S(what, " (", i, ",", j, "): ", got(i, j), " want ", want(i, j))); return false; }
    return true;
}
// offline checker of the history
static void judge(Ctx& c, Algo algo, const Cfg& q, const Log& log, bool threw, const Mat& coef) {
    int nb = q.n / q.batch;
    const auto& L = log.calls;
    if (!c.req(L.size() % (2 * nb) == 0 && !L.empty(), "epoch-shape", S(L.size(), " loss calls do not make whole epochs of ", nb, " batches"))) return;
    int epochs = (int)(L.size() / (2 * nb));
    c.ev("epochs", epochs); c.ev("batches", (long)epochs * nb);
    Mat V = Mat::Zero(q.d, q.K), absV = V, absSum = Mat::Zero(q.d, q.K), avg = V, W = q.x0, cum = V; std::vector<Mat> hist(nb, V); double u = 0;
    double best = INFINITY; int stale = 0, stop_at = -1; bool sure = true;
    bool all_identity = true, all_same = true; std::vector<int> first;
    Mat mag(q.d, q.K);
    for (long i = 0; i < q.d; ++i) for (long k = 0; k < q.K; ++k) mag(i, k) = std::fabs(q.x0(i, k));
    for (int e = 0; e < epochs; ++e) {
        std::vector<int> order; std::set<int> seen; double sum = 0, sumabs = 0;
        for (int b = 0; b < nb; ++b) {
            const Call &g = L[2 * (e * nb + b)], &v = L[2 * (e * nb + b) + 1];
            if (!c.req(g.grad && !v.grad, "call-order", S("epoch ", e, " batch ", b, ": not one gradient and then one loss"))) return;
            if (!c.req(g.X.rows() == q.batch && g.y.size() == q.batch && g.X.cols() == q.d, "batch-shape", S("epoch ", e, " batch ", b, ": ", show(g.X)))) return;
            for (int i = 0; i < q.batch; ++i) {
                double idd = g.X(i, 0) * 8; int id = (int)std::lround(idd);
                if (!c.req(idd == id && id >= 0 && id < q.n, "foreign-row", S("epoch ", e, " batch ", b, " row ", show(g.X.row(i).eval())))) return;
                for (int j = 0; j < q.d; ++j) if (g.X(i, j) != q.X(id, j)) { c.fail("foreign-row", S("epoch ", e, " batch ", b, ": row ", id, " arrived as ", show(g.X.row(i).eval()))); return; }
                if (!c.req(g.y(i) == q.y(id), "label-unpaired", S("epoch ", e, " batch ", b, ": row ", id, " came with y=", g.y(i), ", not ", q.y(id)))) return;
                if (!c.req(seen.insert(id).second, "row-repeated", S("epoch ", e, ": row ", id, " was used twice"))) return;
                order.push_back(id);
            }
            c.req(samem(v.X, g.X) && samem(v.y, g.y), "loss-other-batch", S("epoch ", e, " batch ", b, ": loss taken on other rows than the gradient"));
            // the weights of this step
            if (!veq(c, g.W, W, mag, "weight-chain", S("epoch ", e, " batch ", b, ": gradient taken at"))) return;
            W = g.W;
            double lr = lr_of(q, e); Mat G(q.d, q.K), N(q.d, q.K);
            for (int i = 0; i < q.d; ++i) for (int k = 0; k < q.K; ++k) { G(i, k) = clip1(g.g(i, k)); c.ev("clipped", G(i, k) != g.g(i, k)); }
            Mat use = G, ab = G;
            for (int i = 0; i < q.d; ++i) for (int k = 0; k < q.K; ++k) ab(i, k) = std::fabs(G(i, k));
            if (algo == SAG_) {
                hist[b] = G;
                for (int i = 0; i < q.d; ++i) { long double s = 0; for (auto& h : hist) s += h(i, 0); absSum(i, 0) += std::fabs(G(i, 0)); use(i, 0) = (double)(s / nb); ab(i, 0) = absSum(i, 0); }
            }
            for (int i = 0; i < q.d; ++i) for (int k = 0; k < q.K; ++k) {
                if (q.upd == 0) { N(i, k) = W(i, k) - lr * use(i, k); mag(i, k) = std::fabs(W(i, k)) + lr * ab(i, k); }
                else {
                    double p = V(i, k); V(i, k) = q.mu * p + lr * use(i, k); absV(i, k) = q.mu * absV(i, k) + lr * ab(i, k);
                    N(i, k) = q.upd == 1 ? W(i, k) - V(i, k) : W(i, k) - (V(i, k) + q.mu * (V(i, k) - p));
                    mag(i, k) = std::fabs(W(i, k)) + 4 * absV(i, k);
                }
            }
            if (algo == TG_) {
                u += q.l1 * lr * q.alpha;
                for (int i = 0; i < q.d; ++i) {
                    double w = N(i, 0), z = w;
                    if (std::fabs(w) < 1e-9 * mag(i, 0) && w != 0) { sure = false; return; }     // the sign is rounding
                    if (w > 0) z = std::max(0.0, w - (u + cum(i, 0))); else if (w < 0) z = std::min(0.0, w + (u - cum(i, 0)));
                    absSum(i, 0) += std::fabs(z - w); cum(i, 0) += z - w; mag(i, 0) += absSum(i, 0) + u; N(i, 0) = z; c.ev("truncated to zero", z == 0 && w != 0);
                }
            }
            if (!veq(c, v.W, N, mag, "update-rule", S("epoch ", e, " batch ", b, " lr=", lr, ": weights after the update"))) return;
            W = v.W; sum += v.v; sumabs += std::fabs(v.v);
        }
        bool ident = true; for (size_t i = 0; i < order.size(); ++i) if (order[i] != (int)i) ident = false;
        if (!q.shuffle && !ident) { c.fail("order", S("epoch ", e, " without shuffling does not take the rows in order: ", showv(order))); return; }
        all_identity = all_identity && ident; if (!e) first = order; else all_same = all_same && order == first;
        // stop rule
        if (sure && stop_at < 0) {
            double thr = best - q.tol * q.batch;
            if (std::isfinite(best) && std::fabs(sum - thr) <= 1e-12 * (sumabs + std::fabs(thr)) && (sum != thr || nb > 1)) sure = false;
            else { if (sum > thr) ++stale; else stale = 0; if (sum < best) best = sum; if (stale >= q.patience) stop_at = e; }
            if (sure && stop_at == e && e != epochs - 1) { c.fail("stops-late", S("no improvement for ", q.patience, " epochs at epoch ", e, ", yet ", epochs, " epochs were run")); return; }
        }
    }
    if (q.shuffle && q.n >= 10 && nb * q.batch >= 10) {
        c.req(!all_identity, "not-shuffled", "shuffling was asked for and every epoch took the rows in the given order");
        if (epochs > 1) c.req(!all_same, "shuffled-once", "every epoch took the rows in the same order");
    }
    c.req(epochs <= q.max_iter, "too-many-epochs", S(epochs, " epochs of at most ", q.max_iter));
    if (threw) {
        c.ev("not converged"); c.req(epochs == q.max_iter, "gives-up-early", S("threw after ", epochs, " of ", q.max_iter, " epochs"));
        if (sure) c.req(stop_at < 0, "threw-though-converged", S("no improvement for ", q.patience, " epochs at epoch ", stop_at));
    } else {
        c.ev("converged");
        if (sure) c.req(stop_at == epochs - 1, "stops-early", S("stopped after epoch ", epochs - 1, " although only ", stale, " of ", q.patience, " epochs did not improve"));
        veq(c, coef, W, mag, "coef", "get_coef");
    }
}
template <class O> static void go(Ctx& c, Algo a, const Cfg& q, std::shared_ptr<Log> log, O&& o) {
    const Mat X0 = q.X; const Vec y0 = q.y; bool threw = false;
    try { o.optimize(q.X, q.y); } catch (const std::runtime_error&) { threw = true; }
    c.nontrivial = q.n > 1;
    c.req(samem(q.X, X0) && samem(q.y, y0), "input-changed", "the optimizer changed its training data");
    judge(c, a, q, *log, threw, threw ? Mat(q.x0) : Mat(o.get_coef()));
}
template <class U> static void sgd_with(Ctx& c, const Cfg& q, std::shared_ptr<Log> log, bool multi, U u) {
    if (q.dec == 0) go(c, SGD_, q, log, op::SGD<double, Loss, U, op::StepDecay<double>>(q.x0, Loss{log}, u, op::StepDecay<double>(q.base, q.gamma, q.step), q.max_iter, q.batch, q.patience, q.tol, q.shuffle, false, multi));
    else go(c, SGD_, q, log, op::SGD<double, Loss, U, op::ExponentialDecay<double>>(q.x0, Loss{log}, u, op::ExponentialDecay<double>(q.base, q.gamma), q.max_iter, q.batch, q.patience, q.tol, q.shuffle, c.rng.coin(0.1), multi));
}
static void sgd_any(Ctx& c, bool multi) {
    auto log = std::make_shared<Log>(); Cfg q = config(c, *log, multi);
    if (q.upd == 0) sgd_with(c, q, log, multi, op::VanillaUpdate<double>());
    else if (q.upd == 1) sgd_with(c, q, log, multi, op::MomentumUpdate<double>(q.mu));
    else sgd_with(c, q, log, multi, op::NesterovMomentumUpdate<double>(q.mu));
}
SCENARIO(sgd, 1500, 40000) { sgd_any(c, false); }
SCENARIO(sgd_multiclass, 500, 10000) { sgd_any(c, true); }
SCENARIO(sag, 1500, 40000) {
    auto log = std::make_shared<Log>(); Cfg q = config(c, *log, false); q.upd = q.upd == 2 ? 0 : q.upd; if (q.upd == 0) q.dec = 0;
    if (q.upd == 0) go(c, SAG_, q, log, op::SAG<double, Loss, op::VanillaUpdate<double>, op::StepDecay<double>>(q.x0, Loss{log}, op::VanillaUpdate<double>(), op::StepDecay<double>(q.base, q.gamma, q.step), q.max_iter, q.batch, q.patience, q.tol, q.shuffle, false));
    else { q.dec = 1; go(c, SAG_, q, log, op::SAG<double, Loss, op::MomentumUpdate<double>, op::ExponentialDecay<double>>(q.x0, Loss{log}, op::MomentumUpdate<double>(q.mu), op::ExponentialDecay<double>(q.base, q.gamma), q.max_iter, q.batch, q.patience, q.tol, q.shuffle, false)); }
}
SCENARIO(truncated_gradient, 1500, 40000) {
    auto log = std::make_shared<Log>(); Cfg q = config(c, *log, false); q.upd = 0; q.dec = 0;
    go(c, TG_, q, log, op::TruncatedGradient<double, Loss, op::VanillaUpdate<double>, op::StepDecay<double>>(q.x0, Loss{log}, op::VanillaUpdate<double>(), op::StepDecay<double>(q.base, q.gamma, q.step), q.max_iter, q.batch, q.patience, q.tol, q.alpha, q.l1, q.shuffle, false));
}
