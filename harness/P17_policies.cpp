// learning-rate schedules and weight-update rules, called directly
#include "gen.hpp"
#include <src/core/optimizer/base.hpp>
#include <src/core/optimizer/sgd/update_policies/nesterov_momentum_update.hpp>
using namespace mon;
namespace op = openml::optimizer;
SCENARIO(step_decay, 2000, 60000) {
    Rng& r = c.rng; double base = std::pow(10, r.uni(-6, 2)), gamma = r.coin(0.2) ? 1 : r.uni(0.05, 1); int step = r.coin(0.2) ? 1 : r.irange(1, 40);
    int form = r.irange(0, 3); op::StepDecay<double> s = form == 0 ? op::StepDecay<double>() : form == 1 ? op::StepDecay<double>(base) : form == 2 ? op::StepDecay<double>(base, gamma) : op::StepDecay<double>(base, gamma, step);
    if (form == 0) base = 0.1; if (form < 2) gamma = 0.5; if (form < 3) step = 10;
    c.mixd(base); c.mixd(gamma); c.mix(step); c.nontrivial = true; c.dump << "base=" << base << " gamma=" << gamma << " step=" << step << " form=" << form;
    double prev = INFINITY; std::vector<size_t> es; for (int e = 0; e < 60; ++e) es.push_back(e); for (int k = 0; k < 10; ++k) es.push_back(r.irange(60, 5000)); for (int k = 0; k < 6; ++k) es.push_back((size_t)std::exp(r.uni(8, 13.8)));
    std::sort(es.begin(), es.end());
    for (size_t e : es) {                // epochs are counted from one
        long double want = base * powl(gamma, (e + 1) / step);
        double got = s.compute(e); c.ev("rates");
        if (!c.req(close(got, (double)want, 1e-12 * (1 + (double)(e + 1) / step), 1e-300), "step-decay", S("epoch ", e, ": ", got, " want ", (double)want))) return;
        if (gamma <= 1) c.req(got <= prev * (1 + 1e-12), "increases", S("epoch ", e, ": ", got, " after ", prev)); prev = got;
        c.req(s.compute(e) == got, "stateful", S("epoch ", e, ": two answers"));
    }
}
SCENARIO(exponential_decay, 2000, 60000) {
    Rng& r = c.rng; double base = std::pow(10, r.uni(-6, 2)), gamma = r.coin(0.2) ? 0 : std::pow(10, r.uni(r.coin() ? -4 : -8, 0.3)); int form = r.irange(0, 2);
    op::ExponentialDecay<double> s = form == 0 ? op::ExponentialDecay<double>() : form == 1 ? op::ExponentialDecay<double>(base) : op::ExponentialDecay<double>(base, gamma);
    if (form == 0) base = 0.1; if (form < 2) gamma = 0.5;
    c.mixd(base); c.mixd(gamma); c.nontrivial = true; c.dump << "base=" << base << " gamma=" << gamma << " form=" << form;
    double prev = INFINITY;
    std::vector<size_t> es; for (size_t e = 0; e < 200; e += 1 + r.irange(0, 4)) es.push_back(e); for (int k = 0; k < 15; ++k) es.push_back((size_t)std::exp(r.uni(5.3, 18))); std::sort(es.begin(), es.end());
    for (size_t e : es) {
        double want = (double)(base * expl(-(long double)gamma * e)), got = s.compute(e); c.ev("rates");
        if (!c.req(close(got, want, 1e-13 * (1 + gamma * e), 1e-300), "exponential-decay", S("epoch ", e, ": ", got, " want ", want))) return;
        c.req(got <= prev, "increases", S("epoch ", e)); prev = got;
    }
}
template <class U> static void walk(Ctx& c, int kind, double mu, U u) {
    Rng& r = c.rng; int d = mon::dim(r, 1, 8, 80), K = r.coin(0.3) ? r.irange(2, 4) : 1, T = mon::dim(r, 1, 30, 400);
    Mat W = gen::mat(r, d, K, r.irange(0, 5)), V = Mat::Zero(d, K), A = V; c.mixm(W); c.mixd(mu); c.nontrivial = T > 1; c.dump << "mu=" << mu << " W=" << show(W);
    U twin = u;                     // an independent copy sees other gradients and must not disturb this one
    for (int t = 0; t < T; ++t) {
        Mat g = gen::mat(r, d, K, r.irange(0, 5)); double lr = r.coin(0.1) ? 0 : std::pow(10, r.uni(-4, 1));
        if (t && r.coin(0.04)) {                    // the same object on to a weight matrix of another shape: it starts from rest
            int d2 = d, K2 = K; switch (r.irange(0, 3)) { case 0: std::swap(d2, K2); break; case 1: K2 = r.irange(1, 4); break; case 2: d2 = r.irange(1, 8); break; default: d2 = d * K; K2 = 1; }
            if (d2 != d || K2 != K) { d = d2; K = K2; W = gen::mat(r, d, K, r.irange(0, 5)); g = gen::mat(r, d, K, 0); V = A = Mat::Zero(d, K); c.ev("shape changes"); c.dump << " step " << t << " shape " << d << "x" << K; }
        }
        const Mat W0 = W, g0 = g; Mat N = u.update(W, g, lr); c.ev("updates");
        Mat T2 = twin.update(g, W, lr); (void)T2;
        c.req(samem(W, W0) && samem(g, g0), "input-changed", S("step ", t)); if (!c.req(N.rows() == d && N.cols() == K, "shape", show(N))) return;
        for (int i = 0; i < d; ++i) for (int k = 0; k < K; ++k) {
            double p = V(i, k), want, mag; V(i, k) = mu * p + lr * g(i, k); A(i, k) = mu * A(i, k) + lr * std::fabs(g(i, k));
            if (kind == 0) want = W(i, k) - lr * g(i, k); else if (kind == 1) want = W(i, k) - V(i, k); else want = W(i, k) - (V(i, k) + mu * (V(i, k) - p));
            mag = std::fabs(W(i, k)) + 4 * A(i, k) / (1 - 0.999 * mu) + lr * std::fabs(g(i, k));
            if (!c.req(std::fabs(N(i, k) - want) <= 1e-13 * mag + 1e-300, "update", S("step ", t, " (", i, ",", k, "): ", N(i, k), " want ", want))) return;
        }
        W = r.coin(0.8) ? N : gen::mat(r, d, K, 0);
    }
}
SCENARIO(vanilla, 1000, 30000) { walk(c, 0, 0, op::VanillaUpdate<double>()); }
SCENARIO(momentum, 1500, 30000) { double mu = c.rng.coin(0.1) ? 0 : c.rng.uni(0, 1); walk(c, 1, mu, op::MomentumUpdate<double>(mu)); }
SCENARIO(nesterov, 1500, 30000) { double mu = c.rng.coin(0.1) ? 0 : c.rng.uni(0, 1); walk(c, 2, mu, op::NesterovMomentumUpdate<double>(mu)); }
