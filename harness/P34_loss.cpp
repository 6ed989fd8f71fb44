// Losses in single precision
#include "single.hpp"
#include <src/core/loss/mean_squared_error.hpp>
#include <src/core/loss/log_loss.hpp>
#include <src/core/loss/hinge_loss.hpp>
#include <src/core/loss/huber_loss.hpp>
#include <src/core/loss/softmax_loss.hpp>
using namespace mon; using namespace openml; using namespace single; using std::string;
SCENARIO(losses, 500, 8000) {
    Rng& r = c.rng; int n = r.irange(1, 20), d = r.irange(1, 6), k = c.index % 5, K = r.irange(2, 4); Mat X = features(r, n, d), y(n, 1), w = gen::mat(r, d, k == 4 ? K : 1, 0); for (int i = 0; i < n; ++i) y(i) = k == 4 ? r.irange(0, K - 1) : k == 1 || k == 2 ? (double)r.irange(0, 1) : r.gauss(); if (r.coin(0.2)) w *= 20; double lam = r.coin() ? 0 : std::pow(10, r.uni(-3, 0)), de = r.uni(0.3, 2); w = round(w); y = round(y); Ins in{X, y, w}; c.mix(k); c.mixm(X); c.mixm(w); c.dump << k << " lambda " << lam << " delta " << de << " X=" << show(X) << " y=" << show(y) << " w=" << show(w);
#define LOSS(NAME, L, FIXED) FN(NAME, FIXED, 128, 1, V<F> t = in[1].col(0).cast<F>(), p = in[2].col(0).cast<F>(); L; return Outs{real("value", l.evaluate(A, t, p)), real("gradient", l.gradient(A, t, p))};)
    switch (k) {
    case 0: LOSS("MSE", loss::MSE<F> l(lam), 0); break;
    case 1: LOSS("LogLoss", loss::LogLoss<F> l(lam), 2); break;
    case 2: LOSS("HingeLoss", loss::HingeLoss<F> l(lam, de), 2); break;
    case 3: LOSS("HuberLoss", loss::HuberLoss<F> l(lam, de), 0); break;
    default: FN("SoftmaxLoss", 2, 128, 1, V<F> t = in[1].col(0).cast<F>(); M<F> p = in[2].cast<F>(); loss::SoftmaxLoss<F> l(lam); return Outs{real("value", l.evaluate(A, t, p)), real("gradient", l.gradient(A, t, p))};);
    }
}
