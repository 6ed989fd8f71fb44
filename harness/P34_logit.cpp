// Logistic regression in single precision
// a tolerance no loss can beat: every fit runs a fixed number of epochs
#include "single_lin.hpp"
#include <src/methods/linear_model/logistic_regression.hpp>
SCENARIO(logistic, 300, 4500) {
    Rng& r = c.rng; D q = draw(c, 2); string sv = r.pick(std::vector<string>{"sgd", "sag", "scd", "lbfgs"}), pen = r.coin() ? "l2" : "None", pol = r.coin() ? "backtracking" : "bracketing", cond = r.pick(std::vector<string>{"armijo", "wolfe", "strongwolfe"}); bool sh = r.coin(); int bt = r.irange(1, 8), it = r.irange(2, 30); double lam = r.coin() ? 0 : 0.01; c.dump << sv << " " << pen << " batch " << bt << " iterations " << it << " lambda " << lam;
    using A = linear_model::LogisticRegression<double>;
    compare(c, "LogisticRegression/" + sv, [&](auto f, const Ins& in) { using F = decltype(f); using L = linear_model::LogisticRegression<F>;
        std::unique_ptr<L> m; if (sv == "scd") m.reset(new L(0.01, 30.0, it, "scd", "l1", sh, false)); else if (sv == "lbfgs") m.reset(new L(1e-6, 1e-4, 0.0, 0.9, 3, 5, 0, 40, "lbfgs", pen, pol, cond, true, false)); else m.reset(new L(0.05, lam, 1e6, bt, 1000, it, sv, pen, sh, false));
        m->fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); M<F> T = in[2].cast<F>(); return Outs{real("coef", m->get_coef()), real("predict_prob", m->predict_prob(T)), labels("predict", m->predict(T))}; }, {q.X, q.y, q.T}, 2, sv == "lbfgs" ? 8192 : 512, 1);
}
