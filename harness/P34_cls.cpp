// Softmax regression and perceptron in single precision
// a tolerance no loss can beat: every fit runs a fixed number of epochs
#include "single_lin.hpp"
#include <src/methods/linear_model/softmax_regression.hpp>
#include <src/methods/linear_model/perceptron.hpp>
SCENARIO(classifiers, 300, 4500) {
    Rng& r = c.rng; bool soft = r.coin(); D q = draw(c, soft ? r.irange(2, 4) : 2); int bt = r.irange(1, 8), it = r.irange(2, 25); bool sh = r.coin(), b = r.coin(); c.dump << (soft ? "softmax" : "perceptron") << " batch " << bt << " iterations " << it;
    if (soft) compare(c, "SoftmaxRegression", [&](auto f, const Ins& in) { using F = decltype(f); linear_model::SoftmaxRegression<F> m(0.05, 0.0, 1e6, bt, 1000, it, "sgd", "None", sh, false); m.fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); M<F> T = in[2].cast<F>(); return Outs{real("coef", m.get_coef()), real("predict_prob", m.predict_prob(T)), labels("predict", m.predict(T))}; }, {q.X, q.y, q.T}, 2, 512, 1);
    else compare(c, "Perceptron", [&](auto f, const Ins& in) { using F = decltype(f); linear_model::Perceptron<F> m(0.1, 0, 1e6, bt, 1000, it, "None", b, sh, false); m.fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); M<F> T = in[2].cast<F>(); return Outs{real("coef", m.get_coef()), labels("predict", m.predict(T))}; }, {q.X, q.y, q.T}, 2, 512, 1);
}
