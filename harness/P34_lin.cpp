// Linear models in single precision
#include "single_lin.hpp"
#include <src/methods/linear_model/linear_regression.hpp>
#include <src/methods/linear_model/ridge_regression.hpp>
#include <src/methods/linear_model/lasso_regression.hpp>
SCENARIO(linear, 600, 9000) {
    Rng& r = c.rng; D q = draw(c, 0); bool b = r.coin(); double l = std::pow(10, r.uni(-2, 2)); int which = r.irange(0, 2); c.dump << which << " " << l << " " << b; int it = r.irange(1, 40); bool sh = r.coin();
    if (which == 0) compare(c, "LinearRegression", [&](auto f, const Ins& in) { using F = decltype(f); linear_model::LinearRegression<F> m(b); m.fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); return Outs{real("coef", m.get_coef()), real("predict", m.predict(M<F>(in[2].cast<F>())))}; }, {q.X, q.y, q.T}, 0, 1024);
    else if (which == 1) compare(c, "RidgeRegression", [&](auto f, const Ins& in) { using F = decltype(f); linear_model::RidgeRegression<F> m(l, b); m.fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); return Outs{real("coef", m.get_coef()), real("predict", m.predict(M<F>(in[2].cast<F>())))}; }, {q.X, q.y, q.T}, 0, 1024);
    else compare(c, "LassoRegression", [&](auto f, const Ins& in) { using F = decltype(f); linear_model::LassoRegression<F> m(it, l * 0.01, 30.0, sh, false, b); m.fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); return Outs{real("coef", m.get_coef()), real("predict", m.predict(M<F>(in[2].cast<F>())))}; }, {q.X, q.y, q.T}, 0, 512, 0, 1e5);
}
