// Trees in single precision
#include "single_fit.hpp"
#include <src/methods/tree/decision_tree_classifier.hpp>
#include <src/methods/tree/decision_tree_regressor.hpp>
SCENARIO(tree, 400, 6000) {
    Rng& r = c.rng; int K = r.irange(2, 4), d = r.irange(1, 4), n = r.irange(6, 40); Mat y, X = blobs(r, n, d, K, 2, y), T = features(r, 6, d) * 2; bool cls = r.coin(), alt = r.coin(); int ms = r.irange(0, 4), ml = r.irange(0, 2), md = r.irange(0, 6); if (cls) relabel(r, y); else for (int i = 0; i < n; ++i) y(i) += 0.3 * r.gauss(); y = round(y); c.mixm(X); c.mixm(y); c.dump << (cls ? "classifier " : "regressor ") << alt << " " << ms << " " << ml << " " << md << " X=" << show(X) << " y=" << show(y) << " T=" << show(T);
    if (cls) compare(c, "DecisionTreeClassifier", [&](auto f, const Ins& in) { using F = decltype(f); decision_tree::DecisionTreeClassifier<F> m(alt ? "gini" : "entropy", ms, ml, md, 1e-7); m.fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); M<F> A = in[0].cast<F>(), B = in[2].cast<F>(); return Outs{labels("predict", m.predict(A)), labels("predict new", m.predict(B)), real("predict_prob", m.predict_prob(A))}; }, {X, y, T}, 2);
    else if (alt) compare(c, "DecisionTreeRegressor", [&](auto f, const Ins& in) { using F = decltype(f); decision_tree::DecisionTreeRegressor<F> m("squared_error", ms, ml, md, 1e-5, 1e-3); m.fit(M<F>(in[0].cast<F>()), V<F>(in[1].col(0).cast<F>())); Outs o{real("predict", m.predict(M<F>(in[0].cast<F>())))}; if (d == 1) o.push_back(real("predict new", m.predict(M<F>(in[2].cast<F>())))); return o; }, {X, y, T});
    else {   // splits of equal absolute error are common, and rounding picks one
        decision_tree::DecisionTreeRegressor<float> m("absolute_error", ms, ml, md, 1e-5, 1e-3); M<float> A = X.cast<float>(), B = T.cast<float>(); m.fit(A, V<float>(y.col(0).cast<float>())); V<float> p = m.predict(A), q = m.predict(B); c.ev("DecisionTreeRegressor/absolute_error"); c.nontrivial = true; if (!c.req(p.size() == n && q.size() == B.rows(), "DecisionTreeRegressor/shape", "")) return;
        double e = 1e-5 * (y.cwiseAbs().maxCoeff() + 1), lo = y.minCoeff(), hi = y.maxCoeff(); c.req(std::fabs(p.cast<double>().sum() - y.sum()) < n * e, "DecisionTreeRegressor/sum", S((double)p.sum(), " / ", y.sum())); for (int i = 0; i < n; ++i) c.req(p(i) >= lo - e && p(i) <= hi + e, "DecisionTreeRegressor/range", S(p(i))); for (long i = 0; i < q.size(); ++i) c.req(q(i) >= lo - e && q(i) <= hi + e, "DecisionTreeRegressor/range", S(q(i)));
    }
}
