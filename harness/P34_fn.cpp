// Functions in single precision
#include "single.hpp"
using namespace mon; using namespace openml; using namespace single; using std::string;
SCENARIO(stats, 900, 12000) {
    Rng& r = c.rng; int n = r.irange(1, 25), d = r.irange(1, 8), ax = r.irange(-1, 1), a01 = r.irange(0, 1), k = c.index % 13; Mat X = features(r, n, d); if (r.coin(0.3)) X *= std::pow(2, r.irange(-30, 30)); Ins in{X}; c.mix(k); c.mixm(X); c.dump << k << " axis " << ax << " X=" << show(X);
    switch (k) {
    case 0: FN("sum", 0, 64, 0, return Outs{real("sum", math::sum<M<F>>(A, ax))};); break;
    case 1: FN("mean", 0, 64, 0, return Outs{real("mean", math::mean<M<F>>(A, ax))};); break;
    case 2: FN("var", 0, 64, 0, return Outs{real("var", math::var<M<F>>(A, ax))};); break;
    case 3: FN("median", 0, 64, 0, return Outs{real("median", math::median<M<F>, V<F>>(A, ax))};); break;
    case 4: if (n > 1) FN("cov", 0, 64, 0, return Outs{real("cov", math::cov<M<F>>(A))};); break;
    case 5: FN("center", 0, 64, 0, return Outs{real("center", math::center<M<F>>(A))};); break;
    case 6: FN("norm2", 0, 64, 0, return Outs{real("norm2", math::norm2<M<F>, V<F>>(A, ax))};); break;
    case 7: FN("row_norms", 0, 64, 0, return Outs{real("row_norms", math::row_norms<M<F>, V<F>>(A, false)), real("squared", math::row_norms<M<F>, V<F>>(A, true))};); break;
    case 8: FN("cumsum", 0, 64, 0, return Outs{real("cumsum", math::cumsum<M<F>, V<F>>(A, ax))};); break;
    case 9: FN("argsort", 0, 64, 0, using I = IMat; return Outs{labels("argsort", common::argsort<M<F>, I, IVec>(A, a01, false)), real("sort", common::sort<M<F>>(A, a01, true))};); break;
    case 10: FN("argmax", 0, 64, 0, return Outs{labels("argmax", common::argmax<M<F>, V<F>, IVec>(A, ax)), labels("argmin", common::argmin<M<F>, V<F>, IVec>(A, ax))};); break;
    case 11: FN("elementwise", 0, 64, 0, return Outs{real("abs", math::abs<M<F>>(A)), real("square", math::power<M<F>>(A, 2)), real("sign", math::sign<M<F>>(A))};); break;
    default: FN("metrics", 0, 64, 0, V<F> a = A.col(0), b = A.col(A.cols() - 1); std::vector<F> p(a.data(), a.data() + a.size()), q(b.data(), b.data() + b.size()); return Outs{real("mae", metric::mean_absolute_error<V<F>>(a, b)), real("euclidean", metric::euclidean_distance(p, q)), real("manhattan", metric::manhattan_distance(p, q))};); break;
    }
}
SCENARIO(stable, 500, 8000) {
    Rng& r = c.rng; int n = r.irange(1, 15), d = r.irange(1, 8), a01 = r.irange(0, 1), k = c.index % 5; Mat X = features(r, n, d); if (r.coin()) X *= r.pick(std::vector<double>{10, 30, 100, 1000, 1e4}); X = round(X); Ins in{X}; c.mix(k); c.mixm(X); c.dump << k << " axis " << a01 << " X=" << show(X);
    switch (k) {
    case 0: FN("sigmoid", 0, 64, 0, return Outs{real("sigmoid", math::sigmoid<M<F>>(A))};); break;
    case 1: FN("softmax", 0, 64, 0, return Outs{real("softmax", math::softmax<M<F>>(A, a01))};); break;
    case 2: FN("logsumexp", 0, 64, 0, return Outs{real("logsumexp", math::logsumexp<M<F>, V<F>>(A, a01))};); break;
    case 3: { Mat p(3, 1); p << r.gauss(), r.gauss(), std::exp(r.gauss()); p = round(p); in = {p}; FN("gaussian_fn", 0, 64, 0, return Outs{real("density", math::gaussian_fn<F>(A(0), A(1), A(2)))};); break; }
    default: { Mat y(n, 1), w(n, 1); for (int i = 0; i < n; ++i) { y(i) = r.irange(0, 3); w(i) = r.uni(0.1, 1); } in = {y, round(w)}; FN("impurity", 1, 64, 0, V<F> y1 = A.col(0), w1 = in[1].col(0).cast<F>(); return Outs{real("entropy", math::entropy<V<F>>(y1)), real("gini", math::gini<V<F>>(y1)), real("weighted entropy", math::entropy<V<F>>(y1, w1)), real("weighted gini", math::gini<V<F>>(y1, w1))};); }
    }
}
