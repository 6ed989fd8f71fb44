// Factorisations in single precision
#include "single.hpp"
using namespace mon; using namespace openml; using namespace single; using std::string;
SCENARIO(factor, 400, 6000) {
    Rng& r = c.rng; int d = r.coin(0.15) ? r.irange(16, 22) : r.irange(1, 7), n = r.irange(d, d + 6), k = c.index % 7; std::vector<double> s; double v = std::pow(10, r.uni(-1, 1)); for (int i = 0; i < d; ++i) { s.push_back(v); v *= d > 10 ? 0.93 : r.uni(0.6, 0.85); } Mat X = gen::with_singular(r, k >= 3 ? d : n, d, s); Ins in{round(X)}; c.mix(k); c.mixm(X); 
    if (k >= 5) { Mat u = gen::orth(r, d, d); X.setZero(d, d); for (int l = 0; l < d; ++l) for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) X(i, j) += u(i, l) * s[l] * u(j, l); in = {round(X)}; } c.dump << k << " X=" << show(in[0]);
    switch (k) {
    case 0: FN("exact_svd", 0, 512, 0, auto t = math::exact_svd<M<F>, V<F>>(A, false); M<F> U = std::get<0>(t); V<F> s = std::get<1>(t); M<F> W = std::get<2>(t); return Outs{real("singular values", s), real("product", M<F>(U * s.asDiagonal() * W.transpose())), real("UtU", M<F>(U.transpose() * U)), real("VtV", M<F>(W.transpose() * W))};); break;
    case 1: FN("qr", 0, 512, 0, auto t = math::qr<M<F>>(A); M<F> Q = std::get<0>(t); M<F> R = std::get<1>(t); return Outs{real("product", M<F>(Q * R)), real("R", M<F>(R.cwiseAbs()))};); break;
    case 2: FN("pinv", 0, 512, 0, return Outs{real("pinv", math::pinv<M<F>, V<F>>(A))};); break;
    case 3: FN("lu", 0, 512, 0, auto t = math::lu<M<F>>(A); return Outs{real("P", std::get<0>(t)), real("L", std::get<1>(t)), real("U", std::get<2>(t))};); break;
    case 4: FN("logdet", 0, 512, 0, return Outs{real("logdet", (double)math::logdet<M<F>>(A))};); break;
    case 5: FN("cholesky", 1, 512, 0, return Outs{real("lower", math::cholesky<M<F>>(A, true)), real("upper", math::cholesky<M<F>>(A, false))};); break;
    default: FN("eig", 1, 512, 0, auto t = math::eig<M<F>>(A); M<F> w = std::get<0>(t); M<F> v = std::get<1>(t); M<F> res = A * v; for (long j = 0; j < v.cols(); ++j) res.col(j) -= v.col(j) * w(j); std::vector<F> x(w.data(), w.data() + w.size()); std::sort(x.begin(), x.end()); for (size_t j = 0; j < x.size(); ++j) w(j) = x[j]; return Outs{real("values", w), real("one plus residual", M<F>(res.array() + (F)1))};);
    }
}
