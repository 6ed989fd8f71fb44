// Hostile histories over the whole API without value oracles (the sanitizers, and valgrind in the other part, judge)
#include "zoo.hpp"
#include <src/methods/rule_model/apriori.hpp>
#include <src/core/tree/hash_tree.hpp>
#include <src/core/preprocessing/transaction_encoder.hpp>
#include <src/core/loss/huber_loss.hpp>
#include <src/core/loss/softmax_loss.hpp>
using namespace mon;
// a decision on every element, so that an undefined one is used
static volatile long g_sink;
template <class M> static void use(const M& m) { long k = 0; for (long j = 0; j < (long)m.cols(); ++j) for (long i = 0; i < (long)m.rows(); ++i) { if (m(i, j) > 0) ++k; else --k; } g_sink = g_sink + k; }
static void use(double v) { g_sink = g_sink + (v > 0 ? 1 : 2); }
template <class V> static void usev(const std::vector<V>& v) { for (auto& x : v) use((double)x); }
static void use(const zoo::Outs& o) { for (auto& x : o) use(x.m); }
static Mat hostile(Rng& r, int n, int d) {
    Mat X = gen::data(r, n, d); switch (r.irange(0, 9)) { case 0: X.setConstant(r.pick(std::vector<double>{0, 1, -2.5})); break; case 1: X *= r.pick(std::vector<double>{1e60, 1e-60, 1e140, 1e-140}); break; case 2: for (int i = 1; i < n; ++i) X.row(i) = X.row(0); break; case 3: for (int i = 0; i < n; ++i) X(i, r.irange(0, d - 1)) *= std::pow(10, r.irange(-30, 30)); break; default: break; }
    return X;
}
static zoo::Set hset(Rng& r, const zoo::Spec& s, int n, int d) {
    zoo::Set q; q.d = d; if (s.data == zoo::COUNTS) { q.X.resize(n, d); bool z = r.coin(0.2); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) q.X(i, j) = z ? 0 : r.irange(0, 20); } else q.X = hostile(r, n, d);
    q.y.resize(n); bool onecls = r.coin(0.15); int K = r.irange(1, std::min(n, 5)); std::vector<double> any = {0, 1, -1, 7.5, 1e9}; double sc = r.coin(0.1) ? 1e100 : 1;
    for (int i = 0; i < n; ++i) switch (s.data) { case zoo::REG: q.y(i) = (onecls ? 1 : r.coin(0.2) ? r.irange(-2, 2) : r.gauss()) * sc; break; case zoo::BIN: q.y(i) = onecls ? 0 : r.irange(0, 1); break; case zoo::MULTI0: q.y(i) = i < K ? i : r.irange(0, K - 1); break; default: q.y(i) = onecls ? any[3] : any[r.irange(0, K - 1)]; }
    return q;
}
// one object: fits (some may throw), queries, getters, copies, destruction
static void life(Rng& r, const zoo::Spec& sp, const std::vector<zoo::Set>& sets, const std::vector<Mat>& qs, long* calls) {
    auto m = sp.make(r.coin() ? 0xA5 : -1); bool fitted = false;
    for (size_t k = 0; k < sets.size(); ++k) {
        try { m->fit(sets[k].X, sets[k].y); fitted = true; } catch (const EigenAssert&) { throw; } catch (const std::exception&) { fitted = false; } ++*calls;
        if (!fitted) continue;
        try { use(m->state(r.coin())); use(m->query(qs[k])); use(m->query(sets[k].X)); *calls += 3; if (r.coin(0.3)) { if (auto c = m->copy(r.irange(0, 1))) { use(c->query(qs[k])); ++*calls; if (r.coin()) { m.swap(c); } } } } catch (const EigenAssert&) { throw; } catch (const std::exception&) {}
    }
}
static void core_calls(Rng& r, long* calls) {
    using namespace openml; int n = r.irange(1, 12), d = r.irange(1, 6); Mat X = hostile(r, n, d); Vec y(n); for (int i = 0; i < n; ++i) y(i) = r.irange(0, 3); auto ok = [&](auto f) { ++*calls; try { f(); } catch (const EigenAssert&) { throw; } catch (const std::exception&) {} };
    for (int ax : {-1, 0, 1}) { ok([&] { use(math::sum<Mat>(X, ax)); }); ok([&] { use(math::mean<Mat>(X, ax)); }); ok([&] { use(math::var<Mat>(X, ax)); }); ok([&] { use(math::median<Mat, Vec>(X, ax)); }); ok([&] { use(math::norm2<Mat, Vec>(X, ax)); }); ok([&] { use(math::cumsum<Mat, Vec>(X, ax)); }); ok([&] { use(math::logsumexp<Mat, Vec>(X, ax)); }); ok([&] { use(math::softmax<Mat>(X, ax)); }); ok([&] { auto t = math::mode<Mat>(X, ax < 0 ? 0 : ax); use(std::get<0>(t)); use(std::get<1>(t)); }); }
    for (int ax : {0, 1}) { ok([&] { use(common::sort<Mat>(X, ax, r.coin())); }); ok([&] { use(common::argsort<Mat, IMat, IVec>(X, ax, r.coin())); }); ok([&] { use(common::argmax<Mat, Vec, IVec>(X, ax)); }); ok([&] { use(common::argmin<Mat, Vec, IVec>(X, ax)); }); ok([&] { Mat s; random::shuffle_data<Mat>(X, s, ax); use(s); }); }
    ok([&] { use(math::cov<Mat>(X)); }); ok([&] { use(math::center<Mat>(X)); }); ok([&] { use(math::sigmoid<Mat>(X)); }); ok([&] { use(math::pinv<Mat, Vec>(X)); }); ok([&] { auto t = math::lu<Mat>(Mat(X * X.transpose())); use(std::get<0>(t)); use(std::get<1>(t)); use(std::get<2>(t)); }); ok([&] { auto t = math::qr<Mat>(X); use(std::get<0>(t)); use(std::get<1>(t)); });
    ok([&] { auto t = math::exact_svd<Mat, Vec>(X, r.coin()); use(std::get<0>(t)); use(std::get<1>(t)); use(std::get<2>(t)); }); ok([&] { use(math::entropy<Vec>(y)); use(math::gini<Vec>(y)); }); ok([&] { auto t = common::unique<Vec>(y); use(std::get<0>(t)); use(std::get<1>(t)); }); ok([&] { use(math::cholesky<Mat>(Mat(X.transpose() * X + Mat::Identity(d, d)))); });
    ok([&] { Mat a, b; Vec u, v; std::tie(a, b, u, v) = data::train_test_split<Mat, Vec>(X, y, r.u(), r.coin()); use(a); use(b); use(u); use(v); }); ok([&] { use(random::rand<Mat>(n, d)); use(random::randn<Mat>(n, d)); use(random::randint<std::size_t>(n, d, 0, 5)); use(random::permutation<IVec>(n)); });
    {   // trees
        std::string me = r.pick(std::vector<std::string>{"euclidean", "manhattan", "chebyshev", "nonsense"}); ok([&] { tree::KDTree<double> t(X, r.irange(1, 6), me); auto p = t.query(X, r.irange(1, n)); use(p.first); use(p.second); auto q = t.query_radius(X, r.u() * 3); for (auto& a : q) for (auto& e : a) use(e.first); });
        using S = std::size_t; std::vector<std::vector<S>> tx(r.irange(1, 12)); for (auto& t : tx) for (int k = r.irange(1, 6); k > 0; --k) t.push_back(r.irange(1, 7)); ok([&] { rule_model::Apriori<S> a(r.uni(0.1, 0.9), r.u()); a.fit_transform(tx); for (auto& q : a.get_rules()) use((double)std::get<2>(q)); a.fit_transform(tx); });
    }
    {   // losses
        Vec w = gen::vec(r, d, 0), yb(n), ys(n); for (int i = 0; i < n; ++i) { yb(i) = r.irange(0, 1); ys(i) = yb(i) ? 1 : -1; } ok([&] { loss::MSE<double> l(0.1); use(l.evaluate(X, y, w)); use(l.gradient(X, y, w)); }); ok([&] { loss::LogLoss<double> l(0.1); use(l.evaluate(X, yb, w)); use(l.gradient(X, yb, w)); }); ok([&] { loss::HingeLoss<double> l; use(l.evaluate(X, ys, w)); use(l.gradient(X, ys, w)); }); ok([&] { loss::HuberLoss<double> l; use(l.evaluate(X, y, w)); use(l.gradient(X, y, w)); });
        ok([&] { loss::SoftmaxLoss<double> l; Mat W = gen::mat(r, d, 4, 0); use(l.evaluate(X, y, W)); use(l.gradient(X, y, W)); });
    }
}
