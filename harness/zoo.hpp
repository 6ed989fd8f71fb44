// Every estimator behind one interface: P29 (histories of fits), P30 (row-wise
// queries), P31 (threads) and P01 (memory) drive the whole zoo.
#ifndef VERIF_ZOO_HPP
#define VERIF_ZOO_HPP
#include "eig.hpp"
#include "gen.hpp"
#include <src/methods/linear_model/linear_regression.hpp>
#include <src/methods/linear_model/ridge_regression.hpp>
#include <src/methods/linear_model/lasso_regression.hpp>
#include <src/methods/linear_model/logistic_regression.hpp>
#include <src/methods/linear_model/softmax_regression.hpp>
#include <src/methods/linear_model/perceptron.hpp>
#include <src/methods/naive_bayes/gaussian_naive_bayes.hpp>
#include <src/methods/naive_bayes/multinomial_naive_bayes.hpp>
#include <src/methods/decomposition/pca.hpp>
#include <src/methods/decomposition/truncated_svd.hpp>
#include <src/methods/cluster/kmeans.hpp>
#include <src/methods/mixture/gaussian_mixture.hpp>
#include <src/methods/neighbors/k_nearest_neighbors.hpp>
#include <src/methods/tree/decision_tree_classifier.hpp>
#include <src/methods/tree/decision_tree_regressor.hpp>
#include <memory>
#include <new>
#include <cstdlib>

namespace zoo {
using namespace openml;
using mon::Rng;
inline bool verbose = false;     // what estimators made from now on are told
struct Out { std::string name; Mat m; };
using Outs = std::vector<Out>;
enum Data { REG, BIN, MULTI0, ANYCLS, COUNTS, PLAIN, NDATA };     // kind of training data an estimator takes

struct Model {
    virtual ~Model() {}
    virtual void fit(const Mat& X, const Vec& y) = 0;
    virtual Outs state(bool order = false) = 0;      // what the getters say (in either order)
    virtual Outs query(const Mat& T) = 0;            // one row per query row
    virtual void renew() = 0;                        // destroy the estimator and construct a new one in the same place
    virtual std::unique_ptr<Model> copy(int how) = 0;   // 0: copy construct, 1: assign to a fresh object; null if not copyable
};
// live in memory that was filled with a pattern first
template <class M> struct Cell {
    void* raw; M* m;
    template <class F> Cell(int fill, F&& ctor) { raw = std::aligned_alloc(64, (sizeof(M) + 63) / 64 * 64); if (fill >= 0) std::memset(raw, fill, sizeof(M)); m = ctor(raw); }
    ~Cell() { m->~M(); std::free(raw); }
    Cell(const Cell&) = delete;
};
template <class M, class Fit, class State, class Query> struct Box : Model {
    Cell<M> cell; std::function<M*(void*)> ctor; Fit f; State s; Query q; int fill;
    Box(int fill_, std::function<M*(void*)> c, Fit f_, State s_, Query q_) : cell(fill_, c), ctor(c), f(f_), s(s_), q(q_), fill(fill_) {}
    void fit(const Mat& X, const Vec& y) override { f(*cell.m, X, y); }
    Outs state(bool o) override { return s(*cell.m, o); }
    Outs query(const Mat& T) override { return q(*cell.m, T); }
    void renew() override { cell.m->~M(); if (fill >= 0) std::memset(cell.raw, fill, sizeof(M)); cell.m = ctor(cell.raw); }
    std::unique_ptr<Model> copy(int how) override {
        if constexpr (std::is_copy_constructible<M>::value && std::is_copy_assignable<M>::value) {
            if (how == 0) { M* src = cell.m; auto b = std::make_unique<Box>(fill, [src](void* p) { return new (p) M(*src); }, f, s, q); b->ctor = ctor; return b; }
            auto b = std::make_unique<Box>(fill, ctor, f, s, q); *b->cell.m = *cell.m; return b;
        } else return nullptr;
    }
};
struct Spec { std::string name; Data data; bool random; std::function<std::unique_ptr<Model>(int)> make; int need = 2, maxd = 6; bool labels = false; };
template <class M, class Fit, class State, class Query> Spec spec(std::string name, Data d, bool random, std::function<M*(void*)> c, Fit f, State s, Query q) {
    return Spec{name, d, random, [=](int fill) { return std::unique_ptr<Model>(new Box<M, Fit, State, Query>(fill, c, f, s, q)); }};
}
inline Mat col(const std::vector<Mat>& v) { long n = 0, w = 0; for (auto& m : v) { n += m.rows(); w = std::max<long>(w, m.cols()); } Mat o = Mat::Zero(n, w); long r = 0; for (auto& m : v) { o.block(r, 0, m.rows(), m.cols()) = m; r += m.rows(); } return o; }
inline Mat one(double v) { return Mat::Constant(1, 1, v); }
enum Id { LINREG, RIDGE, LASSO, LOGIT_SGD, LOGIT_LBFGS, LOGIT_SCD, SOFTMAX, PERCEPTRON, GNB, MNB, PCA_, TSVD, KMEANS, GMM, KNN_TREE, KNN_BRUTE, DTC, DTR, NID };
inline Spec make_spec(Rng& r, int id) {
    auto linstate = [](auto& m, bool) { return Outs{{"coef", Mat(m.get_coef())}}; };
    auto pred = [](auto& m, const Mat& T) { return Outs{{"predict", Mat(m.predict(T))}}; };
    auto predprob = [](auto& m, const Mat& T) { return Outs{{"predict", Mat(m.predict(T))}, {"predict_prob", Mat(m.predict_prob(T))}}; };
    auto fxy = [](auto& m, const Mat& X, const Vec& y) { m.fit(X, y); };
    auto fx = [](auto& m, const Mat& X, const Vec&) { m.fit(X); };
    auto none = [](auto&, bool) { return Outs{}; };
    using std::string;
    bool b = r.coin(0.7), sh = r.coin();
    switch (id) {
    case LINREG: { using M = linear_model::LinearRegression<double>; bool def = r.coin(); auto s = spec<M>("LinearRegression", REG, false, [=](void* p) { return def ? new (p) M() : new (p) M(b); }, fxy, linstate, pred); s.need = 12; return s; }
    case RIDGE: { using M = linear_model::RidgeRegression<double>; double l = std::pow(10, r.uni(-2, 2)); bool def = r.coin(0.3); return spec<M>("RidgeRegression", REG, false, [=](void* p) { return def ? new (p) M() : new (p) M(l, b); }, fxy, linstate, pred); }
    case LASSO: { using M = linear_model::LassoRegression<double>; double l = std::pow(10, r.uni(-3, 0)); int it = r.irange(1, 60); return spec<M>("LassoRegression", REG, true, [=](void* p) { return new (p) M(it, l, 30.0, sh, verbose, b); }, fxy, linstate, pred); }
    case LOGIT_SGD: { using M = linear_model::LogisticRegression<double>; string sv = r.coin() ? "sgd" : "sag"; int bt = r.irange(1, 4); double lam = r.coin() ? 0 : 0.01; string pen = r.coin() ? "l2" : "None"; bool def = r.coin(0.1);
        auto s = spec<M>("LogisticRegression/" + sv, BIN, true, [=](void* p) { return def ? new (p) M() : new (p) M(0.1, lam, 1e-3, bt, 300, 3, sv, pen, sh, verbose); }, fxy, linstate, predprob); s.need = 16; return s; }
    case LOGIT_LBFGS: { using M = linear_model::LogisticRegression<double>; string pol = r.coin() ? "backtracking" : "bracketing", cond = r.pick(std::vector<string>{"armijo", "wolfe", "strongwolfe"}); int past = r.coin() ? 0 : r.irange(1, 3), it = r.irange(1, 60), mem = r.irange(2, 8); string pen = r.coin() ? "l2" : "None";
        return spec<M>("LogisticRegression/lbfgs", BIN, true, [=](void* p) { return new (p) M(1e-3, 1e-4, past ? 1e-6 : 0.0, 0.9, it, mem, past, 40, "lbfgs", pen, pol, cond, true, verbose); }, fxy, linstate, predprob); }
    case LOGIT_SCD: { using M = linear_model::LogisticRegression<double>; int it = r.irange(1, 80); double lam = std::pow(10, r.uni(-3, -0.5)); return spec<M>("LogisticRegression/scd", BIN, true, [=](void* p) { return new (p) M(lam, 30.0, it, "scd", "l1", sh, verbose); }, fxy, linstate, predprob); }
    case SOFTMAX: { using M = linear_model::SoftmaxRegression<double>; int bt = r.irange(1, 4); double lam = r.coin() ? 0 : 0.01; return spec<M>("SoftmaxRegression", MULTI0, true, [=](void* p) { return new (p) M(0.05, lam, 1e-2, bt, 300, 3, "sgd", "None", sh, verbose); }, fxy, linstate, predprob); }
    case PERCEPTRON: { using M = linear_model::Perceptron<double>; int bt = r.irange(1, 4); return spec<M>("Perceptron", BIN, true, [=](void* p) { return new (p) M(0.1, 0, 1e-3, bt, 300, 3, "None", b, sh, verbose); }, fxy, linstate, pred); }
    case GNB: { using M = naive_bayes::GaussianNB<double>; double v = std::pow(10, r.uni(-9, -1)); bool def = r.coin();
        return spec<M>("GaussianNB", ANYCLS, false, [=](void* p) { return def ? new (p) M() : new (p) M(v); }, fxy, [](M& m, bool) { return Outs{{"mean", m.get_mean()}, {"var", m.get_var()}, {"prior", Mat(m.get_prior_prob())}, {"classes", Mat(m.get_classes())}}; },
            [](M& m, const Mat& T) { return Outs{{"predict", Mat(m.predict(T))}, {"predict_prob", Mat(m.predict_prob(T))}, {"predict_log_prob", Mat(m.predict_log_prob(T))}}; }); }
    case MNB: { using M = naive_bayes::MultinomialNB<double>; double v = std::pow(10, r.uni(-2, 1)); bool def = r.coin();
        return spec<M>("MultinomialNB", COUNTS, false, [=](void* p) { return def ? new (p) M() : new (p) M(v); }, fxy, [](M& m, bool) { return Outs{{"count", m.get_features_count()}, {"prior", Mat(m.get_prior_prob())}, {"classes", Mat(m.get_classes())}}; },
            [](M& m, const Mat& T) { return Outs{{"predict", Mat(m.predict(T))}, {"predict_prob", Mat(m.predict_prob(T))}, {"predict_log_prob", Mat(m.predict_log_prob(T))}}; }); }
    case PCA_: { using M = decomposition::PCA<double>; int k = r.irange(1, 2); bool def = r.coin(0.3);
        auto st = [](M& m, bool o) { Outs v; auto cp = [&] { v.push_back({"covariance", m.get_covariance()}); v.push_back({"precision", m.get_precision()}); }; if (o) cp(); v.push_back({"components", m.get_components()}); v.push_back({"explained_var", Mat(m.get_explained_var())}); v.push_back({"ratio", Mat(m.get_explained_var_ratio())}); v.push_back({"singular", Mat(m.get_singular_values())}); if (!o) cp(); std::sort(v.begin(), v.end(), [](const Out& a, const Out& b) { return a.name < b.name; }); return v; };
        auto s = spec<M>("PCA", PLAIN, false, [=](void* p) { return def ? new (p) M() : new (p) M("svd", k); }, fx, st, [](M& m, const Mat& T) { return Outs{{"transform", m.transform(T)}}; }); s.need = 8; return s; }
    case TSVD: { using M = decomposition::TruncatedSVD<double>; int k = r.irange(1, 2), ov = r.irange(1, 4), it = r.irange(2, 5); string nz = r.coin() ? "LU" : "QR";
        auto s = spec<M>("TruncatedSVD", PLAIN, true, [=](void* p) { return new (p) M(k, ov, it, "randomized", nz); }, fx, [](M& m, bool) { return Outs{{"components", m.get_components()}, {"explained_var", Mat(m.get_explained_var())}, {"ratio", Mat(m.get_explained_var_ratio())}, {"singular", Mat(m.get_singular_values())}}; }, [](M& m, const Mat& T) { return Outs{{"transform", m.transform(T)}}; }); s.need = 8; return s; }
    case KMEANS: { using M = cluster::KMeans<double>; string in = r.coin() ? "kmeans++" : "random"; int k = r.irange(1, 4), it = r.irange(1, 40); auto s = spec<M>("KMeans/" + in, PLAIN, true, [=](void* p) { return new (p) M(in, 1, k, it, 1e-4); }, fx, none, pred); s.need = 6; s.labels = true; return s; }
    case GMM: { using M = mixture_model::GaussianMixture<double>; string cv = r.coin() ? "full" : "tied"; int k = r.irange(1, 3), it = r.irange(3, 60), ni = r.irange(1, 3);
        auto s = spec<M>("GaussianMixture/" + cv, PLAIN, true, [=](void* p) { return new (p) M(it, ni, k, "random", cv, 1e-3, 1e-6); }, fx, [](M& m, bool) { return Outs{{"means", m.get_means()}, {"weights", Mat(m.get_weights())}, {"covariance", col(m.get_covariance())}, {"precisions", col(m.get_precisions())}, {"cholesky", col(m.get_precisions_cholesky())}, {"lower_bound", one(m.get_lower_bound())}}; }, predprob); s.need = 10; s.maxd = 3; s.labels = true; return s; }
    case KNN_TREE: case KNN_BRUTE: { using M = neighbors::KNearestNeighbors<double>; bool tr = id == KNN_TREE; string sv = tr ? "kdtree" : "brute", me = r.pick(std::vector<string>{"euclidean", "manhattan"}); int lf = r.irange(1, 8), k = r.irange(1, 5); auto s = spec<M>("KNearestNeighbors/" + sv, ANYCLS, false, [=](void* p) { return new (p) M(lf, k, sv, me); }, fxy, none, pred); s.need = 6; return s; }
    case DTC: { using M = decision_tree::DecisionTreeClassifier<double>; string cr = r.coin() ? "gini" : "entropy"; int ms = r.irange(0, 4), ml = r.irange(0, 2), md = r.irange(0, 6); bool def = r.coin(0.3); return spec<M>("DecisionTreeClassifier", ANYCLS, false, [=](void* p) { return def ? new (p) M() : new (p) M(cr, ms, ml, md, 1e-7); }, fxy, none, predprob); }
    default: { using M = decision_tree::DecisionTreeRegressor<double>; string cr = r.coin() ? "squared_error" : "absolute_error"; int ms = r.irange(0, 4), ml = r.irange(0, 2), md = r.irange(0, 6); bool def = r.coin(0.3); return spec<M>("DecisionTreeRegressor", REG, false, [=](void* p) { return def ? new (p) M() : new (p) M(cr, ms, ml, md, 1e-7, 1e-3); }, fxy, none, pred); }
    }
}
struct Set { Mat X; Vec y; int d; };
inline Set data(Rng& r, const Spec& s, int d = 0) {
    Set q; q.d = d ? d : r.irange(2, s.maxd); int n = r.irange(s.need, s.need + 25);
    if (s.data == COUNTS) { q.X.resize(n, q.d); for (int i = 0; i < n; ++i) for (int j = 0; j < q.d; ++j) q.X(i, j) = r.coin(0.3) ? 0 : r.irange(0, 9); }
    else { q.X = gen::mat(r, n, q.d, 0); if (s.data != REG && r.coin(0.3)) for (int i = 0; i < n; ++i) for (int j = 0; j < q.d; ++j) q.X(i, j) = std::round(q.X(i, j) * 2) / 2 + 1e-3 * r.gauss(); if (r.coin(0.3)) q.X.array() += r.gauss() * 3; }
    q.y.resize(n); std::vector<double> any = r.pick(std::vector<std::vector<double>>{{0, 1}, {2, 0, 1}, {-1, 1}, {7, 3, 5, 1}, {2.5, -0.5}}); int K = r.irange(2, 4);
    for (int i = 0; i < n; ++i) { double z = 0; for (int j = 0; j < q.d; ++j) z += q.X(i, j) * (j % 2 ? -1 : 1.5); switch (s.data) { case REG: q.y(i) = z + 0.1 * r.gauss(); break; case BIN: q.y(i) = z + 0.2 * r.gauss() > 0; break; case MULTI0: q.y(i) = i < K ? i : std::min(K - 1, std::max(0, (int)std::floor(z / 2 + K / 2.0))); break; default: q.y(i) = any[r.coin(0.2) ? r.irange(0, any.size() - 1) : (std::abs((int)std::floor(z)) % any.size())]; } }
    return q;
}
inline std::string diff(const Outs& a, const Outs& b, double rtol) {       // "" when the same
    if (a.size() != b.size()) return "different number of outputs";
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].m.rows() != b[i].m.rows() || a[i].m.cols() != b[i].m.cols()) return mon::S(a[i].name, ": shape ", a[i].m.rows(), "x", a[i].m.cols(), " / ", b[i].m.rows(), "x", b[i].m.cols());
        double sc = 1; for (long k = 0; k < a[i].m.size(); ++k) if (std::isfinite(a[i].m.data()[k])) sc = std::max(sc, std::fabs(a[i].m.data()[k]));
        for (long x = 0; x < a[i].m.rows(); ++x) for (long y = 0; y < a[i].m.cols(); ++y) { double u = a[i].m(x, y), v = b[i].m(x, y); if (u == v || (std::isnan(u) && std::isnan(v))) continue; if (!(std::fabs(u - v) <= rtol * sc)) return mon::S(a[i].name, "(", x, ",", y, "): ", u, " / ", v); }
    }
    return "";
}
} // namespace zoo
#endif
