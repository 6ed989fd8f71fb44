// MODE: tsan
// Const queries of one object, and all calls on separate objects, from several threads
#include "zoo.hpp"
#include <src/core/loss/huber_loss.hpp>
#include <atomic>
#include <thread>
using namespace mon;
static const int NT = 6;
// start NT threads together; each returns "" or what differed
static void together(Ctx& c, const std::string& key, std::function<std::string(int, Rng&)> f) {
    std::vector<std::string> out(NT); std::atomic<int> ready{0}; std::vector<std::thread> t; std::vector<Rng> rs; for (int i = 0; i < NT; ++i) rs.emplace_back(c.rng.next());
    for (int i = 0; i < NT; ++i) t.emplace_back([&, i] { ready++; while (ready < NT) std::this_thread::yield(); try { out[i] = f(i, rs[i]); } catch (const std::exception& e) { out[i] = S("threw ", e.what()); } });
    for (auto& x : t) x.join(); c.ev("threads", NT); for (auto& o : out) if (!o.empty()) { c.fail(key, o); return; }
}
static void yields(Rng& r) { for (int k = r.irange(0, 3); k > 0; --k) std::this_thread::yield(); }
#define CONSTCALL(name, expr) template <class M> auto name(const M& m, const Mat& T, zoo::Outs& o, int) -> decltype((void)(expr)) { o.push_back({#expr, Mat(expr)}); } template <class M> void name(const M&, const Mat&, zoo::Outs&, long) {}
CONSTCALL(c_predict, m.predict(T)) CONSTCALL(c_prob, m.predict_prob(T)) CONSTCALL(c_logprob, m.predict_log_prob(T)) CONSTCALL(c_transform, m.transform(T)) CONSTCALL(c_coef, m.get_coef()) CONSTCALL(c_comp, m.get_components()) CONSTCALL(c_ev, m.get_explained_var()) CONSTCALL(c_ratio, m.get_explained_var_ratio()) CONSTCALL(c_sv, m.get_singular_values()) CONSTCALL(c_prior, m.get_prior_prob()) CONSTCALL(c_classes, m.get_classes()) CONSTCALL(c_mean, m.get_mean()) CONSTCALL(c_var, m.get_var()) CONSTCALL(c_means, m.get_means()) CONSTCALL(c_weights, m.get_weights()) CONSTCALL(c_cov, zoo::col(m.get_covariance())) CONSTCALL(c_score, zoo::one(m.score(T)))
template <class M> static zoo::Outs allconst(const M& m, const Mat& T) { zoo::Outs o; c_predict(m, T, o, 0); c_prob(m, T, o, 0); c_logprob(m, T, o, 0); c_transform(m, T, o, 0); c_coef(m, T, o, 0); c_comp(m, T, o, 0); c_ev(m, T, o, 0); c_ratio(m, T, o, 0); c_sv(m, T, o, 0); c_prior(m, T, o, 0); c_classes(m, T, o, 0); c_mean(m, T, o, 0); c_var(m, T, o, 0); c_means(m, T, o, 0); c_weights(m, T, o, 0); c_cov(m, T, o, 0); c_score(m, T, o, 0); return o; }
template <class M, class F> static void shared(Ctx& c, const std::string& name, zoo::Data k, int need, F&& fit, std::function<M*()> mk) {
    Rng& r = c.rng; zoo::Spec sp; sp.data = k; sp.need = need; sp.maxd = 4; auto B = zoo::data(r, sp); Mat T = zoo::data(r, sp, B.d).X; c.mixm(B.X); c.mix(c.index); c.nontrivial = true; c.dump << name << " X=" << show(B.X, 20); std::unique_ptr<M> m(mk()); try { fit(*m, B); } catch (const std::exception& e) { c.ev("fits that threw"); c.nontrivial = false; return; }
    const M& cm = *m; zoo::Outs want = allconst(cm, T); c.ev("const members of " + name, want.size());
    std::unique_ptr<M> m2(mk()); fit(*m2, B); const M& cold = *m2; zoo::Outs w2;        // a second model nobody has asked yet: lazily built state would race
    bool det = false; if (c.index % 2) { together(c, name + "/shared", [&](int, Rng& q) { for (int k = 0; k < 3; ++k) { yields(q); std::string d = zoo::diff(want, allconst(cm, T), 1e-9); if (!d.empty()) return d; } return std::string(); }); }
    else { std::vector<zoo::Outs> got(NT); together(c, name + "/shared", [&](int i, Rng& q) { yields(q); got[i] = allconst(cold, T); yields(q); return zoo::diff(got[i], allconst(cold, T), 1e-9); }); for (int i = 1; i < NT; ++i) { std::string d = zoo::diff(got[0], got[i], 1e-9); c.req(d.empty(), name + "/shared", d); } } (void)det; c.ev("shared objects");
}
SCENARIO(shared_model, 150, 2000) {
    using namespace openml; Rng& r = c.rng; auto xy = [](auto& m, zoo::Set& s) { m.fit(s.X, s.y); }; auto x = [](auto& m, zoo::Set& s) { m.fit(s.X); }; int k = r.irange(1, 2);
    switch (c.index % 15) {
    case 0: return shared<linear_model::LinearRegression<double>>(c, "LinearRegression", zoo::REG, 12, xy, [] { return new linear_model::LinearRegression<double>(); });
    case 1: return shared<linear_model::RidgeRegression<double>>(c, "RidgeRegression", zoo::REG, 5, xy, [] { return new linear_model::RidgeRegression<double>(); });
    case 2: return shared<linear_model::LassoRegression<double>>(c, "LassoRegression", zoo::REG, 5, xy, [] { return new linear_model::LassoRegression<double>(30, 0.1, 30.0, false, false, true); });
    case 3: return shared<linear_model::LogisticRegression<double>>(c, "LogisticRegression", zoo::BIN, 16, xy, [] { return new linear_model::LogisticRegression<double>(1e-3, 1e-4, 0.0, 0.9, 20, 5, 0, 40, "lbfgs", "l2", "backtracking", "armijo", true, false); });
    case 4: return shared<linear_model::SoftmaxRegression<double>>(c, "SoftmaxRegression", zoo::MULTI0, 12, xy, [] { return new linear_model::SoftmaxRegression<double>(0.05, 0, 1e-2, 4, 400, 3, "sgd", "None", false, false); });
    case 5: return shared<linear_model::Perceptron<double>>(c, "Perceptron", zoo::BIN, 16, xy, [] { return new linear_model::Perceptron<double>(0.1, 0, 1e-3, 4, 400, 3, "None", true, false, false); });
    case 6: return shared<naive_bayes::GaussianNB<double>>(c, "GaussianNB", zoo::ANYCLS, 6, xy, [] { return new naive_bayes::GaussianNB<double>(); });
    case 7: return shared<naive_bayes::MultinomialNB<double>>(c, "MultinomialNB", zoo::COUNTS, 6, xy, [] { return new naive_bayes::MultinomialNB<double>(); });
    case 8: return shared<decomposition::PCA<double>>(c, "PCA", zoo::PLAIN, 8, x, [k] { return new decomposition::PCA<double>("svd", k); });
    case 9: return shared<decomposition::TruncatedSVD<double>>(c, "TruncatedSVD", zoo::PLAIN, 8, x, [k] { return new decomposition::TruncatedSVD<double>(k, 3, 3, "randomized", "QR"); });
    case 10: return shared<cluster::KMeans<double>>(c, "KMeans", zoo::PLAIN, 8, x, [k] { return new cluster::KMeans<double>("random", 1, k + 1, 20, 1e-4); });
    case 11: return shared<mixture_model::GaussianMixture<double>>(c, "GaussianMixture", zoo::PLAIN, 20, x, [k] { return new mixture_model::GaussianMixture<double>(30, 1, k, "random", "full", 1e-2, 1e-6); });
    case 12: return shared<neighbors::KNearestNeighbors<double>>(c, "KNearestNeighbors", zoo::ANYCLS, 8, xy, [k] { return new neighbors::KNearestNeighbors<double>(3, k + 1, "kdtree", "euclidean"); });
    case 13: return shared<decision_tree::DecisionTreeClassifier<double>>(c, "DecisionTreeClassifier", zoo::ANYCLS, 6, xy, [] { return new decision_tree::DecisionTreeClassifier<double>(); });
    default: return shared<decision_tree::DecisionTreeRegressor<double>>(c, "DecisionTreeRegressor", zoo::REG, 6, xy, [] { return new decision_tree::DecisionTreeRegressor<double>(); });
    }
}
SCENARIO(shared_tree, 40, 600) {
    Rng& r = c.rng; int n = r.irange(2, 60), d = r.irange(1, 4); Mat X = gen::data(r, n, d), T = gen::mat(r, r.irange(1, 8), d, 0); int k = r.irange(1, n); std::string me = r.pick(std::vector<std::string>{"euclidean", "manhattan", "chebyshev"}); c.mixm(X); c.nontrivial = n > 2; c.dump << me << " X=" << show(X, 30); const openml::tree::KDTree<double> t(X, r.irange(1, 6), me); auto run = [&](const Mat& Q) { auto p = t.query(Q, k); auto q = t.query_radius(Q, 1.5); zoo::Outs o{{"dist", p.first}, {"ind", p.second.template cast<double>()}}; std::vector<double> w; for (auto& a : q) for (auto& e : a) { w.push_back(e.first); w.push_back((double)e.second); } Mat rm(w.size(), 1); for (size_t i = 0; i < w.size(); ++i) rm(i, 0) = w[i]; o.push_back({"radius", rm}); return o; };
    auto want = run(T); c.ev("shared objects"); together(c, "KDTree/shared", [&](int, Rng& q) { for (int k = 0; k < 4; ++k) { yields(q); auto s = zoo::diff(want, run(T), 1e-12); if (!s.empty()) return s; } return std::string(); });
}
SCENARIO(shared_loss, 40, 600) {
    using namespace openml::loss; Rng& r = c.rng; int n = r.irange(1, 20), d = r.irange(1, 4), K = r.irange(2, 3); Mat X = gen::mat(r, n, d, 0); Vec y(n), yp(n), w = gen::vec(r, d, 0); for (int i = 0; i < n; ++i) { y(i) = r.irange(0, K - 1); yp(i) = r.coin() ? 1 : -1; } Mat W = gen::mat(r, d, K, 0); Vec yb(n); for (int i = 0; i < n; ++i) yb(i) = r.irange(0, 1); c.mixm(X); c.nontrivial = true; c.dump << "X=" << show(X, 30);
    const MSE<double> a(0.1); const LogLoss<double> b(0.1); const HingeLoss<double> h(0.1, 1.0); auto run = [&] { zoo::Outs o; o.push_back({"mse", zoo::one(a.evaluate(X, y, w))}); o.push_back({"mse'", Mat(a.gradient(X, y, w))}); o.push_back({"log", zoo::one(b.evaluate(X, yb, w))}); o.push_back({"log'", Mat(b.gradient(X, yb, w))}); o.push_back({"hinge", zoo::one(h.evaluate(X, yp, w))}); o.push_back({"hinge'", Mat(h.gradient(X, yp, w))}); return o; };
    auto want = run(); c.ev("shared objects"); together(c, "loss/shared", [&](int, Rng& q) { for (int k = 0; k < 6; ++k) { yields(q); auto s = zoo::diff(want, run(), 1e-12); if (!s.empty()) return s; } return std::string(); });
}
SCENARIO(separate_models, 120, 1500) {      // every thread has its own object; results as in one thread where training is deterministic
    Rng& r = c.rng; struct Job { zoo::Spec sp; zoo::Set B; Mat T; zoo::Outs want; bool threw = false; }; std::vector<Job> jobs; int base = r.irange(0, zoo::NID - 1); bool same = r.coin(); c.nontrivial = true; c.mix(c.index); c.mix(base);
    for (int i = 0; i < NT; ++i) { Job j; j.sp = zoo::make_spec(r, same ? base : r.irange(0, zoo::NID - 1)); j.B = zoo::data(r, j.sp); j.T = zoo::data(r, j.sp, j.B.d).X; c.dump << j.sp.name << " "; c.mixm(j.B.X); if (!j.sp.random) { auto m = j.sp.make(-1); try { m->fit(j.B.X, j.B.y); j.want = m->state(); for (auto& o : m->query(j.T)) j.want.push_back(o); } catch (const std::exception&) { j.threw = true; } } c.ev("estimator " + j.sp.name); jobs.push_back(j); }
    together(c, "separate/differs", [&](int i, Rng& q) { Job& j = jobs[i]; auto m = j.sp.make(-1); zoo::Outs o; bool t = false; yields(q); try { m->fit(j.B.X, j.B.y); yields(q); o = m->state(); for (auto& x : m->query(j.T)) o.push_back(x); } catch (const std::exception&) { t = true; } if (j.sp.random) return std::string(); if (t != j.threw) return S(j.sp.name, t ? ": threw" : ": did not throw"); if (t) return std::string(); std::string d = zoo::diff(j.want, o, 1e-9); return d.empty() ? d : j.sp.name + ": " + d; });
}
SCENARIO(functions, 120, 1500) {
    using namespace openml; Rng& r = c.rng; int n = r.irange(2, 14), d = r.irange(1, 6); Mat X = gen::mat(r, n, d, 0); Vec y(n); for (int i = 0; i < n; ++i) y(i) = r.irange(0, 2); const Mat& A = X; c.mixm(X); c.nontrivial = true; c.dump << "X=" << show(X, 30);
    auto run = [&] { zoo::Outs o; auto add = [&](const char* s, const auto& m) { o.push_back({s, Mat(m.template cast<double>())}); };
        add("sort", common::sort<Mat>(A, 0)); add("argsort", common::argsort<Mat, IMat, IVec>(A, 1)); add("argmax", common::argmax<Mat, Vec, IVec>(A, 1)); add("var", math::var<Mat>(A, 0)); add("mean", math::mean<Mat>(A, 1)); add("median", math::median<Mat, Vec>(A, 0)); add("sum", math::sum<Mat>(A, -1)); add("softmax", math::softmax<Mat>(A, 1)); add("lse", math::logsumexp<Mat, Vec>(A, 0)); add("sigmoid", math::sigmoid<Mat>(A)); add("cov", math::cov<Mat>(A)); add("pinv", math::pinv<Mat, Vec>(A)); add("unique", std::get<0>(common::unique<Vec>(Vec(A.col(0)))));
        o.push_back({"entropy", zoo::one(math::entropy<Vec>(y))}); o.push_back({"gini", zoo::one(math::gini<Vec>(y))}); return o; };
    auto want = run(); c.ev("function calls", 15 * NT * 3);
    together(c, "functions/differ", [&](int, Rng& q) { for (int k = 0; k < 3; ++k) { yields(q); auto s = zoo::diff(want, run(), 1e-12); if (!s.empty()) return s; Mat R = random::rand<Mat>(5, 5), N = random::randn<Mat>(5, 5); auto P = random::permutation<IVec>(9); auto I = random::randint<std::size_t>(3, 3, 0, 9); if (!(R.minCoeff() >= 0 && R.maxCoeff() < 1) || P.sum() != 36 || I.maxCoeff() > 9) return std::string("random draw out of range"); Mat s1; Vec s2; random::shuffle_data<Mat, Vec>(A, y, s1, s2); if (s1.rows() != n || std::fabs(s1.sum() - A.sum()) > 1e-9) return std::string("shuffle lost rows"); } return std::string(); });
}
