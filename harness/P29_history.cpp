// A model is a function of its parameters and its last training data only
#include "zoo.hpp"
#include <iostream>
#include <algorithm>
#include <src/methods/rule_model/apriori.hpp>
using namespace mon;
// fresh heap memory holds a pattern the case chooses
static int g_fill = 0xA5;
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); std::memset(p, g_fill, n < 65536 ? n : 65536); return p; }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { void* p = std::malloc(n ? n : 1); if (p) std::memset(p, g_fill, n < 65536 ? n : 65536); return p; }
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
// fill the stack below with a pattern, so that an uninitialised local is not what it was last time
__attribute__((noinline)) static void smash(int v) { volatile unsigned char b[16384]; for (size_t i = 0; i < sizeof b; ++i) b[i] = (unsigned char)v; }
struct Run { std::string threw; zoo::Outs o; };
static const int FILL[] = {0x00, 0xFF, 0xA5, 0x01, 0x7F};
static void train(Run& q, zoo::Model& m, const zoo::Set& s, uint64_t e) { set_entropy(e); try { m.fit(s.X, s.y); } catch (const EigenAssert&) { throw; } catch (const std::exception& x) { q.threw = S("threw ", x.what()); } }
static void look(Run& q, zoo::Model& m, const Mat& T, bool order) { if (q.threw.empty()) { q.o = m.state(order); for (auto& x : m.query(T)) q.o.push_back(x); } }
static std::string diff(const Run& a, const Run& b) { if (a.threw != b.threw) return S("'", a.threw, "' / '", b.threw, "'"); return zoo::diff(a.o, b.o, 1e-9); }
// data that resemble s: the same size and much the same sums
static zoo::Set twin(Rng& r, const zoo::Spec& sp, const zoo::Set& s) {
    zoo::Set t = s; long n = s.X.rows(); auto two = [&] { long i = r.irange(0, n - 1), j; do j = r.irange(0, n - 1); while (j == i); return std::make_pair(i, j); };
    switch (r.irange(0, sp.data == zoo::COUNTS ? 3 : 5)) {
    case 0: r.shuffle(t.y.data(), t.y.data() + n); break;                                        // the same rows, labels permuted
    case 1: t.y = s.y.reverse(); break;
    case 2: { auto p = two(); t.X.row(p.first).swap(t.X.row(p.second)); break; }                  // the same labels, rows permuted
    case 3: { long a = r.irange(0, s.d - 1), b = r.irange(0, s.d - 1); t.X.col(a).swap(t.X.col(b)); if (a == b) t.X.col(a).reverseInPlace(); break; }
    case 4: { auto p = two(); double v = r.gauss(); long j = r.irange(0, s.d - 1); t.X(p.first, j) += v; t.X(p.second, j) -= v; break; }   // the same sums
    default: t.X = -s.X; break;
    }
    return t;
}
SCENARIO(refit, 4000, 60000) {
    Rng& r = c.rng; int id = c.index % zoo::NID; auto sp = zoo::make_spec(r, id); auto A = zoo::data(r, sp), B = zoo::data(r, sp), Z = zoo::data(r, sp, B.d); Mat T = Z.X; bool ord = r.coin();
    c.mix(id); c.mixm(B.X); c.mixm(A.X); c.nontrivial = true; c.dump << sp.name << " B: X=" << show(B.X) << " y=" << show(B.y) << " A: X=" << show(A.X, 20); uint64_t e = r.next(); c.ev("estimator " + sp.name);
    auto fresh = [&](int fill, const zoo::Set& s, const Mat& t) { Run q; g_fill = fill; auto m = sp.make(fill); smash(fill); train(q, *m, s, e); smash(fill ^ 0x33); look(q, *m, t, ord); g_fill = 0xA5; return q; };
    int f1 = FILL[r.irange(0, 4)], f2; do f2 = FILL[r.irange(0, 4)]; while (f2 == f1);
    Run a = fresh(f1, B, T), a1 = fresh(f1, B, T), b = fresh(f2, B, T); std::string d = diff(a, a1); c.ev("fits", 3); if (!a.threw.empty()) c.ev("fits that threw");
    if (!d.empty()) { if (!sp.random) { c.fail(sp.name + "/not-repeatable", d); } else c.ev("not reproducible: nothing to compare"); return; }
    d = diff(a, b); c.req(d.empty(), sp.name + "/memory-dependent", S("fitted in memory filled with ", f1, " and ", f2, ": ", d));
    {   // a history of fits, some of which may fail, some followed by queries
        auto m = sp.make(f2); Run q; int k = r.irange(1, 3); std::string hist; for (int i = 0; i < k; ++i) { auto H = r.coin(0.3) ? A : r.coin(0.4) ? twin(r, sp, B) : zoo::data(r, sp); Run w; if (r.coin(0.15)) { if (H.y.size() > 3 && sp.data != zoo::MULTI0) H.y(H.y.size() / 2) = r.pick(std::vector<double>{-7, 9, 0.5}); } train(w, *m, H, r.next()); if (w.threw.empty()) { if (r.coin()) { m->state(r.coin()); if (H.d == B.d && r.coin()) m->query(T); else m->query(H.X); } } else c.ev("failed fits in histories"); hist += S(H.X.rows(), "x", H.X.cols(), w.threw.empty() ? " " : "(threw) "); c.ev("fits"); }
        train(q, *m, B, e); look(q, *m, T, ord); c.ev("refits compared"); d = diff(a, q); c.req(d.empty(), sp.name + "/remembers", S("after fits to ", hist, ": ", d));
    }
    {   // the same objects again with other contents: the data live where the last data lived, the estimator where another one lived
        zoo::Set W = r.coin(0.8) ? twin(r, sp, B) : zoo::data(r, sp, B.d); while (W.X.rows() != B.X.rows()) W = zoo::data(r, sp, B.d); Mat bx = W.X, bt = T; Vec by = W.y; auto m = sp.make(f2); zoo::Set V; V.d = B.d; auto fit = [&](Run& q, uint64_t en) { set_entropy(en); try { m->fit(bx, by); } catch (const EigenAssert&) { throw; } catch (const std::exception& x) { q.threw = S("threw ", x.what()); } };
        Run w, q; fit(w, r.coin() ? e : r.next()); if (w.threw.empty() && r.coin()) { m->state(r.coin()); bt = -T; if (r.coin()) bt = T; m->query(bt); } bx = B.X; by = B.y; bt = T; bool re = r.coin(0.3); if (re) { m->renew(); c.ev("estimators rebuilt in place"); }
        fit(q, e); look(q, *m, bt, ord); c.ev("refits in place"); d = diff(a, q); c.req(d.empty(), sp.name + "/remembers", S(re ? "rebuilt, " : "", "data overwritten in place: ", d)); c.req(samem(bx, B.X) && samem(by, B.y), sp.name + "/fit-changes-data", "");
    }
    if (a.threw.empty()) {   // copies stand on their own
        auto m = sp.make(f1); Run q, q2, q3; train(q, *m, B, e); auto cp = m->copy(r.irange(0, 1)); if (!cp) { c.ev("not copyable"); return; } if (r.coin()) { m->query(T); }
        Run w; train(w, *m, A, r.next()); c.ev("copies compared"); look(q2, *cp, T, ord); d = diff(a, q2); c.req(d.empty(), sp.name + "/copy-changed", S("copy after the original was refitted: ", d));
        m.reset(); look(q3, *cp, T, ord); d = diff(a, q3); c.req(d.empty(), sp.name + "/copy-changed", S("copy after the original was destroyed: ", d));
        auto m2 = sp.make(f2); Run q4; train(q4, *m2, B, e); auto cp2 = m2->copy(1); Run w2; train(w2, *cp2, A, r.next()); cp2.reset(); look(q4, *m2, T, ord); d = diff(a, q4); c.req(d.empty(), sp.name + "/copy-writes-through", S("original after its copy was refitted: ", d));
    }
}
// printing the progress is all that verbose does
SCENARIO(verbose, 600, 9000) {
    Rng& r = c.rng; static const int ids[] = {zoo::LASSO, zoo::LOGIT_SGD, zoo::LOGIT_LBFGS, zoo::LOGIT_SCD, zoo::SOFTMAX, zoo::PERCEPTRON}; int id = ids[c.index % 6]; auto sp = zoo::make_spec(r, id); auto B = zoo::data(r, sp), Z = zoo::data(r, sp, B.d); Mat T = Z.X; uint64_t e = r.next();
    c.mix(id); c.mixm(B.X); c.nontrivial = true; c.dump << sp.name << " X=" << show(B.X) << " y=" << show(B.y);
    auto go = [&](bool v) { Run q; zoo::verbose = v; auto m = sp.make(0xA5); zoo::verbose = false; std::ostringstream o; auto* old = std::cout.rdbuf(o.rdbuf()); try { train(q, *m, B, e); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old); const std::string text = o.str(); c.ev(v ? "lines printed when verbose" : "lines printed when quiet", std::count(text.begin(), text.end(), '\n')); look(q, *m, T, false); return q; };
    Run a = go(false), a2 = go(false), b = go(true); if (!diff(a, a2).empty()) { c.ev("not reproducible: nothing to compare"); return; } std::string d = diff(a, b); c.ev("verbose fits compared"); c.req(d.empty(), sp.name + "/verbose-changes-result", d);
}
SCENARIO(apriori, 200, 3000) {
    Rng& r = c.rng; using A = openml::rule_model::Apriori<std::size_t>; using T = std::vector<std::vector<std::size_t>>; auto tx = [&] { T t(r.irange(2, 14)); int items = r.irange(2, 6); for (auto& x : t) { int k = r.irange(1, items); for (int i = 0; i < k; ++i) x.push_back(r.irange(1, items)); } return t; };
    double ms = r.uni(0.15, 0.6), mc = r.uni(0, 1); T a = tx(), b = tx(); while (std::floor(b.size() * ms) < 1) b = tx(); c.mixd(ms); c.mixd(mc); for (auto& x : b) c.mixv(x); c.nontrivial = true; c.dump << "support " << ms << " confidence " << mc << " b=" << showvv(b);
    auto fit = [](A& m, const T& t) -> std::string { try { m.fit_transform(t); } catch (const std::exception& x) { return S("threw ", x.what()); } auto v = m.get_rules(); std::vector<std::string> o; for (auto& q : v) o.push_back(S(showv(std::get<0>(q)), "=>", showv(std::get<1>(q)), " ", std::get<2>(q))); std::sort(o.begin(), o.end()); std::string s; for (auto& x : o) s += x + "\n"; return s; };
    zoo::Cell<A> m1(0x00, [&](void* p) { return new (p) A(ms, mc); }), m2(0xFF, [&](void* p) { return new (p) A(ms, mc); }); g_fill = 0x11; std::string w1 = fit(*m1.m, b); g_fill = 0xFF; std::string w2 = fit(*m2.m, b); g_fill = 0xA5; c.ev("fits", 2); c.req(w1 == w2, "memory-dependent", S(w1, " / ", w2)); fit(*m1.m, a); c.req(fit(*m1.m, b) == w1, "remembers", w1);
    if (w1.rfind("threw", 0)) { A cp = *m2.m; fit(*m2.m, a); auto rules = cp.get_rules(); long n = std::count(w1.begin(), w1.end(), '\n'); c.req((long)rules.size() == n, "copy-changed", S(rules.size(), " rules, had ", n)); }
}
