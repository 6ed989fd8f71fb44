// L-BFGS: every point at which the loss was taken is predicted by an independent run of the documented method
#include "gen.hpp"
#include <src/core/optimizer/base.hpp>
#include <src/core/optimizer/lbfgs/params.hpp>
#include <src/core/optimizer/lbfgs/lbfgs.hpp>
#include <memory>
using namespace mon;
namespace op = openml::optimizer;
using LSP = op::LineSearchParams<double>;
struct Prob {                     // strictly convex: 1/2 (x-m)'A(x-m) + sum_i w_i log cosh(a_i'x + b_i)
    Mat A, B; Vec m, w, b; double off = 0;
    double f(const Vec& x) const {
        double v = off; for (long i = 0; i < m.size(); ++i) for (long j = 0; j < m.size(); ++j) v += 0.5 * A(i, j) * (x(i) - m(i)) * (x(j) - m(j));
        for (long k = 0; k < w.size(); ++k) { double s = b(k); for (long j = 0; j < m.size(); ++j) s += B(k, j) * x(j); s = std::fabs(s); v += w(k) * (s + std::log1p(std::exp(-2 * s)) - std::log(2.0)); }
        return v;
    }
    Vec g(const Vec& x) const {
        Vec o(m.size()); for (long i = 0; i < m.size(); ++i) { o(i) = 0; for (long j = 0; j < m.size(); ++j) o(i) += A(i, j) * (x(j) - m(j)); }
        for (long k = 0; k < w.size(); ++k) { double s = b(k); for (long j = 0; j < m.size(); ++j) s += B(k, j) * x(j); double t = w(k) * std::tanh(s); for (long j = 0; j < m.size(); ++j) o(j) += t * B(k, j); }
        return o;
    }
};
struct Log { std::vector<Vec> xs; long fs = 0, gs = 0; const Mat* X = nullptr; const Vec* y = nullptr; bool other = false; };
struct Loss {
    std::shared_ptr<Prob> p; std::shared_ptr<Log> log;
    void note(const Mat& X, const Vec& y, const Vec& x) const { if (!samem(X, *log->X) || !samem(y, *log->y)) log->other = true; if (log->xs.empty() || !samem(log->xs.back(), x)) log->xs.push_back(x); }
    double evaluate(const Mat& X, const Vec& y, const Vec& x) const { note(X, y, x); log->fs++; return p->f(x); }
    Vec gradient(const Mat& X, const Vec& y, const Vec& x) const { note(X, y, x); log->gs++; return p->g(x); }
};
static double dot(const Vec& a, const Vec& b) { double s = 0; for (long i = 0; i < a.size(); ++i) s += a(i) * b(i); return s; }
static double nrm(const Vec& a) { return std::sqrt(dot(a, a)); }
static std::shared_ptr<Prob> problem(Rng& r, int d, double cond) {
    auto p = std::make_shared<Prob>(); std::vector<double> s; for (int j = 0; j < d; ++j) s.push_back(std::pow(10, r.uni(0, cond))); double sc = std::pow(10, r.uni(-1, 1));
    Mat U = gen::orth(r, d, d); p->A = Mat::Zero(d, d); for (int l = 0; l < d; ++l) for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) p->A(i, j) += sc * U(i, l) * s[l] * U(j, l);
    int k = r.irange(0, 4); p->B = gen::mat(r, k, d, 0); p->b = gen::vec(r, k, 0); p->w = gen::vec(r, k, 0); for (int i = 0; i < k; ++i) p->w(i) = std::fabs(p->w(i)) * sc * 3; p->m = gen::vec(r, d, 0) * r.uni(0.5, 5); p->off = r.coin() ? 0 : r.uni(-3, 3); return p;
}
// comparisons too close to call end the judgement (the code may round the other way)
struct Tie {};
static bool gt(double a, double b, double scale) { if (std::fabs(a - b) <= 1e-9 * scale) throw Tie{}; return a > b; }
SCENARIO(trace, 20000, 400000) {
    Rng& r = c.rng; int d = mon::dim(r, 1, 10, 60); auto p = problem(r, d, r.coin() ? 1 : 2.5); bool bumpy = r.coin(0.25); if (bumpy) p->w *= -r.uni(1, 4); auto log = std::make_shared<Log>();
    int mem = r.irange(1, 9), past = r.irange(0, 4), max_iter = r.coin(0.5) ? r.irange(1, 12) : r.irange(10, 200); double tol = std::pow(10, r.uni(-6, -2)), delta = r.coin(0.3) ? 0 : std::pow(10, r.uni(-7, -2));
    bool bracket = r.coin(); std::string cond = r.pick(std::vector<std::string>{"ARMIJO", "WOLFE", "WOLFE", "STRONG_WOLFE"}); int maxls = r.coin(0.2) ? r.irange(1, 4) : 40; double ftol = r.coin() ? 1e-4 : r.uni(0.01, 0.4), wolfe = r.coin() ? 0.9 : r.uni(0.45, 0.95); double dec = r.coin(0.6) ? 0.5 : r.uni(0.2, 0.8), inc = r.coin(0.6) ? 2.1 : r.uni(1.5, 4); double maxstep = r.coin(0.25) ? std::pow(10, r.uni(-1, 1)) : 1e20, minstep = r.coin(0.25) ? std::pow(10, r.uni(-3, 0)) : 1e-20;
    Mat X = gen::mat(r, 3, d, 0); Vec y = gen::vec(r, 3, 0); log->X = &X; log->y = &y; const Mat X0 = X; Vec x0 = gen::vec(r, d, 0) * r.uni(0, 6);
    c.mixm(p->A); c.mixm(x0); c.mix(mem); c.mix(past); c.mixd(tol); c.mixd(delta); c.nontrivial = d > 1; c.dump << "d=" << d << " bumpy=" << bumpy << " mem=" << mem << " past=" << past << " max_iter=" << max_iter << " tol=" << tol << " delta=" << delta << " policy=" << (bracket ? "bracketing " : "backtracking ") << cond << " maxls=" << maxls << " ftol=" << ftol << " wolfe=" << wolfe << " maxstep=" << maxstep << " minstep=" << minstep << " dec=" << dec << " inc=" << inc << " x0=" << show(x0) << " A=" << show(p->A);
    op::LBFGS<double, Loss, LSP> o(x0, Loss{p, log}, LSP(dec, inc, ftol, wolfe, maxstep, minstep, maxls, cond), max_iter, mem, past, tol, delta, bracket ? "bracketing" : "backtracking", true, r.coin(0.1));
    o.optimize(X, y); Vec got = o.get_coef(); c.req(!log->other, "other-data", "the loss was taken on other data than given"); c.req(samem(X, X0), "input-changed", "");
    const auto& P = log->xs; size_t at = 0; c.ev("points", (long)P.size());
    if (!c.req(got.size() == d, "coef-size", show(got))) return;
    c.req(p->f(got) <= p->f(x0) + 1e-12 * (1 + std::fabs(p->f(x0)) + std::fabs(p->off)), "worse-than-start", S("objective ", p->f(got), " at the result, ", p->f(x0), " at the start"));
    try {
        if (!c.req(!P.empty() && samem(P[0], x0), "start", "the first point is not x0")) return;
        Vec x = x0, g = p->g(x); double fx = p->f(x); ++at; double fsc = 1e-6 * (std::fabs(fx) + std::fabs(p->off)) ;
        auto done = [&](const Vec& want, const std::string& why) { c.ev("end: " + why); if (c.req(at == P.size(), "goes-on", S(P.size() - at, " points were tried after the end (", why, ")"))) c.req(closem(got, want, 1e-12, 1e-14), "coef", S(why, ": get_coef ", show(got), " want ", show(want))); };
        if (!gt(nrm(g) / std::max(1.0, nrm(x)), tol, tol)) { done(x, "start is stationary"); return; }
        std::vector<Vec> s, yy; std::vector<double> pf(std::max(1, past), fx); Vec dir(d); for (int i = 0; i < d; ++i) dir(i) = -g(i); double step = 1 / nrm(dir); double dtol = 1e-11;
        for (int k = 1;; ++k) {
            Vec xp = x, gp = g; double f0 = fx, dg0 = dot(dir, g); int cnt = 0; double lo = 0, hi = INFINITY; bool failed = false; double curv = 0;
            if (bumpy) { if (std::fabs(dg0) <= 1e-6 * nrm(dir) * nrm(g)) throw Tie{}; if (dg0 > 0) { c.ev("uphill directions"); done(xp, "direction does not descend"); return; } }
            for (;;) {
                if (!c.req(at < P.size(), "stops-early", S("iteration ", k, ", trial ", cnt + 1, ": no point was tried"))) return;
                const Vec& q = P[at]; Vec want(d); double ds = nrm(dir) * step; for (int i = 0; i < d; ++i) want(i) = xp(i) + step * dir(i);
                for (int i = 0; i < d; ++i) if (!(std::fabs(q(i) - want(i)) <= dtol * ds + 1e-14 * nrm(xp) + 1e-300)) { c.fail(cnt ? "line-search" : "direction", S("iteration ", k, ", trial ", cnt + 1, ", step ", step, ": tried ", show(q), " want ", show(want))); return; }
                x = q; ++at; ++cnt; fx = p->f(x); g = p->g(x); c.ev("trials");
                double sc = std::fabs(f0) + std::fabs(fx) + std::fabs(p->off); bool shrink = false, grow = false;
                // the objective's rounding decides the rest
                if (std::fabs(fx - f0 - step * ftol * dg0) <= 1e-11 * sc) throw Tie{};
                if (fx > f0 + step * ftol * dg0) shrink = true;
                else if (cond == "ARMIJO") break;
                else { double dg = dot(dir, g), t = std::fabs(dg) + std::fabs(dg0); if (!gt(dg, wolfe * dg0, t) ) grow = true; else if (cond == "WOLFE") break; else if (gt(dg, -wolfe * dg0, t)) shrink = true; else break; }
                if (std::fabs(step - minstep) < 1e-9 * step || std::fabs(step - maxstep) < 1e-9 * step) throw Tie{};
                if (step < minstep || step > maxstep) { failed = true; c.ev("step outside its limits"); break; }
                if (cnt >= maxls) { failed = true; break; }
                if (bracket) { (shrink ? hi : lo) = step; step = std::isinf(hi) ? 2 * step : (lo + hi) / 2; } else step *= shrink ? dec : inc; (void)grow; (void)fsc; (void)curv;
            }
            if (failed) { done(xp, "line search gave up"); return; }
            c.ev("iterations");
            double gn = nrm(g) / std::max(1.0, nrm(x)); if (!gt(gn, tol, tol)) { done(x, "gradient small"); return; }
            if (past > 0 && past <= k) { double rate = std::fabs(pf[k % past] - fx) / std::max(1.0, std::fabs(fx)); if (std::fabs(rate - delta) < 1e-12 * (1 + std::fabs(p->off))) throw Tie{}; if (rate < delta) { done(x, "objective flat"); return; } }
            if (past > 0) pf[k % past] = fx;
            if (max_iter < k + 1) { done(x, "iteration limit"); return; }
            Vec sv(d), yv(d); for (int i = 0; i < d; ++i) { sv(i) = x(i) - xp(i); yv(i) = g(i) - gp(i); } s.push_back(sv); yy.push_back(yv); if ((int)s.size() > mem) { s.erase(s.begin()); yy.erase(yy.begin()); }
            // inverse Hessian times -g, by the product form, in long double
            int m = (int)s.size(); std::vector<long double> q(d), al(m); for (int i = 0; i < d; ++i) q[i] = -g(i);
            auto ld = [&](const Vec& a, const std::vector<long double>& b) { long double t = 0; for (int i = 0; i < d; ++i) t += a(i) * b[i]; return t; };
            for (int l = m - 1; l >= 0; --l) { al[l] = ld(s[l], q) / dot(s[l], yy[l]); for (int i = 0; i < d; ++i) q[i] -= al[l] * yy[l](i); }
            long double h = dot(s[m - 1], yy[m - 1]) / dot(yy[m - 1], yy[m - 1]); for (auto& v : q) v *= h;
            for (int l = 0; l < m; ++l) { long double be = ld(yy[l], q) / dot(s[l], yy[l]); for (int i = 0; i < d; ++i) q[i] += (al[l] - be) * s[l](i); }
            for (int i = 0; i < d; ++i) dir(i) = (double)q[i]; step = 1; dtol = 1e-6;
            for (int l = 0; l < m; ++l) if (nrm(s[l]) < 1e-6 * (1 + nrm(x)) || nrm(yy[l]) < 1e-6) throw Tie{};      // differences of nearly equal vectors
            if (bumpy) for (int l = 0; l < m; ++l) if (std::fabs(dot(s[l], yy[l])) < 1e-2 * nrm(s[l]) * nrm(yy[l])) throw Tie{};    // hardly any curvature
        }
    } catch (Tie) { c.ev("too close to call"); }
}
// what a user relies on: the minimum is reached
SCENARIO(minimum, 3000, 60000) {
    Rng& r = c.rng; int d = mon::dim(r, 1, 12, 60); auto p = problem(r, d, 1.5); auto log = std::make_shared<Log>(); bool bracket = r.coin(); std::string cond = r.pick(std::vector<std::string>{"WOLFE", "STRONG_WOLFE", "ARMIJO"}); p->off = 0;
    Mat X = gen::mat(r, 2, d, 0); Vec y = gen::vec(r, 2, 0); log->X = &X; log->y = &y; Vec x0 = gen::vec(r, d, 0) * r.uni(0, 6); double tol = 1e-4; int mem = r.irange(2, 9); c.mixm(p->A); c.mixm(x0); c.mix(mem); c.nontrivial = true; c.dump << "d=" << d << " mem=" << mem << " " << bracket << cond << " x0=" << show(x0) << " A=" << show(p->A);
    op::LBFGS<double, Loss, LSP> o(x0, Loss{p, log}, LSP(1e-4, 0.9, 40, cond), 0, mem, 0, tol, 0, bracket ? "bracketing" : "backtracking", true, false); o.optimize(X, y); Vec x = o.get_coef(); c.ev("minima"); double gn = nrm(p->g(x)) / std::max(1.0, nrm(x));
    c.req(gn <= tol * 1.01, "not-stationary", S("scaled gradient norm ", gn, " at the result, tolerance ", tol));
    // started at the result, it stays there
    auto log2 = std::make_shared<Log>(); log2->X = &X; log2->y = &y; op::LBFGS<double, Loss, LSP> o2(x, Loss{p, log2}, LSP(1e-4, 0.9, 40, cond), 0, mem, 3, tol * 1.1, 1e-6, bracket ? "bracketing" : "backtracking", true, false); o2.optimize(X, y); c.req(samem(o2.get_coef(), x), "leaves-minimum", "started at a stationary point, returned another");
}
SCENARIO(unknown_policy, 20, 100) {
    auto p = problem(c.rng, 2, 1); auto log = std::make_shared<Log>(); Mat X = Mat::Zero(1, 2); Vec y = Vec::Zero(1); log->X = &X; log->y = &y; std::string pol = c.rng.pick(std::vector<std::string>{"", "Backtracking", "newton", "bracket"}); c.nontrivial = true; for (char ch : pol) c.mix(ch); c.dump << pol;
    op::LBFGS<double, Loss, LSP> o(Vec::Zero(2), Loss{p, log}, LSP(), 5, 3, 3, 1e-5, 1e-6, pol, true, false); c.req(throws([&] { o.optimize(X, y); }), "accepted", "unknown line search '" + pol + "' was accepted"); c.ev("rejected");
}
