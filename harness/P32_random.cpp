// Random generators: range, shape and distribution of what they draw
#include "gen.hpp"
using namespace mon;
namespace rnd = openml::random;
// sup distance between the empirical distribution and F, times sqrt(n); 3.6 has probability 1e-11
template <class F> static double ks(std::vector<double> x, F cdf) { std::sort(x.begin(), x.end()); double D = 0; size_t n = x.size(); for (size_t i = 0; i < n; ++i) { double f = cdf(x[i]); D = std::max(D, std::max(std::fabs(f - (double)i / n), std::fabs((double)(i + 1) / n - f))); } return D * std::sqrt((double)n); }
static double ncdf(double z) { return 0.5 * std::erfc(-z / std::sqrt(2.0)); }
static double serial(const std::vector<double>& x, double m, double v, int lag) { double s = 0; size_t n = x.size() - lag; for (size_t i = 0; i < n; ++i) s += (x[i] - m) * (x[i + lag] - m); return s / (v * std::sqrt((double)n)); }
template <class M> static std::vector<double> pool(const M& m) { std::vector<double> v; for (long j = 0; j < m.cols(); ++j) for (long i = 0; i < m.rows(); ++i) v.push_back((double)m(i, j)); return v; }
template <class M> static bool shape(Ctx& c, const M& m, int n, int d) { return c.req(m.rows() == n && m.cols() == d, "shape", S("asked ", n, "x", d, " got ", m.rows(), "x", m.cols())); }
template <class T> static void uniform(Ctx& c) {
    using M = Eigen::Matrix<T, -1, -1>; Rng& r = c.rng; int n = mon::dim(r, 1, 40, 300), d = mon::dim(r, 1, 40, 200); bool def = r.coin(0.2); T lo = def ? 0 : (T)r.pick(std::vector<double>{0, -1, -5, 3, 1000, -0.25, -1e6}), hi = def ? 1 : (T)(lo + (T)r.pick(std::vector<double>{1, 2, 0.5, 7, 100, 1e6})); c.mix(n * 64 + d); c.mixd(lo); c.mixd(hi); c.nontrivial = true; c.dump << n << "x" << d << " in [" << lo << ", " << hi << ")";
    std::vector<double> v; M prev; for (int k = 0; k < 4; ++k) { M m = def ? rnd::rand<M>(n, d) : rnd::rand<M>(n, d, lo, hi); if (!shape(c, m, n, d)) return; for (double x : pool(m)) { c.ev("draws"); if (!c.req(x >= lo && (x < hi || (x == hi && (hi - lo) < 1e-3 * std::fabs(hi)) || (sizeof(T) == 4 && x == hi)), "range", S(x, " not in [", lo, ", ", hi, ")"))) return; v.push_back(x); } if (k && n * d > 3) c.req(!samem(prev, m), "repeats", "two calls drew the same matrix"); prev = m; }
    double ulp = std::max(std::fabs((double)lo), std::fabs((double)hi)) * std::numeric_limits<T>::epsilon(); if (ulp > 1e-4 * ((double)hi - lo)) return;      // too coarse a grid for these statistics
    if (v.size() >= 60) { double q = ks(v, [&](double x) { return (x - lo) / ((double)hi - lo); }); c.ev("distributions judged"); c.req(q < 3.6, "not-uniform", S("sqrt(n)*KS = ", q, " for ", v.size(), " draws")); double mean = 0.5 * ((double)lo + hi), var = ((double)hi - lo) * ((double)hi - lo) / 12; for (int lag : {1, 2, n, n * d}) if (lag > 0 && v.size() > (size_t)lag * 2 + 50) { double s = serial(v, mean, var, lag); c.req(std::fabs(s) < 7.5, "correlated", S("lag ", lag, ": ", s)); } }
}
template <class T> static void normal(Ctx& c) {
    using M = Eigen::Matrix<T, -1, -1>; Rng& r = c.rng; int n = mon::dim(r, 1, 40, 300), d = mon::dim(r, 1, 40, 200); bool def = r.coin(0.2); T mu = def ? 0 : (T)r.pick(std::vector<double>{0, -1, 5, 1000, -3e4}), sd = def ? 1 : (T)r.pick(std::vector<double>{1, 0.01, 3, 100}); if (sizeof(T) == 4 && std::fabs(mu) > 1e3 * sd) { sd = 100; if (mu < 0) mu = -1000; } c.mix(n * 64 + d); c.mixd(mu); c.mixd(sd); c.nontrivial = true; c.dump << n << "x" << d << " mean " << mu << " deviation " << sd;
    std::vector<double> v; M prev; for (int k = 0; k < 4; ++k) { M m = def ? rnd::randn<M>(n, d) : rnd::randn<M>(n, d, mu, sd); if (!shape(c, m, n, d)) return; for (double x : pool(m)) { c.ev("draws"); if (!c.req(std::isfinite(x) && std::fabs(x - mu) < 12 * sd, "range", S(x))) return; v.push_back(x); } if (k && n * d > 3) c.req(!samem(prev, m), "repeats", "two calls drew the same matrix"); prev = m; }
    double s = 0, q = 0; for (double x : v) { s += (x - mu) / sd; q += (x - mu) / sd * ((x - mu) / sd); } double N = v.size(); c.req(std::fabs(s) / std::sqrt(N) < 7.5, "mean", S(mu + sd * s / N)); if (N >= 200) c.req(std::fabs(q - N) / std::sqrt(2 * N) < 9, "deviation", S(sd * std::sqrt(q / N)));
    if (N >= 60) { double k = ks(v, [&](double x) { return ncdf((x - mu) / sd); }); c.ev("distributions judged"); c.req(k < 3.6, "not-normal", S("sqrt(n)*KS = ", k, " for ", N, " draws")); for (int lag : {1, 2, n, n * d}) if (v.size() > (size_t)lag * 2 + 50) { double t = serial(v, mu, (double)sd * sd, lag); c.req(std::fabs(t) < 7.5, "correlated", S("lag ", lag, ": ", t)); } }
}
template <class T, class M> static void ints(Ctx& c) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 40, 300), d = mon::dim(r, 1, 40, 200); bool def = r.coin(0.15); long lo = def ? 0 : std::is_signed<T>::value ? r.irange(-50, 50) : r.irange(0, 50), hi = def ? 100 : lo + r.pick(std::vector<int>{0, 1, 2, 5, 9, 100, 5000}); c.mix(n * 64 + d); c.mix(lo); c.mix(hi); c.nontrivial = true; c.dump << n << "x" << d << " in [" << lo << ", " << hi << "]";
    std::map<long, long> cnt; long N = 0; M prev; long w = hi - lo + 1; for (int k = 0; k < 4; ++k) { M m = def ? rnd::randint<T, M>(n, d) : rnd::randint<T, M>(n, d, (T)lo, (T)hi); if (!shape(c, m, n, d)) return; for (double x : pool(m)) { c.ev("draws"); if (!c.req(x >= lo && x <= hi && x == std::floor(x), "range", S(x, " not in [", lo, ", ", hi, "]"))) return; cnt[(long)x]++; ++N; } if (k && w > 1 && n * d > 60) c.req(!samem(prev, m), "repeats", "two calls drew the same matrix"); prev = m; }
    if (N >= 30 * w) { double chi = 0; for (long x = lo; x <= hi; ++x) { double e = (double)N / w, t = cnt[x] - e; chi += t * t / e; } c.ev("distributions judged"); c.req((long)cnt.size() == w, "unreachable", S(cnt.size(), " of ", w, " values in ", N, " draws")); double lim = (w - 1) + 9 * std::sqrt(2.0 * w) + 45; c.req(chi < lim, "not-uniform", S("chi2 ", chi, " on ", w - 1, " degrees of freedom")); }
}
SCENARIO(uniform_double, 400, 6000) { uniform<double>(c); }
SCENARIO(uniform_float, 200, 3000) { uniform<float>(c); }
SCENARIO(normal_double, 400, 6000) { normal<double>(c); }
SCENARIO(normal_float, 200, 3000) { normal<float>(c); }
SCENARIO(randint_int, 300, 4000) { ints<int, Eigen::MatrixXi>(c); }
SCENARIO(randint_size, 300, 4000) { ints<std::size_t, Eigen::Matrix<std::size_t, -1, -1>>(c); }
SCENARIO(randint_long, 200, 3000) { ints<long, Eigen::Matrix<long, -1, -1>>(c); }
// what successive calls draw first: a narrow or constant seed shows here
// ranges that do not fit a narrower type
template <class T, class M> static void wide_ints(Ctx& c) {
    Rng& r = c.rng; const long double top = std::numeric_limits<T>::max(), bot = std::numeric_limits<T>::min(); int k = r.irange(0, 3);
    T hi = k == 0 ? std::numeric_limits<T>::max() : k == 1 ? (T)(top / 2) : (T)std::min(top, (long double)std::pow(2.0, r.uni(28, 62)));
    T lo = k == 0 && r.coin() ? std::numeric_limits<T>::min() : std::is_signed<T>::value && r.coin() ? (T)-(hi - 1) : (T)(hi / 3); (void)bot;
    int n = r.irange(20, 40), d = r.irange(20, 40); c.mixd((double)hi); c.mixd((double)lo); c.nontrivial = true; c.dump << n << "x" << d << " in [" << lo << ", " << hi << "]";
    std::vector<double> v; M m = rnd::randint<T, M>(n, d, lo, hi); if (!shape(c, m, n, d)) return;
    std::set<T> u; for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) { T x = m(i, j); c.ev("draws"); if (!c.req(x >= lo && x <= hi, "range", S(x, " not in [", lo, ", ", hi, "]"))) return; v.push_back((double)((long double)x - lo)); u.insert(x); }
    double w = (double)((long double)hi - lo + 1), q = ks(v, [&](double x) { return x / w; }); c.ev("distributions judged"); c.req(q < 3.6, "not-uniform", S("sqrt(n)*KS = ", q)); c.req(u.size() > 0.99 * v.size(), "few-values", S(u.size(), " distinct of ", v.size()));
}
SCENARIO(randint_wide_int, 100, 1500) { wide_ints<int, Eigen::MatrixXi>(c); }
SCENARIO(randint_wide_long, 100, 1500) { wide_ints<long, Eigen::Matrix<long, -1, -1>>(c); }
SCENARIO(randint_wide_size, 100, 1500) { wide_ints<std::size_t, Eigen::Matrix<std::size_t, -1, -1>>(c); }
SCENARIO(distinct_orders, 6, 60) {      // among this many orders no two should be equal
    Rng& r = c.rng; int n = r.irange(14, 30); const int N = 3000; std::set<std::vector<long>> u; c.mix(n); c.mix(r.next()); c.nontrivial = true; c.dump << N << " permutations of " << n;
    for (int k = 0; k < N; ++k) { IVec p = rnd::permutation<IVec>(n); u.insert(std::vector<long>(p.data(), p.data() + p.size())); c.ev("permutations"); }
    c.req(u.size() + 3 >= (size_t)N, "few-orders", S(u.size(), " distinct of ", N));
}
SCENARIO(across_calls, 40, 300) {
    Rng& r = c.rng; int kind = c.index % 3; std::vector<double> v; std::set<double> u; const int N = 1500; c.mix(c.index); c.mix(r.next()); c.nontrivial = true; c.dump << "first draws of " << N << " calls";
    for (int k = 0; k < N; ++k) { double x = kind == 0 ? rnd::rand<Mat>(1, 1)(0, 0) : kind == 1 ? rnd::randn<Mat>(2, 1)(0, 0) : (double)rnd::randint<std::size_t>(1, 1, 0, 999)(0, 0); v.push_back(x); u.insert(x); c.ev("draws"); }
    if (kind < 2) c.req(u.size() + 3 >= (size_t)N, "few-values", S(u.size(), " distinct of ", N)); double q = kind == 0 ? ks(v, [](double x) { return x; }) : kind == 1 ? ks(v, ncdf) : ks(v, [](double x) { return (x + 0.5) / 1000; }); c.ev("distributions judged"); c.req(q < 3.6, "seed-biased", S("sqrt(n)*KS = ", q)); if (kind == 0) { double s = serial(v, 0.5, 1 / 12.0, 1); c.req(std::fabs(s) < 7.5, "correlated", S(s)); }
}
SCENARIO(permutation, 400, 5000) {
    Rng& r = c.rng; int n = r.coin(0.2) ? r.irange(200, 900) : r.irange(1, 40); c.mix(n); c.mix(c.index); c.nontrivial = n > 1; c.dump << "n=" << n; IVec a = rnd::permutation<IVec>(n), b = rnd::permutation<IVec>(n);
    for (auto* p : {&a, &b}) { if (!c.req(p->size() == n, "shape", S(p->size()))) return; std::vector<int> seen(n, 0); for (int i = 0; i < n; ++i) { long x = (*p)(i); if (!c.req(x >= 0 && x < n && !seen[x]++, "not-a-permutation", show(*p))) return; } c.ev("permutations"); } if (n > 20) c.req(!samem(a, b), "repeats", "two calls drew the same permutation");
}
SCENARIO(orders, 24, 200) {      // every order of 2, 3 or 4, and every position of every element of more
    Rng& r = c.rng; int n = c.index % 4 == 3 ? r.irange(8, 60) : r.irange(2, 7); const int N = 4000; std::map<std::vector<long>, int> f; std::vector<std::vector<int>> at(n, std::vector<int>(n, 0)); c.mix(n); c.mix(r.next()); c.nontrivial = true; c.dump << N << " permutations of " << n;
    for (int k = 0; k < N; ++k) { IVec p = rnd::permutation<IVec>(n); if (!c.req(p.size() == n, "shape", S(p.size()))) return; std::vector<long> v(p.data(), p.data() + n); f[v]++; for (int i = 0; i < n; ++i) { if (!c.req(v[i] >= 0 && v[i] < n, "not-a-permutation", showv(v))) return; at[i][v[i]]++; } c.ev("permutations"); }
    int all = 1; for (int i = 2; i <= n && n <= 4; ++i) all *= i; if (n <= 4) { c.req((int)f.size() == all, "unreachable-order", S(f.size(), " of ", all)); double e = (double)N / all; for (auto& x : f) c.req(std::fabs(x.second - e) < 7 * std::sqrt(e), "unequal-orders", S(showv(x.first), ": ", x.second, " of ", N)); }
    double e = (double)N / n, sd = std::sqrt(e * (1 - 1.0 / n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) c.req(std::fabs(at[i][j] - e) < 7 * sd, "unequal-positions", S("element ", j, " at ", i, ": ", at[i][j], " of ", N)); c.ev("distributions judged");
}

SCENARIO(resolution, 3, 20) {      // doubles have 2^52 values in [0.5, 1): a coarse grid repeats
    Rng& r = c.rng; const int N = 600; std::vector<double> v; c.mix(r.next()); c.nontrivial = true; c.dump << N * N << " draws of each";
    for (int k = 0; k < 2; ++k) { Mat m = k ? rnd::randn<Mat>(N, N) : rnd::rand<Mat>(N, N); v = pool(m); std::sort(v.begin(), v.end()); long rep = 0; for (size_t i = 1; i < v.size(); ++i) rep += v[i] == v[i - 1]; c.ev("draws", v.size()); c.req(rep < 20, "few-values", S(rep, " repeated values among ", v.size(), k ? " normal draws" : " uniform draws")); }
}
