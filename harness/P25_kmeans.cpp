// KMeans, judged through predict: labels, Voronoi cells, Lloyd fixed points, recovery of separated clusters
#include "gen.hpp"
#include <src/methods/cluster/kmeans.hpp>
using namespace mon;
using KM = openml::cluster::KMeans<double>;
static bool labels_ok(Ctx& c, const Vec& y, int n, int k) { if (!c.req(y.size() == n, "size", show(y))) return false; for (int i = 0; i < n; ++i) if (!c.req(y(i) >= 0 && y(i) < k && y(i) == std::floor(y(i)), "label-range", S("row ", i, ": ", y(i), " with k=", k))) return false; return true; }
// whatever the centres are, cells are convex: points between two rows of one label carry that label
static void convex(Ctx& c, KM& m, const Mat& X, const Vec& y, int k) {
    Rng& r = c.rng; int n = X.rows(), d = X.cols(); std::vector<std::pair<int, int>> pr; Mat T(30, d); std::vector<double> want;
    for (int t = 0; t < 200 && (int)want.size() < 30; ++t) { int a = r.irange(0, n - 1), b = r.irange(0, n - 1); if (y(a) != y(b)) continue; double u = r.uni(0.2, 0.8); for (int j = 0; j < d; ++j) T((long)want.size(), j) = X(a, j) * u + X(b, j) * (1 - u); want.push_back(y(a)); pr.push_back({a, b}); }
    if (want.empty()) return; Mat Q = T.topRows(want.size()); Vec p = m.predict(Q); if (!labels_ok(c, p, Q.rows(), k)) return;
    double dg = 0; for (long i = 0; i < n; ++i) for (int j = 0; j < d; ++j) dg = std::max(dg, std::fabs(X(i, j)));
    for (size_t i = 0; i < want.size(); ++i) { c.ev("points between rows"); if (p(i) == want[i]) continue;      // a near-tie may fall either way: look on the way to both ends
        bool tie = true; for (double u : {1e-7, -1e-7}) { Mat Z(1, d); for (int j = 0; j < d; ++j) Z(0, j) = Q(i, j) + u * (X(pr[i].first, j) - X(pr[i].second, j)); tie = tie && m.predict(Z)(0) == p(i); } if (!tie) { c.ev("near ties"); continue; }
        bool same = true; for (int j = 0; j < d; ++j) same = same && std::fabs(X(pr[i].first, j) - X(pr[i].second, j)) <= 1e-9 * (1 + dg); if (same) continue;
        c.fail("cell-not-convex", S("rows ", pr[i].first, " and ", pr[i].second, " have label ", want[i], ", a point between them ", p(i))); return; }
}
SCENARIO(lloyd, 2000, 30000) {
    Rng& r = c.rng; int k = mon::dim(r, 1, 6, 20), n = mon::dim(r, k, 50, 700), d = mon::dim(r, 1, 5, 20); Mat X = gen::data(r, n, d); std::string init = r.coin() ? "kmeans++" : "random"; const Mat X0 = X;
    // the domain: at least k distinct rows, so that k centres can differ
    std::set<std::vector<double>> rows; for (int i = 0; i < n; ++i) { std::vector<double> v; for (int j = 0; j < d; ++j) v.push_back(X(i, j)); rows.insert(v); } if ((int)rows.size() < k) k = rows.size();
    c.mixm(X); c.mix(k); c.nontrivial = k > 1; c.dump << init << " k=" << k << " X=" << show(X); bool conv = r.coin(0.8); double sc = ref::maxabs(X);
    KM m(init, r.irange(1, 3), k, conv ? 2000 : r.irange(1, 3), conv ? 1e-300 : 1e-4); if (r.coin(0.2)) { m.fit(gen::mat(r, r.coin() ? n : n + 3, r.coin() ? d : d + 1, 0)); c.ev("refits"); } m.fit(X); c.ev("fits"); Vec y = m.predict(X); c.req(samem(X, X0), "input-changed", ""); if (!labels_ok(c, y, n, k)) return; convex(c, m, X, y, k); if (!conv) return;
    // converged: each row is nearest to the mean of its own cluster
    std::map<int, std::vector<int>> cl; for (int i = 0; i < n; ++i) cl[(int)y(i)].push_back(i); c.ev("clusters", (long)cl.size()); if ((int)cl.size() < k) c.ev("fits with an empty cluster");
    std::map<int, std::vector<long double>> mu; for (auto& q : cl) { mu[q.first].assign(d, 0); for (int j = 0; j < d; ++j) { for (int i : q.second) mu[q.first][j] += X(i, j); mu[q.first][j] /= q.second.size(); } }
    auto dist = [&](const Mat& T, int i, int q) { long double s = 0; for (int j = 0; j < d; ++j) s += (T(i, j) - mu[q][j]) * (T(i, j) - mu[q][j]); return sqrtl(s); };
    for (int i = 0; i < n; ++i) for (auto& q : mu) if (!c.req(dist(X, i, (int)y(i)) <= dist(X, i, q.first) + 1e-11 * (1 + sc), "not-a-fixed-point", S("row ", i, " has label ", y(i), " at distance ", (double)dist(X, i, (int)y(i)), " from its cluster mean, ", (double)dist(X, i, q.first), " from that of ", q.first))) return;
    Mat T = gen::mat(r, 10, d, r.irange(0, 5)); for (int i = 0; i < 10; ++i) if (r.coin(0.7)) { int a = r.irange(0, n - 1), b = r.irange(0, n - 1); T.row(i) = 0.5 * X.row(a) + 0.5 * X.row(b); } Vec p = m.predict(T); if (!labels_ok(c, p, 10, k)) return; double st = std::max(sc, ref::maxabs(T));
    for (int i = 0; i < 10; ++i) { if (!mu.count((int)p(i))) { c.req((int)cl.size() < k, "label-of-nothing", ""); continue; } c.ev("predictions"); for (auto& q : mu) if (!c.req(dist(T, i, (int)p(i)) <= dist(T, i, q.first) + 1e-11 * (1 + st), "not-nearest", S("point ", show(T.row(i).eval()), " was labelled ", p(i), ", cluster ", q.first, " is nearer"))) return; }
}
SCENARIO(every_point_its_own, 1500, 20000) {      // k distinct points: k clusters
    Rng& r = c.rng; int k = r.irange(1, 8), d = r.irange(1, 4), dup = r.irange(1, 3); Mat B(k, d); std::set<std::vector<double>> seen; for (int i = 0; i < k;) { std::vector<double> v; for (int j = 0; j < d; ++j) { B(i, j) = r.irange(-4, 4); v.push_back(B(i, j)); } if (seen.insert(v).second) ++i; else if ((int)seen.size() >= (int)std::pow(9, d)) { k = i; B.conservativeResize(k, d); break; } }
    bool pp = r.coin(0.7); if (!pp) dup = 1; int n = k * dup; Mat X(n, d); std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i % k; r.shuffle(id.begin(), id.end()); for (int i = 0; i < n; ++i) X.row(i) = B.row(id[i]); c.mixm(X); c.nontrivial = k > 1; c.dump << (pp ? "kmeans++" : "random") << " k=" << k << " X=" << show(X);
    KM m(pp ? "kmeans++" : "random", 1, k, 100, 1e-12); m.fit(X); Vec y = m.predict(X); if (!labels_ok(c, y, n, k)) return; c.ev("fits"); std::vector<int> lab(k, -1); std::set<int> used;
    for (int i = 0; i < n; ++i) { if (lab[id[i]] < 0) { lab[id[i]] = (int)y(i); c.req(used.insert((int)y(i)).second, "points-merged", S("two distinct points share label ", y(i), " with one cluster per point: ", show(y))); } else c.req(lab[id[i]] == (int)y(i), "equal-points-split", show(y)); if (!c.fails.empty()) return; }
}
SCENARIO(separated, 1000, 15000) {                // k-means++ on clusters that are a thousand spreads apart
    Rng& r = c.rng; int k = r.irange(2, 6), d = r.irange(1, 4), n = r.irange(3 * k, 60); Mat C(k, d); for (int q = 0; q < k; ++q) { for (int j = 0; j < d; ++j) C(q, j) = r.gauss(); C(q, 0) = q * 10 + r.uni(0, 3); } Mat X(n, d); std::vector<int> id(n); for (int i = 0; i < n; ++i) { id[i] = i < k ? i : r.irange(0, k - 1); for (int j = 0; j < d; ++j) X(i, j) = C(id[i], j) + 1e-6 * r.uni(-1, 1); }
    bool def = k == 3 && r.coin(); c.mixm(X); c.nontrivial = true; c.dump << "k=" << k << " X=" << show(X); KM m1, m2("kmeans++", 1, k, 100, 1e-9); KM& m = def ? m1 : m2; m.fit(X); Vec y = m.predict(X); if (!labels_ok(c, y, n, k)) return; c.ev("fits"); std::map<int, int> a, b; for (int i = 0; i < n; ++i) { if (!a.count(id[i])) a[id[i]] = (int)y(i); if (!b.count((int)y(i))) b[(int)y(i)] = id[i]; if (!c.req(a[id[i]] == (int)y(i) && b[(int)y(i)] == id[i], "clusters-not-found", S("row ", i, " of cluster ", id[i], ": labels ", show(y)))) return; }
}
// Lloyd's iteration step by step: with the draws of the initial centres repeated, fits with one, two, ... iterations and with
// various tolerances must all be explained by one choice of initial rows, the update by cluster means and the stopping rule
SCENARIO(iterations, 1500, 20000) {
    Rng& r = c.rng; int k = r.irange(1, 3), n = r.irange(k + 1, k == 3 ? 10 : 16), d = r.irange(1, 3), P = 40; Mat X = gen::mat(r, n, d, gen::GAUSS); if (r.coin(0.5)) for (int i = 0; i < n; ++i) X(i, 0) += 0.8 * i; if (r.coin(0.3)) for (int i = 0; i < n; ++i) X(i, 0) = std::exp(X(i, 0)); std::string init = r.coin() ? "kmeans++" : "random";
    if (r.coin(0.25)) { double u = std::ldexp(1.0, -r.irange(26, 31)); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) X(i, j) = r.irange(-3, 3) + u * r.irange(-8, 8); c.ev("data sets of near ties"); }
    Mat T(n + P, d); T.topRows(n) = X; for (int i = 0; i < P; ++i) { int a = r.irange(0, n - 1), b = r.irange(0, n - 1); double u = r.u(); for (int j = 0; j < d; ++j) T(n + i, j) = u * X(a, j) + (1 - u) * X(b, j) + 0.1 * r.gauss(); }
    struct Run { int iter; double tol; Vec y; }; std::vector<Run> runs; uint64_t ent = r.next(); c.mixm(X); c.mix(k); c.nontrivial = k > 1; c.dump << init << " k=" << k << " X=" << show(X);
    auto fit = [&](int it, double tol) { set_entropy(ent); KM m(init, 1, k, it, tol); m.fit(X); runs.push_back({it, tol, m.predict(T)}); c.ev("fits with the same draws"); c.dump << " [" << it << "," << tol << "]"; return labels_ok(c, runs.back().y, n + P, k); };
    for (int s = 1; s <= 5; ++s) if (!fit(s, 1e-300)) return; for (int t = 0; t < 6; ++t) if (!fit(r.coin(0.7) ? 50 : r.irange(1, 6), std::pow(10, r.uni(-3, 1)))) return;
    std::vector<int> id(n); for (int i = 0; i < n; ++i) id[i] = i; std::vector<std::vector<int>> cand; for (int a = 0; a < n; ++a) { if (k == 1) cand.push_back({a}); else for (int b = 0; b < n; ++b) if (b != a) { if (k == 2) cand.push_back({a, b}); else for (int e = 0; e < n; ++e) if (e != a && e != b) cand.push_back({a, b, e}); } }
    bool explained = false; int steps = 0;
    for (auto& q : cand) {
        std::vector<std::vector<std::vector<long double>>> cs(1); std::vector<long double> shift(1, INFINITY); for (int i : q) { std::vector<long double> v; for (int j = 0; j < d; ++j) v.push_back(X(i, j)); cs[0].push_back(v); }
        bool amb = false; auto near = [&](const std::vector<std::vector<long double>>& ce, const Mat& M, int i, std::set<int>& ok) { std::vector<long double> e; long double b = INFINITY; for (auto& v : ce) { long double z = 0; for (int j = 0; j < d; ++j) z += (M(i, j) - v[j]) * (M(i, j) - v[j]); e.push_back(sqrtl(z)); b = std::min(b, e.back()); } for (int j = 0; j < k; ++j) if (e[j] <= b + 1e-11) ok.insert(j); };
        // the observed trajectory decides exact ties; here a tie just makes the candidate count as explaining
        auto step = [&] { auto nx = cs.back(); std::vector<std::vector<int>> g(k); for (int i = 0; i < n; ++i) { std::set<int> ok; near(cs.back(), X, i, ok); if (ok.size() > 1) amb = true; g[*ok.begin()].push_back(i); } long double sh = 0; for (int j = 0; j < k; ++j) if (!g[j].empty()) { long double z = 0; for (int f = 0; f < d; ++f) { long double m = 0; for (int i : g[j]) m += X(i, f); m /= g[j].size(); z += (m - nx[j][f]) * (m - nx[j][f]); nx[j][f] = m; } sh += sqrtl(z); } cs.push_back(nx); shift.push_back(sh); };
        bool ok = true;
        for (auto& u : runs) { int s = 0; bool stop = false; while (!stop && s < u.iter) { ++s; while ((int)cs.size() <= s && !amb) step(); if (amb) break; if (fabsl(shift[s] - u.tol) <= 1e-9L * (1 + u.tol) && u.tol > 1e-200) { amb = true; break; } stop = shift[s] < u.tol || shift[s] == 0; } if (amb) break;
            for (int i = 0; i < n + P && ok; ++i) { std::set<int> al; near(cs[s], T, i, al); ok = al.count((int)u.y(i)); } if (!ok) break; steps = std::max(steps, s); }
        if (amb) { c.ev("trajectories with a tie"); explained = true; break; } if (ok) { explained = true; break; }
    }
    c.ev("trajectories explained", explained); c.req(explained, "not-lloyd", S("no choice of ", k, " initial rows explains the labels after 1, 2, ... iterations: ", [&] { std::string o; for (auto& u : runs) o += S("[", u.iter, " ", u.tol, "] ", show(u.y.head(n).transpose()), " "); return o; }()));
}
// k-means++ seeding: the first centre is any row, every further one the best of 2 + floor(ln k) rows drawn with probability
// proportional to the squared distance from the nearest centre so far; the centres of a fit without iterations show in its cells
SCENARIO(seeding, 24, 400) {
    Rng& r = c.rng; int k = r.irange(2, 4), n = r.irange(k + 1, 6), L = 2 + (int)std::log((double)k), N = 2500; std::vector<double> x(n); double t = r.uni(-5, 5); for (auto& v : x) { v = t; t += std::exp(r.uni(-1, 2)); } r.shuffle(x.begin(), x.end()); double s = std::pow(10, r.uni(-2, 2)); for (auto& v : x) v *= s;
    Mat X(n, 1); for (int i = 0; i < n; ++i) X(i, 0) = x[i]; c.mixm(X); c.mix(k); c.nontrivial = true; c.dump << "k=" << k << " X=" << show(X);
    // exact distribution over sets of centres
    // (two rows that are each other's nearest leave the same potential: which of them is taken is rounding, so their sets share a cell)
    std::map<std::set<int>, double> p; std::map<std::set<int>, std::set<int>> up; std::function<std::set<int>(std::set<int>)> top = [&](std::set<int> a) { while (up.count(a)) a = up[a]; return a; }; std::set<std::set<int>>* under = nullptr;
    std::function<void(std::set<int>, double)> rec = [&](std::set<int> a, double pr) {
        if ((int)a.size() == k) { p[a] += pr; if (under) under->insert(a); return; } std::vector<double> D(n); double pot = 0; for (int i = 0; i < n; ++i) { D[i] = INFINITY; for (int j : a) D[i] = std::min(D[i], (x[i] - x[j]) * (x[i] - x[j])); pot += D[i]; }
        // a row is chosen when it is the best of L draws: potentials are distinct, so by ranks
        std::vector<std::pair<double, int>> o; for (int i = 0; i < n; ++i) if (D[i] > 0) { double q = 0; for (int j = 0; j < n; ++j) q += std::min(D[j], (x[i] - x[j]) * (x[i] - x[j])); o.push_back({q, i}); } std::sort(o.begin(), o.end()); double rest = 1; std::set<std::set<int>> prev; auto* keep = under;
        for (size_t h = 0; h < o.size(); ++h) { auto& e = o[h]; double nx = rest - D[e.second] / pot; auto b = a; b.insert(e.second); std::set<std::set<int>> mine; under = &mine; rec(b, pr * (std::pow(rest, L) - std::pow(std::max(nx, 0.0), L))); under = keep; rest = nx; if (under) under->insert(mine.begin(), mine.end());
            if (h && o[h].first - o[h - 1].first <= 1e-9 * o[h].first) { mine.insert(prev.begin(), prev.end()); for (auto& q : mine) { auto u = top(q), v = top(*mine.begin()); if (u != v) up[u] = v; } } prev = mine; } };
    for (int i = 0; i < n; ++i) rec({i}, 1.0 / n);
    // cells of every set of centres, seen at probes that are on no boundary
    std::vector<double> z = x; std::sort(z.begin(), z.end()); std::set<double> mid; for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) mid.insert((x[i] + x[j]) / 2); std::vector<double> pb; double prev = z[0]; for (double b : mid) { if (b - prev < 1e-9 * s) return; pb.push_back((prev + b) / 2); prev = b; } pb.push_back(z.back()); Mat T((long)pb.size(), 1); for (size_t i = 0; i < pb.size(); ++i) T(i, 0) = pb[i];
    std::map<std::vector<int>, std::set<int>> sig; for (auto& e : p) { std::vector<int> ch; int last = -1; for (size_t i = 0; i < pb.size(); ++i) { int best = -1; for (int j : e.first) if (best < 0 || std::fabs(pb[i] - x[j]) < std::fabs(pb[i] - x[best])) best = j; if (best != last && i) ch.push_back(i); last = best; } if (!sig.insert({ch, e.first}).second) return; }
    std::map<std::set<int>, int> cnt; for (int q = 0; q < N; ++q) { KM m("kmeans++", 1, k, 0, 1e-4); m.fit(X); Vec y = m.predict(T); std::vector<int> ch; for (long i = 1; i < y.size(); ++i) if (y(i) != y(i - 1)) ch.push_back(i); if (!c.req(sig.count(ch), "seed-not-rows", S("cells change at probes ", showv(ch), " of ", show(T), ": no ", k, " distinct rows have these cells"))) return; ++cnt[sig[ch]]; }
    double chi = 0, pe = 0; int oc = 0, cells = 0; auto add = [&](double e, int o) { chi += (o - e) * (o - e) / e; ++cells; }; std::map<std::set<int>, double> mp; std::map<std::set<int>, int> mc; for (auto& e : p) mp[top(e.first)] += e.second; for (auto& e : cnt) mc[top(e.first)] += e.second; cnt = mc; for (auto& e : mp) { if (e.second * N < 8) { pe += e.second * N; oc += cnt[e.first]; } else add(e.second * N, cnt[e.first]); } if (pe > 0.5 || oc > 8) add(std::max(pe, 0.5), oc);
    c.ev("seedings", N); c.ev("sets of centres told apart", cells); c.req(chi <= cells + 9 * std::sqrt(2.0 * cells) + 45, "seeding", S("chi square ", chi, " over ", cells, " sets of centres, ", N, " draws"));
}
SCENARIO(many_rows, 2, 20) {      // clusters of more rows than a 16-bit counter holds
    Rng& r = c.rng; int k = r.irange(2, 3), n = r.irange(67000, 90000), d = r.irange(1, 2); std::vector<double> at{0, 1000, -3000}; Mat X(n, d); std::vector<int> g(n); for (int i = 0; i < n; ++i) { g[i] = i < k ? i : r.coin(0.995) ? 0 : r.irange(0, k - 1); for (int j = 0; j < d; ++j) X(i, j) = at[g[i]] + (j ? 0 : r.uni(-1, 1)); }
    c.mixm(X); c.nontrivial = true; c.dump << n << " rows in " << k << " far clusters"; KM m("kmeans++", 1, k, 100, 1e-6); m.fit(X); Vec y = m.predict(X); c.ev("fits"); if (!labels_ok(c, y, n, k)) return;
    for (int i = 0; i < n; ++i) for (int q = 0; q < k; ++q) if (!c.req((y(i) == y(q)) == (g[i] == q), "clusters-lost", S("row ", i, " of cluster ", g[i], " has label ", y(i), ", row ", q, " has ", y(q)))) return;
    Mat T(200, d); for (int i = 0; i < 200; ++i) T.row(i).setConstant(r.uni(-4000, 2000)); Vec p = m.predict(T); for (int i = 0; i < 200; ++i) { std::vector<std::pair<double, int>> s; for (int q = 0; q < k; ++q) { Mat z = T.row(i); z.array() -= at[q]; s.push_back({z.norm(), q}); } std::sort(s.begin(), s.end()); if (s[1].first - s[0].first > 10) c.req(p(i) == y(s[0].second), "not-nearest", S("point ", T(i, 0), " label ", p(i))); }
}
