// Queries are row-wise, repeatable and leave model and inputs alone
#include "zoo.hpp"
using namespace mon;
static zoo::Outs pickrows(const zoo::Outs& o, const std::vector<int>& ix) { zoo::Outs v; for (auto& x : o) { Mat m(ix.size(), x.m.cols()); for (size_t i = 0; i < ix.size(); ++i) m.row(i) = x.m.row(ix[i]); v.push_back({x.name, m}); } return v; }
SCENARIO(rows, 4000, 60000) {
    Rng& r = c.rng; int id = c.index % zoo::NID; auto sp = zoo::make_spec(r, id); auto B = zoo::data(r, sp), Z = zoo::data(r, sp, B.d); auto m = sp.make(-1); const Mat X0 = B.X; const Vec y0 = B.y; c.mix(id); c.mixm(B.X); c.nontrivial = true; c.dump << sp.name << " X=" << show(B.X) << " y=" << show(B.y); c.ev("estimator " + sp.name);
    try { m->fit(B.X, B.y); } catch (const EigenAssert&) { throw; } catch (const std::exception& e) { c.ev("fits that threw"); c.req(samem(B.X, X0) && samem(B.y, y0), sp.name + "/fit-changes-data", ""); return; }
    c.req(samem(B.X, X0) && samem(B.y, y0), sp.name + "/fit-changes-data", "");
    int n = mon::dim(r, 1, 24, 600); Mat T(n, B.d); for (int i = 0; i < n; ++i) { T.row(i) = r.coin(0.3) ? B.X.row(r.irange(0, B.X.rows() - 1)) : Z.X.row(r.irange(0, Z.X.rows() - 1)); if (sp.data != zoo::COUNTS && r.coin(0.7)) for (int j = 0; j < B.d; ++j) T(i, j) += 0.05 * r.gauss(); }
    if (r.coin(0.3) && n > 2) T.row(n - 1) = T.row(0); if (sp.data != zoo::COUNTS && r.coin(0.2)) T.row(r.irange(0, n - 1)) *= 40; const Mat T0 = T; c.dump << " T=" << show(T);
    auto st = m->state(false); auto full = m->query(T); c.ev("queries"); c.req(samem(T, T0), sp.name + "/query-changes-rows", ""); for (auto& o : full) if (!c.req(o.m.rows() == n, sp.name + "/shape", S(o.name, " has ", o.m.rows(), " rows of ", n))) return;
    std::string d = zoo::diff(full, m->query(T), 0); c.req(d.empty(), sp.name + "/not-repeatable", d); const double tol = 1e-9;
    for (int k = 0; k < 3; ++k) { int i = r.irange(0, n - 1); d = zoo::diff(pickrows(full, {i}), m->query(T.row(i)), tol); c.ev("rows alone"); c.req(d.empty(), sp.name + "/row-alone", S("row ", i, " of ", n, ": ", d)); }
    std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; r.shuffle(p.begin(), p.end()); { Mat P(n, B.d); for (int i = 0; i < n; ++i) P.row(i) = T.row(p[i]); d = zoo::diff(pickrows(full, p), m->query(P), tol); c.ev("permuted batches"); c.req(d.empty(), sp.name + "/permuted", d); }
    { std::vector<int> w(r.irange(1, 2 * n)); for (auto& x : w) x = r.irange(0, n - 1); Mat P(w.size(), B.d); for (size_t i = 0; i < w.size(); ++i) P.row(i) = T.row(w[i]); d = zoo::diff(pickrows(full, w), m->query(P), tol); c.ev("resampled batches"); c.req(d.empty(), sp.name + "/resampled", d); }
    {   // the batch is overwritten where it lies
        Mat P = T; m->query(P); std::vector<int> w(n); for (auto& x : w) x = r.irange(0, n - 1); if (r.coin()) w = p; for (int i = 0; i < n; ++i) P.row(i) = T.row(w[i]); d = zoo::diff(pickrows(full, w), m->query(P), tol); c.ev("batches overwritten in place"); c.req(d.empty(), sp.name + "/overwritten", d); int i = r.irange(0, n - 1), k = r.irange(0, n - 1); P.row(i) = T.row(k); w[i] = k; d = zoo::diff(pickrows(full, w), m->query(P), tol); c.req(d.empty(), sp.name + "/overwritten", d);
    }
    d = zoo::diff(st, m->state(true), 1e-12); c.req(d.empty(), sp.name + "/query-changes-model", d); d = zoo::diff(full, m->query(T), 0); c.req(d.empty(), sp.name + "/not-repeatable", d); c.req(samem(B.X, X0), sp.name + "/query-changes-data", "");
}
// a batch of more rows than a 16-bit counter holds
SCENARIO(crowds, zoo::NID, 4 * zoo::NID) {
    Rng& r = c.rng; int id = c.index % zoo::NID; auto sp = zoo::make_spec(r, id); auto B = zoo::data(r, sp), Z = zoo::data(r, sp, B.d); auto m = sp.make(-1); c.mix(id); c.mixm(B.X); c.nontrivial = true; c.dump << sp.name << " X=" << show(B.X) << " y=" << show(B.y);
    try { m->fit(B.X, B.y); } catch (const EigenAssert&) { throw; } catch (const std::exception& e) { c.ev("fits that threw"); return; }
    int n = std::min<int>(40, Z.X.rows()), N = r.irange(65000, 70000); std::vector<int> w(N); for (auto& x : w) x = r.irange(0, n - 1); Mat T = Z.X.topRows(n), P(N, B.d); for (int i = 0; i < N; ++i) P.row(i) = T.row(w[i]);
    std::string d = zoo::diff(pickrows(m->query(T), w), m->query(P), 1e-9); c.ev("batches of more than 65000 rows"); c.req(d.empty(), sp.name + "/crowd", d);
}
