// transaction encoder: membership matrix over the sorted items
#include "gen.hpp"
using namespace mon;
template <class T> static void enc(Ctx& c) {
    Rng& r = c.rng; int n = mon::dim(r, 1, 25, 400), items = mon::dim(r, 1, 15, 300); if (r.coin(0.01)) items = (int)std::exp(r.uni(4, 9));
    std::vector<std::vector<T>> X(n); std::set<T> all;
    // close together, far apart, below zero (int), beyond 2^32 (size_t), equal in their low 32 bits
    int base = 0; T step = items > 10 ? 1001 : 1, off = 0;
    if (r.coin(0.4)) { if (std::is_same<T, int>::value) { base = r.irange(-items, 0); step = (T)r.irange(1, 100000); off = (T)r.irange(-1000, 1000); } else { step = (T)(1ull << r.irange(0, 50)) ; if (r.coin()) off = (T)(r.next() >> r.irange(1, 40)); } c.ev("wide items"); }
    for (auto& row : X) { row.resize(r.irange(0, 10)); if (r.coin(0.002)) { row.resize((int)std::exp(r.uni(4, c.thorough ? 12 : 9))); c.ev("transactions of more than 50 entries"); } for (auto& e : row) { e = (T)((T)(base + r.irange(0, items)) * step + off); all.insert(e); } }
    const auto X0 = X; for (auto& row : X) c.mixv(row); c.nontrivial = n > 1; c.dump << "X=" << showvv(X);
    openml::preprocessing::TransactionEncoder<T> te;
    for (int rep = 0; rep < 2; ++rep) {
        Eigen::SparseMatrix<T, Eigen::RowMajor> m = te.fit_transform(X);
        std::vector<T> cols(all.begin(), all.end());
        if (!c.req(m.rows() == n && m.cols() == (long)cols.size(), "shape", S(m.rows(), "x", m.cols(), " want ", n, "x", cols.size()))) return;
        std::size_t total = 0;
        for (int i = 0; i < n; ++i) {
            std::set<T> s(X[i].begin(), X[i].end()); total += s.size(); std::set<T> got;
            for (typename Eigen::SparseMatrix<T, Eigen::RowMajor>::InnerIterator it(m, i); it; ++it) {
                c.req(it.col() >= 0 && it.col() < (long)cols.size() && it.value() == cols[it.col()], "value", S("row ", i, " column ", it.col(), " value ", it.value()));
                c.req(got.insert(it.value()).second, "repeated", S("row ", i, " value ", it.value()));
            }
            c.req(got == s, "membership", S("row ", i, ": ", got.size(), " items, want ", s.size()));
        }
        c.req((std::size_t)m.nonZeros() == total, "count", S(m.nonZeros(), " entries, want ", total)); c.ev("entries", total);
    }
    c.req(X == X0, "input-changed", "the transactions were changed");
}
SCENARIO(size_t_items, 600, 10000) { enc<std::size_t>(c); }
SCENARIO(int_items, 300, 5000) { enc<int>(c); }
