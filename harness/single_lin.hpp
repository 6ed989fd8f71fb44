#ifndef VERIF_SINGLE_LIN_HPP
#define VERIF_SINGLE_LIN_HPP
#include "single.hpp"
using namespace mon; using namespace openml; using namespace single; using std::string;
struct D { Mat X, y, T; };
static D draw(Ctx& c, int classes) {
    Rng& r = c.rng; D q; int d = r.irange(1, 5), n = r.irange(std::max(6, 2 * d + 2), 40); q.X = features(r, n, d, classes > 0); q.T = features(r, r.irange(1, 8), d); q.y.resize(n, 1); Vec w(d); for (int j = 0; j < d; ++j) w(j) = r.gauss() / std::max(1e-3, q.X.col(j).cwiseAbs().mean());
    for (int i = 0; i < n; ++i) { double z = q.X.row(i).dot(w) + 0.3 * r.gauss(); q.y(i) = classes == 0 ? z : i < classes ? i : std::min(classes - 1, std::max(0, (int)std::floor(z / 2 + classes / 2.0))); } q.y = round(q.y); c.mixm(q.X); c.mixm(q.y); c.dump << "X=" << show(q.X) << " y=" << show(q.y) << " T=" << show(q.T) << " "; return q;
}
#endif
