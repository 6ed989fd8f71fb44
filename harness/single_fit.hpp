#ifndef VERIF_SINGLE_FIT_HPP
#define VERIF_SINGLE_FIT_HPP
#include "single.hpp"
using namespace mon; using namespace openml; using namespace single; using std::string;
inline Mat blobs(Rng& r, int n, int d, int k, double sep, Mat& y) { Mat C = gen::mat(r, k, d, 0) * sep, X(n, d); y.resize(n, 1); for (int i = 0; i < n; ++i) { int a = i < k ? i : r.irange(0, k - 1); y(i) = a; for (int j = 0; j < d; ++j) X(i, j) = C(a, j) + r.gauss(); } return round(X); }
inline void relabel(Rng& r, Mat& y) { auto s = r.pick(std::vector<std::vector<double>>{{0, 1, 2, 3}, {-1, 1, 5, 7}, {3, 1, 2, 0}, {2.5, -0.5, 1.25, 10}, {16777215, 16777216, 3, 1}}); for (long i = 0; i < y.size(); ++i) y(i) = s[(int)y(i)]; }
#endif
