// Input generators shared by the harnesses.
#ifndef VERIF_GEN_HPP
#define VERIF_GEN_HPP
#include "mon.hpp"
#include <src/prereqs.hpp>
#include <src/core.hpp>
#include <sstream>
#include <unistd.h>

using Mat = Eigen::Matrix<double, Eigen::Dynamic, Eigen::Dynamic>;
using Vec = Eigen::Matrix<double, Eigen::Dynamic, 1>;
using RVec = Eigen::Matrix<double, 1, Eigen::Dynamic>;
using IVec = Eigen::Vector<Eigen::Index, Eigen::Dynamic>;
using IMat = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, Eigen::Dynamic>;

namespace gen {
using mon::Rng;

enum Kind { GAUSS, GRID, WIDE, OFFSET, TIES, MIXED, NKIND };
inline const char* kind_name(int k) {
    static const char* n[] = {"gauss", "grid", "wide", "offset", "ties", "mixed"};
    return n[k];
}
inline double value(Rng& r, int kind) {
    switch (kind) {
        case GAUSS: return r.gauss();
        case GRID: return r.irange(-3, 3);
        case WIDE: return r.gauss() * std::pow(10.0, r.irange(-4, 4));
        case OFFSET: return 1000.0 + r.gauss();
        case TIES: return r.irange(0, 1);
        default: return r.coin(0.2) ? r.irange(-2, 2) : r.gauss() * 3;
    }
}
template <class M = Mat> M mat(Rng& r, int n, int d, int kind) {
    using T = typename M::Scalar;
    M m(n, d);
    for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) m(i, j) = (T)value(r, kind);
    return m;
}
// a data set: kinds, sometimes duplicated rows, a constant column, columns of different scales
template <class M = Mat> M data(Rng& r, int n, int d, int* kind_out = nullptr) {
    int kind = r.irange(0, NKIND - 1);
    if (kind_out) *kind_out = kind;
    M m = mat<M>(r, n, d, kind);
    if (n > 2 && r.coin(0.2)) for (int k = 0; k < n / 3; ++k) m.row(r.irange(0, n - 1)) = m.row(r.irange(0, n - 1)).eval();
    if (r.coin(0.1)) m.col(r.irange(0, d - 1)).setConstant((typename M::Scalar)r.irange(-2, 2));
    if (r.coin(0.15)) for (int j = 0; j < d; ++j) m.col(j) *= (typename M::Scalar)std::pow(2.0, r.irange(-6, 6));
    return m;
}
// values that differ only far behind the point: base + k * unit, all exactly representable
inline double near_unit(Rng& r) { return std::ldexp(1.0, -r.irange(20, 46)); }
template <class M = Mat> M near_mat(Rng& r, int n, int d, double unit, double base, int spread = 60) {
    M m(n, d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) m(i, j) = base + unit * r.irange(-spread, spread); return m;
}
inline Vec vec(Rng& r, int n, int kind) { return mat<Mat>(r, n, 1, kind); }

// well conditioned full-column-rank design: singular values in [lo, hi]
inline Mat orth(Rng& r, int n, int k) {     // n x k, orthonormal columns (modified Gram-Schmidt, twice)
    Mat q(n, k);
    for (int j = 0; j < k; ++j) {
        Vec v(n);
        double nv = 0;
        do {
            for (int i = 0; i < n; ++i) v(i) = r.gauss();
            for (int rep = 0; rep < 2; ++rep)
                for (int l = 0; l < j; ++l) {
                    double dp = 0;
                    for (int i = 0; i < n; ++i) dp += q(i, l) * v(i);
                    for (int i = 0; i < n; ++i) v(i) -= dp * q(i, l);
                }
            nv = 0;
            for (int i = 0; i < n; ++i) nv += v(i) * v(i);
            nv = std::sqrt(nv);
        } while (nv < 1e-3);
        for (int i = 0; i < n; ++i) q(i, j) = v(i) / nv;
    }
    return q;
}
inline Mat with_singular(Rng& r, int n, int d, const std::vector<double>& s) {   // U diag(s) V'
    int k = (int)s.size();
    Mat u = orth(r, n, k), v = orth(r, d, k);
    Mat a = Mat::Zero(n, d);
    for (int l = 0; l < k; ++l) for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) a(i, j) += u(i, l) * s[l] * v(j, l);
    return a;
}
inline std::string tmpfile(mon::Ctx& c) {   // in the scratch directory the runner made (the cwd)
    return mon::S("f", getpid(), "_", c.index, ".txt");
}
} // namespace gen

// naive reference linear algebra in long double
namespace ref {
using LM = std::vector<std::vector<long double>>;
inline LM of(const Mat& m) {
    LM a(m.rows(), std::vector<long double>(m.cols()));
    for (long i = 0; i < m.rows(); ++i) for (long j = 0; j < m.cols(); ++j) a[i][j] = m(i, j);
    return a;
}
template <class A, class B> Mat mul(const A& a, const B& b) {
    Mat c(a.rows(), b.cols());
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < b.cols(); ++j) {
        long double s = 0;
        for (long k = 0; k < a.cols(); ++k) s += (long double)a(i, k) * b(k, j);
        c(i, j) = (double)s;
    }
    return c;
}
template <class A> Mat tr(const A& a) {
    Mat t(a.cols(), a.rows());
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j) t(j, i) = a(i, j);
    return t;
}
template <class A> double maxabs(const A& a) {
    double m = 0;
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j) {
        double v = std::fabs((double)a(i, j));
        if (!(v <= m)) m = v;          // NaN propagates
    }
    return m;
}
template <class A, class B> double maxdiff(const A& a, const B& b) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return INFINITY;
    double m = 0;
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j) {
        double v = std::fabs((double)a(i, j) - (double)b(i, j));
        if (!(v <= m)) m = std::isnan(v) ? INFINITY : v;
    }
    return m;
}
// solve a x = b, gaussian elimination with partial pivoting in long double; returns log|det| and its sign too
inline std::vector<long double> solve(LM a, std::vector<long double> b, long double* logdet = nullptr, int* sign = nullptr) {
    int n = (int)a.size();
    long double ld = 0; int sg = 1;
    for (int k = 0; k < n; ++k) {
        int p = k;
        for (int i = k + 1; i < n; ++i) if (fabsl(a[i][k]) > fabsl(a[p][k])) p = i;
        if (p != k) { std::swap(a[p], a[k]); if (!b.empty()) std::swap(b[p], b[k]); sg = -sg; }
        long double piv = a[k][k];
        if (piv < 0) sg = -sg;
        ld += logl(fabsl(piv));
        for (int i = k + 1; i < n; ++i) {
            long double f = a[i][k] / piv;
            if (f == 0) continue;
            for (int j = k; j < n; ++j) a[i][j] -= f * a[k][j];
            if (!b.empty()) b[i] -= f * b[k];
        }
    }
    if (!b.empty())
        for (int i = n - 1; i >= 0; --i) {
            for (int j = i + 1; j < n; ++j) b[i] -= a[i][j] * b[j];
            b[i] /= a[i][i];
        }
    if (logdet) *logdet = ld;
    if (sign) *sign = sg;
    return b;
}
// eigenvalues/vectors of a symmetric matrix, cyclic Jacobi in long double; descending order
inline void symeig(LM a, std::vector<long double>& w, LM& v) {
    int n = (int)a.size();
    v.assign(n, std::vector<long double>(n, 0));
    for (int i = 0; i < n; ++i) v[i][i] = 1;
    for (int sweep = 0; sweep < 60; ++sweep) {
        long double off = 0, dia = 0;
        for (int i = 0; i < n; ++i) { dia += a[i][i] * a[i][i]; for (int j = i + 1; j < n; ++j) off += a[i][j] * a[i][j]; }
        if (off <= 1e-36L * (dia + 1e-300L)) break;
        for (int p = 0; p < n; ++p) for (int q = p + 1; q < n; ++q) {
            if (a[p][q] == 0) continue;
            long double th = (a[q][q] - a[p][p]) / (2 * a[p][q]);
            long double t = (th >= 0 ? 1 : -1) / (fabsl(th) + sqrtl(th * th + 1));
            long double cs = 1 / sqrtl(t * t + 1), sn = t * cs;
            for (int k = 0; k < n; ++k) { long double x = a[k][p], y = a[k][q]; a[k][p] = cs * x - sn * y; a[k][q] = sn * x + cs * y; }
            for (int k = 0; k < n; ++k) { long double x = a[p][k], y = a[q][k]; a[p][k] = cs * x - sn * y; a[q][k] = sn * x + cs * y; }
            for (int k = 0; k < n; ++k) { long double x = v[k][p], y = v[k][q]; v[k][p] = cs * x - sn * y; v[k][q] = sn * x + cs * y; }
        }
    }
    std::vector<int> o(n);
    for (int i = 0; i < n; ++i) o[i] = i;
    std::sort(o.begin(), o.end(), [&](int x, int y) { return a[x][x] > a[y][y]; });
    w.resize(n);
    LM u = v;
    for (int i = 0; i < n; ++i) { w[i] = a[o[i]][o[i]]; for (int k = 0; k < n; ++k) v[k][i] = u[k][o[i]]; }
}
} // namespace ref
#endif
