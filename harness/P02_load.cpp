#include "gen.hpp"
#include <cstdio>
#include <fstream>
using namespace mon;
using openml::data::loadtxt;

// the file the library is given, and what it must read from it
struct File { std::string text; std::vector<std::vector<double>> rows; };

static std::string num(Rng& r, double v) {
    char b[64];
    switch (r.irange(0, 4)) {
        case 0: snprintf(b, sizeof b, "%.17g", v); break;
        case 1: snprintf(b, sizeof b, "%.17e", v); break;
        case 2: snprintf(b, sizeof b, "%+.17g", v); break;
        case 3: snprintf(b, sizeof b, "%.20g", v); break;
        default: snprintf(b, sizeof b, "%.17E", v); break;
    }
    return b;
}
static double val(Rng& r) {
    switch (r.irange(0, 5)) {
        case 0: return r.irange(-5, 5);
        case 1: return r.gauss();
        case 2: return r.gauss() * std::pow(10., r.irange(-200, 200));
        case 3: return -0.0;
        case 4: return r.irange(-1000000, 1000000) / 8.0;
        default: return r.irange(0, 1);
    }
}
static File make(Rng& r, int n, int d, Ctx& c) {
    File f;
    const char* seps[] = {" ", "\t", "  ", " \t ", "      "};
    const std::string nl = r.coin(0.15) ? "\r\n" : "\n";
    bool blanks = r.coin(0.4), lead = r.coin(0.3), trail = r.coin(0.3), last = r.coin(0.7);
    if (nl.size() == 2) c.ev("CRLF file");
    if (blanks) c.ev("file with blank lines");
    if (!last) c.ev("no newline at the end");
    auto blank = [&] { f.text += r.coin() ? "" : r.coin() ? "   " : "\t "; f.text += nl; };
    if (blanks && r.coin()) blank();
    for (int i = 0; i < n; ++i) {
        std::vector<double> row;
        if (lead && r.coin()) f.text += seps[r.irange(0, 4)];
        for (int j = 0; j < d; ++j) {
            double v = val(r);
            row.push_back(v);
            if (j) f.text += seps[r.irange(0, 4)];
            f.text += num(r, v);
        }
        if (trail && r.coin()) f.text += seps[r.irange(0, 4)];
        f.rows.push_back(row);
        if (i + 1 < n || last) f.text += nl;
        if (blanks && i + 1 < n) while (r.coin(0.3)) blank();
    }
    if (blanks && last) while (r.coin(0.5)) blank();
    return f;
}
static std::string put(Ctx& c, const std::string& text) {
    std::string p = gen::tmpfile(c);
    FILE* f = fopen(p.c_str(), "wb");
    fwrite(text.data(), 1, text.size(), f);
    fclose(f);
    return p;
}

SCENARIO(eigen_table, 500, 8000) {
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 40, 1500), d = mon::dim(r, 2, 9, 80);
    File f = make(r, n, d, c);
    c.dump << "text=" << f.text;
    c.mix(n); c.mix(d); for (auto& row : f.rows) c.mixv(row);
    std::string p = put(c, f.text);
    Mat X = gen::mat(r, r.irange(0, 3), r.irange(0, 3), 0);     // earlier contents must not survive
    Vec y = gen::vec(r, r.irange(0, 3), 0);
    loadtxt<Mat, Vec>(p, X, y);
    remove(p.c_str());
    c.ev("rows loaded", n);
    c.nontrivial = n > 1;
    if (!c.req(X.rows() == n && X.cols() == d - 1 && y.rows() == n, "shape", S("X ", X.rows(), "x", X.cols(), " y ", y.rows(), " want ", n, " rows of ", d))) return;
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j + 1 < d; ++j) if (X(i, j) != f.rows[i][j]) { c.fail("value", S("X(", i, ",", j, ")=", X(i, j), " want ", f.rows[i][j])); return; }
        if (y(i) != f.rows[i][d - 1]) { c.fail("label", S("y(", i, ")=", y(i), " want ", f.rows[i][d - 1])); return; }
    }
}
SCENARIO(vector_table, 400, 6000) {
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 40, 1500), d = mon::dim(r, 2, 9, 80);
    File f = make(r, n, d, c);
    c.dump << "text=" << f.text;
    c.mix(n); for (auto& row : f.rows) c.mixv(row);
    std::string p = put(c, f.text);
    std::vector<std::vector<double>> X(r.irange(0, 4), std::vector<double>(r.irange(0, 4), 7.0));
    std::vector<double> y(r.irange(0, 4), 9.0);
    loadtxt<double>(p, X, y);
    remove(p.c_str());
    c.ev("rows loaded", n);
    c.nontrivial = n > 1;
    if (!c.req((int)X.size() == n && (int)y.size() == n, "shape", S(X.size(), " rows, ", y.size(), " labels, want ", n))) return;
    for (int i = 0; i < n; ++i) {
        std::vector<double> want(f.rows[i].begin(), f.rows[i].end() - 1);
        if (!c.req(X[i] == want, "value", S("row ", i, " ", showv(X[i]), " want ", showv(want)))) return;
        if (!c.req(y[i] == f.rows[i].back(), "label", S("y[", i, "]=", y[i], " want ", f.rows[i].back()))) return;
    }
}
// transactions: rows of any length
// lines of many thousand characters
SCENARIO(many_lines, 2, 20) {      // more lines than a 16-bit counter holds
    Rng& r = c.rng; int n = r.irange(66000, 80000), d = r.irange(2, 3); std::string t; std::vector<double> v((std::size_t)n * d); for (int i = 0; i < n; ++i) for (int j = 0; j < d; ++j) { v[(std::size_t)i * d + j] = r.irange(-4000, 4000) / 8.0; t += S(v[(std::size_t)i * d + j], j + 1 < d ? " " : "\n"); }
    c.mixv(v); c.nontrivial = true; c.dump << n << " lines of " << d << " numbers"; std::string p = put(c, t); Mat X; Vec y; loadtxt<Mat, Vec>(p, X, y); std::vector<std::vector<double>> vx, all; std::vector<double> vy; loadtxt<double>(p, vx, vy); loadtxt<double>(p, all); remove(p.c_str()); c.ev("lines of the longest files", n);
    if (!c.req(X.rows() == n && X.cols() == d - 1 && y.size() == n && (int)vx.size() == n && (int)vy.size() == n && (int)all.size() == n, "shape", S("X ", X.rows(), " rows, lists of ", vx.size(), ", ", all.size(), ", want ", n))) return;
    for (int i = 0; i < n; ++i) { bool ok = y(i) == v[(std::size_t)i * d + d - 1] && vy[i] == y(i) && (int)vx[i].size() == d - 1 && (int)all[i].size() == d; for (int j = 0; ok && j < d; ++j) { double w = v[(std::size_t)i * d + j]; ok = all[i][j] == w && (j == d - 1 || (X(i, j) == w && vx[i][j] == w)); } if (!c.req(ok, "value", S("line ", i))) return; }
}
SCENARIO(long_lines, 10, 120) {
    Rng& r = c.rng; int n = r.irange(1, 4), d = (int)std::lround(std::exp(r.uni(std::log(300.), std::log(c.thorough ? 60000. : 9000.))));
    File f; std::vector<double> row(d);
    for (int i = 0; i < n; ++i) { std::string line; for (int j = 0; j < d; ++j) { row[j] = val(r); line += (j ? " " : "") + num(r, row[j]); } f.rows.push_back(row); f.text += line + "\n"; }
    c.mix(n); for (auto& q : f.rows) c.mixv(q); c.nontrivial = true; c.dump << n << " lines of " << d << " numbers, " << f.text.size() << " characters"; c.ev("characters of the longest files", f.text.size());
    std::string p = put(c, f.text); Mat X; Vec y; loadtxt<Mat, Vec>(p, X, y); std::vector<std::vector<double>> vx; std::vector<double> vy; loadtxt<double>(p, vx, vy); remove(p.c_str());
    if (!c.req(X.rows() == n && X.cols() == d - 1 && y.size() == n && (int)vx.size() == n && (int)vy.size() == n, "shape", S("X ", X.rows(), "x", X.cols(), " y ", y.size(), " lists ", vx.size(), ",", vy.size(), " want ", n, " rows of ", d))) return;
    for (int i = 0; i < n; ++i) {
        if (!c.req((int)vx[i].size() == d - 1 && vy[i] == f.rows[i][d - 1] && y(i) == f.rows[i][d - 1], "label", S("row ", i, ": ", y(i), ", ", vy[i], " want ", f.rows[i][d - 1]))) return;
        for (int j = 0; j + 1 < d; ++j) if (!c.req(X(i, j) == f.rows[i][j] && vx[i][j] == f.rows[i][j], "value", S("(", i, ",", j, "): ", X(i, j), ", ", vx[i][j], " want ", f.rows[i][j]))) return;
    }
    std::vector<std::vector<std::size_t>> want(r.irange(1, 3)), got; std::string t;
    for (auto& w : want) { w.resize(r.irange(1, d)); for (size_t j = 0; j < w.size(); ++j) { w[j] = r.irange(0, 1 << r.irange(1, 30)); t += (j ? " " : "") + std::to_string(w[j]); } t += "\n"; }
    std::string q = put(c, t); loadtxt<std::size_t>(q, got); remove(q.c_str()); c.req(got == want, "transaction", S(got.size(), " transactions, want ", want.size(), ", the first of ", want[0].size(), " items"));
}
SCENARIO(transactions, 300, 5000) {
    Rng& r = c.rng;
    int n = mon::dim(r, 1, 30, 1500);
    std::string t; std::vector<std::vector<std::size_t>> want;
    for (int i = 0; i < n; ++i) {
        std::vector<std::size_t> row(mon::dim(r, 1, 8, 60));
        for (auto& v : row) v = r.coin(0.1) ? (std::size_t)r.next() >> r.irange(0, 40) : r.irange(0, 50);
        for (size_t j = 0; j < row.size(); ++j) t += (j ? r.coin() ? " " : "\t" : "") + std::to_string(row[j]);
        t += "\n";
        want.push_back(row);
    }
    c.dump << "text=" << t;
    for (auto& w : want) c.mixv(w);
    std::string p = put(c, t);
    std::vector<std::vector<std::size_t>> X;
    loadtxt<std::size_t>(p, X);
    remove(p.c_str());
    c.ev("transactions loaded", n);
    c.nontrivial = n > 1;
    c.req(X == want, "value", S(showvv(X), " want ", showvv(want)));
}
SCENARIO(bad_files, 300, 4000) {
    Rng& r = c.rng;
    int what = r.irange(0, 2);
    Mat X; Vec y; std::vector<std::vector<double>> vx; std::vector<double> vy; std::vector<std::vector<std::size_t>> tx;
    c.nontrivial = true;
    if (what == 0) {           // missing file
        std::string p = S("missing_", r.irange(0, 1000000), "/f.txt");
        c.mix(r.next());
        c.ev("missing file");
        c.dump << "missing " << p;
        c.req(throws([&] { loadtxt<Mat, Vec>(p, X, y); }) && throws([&] { loadtxt<double>(p, vx, vy); }) && throws([&] { loadtxt<std::size_t>(p, tx); }),
              "missing-accepted", "a file that does not exist was loaded without an error");
        return;
    }
    if (what == 1) {           // no numbers at all
        std::string t;
        for (int k = r.irange(0, 4); k > 0; --k) t += r.coin() ? "\n" : "  \n";
        c.ev("empty file"); c.mix(t.size()); c.dump << "empty, " << t.size() << " bytes";
        std::string p = put(c, t);
        bool a = throws([&] { loadtxt<Mat, Vec>(p, X, y); }), b = throws([&] { loadtxt<double>(p, vx, vy); });
        remove(p.c_str());
        c.req(a && b, "empty-accepted", "a file without data was loaded without an error");
        return;
    }
    // ragged: one row has another number of fields
    int n = r.irange(2, 12), d = r.irange(2, 6), bad = r.irange(0, n - 1), len;
    do len = r.irange(1, 8); while (len == d);
    std::string t;
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < (i == bad ? len : d); ++j) t += (j ? " " : "") + num(r, r.irange(-9, 9));
        t += "\n";
    }
    c.dump << "ragged: " << t; c.mix(n * 100 + d * 10 + len); c.mix(bad);
    c.ev("ragged file");
    std::string p = put(c, t);
    bool a = throws([&] { loadtxt<Mat, Vec>(p, X, y); }), b = throws([&] { loadtxt<double>(p, vx, vy); });
    remove(p.c_str());
    c.req(a && b, "ragged-accepted", "rows of different lengths were loaded as a table without an error");
}
