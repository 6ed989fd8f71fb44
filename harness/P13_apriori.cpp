// Apriori: its rules are exactly those of exhaustive enumeration
#include "gen.hpp"
#include <cctype>
#include <iostream>
#include <sstream>
#include <src/methods/rule_model/apriori.hpp>
using namespace mon;
using T = std::size_t; using Set = std::vector<T>;
using Rule = std::tuple<Set, Set, double>;
static std::vector<Set> transactions(Rng& r) {
    int n = mon::dim(r, 1, 25, 250), items = r.irange(2, 9), big = r.irange(1, 7); if (r.coin(0.0008)) { n = r.irange(65000, 75000); items = big = 3; } T mul = r.coin(0.2) ? 100003 : 1, off = r.irange(0, 3);
    std::vector<double> p(items); for (auto& e : p) e = r.u();
    std::vector<Set> X(n); double dens = r.uni(0.4, 1.6);
    for (auto& row : X) { for (int i = 0; i < items && (int)row.size() < big; ++i) if (r.u() < p[i] * dens) row.push_back((i + off) * mul); if (row.empty()) row.push_back(off * mul);
        if (r.coin(0.3)) r.shuffle(row.begin(), row.end()); if (r.coin(0.15)) row.push_back(row[r.irange(0, row.size() - 1)]); if (r.coin(0.03)) { for (int k = r.irange(2, 90); k; --k) row.push_back(row[r.irange(0, row.size() - 1)]); r.shuffle(row.begin(), row.end()); } }
    return X;
}
// nullptr: no single item is frequent
static bool oracle(const std::vector<Set>& X, std::size_t sup, double conf, std::map<std::pair<Set, Set>, double>& out, int* nfreq) {
    std::map<Set, std::size_t> cnt;
    for (auto& row : X) { std::set<T> s(row.begin(), row.end()); Set v(s.begin(), s.end()); for (unsigned m = 1; m < (1u << v.size()); ++m) { Set q; for (size_t i = 0; i < v.size(); ++i) if (m >> i & 1) q.push_back(v[i]); cnt[q]++; } }
    bool any = false; *nfreq = 0; out.clear();
    for (auto& kv : cnt) if (kv.second >= sup) { ++*nfreq; any = any || kv.first.size() == 1; }
    for (auto& kv : cnt) if (kv.second >= sup && kv.first.size() > 1) {
        const Set& z = kv.first;
        for (unsigned m = 1; m + 1 < (1u << z.size()); ++m) { Set a, b; for (size_t i = 0; i < z.size(); ++i) (m >> i & 1 ? a : b).push_back(z[i]); double cf = (double)kv.second / (double)cnt[a]; if (cf >= conf) out[{a, b}] = cf; }
    }
    return any;
}
SCENARIO(rules, 1200, 15000) {
    Rng& r = c.rng; auto X = transactions(r); int n = X.size();
    std::size_t sup = r.irange(1, std::max(1, n / 2)); if (r.coin(0.05)) sup = n;
    double ms = (sup + 0.5) / n, conf = r.coin(0.2) ? 0.5 : r.coin(0.2) ? 1.0 : r.coin(0.1) ? 0.0 : r.uni(0.05, 0.99);
    if (r.coin(0.3)) { int b = r.irange(1, std::max(2, n)), a = r.irange(1, b); conf = (double)a / b; int w = r.irange(0, 3); if (w == 1) conf = std::nextafter(conf, 2.0); if (w == 2) conf = std::nextafter(conf, 0.0); c.ev("confidence limits on a ratio of counts"); }
    for (auto& row : X) c.mixv(row); c.mixd(ms); c.mixd(conf); c.nontrivial = n > 2;
    c.dump << "min_support=" << ms << " (" << sup << " of " << n << ") min_confidence=" << conf << " X=" << showvv(X);
    openml::rule_model::Apriori<T> ap(ms, conf);
    int runs = r.coin(0.25) ? 2 : 1;
    for (int run = 0; run < runs; ++run) {
        if (run) { X = transactions(r); n = X.size(); sup = (std::size_t)(n * ms); if (sup < 1) return; c.dump << " then X=" << showvv(X); c.ev("refits"); }
        const auto X0 = X; std::map<std::pair<Set, Set>, double> want; int nf; bool any = oracle(X, sup, conf, want, &nf);
        if (!any) { c.ev("nothing frequent"); c.req(throws([&] { ap.fit_transform(X); }), "no-frequent-accepted", "no item is frequent, and no exception"); return; }
        ap.fit_transform(X);
        std::map<std::pair<Set, Set>, double> got;
        for (auto& ru : ap.get_rules()) { Set a = std::get<0>(ru), b = std::get<1>(ru); std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); c.req(got.insert({{a, b}, std::get<2>(ru)}).second, "repeated", S(showv(a), "=>", showv(b))); }
        for (auto& kv : want) if (!c.req(got.count(kv.first), "missing", S(showv(kv.first.first), "=>", showv(kv.first.second), " confidence ", kv.second))) break;
        for (auto& kv : got) { if (!c.req(want.count(kv.first), "spurious", S(showv(kv.first.first), "=>", showv(kv.first.second), " confidence ", kv.second))) break;
            if (!c.req(close(kv.second, want[kv.first], 1e-12, 0), "confidence", S(showv(kv.first.first), "=>", showv(kv.first.second), " ", kv.second, " true ", want[kv.first]))) break; }
        if (r.coin(0.3)) {      // the printed rules are the rules, in the same order
            std::ostringstream o, w; auto* old = std::cout.rdbuf(o.rdbuf()); try { ap.print_rules(); } catch (...) { std::cout.rdbuf(old); throw; } std::cout.rdbuf(old);
            for (auto& ru : ap.get_rules()) { for (auto v : std::get<0>(ru)) w << v << ' '; w << "=> "; for (auto v : std::get<1>(ru)) w << v << ' '; w << std::get<2>(ru) << '\n'; }
            // numbers and arrows only: the punctuation is not claimed
            auto strip = [](const std::string& s) { std::string q; for (size_t i = 0; i < s.size(); ++i) { char h = s[i]; bool num = std::isdigit((unsigned char)h) || (h == '.' && i + 1 < s.size() && std::isdigit((unsigned char)s[i + 1])) || ((h == '-' || h == '+') && i && s[i - 1] == 'e') || (h == 'e' && i && std::isdigit((unsigned char)s[i - 1])); if (num) q += h; else if (h == '>') q += " > "; else if (h == '\n') q += "\n"; else if (!q.empty() && q.back() != ' ') q += ' '; } return q; };
            auto toks = [&](const std::string& s) { std::istringstream i(strip(s)); std::vector<std::string> v; std::string q; while (i >> q) v.push_back(q); return v; };
            c.req(toks(o.str()) == toks(w.str()), "printed", "printed: " + o.str().substr(0, 300) + " rules: " + w.str().substr(0, 300)); c.ev("printed rules", ap.get_rules().size());
        }
        c.req(X == X0, "input-changed", "the transactions were changed");
        c.ev("rules", got.size()); c.ev("frequent itemsets", nf);
    }
}
