// hash tree: an exact support counter, whatever its shape
#include "gen.hpp"
using namespace mon;
struct Node {
    bool is_leaf; std::size_t index;
    std::map<std::vector<std::size_t>, std::size_t> bucket;
    std::map<std::size_t, std::shared_ptr<Node>> children;
    Node(): is_leaf(true), index(0) {}
};
using Set = std::vector<std::size_t>;
SCENARIO(history, 1500, 20000) {
    Rng& r = c.rng;
    std::size_t leaf = r.irange(1, 8), child = r.irange(1, 8); int len = r.irange(1, 5), items = r.irange(len, len + (r.coin(0.1) ? 30 : 8));
    if (r.coin(0.1)) leaf = 1000;
    bool dflt = r.coin(0.1);
    openml::tree::HashTree<Node, std::size_t> t0, t1(leaf, child); auto& t = dflt ? t0 : t1;
    std::map<Set, std::size_t> ref;
    auto draw = [&] {
        if (!ref.empty() && r.coin(0.4)) { auto it = ref.begin(); std::advance(it, r.irange(0, ref.size() - 1)); return it->first; }
        std::set<std::size_t> s; while ((int)s.size() < len) s.insert(r.irange(0, items) * (r.coin(0.05) ? 1000003ull : 1));
        Set v(s.begin(), s.end()); if (r.coin(0.1)) r.shuffle(v.begin(), v.end()); return v;
    };
    int steps = mon::dim(r, 1, 80, 1500); c.mix(leaf); c.mix(child); c.nontrivial = steps > 3;
    c.dump << (dflt ? "default tree" : S("leaf size ", leaf, " child size ", child)) << " ops:";
    auto query = [&] {
        std::size_t sup = r.irange(0, 4); std::vector<std::size_t> cnt{7, 7}; std::vector<Set> sets{{99}};
        if (r.coin()) { cnt.clear(); sets.clear(); }
        t.compute_frequency_itemsets(sup, cnt, sets); c.dump << " query(" << sup << ")"; c.ev("queries");
        std::map<Set, std::size_t> got, want; for (auto& kv : ref) if (kv.second >= sup) want.insert(kv);
        if (!c.req(cnt.size() == sets.size(), "lengths", S(cnt.size(), " counts for ", sets.size(), " itemsets"))) return;
        for (size_t i = 0; i < sets.size(); ++i) c.req(got.insert({sets[i], cnt[i]}).second, "repeated", showv(sets[i]));
        for (auto& kv : want) if (!c.req(got.count(kv.first), "lost", S(showv(kv.first), " with support ", kv.second, " is missing"))) return;
        for (auto& kv : got) if (!c.req(want.count(kv.first) && want[kv.first] == kv.second, "count", S(showv(kv.first), " reported with ", kv.second, " true ", ref.count(kv.first) ? ref[kv.first] : 0))) return;
        c.ev("itemsets reported", got.size());
    };
    for (int s = 0; s < steps; ++s) {
        double u = r.u(); Set v = draw(); for (auto e : v) c.mix(e);
        if (u < (s < steps / 2 ? 0.6 : 0.2)) { t.build_tree(v); ref.insert({v, 0}); c.dump << " insert" << showv(v); c.ev("insertions"); }
        else if (u < 0.95) { t.add_support(v); if (ref.count(v)) ++ref[v]; c.dump << " add" << showv(v); c.ev("support increments"); }
        else query();
    }
    query();
}
// more increments, and more itemsets, than a 16-bit counter holds
SCENARIO(bulk, 3, 30) {
    Rng& r = c.rng; std::size_t leaf = r.irange(1, 40), child = r.irange(2, 60); openml::tree::HashTree<Node, std::size_t> t(leaf, child); std::map<Set, std::size_t> ref; c.mix(leaf); c.mix(child); c.nontrivial = true; c.dump << "bulk, leaf size " << leaf << " child size " << child;
    bool wide = c.index % 3 == 2; int N = wide ? 400 : r.irange(3, 30); for (int i = 0; i < N; ++i) for (int j = wide ? i + 1 : N; j < (wide ? i + 200 : N + 1); ++j) { Set v{(std::size_t)i, (std::size_t)j}; t.build_tree(v); ref[v] = 0; }
    int M = wide ? 2000 : r.irange(70000, 90000); Set hot{0, (std::size_t)(wide ? 7 : N)}; for (int k = 0; k < M; ++k) { Set v = hot; if (r.coin(0.05)) v = {(std::size_t)r.irange(0, N - 1), (std::size_t)(wide ? r.irange(0, 600) : N)}; t.add_support(v); auto it = ref.find(v); if (it != ref.end()) ++it->second; }
    c.ev("support increments", M); c.ev("insertions", ref.size());
    for (std::size_t sup : {(std::size_t)0, (std::size_t)1, ref[hot], ref[hot] + 1}) { std::vector<std::size_t> cnt; std::vector<Set> sets; t.compute_frequency_itemsets(sup, cnt, sets); std::map<Set, std::size_t> got, want; for (size_t i = 0; i < sets.size(); ++i) got[sets[i]] = cnt[i]; for (auto& e : ref) if (e.second >= sup) want.insert(e); c.ev("queries"); c.req(cnt.size() == sets.size() && sets.size() == want.size() && got == want, "bulk", S("support >= ", sup, ": ", got.size(), " itemsets, want ", want.size())); }
}
