// MODE: plain
// VALGRIND
// The same histories under valgrind memcheck: no decision depends on an undefined value
#include "p01.hpp"
SCENARIO(vg_estimators, 180, 2400) {
    Rng& r = c.rng; int id = c.index % zoo::NID; auto sp = zoo::make_spec(r, id); std::vector<zoo::Set> sets; std::vector<Mat> qs; int k = r.irange(1, 2); for (int i = 0; i < k; ++i) { int n = r.irange(std::max(4, sp.need / 2), sp.need + 6), d = r.irange(2, std::min(sp.maxd, 4)); sets.push_back(r.coin(0.5) ? zoo::data(r, sp, d) : hset(r, sp, n, d)); qs.push_back(sp.data == zoo::COUNTS ? hset(r, sp, r.irange(1, 4), d).X : hostile(r, r.irange(1, 4), d)); c.mixm(sets.back().X); }
    c.mix(id); c.nontrivial = true; c.dump << "valgrind " << sp.name << " X=" << show(sets[0].X, 40); c.ev("valgrind estimator " + sp.name); long calls = 0; life(r, sp, sets, qs, &calls); c.ev("valgrind calls", calls);
}
SCENARIO(vg_functions, 60, 800) { long calls = 0; c.mix(c.rng.s); c.nontrivial = true; c.dump << "valgrind: all free functions"; core_calls(c.rng, &calls); c.ev("valgrind calls", calls); }
