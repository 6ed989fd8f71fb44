// Memory safety and ownership of all estimators and free functions, under ASan+UBSan
#include "p01.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static void prepare(Ctx& c, int id, zoo::Spec& sp, std::vector<zoo::Set>& sets, std::vector<Mat>& qs, bool mild) {
    Rng& r = c.rng; sp = zoo::make_spec(r, id); int k = r.irange(1, 3); for (int i = 0; i < k; ++i) { int n = r.coin(0.05) ? r.irange(60, 150) : r.irange(std::max(4, sp.need / 2), sp.need + 12), d = r.irange(2, sp.maxd); sets.push_back(mild ? zoo::data(r, sp, d) : hset(r, sp, n, d)); qs.push_back(sp.data == zoo::COUNTS ? hset(r, sp, r.irange(1, 6), d).X : hostile(r, r.irange(1, 6), d)); c.mixm(sets.back().X); c.dump << " X=" << show(sets.back().X, 40) << " y=" << show(sets.back().y, 30); }
    c.mix(id); c.nontrivial = true; c.dump << sp.name; c.ev("estimator " + sp.name);
}
SCENARIO(estimators, 4000, 60000) {
    zoo::Spec sp; std::vector<zoo::Set> sets; std::vector<Mat> qs; prepare(c, c.index % zoo::NID, sp, sets, qs, c.rng.coin(0.2)); long calls = 0; life(c.rng, sp, sets, qs, &calls); c.ev("calls", calls);
}
SCENARIO(lifetime, 900, 10000) {      // whatever happens in a life, all its memory comes back
    zoo::Spec sp; std::vector<zoo::Set> sets; std::vector<Mat> qs; prepare(c, c.index % zoo::NID, sp, sets, qs, c.rng.coin()); long calls = 0; Rng keep = c.rng; uint64_t e = c.rng.next(); size_t b[4];
    for (int k = 0; k < 4; ++k) { Rng r = keep; set_entropy(e); life(r, sp, sets, qs, &calls); b[k] = __sanitizer_get_current_allocated_bytes(); } c.ev("lives", 4); c.ev("calls", calls);
    c.req(!(b[1] < b[2] && b[2] < b[3]), sp.name + "/leak", S("live bytes after equal lives: ", b[0], " ", b[1], " ", b[2], " ", b[3]));
}
SCENARIO(functions, 1500, 20000) { long calls = 0; c.mix(c.rng.s); c.nontrivial = true; c.dump << "all free functions, trees, rules and losses on one hostile data set"; core_calls(c.rng, &calls); c.ev("calls", calls); }
SCENARIO(functions_leak, 200, 2000) {
    c.mix(c.rng.s); c.nontrivial = true; c.dump << "all free functions, trees, rules and losses"; long calls = 0; Rng keep = c.rng; uint64_t e = c.rng.next(); size_t b[4]; for (int k = 0; k < 4; ++k) { Rng r = keep; set_entropy(e); core_calls(r, &calls); b[k] = __sanitizer_get_current_allocated_bytes(); } c.ev("calls", calls); c.req(!(b[1] < b[2] && b[2] < b[3]), "leak", S("live bytes after equal rounds: ", b[0], " ", b[1], " ", b[2], " ", b[3]));
}
