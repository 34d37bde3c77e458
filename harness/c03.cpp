// C03: garbage collection never disturbs a referenced BDD.
#include "ref.h"
#include "hist.h"
using namespace hist;

namespace {
void history(int depth, int keys, const std::vector<int>& prefix, bool place) {
    key_regime(keys);
    World w(place ? Pos{1, 2, 4} : ident(3), place ? 5 : 3);
    for (int a : prefix) { w.act(a); w.check_meaning("during the history"); }
    for (int i = int(prefix.size()); i < depth; ++i) { w.act(mc::choose(World::ACTIONS, "action")); w.check_meaning("during the history"); }
    w.m.collect_garbage(); w.check_meaning("after the final collection"); w.check_canonical("after the final collection");
    w.m.collect_garbage(); w.check_meaning("after another collection");
    mc::nontrivial(w.collected); mc::state(mc::mix(w.hash(), 3));
}
// the whole family of 3-variable functions is built, a subset stays referenced, the rest is collected, everything is rebuilt
void survivors(const std::vector<TT>& keep, int keys, int rounds, int n = 3) {
    key_regime(keys); bdd_mgr m; const Pos pos = n == 3 ? Pos{0, 1, 3} : ident(n); add_vars(m, n + 1);
    const TT N = TT(1) << (1 << n);
    std::vector<std::pair<node_ref, TT>> kept;
    for (int r = 0; r < rounds; ++r) {
        { std::vector<node_ref> all; for (TT t = 0; t < N; ++t) all.push_back(build(m, t, pos));
          if (r == 0) for (TT t : keep) kept.push_back({all[t], t});
          for (auto& k : kept) MC_CHECK(all[k.second] == k.first, "round %d: rebuilding %s gives another reference", r, str(k.second, n).c_str());
          if (r > 0) { std::set<node*> d; for (auto& x : all) d.insert(x.address()); MC_CHECK(d.size() == N, "round %d: %zu references for %zu functions", r, d.size(), size_t(N)); } }
        m.collect_garbage();
        for (auto& k : kept) { MC_CHECK(eval_tt(k.first, pos, n + 1) == k.second, "round %d: after the collection a referenced BDD changed from %s to %s", r, str(k.second, n).c_str(), str(eval_tt(k.first, pos, n + 1), n).c_str()); check_structure(k.first, "after collection"); }
        for (auto& k : kept) { MC_CHECK(build(m, k.second, pos) == k.first, "round %d: recomputing %s after the collection gives another reference", r, str(k.second, n).c_str());
            MC_CHECK(m.negate(m.negate(k.first)) == k.first, "round %d: double complement of %s after the collection is another reference", r, str(k.second, n).c_str()); }
    }
    mc::steps(rounds * N); uint64_t h = keys; for (TT t : keep) h = mc::mix(h, t); mc::state(h);
}
// operation, collection that drops its operands or result, other functions built in the recycled storage, operation again
void recycle() {
    const int keys = mc::choose(NKEYS, "keys"); key_regime(keys);
    bdd_mgr m; add_vars(m, 3); const Pos pos = ident(3);
    static const TT fs[8] = {0xaa, 0xcc, 0xf0, 0x96, 0xe8, 0xc0, 0x1b, 0x3c};
    auto op = [&](int o, node_ref& a, node_ref& b, node_ref& c) { return o == 0 ? m.and_rec(a, b) : o == 1 ? m.or_rec(a, b) : o == 2 ? m.xor_rec(a, b) : m.ite_rec(a, b, c); };
    auto ref = [&](int o, TT a, TT b, TT c) { return (o == 0 ? a & b : o == 1 ? a | b : o == 2 ? a ^ b : (a & b) | (~a & c)) & ones(3); };
    TT t[3]; node_ref s[3]; for (int i = 0; i < 3; ++i) { t[i] = fs[(mc::choose(8, "f") + i * 3) % 8]; s[i] = build(m, t[i], pos); }
    int o = mc::choose(4, "op"); node_ref r = op(o, s[0], s[1], s[2]); TT tr = ref(o, t[0], t[1], t[2]);
    MC_NOTE("op%d(%s, %s, %s)", o, str(t[0], 3).c_str(), str(t[1], 3).c_str(), str(t[2], 3).c_str());
    int drop = mc::choose(16, "drop");
    for (int i = 0; i < 3; ++i) if (drop >> i & 1) s[i] = m.topsink();
    if (drop & 8) r = m.topsink();
    MC_NOTE("drop operands/result mask %d, collect", drop);
    m.collect_garbage();
    if (!(drop & 8)) MC_CHECK(eval_tt(r, pos, 3) == tr, "result changed by the collection");
    for (int k = 0; k < 8; ++k) { // other functions in the recycled storage, in the recycled positions
        node_ref q[3]; TT u[3];
        for (int i = 0; i < 3; ++i) { u[i] = (drop >> i & 1) ? fs[(k + i * 5) % 8] ^ (k & 1 ? 0xff : 0) : t[i]; q[i] = build(m, u[i], pos); }
        for (int p = 0; p < 4; ++p) { node_ref x = op(p, q[0], q[1], q[2]);
            MC_CHECK(eval_tt(x, pos, 3) == ref(p, u[0], u[1], u[2]), "after the collection op%d(%s, %s, %s) gives %s", p, str(u[0], 3).c_str(), str(u[1], 3).c_str(), str(u[2], 3).c_str(), str(eval_tt(x, pos, 3), 3).c_str());
            MC_CHECK(build(m, ref(p, u[0], u[1], u[2]), pos) == x, "after the collection op%d(%s, %s, %s) is not the canonical reference", p, str(u[0], 3).c_str(), str(u[1], 3).c_str(), str(u[2], 3).c_str()); }
        if (k == 3) m.collect_garbage();
    }
    mc::steps(36); mc::state(mc::mix(mc::mix(t[0] << 16 | t[1] << 8 | t[2], o * 16 + drop), keys));
}
// large BDDs kept and dropped
void scale(size_t n, int a, int b) {
    ref::Store s; const auto V = ref::vars(n, a % 4); const ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, V); bdd_mgr m; add_vars(m, V.back() + 1); mc::steps(12);
    const bool first = (a + b) % 2; node_ref G = m.botsink(); if (first) G = ref::make(m, s, g); node_ref F = ref::make(m, s, f); if (!first) G = ref::make(m, s, g);
    { node_ref t = m.and_rec(F, G); t = m.or_rec(m.negate(F), G); t = m.xor_rec(F, m.negate(G)); }
    node_ref K = m.and_rec(F, G); G = m.botsink(); m.collect_garbage();
    ref::is(s, F, f, "kept BDD", n); ref::is(s, K, s.land(f, g), "kept conjunction", n); ref::evaluates(s, F, f, V, m.nr_variables(), "kept BDD"); ref::evaluates(s, K, s.land(f, g), V, m.nr_variables(), "kept conjunction");
    MC_CHECK(ref::make(m, s, f) == F && ref::make(m, s, s.land(f, g)) == K, "%zu variables: building a kept BDD again gives another reference", n);
    G = ref::make(m, s, g); ref::is(s, G, g, "BDD built after a collection", n); MC_CHECK(m.and_rec(F, G) == K, "%zu variables: the conjunction is another reference after a collection", n); ref::is(s, m.xor_rec(F, G), s.lxor(f, g), "exclusive-or after a collection", n); ref::is(s, m.or_rec(G, F), s.lor(f, g), "disjunction after a collection", n);
    F = m.botsink(); m.collect_garbage(); ref::is(s, K, s.land(f, g), "kept conjunction", n); ref::is(s, G, g, "kept BDD", n); ref::is(s, ref::make(m, s, f), f, "BDD built again", n);
    K = m.topsink(); m.collect_garbage(); m.collect_garbage(); ref::is(s, G, g, "kept BDD", n); ref::is(s, m.negate(G), s.neg(g), "negation", n); mc::nontrivial(); mc::state(mc::mix(n, a * 64 + b));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; const int A = World::ACTIONS;
    std::vector<mc::Scenario> s;
    const int D = T ? 6 : 5;
    s.push_back({"histories", "all histories of " + std::to_string(D) + " actions out of 23 (build, operate, copy, drop, collect on three references), hash keys around the end of the table, then two collections and recomputation", A * A,
        [=](long u) { history(D, 3, {int(u / A), int(u % A)}, false); }, 60});
    s.push_back({"histories-key-regimes", "all histories of " + std::to_string(D - 1) + " actions out of 23 in each of the 4 hash-key regimes, variables placed at 1,2,4 of 5", NKEYS * A,
        [=](long u) { history(D - 1, u / A, {int(u % A)}, true); }, 60});
    s.push_back({"recycle", "8^3 operand triples x 4 operations x 16 subsets dropped before the collection x 4 hash-key regimes, followed by all operations on recycled storage", 1,
        [](long) { recycle(); }});
    s.back().units = 1;
    s.push_back({"survivors-pairs", "all 32896 subsets of one or two functions out of the 256 of 3 variables referenced while the rest is collected, two rounds", 256,
        [](long u) { for (TT b = u; b < 256; ++b) survivors(u == long(b) ? std::vector<TT>{b} : std::vector<TT>{TT(u), b}, (u + b) % NKEYS, 2); }, 120});
    s.push_back({"survivors-strided", "referenced sets {i : i mod q = r} for all q up to 48 and all r, and their complements, 4 hash-key regimes, three rounds", 48 * NKEYS,
        [](long u) { int q = u / NKEYS + 1; for (int r = 0; r < q; ++r) for (int c = 0; c < 2; ++c) { std::vector<TT> k; for (TT t = 0; t < 256; ++t) if ((int(t % q) == r) != (c == 1)) k.push_back(t); survivors(k, u % NKEYS, 3); } }, 120});
    s.push_back({"survivors-4var", "the 65536 functions of 4 variables: referenced sets {i : i mod q = r}, q in {1,2,3,7,64,1009}, r in {0,1}, two rounds", 12,
        [](long u) { static const int qs[6] = {1, 2, 3, 7, 64, 1009}; std::vector<TT> k; for (TT t = 0; t < 65536; ++t) if (t % qs[u / 2] == TT(u % 2) % qs[u / 2]) k.push_back(t); survivors(k, 0, 2, 4); }, 120});
    { const size_t M = T ? 8193 : 4097; std::vector<std::array<int, 3>> u; for (size_t n : ref::sizes(M)) for (int a = 0; a < ref::SHAPES; ++a) for (int b = 0; b < ref::SHAPES; ++b) if (ref::pair_at(n, a, b) && (a * 5 + b * 7 + n) % (T ? 2 : n < 300 ? 5 : 11) == 0) u.push_back({int(n), a, b});
      s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 6, [](long u) { ref::Far far(ref::FAR[u % 3]); const int a = int(u / 3 % 12), b = int((a + 1 + u / 36 * 2) % 12); scale(6, a, b); }, 120});
      s.push_back({"scale", "pairs of 12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ", each kept and dropped over four collections, compared with an independent diagram store", long(u.size()), [u](long i) { scale(u[i][0], u[i][1], u[i][2]); }, 120}); }
    return s;
}
