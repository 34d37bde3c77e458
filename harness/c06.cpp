// C06: cached results are transparent.
#include "kit.h"
using namespace kit; using namespace BDD;

namespace {
// instances of operations on three operands (indices 0..2), including exchanged and repeated operands
constexpr int INST = 27 + 27 + 3 + 18;
struct Inst { int op, a, b, c; };
Inst inst(int i) {
    if (i < 27) return {i / 9, i % 9 / 3, i % 3, 0};
    if (i < 54) { i -= 27; return {3, i / 9, i / 3 % 3, i % 3}; }
    if (i < 57) return {4, i - 54, 0, 0};
    i -= 57; return {5, i / 6, i / 2 % 3, i % 2 ? 2 : 100};   // size-limited with a limit that usually fails / never fails
}
const char* opn[6] = {"and", "or", "xor", "ite", "not", "and_limited"};
TT refop(const Inst& x, const TT* t, TT one) {
    switch (x.op) { case 0: case 5: return t[x.a] & t[x.b]; case 1: return t[x.a] | t[x.b]; case 2: return t[x.a] ^ t[x.b]; case 3: return (t[x.a] & t[x.b]) | (~t[x.a] & t[x.c] & one); default: return ~t[x.a] & one; }
}
bool apply(bdd_mgr& m, const Inst& x, node_ref* s, node_ref& r, size_t* count = nullptr) { // false: limit exceeded
    switch (x.op) {
        case 0: r = m.and_rec(s[x.a], s[x.b]); break; case 1: r = m.or_rec(s[x.a], s[x.b]); break; case 2: r = m.xor_rec(s[x.a], s[x.b]); break;
        case 3: r = m.ite_rec(s[x.a], s[x.b], s[x.c]); break; case 4: r = m.negate(s[x.a]); break;
        default: { auto p = m.and_rec_limited(s[x.a], s[x.b], x.c); r = std::get<0>(p); if (!r.address()) return false; }
    }
    return true;
}
static const TT pool[8] = {0x96, 0xe8, 0x1b, 0xaa, 0x3c, 0xd4, 0x01, 0x69};
static const int sets[6][3] = {{0, 1, 2}, {3, 4, 5}, {0, 7, 1}, {6, 1, 3}, {2, 2, 0}, {5, 0, 4}};

void perform(bdd_mgr& m, int i, node_ref* s, const TT* t, const Pos& pos, const char* when) {
    Inst x = inst(i); node_ref r; TT want = refop(x, t, ones(3)); mc::steps();
    if (!apply(m, x, s, r)) { MC_CHECK(bdd_size(want, 3) >= size_t(x.c), "%s: and_limited(s%d, s%d, %d) failed, the result has %zu nodes", when, x.a, x.b, x.c, bdd_size(want, 3)); return; }
    TT got = eval_tt(r, pos, m.nr_variables());
    MC_CHECK(got == want, "%s: %s(s%d, s%d, %d) on (%s, %s, %s) gives %s, expected %s", when, opn[x.op], x.a, x.b, x.c, str(t[0], 3).c_str(), str(t[1], 3).c_str(), str(t[2], 3).c_str(), str(got, 3).c_str(), str(want, 3).c_str());
    MC_CHECK(build(m, want, pos) == r, "%s: %s(s%d, s%d, %d) is not the canonical reference", when, opn[x.op], x.a, x.b, x.c);
}
// sequences of operation instances on one triple of operands
void sequence(int set, int keys, int first, int depth) {
    key_regime(keys); bdd_mgr m; add_vars(m, 3); const Pos pos = ident(3); node_ref s[3]; TT t[3];
    for (int i = 0; i < 3; ++i) { t[i] = pool[sets[set][i]]; s[i] = build(m, t[i], pos); }
    uint64_t h = set * 4 + keys;
    for (int d = 0; d < depth; ++d) { int i = d == 0 ? first : mc::choose(INST, "op"); Inst x = inst(i); MC_NOTE("%s(s%d, s%d, %d)", opn[x.op], x.a, x.b, x.c); perform(m, i, s, t, pos, "in a sequence"); h = mc::mix(h, i); }
    mc::state(h);
}
// operation, something in between, operation
void between(int set, int first) {
    const int keys = mc::choose(NKEYS, "keys"); key_regime(keys);
    bdd_mgr m; add_vars(m, 3); const Pos pos = ident(3); node_ref s[3]; TT t[3];
    for (int i = 0; i < 3; ++i) { t[i] = pool[sets[set][i]]; s[i] = build(m, t[i], pos); }
    perform(m, first, s, t, pos, "first");
    const int b = mc::choose(8 + 24, "between");
    if (b == 0) { m.collect_garbage(); MC_NOTE("collect"); }
    else if (b < 8) { for (int i = 0; i < 3; ++i) if (b >> i & 1) s[i] = node_ref(); m.collect_garbage(); for (int i = 2; i >= 0; --i) if (b >> i & 1) s[i] = build(m, t[i], pos); MC_NOTE("drop mask %d, collect, build again", b); }
    else { int i = (b - 8) / 8, f = (b - 8) % 8; s[i] = node_ref(); m.collect_garbage(); t[i] = pool[f]; s[i] = build(m, t[i], pos); MC_NOTE("drop s%d, collect, replace by %s", i, str(t[i], 3).c_str()); }
    const int second = mc::choose(INST, "op"); Inst x = inst(second); MC_NOTE("%s(s%d, s%d, %d)", opn[x.op], x.a, x.b, x.c);
    perform(m, second, s, t, pos, "second"); perform(m, first, s, t, pos, "first again"); perform(m, second, s, t, pos, "second again");
    mc::state(mc::mix(mc::mix(set * INST + first, b), second * 4 + keys));
}
// all operations on a family in one manager, in several orders, twice
void family(int order, int keys, int offset) {
    mc::memory_offset(offset * 16); key_regime(keys);
    bdd_mgr m; add_vars(m, 3); const Pos pos = ident(3); constexpr int K = 20;
    node_ref s[K]; TT t[K]; for (int i = 0; i < K; ++i) { t[i] = i < 8 ? pool[i] : (scatter(i) & 255); s[i] = build(m, t[i], pos); }
    std::vector<node_ref> ref; for (TT u = 0; u < 256; ++u) ref.push_back(build(m, u, pos));
    auto one = [&](int op, int i, int j, int k) {
        node_ref r; TT w; mc::steps();
        switch (op) { case 0: r = m.and_rec(s[i], s[j]); w = t[i] & t[j]; break; case 1: r = m.or_rec(s[i], s[j]); w = t[i] | t[j]; break; case 2: r = m.xor_rec(s[i], s[j]); w = t[i] ^ t[j]; break; default: r = m.ite_rec(s[i], s[j], s[k]); w = (t[i] & t[j]) | (~t[i] & t[k] & 255); }
        MC_CHECK(r == ref[w], "op %d on %s, %s, %s gives %s, expected %s", op, str(t[i], 3).c_str(), str(t[j], 3).c_str(), str(t[k], 3).c_str(), str(eval_tt(r, pos, 3), 3).c_str(), str(w, 3).c_str());
    };
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    for (int pass = 0; pass < 3; ++pass) {
        for (int n = 0; n < K * K * K; ++n) {
            int q = (pass + order / 6) % 2 ? K * K * K - 1 - n : n, d[3] = {q % K, q / K % K, q / K / K}; const int* p = perm[order % 6];
            int i = d[p[0]], j = d[p[1]], k = d[p[2]];
            one(3, i, j, k); if (n % 3 == 0) { one(n % 9 / 3, i, j, k); one((n + 1) % 3, j, i, k); one(n % 9 / 3, i, k, j); }
        }
        if (pass == 1) m.collect_garbage();
    }
    mc::state(order * 100 + keys * 10 + offset);
}
// so many results that the cache grows to its largest size and results are overwritten
void longrun(int u, size_t target) {
    bdd_mgr m; add_vars(m, 4); const Pos pos = ident(4); const TT N = 65536;
    std::vector<node_ref> ref; for (TT t = 0; t < N; ++t) ref.push_back(build(m, t, pos));
    size_t done = 0;
    for (TT step = 1; done < target; ++step) for (TT t = 0; t < N && done < target; ++t, ++done) {
        TT a = (t * 40503u + u * 7919u) & 65535, b = (a + step * (2 * u + 1) * 257u) & 65535;
        node_ref r; TT w;
        switch ((t + u) & 3) { case 0: r = m.and_rec(ref[a], ref[b]); w = a & b; break; case 1: r = m.or_rec(ref[a], ref[b]); w = a | b; break; case 2: r = m.xor_rec(ref[a], ref[b]); w = a ^ b; break;
            default: { TT c = (b * 3 + a) & 65535; r = m.ite_rec(ref[a], ref[b], ref[c]); w = (a & b) | (~a & c & 65535); } }
        MC_CHECK(r == ref[w], "operation %zu of a long history: kind %d on %s, %s gives %s, expected %s", done, int((t + u) & 3), str(a, 4).c_str(), str(b, 4).c_str(), str(eval_tt(r, pos, 4), 4).c_str(), str(w, 4).c_str());
        if (done % 1000003 == 999999) m.collect_garbage();
    }
    std::vector<TT> ts; for (TT t = 0; t < N; ++t) ts.push_back(t);
    m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2 + shared_size(ts, 4), "%zu nodes after a long history", m.nr_nodes());
    mc::steps(done); mc::state(u);
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s;
#ifdef LBDD_VERIF_SMALL_POOLS
    const int D = T ? 4 : 3;
    s.push_back({"sequences", "all sequences of " + std::to_string(D) + " out of 75 operation instances (and, or, xor on all ordered pairs, if-then-else on all ordered triples, negation, size-limited conjunction, repeated operands) on 6 operand triples x 2 key regimes", 6 * 2 * INST,
        [=](long u) { sequence(int(u / INST / 2), u / INST % 2 ? 1 : 0, int(u % INST), D); }, 60});
    s.push_back({"between", "every operation instance, then one of 32 collections/replacements of operands, then every instance, both repeated; 6 operand triples x 4 key regimes", 6 * INST,
        [](long u) { between(int(u / INST), int(u % INST)); }, 60});
    s.push_back({"family", "all if-then-elses (20^3) and two-operand operations on a family of 20 functions in one manager, 12 orders x 4 key regimes x 4 memory offsets, three passes", 12 * NKEYS * 4,
        [](long u) { family(int(u % 12), int(u / 12 % NKEYS), int(u / 12 / NKEYS)); }, 120});
#else // shipped constants
    const size_t target = T ? 40000000 : 8000000;
    s.push_back({"long", std::to_string(T ? 64 : 8) + " histories of " + std::to_string(target) + " operations on the 65536 functions of 4 variables, the cache reaching its largest size", T ? 64 : 8, [=](long u) { longrun(int(u), target); }, 600});
#endif
    return s;
}
