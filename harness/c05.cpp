// C05: hash keys and table layout never influence results.
#include "kit.h"
using namespace kit; using namespace BDD;

namespace {
static const uint32_t alpha[6] = {62, 63, 0, 61, 1, 127};

// Nodes f_i = (variable 0, lo = y_i, hi = true): the place of f_i in its table is determined by the key
// of y_i, which is chosen freely. All placements of n nodes around the end of the table.
struct Table {
    bdd_mgr m; int n; std::vector<node_ref> y, f;
    uint32_t next_key = 5;
    Table(int n, const std::vector<uint32_t>& keys) : n(n) {
        mc::keys_callback([this] { return next_key; });
        add_vars(m, n + 1);
        for (int i = 0; i < n; ++i) { next_key = keys[i]; y.push_back(m.projection(i + 1)); }
        next_key = 5; f.resize(n);
        for (int i = 0; i < n; ++i) make(i);
    }
    node_ref find(int i) { return m.unique_find(0, y[i], m.topsink()); }
    void make(int i) { f[i] = find(i); }
    void drop(unsigned keep) { for (int i = 0; i < n; ++i) if (!(keep >> i & 1)) f[i] = node_ref(); }
    void check(unsigned present, const char* when) {
        MC_CHECK(m.nr_nodes() == size_t(2 + n + __builtin_popcount(present)), "%s: %zu nodes reported, expected %d", when, m.nr_nodes(), 2 + n + __builtin_popcount(present));
        for (int i = 0; i < n; ++i) if (present >> i & 1) {
            MC_CHECK(find(i) == f[i], "%s: node %d is not found again", when, i);
            MC_CHECK(f[i].low() == y[i] && f[i].high() == m.topsink() && f[i].variable() == 0, "%s: node %d changed", when, i);
            for (int j = 0; j < i; ++j) if (present >> j & 1) MC_CHECK(f[i] != f[j], "%s: nodes %d and %d are identified", when, i, j);
        }
        MC_CHECK(m.nr_nodes() == size_t(2 + n + __builtin_popcount(present)), "%s: looking up present nodes created new ones", when);
    }
};
void placement(int n, int na, std::vector<uint32_t> keys, bool second) {
    while (int(keys.size()) < n) keys.push_back(alpha[mc::choose(na, "key")]);
    const unsigned full = (1u << n) - 1;
    const unsigned keep = mc::choose(int(full) + 1, "keep");
    Table t(n, keys);
    if (mc::tracing) { std::string s; for (auto k : keys) s += " " + std::to_string(k); MC_NOTE("keys%s, keep mask %u", s.c_str(), keep); }
    t.check(full, "after creation");
    t.drop(keep); t.m.collect_garbage(); t.check(keep, "after the collection");
    const unsigned again = second ? mc::choose(int(full) + 1, "again") : full;
    for (int i = n - 1; i >= 0; --i) if (!(keep >> i & 1) && (again >> i & 1)) t.make(i);
    t.check(keep | again, "after creating dropped nodes again");
    const unsigned keep2 = second ? (~keep & full) : (keep ^ (full & 0x15));
    t.drop(keep2); t.m.collect_garbage(); t.check((keep | again) & keep2, "after the second collection");
    for (int i = 0; i < n; ++i) t.make(i);
    t.check(full, "after creating everything again");
    for (auto& f : t.f) f = node_ref();
    t.m.collect_garbage(); MC_CHECK(t.m.nr_nodes() == size_t(2 + n), "%zu nodes left after dropping all nodes of the variable, expected %d", t.m.nr_nodes(), 2 + n);
    mc::steps(6 * n); uint64_t h = keep * 64 + keep2; for (auto k : keys) h = mc::mix(h, k); mc::state(h); mc::nontrivial(keep != full);
}

// growth and shrinking of one table with structured keys
void growth(int N, uint32_t first, uint32_t stride) {
    constexpr int M = 40;
    bdd_mgr m; add_vars(m, M + 1); std::vector<node_ref> y; uint32_t k = first; bool fix = false;
    mc::keys_callback([&] { uint32_t r = fix ? 7 : k; k += stride; return r; });
    for (int i = 0; i < M; ++i) y.push_back(m.projection(i + 1));
    fix = true;
    const size_t base = m.nr_nodes();
    auto lo = [&](int i) -> node_ref { return y[i % M]; };
    auto hi = [&](int i) -> node_ref { int q = i / M; return q == 0 ? m.topsink() : q == 1 ? m.botsink() : y[(i % M + q - 1) % M]; };
    std::vector<node_ref> f(N);
    auto make = [&](int i) { f[i] = m.unique_find(0, lo(i), hi(i)); };
    auto verify = [&](const char* when, int pattern) {
        size_t live = 0; std::set<node*> d;
        for (int i = 0; i < N; ++i) if (f[i].address()) {
            ++live; d.insert(f[i].address());
            MC_CHECK(f[i].low() == lo(i) && f[i].high() == hi(i), "%s (pattern %d): node %d of %d changed", when, pattern, i, N);
            MC_CHECK(m.unique_find(0, lo(i), hi(i)) == f[i], "%s (pattern %d): node %d of %d is not found again", when, pattern, i, N);
        }
        MC_CHECK(d.size() == live, "%s (pattern %d): %zu distinct nodes for %zu functions", when, pattern, d.size(), live);
        MC_CHECK(m.nr_nodes() == base + live, "%s (pattern %d): %zu nodes reported, expected %zu", when, pattern, m.nr_nodes(), base + live);
    };
    for (int i = 0; i < N; ++i) make(i);
    verify("after creation", -1);
    for (int p = 0; p < 12; ++p) {
        auto keep = [&](int i) { switch (p) { case 0: return i % 2 == 0; case 1: return i % 3 == 0; case 2: return i % 8 == 3; case 3: return i % 17 == 0; case 4: return i < N / 2; case 5: return i >= N / 2; case 6: return i < 5; case 7: return i >= N - 9; case 8: return i % 9 != 0; case 9: return i == N / 3; case 10: return i % M < 7; default: return false; } };
        for (int i = 0; i < N; ++i) if (!keep(i)) f[i] = node_ref();
        m.collect_garbage(); verify("after a collection", p);
        if (p % 3 != 2) { for (int i = N - 1; i >= 0; --i) if (i % 4) make(i); verify("after creating some again", p); }
        for (int i = 0; i < N; ++i) make(i);
        verify("after creating all again", p);
        mc::steps(3 * N);
    }
    mc::state(mc::mix(mc::mix(N, first), stride));
}

// operations under every assignment of keys to the first nodes
void operations(int hist, int na, int nk) {
    int drawn = 0; const uint32_t tail[3] = {63, 0, 2097152};
    mc::keys_callback([&]() -> uint32_t { return drawn++ < nk ? alpha[mc::choose(na, "key")] : tail[drawn % 3]; });
    bdd_mgr m; const Pos pos = ident(3); add_vars(m, 3);
    static const TT pool[8] = {0xaa, 0xcc, 0xf0, 0x96, 0xe8, 0x1b, 0x3c, 0xc0};
    TT tf = pool[hist % 8], tg = pool[(hist / 8 + hist + 1) % 8], th = pool[(hist * 3 + 2) % 8];
    const int sh = hist / 8;
    node_ref f = sh & 1 ? build_minterms(m, tf, pos) : build(m, tf, pos), g = build(m, tg, pos), h = sh & 2 ? build_ite(m, th, pos) : build(m, th, pos);
    auto ck = [&](node_ref r, TT t, const char* w) { TT e = eval_tt(r, pos, 3); MC_CHECK(e == t, "%s is %s, expected %s", w, str(e, 3).c_str(), str(t, 3).c_str()); MC_CHECK(build(m, t, pos) == r, "%s is not the canonical reference", w); mc::steps(); };
    {
        node_ref a = m.and_rec(f, g), o = m.or_rec(f, h), x = m.xor_rec(g, h), i = m.ite_rec(f, g, h);
        ck(a, tf & tg, "and"); ck(o, tf | th, "or"); ck(x, tg ^ th, "xor"); ck(i, (tf & tg) | (~tf & th & 255), "ite"); ck(m.negate(x), ~(tg ^ th) & 255, "negation");
        if (sh & 4) g = m.botsink(), tg = 0; else a = m.botsink();
        m.collect_garbage();
        ck(o, tf | th, "kept or"); ck(i, ((tf & pool[(hist / 8 + hist + 1) % 8]) | (~tf & th & 255)), "kept ite"); ck(m.and_rec(o, f), tf, "absorption");
        ck(m.xor_rec(x, h), pool[(hist / 8 + hist + 1) % 8], "xor twice");
    }
    m.collect_garbage();
    size_t want = 2 + shared_size({tf, tg, th}, 3);
    MC_CHECK(m.nr_nodes() == want, "%zu nodes at the end, expected %zu", m.nr_nodes(), want);
    ck(m.or_rec(f, h), tf | th, "or after the collection"); ck(m.ite_rec(h, f, g), (th & tf) | (~th & tg & 255), "ite after the collection");
    mc::state(mc::mix(mc::keys_drawn(), hist));
}
// whole function family under key families: everything lands in few slots
void family(int k) {
    static const uint32_t cst[16] = {0, 1, 62, 63, 64, 127, 128, 4095, 1u << 21, (1u << 22) - 1, 0x2aaaaa, 0x155555, 31, 32, 33, 1u << 20};
    static const uint32_t first[4] = {0, 60, 63, 100}, stride[8] = {1, 2, 63, 64, 65, 127, 128, 1u << 21};
    if (k < 16) mc::keys_constant(cst[k]); else mc::keys_sequence(first[(k - 16) % 4], stride[(k - 16) / 4]);
    bdd_mgr m; add_vars(m, 3); const Pos pos = ident(3);
    for (int round = 0; round < 3; ++round) {
        std::vector<node_ref> all; for (TT t = 0; t < 256; ++t) all.push_back(round == 1 ? build_anf(m, t, pos) : round == 2 ? build_clauses(m, t, pos) : build_minterms(m, t, pos));
        std::set<node*> d; for (TT t = 0; t < 256; ++t) { d.insert(all[t].address()); TT e = eval_tt(all[t], pos, 3); MC_CHECK(e == t, "round %d: %s evaluates to %s", round, str(t, 3).c_str(), str(e, 3).c_str()); MC_CHECK(build(m, t, pos) == all[t], "round %d: %s is not canonical", round, str(t, 3).c_str()); }
        MC_CHECK(d.size() == 256, "round %d: %zu references for 256 functions", round, d.size());
        for (TT t = 0; t < 256; ++t) { TT u = (t * 37 + 11) & 255; MC_CHECK(m.and_rec(all[t], all[u]) == all[t & u] && m.or_rec(all[t], all[u]) == all[t | u] && m.xor_rec(all[t], all[u]) == all[t ^ u] && m.negate(all[t]) == all[~t & 255], "round %d: operations on %s, %s", round, str(t, 3).c_str(), str(u, 3).c_str()); }
        m.collect_garbage();
        std::vector<TT> ts; for (TT t = 0; t < 256; ++t) ts.push_back(t);
        MC_CHECK(m.nr_nodes() == 2 + shared_size(ts, 3), "round %d: %zu nodes for the whole family, expected %zu", round, m.nr_nodes(), 2 + shared_size(ts, 3));
        std::vector<TT> kept; for (TT t = 0; t < 256; ++t) if ((t * 5 + round) % 7 < 3) kept.push_back(t); else all[t] = m.botsink();
        m.collect_garbage();
        MC_CHECK(m.nr_nodes() == 2 + shared_size(kept, 3), "round %d: %zu nodes for a part of the family, expected %zu", round, m.nr_nodes(), 2 + shared_size(kept, 3));
        for (TT t : kept) { MC_CHECK(eval_tt(all[t], pos, 3) == t, "round %d: %s changed", round, str(t, 3).c_str()); MC_CHECK(build(m, t, pos) == all[t], "round %d: %s not found again", round, str(t, 3).c_str()); }
        mc::steps(2000);
    }
    mc::state(k);
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH;
    std::vector<mc::Scenario> s;
    s.push_back({"placement-5", "5 nodes of one variable: all 5^5 placements on slots 62,63,0,61,1 (in all insertion orders) x all 32 sets kept by a collection x all 32 sets created again, second collection, everything again", 25,
        [](long u) { placement(5, 5, {alpha[u / 5], alpha[u % 5]}, true); }});
    s.push_back({"placement-6", "6 nodes of one variable: all 5^6 placements x all 64 sets kept by a collection, recreation, second collection", 125,
        [](long u) { placement(6, 5, {alpha[u / 25], alpha[u / 5 % 5], alpha[u % 5]}, false); }});
    if (T) s.push_back({"placement-7", "7 nodes of one variable: all 4^7 placements on slots 62,63,0,61 x all 128 sets kept x all 128 sets created again", 64,
        [](long u) { placement(7, 4, {alpha[u / 16], alpha[u / 4 % 4], alpha[u % 4]}, true); }});
    if (T) s.push_back({"placement-8", "8 nodes of one variable: all 5^8 placements x all 256 sets kept", 625,
        [](long u) { placement(8, 5, {alpha[u / 125], alpha[u / 25 % 5], alpha[u / 5 % 5], alpha[u % 5]}, false); }});
    static const int Ns[] = {30, 31, 32, 33, 34, 35, 62, 63, 64, 65, 66, 67, 126, 128, 129, 130, 131, 254, 256, 257, 258, 260, 400, 512, 513, 515, 700, 1030, 1500};
    static const uint32_t first[5] = {0, 60, 63, 100, 4095}, stride[9] = {0, 1, 2, 63, 64, 65, 127, 128, 1u << 21};
    const int nN = sizeof Ns / sizeof *Ns;
    s.push_back({"growth", "one table grown to each of 29 sizes in 30..1500 around the growth thresholds, 5 x 9 arithmetic key families, 12 patterns kept by successive collections with regrowth in between", nN * 45,
        [](long u) { growth(Ns[u / 45], first[u % 5], stride[u / 5 % 9]); }, 120});
    const int nk = T ? 10 : 7;
    s.push_back({"operations", "64 histories of operations and collections, every assignment of one of 3 colliding keys to each of the first " + std::to_string(nk) + " nodes created", 64, [=](long u) { operations(int(u), 3, nk); }});
    s.push_back({"family", "all 256 functions of 3 variables built three ways with 16 constant and 32 arithmetic key families, operations, partial collections", 48, [](long u) { family(int(u)); }, 120});
    return s;
}
