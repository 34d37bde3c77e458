// C28: memory. Destroying managers and collections gives back everything they took; repeating work does not take more and more.
#include "coll.h"
#include "ref.h"
#include <sstream>
#include <deque>
using namespace kit; using namespace BDD;

namespace {
constexpr int MGR_OPS = 20, OPS = 38;
const char* op_name[OPS] = {"build s0", "build s1", "and", "or", "xor", "if-then-else", "negate", "drop", "collect", "limited and, failing", "limited and", "rebase by a map", "rebase by a list", "counting constraints", "queries", "print", "list connectives", "one-solution query", "handles in containers", "more variables",
    "enter s0", "enter s2", "stored and", "stored and, failing", "stored and of several", "stored and of several, failing", "relax", "remove first", "remove last", "export", "add to the manager", "stored rebase", "build by hand", "build by hand, failing first", "copy the collection", "graph export", "walk", "evaluate"};
struct World {
    bdd_mgr m; node_ref s[3]; bdd_collection c; int built = 0;
    World() { add_vars(m, 4); for (auto& x : s) x = m.botsink(); }
    size_t count() { return c.nr_bdds(); }
    void act(int a) {
        static const Pos pos = {0, 1, 3}; static const TT menu[4] = {0x96, 0xca, 0xe8, 0x1b}; mc::steps(); MC_NOTE("%s", op_name[a]);
        switch (a) {
            case 0: s[0] = build(m, menu[built++ % 4], pos); break;
            case 1: s[1] = build_minterms(m, menu[(built++ + 1) % 4], pos); break;
            case 2: s[2] = m.and_rec(s[0], s[1]); break; case 3: s[2] = m.or_rec(s[0], s[1]); break; case 4: s[2] = m.xor_rec(s[0], s[1]); break; case 5: s[2] = m.ite_rec(s[0], s[1], s[2]); break; case 6: s[2] = m.negate(s[0]); break;
            case 7: for (auto& x : s) x = m.botsink(); break;
            case 8: m.collect_garbage(); break;
            case 9: m.and_rec_limited(s[0], m.or_rec(s[1], m.projection(2)), 1); break; case 10: m.and_rec_limited(s[0], s[1], 1000); break;
            case 11: { std::unordered_map<size_t, size_t> t; for (size_t i = 0; i < 4; ++i) t[i] = i + 1; m.rebase(s[0], t); break; }
            case 12: { std::vector<size_t> t{1, 2, 4, 5}; s[2] = m.rebase(s[0], t.begin(), t.end()); break; }
            case 13: { std::vector<node_ref> l; for (int i = 0; i < 4; ++i) l.push_back(i == 2 ? s[0] : m.projection(i)); m.simplex(l.begin(), l.end()); m.at_most_one(l.begin(), l.end()); m.at_least_one(l.begin(), l.end()); m.all_false(l.begin(), l.end()); m.at_least(l.begin(), l.end(), 2); m.at_most(l.begin(), l.end(), 2); m.cardinality(l.begin(), l.end(), 2); break; }
            case 14: s[0].nr_nodes(); s[0].nodes_postorder(); s[0].nodes_bfs(); s[0].variables(); break;
            case 15: if (!s[0].is_terminal()) { std::stringstream o; s[0].print(o); } break;
            case 16: { std::vector<node_ref> l{s[0], s[1], m.projection(0), s[2], m.projection(3)}; m.and_rec(l.begin(), l.end()); m.or_rec(l.begin(), l.end()); m.xor_rec(s[0], s[1], s[2]); break; }
            case 17: s[0].exactly_one_solution(); s[0].find_bdd_mgr(); break;
            case 18: { std::vector<node_ref> v(20, s[0]); std::deque<node_ref> d(v.begin(), v.end()); std::set<size_t> k; std::unordered_map<node_ref, int> h; for (auto& x : s) h[x] = 1; v.swap(v); node_ref x(std::move(v[0])); v[1] = x; d.pop_front(); break; }
            case 19: m.projection(m.nr_variables()); break;
            case 20: c.add_bdd(s[0]); break; case 21: c.add_bdd(s[2]); break;
            case 22: if (count()) c.bdd_and(size_t(0), count() - 1); break;
            case 23: if (count()) c.bdd_and(size_t(0), count() - 1, 3); break;
            case 24: case 25: if (count()) { std::vector<size_t> x; for (size_t i = 0; i < 5; ++i) x.push_back(i % count()); a == 24 ? c.bdd_and(x.begin(), x.end()) : c.bdd_and(x.begin(), x.end(), 3); } break;
            case 26: if (count()) { std::set<size_t> p{0, 3}, q{1}; c.bdd_or_var(count() - 1, p, q); } break;
            case 27: case 28: if (count()) { std::vector<size_t> x{a == 27 ? 0 : count() - 1}; c.remove(x.begin(), x.end()); } break;
            case 29: if (count()) s[1] = c.export_bdd(m, count() - 1); break; case 30: if (count()) s[1] = m.add_bdd(c, 0); break;
            case 31: if (count()) { std::vector<size_t> t(m.nr_variables() + 1); for (size_t i = 0; i < t.size(); ++i) t[i] = i; c.rebase(0, t.begin(), t.end()); } break;
            case 32: case 33: { c.new_bdd(); auto x = c.add_bdd_node(0), y = c.add_bdd_node(2); x.set_lo_arc(y); x.set_hi_to_0_terminal(); y.set_lo_to_1_terminal(); if (a == 33) { bool thrown = false; try { c.close_bdd(); } catch (const std::runtime_error&) { thrown = true; } MC_CHECK(thrown, "closing with an arc left unset reports no error"); } y.set_hi_to_0_terminal(); c.close_bdd(); break; }
            case 34: { bdd_collection d(c), e; e = c; if (d.nr_bdds()) { d.bdd_and(size_t(0), size_t(0)); e = d; std::vector<size_t> x{0}; e.remove(x.begin(), x.end()); } bdd_collection f(std::move(d)); e = std::move(f); break; }
            case 35: if (count() && c[0].nr_nodes() > 2) { std::stringstream o; c.export_graphviz(0, o); } break;
            case 36: if (count() && c[0].nr_nodes() > 2) { auto e = c[0]; std::vector<bdd_collection_node> v; for (auto x = e.first_node_postorder(); !(x == e.root_node()); x = x.next_postorder()) v.push_back(x); e.variables(); } break;
            default: if (count()) { std::vector<char> l(m.nr_variables() + 2, 1); c.evaluate(0, l.begin(), l.end()); c.variables(0); c.nr_bdd_nodes(0, 1); } break;
        }
    }
    void tidy() { for (auto& x : s) x = m.botsink(); std::vector<size_t> all; for (size_t i = 0; i < count(); ++i) all.push_back(i); c.remove(all.begin(), all.end()); m.collect_garbage(); built = 0; }
};
struct Mem { long blocks, bytes; Mem() : blocks(mc::memory_blocks()), bytes(mc::memory_bytes()) {} };
// the same life of a manager and a collection three times: what the second leaves behind (lazily created statics apart), the third must not add to
template<class F> void lives(F&& life) {
    life(); life(); const Mem a; life(); const Mem b;
    MC_CHECK(b.blocks <= a.blocks && b.bytes <= a.bytes, "the life of a manager and a collection leaves %ld bytes in %ld blocks behind", b.bytes - a.bytes, b.blocks - a.blocks);
}
// all sequences of operations, everything destroyed at the end
void sequences(int depth, long first) {
    std::vector<int> a{int(first / OPS), int(first % OPS)}; for (int i = 2; i < depth; ++i) a.push_back(mc::choose(OPS, "op")); const int key = int(first % 5);
    lives([&] { key_regime(key % NKEYS); World w; for (int x : a) w.act(x); });
    mc::nontrivial(); uint64_t h = 5; for (int x : a) h = mc::mix(h, x); mc::state(h);
}
// the same operations again and again in one manager and collection, tidied up in between: the number of blocks of memory settles
void rounds(int depth, long first, int n) {
    std::vector<int> a{int(first)}; for (int i = 1; i < depth; ++i) a.push_back(mc::choose(OPS, "op")); for (int x : a) if (x == 19) return; // variables stay
    World w; long most = 0; key_regime(int(first % NKEYS));
    for (int r = 0; r < n; ++r) { w.act(0); w.act(1); w.act(20); for (int x : a) w.act(x); w.tidy(); const long b = mc::memory_blocks(); if (r > 1 && r <= n / 2) most = std::max(most, b); if (r > n / 2) MC_CHECK(b <= most, "round %d of the same work leaves %ld more blocks of memory in use than the first %d", r, b - most, n / 2); }
    MC_CHECK(w.m.nr_nodes() == 2 && w.count() == 0, "not tidy"); mc::nontrivial(); uint64_t h = 9; for (int x : a) h = mc::mix(h, x); mc::state(h);
}
// large diagrams in a manager
void scale(size_t n, int a, int b) {
    lives([&] {
        ref::Store s; const auto V = ref::vars(n, (a + b) % 4); const ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, V); bdd_mgr m; node_ref F = ref::make(m, s, f), G = ref::make(m, s, g), H = m.xor_rec(F, G); m.and_rec(F, G); m.and_rec_limited(G, m.negate(F), 3); mc::steps(5); F = m.topsink(); m.collect_garbage(); F = ref::make(m, s, f); bdd_collection c; const size_t x = c.add_bdd(F), y = c.add_bdd(G); c.bdd_and(x, y); c.bdd_and(x, y, 4); std::vector<size_t> z{x}; c.remove(z.begin(), z.end()); mc::beat();
    });
    mc::nontrivial(); mc::state(mc::mix(n, a * 64 + b));
}
// one manager, large diagrams again and again
void churn(size_t n, int a, int b) {
    ref::Store s; const auto V = ref::vars(n, (a + b) % 4); const ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, V); bdd_mgr m; add_vars(m, V.back() + 1); bdd_collection c; long at = 0;
    for (int r = 0; r < 12; ++r) {
        { node_ref F = ref::make(m, s, f), G = ref::make(m, s, g); m.xor_rec(F, G); node_ref H = m.or_rec(F, G); m.collect_garbage(); m.and_rec(G, F); const size_t x = c.add_bdd(H), y = c.add_bdd(G); c.bdd_and(x, y); c.bdd_and(x, y, 4); std::vector<size_t> z; while (z.size() < c.nr_bdds()) z.push_back(z.size()); c.remove(z.begin(), z.end()); mc::steps(6); }
        m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2, "%zu nodes left", m.nr_nodes()); const long now = mc::memory_blocks(); if (r > 1 && r < 6) at = std::max(at, now); if (r >= 6) MC_CHECK(now <= at, "%zu variables: round %d of the same work leaves %ld more blocks of memory in use than the first 6", n, r, now - at);
    }
    mc::nontrivial(); mc::state(mc::mix(n, 9000 + a * 64 + b));
}
// collections by themselves: bytes too
void stored_rounds(int k, int what) {
    bdd_collection c; static const TT t[4] = {0x96, 0xca, 0xe8, 0x1b}; const Pos pos{0, 2, 3}; for (int i = 0; i < k; ++i) put(c, t[i % 4], pos); long bytes = 0, blocks = 0; const auto before = all_stored(c);
    for (int r = 0; r < 24; ++r) {
        const size_t n = c.nr_bdds(); size_t x = 0;
        switch (what) { case 0: c.bdd_and(size_t(0), size_t(1)); break; case 1: { std::vector<size_t> l{0, 1, 2}; c.bdd_and(l.begin(), l.end()); break; } case 2: { std::set<size_t> p{0}, q{3}; c.bdd_or_var(1, p, q); break; } case 3: put(c, 0x69, pos); break; case 4: { c.new_bdd(); auto y = c.add_bdd_node(1); y.set_lo_to_0_terminal(); try { c.close_bdd(); } catch (const std::runtime_error&) { } y.set_hi_to_1_terminal(); c.close_bdd(); break; }
            case 5: c.bdd_and(size_t(0), size_t(1), 3); break; case 6: { std::vector<size_t> l{0, 1, 2}; c.bdd_and(l.begin(), l.end(), 3); break; } case 7: { bdd_collection d(c); c = d; break; } default: { bdd_mgr m; add_vars(m, 4); c.add_bdd(c.export_bdd(m, r % k)); break; } }
        std::vector<size_t> z; for (x = n; x < c.nr_bdds(); ++x) z.push_back(x); c.remove(z.begin(), z.end()); mc::steps(2); MC_CHECK(all_stored(c) == before, "BDDs changed");
        if (r == 12) { bytes = mc::memory_bytes(); blocks = mc::memory_blocks(); } if (r > 12) MC_CHECK(mc::memory_bytes() <= bytes && mc::memory_blocks() <= blocks, "round %d of the same work on a collection leaves %ld more bytes in use than round 12", r, mc::memory_bytes() - bytes);
    }
    mc::nontrivial(); mc::state(mc::mix(k, what));
}
// storage pools by themselves
void pools(int n) {
    lives([&] { bdd_mgr m; add_vars(m, size_t(n)); std::vector<node_ref> r; for (int i = 0; i < n; ++i) r.push_back(m.projection(i)); for (int i = 0; i + 1 < n; ++i) r.push_back(m.unique_find(i, r[i + 1], m.topsink())); m.collect_garbage(); r.resize(size_t(n) / 2); m.collect_garbage(); for (int i = n / 2; i < n; ++i) r.push_back(m.neg_projection(i)); });
    lives([&] { bdd_mgr m; m.projection(1); bdd_node_cache p(&m); std::vector<node*> x; for (int i = 0; i < n; ++i) x.push_back(p.reserve_node()); });
    lives([&] { unique_table_page_cache<64, 3> p; std::vector<unique_table_page<64>*> x; for (int i = 0; i < n; ++i) x.push_back(p.reserve_page()); for (int i = 0; i < n; i += 2) p.free_page(x[i]); });
    mc::steps(n); mc::nontrivial(); mc::state(n);
}
// growing unique tables: many nodes of one variable, most of them dropped, again and again
void tables(size_t nodes, int rounds) {
    bdd_mgr m; size_t k = 1; while ((size_t(1) << k) < 2 * nodes) ++k; add_vars(m, k + 1); long at = 0;
    for (int r = 0; r < rounds; ++r) {
        { std::vector<node_ref> low, all; for (size_t v = 1; v <= k; ++v) low.push_back(m.projection(v)); std::vector<node_ref> f{m.botsink(), m.topsink()}; for (size_t v = k; v >= 1 && f.size() < nodes + 2; --v) { const size_t e = f.size(); for (size_t i = 0; i < e && f.size() < nodes + 2; ++i) for (size_t j = 0; j < e && j < 40 && f.size() < nodes + 2; ++j) if (i != j) f.push_back(m.unique_find(v, f[i], f[j])); mc::beat(); }
          for (size_t i = 2; i + 1 < f.size(); ++i) all.push_back(m.unique_find(0, f[i], f[i + 1])); m.collect_garbage(); all.resize(all.size() / 100 + 1, m.botsink()); f.clear(); low.clear(); m.collect_garbage(); mc::steps(nodes); }
        m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2, "%zu nodes left", m.nr_nodes()); const long now = mc::memory_blocks(); if (r > 0 && r < 4) at = std::max(at, now); if (r >= 4) MC_CHECK(now <= at, "%zu nodes: round %d leaves %ld more blocks in use than round 2", nodes, r, now - at);
    }
    mc::nontrivial(); mc::state(mc::mix(nodes, 31));
}
// the result cache stops growing
void cap(int k) {
    mc::memory_reuse(true); bdd_mgr m; const int n = 26; add_vars(m, n); std::vector<node_ref> f; for (int i = 0; i < 2048; ++i) { node_ref r = m.topsink(); for (int v = n; v-- > 0;) r = (scatter(uint64_t(i) * 64 + v + k) & 1) ? m.unique_find(v, m.botsink(), r) : m.unique_find(v, r, m.botsink()); f.push_back(r); } m.collect_garbage();
    long at = 0; size_t done = 0; // xor of different cubes of 26 variables: some 20 results each
    for (int i = 0; i < 1500; ++i) { for (int j = 0; j < 640; ++j) { m.or_rec(f[(i * 17 + j * 31) % 2048], f[(i * 7 + j * 13 + 1) % 2048]); ++done; } m.collect_garbage(); mc::beat(); if (i == 999) at = mc::memory_bytes(); }
    const long now = mc::memory_bytes(); MC_CHECK(now <= at + (1 << 20), "%zu operations: %ld bytes in use, %ld after two thirds of them", done, now, at); MC_CHECK(now < (800l << 20), "%ld bytes in use by %zu nodes", now, m.nr_nodes());
    mc::steps(done); mc::nontrivial(); mc::state(k);
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH && !TINY_POOLS; std::vector<mc::Scenario> s;
    const int D = T ? 5 : 4, R = T ? 4 : 3;
    s.push_back({"sequences", "all sequences of " + std::to_string(D) + " operations out of 38 of a manager and a collection (failing ones included), everything destroyed, three times over", long(OPS) * OPS, [D](long u) { sequences(D, u); }, 60});
    s.push_back({"rounds", "all sequences of " + std::to_string(R) + " operations out of 37 repeated 10 times in one manager and collection, tidied up in between", OPS, [R](long u) { rounds(R, u, 10); }, 60});
    s.push_back({"stored-rounds", "nine kinds of work on a collection of 3..12 BDDs repeated 24 times, removed in between", 90, [](long u) { stored_rounds(3 + int(u / 9), int(u % 9)); }});
    s.push_back({"pools", "pools and tables of up to 400 variables", 200, [](long u) { pools(2 * int(u + 1)); }});
    { const size_t M = T ? 1025 : 257; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 6, [](long u) { ref::Far far(ref::FAR[u % 3]); const int a = int(u / 3 % 12), b = int((a + 1 + u / 36 * 2) % 12); scale(6, a, b); }, 120});
      s.push_back({"scale", "pairs of 14 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M), long(z.size()) * 28, [z](long u) { const size_t n = z[u / 28]; const int a = int(u / 2 % 14); if (a >= ref::WIDE && n > 20) return; scale(n, a, int((a + 5 + u % 2) % 12)); churn(n, a, int((a + 5 + u % 2) % 12)); }, 120}); }
    s.push_back({"tables", "2^k nodes of one variable and more, dropped, again and again, k = 6.." + std::to_string(T ? 18 : 15), T ? 13 : 10, [](long u) { tables(size_t(1) << (6 + u), 8); }, 120});
    s.push_back({"cap", "a million operations on large diagrams with collections: the result cache stops growing", T ? 4 : 1, [](long u) { cap(int(u)); }, 240});
    return s;
}
