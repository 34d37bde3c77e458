// C04: a collection reclaims everything unreferenced; counts and reference handling are exact.
#include "ref.h"
#include <deque>
#include "hist.h"
#include <list>
#include <map>
using namespace hist;

namespace {
void check_count(World& w, const char* when) {
    size_t got = w.m.nr_nodes(), want = w.expected_count();
    MC_CHECK(got == want, "%s: %zu nodes reported, %zu are reachable from the references (%s, %s, %s) including the sinks", when, got, want, str(w.t[0], 3).c_str(), str(w.t[1], 3).c_str(), str(w.t[2], 3).c_str());
}
void history(int depth, int keys, const std::vector<int>& prefix) {
    key_regime(keys); World w(ident(3), 3); size_t last = 2;
    auto step = [&](int a) {
        w.act(a); size_t c = w.m.nr_nodes();
        if (a == World::ACTIONS - 1) check_count(w, "right after a collection");
        else MC_CHECK(c >= last, "node count went from %zu to %zu without a collection", last, c);
        MC_CHECK(c >= w.expected_count(), "%zu nodes reported, at least %zu are reachable", c, w.expected_count());
        last = c;
    };
    for (int a : prefix) step(a);
    for (int i = int(prefix.size()); i < depth; ++i) step(mc::choose(World::ACTIONS, "action"));
    w.m.collect_garbage(); check_count(w, "after the final collection");
    for (int i = 0; i < 3; ++i) { w.s[i] = node_ref(); w.t[i] = 0; w.m.collect_garbage(); check_count(w, "after dropping one more reference"); }
    MC_CHECK(w.m.nr_nodes() == 2, "%zu nodes left after everything was dropped", w.m.nr_nodes());
    mc::state(mc::mix(w.hash(), depth));
}
// manipulations of references: three variables and two containers
void handles(int depth, int keys, int first) {
    key_regime(keys); bdd_mgr m; add_vars(m, 3); const Pos pos = ident(3);
    {
        node_ref s[3]; TT t[3]; bool null[3] = {false, false, false};
        t[0] = 0x96; t[1] = 0xe8; t[2] = 0xc0; for (int i = 0; i < 3; ++i) s[i] = build(m, t[i], pos);
        std::vector<node_ref> v; std::vector<TT> vt;
        std::list<node_ref> l; std::list<TT> lt;
        auto act = [&](int a) {
            mc::steps();
            if (a < 9) { int i = a / 3, j = a % 3; s[i] = s[j]; t[i] = t[j]; null[i] = null[j]; MC_NOTE("s%d = s%d", i, j); }
            else if (a < 12) { int i = (a - 9), j = (a - 8) % 3; std::swap(s[i], s[j]); std::swap(t[i], t[j]); std::swap(null[i], null[j]); MC_NOTE("swap(s%d, s%d)", i, j); }
            else if (a < 15) { int i = a - 12, j = (i + 1) % 3; node_ref x(std::move(s[i])); s[i] = node_ref(s[j]); s[j] = std::move(x); std::swap(t[i], t[j]); std::swap(null[i], null[j]); MC_NOTE("move s%d through a temporary into s%d", i, j); }
            else if (a < 18) { int i = a - 15; v.push_back(s[i]); vt.push_back(null[i] ? 0 : t[i]); MC_NOTE("v.push_back(s%d)", i); }
            else if (a == 18) { if (!v.empty()) { v.erase(v.begin()); vt.erase(vt.begin()); } MC_NOTE("v.erase(first)"); }
            else if (a == 19) { std::vector<node_ref> w(v); std::vector<node_ref> x(std::move(v)); v = w; w.clear(); MC_NOTE("copy and move v"); }
            else if (a == 20) { s[0] = node_ref(); null[0] = true; t[0] = 0; MC_NOTE("s0 = null"); }
            else if (a == 21) { node_ref x = s[1]; { node_ref y(x), z; z = y; y = z; x = x; } s[1] = x; MC_NOTE("temporaries of s1"); }
            else if (a == 22) { l.push_front(s[2]); lt.push_front(null[2] ? 0 : t[2]); if (l.size() > 2) { l.pop_back(); lt.pop_back(); } MC_NOTE("list.push_front(s2)"); }
            else if (a == 23) { std::reverse(v.begin(), v.end()); std::reverse(vt.begin(), vt.end()); if (!v.empty()) v.resize(v.size() - 1), vt.pop_back(); MC_NOTE("reverse v, shrink"); }
            else { std::unordered_map<node_ref, int> h; std::map<int, node_ref> q; for (int i = 0; i < 3; ++i) if (!null[i]) { h.insert({s[i], i}); q[i] = s[i]; } for (int i = 0; i < 3; ++i) if (!null[i]) MC_CHECK(h.count(s[i]) == 1, "hash map lookup fails"); MC_NOTE("hash map and tree map of references"); }
        };
        act(first);
        for (int i = 1; i < depth; ++i) act(mc::choose(25, "action"));
        m.collect_garbage();
        std::vector<TT> live(vt); live.insert(live.end(), lt.begin(), lt.end());
        for (int i = 0; i < 3; ++i) { MC_CHECK((s[i].address() == nullptr) == null[i], "s%d should be %s", i, null[i] ? "null" : "a BDD"); if (!null[i]) live.push_back(t[i]); }
        for (int i = 0; i < 3; ++i) if (!null[i]) MC_CHECK(eval_tt(s[i], pos, 3) == t[i], "s%d changed to %s, expected %s", i, str(eval_tt(s[i], pos, 3), 3).c_str(), str(t[i], 3).c_str());
        for (size_t i = 0; i < v.size(); ++i) if (v[i].address()) MC_CHECK(eval_tt(v[i], pos, 3) == vt[i], "element %zu of the vector changed", i);
        MC_CHECK(m.nr_nodes() == 2 + shared_size(live, 3), "after a collection %zu nodes are reported, %zu are reachable", m.nr_nodes(), 2 + shared_size(live, 3));
        mc::state(mc::mix(m.nr_nodes(), mc::mix(v.size(), t[0] << 16 | t[1] << 8 | t[2])));
    }
    m.collect_garbage();
    MC_CHECK(m.nr_nodes() == 2, "%zu nodes left after all references and containers were destroyed", m.nr_nodes());
}
// every public operation, results dropped: nothing may stay behind
void leftovers(int which, bool small) {
    const int keys = mc::choose(NKEYS, "keys"); key_regime(keys); bdd_mgr m; add_vars(m, 4); const Pos pos = ident(4);
    TT f = mc::choose(16, "f") * 0x1111u ^ 0x6ac3u, g = mc::choose(16, "g") * 0x0f0fu ^ 0x37c8u; f &= 65535; g &= 65535; if (small) { const auto wide = [](int t, int v, int w) { TT r = 0; for (int x = 0; x < 16; ++x) if (t >> ((x >> v & 1) | (x >> w & 1) << 1) & 1) r |= TT(1) << x; return r; }; const int k = mc::choose(3, "variables"); f = wide(int((f ^ 0x6ac3u) & 15), k, 3); g = wide(int((g ^ 0x37c8u) & 15), k == 1 ? 2 : 1, k == 2 ? 0 : 3); }
    node_ref a = build(m, f, pos), b = build(m, g, pos);
    m.collect_garbage();
    const size_t base = m.nr_nodes(); MC_CHECK(base == 2 + shared_size({f, g}, 4), "count after building two operands and collecting: %zu, expected %zu", base, 2 + shared_size({f, g}, 4));
    std::vector<node_ref> in{a, b, m.projection(2)};
    m.collect_garbage(); const size_t base2 = m.nr_nodes();
    bdd_collection col;
    switch (which) {
        case 0: m.and_rec(a, b); m.or_rec(a, b); m.xor_rec(a, b); break;
        case 1: m.ite_rec(a, b, m.projection(3)); m.ite_rec(b, m.projection(0), a); break;
        case 2: m.negate(a); !b; break;
        case 3: { auto r = m.and_rec_limited(a, b, 1 + f % 7); auto q = m.and_rec_limited(b, a, 100); } break;
        case 4: m.and_rec(in.begin(), in.end()); m.or_rec(in.begin(), in.end()); m.xor_rec(in.begin(), in.end()); m.and_rec(a, b, in[2]); m.or_rec(a, b, in[2], a); break;
        case 5: m.simplex(in.begin(), in.end()); m.at_most_one(in.begin(), in.end()); m.all_false(in.begin(), in.end()); m.at_least_one(in.begin(), in.end()); break;
        case 6: m.at_least(in.begin(), in.end(), 2); m.at_most(in.begin(), in.end(), 1); m.cardinality(in.begin(), in.end(), 2); break;
        case 7: { std::unordered_map<size_t, size_t> mp{{0, 1}, {1, 2}, {2, 4}, {3, 7}}; m.rebase(a, mp); std::vector<size_t> mv{0, 2, 3, 5}; m.rebase(b, mv.begin(), mv.end()); } break;
        case 8: a.nodes_postorder(); b.nodes_bfs(); a.variables(); a.nr_nodes(); b.exactly_one_solution(); if (!a.is_terminal()) { a.low(); node_ref h = a.high(); if (!h.is_terminal()) h.low(); } break;
        case 9: { size_t i = col.add_bdd(a), j = col.add_bdd(b); size_t k = col.bdd_and(i, j); col.export_bdd(m, k); m.add_bdd(col, i); m.add_bdd(col, k); } break;
        case 10: { m.botsink(); m.topsink(); a.botsink(); b.topsink(); m.projection(6); m.neg_projection(1); } break;
    }
    MC_NOTE("operation group %d on %s, %s, results dropped", which, str(f, 4).c_str(), str(g, 4).c_str());
    MC_CHECK(m.nr_nodes() >= base2, "count decreased without collection");
    m.collect_garbage();
    MC_CHECK(m.nr_nodes() == base2, "operation group %d on %s and %s: %zu nodes after dropping the results and collecting, %zu before", which, str(f, 4).c_str(), str(g, 4).c_str(), m.nr_nodes(), base2);
    MC_CHECK(eval_tt(a, pos, m.nr_variables()) == f && eval_tt(b, pos, m.nr_variables()) == g, "operand changed");
    in.clear(); a = node_ref(); b = m.topsink(); m.collect_garbage();
    MC_CHECK(m.nr_nodes() == 2, "%zu nodes left at the end", m.nr_nodes());
    mc::steps(4); mc::state(mc::mix(mc::mix(f, g), which));
}
// long chains and many nodes, dropped in parts
void bulk(int n, int q, int keys) {
    key_regime(keys); bdd_mgr m; add_vars(m, n + 2); std::vector<node_ref> r; std::vector<size_t> sz;
    size_t total = 2;
    { node_ref c = m.topsink(); for (int i = n; i-- > 0;) c = m.unique_find(i, c, m.botsink()); r.push_back(c); total += n; }
    MC_CHECK(m.nr_nodes() == total, "chain of %d nodes: count %zu", n, m.nr_nodes());
    std::vector<node_ref> p; for (int i = 0; i < n; ++i) p.push_back(m.unique_find(n + 1, i % 2 ? m.botsink() : m.topsink(), i % 2 ? m.topsink() : m.botsink()));
    p.clear();
    for (int i = 0; i < n; ++i) p.push_back(m.unique_find(i, m.botsink(), m.topsink())); // projections
    m.collect_garbage(); total += n - 0;
    // the chain's nodes and the projections of all variables are disjoint
    MC_CHECK(m.nr_nodes() == total, "chain and %d projections: count %zu, expected %zu", n, m.nr_nodes(), total);
    size_t kept = 0; for (int i = 0; i < n; ++i) if (i % q != 0) p[i] = node_ref(); else ++kept;
    m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2 + n + kept, "count %zu after dropping projections, expected %zu", m.nr_nodes(), 2 + n + kept);
    r.clear(); m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2 + kept, "count %zu after dropping the chain, expected %zu", m.nr_nodes(), 2 + kept);
    p.clear(); m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2, "count %zu at the end", m.nr_nodes());
    mc::steps(3 * n); mc::state(mc::mix(n, q * 4 + keys));
}
// large diagrams: the count after each collection
void scale(size_t n, int a, int b) {
    ref::Store s; const auto V = ref::vars(n, a % 4); const ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, V); bdd_mgr m; add_vars(m, V.back() + 1); mc::steps(10);
    const auto count = [&](std::vector<ref::Id> live, const char* when) { m.collect_garbage(); const size_t want = s.size(live) + 2; MC_CHECK(m.nr_nodes() == want, "%zu variables, %s: count %zu after collection, %zu nodes referenced", n, when, m.nr_nodes(), want); };
    { node_ref F = ref::make(m, s, f); MC_CHECK(m.nr_nodes() == s.size(f) + 2, "%zu variables: count %zu after building %zu nodes", n, m.nr_nodes(), s.size(f)); count({f}, "one BDD");
      node_ref G = ref::make(m, s, g); MC_CHECK(m.nr_nodes() == s.size({f, g}) + 2, "%zu variables: count after building two", n); node_ref K = m.or_rec(F, G); count({f, g, s.lor(f, g)}, "three BDDs");
      F = K; count({g, s.lor(f, g)}, "first replaced"); { node_ref t = m.negate(K); t = m.and_rec(t, G); node_ref L(t); } G = m.topsink(); count({s.lor(f, g)}, "second dropped");
      if (s.lor(f, g) > 1) { const ref::Id k = s.lor(f, g); node_ref lo = K.low(), hi = K.high(); F = lo; K = hi; count({s.n[k].lo, s.n[k].hi}, "children kept"); } }
    count({}, "all dropped"); { node_ref F = ref::make(m, s, g); MC_CHECK(m.nr_nodes() == s.size(g) + 2, "count after building again"); } count({}, "all dropped again"); mc::nontrivial(); mc::state(mc::mix(n, a * 64 + b));
}
// k references to the same nodes, dropped in three ways
void many(size_t k, int how) {
    bdd_mgr m; add_vars(m, 4); node_ref x = m.xor_rec(m.projection(1), m.projection(3)); m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2 + 3, "count %zu", m.nr_nodes()); const size_t rc = x.reference_count();
    { std::vector<node_ref> v; std::deque<node_ref> d; for (size_t i = 0; i < k; ++i) { if (how == 1) d.push_back(x); else v.push_back(how == 2 ? m.xor_rec(m.projection(3), m.projection(1)) : x); if (i % 4096 == 0) mc::beat(); }
      MC_CHECK(x.reference_count() == rc + k, "%zu references more, reference count went from %zu to %zu", k, rc, x.reference_count()); m.collect_garbage(); MC_CHECK(m.nr_nodes() == 5, "%zu references: count %zu after collection, 3 nodes are referenced", k, m.nr_nodes());
      if (how == 0) { std::vector<node_ref> w(v); w = v; v = w; v.resize(k / 2); } if (how == 2) while (v.size() > 1) v.pop_back(); }
    MC_CHECK(x.reference_count() == rc, "after dropping %zu references the count is %zu instead of %zu", k, x.reference_count(), rc); m.collect_garbage(); MC_CHECK(m.nr_nodes() == 5 && eval_tt(x, {1, 3}, 4) == 6, "%zu references dropped, one kept: count %zu", k, m.nr_nodes());
    x = m.botsink(); m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2, "all references dropped (%zu): count %zu", k, m.nr_nodes()); mc::steps(k); mc::nontrivial(); mc::state(mc::mix(k, how));
}
// k nodes with the same child: references held by nodes
void parents(size_t k) {
    bdd_mgr m; add_vars(m, k + 1); node_ref last = m.projection(k); std::vector<node_ref> p; for (size_t i = 0; i < k; ++i) { p.push_back(m.unique_find(i, i % 2 ? last : m.botsink(), i % 2 ? m.topsink() : last)); if (i % 4096 == 0) mc::beat(); }
    MC_CHECK(m.nr_nodes() == k + 3, "%zu parents of a node: count %zu", k, m.nr_nodes()); last = m.botsink(); m.collect_garbage(); MC_CHECK(m.nr_nodes() == k + 3, "%zu parents of a node: count %zu after collection", k, m.nr_nodes());
    node_ref one(p[k / 2]); p.clear(); m.collect_garbage(); MC_CHECK(m.nr_nodes() == 4, "one of %zu parents kept: count %zu", k, m.nr_nodes()); one = m.topsink(); m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2, "%zu parents dropped: count %zu", k, m.nr_nodes()); mc::steps(k); mc::nontrivial(); mc::state(mc::mix(99, k));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; const int A = World::ACTIONS;
    std::vector<mc::Scenario> s;
    const int D = T ? 6 : 5, HD = T ? 5 : 4;
    s.push_back({"histories", "all histories of " + std::to_string(D) + " actions out of 23, count compared with the reachable nodes after every collection, then references dropped one by one", A * A,
        [=](long u) { history(D, 3, {int(u / A), int(u % A)}); }, 60});
    s.push_back({"histories-key-regimes", "all histories of " + std::to_string(D - 1) + " actions in each of the 4 hash-key regimes", NKEYS * A,
        [=](long u) { history(D - 1, u / A, {int(u % A)}); }, 60});
    s.push_back({"handles", "all sequences of " + std::to_string(HD) + " of 25 manipulations of references (assign, self-assign, move, swap, containers, maps, null)", 25 * 2,
        [=](long u) { handles(HD, u % 2 ? 3 : 0, int(u / 2)); }, 60});
    s.push_back({"leftovers", "every public operation on 256 operand pairs x 4 hash-key regimes with results dropped", 11, [](long u) { leftovers(int(u), false); }});
    s.push_back({"leftovers-small", "the same on all pairs of functions of two variables (three choices of the variables), constants and literals among them", 11, [](long u) { leftovers(int(u), true); }});
    s.push_back({"bulk", "chains and projections of 1..300 variables, dropped with every period up to 4, 4 hash-key regimes", 300,
        [](long u) { for (int q = 1; q <= 4; ++q) for (int k = 0; k < NKEYS; ++k) bulk(int(u) + 2, q, k); }});
    { const size_t M = T ? 8193 : 4097; std::vector<std::array<int, 3>> u; for (size_t n : ref::sizes(M)) for (int a = 0; a < ref::SHAPES; ++a) for (int b = 0; b < ref::SHAPES; ++b) if (ref::pair_at(n, a, b) && (a * 5 + b * 7 + n) % (T ? 2 : n < 300 ? 5 : 11) == 1) u.push_back({int(n), a, b});
      s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 6, [](long u) { ref::Far far(ref::FAR[u % 3]); const int a = int(u / 3 % 12), b = int((a + 1 + u / 36 * 2) % 12); scale(6, a, b); }, 120});
      s.push_back({"scale", "pairs of 12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ": exact count over seven collections", long(u.size()), [u](long i) { scale(u[i][0], u[i][1], u[i][2]); }, 120});
      const auto z = ref::sizes(T ? 1000000 : 131073, 15); s.push_back({"many-references", "2^k-1, 2^k, 2^k+1 references to one node, up to " + std::to_string(z.back()) + ", dropped in three ways; up to 16385 nodes with a common child", long(z.size()) * 4, [z](long i) { if (i % 4 < 3) many(z[i / 4], int(i % 4)); else if (z[i / 4] <= 16385) parents(z[i / 4]); }, 120}); }
    return s;
}
