// C26: recorded depth of nodes.
#include "ref.h"
#include "bdd_node_depth.h"
#include <functional>
#include <map>
using namespace kit; using namespace BDD;

namespace {
struct Diagram { std::vector<node*> nodes; std::vector<std::array<int, 2>> child; std::vector<size_t> depth; }; // children: index or -1
Diagram read(const std::vector<node_ref>& roots) { // the shared diagram, depth by the longest path
    Diagram d; std::map<node*, int> at;
    std::function<int(node_ref)> visit = [&](node_ref x) -> int {
        if (x.is_terminal()) return -1;
        auto it = at.find(x.address()); if (it != at.end()) return it->second;
        int l = visit(x.low()), h = visit(x.high()), i = int(d.nodes.size());
        d.nodes.push_back(x.address()); d.child.push_back({l, h}); at[x.address()] = i;
        size_t dep = 0; for (int c : d.child.back()) dep = std::max(dep, c < 0 ? 0 : d.depth[c]); d.depth.push_back(dep + 1); return i; };
    for (auto& r : roots) visit(r);
    return d;
}
void sinks(bdd_node_depth& r, bdd_mgr& m, bool topFirst) { if (topFirst) r.add_topsink(m.topsink().address()); r.add_botsink(m.botsink().address()); if (!topFirst) r.add_topsink(m.topsink().address()); }
void add(bdd_node_depth& r, const Diagram& d, int i) { const size_t got = r.add_node(d.nodes[i]); mc::steps(); MC_CHECK(got == d.depth[i], "node of variable %zu registered with depth %zu, its longest path has %zu decision nodes", size_t(d.nodes[i]->index), got, d.depth[i]); mc::state(mc::mix(got, d.nodes.size() * 64 + i)); }
// all child-first orders, by depth-first search over the ready nodes
void orders(bdd_mgr& m, const Diagram& d, long limit) {
    std::vector<int> seq; std::vector<char> done(d.nodes.size(), 0); long n = 0;
    std::function<void()> rec = [&] {
        if (n >= limit) return;
        if (seq.size() == d.nodes.size()) { bdd_node_depth r; sinks(r, m, n & 1); for (int i : seq) add(r, d, i); ++n; return; }
        for (size_t i = 0; i < done.size(); ++i) if (!done[i] && (d.child[i][0] < 0 || done[d.child[i][0]]) && (d.child[i][1] < 0 || done[d.child[i][1]])) { done[i] = 1; seq.push_back(int(i)); rec(); seq.pop_back(); done[i] = 0; } };
    rec();
}
void unchanged(bdd_mgr& m, node_ref& f, TT t, const Pos& pos, size_t nv, size_t count) { MC_CHECK(eval_tt(f, pos, nv) == t && m.nr_nodes() == count, "registering changed the BDD"); }
void function(bdd_mgr& m, TT t, const Pos& pos, size_t nv, long limit) {
    node_ref f = build(m, t, pos); const size_t c = m.nr_nodes(); Diagram d = read({f}); orders(m, d, limit); unchanged(m, f, t & ones(int(pos.size())), pos, nv, c);
    mc::nontrivial(d.nodes.size() > 2);
    // the diagram's own post-order, and the reverse of its breadth-first order where that is child-first
    bdd_node_depth r; sinks(r, m, t & 1); auto po = f.nodes_postorder(); for (auto& x : po) for (size_t i = 0; i < d.nodes.size(); ++i) if (d.nodes[i] == x.address()) add(r, d, int(i));
}
void several(int n, TT a, TT b, TT c) { // one register, three functions sharing nodes, one after the other; nodes already registered are not registered again
    bdd_mgr m; add_vars(m, n); const Pos p = ident(n); std::vector<node_ref> f{build(m, a, p), build(m, b, p), build(m, c, p)};
    for (auto& perm : permutations(3)) { std::vector<node_ref> o; for (int i : perm) o.push_back(f[i]); Diagram d = read(o); bdd_node_depth r, other; sinks(r, m, false); sinks(other, m, true); for (size_t i = 0; i < d.nodes.size(); ++i) { add(r, d, int(i)); if (i % 2 == 0) { } add(other, d, int(i)); } }
}
// diagrams of many levels, and of many nodes: the register itself grows and rehashes
void large(int n, int shape) {
    bdd_mgr m; add_vars(m, n); std::vector<node_ref> roots; node_ref f = m.topsink(), g = m.botsink();
    for (int i = n - 1; i >= 0; --i) {
        if (shape == 0) f = m.unique_find(i, m.botsink(), f); // chain
        else if (shape == 1) { node_ref a = i == n - 1 ? m.projection(i) : m.unique_find(i, f, g), b = i == n - 1 ? m.negate(m.projection(i)) : m.unique_find(i, g, f); f = a; g = b; } // parity: two nodes per level
        else if (shape == 2) { if (i % 3 == 0) f = m.unique_find(i, f == m.topsink() ? m.botsink() : m.topsink(), f); else { node_ref q = m.projection(i); f = m.or_rec(f, q); if (f.is_terminal()) f = q; } }
        else { node_ref q = m.projection(i); roots.push_back(q); f = i % 2 ? m.and_rec(q, f) : m.or_rec(q, f); if (f.is_terminal()) f = q; }
        if (!f.is_terminal()) roots.push_back(f); mc::steps();
    }
    Diagram d = read(roots); bdd_node_depth r; sinks(r, m, false); for (size_t i = 0; i < d.nodes.size(); ++i) add(r, d, int(i)); mc::nontrivial();
}
// a root whose children are the tops of two chains of given depths, variables and kinds
void unbalanced(int dl, int dh) {
    const int n = 2 * 34 + 8; bdd_mgr m; add_vars(m, n); std::vector<node_ref> keep;
    // chain of d nodes whose top has variable v, every step passing gap variables; the other arcs go to a sink
    const auto chain = [&](int v, int d, int gap, int kind, std::vector<node_ref>& out) { node_ref f = kind & 1 ? m.topsink() : m.botsink(); for (int i = d - 1; i >= 0; --i) { const size_t w = size_t(v) + i * (1 + gap); const node_ref other = f.is_botsink() ? m.topsink() : f.is_topsink() ? m.botsink() : (kind & 2) ? m.topsink() : m.botsink(); f = (kind >> 2 ^ i) & 1 ? m.unique_find(w, other, f) : m.unique_find(w, f, other); out.push_back(f); } return f; };
    for (int vl = 2; vl <= 5; ++vl) for (int vh = 2; vh <= 5; ++vh) for (int kind = 0; kind < 8; ++kind) for (int gap = 0; gap < 2; ++gap) {
        std::vector<node_ref> L, H; node_ref l = chain(vl, dl, gap, kind, L), h = chain(vh, dh, 1 - gap, kind ^ 5, H); if (l == h) continue;
        node_ref f = m.unique_find(1, l, h), g = m.unique_find(0, m.topsink(), f), k = m.unique_find(0, f, l); bdd_node_depth r; sinks(r, m, kind & 1); std::map<node*, size_t> dep;
        std::vector<node_ref> all(L); all.insert(all.end(), H.begin(), H.end()); all.push_back(f); all.push_back(g); if (!(f == l)) all.push_back(k);
        for (auto& x : all) { if (x.is_terminal() || dep.count(x.address())) continue; const auto d = [&](node_ref c) { return c.is_terminal() ? size_t(0) : dep.at(c.address()); }; const size_t want = 1 + std::max(d(x.low()), d(x.high())), got = r.add_node(x.address()); mc::steps(); MC_CHECK(got == want, "node of variable %zu over children of variables %zu and %zu at depths %zu and %zu registered with depth %zu", x.variable(), x.low().variable(), x.high().variable(), d(x.low()), d(x.high()), got); dep[x.address()] = want; }
    }
    mc::nontrivial(); mc::state(mc::mix(dl, dh));
}
// every node over every two nodes over every two chains: chains of depth 1..4 of two kinds from two variables, sinks; all in one register
void family(int unit, int units) {
    bdd_mgr m; add_vars(m, 16); std::vector<node_ref> P{m.botsink(), m.topsink()}, S; bdd_node_depth r; sinks(r, m, unit & 1); std::map<node*, size_t> dep;
    const auto D = [&](node_ref c) { return c.is_terminal() ? size_t(0) : dep.at(c.address()); };
    const auto reg = [&](node_ref x) { if (x.is_terminal() || dep.count(x.address())) return; const size_t want = 1 + std::max(D(x.low()), D(x.high())), got = r.add_node(x.address()); mc::steps(); MC_CHECK(got == want, "node of variable %zu over children of variables %zu and %zu at depths %zu and %zu registered with depth %zu", x.variable(), x.low().variable(), x.high().variable(), D(x.low()), D(x.high()), got); dep[x.address()] = want; };
    for (int from : {5, 8}) for (int kind = 0; kind < 2; ++kind) for (int d = 1; d <= 4; ++d) { node_ref f = kind ? m.topsink() : m.botsink(); for (int i = d - 1; i >= 0; --i) { const node_ref o = f.is_botsink() ? m.topsink() : m.botsink(); f = (i ^ kind) & 1 ? m.unique_find(from + 2 * i, o, f) : m.unique_find(from + 2 * i, f, o); reg(f); } P.push_back(f); }
    for (int v = 2; v <= 4; ++v) for (auto& a : P) for (auto& b : P) if (!(a == b)) { node_ref f = m.unique_find(v, a, b); reg(f); S.push_back(f); }
    S.insert(S.end(), P.begin(), P.end());
    for (size_t i = unit; i < S.size(); i += units) { mc::beat(); for (auto& t : S) { if (S[i] == t) continue; node_ref f = m.unique_find(1, S[i], t); reg(f); if (t.variable() > 4) reg(m.unique_find(0, f, t)); } }
    mc::nontrivial(); mc::state(mc::mix(unit, 977));
}
void scale(size_t n, int kind, int order) {
    ref::Store s; const auto V = ref::vars(n, (kind + order) % 4); const ref::Id f = ref::shape(s, kind, V); bdd_mgr m; node_ref F = ref::make(m, s, f); if (f < 2) return; mc::steps(1);
    std::unordered_map<node*, size_t> dep; bdd_node_depth r; sinks(r, m, order & 1); std::vector<node_ref> po = F.nodes_postorder();
    if (order == 2) std::stable_sort(po.begin(), po.end(), [](const node_ref& a, const node_ref& b) { return a.variable() > b.variable(); }); // level by level
    for (auto& x : po) { const auto d = [&](node_ref c) { return c.is_terminal() ? size_t(0) : dep.at(c.address()); }; const size_t want = 1 + std::max(d(x.low()), d(x.high())), got = r.add_node(x.address()); mc::steps(); MC_CHECK(got == want, "node of variable %zu (of %zu variables) registered with depth %zu, its longest path has %zu decision nodes", x.variable(), n, got, want); dep[x.address()] = want; }
    ref::is(s, F, f, "registered BDD", n); mc::nontrivial(); mc::state(mc::mix(n, kind * 16 + order));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s;
    for (int n = 1; n <= 3; ++n) s.push_back({"functions-" + std::to_string(n), "all functions of " + std::to_string(n) + " variables, all placements into " + std::to_string(n + 1) + ", every child-first registration order of every diagram", 8, [n](long u) { const long N = 1l << (1 << n); for (auto& pos : placements(n, n + 1)) { bdd_mgr m; add_vars(m, n + 1); for (long t = N * u / 8; t < N * (u + 1) / 8; ++t) function(m, t, pos, n + 1, 1000000); } }});
    s.push_back({"functions-4", T ? "all functions of 4 variables, up to 2000 registration orders each" : "all functions of 4 variables, up to 24 registration orders each", 64, [T](long u) { bdd_mgr m; add_vars(m, 4); for (long t = u * 1024; t < (u + 1) * 1024; ++t) function(m, t, ident(4), 4, T ? 2000 : 24); }, 120});
    s.push_back({"several", "one register for three functions of 3 variables (all pairs with a third), all orders", 64, [](long u) { for (int a = int(u) * 4; a < int(u) * 4 + 4; ++a) for (int b = 0; b < 256; b += 3) several(3, a, b, scatter(a * 256 + b) & 0xff); }});
    s.push_back({"large", "chains, parities and mixed diagrams of 1..60 levels (registers of up to several hundred nodes)", 60, [](long u) { for (int k = 0; k < 4; ++k) large(int(u) + 1, k); }});
    s.push_back({"unbalanced", "nodes over two chains of every pair of depths up to 32, children of every order of variables, eight kinds of chains", 33 * 33, [](long u) { unbalanced(int(u / 33), int(u % 33)); }});
    s.push_back({"family", "every node over every two nodes over every two chains of depth 1..4 or sinks, in one register", 54, [](long u) { family(int(u), 54); }, 120});
    { const size_t M = T ? 16385 : 4097; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 3, [](long u) { ref::Far far(ref::FAR[u % 3]); scale(6, int(u / 3 % 12), int(u / 36)); }, 120});
      s.push_back({"scale", "12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ", in post-order and level by level", long(z.size()) * 36, [z](long u) { scale(z[u / 36], int(u / 3 % 12), int(u % 3)); }, 120}); }
    { const int K = T ? 16 : 15; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + " (about 3 * 2^k nodes), in post-order and level by level", long(K - 3) * 2 * 3, [](long u) { const size_t n = 2 * (4 + size_t(u / 6)); const int kind = ref::WIDE + int(u / 3 % 2), r = int(u % 3); scale(n, kind, r); }, 240}); }
    return s;
}
