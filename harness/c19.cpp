// C19: walking through a stored BDD.
#include "ref.h"
#include <unordered_set>
using namespace kit; using namespace BDD;

namespace {
using Node = bdd_collection_node;
// a node whose entry is gone
Node root_of(bdd_collection& c, size_t nr) { return c[nr].root_node(); }
Node root_of_named(bdd_collection& c, size_t nr) { bdd_collection_entry e = c[nr]; Node n = e.root_node(); return n; }
Node root_of_heap(bdd_collection& c, size_t nr) { auto e = std::make_unique<bdd_collection_entry>(c[nr]); return e->root_node(); }
Node child(const Node& n, bool hi, int style) { return style ? (hi ? n.high() : n.low()) : (hi ? n.hi() : n.lo()); }
void clobber() { volatile char a[512]; for (int i = 0; i < 512; ++i) a[i] = char(0xDD); }

// the ranges of stored nodes, forwards and backwards
void instructions(const bdd_collection& c, size_t nr) {
    const auto f = c.get_bdd_instructions(nr); const auto b = c.get_reverse_bdd_instructions(nr); std::vector<bdd_instruction> x, y; for (auto it = f.first; it != f.second; ++it) x.push_back(*it);
    for (auto it = b.first; it != b.second; ++it) { y.push_back(*it); MC_CHECK(y.size() <= x.size(), "the range of nodes in reverse order is longer than the one in order"); }
    MC_CHECK(x.size() == c.nr_bdd_nodes(nr) && y.size() == x.size(), "%zu nodes, %zu in order, %zu in reverse order", c.nr_bdd_nodes(nr), x.size(), y.size());
    for (size_t i = 0; i < x.size(); ++i) { MC_CHECK(x[i] == y[x.size() - 1 - i] && !(x[i] != y[x.size() - 1 - i]), "the range in reverse order has another node at %zu", i); for (size_t j = 0; j < x.size() && j < 8; ++j) MC_CHECK((x[i] == x[j]) == (i == j) && (x[i] != x[j]) == (i != j), "comparison of stored nodes %zu and %zu is wrong", i, j); }
    size_t k = 0; const size_t at = c.offset(*f.first); for (auto it = f.first; it != f.second; ++it, ++k) MC_CHECK(c.offset(*it) == at + k, "offset of node %zu is wrong", k);
    k = x.size(); for (auto it = b.first; it != b.second; ++it) MC_CHECK(c.offset(*it) == at + --k, "offset of node %zu is wrong", k);
}
void walk(bdd_collection& c, size_t nr, TT t, const Pos& pos) {
    const int n = int(pos.size()); const Stored s = stored(c, nr); bdd_collection_entry e = c[nr]; mc::steps();
    Node r1 = root_of(c, nr); clobber(); Node r2 = root_of_named(c, nr); clobber(); Node r3 = root_of_heap(c, nr); clobber(); Node r4 = e.root_node();
    MC_CHECK(r1 == r2 && r2 == r3 && r3 == r4 && !(r1 != r4), "root nodes obtained in different ways differ");
    MC_CHECK(std::hash<Node>()(r1) == std::hash<Node>()(r4), "equal nodes have different hashes");
    Node bot = c[nr].botsink(), top = c[nr].topsink(), b2 = e.botsink(), t2 = e.topsink(); clobber();
    MC_CHECK(bot.is_botsink() && !bot.is_topsink() && bot.is_terminal(), "the entry's false sink is not the false sink");
    MC_CHECK(top.is_topsink() && !top.is_botsink() && top.is_terminal(), "the entry's true sink is not the true sink");
    MC_CHECK(bot == b2 && top == t2 && bot != top, "sinks compare wrongly");
    // every assignment, following low and high
    for (int a = 0; a < (1 << n); ++a) {
        Node x = a % 3 == 0 ? root_of(c, nr) : a % 3 == 1 ? r3 : e.root_node(); size_t last = 0; bool first = true; std::vector<Node> path;
        while (!x.is_terminal()) {
            MC_CHECK(!x.is_botsink() && !x.is_topsink(), "a decision node claims to be a sink");
            size_t v = x.variable(); MC_CHECK(first || v > last, "variables do not increase along a path"); first = false; last = v;
            int i = 0; while (i < n && pos[i] != v) ++i; MC_CHECK(i < n, "a node has variable %zu", v);
            path.push_back(x); Node y = child(x, a >> i & 1, a % 2); MC_CHECK(y != x && !(y == x), "a node equals its child"); Node z(y); x = path.size() % 2 ? z : child(path.back(), a >> i & 1, 1 - a % 2); 
        }
        const bool val = t >> a & 1; MC_CHECK(x.is_topsink() == val && x.is_botsink() == !val, "following assignment %d leads to the %s sink", a, x.is_topsink() ? "true" : "false");
        MC_CHECK(x == (val ? top : bot), "the sink reached is not the entry's sink");
    }
    // post-order
    if (s.nodes.size() > 2) {
        std::unordered_set<Node> seen; size_t k = 0; Node x = c[nr].first_node_postorder(); Node root = root_of(c, nr); clobber();
        for (;;) {
            MC_CHECK(!x.is_terminal(), "post-order visits a sink"); MC_CHECK(seen.insert(x).second, "post-order visits a node twice"); ++k;
            for (int h = 0; h < 2; ++h) { Node y = child(x, h, h); MC_CHECK(y.is_terminal() || seen.count(y), "post-order visits a node before its child"); }
            if (x == root) break; MC_CHECK(k <= s.nodes.size(), "post-order does not reach the root"); 
            Node y = x.next_postorder(); MC_CHECK(y != x, "post-order step stays"); x = y;
        }
        MC_CHECK(k == bdd_size(t, n), "post-order visits %zu decision nodes, there are %zu", k, bdd_size(t, n));
        MC_CHECK(seen.count(root) && !seen.count(bot) && !seen.count(top), "hash set of nodes wrong");
    }
    // positions
    std::vector<Node> ns; for (size_t i = 0; i < s.nodes.size(); ++i) { ns.push_back(i % 2 ? c[nr][i] : e[i]); }
    clobber(); MC_CHECK(ns[0] == r1, "position 0 is not the root");
    std::unordered_set<Node> all;
    for (size_t i = 0; i < ns.size(); ++i) {
        auto& w = s.nodes[i]; MC_CHECK(ns[i].is_terminal() == (w.sink != 0) && ns[i].is_botsink() == (w.sink == 'b') && ns[i].is_topsink() == (w.sink == 't'), "node at position %zu is of the wrong kind", i);
        if (!w.sink) { MC_CHECK(ns[i].variable() == w.var, "node at position %zu has the wrong variable", i); MC_CHECK(ns[i].lo() == ns[w.lo] && ns[i].hi() == ns[w.hi] && ns[i].low() == ns[w.lo] && ns[i].high() == ns[w.hi], "node at position %zu has the wrong children", i); }
        for (size_t j = 0; j < ns.size(); ++j) MC_CHECK((ns[i] == ns[j]) == (i == j) && (ns[i] != ns[j]) == (i != j), "comparison of positions %zu and %zu is wrong", i, j);
        MC_CHECK(all.insert(ns[i]).second, "hash set confuses nodes"); Node cp(ns[0]); cp = ns[i]; MC_CHECK(cp == ns[i], "assignment of nodes is wrong");
    }
    instructions(c, nr);
    MC_CHECK(stored(c, nr) == s, "walking changed the BDD"); 
}
void entry(bdd_collection& c, size_t nr) {
    bdd_collection_entry e = c[nr]; MC_CHECK(e.nr_nodes() == c.nr_bdd_nodes(nr) && e.variables() == c.variables(nr), "entry's queries differ"); 
    auto vs = c.variables(nr); for (size_t v : vs) MC_CHECK(e.nr_nodes(v) == c.nr_bdd_nodes(nr, v) && c[nr].nr_nodes(v) == e.nr_nodes(v), "entry's node count of a variable differs");
}
const char* ways[7] = {"imported", "conjunction with itself", "conjunction of two", "relaxed by nothing", "rebased", "moved by a removal", "built by hand"};
size_t produce(bdd_collection& c, TT t, const Pos& pos, int way) {
    const int n = int(pos.size()); 
    switch (way) {
        case 1: { size_t a = put(c, t, pos); return c.bdd_and(a, a); }
        case 2: { size_t a = put(c, t | (scatter(t) & ones(n)), pos), b = put(c, t | (~scatter(t) & ones(n)), pos); return c.bdd_and(a, b); }
        case 3: { size_t a = put(c, t, pos); std::set<size_t> none; return c.bdd_or_var(a, none, none); }
        case 4: { Pos q; for (int i = 0; i < n; ++i) q.push_back(i); size_t a = put(c, t, q); c.rebase(a, pos.begin(), pos.end()); return a; }
        case 5: { size_t a = put(c, 0x96, {0, 1, 2}), b = put(c, t, pos); std::vector<size_t> x{a}; c.remove(x.begin(), x.end()); return b - 1; }
        case 6: {
            std::set<TT> sub; subfunctions(t, n, sub); if (sub.empty()) return put(c, t, pos); size_t nr = c.new_bdd(); std::vector<std::pair<int, TT>> o; for (TT x : sub) { int i = 0; while (!depends(x, i, n)) ++i; o.push_back({i, x}); } std::sort(o.begin(), o.end());
            std::unordered_map<TT, size_t> at; for (size_t i = 0; i < o.size(); ++i) { c.add_bdd_node(pos[o[i].first]); at[o[i].second] = i; }
            for (auto& x : o) { Node y = c[nr][at[x.second]]; for (int h = 0; h < 2; ++h) { TT z = h ? cof1(x.second, x.first, n) : cof0(x.second, x.first, n); if (z == 0) { if (h) y.set_hi_to_0_terminal(); else y.set_lo_to_0_terminal(); } else if (z == ones(n)) { if (h) y.set_hi_to_1_terminal(); else y.set_lo_to_1_terminal(); } else { Node w = c[nr][at[z]]; if (h) y.set_hi_arc(w); else y.set_lo_arc(w); } } }
            c.close_bdd(); return nr; }
        default: return put(c, t, pos);
    }
}
void one(TT t, const Pos& pos, int way, int lead) {
    bdd_collection c; for (int i = 0; i < lead; ++i) put(c, i % 2 ? 0xff : 0xca, {0, 1, 2}); size_t nr = produce(c, t, pos, way); if (lead) put(c, 0xe8, {0, 1, 2});
    MC_NOTE("%s, %s, %d before", str(t, pos.size()).c_str(), ways[way], lead); 
    if (bdd_size(t, int(pos.size())) > 0) walk(c, nr, t, pos); else { bdd_collection_entry e = c[nr]; MC_CHECK(e.botsink().is_botsink() && e.topsink().is_topsink() && c[nr].root_node().is_terminal() && c[nr].root_node().is_topsink() == (t != 0), "sinks of a constant are wrong"); }
    entry(c, nr); mc::nontrivial(t != 0); mc::state(mc::mix(mc::mix(t, pos.size()), way));
}
void conj(TT a) {
    static const Pos pos = {0, 2, 3}; for (TT b = 0; b < 256; b += 3) {
        bdd_collection c; size_t x = put(c, a, pos), y = produce(c, b, pos, int(b % 6)); const size_t n = c.nr_bdds(); bdd_collection_entry f = c[y], e = b % 2 ? c[x] & f : f & f; TT w = b % 2 ? a & b : b;
        MC_CHECK(c.nr_bdds() == n + 1, "entry conjunction stores %zu BDDs", c.nr_bdds() - n); check_stored(c, n, w, pos, "entry conjunction"); MC_CHECK(e.nr_nodes() == c.nr_bdd_nodes(n) && e.variables() == c.variables(n), "entry conjunction refers to another BDD");
        if (bdd_size(w, 3)) walk(c, n, w, pos); mc::steps();
    }
    mc::state(a);
}
void scale(size_t n, int kind, int place) {
    ref::Store s; const auto V = ref::vars(n, place); const ref::Id f = ref::shape(s, kind, V); if (f < 2) return; bdd_collection c; ref::put(c, s, ref::shape(s, 3, ref::vars(6))); const size_t nr = ref::put(c, s, f); ref::put(c, s, ref::shape(s, 1, ref::vars(7))); const Stored d = stored(c, nr); bdd_collection_entry e = c[nr]; mc::steps(3);
    const size_t size = s.size(f); size_t count = 0; std::unordered_set<Node> seen; std::set<std::array<size_t, 3>> none; Node x = e.first_node_postorder(); const Node root = e.root_node();
    for (;; x = x.next_postorder()) { MC_CHECK(!x.is_terminal(), "post-order walk reaches a sink"); MC_CHECK(++count <= size, "post-order walk of %zu nodes is too long", size); for (Node y : {x.lo(), x.hi()}) MC_CHECK(y.is_terminal() || seen.count(y), "post-order walk reaches a node before its child"); MC_CHECK(seen.insert(x).second, "post-order walk reaches a node twice"); if (count % 256 == 0) mc::beat(); if (x == root) break; MC_CHECK(x != root, "comparison"); }
    MC_CHECK(count == size, "post-order walk visits %zu of %zu nodes", count, size);
    for (size_t i = 0; i < d.nodes.size(); ++i) { Node y = e[i], z = c[nr][i]; MC_CHECK(y == z && y.is_botsink() == (d.nodes[i].sink == 'b') && y.is_topsink() == (d.nodes[i].sink == 't') && y.is_terminal() == bool(d.nodes[i].sink), "node at position %zu", i); if (!d.nodes[i].sink) MC_CHECK(y.variable() == d.nodes[i].var && y.low() == e[d.nodes[i].lo] && y.high() == e[d.nodes[i].hi], "children at position %zu", i); if (i % 256 == 0) mc::beat(); }
    ref::assignments(V, V.back() + 1, [&](const std::vector<char>& lab) { Node y = c[nr].root_node(); while (!y.is_terminal()) { Node z = lab[y.variable()] ? y.hi() : y.lo(); y = z; } const bool w = s.eval(f, [&](size_t v) { return lab[v]; }); MC_CHECK(y == (w ? e.topsink() : e.botsink()), "walk ends at the wrong sink"); });
    instructions(c, nr); MC_CHECK(stored(c, nr) == d, "walking changed the BDD"); mc::nontrivial(); mc::state(mc::mix(n, kind * 16 + place));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(); std::vector<mc::Scenario> s;
    s.push_back({"all-3var", "all 256 functions of 3 variables, produced in 7 ways, with 0..3 BDDs before", 256, [](long u) { for (int w = 0; w < 7; ++w) for (int l = 0; l < 4; ++l) one(u, {0, 2, 3}, w, l); }});
    s.push_back({"entry-conjunction", "conjunctions of entries: 256 x 86 pairs", 256, [](long u) { conj(u); }});
    s.push_back({"4var", A && T ? "all 65536 functions of 4 variables in 7 ways" : "functions of 4 variables of a covering design (4096), ways rotating", A && T ? 512 : 32, [=](long u) { for (int k = 0; k < 128; ++k) for (int w = 0; w < (A && T ? 7 : 1); ++w) one(scatter(u * 128 + k) & 0xffff, {1, 2, 4, 5}, (k + w) % 7, (k / 7) % 3); }, 60});
    s.push_back({"5-6var", "functions of 5 and 6 variables of a covering design, 7 ways", T ? 256 : 32, [](long u) { for (int k = 0; k < 14; ++k) { TT t = scatter(u * 14 + k); if (k % 2) one(t & ones(5), ident(5), k % 7, 1); else one(t & (t >> 9), ident(6), k % 7, 2); } }, 60});
    { const size_t M = A ? (T ? 4097 : 2049) : 129; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 4, [](long u) { ref::Far far(ref::FAR[u % 3]); scale(6, int(u / 3 % 12), int(u / 36)); }, 120});
      s.push_back({"scale", "12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ", complete walks", long(z.size()) * 12, [z](long u) { scale(z[u / 12], int(u % 12), int((u + u / 12) % 4)); }, 120}); }
    { const int K = mc::memory_controlled() ? (T ? 16 : 15) : 6; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + " (about 3 * 2^k nodes), complete walks", long(K - 3) * 2 * 2, [](long u) { const size_t n = 2 * (4 + size_t(u / 4)); const int kind = ref::WIDE + int(u / 2 % 2), r = int(u % 2); scale(n, kind, r); }, 240}); }
    return s;
}
