// C29: marks. A mark belongs to one node, new nodes have none, and only the marking functions change it.
#include "ref.h"
using namespace kit; using namespace BDD;

namespace {
std::vector<node_ref> below(node_ref f) { // all decision nodes under f, f first
    std::vector<node_ref> v; std::set<node*> seen; std::vector<node_ref> todo{f};
    while (!todo.empty()) { node_ref x = todo.back(); todo.pop_back(); if (x.is_terminal() || !seen.insert(x.address()).second) continue; v.push_back(x); todo.push_back(x.low()); todo.push_back(x.high()); }
    return v;
}
using Marks = std::map<node*, bool>;
Marks marks_of(const std::vector<node_ref>& v) { Marks m; for (auto& x : v) m[x.address()] = x.marked(); return m; }
void same(const std::vector<node_ref>& v, const Marks& m, const char* who) { for (auto& x : v) MC_CHECK(x.marked() == m.at(x.address()), "%s: a node of variable %zu is %s", who, x.variable(), x.marked() ? "marked" : "no longer marked"); }
void merge(std::vector<node_ref>& v, const std::vector<node_ref>& w) { for (auto& x : w) if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }

// every subset of the nodes of two functions that share a manager
void subsets(TT f, TT g) {
    static const Pos pos = {0, 2, 3};
    bdd_mgr m; add_vars(m, 4); node_ref F = build(m, f, pos), G = build(m, g, pos); std::vector<node_ref> v = below(F); merge(v, below(G)); const int n = int(v.size()); for (auto& x : v) MC_CHECK(!x.marked(), "a new node is marked");
    for (int s = 0; s < (1 << std::min(n, 7)); ++s) {
        mc::steps(); Marks want; for (int i = 0; i < n; ++i) { want[v[i].address()] = s >> (i % 7) & 1; if (want[v[i].address()]) { node_ref c(v[i]); c.mark(); } }
        same(v, want, "marking"); for (int i = 0; i < n; i += 2) { const bool b = v[i].marked(); v[i].unmark(); want[v[i].address()] = false; same(v, want, "unmarking one node"); v[i].mark(); v[i].mark(); want[v[i].address()] = true; same(v, want, "marking one node"); if (!b) { v[i].unmark(); want[v[i].address()] = false; } }
        // unmarking from one root: what is reached through marked nodes is cleared, what is not below keeps its mark
        for (int r = 0; r < 2; ++r) {
            node_ref R = r ? G : F; std::set<node*> under, cleared; for (auto& x : below(R)) under.insert(x.address());
            std::vector<node_ref> todo{R}; while (!todo.empty()) { node_ref x = todo.back(); todo.pop_back(); if (x.is_terminal() || !want[x.address()] || !cleared.insert(x.address()).second) continue; todo.push_back(x.low()); todo.push_back(x.high()); }
            R.unmark_rec();
            for (auto& x : v) { if (cleared.count(x.address())) MC_CHECK(!x.marked(), "unmarking leaves a node of variable %zu marked", x.variable()); else if (!under.count(x.address())) MC_CHECK(x.marked() == want[x.address()], "unmarking changes a node outside the BDD"); want[x.address()] = x.marked(); }
        }
        for (auto& x : v) x.unmark();
    }
    // all marked: unmarking clears all of it; marks are nothing a query has to do with, and queries leave none
    for (auto& x : below(F)) x.mark(); F.unmark_rec(); for (auto& x : v) MC_CHECK(!x.marked(), "unmarking leaves a mark");
    F.nr_nodes(); F.nodes_postorder(); F.nodes_bfs(); F.variables(); F.exactly_one_solution(); F.find_bdd_mgr(); for (auto& x : v) MC_CHECK(!x.marked(), "a query leaves a mark");
    mc::nontrivial(n > 0); mc::state(mc::mix(f, g));
}
// operations neither use nor change marks
const char* op_name[] = {"and", "or", "xor", "negate", "if-then-else", "and of several", "collect garbage", "new variables", "copies of handles", "equality", "evaluation", "at most one", "operators"};
constexpr int OPS = 13;
void operations(TT f, TT g, int a, int b) {
    static const Pos pos = {0, 2, 3}; const TT T = 0xff;
    for (int s = 0; s < 16; ++s) {
        bdd_mgr m; add_vars(m, 4); node_ref F = build(m, f, pos), G = build(m, g, pos); std::vector<node_ref> v = below(F); merge(v, below(G)); node_ref p = m.projection(0), q = m.projection(2), r = m.projection(3); merge(v, {p, q, r}); merge(v, below(m.negate(p)));
        for (size_t i = 0; i < v.size(); ++i) if (s == 15 || (s >> (i % 4) & 1)) v[i].mark(); 
        for (int op : {a, b}) {
            const Marks before = marks_of(v); node_ref x = m.topsink(); TT w = T; MC_NOTE("%s of %02x and %02x, marks %d", op_name[op], int(f), int(g), s); mc::steps();
            switch (op) {
                case 0: x = m.and_rec(F, G); w = f & g; break; case 1: x = m.or_rec(F, G); w = f | g; break; case 2: x = m.xor_rec(F, G); w = f ^ g; break; case 3: x = m.negate(F); w = ~f & T; break;
                case 4: x = m.ite_rec(q, F, G); w = (tvar(1, 3) & f) | (~tvar(1, 3) & g & T); break; case 5: { std::vector<node_ref> l{F, G, p, q}; x = m.and_rec(l.begin(), l.end()); w = f & g & tvar(0, 3) & tvar(1, 3); break; }
                case 6: m.collect_garbage(); break; case 7: m.projection(m.nr_variables() + 2); break; case 8: { std::vector<node_ref> c(9, F); c.push_back(G); c[3] = G; std::swap(c[0], c[9]); node_ref d(std::move(c[1])); d = F; break; }
                case 9: MC_CHECK((F == G) == (f == g), "equality"); break; case 10: MC_CHECK(eval_tt(F, pos, 4) == f && eval_tt(G, pos, 4) == g, "evaluation of marked BDDs is wrong"); break;
                case 11: { std::vector<node_ref> l{F, G}; x = m.at_most_one(l.begin(), l.end()); w = ~(f & g) & T; break; }
                default: x = !(F & G) ^ (F || G); w = ~((f & g) ^ (f | g)) & T;
            }
            same(v, before, op_name[op]); node_ref y = x; MC_CHECK(eval_tt(y, pos, m.nr_variables()) == w, "%s of marked BDDs is wrong", op_name[op]);
            for (auto& z : below(x)) if (!before.count(z.address())) { MC_CHECK(!z.marked(), "%s: a new node of variable %zu is marked", op_name[op], z.variable()); v.push_back(z); }
        }
    }
    mc::nontrivial(f != g); mc::state(mc::mix(mc::mix(f, g), a * 64 + b));
}
// nodes that were marked when they were collected come back unmarked
void recycled(TT f, TT g, unsigned char fill) {
    static const Pos pos = {0, 2, 3}; mc::memory_fill(fill); bdd_mgr m; add_vars(m, 4);
    for (int round = 0; round < 4; ++round) {
        { node_ref F = build(m, round % 2 ? g : f, pos); auto v = below(F); for (auto& x : v) { MC_CHECK(!x.marked(), "round %d: a new node is marked", round); } MC_CHECK(F.nr_nodes() == v.size(), "%zu nodes counted of %zu", F.nr_nodes(), v.size()); for (auto& x : v) x.mark(); if (round == 2 && !v.empty()) v.back().unmark(); }
        m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2, "nodes left"); mc::steps(2);
        { node_ref G = build(m, round % 2 ? f : g, pos); auto v = below(G); for (auto& x : v) MC_CHECK(!x.marked(), "round %d: a node at the place of a marked one is marked", round); MC_CHECK(G.nr_nodes() == v.size() && G.nodes_bfs().size() == v.size() && G.nodes_postorder().size() == v.size(), "queries of recycled nodes are wrong"); if (round & 1) { for (auto& x : v) x.mark(); } }
        if (round > 1) m.collect_garbage();
        else { node_ref G = build(m, round % 2 ? f : g, pos); G.unmark_rec(); }
    }
    mc::nontrivial(); mc::state(mc::mix(f, mc::mix(g, fill)));
}
void scale(size_t n, int a, int b) {
    ref::Store s; const auto V = ref::vars(n, (a + b) % 4); const ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, V); if (f < 2 || g < 2) return; bdd_mgr m; node_ref F = ref::make(m, s, f), G = ref::make(m, s, g); auto v = below(F); const size_t nf = v.size(); { std::set<node*> in; for (auto& x : v) in.insert(x.address()); for (auto& x : below(G)) if (in.insert(x.address()).second) v.push_back(x); }
    for (auto& x : v) MC_CHECK(!x.marked(), "a new node is marked"); for (size_t i = 0; i < v.size(); ++i) if (i % 3 != 1) v[i].mark(); Marks before = marks_of(v); mc::steps(6);
    { node_ref H = m.xor_rec(F, G); size_t k = 0; for (auto& x : below(H)) if (!before.count(x.address())) { MC_CHECK(!x.marked(), "a new node is marked"); if (k++ % 2) x.mark(); } } same(v, before, "exclusive-or"); m.collect_garbage(); same(v, before, "collection"); { node_ref H = m.or_rec(F, G); for (auto& x : below(H)) if (!before.count(x.address())) MC_CHECK(!x.marked(), "a recycled node is marked"); } same(v, before, "disjunction");
    for (auto& x : v) x.mark(); F.unmark_rec(); for (size_t i = 0; i < v.size(); ++i) MC_CHECK(v[i].marked() == (i >= nf), "unmarking %zu nodes: node %zu of %zu is %s", nf, i, v.size(), v[i].marked() ? "marked" : "not marked");
    G.unmark_rec(); for (auto& x : v) x.unmark(); MC_CHECK(F.nr_nodes() == nf, "node count"); mc::nontrivial(); mc::state(mc::mix(n, a * 64 + b));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s; const int G = T ? 256 : 24;
    s.push_back({"subsets", "pairs of 256 and " + std::to_string(G) + " functions of 3 variables, all subsets of their nodes marked (the first 7 independently), unmarked one by one and from either root", 256, [=](long u) { for (int k = 0; k < G; ++k) subsets(TT(u), T ? TT(k) : scatter(u * 64 + k) & 0xff); }});
    s.push_back({"operations", "pairs of functions of 3 variables, 16 patterns of marks, all pairs of 13 operations", 256, [=](long u) { for (int k = 0; k < (T ? 16 : 3); ++k) for (int a = 0; a < OPS; ++a) for (int b = 0; b < OPS; ++b) operations(TT(u), scatter(u * 16 + k + 5) & 0xff, a, b); }});
    s.push_back({"recycled", "all pairs of functions of 3 variables in turn, marked, dropped, collected; four memory contents", 256, [](long u) { for (int g = 0; g < 256; ++g) for (int f : {0, 1, 0xff, 0xa5}) recycled(TT(u), TT(g), (unsigned char)f); }});
    { const size_t M = T ? 2049 : 513; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 6, [](long u) { ref::Far far(ref::FAR[u % 3]); const int a = int(u / 3 % 12), b = int((a + 1 + u / 36 * 2) % 12); scale(6, a, b); }, 120});
      s.push_back({"scale", "pairs of 12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ", two thirds of the nodes marked", long(z.size()) * 24, [z](long u) { const int a = int(u / 2 % 12); const size_t n = z[u / 24]; if (!ref::pair_at(n, a, (a + 3 + 4 * (u % 2)) % 12)) return; scale(n, a, int((a + 3 + 4 * (u % 2)) % 12)); }, 120}); }
    return s;
}
