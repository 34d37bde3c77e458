// C11: structural queries and traversals are exact and leave no trace.
#include "ref.h"
#include <sstream>
using namespace kit; using namespace BDD;

namespace {
enum Query { SIZE, VARS, POST, BFS, PRINT, ONE, EVAL, NQ };
const char* qname[NQ] = {"node count", "variable list", "post-order", "breadth-first", "print", "exactly one solution", "evaluation"};

// what an independent walk over low/high sees
struct Picture {
    std::vector<node*> nodes; std::unordered_map<node*, std::array<node*, 2>> child; std::unordered_map<node*, size_t> var, dist, refs;
    std::vector<size_t> vars;
};
void snap(node_ref& f, Picture& p) {
    std::vector<node*> q{f.address()}; if (f.is_terminal()) { return; }
    p.dist[q[0]] = 0;
    for (size_t i = 0; i < q.size(); ++i) {
        node* x = q[i]; node* l; node* h; { node_ref r(x); l = r.low().address(); h = r.high().address(); p.var[x] = r.variable(); p.refs[x] = r.reference_count(); }
        p.nodes.push_back(x); p.child[x] = {l, h}; p.vars.push_back(p.var[x]);
        for (node* c : {l, h}) if (!node_ref(c).is_terminal() && !p.dist.count(c)) { p.dist[c] = p.dist[x] + 1; q.push_back(c); }
    }
    std::sort(p.vars.begin(), p.vars.end()); p.vars.erase(std::unique(p.vars.begin(), p.vars.end()), p.vars.end());
}
struct Null { template<class T> Null& operator<<(const T&) { return *this; } };

void ask(node_ref f, Query q, const Picture& p, const Pos& pos, size_t nv, TT t, const char* who) {
    mc::steps();
    switch (q) {
        case SIZE: MC_CHECK(f.nr_nodes() == p.nodes.size(), "%s: node count %zu, has %zu decision nodes", who, f.nr_nodes(), p.nodes.size()); break;
        case VARS: { auto v = f.variables(); MC_CHECK(v == p.vars, "%s: variable list has %zu entries%s, expected %zu", who, v.size(), v.size() == p.vars.size() ? " (others)" : "", p.vars.size()); break; }
        case POST: {
            auto v = f.nodes_postorder(); std::set<node*> seen;
            MC_CHECK(v.size() == p.nodes.size(), "%s: post-order lists %zu nodes, has %zu", who, v.size(), p.nodes.size());
            for (auto& x : v) {
                auto it = p.child.find(x.address()); MC_CHECK(it != p.child.end(), "%s: post-order lists a node that is not in the BDD", who);
                for (node* c : it->second) MC_CHECK(!p.child.count(c) || seen.count(c), "%s: post-order lists a node before its child", who);
                MC_CHECK(seen.insert(x.address()).second, "%s: post-order lists a node twice", who);
            }
            break; }
        case BFS: {
            auto v = f.nodes_bfs(); std::set<node*> seen; size_t d = 0;
            MC_CHECK(v.size() == p.nodes.size(), "%s: breadth-first order lists %zu nodes, has %zu", who, v.size(), p.nodes.size());
            for (auto& x : v) {
                auto it = p.dist.find(x.address()); MC_CHECK(it != p.dist.end(), "%s: breadth-first order lists a node that is not in the BDD", who);
                MC_CHECK(seen.insert(x.address()).second, "%s: breadth-first order lists a node twice", who);
                MC_CHECK(it->second >= d, "%s: breadth-first order lists a node at distance %zu after one at distance %zu", who, it->second, d); d = it->second;
            }
            break; }
        case PRINT: { Null s; f.print(s); break; }
        case ONE: f.exactly_one_solution(); break;
        case EVAL: { TT g = eval_tt(f, pos, nv); MC_CHECK(g == t, "%s: evaluates to %s instead of %s", who, str(g, pos.size()).c_str(), str(t, pos.size()).c_str()); break; }
        default: break;
    }
}
void untouched(node_ref& f, const Picture& p, const char* after) {
    Picture q; snap(f, q);
    MC_CHECK(p.nodes == q.nodes && p.child == q.child && p.var == q.var, "structure changed by %s", after);
    MC_CHECK(p.refs == q.refs, "reference counts changed by %s", after);
    for (node* x : q.nodes) MC_CHECK(!node_ref(x).marked(), "a node is left marked by %s", after);
}
struct Target { node_ref r; TT t; Picture p; const char* name; };

// f, its children, an overlapping function, the constants: every sequence of `depth` queries
void mix(TT a, int depth, int fill, long u) {
    static const Pos pos = {0, 2, 3}; mc::memory_fill(fill); bdd_mgr m; add_vars(m, 5);
    std::vector<Target> ts; auto add = [&](TT t, const char* n) { ts.push_back({build(m, t, pos), t, {}, n}); };
    add(a, "f"); add(0, "constant false"); add(0xff, "constant true"); add(cof1(a, 0, 3), "a child of f"); add(a ^ (scatter(a) & 0x7e), "a function sharing nodes with f");
    for (auto& t : ts) snap(t.r, t.p);
    const size_t n0 = m.nr_nodes();
    std::string how;
    for (int i = 0; i < depth; ++i) {
        int c = i == 0 ? int(u % (NQ * 5)) : mc::choose(NQ * 5, "query");
        Query q = Query(c % NQ); Target& t = ts[c / NQ]; how = std::string(qname[q]) + " of " + t.name; MC_NOTE("f=%s: %s", str(a, 3).c_str(), how.c_str());
        ask(t.r, q, t.p, pos, 5, t.t, t.name);
    }
    for (auto& t : ts) untouched(t.r, t.p, how.c_str());
    for (auto& t : ts) for (int q = 0; q < NQ; ++q) ask(t.r, Query(q), t.p, pos, 5, t.t, t.name);
    MC_CHECK(m.nr_nodes() == n0, "queries changed the number of nodes of the manager");
    m.collect_garbage(); for (auto& t : ts) ask(t.r, POST, t.p, pos, 5, t.t, t.name);
    mc::state(mc::mix(a, u));
}
// every function, all queries in a rotating order, twice
void each(bdd_mgr& m, TT a, const Pos& pos, size_t nv, int rot) {
    Target t{build(m, a, pos), a, {}, "BDD"}; snap(t.r, t.p); const int n = int(pos.size());
    MC_NOTE("%s", str(a, n).c_str());
    MC_CHECK(t.p.nodes.size() == bdd_size(a, n), "%s has %zu nodes instead of %zu", str(a, n).c_str(), t.p.nodes.size(), bdd_size(a, n));
    std::vector<size_t> sv; for (int i : support(a, n)) sv.push_back(pos[i]);
    MC_CHECK(t.r.variables() == sv, "%s: variable list is not the support", str(a, n).c_str());
    for (int k = 0; k < 2 * NQ; ++k) { ask(t.r, Query((rot + k * (rot % 2 ? 3 : 1)) % NQ), t.p, pos, nv, a, "BDD"); }
    untouched(t.r, t.p, "queries"); mc::state(mc::mix(a, n));
}
// wide and deep diagrams
void shape(int kind, int n) {
    bdd_mgr m; add_vars(m, n); node_ref r = m.botsink(); size_t want = 0; 
    switch (kind) {
        case 0: r = m.topsink(); for (int v = n - 1; v >= 0; --v) r = m.unique_find(v, m.botsink(), r); want = n; break;
        case 1: for (int v = n - 1; v >= 0; --v) r = m.unique_find(v, r, m.topsink()); want = n; break;
        case 2: { node_ref a = m.botsink(), b = m.topsink(); for (int v = n - 1; v >= 0; --v) { node_ref x = m.unique_find(v, a, b), y = m.unique_find(v, b, a); a = x; b = y; } r = a; want = 2 * n - 1; break; }
        case 3: { std::vector<node_ref> lev; for (int c = 0; c <= n; ++c) lev.push_back(c % 3 == 1 ? m.topsink() : m.botsink()); for (int v = n - 1; v >= 0; --v) { std::vector<node_ref> up; for (int c = 0; c <= v; ++c) up.push_back(m.unique_find(v, lev[c], lev[c + 1])); lev = up; } r = lev[0]; want = 0; break; }
        default: { std::vector<node_ref> x; for (int v = 0; v < n; ++v) x.push_back(m.projection(v)); r = m.botsink(); for (int v = n - 2; v >= 0; v -= 2) r = m.unique_find(v, r, m.unique_find(v + 1, r, m.topsink())); want = 0; }
    }
    Picture p; snap(r, p); MC_CHECK(!want || p.nodes.size() == want, "shape has %zu nodes instead of %zu", p.nodes.size(), want);
    for (int k = 0; k < 2; ++k) for (int q : {SIZE, BFS, VARS, POST, SIZE, PRINT, POST, BFS}) ask(r, Query(q), p, {}, n, 0, "large BDD");
    std::vector<char> lab(n, 1); bool all1 = r.evaluate(lab.begin(), lab.end()), w = kind == 0 ? true : kind == 1 ? true : kind == 2 ? n % 2 : kind == 3 ? n % 3 == 1 : n > 1;
    MC_CHECK(all1 == w, "large BDD of kind %d with %d variables evaluates to %d when all are true", kind, n, all1);
    untouched(r, p, "queries"); mc::state(mc::mix(kind, n));
}
void scale(size_t n, int a, int b) {
    ref::Store s; const auto V = ref::vars(n, (a + b) % 4); const ref::Id f = b == ref::SHAPES ? ref::shape(s, a, V) : s.lxor(ref::shape(s, a, V), ref::shape(s, b, V)); bdd_mgr m; add_vars(m, V.back() + 1); node_ref F = ref::make(m, s, f); Picture p; snap(F, p); const size_t nodes = m.nr_nodes(); MC_NOTE("%zu variables: %s, %d, %zu nodes", n, ref::shape_name(a), b, p.nodes.size());
    MC_CHECK(F.nr_nodes() == s.size(f) && F.variables() == s.vars(f), "node count or variable list wrong at %zu variables", n);
    for (Query q : {SIZE, POST, VARS, BFS, PRINT, ONE, POST, PRINT, SIZE, BFS, VARS}) { ask(F, q, p, {}, 0, 0, "large BDD"); for (node* x : p.nodes) MC_CHECK(!node_ref(x).marked(), "a node is left marked by %s", qname[q]); }
    if (!F.is_terminal()) for (node_ref c : {F.low(), F.high()}) if (!c.is_terminal()) { Picture q; snap(c, q); for (Query k : {SIZE, POST, VARS, BFS}) ask(c, k, q, {}, 0, 0, "part of a large BDD"); }
    ref::evaluates(s, F, f, V, m.nr_variables(), "large BDD"); untouched(F, p, "queries of a large BDD"); MC_CHECK(m.nr_nodes() == nodes, "queries created nodes"); mc::nontrivial(); mc::state(mc::mix(n, a * 64 + b));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s;
    static const int fills[3] = {0x00, 0xff, 0x5a};
    s.push_back({"mixes-2", "all 256 functions of 3 variables x all sequences of 2 queries out of 7 on 5 targets (function, child, sharing function, both constants) x 3 initial memory contents", 256 * 3,
        [](long u) { mix(u / 3, 2, fills[u % 3], mc::choose(NQ * 5, "first query")); }});
    if (T) s.push_back({"mixes-3", "all 256 functions x all sequences of 3 queries", 256 * NQ * 5, [](long u) { mix(u / (NQ * 5), 3, 0xff, u % (NQ * 5)); }});
    else s.push_back({"mixes-3", "16 functions x all sequences of 3 queries", 16 * NQ * 5, [](long u) { static const int f[16] = {0x96, 0xe8, 0xca, 0x80, 0xfe, 0x00, 0xff, 0x3c, 0xaa, 0x0f, 0x1b, 0x69, 0x16, 0x7e, 0xd8, 0x42}; mix(f[u / (NQ * 5)], 3, 0xff, u % (NQ * 5)); }});
    s.push_back({"all-4var", "all 65536 functions of 4 variables, queries in 14 rotating orders, results accumulating in a manager", 256,
        [](long u) { bdd_mgr m; add_vars(m, 4); for (int k = 0; k < 256; ++k) each(m, u * 256 + k, ident(4), 4, k % 14); }});
    s.push_back({"placed-3var", "all 256 functions of 3 variables at all 35 placements among 7 variables", 35,
        [](long u) { const Pos p = placements(3, 7)[u]; bdd_mgr m; add_vars(m, 7); for (int k = 0; k < 256; ++k) each(m, k, p, 7, k % 14); }});
    const long P = T ? 65536 : 4096;
    s.push_back({"some-5-6var", "functions of 5 and 6 variables of a covering design (" + std::to_string(P) + ")", P / 64,
        [](long u) { bdd_mgr m5; add_vars(m5, 6); for (int k = 0; k < 64; ++k) { TT t = scatter(u * 64 + k); if (k % 2) { TT x = t & ones(5); each(m5, x, ident(5), 6, k % 14); } else each(m5, k % 4 ? t : t & (t >> 7) & scatter(t), ident(6), 6, k % 14); } }});
    const int N = T ? 400 : 150;
    s.push_back({"large", "five shapes (conjunction, disjunction, parity, counting modulo 3, pairs) over 1.." + std::to_string(N) + " variables", N * 5, [](long u) { int n = 1 + int(u / 5); if (u % 5 == 4) n = n / 2 * 2 + 2; shape(int(u % 5), n); }, 60});
    s.push_back({"labels", "all 256 functions of 3 variables at all 35 placements among 7 variables x all assignments given by 5 kinds of sequences, with 6 different values for true, just long enough or longer", 35,
        [](long u) { static const auto pl = placements(3, 7); const Pos& pos = pl[u]; bdd_mgr m; add_vars(m, 7); for (TT t = 0; t < 256; ++t) { node_ref f = build(m, t, pos); auto v = support(t, 3); eval_kinds([&](auto b, auto e) { mc::steps(); return f.evaluate(b, e); }, t, pos, v.empty() ? 0 : pos[v.back()] + 1, "BDD"); mc::state(mc::mix(t, u)); mc::nontrivial(!v.empty()); } }});
    { const size_t M = T ? 8193 : 4097; std::vector<std::array<int, 3>> u; for (size_t n : ref::sizes(M)) for (int a = 0; a < ref::SHAPES; ++a) for (int b = 0; b <= ref::SHAPES; ++b) if (b == ref::SHAPES || (ref::pair_at(n, a, b) && (a * 5 + b * 7 + n) % (T ? 3 : n < 300 ? 7 : 29) == 0)) u.push_back({int(n), a, b});
      s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 6, [](long u) { ref::Far far(ref::FAR[u % 3]); const int a = int(u / 3 % 12), b = int((a + 1 + u / 36 * 2) % 12); scale(6, a, b); }, 120});
      s.push_back({"scale", "12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + " and differences of two, every query, against an independent diagram store", long(u.size()), [u](long i) { scale(u[i][0], u[i][1], u[i][2]); }, 120}); }
    { const int K = T ? 16 : 15; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + " (about 3 * 2^k nodes), every query", long(K - 3) * 2 * 1, [](long u) { const size_t n = 2 * (4 + size_t(u / 2)); const int kind = ref::WIDE + int(u / 1 % 2), r = int(u % 1); scale(n, kind, r ? 3 : ref::SHAPES); }, 240}); }
    return s;
}
