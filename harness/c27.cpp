// C27: cost. Every operation solves each subproblem (tuple of nodes reached by descending together) once.
// The library is compiled so that every basic block it executes is reported (-fsanitize-coverage=trace-pc);
// an operation is stopped as soon as it has executed more blocks than its allowance.
#include "ref.h"
#include "bdd_node_depth.h"
#include <sstream>
#include <unordered_set>
using namespace kit;

namespace {
int64_t allowance = INT64_MAX, spent_limit; bool counting; const char* op_name; size_t op_n; char op_what[160];
[[noreturn]] __attribute__((noinline, no_sanitize_coverage)) void too_much() {
    counting = false; mc::fail("%s (%s, %zu variables) takes more than %lld basic blocks", op_name, op_what, op_n, (long long)spent_limit);
}
} // namespace
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { if (counting && --allowance < 0) too_much(); }

namespace {
// allowed blocks per subproblem; see DESIGN.md for the measured numbers
FILE* const report = getenv("LBDD_COST_REPORT") ? fopen(getenv("LBDD_COST_REPORT"), "a") : nullptr; // for calibration
std::map<std::string, double> worst;
template<class F> void cost(const char* name, double subproblems, int64_t per, F&& f) {
    mc::beat(); mc::steps(); op_name = name; spent_limit = int64_t(per * (subproblems + 16)); allowance = spent_limit; counting = true; f(); counting = false;
    if (report) { double r = double(spent_limit - allowance) / (subproblems + 16); auto& w = worst[name]; if (r > w) { w = r; fprintf(report, "COST %s %.1f (%s n=%zu sub=%.0f spent=%lld)\n", name, r, op_what, op_n, subproblems, (long long)(spent_limit - allowance)); fflush(report); } }
}
// number of distinct tuples of nodes met when descending from the given functions together
size_t tuples(const ref::Store& s, const std::vector<ref::Id>& root) {
    struct H { size_t operator()(const std::vector<ref::Id>& x) const { size_t h = 0; for (auto i : x) h = mc::mix(h, i); return h; } };
    std::unordered_set<std::vector<ref::Id>, H> seen{root}; std::vector<std::vector<ref::Id>> todo{root};
    while (!todo.empty()) {
        auto x = std::move(todo.back()); todo.pop_back(); size_t v = ref::NOVAR; for (auto i : x) v = std::min(v, s.n[i].var); if (v == ref::NOVAR) continue;
        for (int b = 0; b < 2; ++b) { auto y = x; for (auto& i : y) if (s.n[i].var == v) i = b ? s.n[i].hi : s.n[i].lo; if (seen.insert(y).second) todo.push_back(std::move(y)); }
    }
    return seen.size();
}
const int64_t K = 10000, KB = 10000;


void queries(size_t n, int kind, int place, bool negated) {
    ref::Store s; const auto V = ref::vars(n, place); ref::Id f = ref::shape(s, kind, V); if (negated) f = s.neg(f); if (f < 2) return;
    const size_t size = s.size(f), nv = V.back() + 1; op_n = n; snprintf(op_what, sizeof op_what, "%s%s, placement %d", negated ? "negated " : "", ref::shape_name(kind), place);
    bdd_mgr m; node_ref F = ref::make(m, s, f); const double lin = double(size + nv);
    for (int again = 0; again < 2; ++again) {
        cost("negation", lin, K, [&] { node_ref g = m.negate(F); }); if (again) m.collect_garbage();
        cost("double negation", lin, K, [&] { node_ref g = m.negate(F), h = m.negate(g); MC_CHECK(h == F, "double negation"); });
        cost("node count", lin, K, [&] { MC_CHECK(F.nr_nodes() >= size, "node count"); });
        cost("variables", lin, K, [&] { F.variables(); });
        cost("post-order list", lin, K, [&] { F.nodes_postorder(); });
        cost("breadth-first list", lin, K, [&] { F.nodes_bfs(); });
        cost("one-solution query", lin, K, [&] { F.exactly_one_solution(); });
        cost("manager of a BDD", lin, K, [&] { F.find_bdd_mgr(); });
        std::vector<char> lab(nv, again); cost("evaluation", lin, K, [&] { F.evaluate(lab.begin(), lab.end()); });
        std::stringstream ss; cost("printing", lin, KB, [&] { F.print(ss); });
        std::vector<size_t> to(nv); for (size_t i = 0; i < nv; ++i) to[i] = i + 1 + again; std::unordered_map<size_t, size_t> map; for (size_t v : V) map[v] = v + 1 + again;
        cost("rebase with a list", lin, K, [&] { m.rebase(F, to.begin(), to.end()); }); cost("rebase with a map", lin, K, [&] { m.rebase(F, map); });
        cost("exclusive-or with true", lin, K, [&] { m.xor_rec(F, m.topsink()); m.xor_rec(m.topsink(), F); });
        cost("if-then-else with constants", lin, K, [&] { m.ite_rec(F, m.botsink(), m.topsink()); m.ite_rec(F, m.topsink(), m.botsink()); });
        { BDD::bdd_node_depth d; auto nodes = F.nodes_postorder(); cost("depth", lin, K, [&] { d.add_botsink(m.botsink().address()); d.add_topsink(m.topsink().address()); for (auto& x : nodes) d.add_node(x.address()); }); }
        bdd_collection c; ref::put(c, s, s.var(1)); size_t nr = 0;
        cost("entering into a collection", lin, K, [&] { nr = c.add_bdd(F); }); ref::put(c, s, s.var(2));
        cost("stored node counts", lin, K, [&] { c.nr_bdd_nodes(nr); c.nr_bdd_nodes(nr, V[0]); c[nr].nr_nodes(); }); cost("stored variables", lin, K, [&] { c.variables(nr); });
        cost("stored evaluation", lin, K, [&] { c.evaluate(nr, lab.begin(), lab.end()); }); std::stringstream out; cost("graph export", lin, KB, [&] { c.export_graphviz(nr, out); });
        { bdd_mgr q; add_vars(q, nv); cost("export from a collection", lin, K, [&] { c.export_bdd(q, nr); }); } cost("export from a collection", lin, K, [&] { MC_CHECK(c.export_bdd(m, nr) == F, "export"); });
        { bdd_mgr q; add_vars(q, nv); cost("adding a stored BDD to a manager", lin, KB, [&] { q.add_bdd(c, nr); }); } cost("adding a stored BDD to a manager", lin, KB, [&] { MC_CHECK(m.add_bdd(c, nr) == F, "add_bdd"); });
        { size_t k = 0; cost("walk", lin, K, [&] { auto e = c[nr]; for (auto x = e.first_node_postorder(); !(x == e.root_node()); x = x.next_postorder()) ++k; }); }
        std::set<size_t> pos{V[0], V[n / 2]}, neg{V[n - 1]}, all(V.begin(), V.end()), none;
        cost("relaxation", lin, KB, [&] { c.bdd_or_var(nr, pos, neg); c.bdd_or_var(nr, none, none); c.bdd_or_var(nr, all, none); c.bdd_or_var(nr, none, all); });
        cost("stored conjunction with itself", lin, KB, [&] { c.bdd_and(nr, nr); c.bdd_and(nr, size_t(0)); c.bdd_and(size_t(0), nr); });
        cost("stored rebase", lin, K, [&] { c.rebase(nr, to.begin(), to.end()); });
        std::vector<size_t> drop{1, 3}; cost("removal", 6 * lin, K, [&] { c.remove(drop.begin(), drop.end()); });
        m.collect_garbage();
    }
    mc::nontrivial(); mc::state(mc::mix(n, kind * 16 + place * 2 + negated));
}
void pairs(size_t n, int a, int b, int how, bool na, bool nb) {
    // how: 0 the same variables, 1 interleaved, 2 the second below the first, 3 the first below the second, 4 overlapping
    std::vector<size_t> V, W; for (size_t i = 0; i < n; ++i) { V.push_back(how == 1 ? 2 * i : how == 3 ? i + n : i); W.push_back(how == 1 ? 2 * i + 1 : how == 2 ? i + n : how == 4 ? i + n / 2 : i); }
    ref::Store s; ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, W); if (na) f = s.neg(f); if (nb) g = s.neg(g); if (f < 2 || g < 2) return;
    const size_t nv = std::max(V.back(), W.back()) + 1; const double P = double(tuples(s, {f, g}) + nv); op_n = n; snprintf(op_what, sizeof op_what, "%s%s with %s%s, arrangement %d", na ? "negated " : "", ref::shape_name(a), nb ? "negated " : "", ref::shape_name(b), how);
    bdd_mgr m; node_ref F = ref::make(m, s, f), G = ref::make(m, s, g);
    for (int again = 0; again < 2; ++again) {
        cost("conjunction", P, KB, [&] { m.and_rec(F, G); }); cost("disjunction", P, KB, [&] { m.or_rec(G, F); }); cost("exclusive-or", P, KB, [&] { m.xor_rec(F, G); }); if (again) m.collect_garbage();
        cost("conjunction of negations", P, KB, [&] { m.and_rec(m.negate(F), m.negate(G)); });
        cost("if-then-else of two", P, KB, [&] { m.ite_rec(F, G, m.botsink()); m.ite_rec(F, m.topsink(), G); m.ite_rec(F, m.botsink(), G); m.ite_rec(F, G, m.topsink()); });
        cost("if-then-else of opposites", P, KB, [&] { m.ite_rec(F, G, m.negate(G)); });
        cost("all in a row", P, KB, [&] { m.or_rec(m.and_rec(G, F), m.xor_rec(G, F), m.ite_rec(G, F, m.botsink())); });
        if (n <= 40) { bdd_mgr q; node_ref A = ref::make(q, s, f), B = ref::make(q, s, g); const size_t r = s.size(s.land(f, g)); cost("limited conjunction", P * double(r + 3), K, [&] { q.and_rec_limited(A, B, 1 << 20); }); cost("limited conjunction", P * double(r + 3), K, [&] { q.and_rec_limited(B, A, 2); q.and_rec_limited(A, B, r / 2 + 2); }); }
        { bdd_collection c; const size_t x = c.add_bdd(F), y = c.add_bdd(G); cost("stored conjunction", P, KB, [&] { c.bdd_and(x, y); }); cost("stored conjunction", P, KB, [&] { c.bdd_and(y, x); });
          cost("limited stored conjunction", P, KB, [&] { c.bdd_and(x, y, 3); c.bdd_and(y, x, 1 << 20); c.bdd_and(x, y, n); }); std::vector<size_t> l{x, y, x}; cost("stored conjunction of three", P, 2 * KB, [&] { c.bdd_and(l.begin(), l.end()); }); }
        m.collect_garbage();
    }
    mc::nontrivial(); mc::state(mc::mix(n, a * 256 + b * 16 + how));
}
void triples(size_t n, int a, int b, int d) {
    ref::Store s; const auto V = ref::vars(n); const ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, V), h = ref::shape(s, d, V); if (f < 2 || g < 2 || h < 2) return;
    const double P = double(tuples(s, {f, g, h}) + n); op_n = n; snprintf(op_what, sizeof op_what, "%s, %s, %s", ref::shape_name(a), ref::shape_name(b), ref::shape_name(d));
    bdd_mgr m; node_ref F = ref::make(m, s, f), G = ref::make(m, s, g), H = ref::make(m, s, h);
    cost("if-then-else", P, KB, [&] { m.ite_rec(F, G, H); }); cost("if-then-else", P, KB, [&] { m.ite_rec(m.negate(F), H, G); }); std::vector<node_ref> l{F, G, H};
    cost("conjunction of three", P, KB, [&] { m.and_rec(l.begin(), l.end()); m.and_rec(F, G, H); }); cost("disjunction of three", P, KB, [&] { m.or_rec(l.begin(), l.end()); m.or_rec(F, G, H); }); cost("exclusive-or of three", P, KB, [&] { m.xor_rec(l.begin(), l.end()); m.xor_rec(F, G, H); });
    bdd_collection c; std::vector<size_t> x{c.add_bdd(F), c.add_bdd(G), c.add_bdd(H)}; cost("stored conjunction of three", P, 2 * KB, [&] { c.bdd_and(x.begin(), x.end()); }); cost("limited stored conjunction of three", P, 2 * KB, [&] { c.bdd_and(x.begin(), x.end(), 5); c.bdd_and(x.begin(), x.end(), 100000); });
    m.collect_garbage(); mc::nontrivial(); mc::state(mc::mix(n, a * 256 + b * 16 + d));
}
void lists(size_t n, int k) { // k operands: parities and not-two-in-a-row of shifted windows
    ref::Store s; std::vector<ref::Id> f; for (int i = 0; i < k; ++i) { std::vector<size_t> V; for (size_t j = 0; j < n; ++j) V.push_back(j + size_t(i) % 3); f.push_back(i % 2 ? ref::shape(s, 5, V) : ref::shape(s, 9, V)); }
    const double P = double(tuples(s, f) + n); op_n = n; snprintf(op_what, sizeof op_what, "%d operands", k);
    bdd_mgr m; std::vector<node_ref> l; for (auto x : f) l.push_back(ref::make(m, s, x));
    cost("conjunction of a list", P * k, KB, [&] { m.and_rec(l.begin(), l.end()); }); cost("disjunction of a list", P * k, KB, [&] { m.or_rec(l.begin(), l.end()); }); cost("exclusive-or of a list", P * k, KB, [&] { m.xor_rec(l.begin(), l.end()); });
    bdd_collection c; std::vector<size_t> x; for (auto& y : l) x.push_back(c.add_bdd(y)); cost("stored conjunction of a list", k * P, KB, [&] { c.bdd_and(x.begin(), x.end()); });
    mc::nontrivial(); mc::state(mc::mix(n, k));
}
void constraints(size_t n) {
    bdd_mgr m; std::vector<node_ref> l; add_vars(m, n); for (size_t i = 0; i < n; ++i) l.push_back(m.projection(i)); op_n = n; snprintf(op_what, sizeof op_what, "projections");
    for (int again = 0; again < 2; ++again) {
        const double q = double(n) * double(n);
        cost("all-false", q, K, [&] { m.all_false(l.begin(), l.end()); }); cost("at-least-one", q, K, [&] { m.at_least_one(l.begin(), l.end()); });
        cost("at-most-one", q, K, [&] { m.at_most_one(l.begin(), l.end()); }); cost("simplex", q, K, [&] { m.simplex(l.begin(), l.end()); }); cost("garbage collection", q, K, [&] { m.collect_garbage(); });
        std::reverse(l.begin(), l.end());
    }
    mc::nontrivial(); mc::state(n);
}
// garbage collection stays in proportion to what was built before it
void collections(size_t n, int kind) {
    ref::Store s; bdd_mgr m; double built = 0; op_n = n; snprintf(op_what, sizeof op_what, "%s", ref::shape_name(kind));
    for (int round = 0; round < 4; ++round) {
        std::vector<node_ref> keep; for (int k = 0; k < 4; ++k) { const ref::Id f = ref::shape(s, (kind + k) % ref::SHAPES, ref::vars(n + k, round)); node_ref F = ref::make(m, s, f); keep.push_back(F); built += double(s.size(f)); if (k) { const ref::Id g = ref::shape(s, (kind + k - 1) % ref::SHAPES, ref::vars(n + k - 1, round)); built += double(tuples(s, {f, g})); m.and_rec(F, keep[k - 1]); } }
        for (int again = 0; again < 3; ++again) { cost("garbage collection", built + 16 * n, K, [&] { m.collect_garbage(); }); if (again == 0) keep.resize(2, m.botsink()); if (again == 1) keep.clear(); }
        MC_CHECK(m.nr_nodes() < 64 + 16 * 16, "%zu nodes left after a collection without references", m.nr_nodes());
    }
    mc::nontrivial(); mc::state(mc::mix(n, kind));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s; using ref::SHAPES;
    static const std::vector<size_t> q = {5, 12, 20, 33, 64, 100, 257, 600, 1500}, p = {6, 14, 30, 48, 90, 200}, t = {8, 20, 40, 70};
    s.push_back({"queries", "unary operations, queries, copies and relaxations of 12 kinds of functions and their negations of 5..1500 variables, 4 placements, cold, warm and after a collection", long(q.size()) * SHAPES * 2 * (T ? 4 : 1), [T](long u) { mc::keys_pseudo(u); const int pl = T ? int(u / (q.size() * SHAPES * 2)) : int(u % 4); u %= q.size() * SHAPES * 2; queries(q[u / (2 * SHAPES)], int(u / 2 % SHAPES), (pl + int(u / 8)) % 4, u % 2); }, 120});
    s.push_back({"pairs", "binary operations on all pairs of 12 kinds of functions of 6..200 variables, same, interleaved, stacked and overlapping variables, with negations", long(p.size()) * SHAPES * SHAPES, [T](long u) { mc::keys_pseudo(u); const size_t n = p[u / (SHAPES * SHAPES)]; const int a = u / SHAPES % SHAPES, b = u % SHAPES; for (int how = 0; how < 5; ++how) for (int ng = 0; ng < 4; ++ng) if (T || n <= 48 || (how + ng + a + b) % 5 == 0) pairs(n, a, b, how, ng & 1, ng & 2); }, 120});
    s.push_back({"triples", "ternary operations on all triples of 12 kinds of functions of 8..70 variables", long(T ? 4 : 3) * SHAPES * SHAPES, [](long u) { mc::keys_pseudo(u); for (int d = 0; d < SHAPES; ++d) triples(t[u / (SHAPES * SHAPES)], u / SHAPES % SHAPES, u % SHAPES, d); }, 120});
    s.push_back({"lists", "conjunction, disjunction and exclusive-or of 3..49 operands over 20..60 variables", 3 * 47, [](long u) { mc::keys_pseudo(u); lists(20 * (1 + u / 47), 3 + int(u % 47)); }, 120});
    s.push_back({"constraints", "all-false, at-least-one, at-most-one, simplex of up to 300 variables in both orders", 60, [](long u) { mc::keys_pseudo(u); constraints(5 * size_t(u + 1)); }, 120});
    s.push_back({"collections", "garbage collection after work of known size", 5 * SHAPES, [](long u) { mc::keys_pseudo(u); static const size_t z[] = {10, 40, 100, 250, 500}; collections(z[u / SHAPES], int(u % SHAPES)); }, 120});
    const int K1 = T ? 15 : 14, K2 = T ? 11 : 9;
    s.push_back({"wide-queries", "the same unary operations on functions of 2k variables with 2^k nodes on one level, k = 3.." + std::to_string(K1), 4l * (K1 - 2), [](long u) { mc::keys_pseudo(u); queries(2 * size_t(3 + u / 4), ref::WIDE + int(u / 2 % 2), int(u / 4 % 4), u % 2); }, 240});
    s.push_back({"wide-pairs", "the same binary operations on one function with 2^k nodes on one level, k = 3.." + std::to_string(K2) + ", and one of 14 kinds", 28l * (K2 - 2), [](long u) { mc::keys_pseudo(u); for (int how : {0, 2, 3}) pairs(2 * size_t(3 + u / 28), ref::WIDE + int(u / 14 % 2), int(u % 14), how, u % 3 == 1, u % 5 == 2); }, 240});
    return s;
}
