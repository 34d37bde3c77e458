// C25: the exactly-one-solution query.
#include "ref.h"
#include <functional>
using namespace kit; using namespace BDD;

namespace {
bool expected(TT t, int n) { // among the assignments to the variables t depends on
    t &= ones(n); const int s = int(support(t, n).size());
    return popcount(t) == (1 << (n - s));
}
node_ref make(bdd_mgr& m, TT t, const Pos& pos, int how) { return how == 0 ? build(m, t, pos) : how == 1 ? build_minterms(m, t, pos) : how == 2 ? build_clauses(m, t, pos) : build_ite(m, t, pos); }
void one(bdd_mgr& m, TT t, const Pos& pos, int how, size_t nv) {
    const int n = int(pos.size()); node_ref f = make(m, t, pos, how); const size_t before = m.nr_nodes(), refs = f.reference_count(); mc::steps(2);
    const bool want = expected(t, n), got = f.exactly_one_solution();
    MC_CHECK(got == want, "%s (first variable at %zu): query says %d, %s", str(t, n).c_str(), pos.empty() ? size_t(0) : pos[0], got, want ? "exactly one assignment is true" : "not exactly one assignment is true");
    MC_CHECK(f.exactly_one_solution() == want, "the query answers differently the second time");
    MC_CHECK(m.nr_nodes() == before && f.reference_count() == refs && eval_tt(f, pos, nv) == (t & ones(n)) && !f.marked(), "the query changed the BDD %s", str(t, n).c_str());
    check_structure(f, "queried BDD"); mc::nontrivial(want && (t & ones(n)) != ones(n)); mc::state(mc::mix(t, mc::mix(n, mc::mix(want, pos.empty() ? 0 : pos.back()))));
}
void all(int n, long from, long to, int how) { // all placements of n variables into n+1
    for (auto& pos : placements(n, n + 1)) { bdd_mgr m; add_vars(m, n + 2); for (long t = from; t < to; ++t) one(m, TT(t), pos, how, n + 2); }
}
// every cube of n variables (each variable true, false or absent), the cube with one more assignment, and its negation
void cubes(int n, long lo, long hi) {
    long total = 1; for (int i = 0; i < n; ++i) total *= 3; hi = std::min(hi, total);
    bdd_mgr m; add_vars(m, n);
    auto pos = ident(n);
    for (long c = lo; c < hi; ++c) {
        TT t = ones(n); long x = c; for (int i = 0; i < n; ++i, x /= 3) if (x % 3) t &= x % 3 == 1 ? tvar(i, n) : ~tvar(i, n);
        one(m, t, pos, 0, n); one(m, ~t & ones(n), pos, 0, n);
        for (int b = 0; b < (1 << n); b += n > 4 ? 3 : 1) one(m, (t ^ (TT(1) << b)) & ones(n), pos, 0, n); // one assignment more or fewer
    }
}
// long chains: BDDs of many variables whose single true path takes any pattern of arcs; with one arc of one level redirected
void chain(int n, uint64_t pat, int skip) {
    bdd_mgr m; add_vars(m, n);
    auto mk = [&](int level, int kind) { // kind at `level`: 0 plain, 1 other arc to true sink, 2 other arc to the same rest through another variable's literal
        node_ref f = m.topsink();
        for (int i = n - 1; i >= 0; --i) { if (skip && i % skip == skip - 1) continue;
            const bool hi = scatter(pat) >> (i % 64) & 1; node_ref other = m.botsink();
            if (i == level && kind == 1) other = m.topsink(); if (i == level && kind == 2 && i + 1 < n) other = m.projection(n - 1);
            if (other == f) continue; f = hi ? m.unique_find(i, other, f) : m.unique_find(i, f, other); mc::steps(); }
        return f; };
    MC_CHECK(mk(-1, 0).exactly_one_solution(), "a cube of %d variables is said not to have exactly one solution", n);
    for (int l = 0; l < n; ++l) for (int k = 1; k < 3; ++k) {
        node_ref f = mk(l, k); 
        // count the solutions over the support by walking
        std::vector<size_t> v = f.variables(); std::unordered_map<node*, double> memo; std::function<double(node_ref, size_t)> count = [&](node_ref x, size_t i) -> double { // over v[i..]
            if (x.is_botsink()) return 0; double s = 1; while (i < v.size() && (x.is_terminal() || x.variable() != v[i])) { s *= 2; ++i; } if (x.is_topsink()) return s;
            auto it = memo.find(x.address()); double r; if (it != memo.end()) r = it->second; else { r = count(x.low(), i + 1) + count(x.high(), i + 1); memo[x.address()] = r; } return s * r; };
        const double c = count(f, 0);
        MC_CHECK(f.exactly_one_solution() == (c == 1), "%d variables, level %d changed (%d): %g solutions, query says %d", n, l, k, c, f.exactly_one_solution());
        mc::state(mc::mix(c == 1, l * 4 + k)); mc::nontrivial();
    }
}
// long cubes, kinds of functions, and cubes with one arc redirected
void scale(size_t n, int kind, int place) {
    ref::Store s; const auto V = ref::vars(n, place); bdd_mgr m; mc::steps(4);
    const auto ask = [&](ref::Id f, bool want, const char* what) { node_ref F = ref::make(m, s, f); MC_CHECK(F.exactly_one_solution() == want, "%s of %zu variables: query says %d", what, n, !want); };
    if (kind < ref::SHAPES) { const auto cube = [&](ref::Id f) { while (f > 1 && (s.n[f].lo == 0 || s.n[f].hi == 0)) f = s.n[f].lo ? s.n[f].lo : s.n[f].hi; return f == 1; }; const ref::Id f = ref::shape(s, kind, V); ask(f, cube(f), ref::shape_name(kind)); ask(s.neg(f), cube(s.neg(f)), ref::shape_name(kind)); mc::nontrivial(); mc::state(mc::mix(n, kind * 16 + place)); return; }
    const auto bit = [&](size_t l) { return kind == 12 ? false : kind == 13 ? true : kind == 14 ? l % 2 == 0 : scatter(l / 64 + kind) >> (l % 64) & 1; };
    std::vector<size_t> at{0, 1, n / 2, n - 2, n - 1}; for (size_t p = 2; p < n; p *= 2) { at.push_back(p); at.push_back(p - 1); }
    const ref::Id cube = s.automaton(V, 0, [&](size_t l, long, int b) -> long { return b == int(bit(l)) ? 0 : -1; }, [](long) { return 1; }); ask(cube, true, "a cube");
    for (size_t x : at) if (x < n) {
        ask(s.automaton(V, 0, [&](size_t l, long, int b) -> long { return b == int(bit(l)) ? 0 : l == x ? -2 : -1; }, [](long) { return 1; }), x + 1 == n, "a cube with an arc to the true sink");
        ask(s.automaton(V, 0, [&](size_t l, long, int b) -> long { return b == int(bit(l)) || l == x ? 0 : -1; }, [](long) { return 1; }), true, "a cube without one of the variables");
        ask(s.lor(cube, s.automaton(V, 0, [&](size_t l, long, int b) -> long { return b == int(bit(l) != (l == x)) ? 0 : -1; }, [](long) { return 1; })), true, "two neighbouring cubes");
        ask(s.lor(cube, s.automaton(V, 0, [&](size_t l, long, int b) -> long { return b == int(bit(l) != (l == x || l == (x + 1) % n)) ? 0 : -1; }, [](long) { return 1; })), false, "two cubes"); mc::beat(); }
    mc::nontrivial(); mc::state(mc::mix(n, kind * 16 + place));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s;
    s.push_back({"constants", "both constants, with 0..3 variables in the manager", 4, [](long u) { bdd_mgr m; add_vars(m, u); MC_CHECK(m.topsink().exactly_one_solution() && !m.botsink().exactly_one_solution(), "wrong answer for a constant"); mc::steps(2); mc::state(u); }});
    for (int n = 1; n <= 3; ++n) s.push_back({"functions-" + std::to_string(n), "all functions of " + std::to_string(n) + " variables, all placements into " + std::to_string(n + 1) + " of " + std::to_string(n + 2) + " variables, four ways of building, four key policies", 16, [n](long u) { key_regime(u / 4); all(n, 0, 1l << (1 << n), int(u % 4)); }});
    s.push_back({"functions-4", "all 65536 functions of 4 variables", 64, [](long u) { bdd_mgr m; add_vars(m, 4); for (long t = u * 1024; t < (u + 1) * 1024; ++t) one(m, t, ident(4), 0, 4); }});
    if (T) s.push_back({"functions-4-placed", "all functions of 4 variables, all placements into 5 of 6 variables", 64, [](long u) { all(4, u * 1024, (u + 1) * 1024, 0); }, 120});
    s.push_back({"cubes-4", "every cube of 4 variables, its complement, and each with any one assignment added or removed", 9, [](long u) { cubes(4, u * 9, u * 9 + 9); }});
    s.push_back({"cubes-5", "every cube of 5 variables, its complement, and neighbours", 27, [](long u) { cubes(5, u * 9, u * 9 + 9); }});
    s.push_back({"cubes-6", "every cube of 6 variables, its complement, and neighbours", 81, [](long u) { cubes(6, u * 9, u * 9 + 9); }});
    s.push_back({"chains", "cubes of 1..40 variables, with and without skipped levels, any level's other arc redirected to the true sink or to another literal", 40, [T](long u) { for (int p = 0; p < (T ? 64 : 8); ++p) for (int k = 0; k < 4; ++k) chain(int(u) + 1, p, k == 1 ? 0 : k); }});
    { const size_t M = T ? 8193 : 4097; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 4, [](long u) { ref::Far far(ref::FAR[u % 3]); scale(6, int(u / 3 % 12), int(u / 36)); }, 120});
      s.push_back({"scale", "2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ": 12 kinds of functions and their negations, cubes of five patterns with an arc redirected, a variable dropped or another cube added at about 20 positions", long(z.size()) * 17, [z](long u) { scale(z[u / 17], int(u % 17), int((u + u / 17) % 4)); }, 120}); }
    return s;
}
