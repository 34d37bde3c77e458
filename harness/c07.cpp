// C07: variables can be added at any time without affecting existing BDDs.
#include "ref.h"
using namespace kit; using namespace BDD;

namespace {
void check_projection(bdd_mgr& m, size_t v) {
    const size_t before = m.nr_variables();
    node_ref p = m.projection(v);
    MC_CHECK(m.nr_variables() == std::max(before, v + 1), "projection(%zu) of a manager with %zu variables leaves %zu variables", v, before, m.nr_variables());
    node_ref q = m.neg_projection(v);
    MC_CHECK(m.nr_variables() == std::max(before, v + 1), "negated projection changes the number of variables");
    MC_CHECK(p.variable() == v && p.low() == m.botsink() && p.high() == m.topsink(), "projection of variable %zu is wrong", v);
    MC_CHECK(q.variable() == v && q.low() == m.topsink() && q.high() == m.botsink(), "negated projection of variable %zu is wrong", v);
    MC_CHECK(m.negate(p) == q && m.projection(v) == p && m.neg_projection(v) == q, "projections of variable %zu are not canonical", v);
    std::vector<char> lab(m.nr_variables() + 1, 0);
    for (int b = 0; b < 2; ++b) for (int o = 0; o < 2; ++o) {
        std::fill(lab.begin(), lab.end(), o); lab[v] = b;
        MC_CHECK(p.evaluate(lab.begin(), lab.begin() + m.nr_variables()) == (b == 1) && q.evaluate(lab.begin(), lab.begin() + m.nr_variables()) == (b == 0), "projection of %zu does not evaluate to the variable", v);
    }
    mc::steps(2);
}
// k functions, then `add` variables by one call style, then everything is compared and continued
void grow(int k, int add, int style, int keys) {
    key_regime(keys); bdd_mgr m; add_vars(m, 3); Pos pos = ident(3);
    std::vector<std::pair<node_ref, TT>> f; for (int i = 0; i < k; ++i) { TT t = (scatter(i) & 255); f.push_back({build(m, t, pos), t}); }
    size_t nodes = m.nr_nodes(), nv = 3 + add;
    if (style == 0) for (int i = 0; i < add; ++i) { size_t r = m.add_variable(); MC_CHECK(r == size_t(3 + i), "variable number %d got index %zu", 3 + i, r); MC_CHECK(m.nr_variables() == r + 1, "%zu variables after adding number %zu", m.nr_variables(), r); }
    else if (add > 0) { node_ref p = m.projection(nv - 1); nodes += p.address() != nullptr; }
    MC_CHECK(m.nr_variables() == nv, "%zu variables, expected %zu", m.nr_variables(), nv);
    MC_CHECK(m.nr_nodes() == nodes, "adding variables changed the node count from %zu to %zu", nodes, m.nr_nodes());
    for (auto& x : f) { MC_CHECK(eval_tt(x.first, pos, nv) == x.second, "after adding %d variables %s changed to %s", add, str(x.second, 3).c_str(), str(eval_tt(x.first, pos, nv), 3).c_str()); MC_CHECK(build(m, x.second, pos) == x.first, "after adding %d variables %s is not found again", add, str(x.second, 3).c_str()); }
    MC_CHECK(m.nr_nodes() == nodes, "looking up existing BDDs after adding %d variables created nodes", add);
    for (size_t v : {nv - 1, nv / 2, nv, nv + 5}) check_projection(m, v);
    Pos p2 = {0, 1, 2, nv + 5}; nv = m.nr_variables();
    for (size_t i = 0; i < f.size(); ++i) {
        node_ref r = m.ite_rec(m.projection(nv - 1), f[i].first, f[(i + 1) % f.size()].first); TT t0 = f[i].second, t1 = f[(i + 1) % f.size()].second; TT w = t0 << 8 | t1;
        MC_CHECK(eval_tt(r, p2, nv) == w, "if-then-else on the newest variable gives %s, expected %s", str(eval_tt(r, p2, nv), 4).c_str(), str(w, 4).c_str());
        MC_CHECK(build(m, w, p2) == r, "if-then-else on the newest variable is not canonical"); }
    m.collect_garbage(); for (auto& x : f) MC_CHECK(eval_tt(x.first, pos, nv) == x.second && build(m, x.second, pos) == x.first, "after a collection %s changed", str(x.second, 3).c_str());
    std::vector<TT> ts; for (auto& x : f) ts.push_back(x.second);
    m.collect_garbage(); MC_CHECK(m.nr_nodes() == 2 + shared_size(ts, 3), "%zu nodes, expected %zu", m.nr_nodes(), 2 + shared_size(ts, 3));
    mc::steps(add + k); mc::state(mc::mix(mc::mix(k, add), style * 4 + keys));
}
// every history of actions, starting from an empty manager; the latest (up to) 4 projected variables are modelled
constexpr int ACT = 11;
void history(int depth, int keys, int first) {
    key_regime(keys); bdd_mgr m; size_t nv = 0;
    node_ref acc = m.topsink(); std::vector<size_t> used; bool parity = true; // acc: parity of used variables (plus one), or conjunction
    node_ref con = m.topsink(), old = m.topsink(); size_t oldused = 0; bool oldpar = true;
    auto holds = [&](const char* when) {
        std::vector<char> lab(nv + 1, 0);
        for (int a = 0; a < (1 << used.size()); ++a) {
            std::fill(lab.begin(), lab.end(), 0); for (size_t i = 0; i < used.size(); ++i) lab[used[i]] = a >> i & 1;
            bool p = parity ^ (__builtin_popcount(a) & 1), c = a == (1 << used.size()) - 1, o = oldpar ^ (__builtin_popcount(a & ((1 << oldused) - 1)) & 1);
            MC_CHECK(acc.evaluate(lab.begin(), lab.begin() + nv) == p, "%s: parity of %zu variables is wrong", when, used.size());
            MC_CHECK(con.evaluate(lab.begin(), lab.begin() + nv) == c, "%s: conjunction of %zu variables is wrong", when, used.size());
            MC_CHECK(old.evaluate(lab.begin(), lab.begin() + nv) == o, "%s: saved BDD changed", when);
        }
        MC_CHECK(m.nr_variables() == nv, "%s: %zu variables, expected %zu", when, m.nr_variables(), nv);
    };
    auto use = [&](size_t v, bool neg) {
        if (std::find(used.begin(), used.end(), v) != used.end() || used.size() >= 7) return;
        node_ref p = m.projection(v); nv = std::max(nv, v + 1); used.push_back(v);
        if (neg) { acc = m.xor_rec(acc, m.neg_projection(v)); parity = !parity; } else acc = m.xor_rec(p, acc);
        con = m.and_rec(con, p);
    };
    for (int d = 0; d < depth; ++d) {
        int a = d == 0 ? first : mc::choose(ACT, "action"); mc::steps();
        switch (a) {
            case 0: { size_t r = m.add_variable(); MC_CHECK(r == nv, "new variable has index %zu, expected %zu", r, nv); ++nv; MC_NOTE("add_variable"); break; }
            case 1: case 2: case 3: { size_t v = nv + (a == 1 ? 0 : a == 2 ? 1 : 6); MC_NOTE("use projection(%zu)", v); use(v, false); break; }
            case 4: if (nv) { MC_NOTE("use variable 0"); use(0, false); } break;
            case 5: if (nv) { MC_NOTE("use negated variable %zu", nv - 1); use(nv - 1, true); } break;
            case 6: if (nv) { MC_NOTE("use variable %zu", nv / 2); use(nv / 2, false); } break;
            case 7: m.collect_garbage(); MC_NOTE("collect"); break;
            case 8: old = acc; oldused = used.size(); oldpar = parity; MC_NOTE("save"); break;
            case 9: for (int i = 0; i < 9; ++i) { size_t r = m.add_variable(); MC_CHECK(r == nv, "new variable has index %zu, expected %zu", r, nv); ++nv; } MC_NOTE("add 9 variables"); break;
            case 10: acc = m.negate(acc); parity = !parity; MC_NOTE("negate"); break;
        }
        holds("in a history");
    }
    // recompute
    node_ref a2 = m.topsink(), c2 = m.topsink(); bool p2 = true; std::vector<size_t> srt(used); std::sort(srt.begin(), srt.end());
    for (size_t v : srt) { a2 = m.xor_rec(a2, m.projection(v)); c2 = m.and_rec(m.projection(v), c2); }
    if (p2 != parity) a2 = m.negate(a2);
    MC_CHECK(a2 == acc && c2 == con, "recomputing gives another reference");
    if (nv) check_projection(m, nv - 1);
    check_projection(m, nv + 2);
    mc::state(mc::mix(mc::mix(nv, used.size()), parity * 8 + oldused));
}
// many variables: conjunction of all projections asked for in different orders
void many(int n, int order) {
    bdd_mgr m; node_ref con = m.topsink(), par = m.botsink();
    auto at = [&](int i) { return order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (i * 7 + 3) % n; };
    if (order == 3 && n % 7 == 0) return;
    for (int i = 0; i < n; ++i) { con = m.and_rec(con, m.projection(at(i))); if (i < 6 || i + 6 > n) par = m.xor_rec(par, m.projection(at(i))); }
    MC_CHECK(m.nr_variables() == size_t(n), "%zu variables, expected %d", m.nr_variables(), n);
    MC_CHECK(con.nr_nodes() == size_t(n), "conjunction of %d variables has %zu nodes", n, con.nr_nodes());
    auto vs = con.variables(); MC_CHECK(int(vs.size()) == n && vs.back() == size_t(n - 1) && vs.front() == 0, "variables of the conjunction of %d variables", n);
    std::vector<char> lab(n, 1); MC_CHECK(con.evaluate(lab.begin(), lab.end()), "conjunction of %d variables is false on all ones", n);
    for (int i = 0; i < n; i += 1 + n / 64) { lab[i] = 0; MC_CHECK(!con.evaluate(lab.begin(), lab.end()), "conjunction ignores variable %d", i); lab[i] = 1; }
    node_ref c = m.topsink(); for (int i = n; i-- > 0;) c = m.unique_find(i, m.botsink(), c);
    MC_CHECK(c == con, "conjunction of %d variables is not canonical", n);
    m.collect_garbage();
    for (int i = 0; i < n; i += 1 + n / 64) check_projection(m, i);
    mc::steps(2 * n); mc::state(mc::mix(n, order));
}
// very many variables: functions over the first and the newest variables after every doubling
void many(size_t N, int mode) {
    bdd_mgr m; ref::Store s; std::vector<std::pair<node_ref, std::pair<ref::Id, std::vector<size_t>>>> kept; mc::steps(N);
    for (size_t i = 0; i < N; ++i) {
        if (mode == 0) { const size_t v = m.add_variable(); MC_CHECK(v == i, "variable %zu gets number %zu", i, v); } else if (mode == 1) { node_ref p = m.projection(i); MC_CHECK(p.variable() == i && p.low() == m.botsink() && p.high() == m.topsink(), "projection %zu", i); }
        else { if (((i + 1) & i) == 0 || i + 1 == N) m.projection(i); else continue; }
        if (i % 1024 == 0) mc::beat();
        MC_CHECK(m.nr_variables() == i + 1, "%zu variables reported after adding %zu", m.nr_variables(), i + 1);
        if (i >= 6 && (((i + 1) & i) == 0 || (i & (i - 1)) == 0 || (i - 1 & (i - 2)) == 0 || i + 1 == N)) {
            std::vector<size_t> V{0, i / 2 - 1, i / 2, i / 2 + 1, i - 1, i}; V.erase(std::unique(V.begin(), V.end()), V.end()); if (V.size() < 6) continue;
            const ref::Id f = ref::shape(s, int(i % ref::SHAPES), V); kept.push_back({ref::make(m, s, f), {f, V}});
            node_ref p = m.projection(i), q = m.projection(0); ref::is(s, m.and_rec(p, q), s.land(s.var(0), s.var(i)), "conjunction of the first and the newest variable", i + 1); ref::is(s, m.xor_rec(m.projection(i - 1), p), s.lxor(s.var(i - 1), s.var(i)), "exclusive-or of the newest variables", i + 1); ref::is(s, m.neg_projection(i), s.neg(s.var(i)), "negated projection", i + 1);
            for (auto& k : kept) { ref::is(s, k.first, k.second.first, "BDD from before", i + 1); ref::evaluates(s, k.first, k.second.first, k.second.second, i + 1, "BDD from before"); MC_CHECK(ref::make(m, s, k.second.first) == k.first, "building it again gives another reference"); ref::is(s, m.or_rec(k.first, p), s.lor(k.second.first, s.var(i)), "disjunction of a BDD from before with the newest variable", i + 1); }
        }
    }
    m.collect_garbage(); MC_CHECK(m.nr_variables() == N, "variables lost in a collection"); for (auto& k : kept) ref::is(s, k.first, k.second.first, "BDD from before, after a collection", N); mc::nontrivial(); mc::state(mc::mix(N, mode));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s; const int D = T ? 7 : 6;
    s.push_back({"grow", "0..40 functions stored, then 0..140 variables added one by one or by asking for a projection, 4 key regimes; lookup, projections, operations and collections afterwards", 141,
        [](long u) { for (int k = 0; k <= 40; ++k) for (int st = 0; st < 2; ++st) grow(k, int(u), st, (k + u) % NKEYS); }, 120});
    s.push_back({"histories", "all histories of " + std::to_string(D) + " out of 11 actions from an empty manager (add one or nine variables, use new, distant, first, middle, last projections, save, negate, collect) x 2 key regimes", 2 * ACT,
        [=](long u) { history(D, u / ACT ? 3 : 0, int(u % ACT)); }, 60});
    s.push_back({"many", std::string("conjunction of all n variables for n = 1..300") + (T ? ", 1000..20000 in steps of 1000" : ", 1000, 2000, 4000") + ", projections requested in 4 orders", 300 + (TINY_POOLS ? 0 : T ? 20 : 3),
        [=](long u) { int n = u < 300 ? int(u) + 1 : T ? int(u - 299) * 1000 : 1000 << (u - 300); for (int o = 0; o < 4; ++o) many(n, o); }, 300});
    s.push_back({"very-many", "66000 variables and 2^k-1, 2^k, 2^k+1 variables up to 16385, added one by one, through projections, or in jumps; functions over first and newest variables", long(ref::sizes(16385, 15).size() + 1) * 3, [](long u) { auto z = ref::sizes(16385, 15); z.push_back(66000); many(z[u / 3], int(u % 3)); }, 120});
    return s;
}
