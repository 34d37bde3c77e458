// C02: equal references exactly for equal functions; every diagram ordered, reduced and minimal.
#include "ref.h"
using namespace kit; using namespace BDD;

namespace {

node_ref construct(bdd_mgr& m, int way, TT t, const Pos& pos) {
    switch (way) {
        case 0: return build(m, t, pos);
        case 1: return build_minterms(m, t, pos);
        case 2: return build_clauses(m, t, pos);
        case 3: return build_ite(m, t, pos);
        default: return build_anf(m, t, pos);
    }
}
const char* way_name[] = {"bottom-up", "minterms", "clauses", "if-then-else from the last variable", "exclusive-or of monomials"};
constexpr int WAYS = 5;

void examine(bdd_mgr& m, node_ref r, TT t, const Pos& pos, const char* who) {
    const int n = int(pos.size());
    MC_CHECK(eval_tt(r, pos, m.nr_variables()) == t, "%s: built %s, evaluates to %s", who, str(t, n).c_str(), str(eval_tt(r, pos, m.nr_variables()), n).c_str());
    size_t nodes = check_structure(r, who), want = bdd_size(t, n);
    MC_CHECK(nodes == want, "%s: %s has %zu nodes, the reduced ordered diagram has %zu", who, str(t, n).c_str(), nodes, want);
    MC_CHECK(r.nr_nodes() == want, "%s: %s reports %zu nodes, has %zu", who, str(t, n).c_str(), r.nr_nodes(), want);
}

// one function, all constructions in one order, fresh manager
void one_function(TT t, const Pos& pos, size_t nv, const std::vector<int>& order) {
    bdd_mgr m; add_vars(m, nv); std::vector<node_ref> r;
    for (int w : order) {
        r.push_back(construct(m, w, t, pos));
        MC_NOTE("%s by %s", str(t, pos.size()).c_str(), way_name[w]);
        examine(m, r.back(), t, pos, way_name[w]);
        MC_CHECK(r.back() == r[0] && !(r.back() != r[0]), "%s: different references when built by %s and by %s", str(t, pos.size()).c_str(), way_name[order[0]], way_name[w]);
    }
    node_ref c = m.negate(r[0]);
    MC_CHECK(c != r[0], "%s equals its complement", str(t, pos.size()).c_str());
    MC_CHECK(m.negate(c) == r[0], "%s: double complement is another reference", str(t, pos.size()).c_str());
    mc::steps(WAYS + 2); mc::state(mc::mix(mc::mix(pos.size() * 16 + pos[0], t), 2));
}
// all functions of n variables in one manager: first way, then second way in another order
void all_functions(int n, const Pos& pos, size_t nv, int w1, int w2, int order) {
    bdd_mgr m; add_vars(m, nv);
    const TT N = TT(1) << (1 << n);
    auto at = [&](TT i, int o) { return o == 0 ? i : o == 1 ? N - 1 - i : (i * 167 + 13) % N; };
    std::vector<node_ref> r(N);
    for (TT i = 0; i < N; ++i) { TT t = at(i, order % 3); r[t] = construct(m, w1, t, pos); }
    MC_NOTE("all functions of %d variables by %s, then by %s", n, way_name[w1], way_name[w2]);
    std::unordered_map<node*, TT> who;
    for (TT t = 0; t < N; ++t) { auto p = who.emplace(r[t].address(), t); MC_CHECK(p.second, "different functions %s and %s are the same reference", str(t, n).c_str(), str(p.first->second, n).c_str()); }
    for (TT i = 0; i < N; ++i) { TT t = at(i, order / 3); node_ref x = construct(m, w2, t, pos); MC_CHECK(x == r[t], "%s: second construction (%s after %s) gives another reference", str(t, n).c_str(), way_name[w2], way_name[w1]); }
    for (TT t = 0; t < N; ++t) examine(m, r[t], t, pos, way_name[w1]);
    std::vector<TT> all; for (TT t = 0; t < N; ++t) all.push_back(t);
    mc::steps(2 * N); mc::state(mc::mix(mc::mix(w1 * 8 + w2, order), pos[0] * 8 + n));
}
// histories: three references, every sequence of operations
void history(int depth, long first) {
    static const Pos pos = {1, 2, 4}; bdd_mgr m; add_vars(m, 6);
    const int kr = first % 2; first /= 2; key_regime(kr ? 3 : 0);
    node_ref s[4] = {m.projection(1), m.projection(2), m.projection(4), m.botsink()}; TT t[4] = {tvar(0, 3), tvar(1, 3), tvar(2, 3), 0};
    std::vector<std::pair<node_ref, TT>> old; // everything ever computed stays referenced
    auto step = [&](int a) {
        int d, x, y; TT nt; node_ref r;
        if (a < 27) {
            int o = a / 9, q = a % 9; d = q / 3; x = d; y = (d + 1 + q % 3) % 4;
            if (o == 0) { r = m.and_rec(s[x], s[y]); nt = t[x] & t[y]; } else if (o == 1) { r = m.or_rec(s[x], s[y]); nt = t[x] | t[y]; } else { r = m.xor_rec(s[x], s[y]); nt = t[x] ^ t[y]; }
            MC_NOTE("s%d := s%d %s s%d", d, x, o == 0 ? "and" : o == 1 ? "or" : "xor", y);
        } else if (a < 30) { d = a - 27; r = m.negate(s[d]); nt = ~t[d] & ones(3); MC_NOTE("s%d := not s%d", d, d); }
        else { d = a - 30; r = m.ite_rec(s[d], s[(d + 1) % 3], s[(d + 2) % 3]); nt = (t[d] & t[(d + 1) % 3]) | (~t[d] & t[(d + 2) % 3] & ones(3)); MC_NOTE("s%d := ite(s%d, s%d, s%d)", d, d, (d + 1) % 3, (d + 2) % 3); }
        old.push_back({s[d], t[d]}); s[d] = r; t[d] = nt;
    };
    step(int(first % 33)); step(int(first / 33));
    for (int i = 2; i < depth; ++i) step(mc::choose(33, "op"));
    for (int i = 0; i < 3; ++i) old.push_back({s[i], t[i]});
    for (auto& a : old) {
        MC_CHECK(eval_tt(a.first, pos, 6) == a.second, "reference for %s evaluates to %s", str(a.second, 3).c_str(), str(eval_tt(a.first, pos, 6), 3).c_str());
        for (auto& b : old) MC_CHECK((a.first == b.first) == (a.second == b.second), "references for %s and %s are %s", str(a.second, 3).c_str(), str(b.second, 3).c_str(), a.first == b.first ? "equal" : "different");
    }
    for (int i = 0; i < 3; ++i) { size_t k = check_structure(s[i], "history"); MC_CHECK(k == bdd_size(t[i], 3), "%s has %zu nodes, minimum %zu", str(t[i], 3).c_str(), k, bdd_size(t[i], 3)); }
    mc::steps(depth); mc::state(mc::mix(mc::mix(t[0], t[1]), t[2]));
}

// histories in which nodes are dropped and collected: a reference handed out afterwards is canonical again
void collected(int depth, long first) {
    static const Pos pos = {0, 1, 2}; bdd_mgr m; add_vars(m, 3); key_regime(first % 2 ? 3 : 0); first /= 2;
    node_ref s[3] = {m.botsink(), m.botsink(), m.botsink()}; TT t[3] = {0, 0, 0}; const TT all = ones(3);
    const auto step = [&](int a) {
        if (a < 24) { // a node above two of: false, true, the third variable (or slot 1), its negation (or slot 0)
            const int v = a < 12 ? 1 : 0, x = a % 12 / 3, y = (x + 1 + a % 3) % 4; node_ref z = m.botsink(), q = m.topsink(), p1 = v ? m.unique_find(2, z, q) : s[1], p2 = v ? m.unique_find(2, q, z) : s[0]; node_ref* c[4] = {&z, &q, &p1, &p2}; const TT ct[4] = {0, all, v ? tvar(2, 3) : t[1], v ? ~tvar(2, 3) & all : t[0]};
            if (!v && (depends(ct[x], 0, 3) || depends(ct[y], 0, 3))) return; const int d = v ? 1 : 2; const TT top = tvar(v, 3); MC_NOTE("s%d := node of variable %d above %s and %s", d, v, str(ct[x], 3).c_str(), str(ct[y], 3).c_str());
            s[d] = m.unique_find(v, *c[x], *c[y]); t[d] = (~top & ct[x]) | (top & ct[y]);
        } else if (a < 27) { s[a - 24] = m.botsink(); t[a - 24] = 0; MC_NOTE("drop s%d", a - 24); }
        else if (a == 27) { m.collect_garbage(); MC_NOTE("collect"); }
        else if (a == 28) { s[0] = m.xor_rec(s[1], s[2]); t[0] = t[1] ^ t[2]; MC_NOTE("s0 := s1 xor s2"); } else { s[0] = m.and_rec(s[1], s[2]); t[0] = t[1] & t[2]; MC_NOTE("s0 := s1 and s2"); }
    };
    step(int(first % 30)); step(int(first / 30)); for (int i = 2; i < depth; ++i) step(mc::choose(30, "op"));
    for (int i = 0; i < 3; ++i) { MC_CHECK(eval_tt(s[i], pos, 3) == t[i], "reference for %s evaluates to %s", str(t[i], 3).c_str(), str(eval_tt(s[i], pos, 3), 3).c_str()); for (int j = 0; j < 3; ++j) MC_CHECK((s[i] == s[j]) == (t[i] == t[j]), "references for %s and %s are %s", str(t[i], 3).c_str(), str(t[j], 3).c_str(), s[i] == s[j] ? "equal" : "different"); }
    for (int i = 0; i < 3; ++i) { MC_CHECK(build(m, t[i], pos) == s[i], "building %s gives another reference than the one kept", str(t[i], 3).c_str()); MC_CHECK(check_structure(s[i], "history with collections") == bdd_size(t[i], 3), "%s is not minimal", str(t[i], 3).c_str()); }
    mc::steps(depth); mc::state(mc::mix(mc::mix(t[0], t[1]), t[2]));
}

// functions of many variables built along different routes are the same reference, different functions are not
void scale(size_t n, int place, int part) {
    ref::Store s; bdd_mgr m; const auto V = ref::vars(n, place); add_vars(m, V.back() + 1); std::vector<std::pair<node_ref, ref::Id>> r; mc::steps(20);
    const auto same = [&](node_ref x, ref::Id w, const char* route) { node_ref c = ref::make(m, s, w); MC_CHECK(x == c && !(x != c), "%zu variables: %s gives another reference than building bottom-up", n, route); MC_CHECK(std::hash<node_ref>()(x) == std::hash<node_ref>()(c), "equal references with different hashes"); r.push_back({x, w}); };
    std::vector<node_ref> x, nx; for (size_t v : V) { x.push_back(m.projection(v)); nx.push_back(m.neg_projection(v)); }
    if (part == 0) { // constants and literals
        const ref::Id con = ref::shape(s, 0, V), par = ref::shape(s, 1, V), na = ref::shape(s, 9, V);
        node_ref a = m.topsink(), p = m.botsink(), q = m.botsink(), o = m.botsink();
        for (size_t i = n; i-- > 0;) { a = m.and_rec(x[i], a); p = m.xor_rec(x[i], p); o = m.or_rec(nx[i], o); }
        same(a, con, "conjunction from the last variable"); same(p, par, "exclusive-or from the last variable"); same(o, na, "disjunction of negations");
        same(m.negate(a), na, "negation"); same(m.negate(m.negate(p)), par, "double negation"); same(m.negate(o), con, "negation");
        same(m.and_rec(x.begin(), x.end()), con, "range conjunction"); same(m.xor_rec(x.begin(), x.end()), par, "range exclusive-or"); same(m.or_rec(nx.begin(), nx.end()), na, "range disjunction");
        same(m.xor_rec(nx.begin(), nx.end()), n % 2 ? s.neg(par) : par, "range exclusive-or of negations"); same(m.all_false(nx.begin(), nx.end()), con, "all-false of negations"); same(m.at_least_one(nx.begin(), nx.end()), na, "at-least-one of negations");
        if (n <= 600) { a = m.topsink(); p = m.botsink(); for (size_t i = 0; i < n; ++i) { a = m.and_rec(a, x[i]); p = m.xor_rec(p, x[i]); } same(a, con, "conjunction from the first variable"); same(p, par, "exclusive-or from the first variable"); }
        same(m.ite_rec(a, p, m.negate(p)), s.ite(con, par, s.neg(par)), "if-then-else"); same(m.and_rec(a, o), 0, "contradiction"); same(m.or_rec(a, o), 1, "tautology"); same(m.xor_rec(p, p), 0, "exclusive-or with itself"); same(m.xor_rec(m.negate(p), p), 1, "exclusive-or with the negation");
    } else if (part == 1) { // neighbours, counting
        std::vector<node_ref> two, no; for (size_t i = 0; i + 1 < n; ++i) { two.push_back(m.and_rec(x[i], x[i + 1])); no.push_back(m.or_rec(nx[i], nx[i + 1])); }
        const ref::Id t = ref::shape(s, 6, V), e1 = ref::shape(s, 2, V);
        same(m.or_rec(two.begin(), two.end()), t, "range disjunction"); same(m.and_rec(no.begin(), no.end()), s.neg(t), "range conjunction"); same(m.negate(m.or_rec(two.begin(), two.end())), ref::shape(s, 5, V), "negation");
        std::reverse(two.begin(), two.end()); node_ref o = m.botsink(); for (auto& y : two) o = m.or_rec(o, y); same(o, t, "disjunction from the last");
        if (n <= 300) { same(m.simplex(x.begin(), x.end()), e1, "simplex"); node_ref a = m.at_most_one(x.begin(), x.end()), b = m.at_least_one(x.begin(), x.end()); same(m.and_rec(b, a), e1, "at-most-one and at-least-one"); }
    } else if (part == 3) { // 2^(n/2) nodes on one level: equality and inner product of halves
        const size_t k = n / 2; const ref::Id eq = ref::shape(s, ref::WIDE, V), ip = ref::shape(s, ref::WIDE + 1, V); node_ref e = m.topsink(), d = m.botsink(), p = m.botsink(), q = m.botsink();
        for (size_t i = k; i-- > 0;) { node_ref ne = m.xor_rec(x[i], x[k + i]), a = m.and_rec(x[i], x[k + i]); e = m.and_rec(e, m.negate(ne)); d = m.or_rec(ne, d); p = m.xor_rec(p, a); mc::beat(); }
        for (size_t i = 0; i < k; ++i) { q = m.ite_rec(x[k + i], m.xor_rec(x[i], q), q); mc::beat(); }
        same(e, eq, "equality, last position first"); same(m.negate(d), eq, "negated difference"); same(p, ip, "inner product, last position first"); same(q, ip, "inner product, first position first"); same(m.negate(m.negate(q)), ip, "double negation"); same(m.xor_rec(m.xor_rec(p, e), e), ip, "two exclusive-ors"); same(m.or_rec(m.and_rec(e, p), m.and_rec(e, m.negate(q))), eq, "case distinction");
        for (ref::Id w : {eq, ip}) { node_ref f = ref::make(m, s, w); bdd_collection c; size_t nr = c.add_bdd(f); same(c.export_bdd(m, nr), w, "export"); mc::beat(); std::vector<size_t> up; for (size_t i = 0; i <= V.back(); ++i) up.push_back(i + 1); node_ref g = m.rebase(f, up.begin(), up.end()); same(g, s.map(w, [](size_t v) { return v + 1; }), "rebasing"); std::unordered_map<size_t, size_t> down; for (size_t v : V) down[v + 1] = v; same(m.rebase(g, down), w, "rebasing back"); mc::beat(); }
    } else { // copies: through collections, by rebasing, through another manager
        for (int k = 0; k < ref::SHAPES; ++k) {
            const ref::Id w = ref::shape(s, k, V); node_ref f = ref::make(m, s, w); bdd_collection c; size_t nr = c.add_bdd(f); same(c.export_bdd(m, nr), w, "export"); same(m.add_bdd(c, nr), w, "adding from a collection");
            bdd_mgr m2; add_vars(m2, m.nr_variables()); same(m.add_bdd(c, c.add_bdd(c.export_bdd(m2, nr))), w, "way through another manager");
            std::vector<size_t> up; for (size_t i = 0; i <= V.back(); ++i) up.push_back(i + 3); node_ref g = m.rebase(f, up.begin(), up.end()); same(g, s.map(w, [](size_t v) { return v + 3; }), "rebasing");
            std::unordered_map<size_t, size_t> down; for (size_t v : V) down[v + 3] = v; same(m.rebase(g, down), w, "rebasing back");
            same(ref::make(m, s, ref::shape(s, k, std::vector<size_t>(V.begin() + 1, V.end()))), ref::shape(s, k, std::vector<size_t>(V.begin() + 1, V.end())), "building again"); same(ref::make(m, s, ref::shape(s, k, std::vector<size_t>(V.begin(), V.end() - 1))), ref::shape(s, k, std::vector<size_t>(V.begin(), V.end() - 1)), "building again");
        }
    }
    for (auto& a : r) { ref::is(s, a.first, a.second, "kept reference", n); for (auto& b : r) MC_CHECK((a.first == b.first) == (a.second == b.second), "%zu variables: references %s although the functions %s", n, a.first == b.first ? "equal" : "different", a.second == b.second ? "agree" : "differ"); }
    mc::nontrivial(); mc::state(mc::mix(n, place * 4 + part));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH;
    std::vector<mc::Scenario> s;
    s.push_back({"five-ways-3var", "all 256 functions of 3 variables x all 120 orders of five constructions, fresh manager each", 256,
        [](long u) { static const auto p = permutations(WAYS); for (auto& o : p) one_function(u, ident(3), 3, o); }});
    s.push_back({"five-ways-placements", "all 256 functions of 3 variables x all 20 placements among 6 manager variables x 10 orders of the constructions", 20 * 16,
        [](long u) { static const auto pl = placements(3, 6); static const auto p = permutations(WAYS); for (int k = 0; k < 16; ++k) for (int o = 0; o < 120; o += 12) one_function((u % 16) * 16 + k, pl[u / 16], 6, p[o]); }});
    s.push_back({"five-ways-4var", T ? "all 65536 functions of 4 variables x 5 orders of the constructions, fresh manager each" : "all 65536 functions of 4 variables, order of the constructions rotating", 512,
        [T](long u) { static const auto p = permutations(WAYS); for (int k = 0; k < 128; ++k) for (int o = 0; o < (T ? 5 : 1); ++o) { TT t = u * 128 + k; one_function(t, ident(4), 4, p[(t + o * 23) % 120]); } }});
    s.push_back({"all-together-3var", "all 256 functions of 3 variables in one manager: 25 pairs of constructions x 9 pairs of orders", 25 * 9,
        [](long u) { static const auto pl = placements(3, 5); all_functions(3, pl[u % 10], 5, int(u / 9 / 5), int(u / 9 % 5), int(u % 9)); }});
    const int D = T ? 5 : 4;
    s.push_back({"histories", "all sequences of " + std::to_string(D) + " operations out of 33 on three references (and a constant), every intermediate reference kept; two hash-key regimes", 33 * 33 * 2,
        [D](long u) { history(D, u); }});
    const int DC = T ? 6 : 5; s.push_back({"histories-collected", "all sequences of " + std::to_string(DC) + " steps out of 30 (24 ways of building a node, two connectives, dropping a reference, collecting) on three references; two hash-key regimes", 30 * 30 * 2, [DC](long u) { collected(DC, u); }, T ? 600 : 60});
    if (T) s.push_back({"all-together-4var", "all 65536 functions of 4 variables in one manager, two constructions", 8,
        [](long u) { all_functions(4, ident(4), 4, int(u % 5), int((u + 3) % 5), int(u)); }, 600});
    { const size_t M = T ? 4097 : 1025; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 1, [](long u) { ref::Far far(ref::FAR[u % 3]); scale(6, int(u / 3 % 4), int(u / 12 % 3)); }, 120});
      s.push_back({"scale", "functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + " in 4 placements, built along up to 20 routes; all pairs of references compared", long(z.size()) * 12, [z](long u) { scale(z[u / 12], int(u % 4), int(u / 4 % 3)); }, 120}); }
    { const int K = T ? 15 : 14; s.push_back({"wide", "equality and inner product of two halves of 2k variables, k = 3.." + std::to_string(K) + " (2^k nodes on one level), built along 14 routes", 2l * (K - 2), [](long u) { scale(2 * size_t(3 + u / 2), int(u % 2) * 3, 3); }, 240}); }
    return s;
}
