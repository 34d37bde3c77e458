// C16: relaxing a stored BDD by literals.
#include "ref.h"
#include <map>
#include <unordered_set>
using namespace kit; using namespace BDD;

namespace {
// path-rerouting semantics, on the reduced ordered diagram of t
TT relax(TT t, int n, unsigned P, unsigned N) {
    TT r = 0;
    for (int a = 0; a < (1 << n); ++a) {
        TT cur = t; bool v = false;
        for (;;) {
            if (cur == 0) break; if (cur == ones(n)) { v = true; break; }
            int i = 0; while (!depends(cur, i, n)) ++i;
            if ((a >> i & 1) && (P >> i & 1)) { v = true; break; } if (!(a >> i & 1) && (N >> i & 1)) { v = true; break; }
            cur = a >> i & 1 ? cof1(cur, i, n) : cof0(cur, i, n);
        }
        if (v) r |= TT(1) << a;
    }
    return r;
}
size_t orvar(bdd_collection& c, size_t nr, unsigned P, unsigned N, const Pos& pos, int form) {
    mc::steps(); std::set<size_t> p, q; for (size_t i = 0; i < pos.size(); ++i) { if (P >> i & 1) p.insert(pos[i]); if (N >> i & 1) q.insert(pos[i]); }
    if (form % 4 == 1) { p.insert(pos.back() + 3); q.insert(pos.back() + 4); } // variables the BDD does not have
    if (form % 3 == 1) { std::unordered_set<size_t> a(p.begin(), p.end()), b(q.begin(), q.end()); return c.bdd_or_var(nr, a, b); }
    if (form % 3 == 2) { std::unordered_set<size_t> a, b; a.reserve(100); for (size_t x : p) a.insert(x); for (auto i = q.rbegin(); i != q.rend(); ++i) b.insert(*i); return c.bdd_or_var(nr, a, b); }
    return c.bdd_or_var(nr, p, q);
}
TT check(bdd_collection& c, size_t nr, TT t, unsigned P, unsigned N, const Pos& pos, int form) {
    const int n = int(pos.size()); const size_t k = c.nr_bdds(); const auto before = all_stored(c);
    MC_NOTE("relax #%zu = %s by positive 0x%x, negative 0x%x", nr, str(t, n).c_str(), P, N);
    size_t r = orvar(c, nr, P, N, pos, form); const TT w = relax(t, n, P, N);
    MC_CHECK(r == k && c.nr_bdds() == k + 1, "relaxing gives index %zu of %zu, %zu BDDs were stored", r, c.nr_bdds(), k);
    check_stored(c, r, w, pos, "relaxed BDD");
    for (size_t i = 0; i < k; ++i) MC_CHECK(stored(c, i) == before[i], "relaxing changed the stored BDD %zu", i);
    return w;
}
// a function, produced in one of four ways, relaxed by every pair of sets
void one(TT t, const Pos& pos, int way, bool all) {
    const int n = int(pos.size());
    for (unsigned P = 0; P < (1u << n); ++P) for (unsigned N = 0; N < (1u << n); ++N) {
        if (!all && scatter(t * 256 + P * 16 + N) % 8) continue;
        bdd_collection c; size_t nr; 
        switch (way % 4) {
            case 0: nr = put(c, t, pos); break;
            case 1: { size_t a = put(c, t, pos); nr = c.bdd_and(a, a); break; }                                                   // other order of the sinks
            case 2: { size_t a = put(c, t | (scatter(t) & ones(n)), pos), b = put(c, t | (~scatter(t) & ones(n)), pos); nr = c.bdd_and(a, b); break; }
            default: { put(c, 0xe8, {0, 1, 2}); size_t a = put(c, t, pos); nr = orvar(c, a, 0, 0, pos, 0); break; } // relaxed by nothing
        }
        if (way % 4 == 3) check_stored(c, nr, t, pos, "relaxed by nothing");
        TT w = check(c, nr, t, P, N, pos, int(P + N + way));
        // the result can be used further
        if ((P ^ N) % 3 == 0) { size_t y = c.bdd_and(nr, c.nr_bdds() - 1); check_stored(c, y, t & w, pos, "conjunction of a BDD with its relaxation"); }
        if ((P + N) % 3 == 1) { size_t z = put(c, t ^ 1, pos); check_stored(c, z, (t ^ 1) & ones(n), pos, "BDD added after relaxing"); }
        mc::nontrivial(w != t);
    }
    mc::state(mc::mix(mc::mix(t, n), way));
}
// sequences of relaxations and conjunctions on earlier results
void chain(long u, int depth) {
    static const Pos pos = {0, 2, 3}; std::vector<TT> t{0x96, 0x80, 0xca}; bdd_collection c; for (TT x : t) put(c, x, pos);
    for (int d = 0; d < depth; ++d) {
        int a = d == 0 ? int(u) : mc::choose(24, "step"); const int n = int(t.size()); size_t i = a % 3 == 0 ? n - 1 : a % 3 == 1 ? n / 2 : 0; int k = a / 3;
        if (k < 6) { static const unsigned pq[6][2] = {{1, 0}, {4, 2}, {0, 4}, {2, 2}, {0, 1}, {6, 1}}; t.push_back(check(c, i, t[i], pq[k][0], pq[k][1], pos, a + d)); }
        else if (k == 6) { size_t j = n - 1; size_t r = c.bdd_and(i, j); t.push_back(t[i] & t[j]); MC_NOTE("conjunction of #%zu and #%zu", i, j); check_stored(c, r, t.back(), pos, "conjunction"); }
        else { std::vector<size_t> x{i}; c.remove(x.begin(), x.end()); t.erase(t.begin() + i); MC_NOTE("remove #%zu", i); if (t.empty()) { put(c, 0xe8, pos); t.push_back(0xe8); } }
    }
    for (size_t i = 0; i < t.size(); ++i) check_stored(c, i, t[i], pos, "stored BDD");
    uint64_t h = 3; for (TT x : t) h = mc::mix(h, x); mc::state(h);
}
// many variables: all paths test the variable, so the result is the disjunction with the literals
void large(int n, int kind, int form) {
    bdd_mgr m; std::vector<node_ref> x; for (int i = 0; i < n; ++i) x.push_back(m.projection(i));
    node_ref f = kind == 0 ? m.cardinality(x.begin(), x.end(), n / 2) : kind == 1 ? m.at_most(x.begin(), x.end(), n / 2) : m.simplex(x.begin(), x.end());
    if (kind == 3) { f = m.botsink(); for (int i = 0; i < n; ++i) f = m.xor_rec(f, x[i]); }
    bdd_collection c; size_t a = c.add_bdd(f), b = c.bdd_and(a, a);
    for (int v = 0; v < n; ++v) for (int sgn = 0; sgn < 2; ++sgn) {
        std::set<size_t> p, q; (sgn ? q : p).insert(v); size_t r = c.bdd_or_var(form ? a : b, p, q); mc::steps();
        std::vector<char> lab(n); size_t bad = 0;
        for (size_t as = 0; as < (size_t(1) << n); ++as) {
            for (int i = 0; i < n; ++i) lab[i] = as >> i & 1;
            // walk the original
            node_ref y = f; bool w = false; for (;;) { if (y.is_terminal()) { w = y.is_topsink(); break; } size_t k = y.variable(); if (k == size_t(v) && (lab[k] != 0) == !sgn) { w = true; break; } y = lab[k] ? y.high() : y.low(); }
            if (c.evaluate(r, lab.begin(), lab.end()) != w) ++bad;
        }
        MC_CHECK(bad == 0, "relaxing a function of %d variables by variable %d is wrong for %zu assignments", n, v, bad);
        size_t dec = check_stored_structure(c, r, "relaxed BDD"); node_ref e = c.export_bdd(m, r); MC_CHECK(e.nr_nodes() == dec, "relaxed BDD is not reduced: %zu nodes instead of %zu", dec, e.nr_nodes());
        if (kind == 3) MC_CHECK(e == m.or_rec(f, sgn ? m.negate(x[v]) : x[v]), "relaxation of parity is not the disjunction with the literal");
    }
    MC_CHECK(c.export_bdd(m, a) == f && c.export_bdd(m, b) == f, "original changed"); mc::state(mc::mix(n, kind * 2 + form));
}
void scale(size_t n, int kind, int sets) {
    ref::Store s; const auto V = ref::vars(n, (kind + sets) % 4); const ref::Id f = ref::shape(s, kind, V); bdd_collection c; const size_t lead = ref::put(c, s, ref::shape(s, 1, V)), nr = ref::put(c, s, f); const Stored s0 = stored(c, lead), s1 = stored(c, nr); mc::steps(2); std::set<size_t> P, N;
    for (size_t i = 0; i < n; ++i) { if (sets == 0 ? i % 2 == 0 : sets == 1 ? i == n / 2 : sets == 2 ? i + 1 == n : sets == 3 ? true : sets == 4 ? i == 0 : i % 5 == 3) P.insert(V[i]); if (sets == 0 ? i % 2 == 1 : sets == 1 ? i == n / 2 + 1 : sets == 3 ? false : sets == 4 ? i + 1 == n : i % 7 == 2) N.insert(V[i]); }
    const ref::Id w = s.relax(f, P, N); const size_t r = c.bdd_or_var(nr, P, N); MC_CHECK(r == 2 && c.nr_bdds() == 3, "relaxed BDD has index %zu", r); ref::stored_is(s, c, r, w, "relaxed BDD", n); ref::evaluates(s, c, r, w, V, V.back() + 1, "relaxed BDD");
    std::unordered_set<size_t> p(P.begin(), P.end()), q(N.begin(), N.end()); const size_t r2 = c.bdd_or_var(r, q, p); ref::stored_is(s, c, r2, s.relax(w, N, P), "BDD relaxed twice", n); MC_CHECK(stored(c, lead) == s0 && stored(c, nr) == s1, "a stored BDD changed"); ref::stored_is(s, c, r, w, "relaxed BDD", n);
    mc::nontrivial(w > 1); mc::state(mc::mix(n, kind * 16 + sets));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(); std::vector<mc::Scenario> s;
    s.push_back({"all-3var", "all 256 functions of 3 variables, produced in four ways (imported, conjunction with itself, conjunction of two, relaxed before), x all 64 pairs of sets of positive and negative variables, three kinds of sets, further operations on the result", 1024,
        [](long u) { one(u / 4, {0, 2, 3}, int(u % 4), true); }});
    if (A) s.push_back({"4var", T ? "all 65536 functions of 4 variables x all 256 pairs of sets" : "4096 functions of 4 variables x 32 pairs of sets", T ? 65536 : 4096, [T](long u) { TT t = T ? TT(u) : scatter(u) & 0xffff; one(t, {0, 1, 3, 4}, int(t % 4), T); }, 60});
    const int D = A ? (T ? 5 : 4) : 3; s.push_back({"chains", "all sequences of " + std::to_string(D) + " steps out of 24 (relaxations, conjunctions and removals on earlier results)", 24, [D](long u) { chain(u, D); }});
    const int N = !A ? 6 : T ? 12 : 9; s.push_back({"large", "four kinds of functions of 1.." + std::to_string(N) + " variables, relaxed by each literal", N * 8, [](long u) { large(1 + int(u / 8), int(u % 4), int(u / 4 % 2)); }, 60});
    { const size_t M = A ? (T ? 4097 : 1025) : 129; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 6, [](long u) { ref::Far far(ref::FAR[u % 3]); scale(6, int(u / 3 % 12), int(u / 36)); }, 120});
      s.push_back({"scale", "12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ", six choices of literal sets, against an independent diagram store", long(z.size()) * 72, [z](long u) { scale(z[u / 72], int(u / 6 % 12), int(u % 6)); }, 120}); }
    { const int K = mc::memory_controlled() ? (T ? 15 : 14) : 6; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + " (about 3 * 2^k nodes), six choices of literal sets", long(K - 3) * 2 * 6, [](long u) { const size_t n = 2 * (4 + size_t(u / 12)); const int kind = ref::WIDE + int(u / 6 % 2), r = int(u % 6); scale(n, kind, r); }, 240}); }
    return s;
}
