// Reference model and helpers shared by the harnesses. The reference for a Boolean function of n <= 6
// variables is its truth table in a 64-bit word: bit a is the value under the assignment whose i-th
// variable is bit i of a. Only the library's public interface is used.
#pragma once
#include "mc.h"
#include "bdd_mgr.h"
#include "bdd_collection.h"
#include <algorithm>
#include <array>
#include <deque>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#if defined LBDD_VERIF_SMALL_POOLS && LBDD_VERIF_SMALL_POOLS < 16 // long chains of blocks are released recursively
#define TINY_POOLS true
#else
#define TINY_POOLS false
#endif

namespace kit {

using BDD::bdd_mgr; using BDD::bdd_collection; using BDD::node_ref;
using TT = uint64_t;

inline TT ones(int n) { return n >= 6 ? ~TT(0) : (TT(1) << (1u << n)) - 1; }
inline TT tvar(int i, int n) {
    static const TT m[6] = {0xaaaaaaaaaaaaaaaaull, 0xccccccccccccccccull, 0xf0f0f0f0f0f0f0f0ull, 0xff00ff00ff00ff00ull, 0xffff0000ffff0000ull, 0xffffffff00000000ull};
    return m[i] & ones(n);
}
inline TT cof0(TT t, int i, int n) { TT v = tvar(i, n); TT x = t & ~v & ones(n); return x | (x << (1u << i)); }
inline TT cof1(TT t, int i, int n) { TT v = tvar(i, n); TT x = t & v; return x | (x >> (1u << i)); }
inline bool depends(TT t, int i, int n) { return cof0(t, i, n) != cof1(t, i, n); }
inline int popcount(TT t) { return __builtin_popcountll(t); }
inline std::vector<int> support(TT t, int n) { std::vector<int> s; for (int i = 0; i < n; ++i) if (depends(t, i, n)) s.push_back(i); return s; }

// number of non-sink nodes of the reduced ordered BDD: distinct subfunctions by their top variable
inline void subfunctions(TT t, int n, std::set<TT>& out) {
    for (int i = 0; i < n; ++i) if (depends(t, i, n)) {
        if (!out.insert(t).second) return;
        subfunctions(cof0(t, i, n), n, out); subfunctions(cof1(t, i, n), n, out);
        return;
    }
}
inline size_t bdd_size(TT t, int n) { std::set<TT> s; subfunctions(t, n, s); return s.size(); }
inline size_t shared_size(const std::vector<TT>& ts, int n) { std::set<TT> s; for (TT t : ts) subfunctions(t, n, s); return s.size(); }

// --- placements: model variable i is manager variable pos[i] (strictly increasing) ---
using Pos = std::vector<size_t>;
inline Pos ident(int n) { Pos p; for (int i = 0; i < n; ++i) p.push_back(i); return p; }
inline std::vector<Pos> placements(int n, int total) { // all increasing placements
    std::vector<Pos> r; 
    for (int m = 0; m < (1 << total); ++m) if (__builtin_popcount(m) == n) { Pos p; for (int i = 0; i < total; ++i) if (m >> i & 1) p.push_back(i); r.push_back(p); }
    return r;
}

inline TT eval_tt(node_ref& f, const Pos& pos, size_t nvars) {
    mc::beat();
    TT r = 0; const int n = int(pos.size());
    char l[64] = {0}; std::vector<char> big; char* lab = l;
    if (nvars > 64) { big.assign(nvars, 0); lab = big.data(); }
    for (int a = 0; a < (1 << n); ++a) {
        for (int i = 0; i < n; ++i) lab[pos[i]] = a >> i & 1;
        if (f.evaluate(lab, lab + nvars)) r |= TT(1) << a;
    }
    return r;
}
inline TT eval_tt(const bdd_collection& c, size_t nr, const Pos& pos, size_t nvars) {
    mc::beat();
    TT r = 0; const int n = int(pos.size());
    std::vector<char> lab(nvars + 1, 0);
    for (int a = 0; a < (1 << n); ++a) {
        for (int i = 0; i < n; ++i) lab[pos[i]] = a >> i & 1;
        if (c.evaluate(nr, lab.begin(), lab.end())) r |= TT(1) << a;
    }
    return r;
}

// Evaluation with assignments given by other iterators and other values that count as true, longer than needed or just long enough.
template<class EVAL> inline void eval_kinds(EVAL eval, TT t, const Pos& pos, size_t need, const char* who) {
    const int n = int(pos.size()); static const int yes[6] = {1, 2, -1, 256, 1 << 30, int(0x80000000u)};
    for (int a = 0; a < (1 << n); ++a) {
        mc::beat(); const bool want = t >> a & 1; const size_t nv = std::max(need, size_t(1));
        const auto put = [&](auto& l, auto y) { for (int i = 0; i < n; ++i) if (pos[i] < l.size()) l[pos[i]] = a >> i & 1 ? y : decltype(y)(0); };
        for (int y : yes) { std::vector<int> l(nv, 0); put(l, y); MC_CHECK(eval(l.begin(), l.end()) == want, "%s: evaluation with labels 0 and %d gives %d", who, y, !want); }
        { std::vector<bool> l(nv, false); put(l, true); MC_CHECK(eval(l.begin(), l.end()) == want, "%s: evaluation with vector<bool> gives %d", who, !want); }
        { std::vector<size_t> l(nv + 3, 7); put(l, size_t(1)); MC_CHECK(eval(l.begin(), l.end()) == want && eval(l.cbegin(), l.cend()) == want, "%s: evaluation with more labels than needed gives %d", who, !want); }
        { std::deque<char> l(nv, 0); put(l, char(1)); MC_CHECK(eval(l.begin(), l.end()) == want, "%s: evaluation with a deque gives %d", who, !want); }
        { bool b[64] = {false}; for (int i = 0; i < n; ++i) if (pos[i] < 64) b[pos[i]] = a >> i & 1; const bool* q = b; if (nv <= 64) MC_CHECK(eval(q, q + nv) == want, "%s: evaluation with an array gives %d", who, !want); }
    }
}

// Canonical construction, bottom-up through the unique tables.
inline node_ref build(bdd_mgr& m, TT t, const Pos& pos, int top = 0) {
    mc::beat(); const int n = int(pos.size());
    t &= ones(n);
    if (t == 0) return m.botsink();
    if (t == ones(n)) return m.topsink();
    int i = top; while (!depends(t, i, n)) ++i;
    node_ref lo = build(m, cof0(t, i, n), pos, i + 1), hi = build(m, cof1(t, i, n), pos, i + 1);
    return m.unique_find(pos[i], lo, hi);
}
// The same function through connectives: disjunction of minterms / conjunction of clauses / if-then-else.
inline node_ref build_minterms(bdd_mgr& m, TT t, const Pos& pos) {
    const int n = int(pos.size()); node_ref r = m.botsink();
    for (int a = 0; a < (1 << n); ++a) if (t >> a & 1) {
        node_ref c = m.topsink();
        for (int i = 0; i < n; ++i) c = m.and_rec(c, a >> i & 1 ? m.projection(pos[i]) : m.negate(m.projection(pos[i])));
        r = m.or_rec(r, c);
    }
    return r;
}
inline node_ref build_clauses(bdd_mgr& m, TT t, const Pos& pos) {
    const int n = int(pos.size()); node_ref r = m.topsink();
    for (int a = 0; a < (1 << n); ++a) if (!(t >> a & 1)) {
        node_ref c = m.botsink();
        for (int i = n - 1; i >= 0; --i) c = m.or_rec(c, a >> i & 1 ? m.negate(m.projection(pos[i])) : m.projection(pos[i]));
        r = m.and_rec(c, r);
    }
    return r;
}
inline node_ref build_ite(bdd_mgr& m, TT t, const Pos& pos, int top = 0) { // splits on the variables from the last to the first
    const int n = int(pos.size()); t &= ones(n);
    if (top == n) return t & 1 ? m.topsink() : m.botsink();
    const int i = n - 1 - top;
    return m.ite_rec(m.projection(pos[i]), build_ite(m, cof1(t, i, n), pos, top + 1), build_ite(m, cof0(t, i, n), pos, top + 1));
}
inline node_ref build_anf(bdd_mgr& m, TT t, const Pos& pos) { // exclusive-or of monomials
    const int n = int(pos.size()); const int N = 1 << n;
    std::vector<char> c(N); for (int a = 0; a < N; ++a) c[a] = t >> a & 1;
    for (int i = 0; i < n; ++i) for (int a = 0; a < N; ++a) if (a >> i & 1) c[a] ^= c[a ^ (1 << i)];
    node_ref r = m.botsink();
    for (int a = 0; a < N; ++a) if (c[a]) {
        node_ref p = m.topsink();
        for (int i = 0; i < n; ++i) if (a >> i & 1) p = m.and_rec(p, m.projection(pos[i]));
        r = m.xor_rec(r, p);
    }
    return r;
}

// Checks that the diagram under f is ordered and reduced; returns the number of its non-sink nodes.
inline size_t check_structure(node_ref f, const char* who) {
    std::vector<node_ref> todo{f}; std::set<BDD::node*> seen; std::set<std::array<size_t, 3>> triples;
    while (!todo.empty()) {
        node_ref x = todo.back(); todo.pop_back();
        if (x.is_terminal() || !seen.insert(x.address()).second) continue;
        node_ref l = x.low(), h = x.high();
        MC_CHECK(!(l == h), "%s: node of variable %zu has equal children", who, x.variable());
        MC_CHECK(l.is_terminal() || l.variable() > x.variable(), "%s: low child of a node of variable %zu has variable %zu (order violated)", who, x.variable(), l.variable());
        MC_CHECK(h.is_terminal() || h.variable() > x.variable(), "%s: high child of a node of variable %zu has variable %zu (order violated)", who, x.variable(), h.variable());
        MC_CHECK(triples.insert({x.variable(), size_t(l.address()), size_t(h.address())}).second, "%s: two nodes with the same variable %zu and children", who, x.variable());
        todo.push_back(l); todo.push_back(h);
    }
    return seen.size();
}

inline std::string str(TT t, int n) { char b[40]; snprintf(b, sizeof b, "0x%0*llx/%d", std::max(1, (1 << n) / 4), (unsigned long long)(t & ones(n)), n); return b; }

inline void add_vars(bdd_mgr& m, size_t n) { while (m.nr_variables() < n) m.add_variable(); }

// Deterministic scattered 64-bit values for covering designs (not sampling: fixed constants).
inline uint64_t scatter(uint64_t z) { z = (z + 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }

// Hash-key regimes a history is run under: 0 spread out, 1 all equal, 2 consecutive, 3 a few values around the end of a table
constexpr int NKEYS = 4;
inline void key_regime(int k) {
    switch (k) {
        case 0: mc::keys_pseudo(); break;
        case 1: mc::keys_constant(63); break;
        case 2: mc::keys_sequence(60, 1); break;
        default: { static uint32_t c; c = 0; mc::keys_callback([] { static const uint32_t a[5] = {63, 62, 0, 63, 1}; return a[c++ % 5]; }); }
    }
}

// permutations of 0..k-1
inline std::vector<std::vector<int>> permutations(int k) {
    std::vector<int> p; for (int i = 0; i < k; ++i) p.push_back(i);
    std::vector<std::vector<int>> r; do r.push_back(p); while (std::next_permutation(p.begin(), p.end()));
    return r;
}

} // namespace kit
