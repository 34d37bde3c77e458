// An independent reference for large diagrams: a hash-consed store of reduced ordered decision diagrams over
// unbounded variable numbers, families of functions given by automata reading the variables in order, and
// comparison with BDDs of the library (read through its public interface only).
#pragma once
#include "kit.h"
#include "coll.h"
#include <map>

namespace ref {
using kit::bdd_mgr; using kit::bdd_collection; using kit::node_ref;
using Id = uint32_t; // 0 false, 1 true
const size_t NOVAR = ~size_t(0);

struct Store {
    struct N { size_t var; Id lo, hi; bool operator==(const N& o) const { return var == o.var && lo == o.lo && hi == o.hi; } };
    struct H { size_t operator()(const N& x) const { return mc::mix(mc::mix(x.var, x.lo), x.hi); } };
    struct PH { size_t operator()(const std::array<Id, 3>& x) const { return mc::mix(mc::mix(x[0], x[1]), x[2]); } };
    std::vector<N> n{{NOVAR, 0, 0}, {NOVAR, 1, 1}};
    std::unordered_map<N, Id, H> uniq;

    Id mk(size_t v, Id lo, Id hi) {
        if (lo == hi) return lo;
        auto r = uniq.insert({N{v, lo, hi}, Id(n.size())}); if (r.second) n.push_back({v, lo, hi});
        return r.first->second;
    }
    Id var(size_t v) { return mk(v, 0, 1); }
    // op: truth table of two bits, bit f+2g
    std::unordered_map<std::array<Id, 3>, Id, PH> memo;
    Id apply(int op, Id f, Id g) { memo.clear(); Id r = app(op, f, g); memo.clear(); return r; }
    Id app(int op, Id f, Id g) {
        if (f < 2 && g < 2) return op >> (f + 2 * g) & 1;
        auto it = memo.find({f, g, 0}); if (it != memo.end()) return it->second;
        const size_t v = std::min(n[f].var, n[g].var); const N a = n[f], b = n[g];
        Id lo = app(op, a.var == v ? a.lo : f, b.var == v ? b.lo : g), hi = app(op, a.var == v ? a.hi : f, b.var == v ? b.hi : g);
        return memo[{f, g, 0}] = mk(v, lo, hi);
    }
    Id land(Id f, Id g) { return apply(8, f, g); }
    Id lor(Id f, Id g) { return apply(14, f, g); }
    Id lxor(Id f, Id g) { return apply(6, f, g); }
    Id neg(Id f) { return apply(6, f, 1); }
    Id ite(Id f, Id g, Id h) { return lor(land(f, g), land(neg(f), h)); }
    std::vector<Id> nodes(Id f) const { // decision nodes, children before parents
        std::vector<Id> r, todo{f}; std::vector<char> seen(n.size(), 0);
        while (!todo.empty()) { Id x = todo.back(); todo.pop_back(); if (x < 2 || seen[x]) continue; seen[x] = 1; r.push_back(x); todo.push_back(n[x].lo); todo.push_back(n[x].hi); }
        std::sort(r.begin(), r.end()); return r;
    }
    size_t size(Id f) const { return nodes(f).size(); }
    size_t size(const std::vector<Id>& fs) const { std::set<Id> s; for (Id f : fs) for (Id x : nodes(f)) s.insert(x); return s.size(); }
    std::map<size_t, size_t> levels(Id f) const { std::map<size_t, size_t> m; for (Id x : nodes(f)) ++m[n[x].var]; return m; }
    std::vector<size_t> vars(Id f) const { std::vector<size_t> v; for (auto& p : levels(f)) v.push_back(p.first); return v; }
    template<class L> bool eval(Id f, const L& label) const { while (f > 1) f = label(n[f].var) ? n[f].hi : n[f].lo; return f; }
    template<class M> Id map(Id f, const M& to) { // increasing renaming
        std::unordered_map<Id, Id> m{{0, 0}, {1, 1}}; for (Id x : nodes(f)) { Id lo = m[n[x].lo], hi = m[n[x].hi]; m[x] = mk(to(n[x].var), lo, hi); } return m[f];
    }
    template<class S> Id relax(Id f, const S& pos, const S& neg) {
        std::unordered_map<Id, Id> m{{0, 0}, {1, 1}}; for (Id x : nodes(f)) { const N a = n[x]; m[x] = mk(a.var, neg.count(a.var) ? 1 : m[a.lo], pos.count(a.var) ? 1 : m[a.hi]); } return m[f];
    }
    // function accepted by an automaton reading the variables V in order; next returns a state >= 0, or -1 (reject), -2 (accept)
    template<class NEXT, class ACC> Id automaton(const std::vector<size_t>& V, long start, NEXT next, ACC acc) {
        std::vector<std::vector<long>> st(V.size() + 1); st[0] = {start};
        for (size_t l = 0; l < V.size(); ++l) { std::set<long> s; for (long q : st[l]) for (int b = 0; b < 2; ++b) { long t = next(l, q, b); if (t >= 0) s.insert(t); } st[l + 1].assign(s.begin(), s.end()); }
        std::map<long, Id> cur; for (long q : st[V.size()]) cur[q] = acc(q);
        for (size_t l = V.size(); l-- > 0;) { std::map<long, Id> up; for (long q : st[l]) { Id c[2]; for (int b = 0; b < 2; ++b) { long t = next(l, q, b); c[b] = t == -1 ? 0 : t == -2 ? 1 : cur[t]; } up[q] = mk(V[l], c[0], c[1]); } cur.swap(up); }
        return cur[start];
    }
};

constexpr int SHAPES = 12;
inline Id equality(Store& s, const std::vector<size_t>& V);
inline Id inner_product(Store& s, const std::vector<size_t>& V);
constexpr int WIDE = 12; // kinds WIDE and WIDE + 1 have 2^(n/2) nodes on one level
inline const char* shape_name(int k) { static const char* s[] = {"conjunction", "parity", "exactly-one", "count-mod-3", "at-least-4", "no-two-in-a-row", "two-in-a-row", "at-most-5", "one-assignment", "not-all", "first-differs-from-last", "divisible-by-7", "equal-halves", "inner-product-of-halves"}; return s[k]; }
inline Id shape(Store& s, int kind, const std::vector<size_t>& V) {
    const long n = long(V.size()); auto yes = [](long) { return 1; };
    switch (kind) {
        case 0: return s.automaton(V, 0, [](size_t, long, int b) -> long { return b ? 0 : -1; }, yes);
        case 1: return s.automaton(V, 0, [](size_t, long q, int b) -> long { return q ^ b; }, [](long q) { return int(q); });
        case 2: return s.automaton(V, 0, [](size_t, long q, int b) -> long { return q + b > 1 ? -1 : q + b; }, [](long q) { return q == 1; });
        case 3: return s.automaton(V, 0, [](size_t, long q, int b) -> long { return (q + b) % 3; }, [](long q) { return q == 0; });
        case 4: return s.automaton(V, 0, [](size_t, long q, int b) -> long { return q + b >= 4 ? -2 : q + b; }, [](long) { return 0; });
        case 5: return s.automaton(V, 0, [](size_t, long q, int b) -> long { return q && b ? -1 : b; }, yes);
        case 6: return s.automaton(V, 0, [](size_t, long q, int b) -> long { return q && b ? -2 : b; }, [](long) { return 0; });
        case 7: return s.automaton(V, 0, [](size_t, long q, int b) -> long { return q + b > 5 ? -1 : q + b; }, yes);
        case 8: return s.automaton(V, 0, [](size_t l, long, int b) -> long { return (l % 3 == 1) == bool(b) ? 0 : -1; }, yes);
        case 9: return s.automaton(V, 0, [](size_t, long, int b) -> long { return b ? 0 : -2; }, [](long) { return 0; });
        case 10: return s.automaton(V, 2, [n](size_t l, long q, int b) -> long { if (l == 0) return b; return l + 1 == size_t(n) ? (q != b ? -2 : -1) : q; }, [](long) { return 0; });
        case 12: return equality(s, V);
        case 13: return inner_product(s, V);
        default: return s.automaton(V, 0, [](size_t, long q, int b) -> long { return (2 * q + b) % 7; }, [](long q) { return q == 0; });
    }
}
// first k variables equal to the next k variables: 2^k nodes in the middle
inline Id equality(Store& s, const std::vector<size_t>& V) {
    const size_t k = V.size() / 2;
    return s.automaton(V, 1, [k](size_t l, long q, int b) -> long { if (l < k) return 2 * q + b; const size_t done = l - k; const long mask = 1l << (k - 1 - done); if (bool(q & mask) != bool(b)) return -1; return q & (mask - 1) ? (q & (mask - 1)) | (1l << 40) : 1l << 40; }, [](long) { return 1; });
}
// parity of the positions at which the first k variables and the next k variables are both true
inline Id inner_product(Store& s, const std::vector<size_t>& V) {
    const size_t k = V.size() / 2;
    return s.automaton(V, 0, [k](size_t l, long q, int b) -> long { if (l < k) return 2 * q + b; const long mask = 1l << (k - 1 - (l - k)), par = 1l << 41; if ((q & mask) && b) q ^= par; return (q & (mask - 1)) | (q & par) | (1l << 40); }, [](long q) { return bool(q & (1l << 41)); });
}

// While a Far exists, functions of few variables are placed around index `at` instead: across it, and at equal remainders of it.
inline size_t& far_at() { static size_t f = 0; return f; }
struct Far { explicit Far(size_t at) { far_at() = at; } ~Far() { far_at() = 0; } };
static const size_t FAR[3] = {256, 32768, 65536};
// variables: 0 consecutive from 0; 1 from 7 in steps of 1; 2 in steps of 3; 3 irregular steps 1, 2, 4
inline std::vector<size_t> vars(size_t n, int place = 0) {
    if (const size_t F = n <= 16 ? far_at() : 0) {
        std::vector<size_t> v; for (size_t i = 0; i < n; ++i) v.push_back(place == 0 ? F - n / 2 + i : place == 1 ? (i < n / 2 ? i : F + i - n / 2) : place == 2 ? (i == 0 ? 1 : F - 1 + i) : i < n / 2 ? i + 3 : i + 1 < n ? F + i - n / 2 + 1 : F + F / 4 + 3);
        return v;
    }
    std::vector<size_t> v; size_t x = place == 0 ? 0 : place == 1 ? 7 : 1;
    for (size_t i = 0; i < n; ++i) { v.push_back(x); x += place < 2 ? 1 : place == 2 ? 3 : size_t(1) << (i % 3); }
    return v;
}
inline std::vector<size_t> sizes(size_t max, size_t min = 3) { std::vector<size_t> r; for (size_t p = 4; p - 1 <= max; p *= 2) for (size_t x : {p - 1, p, p + 1}) if (x >= min && x <= max) r.push_back(x); return r; }

inline node_ref make(bdd_mgr& m, const Store& s, Id f) { // canonical construction through the unique tables
    mc::beat(); if (f < 2) return f ? m.topsink() : m.botsink();
    std::unordered_map<Id, node_ref> r; auto get = [&](Id x) { return x == 0 ? m.botsink() : x == 1 ? m.topsink() : r.find(x)->second; };
    auto ns = s.nodes(f); size_t last = 0; for (Id x : ns) last = std::max(last, s.n[x].var); kit::add_vars(m, last + 1);
    for (Id x : ns) r.insert({x, m.unique_find(s.n[x].var, get(s.n[x].lo), get(s.n[x].hi))});
    return r.find(f)->second;
}
// the function of a BDD; checks that it is ordered and reduced
inline Id read(Store& s, node_ref f, const char* who) {
    mc::beat(); std::unordered_map<BDD::node*, Id> id; std::vector<node_ref> todo{f}; std::unordered_map<Id, BDD::node*> back;
    auto known = [&](node_ref& x, Id& r) { if (x.is_botsink()) { r = 0; return true; } if (x.is_topsink()) { r = 1; return true; } auto it = id.find(x.address()); if (it == id.end()) return false; r = it->second; return true; };
    Id r; size_t steps = 0;
    while (!todo.empty()) {
        node_ref x(todo.back()); if (known(x, r)) { todo.pop_back(); continue; }
        MC_CHECK(++steps < 100000000, "%s: endless diagram", who);
        node_ref l = x.low(), h = x.high(); Id a, b; const bool ka = known(l, a), kb = known(h, b);
        MC_CHECK(l.is_terminal() || l.variable() > x.variable(), "%s: low child of a node of variable %zu has variable %zu (order violated)", who, x.variable(), l.variable());
        MC_CHECK(h.is_terminal() || h.variable() > x.variable(), "%s: high child of a node of variable %zu has variable %zu (order violated)", who, x.variable(), h.variable());
        if (ka && kb) {
            MC_CHECK(!(l == h), "%s: node of variable %zu has equal children", who, x.variable());
            Id q = s.mk(x.variable(), a, b); MC_CHECK(back.insert({q, x.address()}).second, "%s: two nodes for the same function below variable %zu", who, x.variable());
            id[x.address()] = q; todo.pop_back();
        } else { if (!ka) todo.push_back(l); if (!kb) todo.push_back(h); }
    }
    known(f, r); return r;
}
inline Id read(Store& s, const bdd_collection& c, size_t nr, const char* who) { // structure is checked by kit::check_stored_structure
    mc::beat(); const kit::Stored d = kit::stored(c, nr); std::vector<long> id(d.nodes.size(), -1); std::vector<size_t> todo{0};
    while (!todo.empty()) {
        const size_t x = todo.back(); if (id[x] >= 0) { todo.pop_back(); continue; } auto& n = d.nodes[x];
        if (n.sink) { id[x] = n.sink == 't'; todo.pop_back(); continue; }
        MC_CHECK(n.lo < d.nodes.size() && n.hi < d.nodes.size(), "%s: node %zu points outside the BDD", who, x);
        MC_CHECK(todo.size() <= 2 * d.nodes.size() + 2, "%s: cyclic", who);
        if (id[n.lo] >= 0 && id[n.hi] >= 0) { id[x] = s.mk(n.var, Id(id[n.lo]), Id(id[n.hi])); todo.pop_back(); } else { if (id[n.lo] < 0) todo.push_back(n.lo); if (id[n.hi] < 0) todo.push_back(n.hi); }
    }
    return Id(id[0]);
}
inline void is(Store& s, node_ref f, Id want, const char* who, size_t n) {
    Id got = read(s, f, who); MC_CHECK(got == want, "%s (size %zu): another function (diagram of %zu nodes, expected %zu)", who, n, s.size(got), s.size(want));
}
// assignments that tell: all false, all true, every third, and each with one position changed (positions around powers of two, first, last)
template<class F> void assignments(const std::vector<size_t>& V, size_t nvars, F f) {
    std::vector<char> lab(nvars, 0); std::vector<size_t> at; const size_t n = V.size();
    for (size_t p = 1; p <= 2 * n; p *= 2) for (size_t x : {p - 1, p}) if (x < n) at.push_back(x);
    at.push_back(n - 1); at.push_back(n / 2);
    for (int base = 0; base < 4; ++base) {
        std::fill(lab.begin(), lab.end(), 0); for (size_t i = 0; i < n; ++i) lab[V[i]] = base == 0 ? 0 : base == 1 ? 1 : base == 2 ? i % 3 == 1 : i == n / 2;
        f(lab); for (size_t x : at) { lab[V[x]] ^= 1; f(lab); lab[V[x]] ^= 1; }
    }
}
inline void evaluates(const Store& s, node_ref f, Id want, const std::vector<size_t>& V, size_t nvars, const char* who) {
    mc::beat(); assignments(V, nvars, [&](const std::vector<char>& lab) { const bool w = s.eval(want, [&](size_t v) { return lab[v]; }); MC_CHECK(f.evaluate(lab.begin(), lab.end()) == w, "%s: evaluates to %d, expected %d", who, !w, w); });
}
inline void evaluates(const Store& s, const bdd_collection& c, size_t nr, Id want, const std::vector<size_t>& V, size_t nvars, const char* who) {
    mc::beat(); assignments(V, nvars, [&](const std::vector<char>& lab) { const bool w = s.eval(want, [&](size_t v) { return lab[v]; }); MC_CHECK(c.evaluate(nr, lab.begin(), lab.end()) == w, "%s: evaluates to %d, expected %d", who, !w, w); });
}
// enters a function into a collection through a manager of its own
inline size_t put(bdd_collection& c, const Store& s, Id f) { bdd_mgr m; kit::add_vars(m, 1); return c.add_bdd(make(m, s, f)); }
inline void stored_is(Store& s, bdd_collection& c, size_t nr, Id want, const char* who, size_t n) {
    const size_t dec = kit::check_stored_structure(c, nr, who); Id got = read(s, c, nr, who);
    MC_CHECK(got == want && dec == s.size(want), "%s (size %zu): %s, %zu nodes, expected %zu", who, n, got == want ? "right function" : "another function", dec, s.size(want));
    MC_CHECK(c.nr_bdd_nodes(nr) == dec + 2, "%s (size %zu): node count %zu", who, n, c.nr_bdd_nodes(nr));
}
// the pairs of shapes combined at a size: all for moderate sizes, the narrow ones for large
inline bool pair_at(size_t n, int a, int b) { static const bool narrow[SHAPES] = {1, 1, 1, 0, 0, 1, 0, 0, 1, 1, 1, 0}; return n <= 300 || (n <= 1100 && (narrow[a] || narrow[b])) || (narrow[a] && narrow[b]); }
} // namespace ref
