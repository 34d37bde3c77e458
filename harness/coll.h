// Reference checks for BDDs stored in a collection; only its public interface is used.
#pragma once
#include "kit.h"
#include <limits>

namespace kit {

using BDD::bdd_instruction;
const size_t NONE = std::numeric_limits<size_t>::max();

// A stored BDD as it can be read from outside, positions relative to its first instruction.
struct Stored {
    struct Node { size_t var, lo, hi; char sink; bool operator==(const Node& o) const { return var == o.var && lo == o.lo && hi == o.hi && sink == o.sink; } }; // sink: 0 decision node, 'b', 't'
    std::vector<Node> nodes;
    bool operator==(const Stored& o) const { return nodes == o.nodes; }
    bool operator!=(const Stored& o) const { return !(*this == o); }
};
inline Stored stored(const bdd_collection& c, size_t nr) {
    Stored s; auto r = c.get_bdd_instructions(nr); if (r.first == r.second) return s;
    const size_t base = c.offset(*r.first);
    for (auto it = r.first; it != r.second; ++it) {
        if (it->is_botsink()) s.nodes.push_back({0, 0, 0, 'b'});
        else if (it->is_topsink()) s.nodes.push_back({0, 0, 0, 't'});
        else s.nodes.push_back({it->index, it->lo - base, it->hi - base, 0});
    }
    return s;
}
inline std::vector<Stored> all_stored(const bdd_collection& c) { std::vector<Stored> v; for (size_t i = 0; i < c.nr_bdds(); ++i) v.push_back(stored(c, i)); return v; }

// the same diagram up to the order of its instructions
inline bool same_diagram(const Stored& a, const Stored& b) {
    if (a.nodes.size() != b.nodes.size()) return false;
    std::vector<size_t> to(a.nodes.size(), NONE), from(b.nodes.size(), NONE); std::vector<std::pair<size_t, size_t>> todo{{0, 0}};
    while (!todo.empty()) {
        auto x = todo.back(); todo.pop_back(); if (to[x.first] == x.second && from[x.second] == x.first) continue;
        if (to[x.first] != NONE || from[x.second] != NONE) return false;
        to[x.first] = x.second; from[x.second] = x.first; auto &p = a.nodes[x.first], &q = b.nodes[x.second];
        if (p.sink != q.sink) return false; if (p.sink) continue; if (p.var != q.var) return false;
        todo.push_back({p.lo, q.lo}); todo.push_back({p.hi, q.hi});
    }
    return true;
}
// ordered, reduced, both sinks once, everything reachable from the first instruction; returns number of decision nodes
inline size_t check_stored_structure(const bdd_collection& c, size_t nr, const char* who) {
    const Stored s = stored(c, nr); const size_t n = s.nodes.size();
    MC_CHECK(n == c.nr_bdd_nodes(nr), "%s: %zu instructions but node count %zu", who, n, c.nr_bdd_nodes(nr));
    size_t bots = 0, tops = 0, dec = 0; std::set<std::array<size_t, 3>> seen;
    for (size_t i = 0; i < n; ++i) {
        auto& x = s.nodes[i];
        if (x.sink) { (x.sink == 'b' ? bots : tops)++; continue; }
        ++dec;
        MC_CHECK(x.lo < n && x.hi < n, "%s: node %zu points outside the BDD", who, i);
        MC_CHECK(x.lo != x.hi, "%s: node %zu has equal children", who, i);
        for (size_t y : {x.lo, x.hi}) MC_CHECK(s.nodes[y].sink || s.nodes[y].var > x.var, "%s: variable order violated at node %zu (variable %zu above %zu)", who, i, x.var, s.nodes[y].var);
        MC_CHECK(seen.insert({x.var, x.lo, x.hi}).second, "%s: two nodes with the same variable %zu and children", who, x.var);
    }
    MC_CHECK(bots == 1 && tops == 1, "%s: %zu false and %zu true sinks", who, bots, tops);
    std::vector<char> reach(n, 0); std::vector<size_t> todo{0}; size_t reached = 0;
    while (!todo.empty()) { size_t i = todo.back(); todo.pop_back(); if (reach[i]) continue; reach[i] = 1; if (!s.nodes[i].sink) { ++reached; todo.push_back(s.nodes[i].lo); todo.push_back(s.nodes[i].hi); } }
    MC_CHECK(reached == dec, "%s: %zu decision nodes are stored, %zu reachable from the root", who, dec, reached);
    return dec;
}
inline TT stored_tt(const Stored& s, const Pos& pos) {
    TT r = 0; const int n = int(pos.size());
    for (int a = 0; a < (1 << n); ++a) {
        size_t i = 0; while (!s.nodes[i].sink) { int v = 0; while (v < n && pos[v] != s.nodes[i].var) ++v; MC_CHECK(v < n, "stored BDD mentions variable %zu", s.nodes[i].var); i = a >> v & 1 ? s.nodes[i].hi : s.nodes[i].lo; }
        if (s.nodes[i].sink == 't') r |= TT(1) << a;
    }
    return r;
}
// everything that can be asked about a stored BDD, against the truth table
inline void check_stored(bdd_collection& c, size_t nr, TT t, const Pos& pos, const char* who) {
    const int n = int(pos.size()); const size_t nv = pos.empty() ? 1 : pos.back() + 1;
    TT got = eval_tt(c, nr, pos, nv);
    MC_CHECK(got == t, "%s: evaluates to %s, expected %s", who, str(got, n).c_str(), str(t, n).c_str());
    size_t dec = check_stored_structure(c, nr, who);
    got = stored_tt(stored(c, nr), pos);
    MC_CHECK(got == t, "%s: instructions describe %s, expected %s", who, str(got, n).c_str(), str(t, n).c_str());
    std::set<TT> sub; subfunctions(t, n, sub);
    MC_CHECK(dec == sub.size() && c.nr_bdd_nodes(nr) == sub.size() + 2, "%s: node count %zu, the reduced diagram has %zu nodes and two sinks", who, c.nr_bdd_nodes(nr), sub.size());
    std::vector<size_t> sv; for (int i : support(t, n)) sv.push_back(pos[i]);
    auto vars = c.variables(nr);
    MC_CHECK(vars == sv, "%s: variable list of %zu entries differs from the support (%zu variables)", who, vars.size(), sv.size());
    for (size_t v = 0; v <= nv; ++v) {
        size_t want = 0; for (TT x : sub) { int i = 0; while (!depends(x, i, n)) ++i; if (pos[i] == v) ++want; }
        size_t have = c.nr_bdd_nodes(nr, v);
        MC_CHECK(have == want, "%s: %zu nodes of variable %zu reported, expected %zu", who, have, v, want);
    }
}
// manager-free entry of a function into a collection
inline size_t put(bdd_collection& c, TT t, const Pos& pos) { bdd_mgr m; add_vars(m, pos.empty() ? 1 : pos.back() + 1); return c.add_bdd(build(m, t, pos)); }

} // namespace kit
