// C12: rebasing copies a function to other variables.
#include "ref.h"
#include <map>
#include <deque>
using namespace kit; using namespace BDD;

namespace {
enum { UMAP, MAP, SUPPORT_ONLY, VECTOR, DEQUE, ARRAY, NFORM };
const char* fname[NFORM] = {"unordered_map", "map", "map of the support only", "vector", "deque", "array"};

node_ref rebase(bdd_mgr& m, node_ref f, int form, const std::vector<std::pair<size_t, size_t>>& arcs, const std::vector<size_t>& supp, size_t& top) {
    mc::steps(); top = 0;
    if (form <= SUPPORT_ONLY) {
        std::map<size_t, size_t> a; std::unordered_map<size_t, size_t> b;
        for (auto& x : arcs) if (form != SUPPORT_ONLY || std::count(supp.begin(), supp.end(), x.first)) { a[x.first] = x.second; b[x.first] = x.second; top = std::max(top, x.second + 1); }
        return form == MAP ? m.rebase(f, a) : m.rebase(f, b);
    }
    size_t n = 0; for (auto& x : arcs) n = std::max(n, x.first + 1);
    std::vector<size_t> v(n, 0); for (auto& x : arcs) v[x.first] = x.second;
    for (size_t x : v) top = std::max(top, x + 1);
    if (form == VECTOR) return m.rebase(f, v.begin(), v.end());
    if (form == DEQUE) { std::deque<size_t> d(v.begin(), v.end()); return m.rebase(f, d.begin(), d.end()); }
    const size_t* p = v.data(); return m.rebase(f, p, p + n);
}
std::vector<std::pair<size_t, size_t>> arcs(const Pos& from, const Pos& to) { std::vector<std::pair<size_t, size_t>> a; for (size_t i = 0; i < from.size(); ++i) a.push_back({from[i], to[i]}); return a; }
std::vector<size_t> supp_of(TT t, const Pos& p) { std::vector<size_t> s; for (int i : support(t, int(p.size()))) s.push_back(p[i]); return s; }

void one(bdd_mgr& m, TT t, const Pos& from, const Pos& to, int form, bool back) {
    const int n = int(from.size()); node_ref f = build(m, t, from); const size_t before = m.nr_variables();
    const Pos all_from = from; size_t top;
    MC_NOTE("%s on variables %zu.. to %zu.., %s, manager has %zu variables", str(t, n).c_str(), from[0], to[0], fname[form], before);
    node_ref g = rebase(m, f, form, arcs(from, to), supp_of(t, from), top);
    const size_t nv = m.nr_variables(); const size_t need = std::max(before, top); // every target the map mentions
    MC_CHECK(nv >= need && nv <= std::max(before, std::max<size_t>(top, 1)), "manager has %zu variables after rebasing, had %zu, largest target %zu", nv, before, top - 1);
    if (nv < to.back() + 1) add_vars(m, to.back() + 1);
    MC_CHECK(eval_tt(g, to, m.nr_variables()) == t, "rebased function is %s instead of %s", str(eval_tt(g, to, m.nr_variables()), n).c_str(), str(t, n).c_str());
    MC_CHECK(g == build(m, t, to), "rebased BDD is not the canonical reference");
    check_structure(g, "rebased BDD");
    MC_CHECK(f == build(m, t, from), "original is not canonical any more");
    const size_t w = std::max(m.nr_variables(), from.back() + 1); MC_CHECK(eval_tt(f, from, w) == t, "original changed");
    if (from == to) MC_CHECK(f == g, "identity map gives another reference");
    if (back) {
        size_t t2; const size_t nv2 = m.nr_variables();
        node_ref h = rebase(m, g, (form + 2) % NFORM, arcs(to, from), supp_of(t, to), t2);
        MC_CHECK(h == f, "mapping forth and back gives another reference"); MC_CHECK(m.nr_variables() == std::max(nv2, std::max<size_t>(t2, 1)) || m.nr_variables() == nv2, "mapping back added variables");
    }
    mc::nontrivial(from != to && support(t, n).size() > 0); mc::state(mc::mix(mc::mix(t, from[0] * 64 + to[0] * 8 + n), form));
}
// several mappings in a row, with collections
void chain(TT t, long u) {
    static const auto pl = placements(3, 6); bdd_mgr m; add_vars(m, 3); Pos cur = ident(3); node_ref f = build(m, t, cur); node_ref first = f; std::vector<std::pair<node_ref, Pos>> kept;
    for (int i = 0; i < 3; ++i) {
        int c = i == 0 ? int(u) : mc::choose(20, "target"); const Pos& to = pl[c]; size_t top;
        f = rebase(m, f, (c + i) % NFORM, arcs(cur, to), supp_of(t, cur), top); cur = to; if (i != 1) kept.push_back({f, cur});
        if (i == 1 || (c & 1)) m.collect_garbage();
        add_vars(m, cur.back() + 1); MC_NOTE("rebased %s to %zu %zu %zu", str(t, 3).c_str(), to[0], to[1], to[2]);
    }
    add_vars(m, 6); 
    for (auto& k : kept) { MC_CHECK(eval_tt(k.first, k.second, 6) == t, "rebased function changed later"); MC_CHECK(build(m, t, k.second) == k.first, "rebased BDD not canonical later"); }
    MC_CHECK(eval_tt(first, ident(3), 6) == t && build(m, t, ident(3)) == first, "original changed");
    mc::state(mc::mix(t, mc::mix(cur[0] * 36 + cur[1] * 6 + cur[2], u)));
}
// arbitrary variables: f and g shifted, spread and compressed; compared with rebuilding
void large(int n, int gap, int off, int form) {
    bdd_mgr m; auto counting = [&](bdd_mgr& m, int gap, int off) { add_vars(m, (n - 1) * gap + off + 1); std::vector<node_ref> lev; for (int c = 0; c <= n; ++c) lev.push_back(c % 3 == 1 ? m.topsink() : m.botsink()); for (int v = n - 1; v >= 0; --v) { std::vector<node_ref> up; for (int c = 0; c <= v; ++c) up.push_back(m.unique_find(v * gap + off, lev[c], lev[c + 1])); lev = up; } return lev[0]; };
    node_ref f = counting(m, 1, 0); Pos from = ident(n), to; for (int i = 0; i < n; ++i) to.push_back(i * gap + off); size_t top;
    node_ref g = rebase(m, f, form, arcs(from, to), from, top); MC_CHECK(m.nr_variables() == to.back() + 1, "manager has %zu variables, expected %zu", m.nr_variables(), to.back() + 1);
    MC_CHECK(g == counting(m, gap, off), "rebased BDD of %d variables is not the canonical reference", n);
    MC_CHECK(f == counting(m, 1, 0), "original changed"); MC_CHECK(g.nr_nodes() == f.nr_nodes(), "node counts differ");
    MC_CHECK(rebase(m, g, (form + 1) % NFORM, arcs(to, from), to, top) == f, "mapping back gives another reference");
    m.collect_garbage(); MC_CHECK(rebase(m, g, form, arcs(to, from), to, top) == f, "mapping back after a collection gives another reference");
    mc::state(mc::mix(n, gap * 100 + off));
}
// entries for variables the function does not depend on, also ones the manager does not have, map to arbitrary places
void extra(int entry_mask, int shape) {
    static const size_t order[6] = {0, 1, 2, 3, 4, 5}; static const size_t targets[5][6] = {{0, 1, 2, 3, 4, 9}, {1, 3, 4, 0, 8, 0}, {2, 3, 7, 9, 0, 1}, {4, 5, 6, 6, 6, 6}, {0, 2, 3, 1, 1, 20}};
    for (TT t = 0; t < 256; t += 1) for (int form = 0; form < NFORM; ++form) {
        bool ok = true; for (int i : support(t, 3)) ok = ok && (entry_mask >> i & 1); if (!ok || form == SUPPORT_ONLY) continue;
        bdd_mgr m; add_vars(m, 3); node_ref f = build(m, t, ident(3)); std::vector<std::pair<size_t, size_t>> a; Pos to; size_t top, want = 3;
        for (int i = 0; i < 6; ++i) if (entry_mask >> i & 1) a.push_back({order[i], targets[shape][i]});
        for (int i = 0; i < 3; ++i) to.push_back(targets[shape][i]);
        MC_NOTE("%s, %s with entries %x to shape %d", str(t, 3).c_str(), fname[form], entry_mask, shape);
        node_ref g = rebase(m, f, form, a, {}, top); want = std::max(want, top);
        MC_CHECK(m.nr_variables() == std::max<size_t>(want, a.empty() ? 3 : want), "manager has %zu variables after rebasing to variables below %zu", m.nr_variables(), top);
        const size_t had = m.nr_variables(); node_ref p = m.projection(to[2] + 1); (void)p; MC_CHECK(m.nr_variables() == std::max(had, to[2] + 2), "wrong number of variables after asking for one more"); add_vars(m, 24);
        MC_CHECK(eval_tt(g, to, 24) == t && g == build(m, t, to), "rebased BDD is wrong"); check_structure(g, "rebased BDD"); MC_CHECK(eval_tt(f, ident(3), 24) == t, "original changed");
        mc::state(mc::mix(t, entry_mask * 8 + shape)); mc::nontrivial();
    }
}
void scale(size_t n, int kind, int form) {
    ref::Store s; const auto V = ref::vars(n, kind % 4); const ref::Id f = ref::shape(s, kind, V); const size_t shift[4] = {1, 64, 200, n};
    const auto to = [&](size_t v) { return form % 4 == 3 ? v + v / 2 : v + shift[form % 4 * 1 + (form % 4 == 2 ? kind % 2 : 0)]; }; const ref::Id w = s.map(f, to), all = f; mc::steps(6);
    const auto go = [&](bdd_mgr& m, node_ref F) { if (form / 4 == 0) { std::vector<size_t> v; for (size_t i = 0; i <= V.back(); ++i) v.push_back(to(i)); return m.rebase(F, v.begin(), v.end()); } if (form / 4 == 1) { std::unordered_map<size_t, size_t> v; for (size_t x : V) v[x] = to(x); return m.rebase(F, v); } std::map<size_t, size_t> v; for (size_t x : V) v[x] = to(x); return m.rebase(F, v); };
    bdd_mgr m; add_vars(m, V.back() + 1); node_ref F = ref::make(m, s, f); node_ref R = go(m, F); MC_CHECK(m.nr_variables() == to(V.back()) + 1, "%zu variables after rebasing up to variable %zu", m.nr_variables(), to(V.back()));
    ref::is(s, R, w, "rebased BDD", n); ref::is(s, F, all, "source", n); MC_CHECK(R == ref::make(m, s, w), "rebasing gives another reference than building"); ref::evaluates(s, F, f, V, m.nr_variables(), "source"); std::vector<size_t> W; for (size_t x : V) W.push_back(to(x)); ref::evaluates(s, R, w, W, m.nr_variables(), "rebased BDD");
    m.collect_garbage(); ref::is(s, R, w, "rebased BDD after collection", n); mc::nontrivial(); mc::state(mc::mix(n, kind * 16 + form));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(); std::vector<mc::Scenario> s;
    s.push_back({"maps-3var", "all 256 functions of 3 variables x all 400 order-preserving maps between triples of 6 variables x 6 forms of the map, target variables missing from the manager; forth and back", 400,
        [](long u) { static const auto pl = placements(3, 6); for (int form = 0; form < NFORM; ++form) for (TT t = 0; t < 256; ++t) { bdd_mgr m; add_vars(m, pl[u / 20].back() + 1); one(m, t, pl[u / 20], pl[u % 20], form, (t + form) % 2 == 0); } }, 60});
    s.push_back({"shared-3var", "the same maps, one manager for all functions and forms (earlier results present)", 400,
        [](long u) { static const auto pl = placements(3, 6); bdd_mgr m; add_vars(m, pl[u / 20].back() + 1); for (int form = 0; form < NFORM; ++form) for (TT t = 0; t < 256; ++t) one(m, t, pl[u / 20], pl[u % 20], form, true); }, 60});
    s.push_back({"maps-4var", T ? "all 65536 functions of 4 variables, 10 maps each" : "8192 functions of 4 variables, 10 maps each", T ? 512 : 64,
        [](long u) { static const auto pl = placements(4, 8); for (int k = 0; k < 128; ++k) { TT t = scatter(u * 128 + k) & 0xffff; bdd_mgr m; for (int j = 0; j < 10; ++j) { const Pos& a = pl[scatter(t * 10 + j) % pl.size()]; add_vars(m, a.back() + 1); one(m, t, a, pl[scatter(t * 20 + j + 7) % pl.size()], (k + j) % NFORM, j % 3 == 0); } } }, 60});
    s.push_back({"chains", "all 256 functions x all sequences of 3 maps to triples of 6 variables, with collections", T ? 256 * 20 : 64 * 20, [T](long u) { chain(T ? u / 20 : (u / 20) * 4 + (u / 20) % 4, u % 20); }});
    s.push_back({"constants", "constants x all maps of up to 4 entries, empty ones included", 1, [](long) {
        for (int form = 0; form < NFORM; ++form) for (int k = 0; k <= 4; ++k) for (int nv = 0; nv < 3; ++nv) { bdd_mgr m; add_vars(m, nv); std::vector<std::pair<size_t, size_t>> a; for (int i = 0; i < k; ++i) a.push_back({size_t(i), size_t(i + 2)}); size_t top; MC_NOTE("constants with a %s of %d entries", fname[form], k);
            MC_CHECK(rebase(m, m.topsink(), form, a, {}, top) == m.topsink() && rebase(m, m.botsink(), form, a, {}, top) == m.botsink(), "rebasing a constant gives another BDD"); MC_CHECK(m.nr_variables() >= std::max(size_t(nv), top) && m.nr_variables() <= std::max(size_t(nv), std::max<size_t>(top, 1)), "manager has %zu variables after rebasing a constant by a map to variables below %zu, had %d", m.nr_variables(), top, nv); mc::state(mc::mix(form, k)); } }});
    s.push_back({"extra-entries", "all 256 functions of 3 variables x maps with any subset of 6 entries (among them entries for variables the function does not depend on or the manager does not have) x 5 target lists", 64 * 5, [](long u) { extra(int(u % 64), int(u / 64)); }});
    const int N = T ? 60 : 30;
    s.push_back({"large", "counting functions of 1.." + std::to_string(N) + " variables shifted and spread", N * 12, [](long u) { int n = 1 + int(u / 12); large(n, 1 + u % 3, int(u / 3 % 4) * 7, int(u % NFORM)); }});
    { const size_t M = A ? (T ? 4097 : 1025) : 129; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 12, [](long u) { ref::Far far(ref::FAR[u % 3]); scale(6, int(u / 3 % 12), int(u / 36)); }, 120});
      s.push_back({"scale", "12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ", four renamings x three kinds of maps, against an independent diagram store", long(z.size()) * 144, [z](long u) { scale(z[u / 144], int(u / 12 % 12), int(u % 12)); }, 120}); }
    { const int K = mc::memory_controlled() ? (T ? 16 : 15) : 6; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + " (about 3 * 2^k nodes), four renamings, three kinds of maps", long(K - 3) * 2 * 12, [](long u) { const size_t n = 2 * (4 + size_t(u / 24)); const int kind = ref::WIDE + int(u / 12 % 2), r = int(u % 12); scale(n, kind, r); }, 240}); }
    return s;
}
