// C18: collection queries and rebasing are exact and local.
#include "ref.h"
#include <deque>
#include <map>
using namespace kit; using namespace BDD;

namespace {
const Pos P6 = ident(6);
// move a function of 6 variables: variable from[i] becomes to[i]
TT moved(TT t, const Pos& from, const Pos& to) {
    TT r = 0; for (int a = 0; a < 64; ++a) { int b = 0; for (size_t i = 0; i < from.size(); ++i) if (a >> to[i] & 1) b |= 1 << from[i]; if (t >> b & 1) r |= TT(1) << a; } return r;
}
TT at(TT t, int n, const Pos& p) { TT r = 0; for (int a = 0; a < 64; ++a) { int b = 0; for (int i = 0; i < n; ++i) if (a >> p[i] & 1) b |= 1 << i; if (t >> b & 1) r |= TT(1) << a; } return r; }
Pos supp6(TT t) { Pos p; for (int i : support(t, 6)) p.push_back(i); return p; }

void rebase(bdd_collection& c, size_t nr, const Pos& from, const Pos& to, int form) {
    mc::steps(); size_t n = 0; for (size_t x : from) n = std::max(n, x + 1); std::vector<size_t> v(n + (form % 2), 0); std::map<size_t, size_t> a; std::unordered_map<size_t, size_t> b;
    for (size_t i = 0; i < from.size(); ++i) { v[from[i]] = to[i]; a[from[i]] = to[i]; b[from[i]] = to[i]; }
    switch (form % 7) {
        case 0: c.rebase(nr, a); break;
        case 1: c.rebase(nr, b); break;
        case 2: c.rebase(nr, v.begin(), v.end()); break;
        case 3: { const size_t* p = v.data(); c.rebase(nr, p, p + v.size()); break; }
        case 4: c[nr].rebase(a); break;
        case 5: c[nr].rebase(v.begin(), v.end()); break;
        default: { std::deque<size_t> d(v.begin(), v.end()); bdd_collection_entry e = c[nr]; e.rebase(d.begin(), d.end()); }
    }
}
// entry's own queries
void entry(bdd_collection& c, size_t nr) {
    bdd_collection_entry e = c[nr]; MC_CHECK(e.nr_nodes() == c.nr_bdd_nodes(nr), "entry's node count differs"); MC_CHECK(e.variables() == c.variables(nr), "entry's variable list differs");
    for (size_t v = 0; v < 7; ++v) MC_CHECK(e.nr_nodes(v) == c.nr_bdd_nodes(nr, v), "entry's node count of a variable differs");
}
void same(bdd_collection& c, const std::vector<TT>& t, const char* who) {
    MC_CHECK(c.nr_bdds() == t.size() && c.size() == t.size(), "%s: %zu BDDs are stored, expected %zu", who, c.nr_bdds(), t.size());
    for (size_t i = 0; i < t.size(); ++i) check_stored(c, i, t[i], P6, who);
}
// one rebase between neighbours
void one(TT t3, const Pos& from, const Pos& to, int form, int way) {
    bdd_collection c; std::vector<TT> t{at(0xe8, 3, {0, 2, 4}), at(t3, 3, from), at(t3, 3, from), 0, at(0x96, 3, {1, 2, 5})};
    if (way == 0) for (TT x : t) put(c, x, P6);
    else { put(c, t[0], P6); size_t a = put(c, t[1], P6); c.bdd_and(a, a); put(c, t[3], P6); put(c, t[4], P6); }
    const auto before = all_stored(c); MC_NOTE("rebase %s from %zu.. to %zu.., form %d", str(t3, 3).c_str(), from[0], to[0], form);
    rebase(c, 2, from, to, form); t[2] = at(t3, 3, to);
    for (size_t i = 0; i < t.size(); ++i) if (i != 2) MC_CHECK(stored(c, i) == before[i], "rebasing #2 changed #%zu", i);
    check_stored(c, 2, t[2], P6, "rebased BDD"); entry(c, 2);
    rebase(c, 2, to, from, form + 3); MC_CHECK(same_diagram(stored(c, 2), before[2]), "rebasing forth and back gives another BDD");
    mc::state(mc::mix(mc::mix(t3, from[0] * 6 + to[0]), form));
}
// queries of every function, wherever it lies and however it was produced
void queries(TT t4, int where) {
    bdd_collection c; bdd_mgr m; add_vars(m, 6); std::vector<TT> t; auto add = [&](TT x) { c.add_bdd(build(m, x, P6)); t.push_back(x); };
    TT x = at(t4, 4, {0, 1, 3, 5}); if (where & 1) add(at(0xca, 3, {1, 2, 3})); if (where & 2) add(0);
    add(x); if (where & 4) { c.bdd_and(t.size() - 1, t.size() - 1); t.push_back(x); } if (where & 1) add(ones(6)); if (where & 2) add(tvar(5, 6));
    same(c, t, "queries"); for (size_t i = 0; i < t.size(); ++i) entry(c, i); mc::steps(t.size()); mc::state(mc::mix(t4, where));
}
// every sequence of operations
void history(long u, int depth, int nops) {
    bdd_mgr m; add_vars(m, 6); bdd_collection c; std::vector<TT> t; auto add = [&](TT x) { size_t r = c.add_bdd(build(m, x, P6)); MC_CHECK(r == t.size(), "index is %zu, expected %zu", r, t.size()); t.push_back(x); };
    add(at(0xca, 3, {0, 1, 2})); add(at(0x96, 3, {1, 3, 4})); add(at(0xfe, 3, {0, 2, 5}));
    for (int d = 0; d < depth; ++d) {
        int a = d == 0 ? int(u) : mc::choose(nops, "operation"); const size_t n = t.size(), last = n - 1; mc::steps();
        switch (a) {
            case 0: case 1: case 2: { size_t i = a == 0 ? last : 0, j = a == 1 ? n / 2 : last; if (a == 2) i = n / 2; size_t r = c.bdd_and(i, j); MC_CHECK(r == n, "index is %zu", r); t.push_back(t[i] & t[j]); MC_NOTE("#%zu and #%zu", i, j); break; }
            case 3: case 4: { std::vector<size_t> o{0, n / 2, last}; if (a == 4) { o.push_back(last ? last - 1 : 0); o.push_back(0); } size_t r = c.bdd_and(o.begin(), o.end()); MC_CHECK(r == n, "index is %zu", r); TT w = ~TT(0); for (size_t i : o) w &= t[i]; t.push_back(w); MC_NOTE("conjunction of %zu", o.size()); break; }
            case 5: { size_t r = c.bdd_and(size_t(0), last, 4), k = bdd_size(t[0] & t[last], 6) + 2; MC_CHECK((r == NONE) == (k > 4), "limited conjunction with %zu nodes returns %zu", k, r); if (r != NONE) t.push_back(t[0] & t[last]); MC_NOTE("limited conjunction"); break; }
            case 6: case 7: { size_t i = a == 6 ? last : 0; Pos s = supp6(t[i]); if (s.empty()) { add(tvar(3, 6)); break; } std::set<size_t> p, q; (a == 6 ? p : q).insert(s.back()); 
                TT w = 0; for (int as = 0; as < 64; ++as) { TT cur = t[i]; bool v = false; for (;;) { if (cur == 0) break; if (cur == ~TT(0)) { v = true; break; } int k = 0; while (!depends(cur, k, 6)) ++k; bool b = as >> k & 1; if (b ? p.count(k) : q.count(k)) { v = true; break; } cur = b ? cof1(cur, k, 6) : cof0(cur, k, 6); } if (v) w |= TT(1) << as; }
                size_t r = c.bdd_or_var(i, p, q); MC_CHECK(r == n, "index is %zu", r); t.push_back(w); MC_NOTE("relax #%zu by variable %zu", i, s.back()); break; }
            case 8: case 9: case 10: case 11: { size_t i = a == 8 ? last : a == 9 ? 0 : n / 2; Pos s = supp6(t[i]), to(s); int k = int(to.size()); // to the lowest / highest / spread positions
                if (a == 8) for (int j = 0; j < k; ++j) to[j] = j; else if (a == 9) for (int j = 0; j < k; ++j) to[j] = 6 - k + j; else if (a == 10) { for (int j = 0; j < k; ++j) to[j] = j * 5 / std::max(1, k - 1); if (k == 1) to[0] = 5; } else for (int j = k - 1; j >= 0; --j) { size_t lim = j + 1 < k ? to[j + 1] - 1 : 5; to[j] = std::min(to[j] + 1, lim); }
                const auto before = all_stored(c); rebase(c, i, s, to, a + int(n)); t[i] = moved(t[i], s, to); for (size_t j = 0; j < n; ++j) if (j != i) MC_CHECK(stored(c, j) == before[j], "rebasing #%zu changed #%zu", i, j); MC_NOTE("rebase #%zu", i); break; }
            case 12: case 13: case 14: { size_t i = a == 12 ? 0 : a == 13 ? last : n / 2; std::vector<size_t> x{i}; c.remove(x.begin(), x.end()); t.erase(t.begin() + i); MC_NOTE("remove #%zu", i); if (t.empty()) add(at(0x1b, 3, {0, 1, 5})); break; }
            case 15: add(0); MC_NOTE("add false"); break;
            case 16: add(~TT(0)); MC_NOTE("add true"); break;
            case 17: { node_ref r = c.export_bdd(m, last); MC_CHECK(r == build(m, t[last], P6), "export of #%zu gives another reference", last); size_t k = c.add_bdd(m.negate(r)); MC_CHECK(k == n, "index is %zu", k); t.push_back(~t[last]); MC_NOTE("add complement of #%zu", last); break; }
            case 18: { size_t k = c.new_bdd(); auto x = c.add_bdd_node(1); auto y = c.add_bdd_node(4); x.set_lo_arc(y); x.set_hi_to_0_terminal(); y.set_lo_to_0_terminal(); y.set_hi_to_1_terminal(); c.close_bdd(); MC_CHECK(k == n, "index is %zu", k); t.push_back(~tvar(1, 6) & tvar(4, 6)); MC_NOTE("build one by hand"); break; }
            default: { bdd_collection_entry e = c[0], f = c[last]; bdd_collection_entry g = e & f; t.push_back(t[0] & t[last]); MC_CHECK(g.nr_nodes() == c.nr_bdd_nodes(n), "entry conjunction"); MC_NOTE("entry conjunction"); }
        }
        same(c, t, "history"); 
    }
    for (size_t i = 0; i < t.size(); ++i) { MC_CHECK(c.export_bdd(m, i) == build(m, t[i], P6), "export of #%zu gives another reference", i); entry(c, i); }
    uint64_t h = 11; for (TT x : t) h = mc::mix(h, x); mc::state(h);
}
void scale(size_t n, int kind, int place) {
    ref::Store s; const auto V = ref::vars(n, place); const ref::Id f = ref::shape(s, kind, V), g = ref::shape(s, 1, ref::vars(5, 1)); bdd_collection c; ref::put(c, s, g); const size_t nr = ref::put(c, s, f); ref::put(c, s, g); const Stored s0 = stored(c, 0), s2 = stored(c, 2); mc::steps(8);
    const auto all = [&](ref::Id w, const char* who) {
        ref::stored_is(s, c, nr, w, who, n); const auto lv = s.levels(w); MC_CHECK(c.variables(nr) == s.vars(w) && c[nr].variables() == s.vars(w), "%s: variable list (%zu variables)", who, n); MC_CHECK(c[nr].nr_nodes() == s.size(w) + 2, "%s: entry's node count", who);
        size_t at = 0; for (auto& p : lv) if (at++ % (1 + lv.size() / 64) == 0 || at == lv.size()) { MC_CHECK(c.nr_bdd_nodes(nr, p.first) == p.second && c[nr].nr_nodes(p.first) == p.second, "%s: %zu nodes of variable %zu, expected %zu", who, c.nr_bdd_nodes(nr, p.first), p.first, p.second); if (!lv.count(p.first + 1)) MC_CHECK(c.nr_bdd_nodes(nr, p.first + 1) == 0, "%s: nodes of an absent variable", who); }
        MC_CHECK(stored(c, 0) == s0 && stored(c, 2) == s2, "%s: another BDD changed", who); };
    all(f, "large BDD"); ref::evaluates(s, c, nr, f, V, V.back() + 1, "large BDD");
    // by vector, by hash map to far away, by map back
    std::vector<size_t> up; for (size_t i = 0; i <= V.back(); ++i) up.push_back(2 * i + 1); c.rebase(nr, up.begin(), up.end()); const ref::Id w1 = s.map(f, [](size_t v) { return 2 * v + 1; }); all(w1, "rebased BDD"); std::vector<size_t> W; for (size_t v : V) W.push_back(2 * v + 1); ref::evaluates(s, c, nr, w1, W, W.back() + 1, "rebased BDD");
    const size_t far[4] = {65530, size_t(1) << 20, (size_t(1) << 32) - 4, size_t(1) << 40}; std::unordered_map<size_t, size_t> h; std::map<size_t, size_t> back; for (size_t v : V) { h[2 * v + 1] = far[place] + 2 * v; back[far[place] + 2 * v] = v; }
    c.rebase(nr, h); all(s.map(f, [&](size_t v) { return far[place] + 2 * v; }), "BDD rebased to far variables"); c[nr].rebase(back); all(f, "BDD rebased back"); ref::evaluates(s, c, nr, f, V, V.back() + 1, "BDD rebased back"); mc::nontrivial(); mc::state(mc::mix(n, kind * 16 + place));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(); std::vector<mc::Scenario> s;
    s.push_back({"rebase-3var", "all 256 functions of 3 variables x all 400 order-preserving maps between triples of 6 variables x 7 forms (rotating), between other BDDs; forth and back", 400,
        [T](long u) { static const auto pl = placements(3, 6); for (TT t = 0; t < 256; ++t) for (int f = 0; f < (T ? 7 : 1); ++f) one(t, pl[u / 20], pl[u % 20], int(t + u + f) % 7, int(t / 7 + f) % 2); }, 60});
    if (A) s.push_back({"queries-4var", T ? "all 65536 functions of 4 variables in 8 surroundings" : "4096 functions of 4 variables in 8 surroundings", T ? 512 : 32, [](long u) { for (int k = 0; k < 128; ++k) for (int w = 0; w < 8; ++w) queries(scatter(u * 128 + k) & 0xffff, w); }, 60});
    const int D = A ? (T ? 5 : 4) : 3; s.push_back({"histories", "all sequences of " + std::to_string(D) + " operations out of 20 (conjunctions, limited ones, relaxations, rebasings, removals, imports, by hand), all stored BDDs examined after each", 20, [D](long u) { history(u, D, 20); }});
    s.push_back({"labels", "all 256 functions of 3 variables at all 35 placements among 7 variables x all assignments given by 5 kinds of sequences, with 6 different values for true, just long enough or longer", 35,
        [](long u) { static const auto pl = placements(3, 7); const Pos& pos = pl[u]; bdd_collection c; put(c, 0x1b, ident(3)); for (TT t = 0; t < 256; ++t) { size_t k = put(c, t, pos); auto v = support(t, 3); eval_kinds([&](auto b, auto e) { mc::steps(); return c.evaluate(k, b, e); }, t, pos, v.empty() ? 0 : pos[v.back()] + 1, "stored BDD"); mc::state(mc::mix(t, u)); mc::nontrivial(!v.empty()); } }});
    { const size_t M = A ? (T ? 4097 : 1025) : 129; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 4, [](long u) { ref::Far far(ref::FAR[u % 3]); scale(6, int(u / 3 % 12), int(u / 36)); }, 120});
      s.push_back({"scale", "12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + " in 4 placements, queried and rebased, also to variables around 2^16, 2^20, 2^32 and 2^40", long(z.size()) * 48, [z](long u) { scale(z[u / 48], int(u / 4 % 12), int(u % 4)); }, 120}); }
    { const int K = mc::memory_controlled() ? (T ? 16 : 15) : 6; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + " (about 3 * 2^k nodes), two placements", long(K - 3) * 2 * 2, [](long u) { const size_t n = 2 * (4 + size_t(u / 4)); const int kind = ref::WIDE + int(u / 2 % 2), r = int(u % 2); scale(n, kind, r * 3); }, 240}); }
    return s;
}
