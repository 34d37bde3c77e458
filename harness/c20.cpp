// C20: building a BDD by hand in a collection.
#include "ref.h"
#include <stdexcept>
using namespace kit; using namespace BDD;

namespace {
using Node = bdd_collection_node;
enum { BOT = -1, TOP = -2, UNSET = -3 };
void set(Node n, bool hi, int to, std::vector<Node>& all) {
    mc::steps();
    if (to == UNSET) return;
    if (to == BOT) { if (hi) n.set_hi_to_0_terminal(); else n.set_lo_to_0_terminal(); } else if (to == TOP) { if (hi) n.set_hi_to_1_terminal(); else n.set_lo_to_1_terminal(); }
    else { if (hi) n.set_hi_arc(all[to]); else n.set_lo_arc(all[to]); }
}
struct Plan { std::vector<size_t> var; std::vector<std::array<int, 2>> arc; };
bool eval(const Plan& p, unsigned a) { int i = 0; while (i >= 0) i = p.arc[i][a >> p.var[i] & 1]; return i == TOP; }
bool proper(const Plan& p) { // reduced, ordered, everything reachable
    const int k = int(p.var.size()); std::set<std::array<long, 3>> seen; std::vector<char> r(k, 0); r[0] = 1;
    for (int i = 0; i < k; ++i) { if (!r[i] || p.arc[i][0] == p.arc[i][1] || !seen.insert({long(p.var[i]), p.arc[i][0], p.arc[i][1]}).second) return false; for (int t : p.arc[i]) if (t >= 0) { r[t] = 1; if (p.var[t] <= p.var[i]) return false; } }
    return true;
}
// builds p in collection c; order 0: nodes first, then arcs; 1: nodes first, arcs backwards; 2: arcs to sinks at once; 3: every arc set twice; 4: through positions instead of handles
size_t start(bdd_collection& c, const Plan& p, int order, std::vector<Node>& h) {
    const int k = int(p.var.size()); size_t nr = c.new_bdd();
    for (int i = 0; i < k; ++i) { h.push_back(c.add_bdd_node(p.var[i])); if (order == 2) for (int b = 0; b < 2; ++b) if (p.arc[i][b] < 0) set(h[i], b, p.arc[i][b], h); }
    auto at = [&](int i) { return order == 4 ? c[nr][i] : h[i]; };
    for (int j = 0; j < 2 * k; ++j) { int q = order == 1 ? 2 * k - 1 - j : order == 3 ? (j * (2 * k - 1)) % (2 * k) : j, i = q / 2, b = q % 2; if (p.arc[i][b] == UNSET) continue; if (order == 3) set(at(i), b, p.arc[i][b] == TOP ? BOT : TOP, h); set(at(i), b, p.arc[i][b], h); }
    return nr;
}
std::string show(const Plan& p) { std::string s; for (size_t i = 0; i < p.var.size(); ++i) { s += " x" + std::to_string(p.var[i]) + ":"; for (int t : p.arc[i]) s += t == BOT ? "0" : t == TOP ? "1" : t == UNSET ? "-" : std::string("n") + std::to_string(t); } return s; }

void further(bdd_collection& c, size_t nr, TT t, int n, int which) { // a proper BDD is like any other
    const Pos pos = ident(n); bdd_mgr m; add_vars(m, n); check_stored(c, nr, t, pos, "BDD built by hand");
    switch (which % 7) {
        case 0: MC_CHECK(c.export_bdd(m, nr) == build(m, t, pos), "export of a BDD built by hand gives another reference"); break;
        case 1: MC_CHECK(m.add_bdd(c, nr) == build(m, t, pos), "adding a BDD built by hand to a manager gives another reference"); break;
        case 2: { TT o = scatter(t) & ones(n); size_t a = put(c, o, pos), r = c.bdd_and(a, nr); check_stored(c, r, o & t, pos, "conjunction with a BDD built by hand"); break; }
        case 3: { TT o = scatter(t + 1) & ones(n); size_t a = put(c, o, pos); std::vector<size_t> x{nr, a, nr}; size_t r = c.bdd_and(x.begin(), x.end()); check_stored(c, r, o & t, pos, "conjunction with a BDD built by hand"); break; }
        case 4: { std::set<size_t> none; size_t r = c.bdd_or_var(nr, none, none); check_stored(c, r, t, pos, "relaxation of a BDD built by hand"); break; }
        case 5: { if (nr > 0) { std::vector<size_t> x{0}; c.remove(x.begin(), x.end()); check_stored(c, nr - 1, t, pos, "BDD built by hand, moved"); } break; }
        default: { std::vector<size_t> map; for (int i = 0; i < n; ++i) map.push_back(i + 1); c.rebase(nr, map.begin(), map.end()); Pos q; for (size_t x : map) q.push_back(x); check_stored(c, nr, t, q, "BDD built by hand, rebased"); }
    }
}
void one(const Plan& p, int n, int order, int lead, int which) {
    bdd_collection c; static const TT lt[2] = {0xca, 0x80}; for (int i = 0; i < lead; ++i) put(c, i == 2 ? 0 : lt[i % 2], {0, 1, 2}); const auto before = all_stored(c);
    bool unset = false; for (auto& a : p.arc) unset = unset || a[0] == UNSET || a[1] == UNSET;
    MC_NOTE("build%s, order %d, %d BDDs before", show(p).c_str(), order, lead);
    std::vector<Node> h; const size_t nr = start(c, p, order, h); MC_CHECK(nr == before.size(), "new BDD has index %zu, expected %zu", nr, before.size());
    auto others = [&](const char* w) { for (size_t i = 0; i < before.size(); ++i) MC_CHECK(stored(c, i) == before[i] && eval_tt(c, i, {0, 1, 2}, 3) == (i == 2 ? 0 : lt[i % 2]), "%s changed the stored BDD %zu", w, i); };
    Plan q(p);
    if (unset) {
        bool thrown = false; try { c.close_bdd(); } catch (const std::exception&) { thrown = true; }
        MC_CHECK(thrown, "closing with an arc left unset reports no error"); others("failed closing");
        for (size_t i = 0; i < p.arc.size(); ++i) for (int b = 0; b < 2; ++b) if (p.arc[i][b] == UNSET) { q.arc[i][b] = p.arc[i][1 - b] == BOT ? TOP : BOT; set(h[i], b, q.arc[i][b], h); } // repaired and closed
    }
    try { c.close_bdd(); } catch (const std::exception& e) { mc::fail("closing with all arcs set fails: %s", e.what()); }
    MC_CHECK(c.nr_bdds() == before.size() + 1, "%zu BDDs after closing", c.nr_bdds()); others("building");
    TT t = 0; for (int a = 0; a < (1 << n); ++a) if (eval(q, a)) t |= TT(1) << a; TT got = eval_tt(c, nr, ident(n), n);
    MC_CHECK(got == t, "BDD%s evaluates to %s, the arcs say %s", show(q).c_str(), str(got, n).c_str(), str(t, n).c_str());
    MC_CHECK(c.nr_bdd_nodes(nr) == q.var.size() + 2, "BDD of %zu decision nodes reports %zu nodes", q.var.size(), c.nr_bdd_nodes(nr));
    if (proper(q)) { mc::nontrivial(); further(c, nr, t, n, which); }
    mc::state(mc::mix(mc::mix(t, q.var.size()), order));
}
// all diagrams of k nodes: arcs of node i to any later node, a sink or unset
void diagrams(int k, long u, bool withUnset, int norders, int nv) {
    std::vector<std::vector<size_t>> vars; std::vector<size_t> v(k, 0); std::function<void(int, size_t)> rec = [&](int i, size_t lo) { if (i == k) { vars.push_back(v); return; } for (size_t x = lo; x < size_t(nv); ++x) { v[i] = x; rec(i + 1, x); } }; rec(0, 0);
    Plan p; p.arc.resize(k); long code = u;
    for (int i = 0; i < k; ++i) for (int b = 0; b < 2; ++b) { int opts = k - 1 - i + 2 + (withUnset ? 1 : 0); int c; if (i == 0) { c = int(code % opts); code /= opts; } else c = mc::choose(opts, "arc"); p.arc[i][b] = c < 2 ? (c ? TOP : BOT) : c - 2 < k - 1 - i ? i + 1 + (c - 2) : UNSET; }
    int w = 0; for (auto& x : vars) for (int o = 0; o < norders; ++o) { p.var = x; one(p, nv, norders == 1 ? int((u + w) % 5) : o, (w + o) % 4, w + o); ++w; }
}
// the diagram of a function, any building order, mixed with failures
void function(TT t, int n, int order, int lead) {
    std::set<TT> sub; subfunctions(t, n, sub); if (sub.empty()) return; std::vector<std::pair<int, TT>> o; for (TT x : sub) { int i = 0; while (!depends(x, i, n)) ++i; o.push_back({i, x}); } std::sort(o.begin(), o.end());
    Plan p; std::unordered_map<TT, int> at; for (size_t i = 0; i < o.size(); ++i) at[o[i].second] = int(i);
    for (auto& x : o) { p.var.push_back(x.first); std::array<int, 2> a; for (int h = 0; h < 2; ++h) { TT z = h ? cof1(x.second, x.first, n) : cof0(x.second, x.first, n); a[h] = z == 0 ? BOT : z == ones(n) ? TOP : at[z]; } p.arc.push_back(a); }
    for (int w = 0; w < 7; ++w) one(p, n, order, lead, w);
    for (size_t i = 0; i < p.arc.size(); ++i) for (int h = 0; h < 2; ++h) { Plan q(p); q.arc[i][h] = UNSET; one(q, n, order, lead, int(i)); }
}
// every arc of a complete BDD redirected to every later node and to the sinks, through setters and handles, and back
void redirect(TT t, int n, int how) { // how: built by hand, imported, conjunction, relaxed
    const Pos pos = ident(n); bdd_collection c; const size_t first = put(c, 0xca, {0, 1, 2}); size_t nr;
    if (how == 0) { // by hand
        std::set<TT> sub; subfunctions(t, n, sub); std::vector<std::pair<int, TT>> o; for (TT x : sub) { int i = 0; while (!depends(x, i, n)) ++i; o.push_back({i, x}); } std::sort(o.begin(), o.end()); Plan p; std::unordered_map<TT, int> at; for (size_t i = 0; i < o.size(); ++i) at[o[i].second] = int(i);
        for (auto& x : o) { p.var.push_back(x.first); std::array<int, 2> a; for (int h = 0; h < 2; ++h) { TT z = h ? cof1(x.second, x.first, n) : cof0(x.second, x.first, n); a[h] = z == 0 ? BOT : z == ones(n) ? TOP : at[z]; } p.arc.push_back(a); }
        std::vector<Node> h; nr = start(c, p, int(t % 5), h); c.close_bdd();
    } else { nr = put(c, t, pos); if (how == 2) nr = c.bdd_and(nr, nr); if (how == 3) { std::set<size_t> none; nr = c.bdd_or_var(nr, none, none); } }
    const size_t last = put(c, 0x35, {0, 1, 2}); auto e = c[nr]; const size_t k = e.nr_nodes() - 2; const Stored was = stored(c, nr), w0 = stored(c, first), w1 = stored(c, last); const char* hn[] = {"built by hand", "imported", "conjunction", "relaxed"};
    MC_CHECK(e.botsink().is_botsink() && e.topsink().is_topsink() && !e.botsink().is_topsink() && !e.topsink().is_botsink() && e.botsink().is_terminal() && e.topsink().is_terminal(), "sinks of a stored BDD (%s) are wrong", hn[how]);
    const auto at = [&](Node x) { for (size_t i = 0; i < k + 2; ++i) if (e[i] == x) return i; mc::fail("a node handle is no node of its BDD"); return size_t(0); };
    const auto value = [&](const Stored& d, unsigned a) { size_t i = 0; while (!d.nodes[i].sink) i = a >> d.nodes[i].var & 1 ? d.nodes[i].hi : d.nodes[i].lo; return d.nodes[i].sink == 't'; };
    const size_t B = at(e.botsink()), T = at(e.topsink());
    for (size_t i = 0; i < k; ++i) for (int b = 0; b < 2; ++b) for (size_t j = i + 1; j < k + 4; ++j) { // k + 2, k + 3: handles of the sinks reached by descending
        Node x = e[i], y = j < k + 2 ? e[j] : j == k + 2 ? e.botsink() : e.topsink(); if (j < k && y.variable() <= x.variable()) continue; const size_t target = j < k + 2 ? j : j == k + 2 ? B : T; Stored want = was; (b ? want.nodes[i].hi : want.nodes[i].lo) = target;
        for (int by = 0; by < (target == B || target == T ? 2 : 1); ++by) {
            mc::steps(); MC_NOTE("function %s (%s): %s arc of node %zu of %zu to node %zu%s", str(t, n).c_str(), hn[how], b ? "high" : "low", i, k, target, by ? " by setter" : ""); Node z = e[i];
            if (by) { if (target == B) { if (b) z.set_hi_to_0_terminal(); else z.set_lo_to_0_terminal(); } else { if (b) z.set_hi_to_1_terminal(); else z.set_lo_to_1_terminal(); } } else { if (b) z.set_hi_arc(y); else z.set_lo_arc(y); }
            const bool degenerate = want.nodes[i].lo == want.nodes[i].hi; // reads as a sink, no longer a BDD
            if (!degenerate) {
                MC_CHECK(stored(c, nr) == want, "redirecting an arc gives another diagram"); MC_CHECK((b ? e[i].hi() : e[i].lo()) == e[target], "the arc leads elsewhere than it was redirected to");
                std::vector<char> lab(n); for (unsigned a = 0; a < (1u << n); ++a) { for (int v = 0; v < n; ++v) lab[v] = a >> v & 1; MC_CHECK(c.evaluate(nr, lab.begin(), lab.end()) == value(want, a), "after redirecting an arc evaluation does not follow the arcs"); }
                Plan q; for (size_t v = 0; v < k; ++v) { const auto to = [&](size_t z) { return z == B ? int(BOT) : z == T ? int(TOP) : int(z); }; q.var.push_back(want.nodes[v].var); q.arc.push_back({to(want.nodes[v].lo), to(want.nodes[v].hi)}); }
                if (by == 0 && proper(q)) { bdd_mgr m; add_vars(m, n); TT w = 0; for (unsigned a = 0; a < (1u << n); ++a) if (value(want, a)) w |= TT(1) << a; MC_CHECK(c.export_bdd(m, nr) == build(m, w, pos), "export after redirecting an arc gives another function"); }
            }
            MC_CHECK(stored(c, first) == w0 && stored(c, last) == w1, "redirecting an arc changed another BDD");
            Node o = e[b ? was.nodes[i].hi : was.nodes[i].lo], q = e[i]; if (b) q.set_hi_arc(o); else q.set_lo_arc(o); MC_CHECK(stored(c, nr) == was, "redirecting an arc back does not restore the diagram");
        }
    }
    check_stored(c, nr, t, pos, "restored BDD"); mc::nontrivial(k > 0); mc::state(mc::mix(t, how + 900));
}
// several BDDs built one after the other, and between other operations
void sequence(long u, int depth) {
    bdd_collection c; std::vector<TT> t; const Pos pos = ident(3); 
    for (int d = 0; d < depth; ++d) {
        int a = d == 0 ? int(u) : mc::choose(12, "step"); const size_t n = c.nr_bdds();
        if (a < 8) { // two nodes: x_i above x_{i+1}, arcs by a
            size_t nr = c.new_bdd(); MC_CHECK(nr == n, "index is %zu", nr); Node x = c.add_bdd_node(a & 1), y = c.add_bdd_node((a & 1) + 1); bool s = a & 2, q = a & 4;
            if (s) { x.set_lo_arc(y); if (q) x.set_hi_to_1_terminal(); else x.set_hi_to_0_terminal(); } else { x.set_hi_arc(y); if (q) x.set_lo_to_1_terminal(); else x.set_lo_to_0_terminal(); }
            if (d % 2) { bool thrown = false; try { c.close_bdd(); } catch (const std::runtime_error&) { thrown = true; } MC_CHECK(thrown, "closing with an arc left unset reports no error"); }
            if (a % 3) { y.set_lo_to_0_terminal(); y.set_hi_to_1_terminal(); } else { y.set_hi_to_0_terminal(); y.set_lo_to_1_terminal(); } c.close_bdd();
            TT X = tvar(a & 1, 3), Y = tvar((a & 1) + 1, 3); if (a % 3 == 0) Y = ~Y & 0xff; t.push_back(((s ? ~X : X) & Y & 0xff) | (q ? (s ? X : ~X) & 0xff : 0)); MC_NOTE("built %s", str(t.back(), 3).c_str());
        } else if (a == 8) { t.push_back(0x96); put(c, 0x96, pos); } else if (a == 9 && n) { c.bdd_and(n - 1, size_t(0)); t.push_back(t[n - 1] & t[0]); } else if (a == 10 && n) { std::vector<size_t> x{0}; c.remove(x.begin(), x.end()); t.erase(t.begin()); }
        else if (a == 11 && n) { std::vector<size_t> x{n - 1}; c.remove(x.begin(), x.end()); t.pop_back(); }
        MC_CHECK(c.nr_bdds() == t.size(), "%zu BDDs stored, expected %zu", c.nr_bdds(), t.size()); for (size_t i = 0; i < t.size(); ++i) check_stored(c, i, t[i], pos, "stored BDD"); mc::steps();
    }
    uint64_t h = 13; for (TT x : t) h = mc::mix(h, x); mc::state(h);
}
// large diagrams built by hand, in four orders of setting arcs, one arc forgotten first
void scale(size_t n, int kind, int order) {
    ref::Store s; const auto V = ref::vars(n, (kind + order) % 4); const ref::Id f = ref::shape(s, kind, V); if (f < 2) return; bdd_collection c; const size_t lead = ref::put(c, s, ref::shape(s, 1, ref::vars(6))); const Stored s0 = stored(c, lead); mc::steps(2);
    auto ns = s.nodes(f); std::reverse(ns.begin(), ns.end()); const size_t k = ns.size(); std::unordered_map<ref::Id, size_t> at; for (size_t i = 0; i < k; ++i) at[ns[i]] = i;
    const size_t nr = c.new_bdd(); std::vector<Node> h; for (ref::Id x : ns) h.push_back(c.add_bdd_node(s.n[x].var));
    const auto arc = [&](size_t i, int b) { const ref::Id t = b ? s.n[ns[i]].hi : s.n[ns[i]].lo; set(h[i], b, t == 0 ? int(BOT) : t == 1 ? int(TOP) : int(at[t]), h); };
    const size_t skip = order == 0 ? 0 : order == 1 ? 2 * k - 1 : order == 2 ? k : 2 * k; // which arc is forgotten
    for (size_t j = 0; j < 2 * k; ++j) { const size_t q = order % 2 ? 2 * k - 1 - j : j; if (q != skip) arc(q / 2, q % 2); if (j % 256 == 0) mc::beat(); }
    if (skip < 2 * k) { bool thrown = false; try { c.close_bdd(); } catch (const std::exception&) { thrown = true; } MC_CHECK(thrown, "%zu nodes: closing with an arc left unset reports no error", k); MC_CHECK(stored(c, lead) == s0, "failed closing changed another BDD"); arc(skip / 2, skip % 2); }
    try { c.close_bdd(); } catch (const std::exception& e) { mc::fail("%zu nodes: closing with all arcs set fails: %s", k, e.what()); }
    MC_CHECK(c.nr_bdds() == 2 && c.nr_bdd_nodes(nr) == k + 2, "BDD of %zu decision nodes reports %zu nodes", k, c.nr_bdd_nodes(nr)); ref::stored_is(s, c, nr, f, "BDD built by hand", n); ref::evaluates(s, c, nr, f, V, V.back() + 1, "BDD built by hand"); MC_CHECK(stored(c, lead) == s0, "building changed another BDD");
    bdd_mgr m; add_vars(m, V.back() + 1); ref::is(s, c.export_bdd(m, nr), f, "export of a BDD built by hand", n); const size_t r = c.bdd_and(nr, nr); ref::stored_is(s, c, r, f, "conjunction with a BDD built by hand", n); std::vector<size_t> x{lead}; c.remove(x.begin(), x.end()); ref::stored_is(s, c, 0, f, "BDD built by hand, moved", n);
    mc::nontrivial(); mc::state(mc::mix(n, kind * 16 + order));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(); std::vector<mc::Scenario> s;
    s.push_back({"one-node", "all diagrams of 1 node (arcs to sinks or unset), all variables of 3, five orders of building", 9, [](long u) { diagrams(1, u, true, 5, 3); }});
    s.push_back({"two-nodes", "all diagrams of 2 nodes (arcs to the later node, sinks or unset), all non-decreasing variables of 3, five orders of building", 16, [](long u) { diagrams(2, u, true, 5, 3); }});
    if (A) s.push_back({"three-nodes", "all diagrams of 3 nodes, unset arcs included, all non-decreasing variables of 3, five orders", 25, [](long u) { diagrams(3, u, true, 5, 3); }});
    if (A) s.push_back({"four-nodes", T ? "all diagrams of 4 nodes, unset arcs included" : "all diagrams of 4 nodes without unset arcs, variables non-decreasing of 3, order rotating", T ? 36 : 25, [T](long u) { diagrams(4, u, T, 1, 3); }});
    s.push_back({"functions-3var", "the diagrams of all 256 functions of 3 variables in five orders, after 0..3 other BDDs, each complete with 7 kinds of further operations and with each arc left out", 256, [](long u) { for (int o = 0; o < 5; ++o) for (int l = 0; l < 4; ++l) function(u, 3, o, l); }});
    s.push_back({"functions-4var", "the diagrams of functions of 4 variables", T ? 512 : 32, [](long u) { for (int k = 0; k < 32; ++k) function(scatter(u * 32 + k) & 0xffff, 4, k % 5, k % 4); }, 60});
    s.push_back({"redirect-3var", "every arc of the complete diagrams of all functions of 3 variables, built by hand, imported, conjoined, relaxed, redirected to every later node and both sinks by handle and by setter, and back", 256, [](long u) { if (u && u != 255) for (int how = 0; how < 4; ++how) redirect(u, 3, how); }, 60});
    s.push_back({"redirect-4var", "the same for functions of 4 variables of a covering design", T ? 512 : 64, [T](long u) { for (int k = 0; k < 16; ++k) { TT t = scatter(u * 16 + k) & 0xffff; if (t && t != 0xffff) redirect(t, 4, k % 4); } }, 60});
    const int D = A ? (T ? 6 : 5) : 4; s.push_back({"sequences", "all sequences of " + std::to_string(D) + " steps out of 12 (building, with failed closing in between, imports, conjunctions, removals)", 12, [D](long u) { sequence(u, D); }});
    { const size_t M = A ? (T ? 2049 : 1025) : 129; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 4, [](long u) { ref::Far far(ref::FAR[u % 3]); scale(6, int(u / 3 % 12), int(u / 36)); }, 120});
      s.push_back({"scale", "12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + " built by hand in four orders, an arc forgotten first in three of them", long(z.size()) * 48, [z](long u) { scale(z[u / 48], int(u / 4 % 12), int(u % 4)); }, 120}); }
    { const int K = mc::memory_controlled() ? (T ? 16 : 15) : 5; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + " (about 3 * 2^k nodes), built by hand in four orders", long(K - 3) * 2 * 4, [](long u) { const size_t n = 2 * (4 + size_t(u / 8)); const int kind = ref::WIDE + int(u / 4 % 2), r = int(u % 4); scale(n, kind, r); }, 240}); }
    return s;
}
