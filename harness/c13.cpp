// C13: import into and export from a collection preserve the BDD.
#include "ref.h"
using namespace kit; using namespace BDD;

namespace {
const Pos P3 = {0, 2, 3}, Q3 = {1, 2, 4};
struct Item { size_t nr; TT t; Pos pos; node_ref ref; Stored s; };

void back(bdd_collection& c, const Item& x, bdd_mgr& own, bdd_mgr& other) {
    mc::steps(3); node_ref e = c.export_bdd(own, x.nr);
    MC_CHECK(e == x.ref, "exporting %s (index %zu of %zu) gives another reference", str(x.t, x.pos.size()).c_str(), x.nr, c.nr_bdds());
    add_vars(other, x.pos.back() + 1); // exporting needs the variables
    node_ref o = c.export_bdd(other, x.nr), canon = build(other, x.t, x.pos);
    MC_CHECK(o == canon && eval_tt(o, x.pos, other.nr_variables()) == x.t, "exporting %s (index %zu of %zu) into another manager gives %s", str(x.t, x.pos.size()).c_str(), x.nr, c.nr_bdds(), str(eval_tt(o, x.pos, other.nr_variables()), x.pos.size()).c_str());
    node_ref a = other.add_bdd(c, x.nr);
    MC_CHECK(a == canon, "adding %s (index %zu of %zu) to another manager gives another reference", str(x.t, x.pos.size()).c_str(), x.nr, c.nr_bdds());
    node_ref b = own.add_bdd(c, x.nr);
    MC_CHECK(b == x.ref, "adding %s (index %zu of %zu) to its own manager gives another reference", str(x.t, x.pos.size()).c_str(), x.nr, c.nr_bdds());
}
Item add(bdd_collection& c, bdd_mgr& m, TT t, const Pos& pos) {
    node_ref r = build(m, t, pos); const size_t n = c.nr_bdds(), nodes = m.nr_nodes(); 
    std::unordered_map<node*, size_t> refs; for (auto& x : r.nodes_postorder()) refs[x.address()] = x.reference_count();
    size_t nr = c.add_bdd(r); mc::steps(); MC_NOTE("add %s at %zu", str(t, pos.size()).c_str(), pos[0]);
    MC_CHECK(nr == n && c.nr_bdds() == n + 1 && c.size() == n + 1, "adding gives index %zu, %zu BDDs were stored, %zu now", nr, n, c.nr_bdds());
    MC_CHECK(m.nr_nodes() == nodes, "adding changed the manager");
    for (auto& x : r.nodes_postorder()) MC_CHECK(refs[x.address()] == x.reference_count(), "adding changed reference counts");
    check_stored(c, nr, t, pos, "added BDD");
    return {nr, t, pos, r, stored(c, nr)};
}
// one function: fresh everything; the other manager has none of the variables yet
void single(TT t, const Pos& pos) {
    bdd_mgr m, o, p; add_vars(m, pos.back() + 1); bdd_collection c; Item x = add(c, m, t, pos);
    node_ref a = p.add_bdd(c, x.nr); size_t need = support(t, pos.size()).empty() ? 0 : pos[support(t, pos.size()).back()] + 1;
    MC_CHECK(p.nr_variables() >= need, "variables not added"); add_vars(p, pos.back() + 1);
    MC_CHECK(a == build(p, t, pos), "adding %s to an empty manager gives %s", str(t, pos.size()).c_str(), str(eval_tt(a, pos, p.nr_variables()), pos.size()).c_str());
    back(c, x, m, o); check_stored(c, x.nr, t, pos, "after export"); mc::state(mc::mix(t, mc::mix(pos[0], pos.size())));
}
// sequences of imports of a pool, from two managers, with collections of the managers in between
void sequence(int first, int npool, int depth) {
    static const TT pool[12] = {0x00, 0xff, 0xaa, 0x96, 0xca, 0xf0, 0x80, 0xfe, 0x0f, 0xe8, 0x3c, 0x18};
    bdd_mgr m[2], o; add_vars(m[0], 5); add_vars(m[1], 5); bdd_collection c; std::vector<Item> items; std::vector<int> owner;
    for (int i = 0; i < depth; ++i) {
        int k = i == 0 ? first : mc::choose(npool * 2, "import"); int w = (k + i) % 2;
        items.push_back(add(c, m[w], pool[k / 2], k % 2 ? P3 : Q3)); owner.push_back(w);
        if (k % 3 == 2) m[w].collect_garbage();
        for (auto& x : items) MC_CHECK(stored(c, x.nr) == x.s, "adding BDD %d changed the stored BDD %zu", i, x.nr);
    }
    for (size_t i = 0; i < items.size(); ++i) { back(c, items[i], m[owner[i]], o); check_stored(c, items[i].nr, items[i].t, items[i].pos, "earlier BDD"); }
    uint64_t h = depth; for (auto& x : items) h = mc::mix(h, x.t * 8 + x.pos[0]); mc::state(h);
}
// many stored BDDs: the interesting one comes at every position around round instruction counts
void many(long u, int lead) {
    bdd_mgr m, o; add_vars(m, 6); bdd_collection c; const Pos p4 = {0, 1, 3, 5}; std::vector<Item> items; size_t instr = 0; int k = 0;
    auto put = [&](TT t) { node_ref r = build(m, t, p4); size_t nr = c.add_bdd(r); items.push_back({nr, t, p4, r, {}}); instr += bdd_size(t, 4) + 2; };
    while (instr + 3 <= size_t(lead)) put(k++ % 2 ? tvar(k % 4, 4) : 0x8000); // 3 and 6 instructions
    while (instr < size_t(lead) && instr + 2 <= size_t(lead)) put(k++ % 2 ? 0 : ones(4));
    MC_NOTE("%zu instructions stored", instr);
    const size_t before = items.size();
    for (int j = 0; j < 6; ++j) { TT t = j == 0 ? 0x6996 : j == 1 ? ones(4) : j == 2 ? 0 : scatter(u * 6 + j) & 0xffff; items.push_back(add(c, m, t, p4)); back(c, items.back(), m, o); }
    for (size_t i = 0; i < items.size(); i += i + 12 < before && i > 3 ? 7 : 1) { MC_CHECK(eval_tt(c, i, p4, 6) == items[i].t, "BDD %zu of %zu changed", i, items.size()); back(c, items[i], m, o); }
    mc::state(mc::mix(lead, u));
}
void large(int n) {
    bdd_mgr m, o, e; std::vector<node_ref> x; for (int i = 0; i < n; ++i) x.push_back(m.projection(i)); 
    bdd_collection c; std::vector<node_ref> f{m.at_most(x.begin(), x.end(), n / 2), m.simplex(x.begin(), x.end()), m.at_least(x.begin(), x.end(), n), m.negate(m.at_least(x.begin(), x.end(), n / 3 + 1))};
    for (int r = 0; r < 3; ++r) for (size_t i = 0; i < f.size(); ++i) {
        size_t nr = c.add_bdd(f[i]); MC_CHECK(c.nr_bdd_nodes(nr) == f[i].nr_nodes() + 2 && nr == r * f.size() + i, "index or node count wrong");
        check_stored_structure(c, nr, "large BDD"); MC_CHECK(c.export_bdd(m, nr) == f[i], "export gives another reference"); MC_CHECK(m.add_bdd(c, nr) == f[i], "adding back gives another reference");
        node_ref a = e.add_bdd(c, nr); add_vars(e, n); MC_CHECK(c.export_bdd(e, nr) == a, "exporting and adding to another manager differ");
        std::vector<node_ref> y; for (int k = 0; k < n; ++k) y.push_back(e.projection(k));
        node_ref w = i == 0 ? e.at_most(y.begin(), y.end(), n / 2) : i == 1 ? e.simplex(y.begin(), y.end()) : i == 2 ? e.at_least(y.begin(), y.end(), n) : e.negate(e.at_least(y.begin(), y.end(), n / 3 + 1));
        MC_CHECK(w == a, "adding to another manager gives another reference than rebuilding"); mc::steps(5);
        if (r == 1) { e.collect_garbage(); m.collect_garbage(); }
    }
    mc::state(n);
}
void scale(size_t n, int kind, int place) {
    ref::Store s; const auto V = ref::vars(n, place); const ref::Id f = ref::shape(s, kind, V), g = ref::shape(s, (kind + 5) % ref::SHAPES, V); bdd_mgr m; add_vars(m, V.back() + 1); node_ref F = ref::make(m, s, f), G = ref::make(m, s, g); bdd_collection c; mc::steps(12);
    const size_t i = c.add_bdd(F), j = c.add_bdd(G), k = c.add_bdd(F); MC_CHECK(i == 0 && j == 1 && k == 2 && c.nr_bdds() == 3, "indices of added BDDs");
    for (int round = 0; round < 2; ++round) {
        for (auto& p : {std::make_pair(i, f), std::make_pair(j, g), std::make_pair(k, f)}) { ref::stored_is(s, c, p.first, p.second, "added BDD", n); ref::evaluates(s, c, p.first, p.second, V, V.back() + 1, "added BDD"); }
        MC_CHECK(c.export_bdd(m, i) == F && c.export_bdd(m, j) == G && m.add_bdd(c, k) == F && m.add_bdd(c, j) == G, "%zu variables: export gives another reference", n);
        bdd_mgr q; add_vars(q, V.back() + 1); node_ref a = c.export_bdd(q, k), b = q.add_bdd(c, i); ref::is(s, a, f, "exported BDD", n); MC_CHECK(a == b, "export and adding give different references"); ref::is(s, q.add_bdd(c, j), g, "BDD added to a manager", n);
        bdd_mgr r; ref::is(s, r.add_bdd(c, j), g, "BDD added to a manager without variables", n); bdd_collection d; d.add_bdd(b); ref::stored_is(s, d, 0, f, "BDD after a round trip", n);
    }
    ref::is(s, F, f, "source", n); ref::is(s, G, g, "source", n); mc::nontrivial(); mc::state(mc::mix(n, kind * 16 + place));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(); std::vector<mc::Scenario> s;
    s.push_back({"single-3var", "all 256 functions of 3 variables at all 20 placements among 6 variables, fresh collection and managers; exported into and added to the own, another and an empty manager", 20 * 8,
        [](long u) { static const auto pl = placements(3, 6); for (int k = 0; k < 32; ++k) single(u % 8 * 32 + k, pl[u / 8]); }});
    if (A) s.push_back({"single-4var", T ? "all 65536 functions of 4 variables" : "8192 functions of 4 variables", T ? 512 : 64, [](long u) { for (int k = 0; k < 128; ++k) single(scatter(u * 128 + k) & 0xffff, {0, 1, 2, 4}); }});
    const int D = A ? (T ? 5 : 4) : 3, NP = A ? 8 : 6;
    s.push_back({"sequences", "all sequences of " + std::to_string(D) + " imports out of " + std::to_string(2 * NP) + " BDDs (constants included) from two managers with collections in between", 2 * NP, [=](long u) { sequence(u, NP, D); }});
    if (A) s.push_back({"import-pairs", "all pairs of imports out of 24 BDDs", 24, [](long u) { sequence(u, 12, 2); }});
    std::vector<int> leads; for (int b : {64, 128, 256, 512, 1000, 1024, 2000, 2048, 3000, 4096}) for (int d = -16; d <= 3; ++d) leads.push_back(b + d); if (!A) { std::vector<int> l; for (size_t i = 0; i < leads.size(); i += 13) l.push_back(leads[i]); leads = l; }
    if (T && A) for (int b = 4; b < 1100; ++b) leads.push_back(b);
    s.push_back({"many", "imports after so many stored instructions (" + std::to_string(leads.size()) + " counts around round numbers up to 4096" + (T && A ? " and all up to 1100" : "") + "); every kind of BDD there and all earlier ones exported", long(leads.size()), [leads](long u) { many(u, leads[u]); }, 120});
    s.push_back({"large", "counting functions of 2..16 variables, three times each", 15, [](long u) { large(2 + int(u)); }, 60});
    { const size_t M = A ? (T ? 8193 : 2049) : 129; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 4, [](long u) { ref::Far far(ref::FAR[u % 3]); scale(6, int(u / 3 % 12), int(u / 36)); }, 120});
      s.push_back({"scale", "12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ", there and back, against an independent diagram store", long(z.size()) * 12, [z](long u) { scale(z[u / 12], int(u % 12), int((u % 12 + u / 12) % 4)); }, 120}); }
    { const int K = mc::memory_controlled() ? (T ? 16 : 15) : 6; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + " (about 3 * 2^k nodes), there and back", long(K - 3) * 2 * 2, [](long u) { const size_t n = 2 * (4 + size_t(u / 4)); const int kind = ref::WIDE + int(u / 2 % 2), r = int(u % 2); scale(n, kind, r); }, 240}); }
    return s;
}
