// C15: node limit of collection conjunction.
#include "ref.h"
#include <deque>
using namespace kit; using namespace BDD;

namespace {
size_t conj(bdd_collection& c, const std::vector<size_t>& o, size_t limit, int form) {
    mc::steps();
    if (o.size() == 2 && form % 3 == 0) return c.bdd_and(o[0], o[1], limit);
    if (o.size() == 2 && form % 3 == 1) return c.bdd_and(int(o[0]), int(o[1]), limit);
    if (form % 2) { std::deque<size_t> l(o.begin(), o.end()); return c.bdd_and(l.begin(), l.end(), limit); }
    return c.bdd_and(o.begin(), o.end(), limit);
}
// one limited conjunction; result removed again if `undo`
bool attempt(bdd_collection& c, const std::vector<size_t>& o, size_t limit, size_t nodes, const Stored* want, int form, bool undo) {
    const size_t n = c.nr_bdds(); const std::vector<Stored> before = all_stored(c);
    size_t r = conj(c, o, limit, form); const bool ok = nodes <= limit;
    if (!ok) {
        MC_CHECK(r == NONE, "limit %zu, result has %zu nodes with its sinks: returns %zu instead of the largest number", limit, nodes, r);
        MC_CHECK(c.nr_bdds() == n && all_stored(c) == before, "a failed attempt (limit %zu, %zu nodes) changed the collection", limit, nodes);
        return false;
    }
    MC_CHECK(r != NONE, "limit %zu, result has %zu nodes with its sinks: fails", limit, nodes);
    MC_CHECK(r == n && c.nr_bdds() == n + 1, "limit %zu: index %zu, %zu BDDs were stored", limit, r, n);
    MC_CHECK(c.nr_bdd_nodes(r) == nodes, "limit %zu: result has %zu nodes instead of %zu", limit, c.nr_bdd_nodes(r), nodes);
    if (want) MC_CHECK(same_diagram(stored(c, r), *want), "limit %zu: another result than without limit", limit);
    for (size_t i = 0; i < n; ++i) MC_CHECK(stored(c, i) == before[i], "stored BDD %zu changed", i);
    if (undo) { std::vector<size_t> x{r}; c.remove(x.begin(), x.end()); MC_CHECK(all_stored(c) == before, "removing the result does not restore the collection"); }
    return true;
}
std::vector<size_t> limits(int order, size_t nodes) {
    std::vector<size_t> l; for (size_t i = 3; i <= nodes + 2; ++i) l.push_back(i); l.push_back(NONE);
    if (order == 1) std::reverse(l.begin(), l.end());
    if (order == 2) { std::vector<size_t> k; for (size_t i = 0, j = l.size(); i < j;) { k.push_back(l[--j]); if (i < j) k.push_back(l[i++]); } l = k; }
    return l;
}
void run(bdd_collection& c, const std::vector<size_t>& o, const std::vector<TT>& t, const Pos& pos, int order, int form) {
    TT w = ones(int(pos.size())); for (TT x : t) w &= x; const size_t nodes = bdd_size(w, int(pos.size())) + 2;
    if (mc::tracing) { std::string s; for (TT x : t) s += " " + str(x, pos.size()); MC_NOTE("%s: %zu nodes, order %d", s.c_str(), nodes, order); }
    Stored want; bdd_collection ref; std::vector<size_t> ro; { for (TT x : t) ro.push_back(put(ref, x, pos)); size_t r = ref.bdd_and(ro.begin(), ro.end()); check_stored(ref, r, w, pos, "unlimited conjunction"); want = stored(ref, r); }
    int k = 0; for (size_t l : limits(order, nodes)) { attempt(c, o, l, nodes, &want, form + k, (k + form) % 2 == 0); ++k; }
    // after all the failures an unlimited call and other operations behave normally
    size_t r = conj(c, o, NONE, form); MC_CHECK(same_diagram(stored(c, r), want), "unlimited conjunction after limited ones differs");
    size_t z = put(c, 0x1b, {0, 1, 2}); check_stored(c, z, 0x1b, {0, 1, 2}, "BDD added after limited conjunctions");
    for (size_t i = 0; i < o.size(); ++i) check_stored(c, o[i], t[i], pos, "operand");
    mc::nontrivial(nodes > 3);
}
static const TT pool[12] = {0xaa, 0xcc, 0xfe, 0x7f, 0xe8, 0x3f, 0x96, 0xf6, 0xff, 0x00, 0x1b, 0xdb};
void tuple(std::vector<int> idx, int npool, int n) {
    static const Pos pos = {0, 2, 3}; while (int(idx.size()) < n) idx.push_back(mc::choose(npool, "operand"));
    bdd_collection c; for (int i = 0; i < npool; ++i) put(c, pool[i], pos); std::vector<size_t> o; std::vector<TT> t; for (int i : idx) { o.push_back(i); t.push_back(pool[i]); }
    run(c, o, t, pos, (idx[0] + idx.back()) % 3, idx[1]); uint64_t h = n; for (int i : idx) h = mc::mix(h, i); mc::state(h);
}
// sequences of limited conjunctions on different operands: failures and successes in every order
void sequence(int first, int depth) {
    static const Pos pos = {0, 1, 2}; std::vector<TT> t{0xe8, 0xfe, 0x7e, 0x96}; bdd_collection c; for (TT x : t) put(c, x, pos);
    for (int d = 0; d < depth; ++d) {
        const int n = int(t.size()); int a = d == 0 ? first : mc::choose(36, "operands and limit"); static const int pr[6][2] = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {-1, 0}, {-1, -2}};
        std::vector<size_t> o; for (int k : pr[a / 6]) o.push_back(k < 0 ? n + k : k); if (a % 2) o.push_back(1);
        TT w = 0xff; for (size_t x : o) w &= t[x]; size_t nodes = bdd_size(w, 3) + 2, limit = a % 6 == 5 ? NONE : 3 + a % 6;
        MC_NOTE("#%zu and #%zu%s, limit %zu (%zu nodes)", o[0], o[1], o.size() > 2 ? " and #1" : "", limit, nodes);
        if (attempt(c, o, limit, nodes, nullptr, a, false)) { t.push_back(w); check_stored(c, t.size() - 1, w, pos, "conjunction"); }
    }
    for (size_t i = 0; i < t.size(); ++i) check_stored(c, i, t[i], pos, "stored BDD");
    uint64_t h = 7; for (TT x : t) h = mc::mix(h, x); mc::state(h);
}
void large(int n, int kf, int kg, int ops) {
    bdd_mgr m; std::vector<node_ref> x, ev; for (int i = 0; i < n; ++i) { x.push_back(m.projection(i)); if (i % 2 == 0) ev.push_back(x.back()); }
    auto mk = [&](int k) -> node_ref { switch (k) {
        case 0: return m.at_most(x.begin(), x.end(), n / 2); case 1: return m.at_least(x.begin(), x.end(), n / 3); case 2: return m.cardinality(x.begin(), x.end(), n / 2);
        case 3: return m.simplex(ev.begin(), ev.end()); case 4: { node_ref r = m.botsink(); for (int i = 0; i + 1 < n; i += 2) r = m.or_rec(r, m.and_rec(x[i], x[i + 1])); return r; }
        default: { node_ref r = m.topsink(); for (int i = 0; 2 * i + 1 < n; ++i) r = m.and_rec(r, m.or_rec(x[i], x[n - 1 - i])); return r; } } };
    bdd_collection c; node_ref f = mk(kf), g = mk(kg), w = m.and_rec(f, g); size_t a = c.add_bdd(f), b = c.add_bdd(g); const size_t nodes = w.nr_nodes() + 2;
    std::vector<size_t> o{a, b}; if (ops == 3) o.push_back(c.add_bdd(m.or_rec(f, x[0]))); bdd_collection ref(c); size_t r = ref.bdd_and(a, b); MC_CHECK(ref.export_bdd(m, r) == w, "conjunction wrong"); 
    for (size_t l : limits((kf + kg) % 3, nodes)) if (l < 12 || l + 8 > nodes || l % 7 == 0) attempt(c, o, l, nodes, nullptr, int(l % 2), true);
    size_t u = conj(c, o, NONE, 0); MC_CHECK(c.export_bdd(m, u) == w, "conjunction after limited attempts is wrong");
    MC_NOTE("%d variables, %zu nodes", n, nodes); mc::state(mc::mix(n, kf * 64 + kg * 8 + ops));
}
void scale(size_t n, int a, int b, int arity) {
    ref::Store s; const auto V = ref::vars(n, (a + b) % 4); const ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, V), w = s.land(f, g); bdd_collection c; std::vector<size_t> o{ref::put(c, s, f), ref::put(c, s, g)}; while (int(o.size()) < arity) o.push_back(o[o.size() % 2]); const size_t nodes = s.size(w) + 2;
    std::set<size_t> ls{3, 4, nodes - 1, nodes, nodes + 1, nodes / 2, 65535, 65536, 65537, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 3, NONE - 1, NONE}; for (size_t p = 4; p < nodes; p *= 2) { ls.insert(p); ls.insert(p + 2); }
    for (size_t l : ls) if (l > 2) { mc::beat(); attempt(c, o, l, nodes, nullptr, int(l % 5), true); }
    for (size_t l : {nodes - 1, nodes, NONE}) if (l > 2 && attempt(c, o, l, nodes, nullptr, 1, false)) ref::stored_is(s, c, c.nr_bdds() - 1, w, "limited conjunction", n);
    mc::nontrivial(nodes > 10); mc::state(mc::mix(n, a * 64 + b));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s;
    for (int o = 0; o < (T ? 3 : 1); ++o) s.push_back({std::string("pairs-3var") + (o ? "-" + std::to_string(o) : ""), "all 65536 pairs of functions of 3 variables, every limit from 3 to the size + 2 in rotating order (ascending, descending, alternating), fresh collection each", 256,
        [o](long u) { static const Pos pos = {0, 2, 3}; for (TT b = 0; b < 256; ++b) { bdd_collection c; put(c, 0x35, pos); size_t i = put(c, u, pos), j = put(c, b, pos); run(c, {i, j}, {TT(u), b}, pos, int((u + b + o) % 3), int(b)); mc::state(mc::mix(u, b)); } }, 60});
    s.push_back({"triples", "all triples out of 12 functions of 3 variables, every limit", 144, [](long u) { tuple({int(u / 12), int(u % 12)}, 12, 3); }});
    for (int n = 4; n <= 6; ++n) { int p = n == 4 ? (T ? 12 : 8) : n == 5 ? (T ? 9 : 5) : (T ? 6 : 4); s.push_back({"tuples-" + std::to_string(n), "all lists of " + std::to_string(n) + " out of " + std::to_string(p) + " functions, every limit", p * p, [=](long u) { tuple({int(u / p), int(u % p)}, p, n); }}); }
    for (int n = 4; n <= (T ? 9 : 8); ++n) { const int p = n == 4 ? (T ? 12 : 8) : n == 5 ? (T ? 8 : 5) : n == 6 ? (T ? 6 : 3) : T && n < 9 ? 4 : n == 7 ? 3 : 2; s.push_back({"tuples-" + std::to_string(n), "all lists of " + std::to_string(n) + " out of " + std::to_string(p) + " functions of 3 variables, every limit", p * p, [=](long u) { tuple({int(u / p), int(u % p)}, p, n); }}); }
    const int D = T ? 5 : 4; s.push_back({"sequences", "all sequences of " + std::to_string(D) + " conjunctions out of 36 (two or three operands, earlier results included, limits 3..7 and none)", 36, [D](long u) { sequence(int(u), D); }});
    s.push_back({"pairs-4var", "functions of 4 variables of a covering design, every limit", T ? 512 : 128, [](long u) { static const Pos pos = {0, 1, 3, 4}; for (int k = 0; k < 64; ++k) { TT a = scatter(u * 64 + k) & 0xffff, b = (scatter(a + k) | scatter(a * 3 + 1)) & 0xffff; bdd_collection c; size_t i = put(c, a, pos), j = put(c, b, pos); run(c, {i, j}, {a, b}, pos, k % 3, k); mc::state(mc::mix(a, b)); } }, 60});
    const int N = T ? 14 : 11; s.push_back({"large", "all pairs of six kinds of functions of 4.." + std::to_string(N) + " variables, two and three operands", (N - 3) * 72, [](long u) { large(4 + int(u / 72), u % 6, u / 6 % 6, 2 + int(u / 36 % 2)); }, 60});
    { const size_t M = T ? 1025 : 257; std::vector<std::array<int, 4>> u; for (size_t n : ref::sizes(M)) for (int a = 0; a < ref::SHAPES; ++a) for (int b = 0; b < ref::SHAPES; ++b) if ((n < 70 || ref::pair_at(n * 8, a, b)) && (T || (a * 5 + b * 7 + n) % (n < 70 ? 3 : 5) == 0)) u.push_back({int(n), a, b, (a + b) % 3 ? 2 : 3 + int(n % 3)});
      s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 6, [](long u) { ref::Far far(ref::FAR[u % 3]); const int a = int(u / 3 % 12), b = int((a + 1 + u / 36 * 2) % 12); scale(6, a, b, 2 + int(u % 4)); }, 120});
      s.push_back({"scale", "pairs of 12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + " (2 to 5 operands), limits around the size, powers of two and very large ones, against an independent diagram store", long(u.size()), [u](long i) { scale(u[i][0], u[i][1], u[i][2], u[i][3]); }, 120}); }
    { const int K = T ? 14 : 12; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + ", and one of 12 kinds or the other, two or three operands", long(K - 3) * 26, [](long u) { scale(2 * size_t(4 + u / 26), ref::WIDE + int(u / 13 % 2), u % 13 == 12 ? (u / 13 % 2 ? ref::WIDE : ref::WIDE + 1) : int(u % 13), 2 + int(u % 5 == 3)); }, 240}); }
    return s;
}
