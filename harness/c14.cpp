// C14: conjunction inside a collection.
#include "ref.h"
#include <deque>
using namespace kit; using namespace BDD;

namespace {
size_t conj(bdd_collection& c, const std::vector<size_t>& o, int form) {
    mc::steps();
    if (o.size() == 2 && form % 6 == 1) return c.bdd_and(o[0], o[1]);
    if (o.size() == 2 && form % 6 == 2) return c.bdd_and(int(o[0]), int(o[1]));
    switch (form % 4) {
        case 0: return c.bdd_and(o.begin(), o.end());
        case 1: { std::deque<size_t> l(o.begin(), o.end()); return c.bdd_and(l.begin(), l.end()); }
        case 2: { std::vector<int> v(o.begin(), o.end()); return c.bdd_and(v.begin(), v.end()); }
        default: { const size_t* p = o.data(); return c.bdd_and(p, p + o.size()); }
    }
}
struct Obs { std::vector<Stored> before; explicit Obs(const bdd_collection& c) : before(all_stored(c)) {} 
    void others(const bdd_collection& c, const char* who) const { for (size_t i = 0; i < before.size(); ++i) MC_CHECK(stored(c, i) == before[i], "%s changed the stored BDD %zu", who, i); } };

void check(bdd_collection& c, bdd_mgr& m, const std::vector<size_t>& o, const std::vector<TT>& t, const Pos& pos, int form, bool agree) {
    const size_t n = c.nr_bdds(); Obs obs(c); TT want = ones(int(pos.size())); for (TT x : t) want &= x;
    if (mc::tracing) { std::string s; for (size_t i = 0; i < o.size(); ++i) s += " #" + std::to_string(o[i]) + "=" + str(t[i], pos.size()); MC_NOTE("conjunction of%s", s.c_str()); }
    size_t r = conj(c, o, form);
    if (o.size() == 1) { MC_CHECK(r == o[0] && c.nr_bdds() == n, "conjunction of the single BDD %zu gives index %zu", o[0], r); obs.others(c, "conjunction"); return; }
    MC_CHECK(r == n && c.nr_bdds() == n + 1, "conjunction gives index %zu of %zu BDDs, %zu were stored before", r, c.nr_bdds(), n);
    check_stored(c, r, want, pos, "conjunction"); obs.others(c, "conjunction");
    if (agree) { add_vars(m, pos.back() + 1); node_ref x = c.export_bdd(m, o[0]); for (size_t i = 1; i < o.size(); ++i) x = m.and_rec(x, c.export_bdd(m, o[i])); MC_CHECK(c.export_bdd(m, r) == x, "collection's and manager's conjunction differ"); }
}
void pairs(TT a, const Pos& pos, bool shared) {
    bdd_mgr m; bdd_collection one; 
    for (TT b = 0; b < 256; ++b) {
        bdd_collection fresh; bdd_collection& c = shared ? one : fresh; 
        if (!shared || b == 0) put(c, 0xe8, pos);
        size_t i = put(c, a, pos), j = put(c, b, pos);
        check(c, m, {i, j}, {a, b}, pos, int(b), (a ^ b) % 4 == 0);
        mc::state(mc::mix(a, b));
        if (shared && b % 16 == 15) { std::vector<size_t> idx; for (size_t k = 1; k + 2 < c.nr_bdds(); ++k) idx.push_back(k); c.remove(idx.begin(), idx.end()); }
    }
}
static const TT pool[16] = {0xaa, 0xcc, 0xf0, 0x00, 0xff, 0x55, 0x96, 0xe8, 0xc0, 0x1b, 0x33, 0x3c, 0xfe, 0xef, 0x7f, 0x18};
// operands out of a pool stored in one collection, repetitions allowed
void tuple(std::vector<int> idx, int npool, int n) {
    static const Pos pos = {0, 2, 3}; while (int(idx.size()) < n) idx.push_back(mc::choose(npool, "operand"));
    bdd_mgr m; bdd_collection c; for (int i = 0; i < npool; ++i) put(c, pool[i], pos);
    std::vector<size_t> o; std::vector<TT> t; for (int i : idx) { o.push_back(i); t.push_back(pool[i]); }
    check(c, m, o, t, pos, idx[0] + idx.back(), idx[0] == 0); mc::nontrivial(n > 1); uint64_t h = n; for (int i : idx) h = mc::mix(h, i); mc::state(h);
}
// all lists of n out of the first p BDDs, the first two given, within one collection
void group(int n, int p, int first, int second) {
    static const Pos pos = {0, 2, 3}; static const TT G[4] = {0xfe, 0xca, 0xe8, 0x7f}; bdd_collection c; for (int i = 0; i < p; ++i) put(c, G[i], pos); const auto before = all_stored(c);
    std::map<TT, Stored> canon; std::vector<size_t> o(n, 0); o[0] = first; o[1] = second; long lists = 0;
    for (;;) {
        TT w = 0xff; for (size_t i : o) w &= G[i]; const size_t r = c.bdd_and(o.begin(), o.end()); MC_CHECK(r == c.nr_bdds() - 1 && r == p + size_t(lists % 32), "result has index %zu", r); mc::steps();
        auto it = canon.find(w); if (it == canon.end()) { check_stored(c, r, w, pos, "conjunction"); canon[w] = stored(c, r); } else if (!same_diagram(stored(c, r), it->second)) { std::string x; for (size_t i : o) x += " " + str(G[i], 3); mc::fail("conjunction of%s is wrong", x.c_str()); }
        if (++lists % 32 == 0) { for (int i = 0; i < p; ++i) MC_CHECK(stored(c, i) == before[i], "stored BDD %d changed", i); std::vector<size_t> x; for (size_t k = p; k < c.nr_bdds(); ++k) x.push_back(k); c.remove(x.begin(), x.end()); mc::beat(); }
        int k = n - 1; while (k > 1 && int(o[k]) == p - 1) { o[k] = 0; --k; } if (k == 1) break; ++o[k];
    }
    mc::nontrivial(); mc::state(mc::mix(n + 1000, p * 64 + first * 8 + second));
}
// n operands over n variables, one special at every position
void wide(int n, int special, int order) {
    bdd_mgr m; add_vars(m, n + 1); bdd_collection c; c.add_bdd(m.xor_rec(m.projection(0), m.projection(n)));
    std::vector<size_t> base; std::vector<int> at; 
    auto lit = [&](int k) -> node_ref { int v = order == 0 ? k : order == 1 ? n - 1 - k : k % 2 ? n - 1 - k / 2 : k / 2; at.push_back(v); return special == 3 ? m.or_rec(m.projection(v), m.projection(v + 1)) : m.projection(v); };
    std::vector<node_ref> f; for (int k = 0; k < n; ++k) { f.push_back(lit(k)); base.push_back(c.add_bdd(f.back())); }
    size_t bot = c.add_bdd(m.botsink()), top = c.add_bdd(m.topsink());
    for (int p = 0; p < n; ++p) {
        std::vector<size_t> o(base); std::vector<node_ref> g(f);
        if (special == 0) { g[p] = m.negate(f[p]); o[p] = c.add_bdd(g[p]); } else if (special == 1) { g[p] = m.botsink(); o[p] = bot; } else if (special == 2) { g[p] = m.topsink(); o[p] = top; } else { g[p] = f[(p + 1) % n]; o[p] = base[(p + 1) % n]; }
        node_ref want = g[n - 1]; for (int i = n - 2; i >= 0; --i) want = m.and_rec(g[i], want);
        const size_t k = c.nr_bdds(); MC_NOTE("%d operands, operand %d special of kind %d", n, p, special);
        size_t r = conj(c, o, p);
        if (n == 1) { MC_CHECK(r == o[0] && c.nr_bdds() == k, "conjunction of one BDD gives another index"); continue; }
        MC_CHECK(r == k && c.nr_bdds() == k + 1, "conjunction of %d BDDs gives index %zu, %zu were stored", n, r, k);
        size_t dec = check_stored_structure(c, r, "conjunction"); MC_CHECK(dec == want.nr_nodes(), "conjunction of %d BDDs has %zu nodes instead of %zu", n, dec, want.nr_nodes());
        MC_CHECK(c.export_bdd(m, r) == want, "conjunction of %d BDDs, operand %d of kind %d, is wrong", n, p, special);
        if (p % 8 == 7) { Obs obs(c); std::vector<size_t> x{r}; c.remove(x.begin(), x.end()); }
    }
    for (int k = 0; k < n; ++k) MC_CHECK(c.export_bdd(m, base[k]) == f[k], "operand %d changed", k);
    mc::state(mc::mix(n, special * 4 + order));
}
// conjunctions of earlier conjunctions
void chain(int a, int b, int depth) {
    static const Pos pos = {1, 2, 4}; bdd_mgr m; bdd_collection c; std::vector<TT> t{0xfe, 0xca, 0x7f, 0x35}; for (TT x : t) put(c, x, pos);
    auto step = [&](int i, int j) { const int n = int(t.size()); std::vector<size_t> o{size_t(i % n), size_t((n - 1) - j % n)}; std::vector<TT> u{t[o[0]], t[o[1]]}; if ((i + j) % 3 == 0) { o.push_back(n - 1); u.push_back(t[n - 1]); } check(c, m, o, u, pos, i + j, true); TT w = u[0]; for (TT x : u) w &= x; t.push_back(w); };
    step(a, b); for (int d = 1; d < depth; ++d) { int n = int(t.size()); int i = mc::choose(n, "operand"); step(i, mc::choose(n, "operand")); }
    for (size_t i = 0; i < t.size(); ++i) check_stored(c, i, t[i], pos, "stored BDD");
    uint64_t h = 1; for (TT x : t) h = mc::mix(h, x); mc::state(h);
}
void large(int n, int kf, int kg, int kh) {
    bdd_mgr m; std::vector<node_ref> x, ev; for (int i = 0; i < n; ++i) { x.push_back(m.projection(i)); if (i % 2 == 0) ev.push_back(x.back()); }
    auto mk = [&](int k) -> node_ref { switch (k) {
        case 0: return m.at_most(x.begin(), x.end(), n / 2); case 1: return m.at_least(x.begin(), x.end(), n / 3); case 2: return m.cardinality(x.begin(), x.end(), n / 2);
        case 3: return m.simplex(ev.begin(), ev.end()); case 4: { node_ref r = m.botsink(); for (int i = 0; i + 1 < n; i += 2) r = m.or_rec(r, m.and_rec(x[i], x[i + 1])); return r; }
        default: { node_ref r = m.topsink(); for (int i = 0; 2 * i + 1 < n; ++i) r = m.and_rec(r, m.or_rec(x[i], x[n - 1 - i])); return r; } } };
    bdd_collection c; node_ref f = mk(kf), g = mk(kg), h = mk(kh); size_t a = c.add_bdd(f), b = c.add_bdd(g), d = c.add_bdd(h); Obs obs(c);
    node_ref w2 = m.and_rec(f, g), w3 = m.and_rec(w2, h);
    size_t r2 = c.bdd_and(a, b); std::vector<size_t> o3{a, b, d}, o4{d, a, r2, b}; size_t r3 = c.bdd_and(o3.begin(), o3.end()), r4 = c.bdd_and(o4.begin(), o4.end()), r5 = c.bdd_and(r2, d);
    MC_CHECK(r2 == 3 && r3 == 4 && r4 == 5 && r5 == 6 && c.nr_bdds() == 7, "indices wrong");
    for (size_t r : {r2, r3, r4, r5}) { node_ref w = r == r2 ? w2 : w3; MC_CHECK(check_stored_structure(c, r, "conjunction") == w.nr_nodes(), "conjunction has another number of nodes than the manager's"); MC_CHECK(c.export_bdd(m, r) == w, "conjunction of large BDDs is wrong"); }
    obs.others(c, "conjunction"); mc::steps(4); mc::state(mc::mix(n, kf * 64 + kg * 8 + kh));
}
void scale(size_t n, int a, int b) {
    ref::Store s; const auto V = ref::vars(n, (a + b) % 4); std::vector<size_t> W; const int how = (a + b) % 3; for (size_t i = 0; i < n; ++i) if (how == 0 || (how == 1 && i >= n / 3) || (how == 2 && i % 2)) W.push_back(V[i]);
    const ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, W), w = s.land(f, g); bdd_collection c; const size_t i = ref::put(c, s, f), j = ref::put(c, s, g); const Stored si = stored(c, i), sj = stored(c, j); mc::steps(4); MC_NOTE("%zu variables: %s, %s", n, ref::shape_name(a), ref::shape_name(b));
    std::vector<size_t> r{c.bdd_and(i, j), c.bdd_and(j, i)}; { std::vector<size_t> x{i, j, i}; r.push_back(c.bdd_and(x.begin(), x.end())); } { auto e = c[i], h = c[j]; (void)(e & h); r.push_back(c.nr_bdds() - 1); }
    for (size_t k = 0; k < r.size(); ++k) { MC_CHECK(r[k] == 2 + k, "result has index %zu", r[k]); ref::stored_is(s, c, r[k], w, "conjunction", n); ref::evaluates(s, c, r[k], w, V, V.back() + 1, "conjunction"); }
    MC_CHECK(stored(c, i) == si && stored(c, j) == sj, "an operand changed"); mc::nontrivial(w > 1); mc::state(mc::mix(n, a * 64 + b));
}
// a function with more than 2^16 nodes and the parity of two or three variables, in both orders
void huge(int k, int kind, int with) {
    ref::Store s; const size_t n = 2 * size_t(k); const auto V = ref::vars(n, 0); std::vector<size_t> W; for (size_t v : with == 0 ? std::vector<size_t>{2, n - 1} : with == 1 ? std::vector<size_t>{n - 2, n - 1} : with == 2 ? std::vector<size_t>{0, size_t(k), n - 1} : std::vector<size_t>{size_t(k) - 1, n - 3}) W.push_back(V[v]);
    const ref::Id f = ref::shape(s, 1, W), g = ref::shape(s, kind, V), w = s.land(f, g); bdd_collection c; const size_t i = ref::put(c, s, f), j = ref::put(c, s, g); const Stored sj = stored(c, j); mc::steps(2); MC_NOTE("%zu variables, %s, and a parity of %zu", n, ref::shape_name(kind), W.size());
    const size_t r = c.bdd_and(i, j); MC_CHECK(r == 2, "result has index %zu", r); ref::stored_is(s, c, r, w, "conjunction with a very large BDD", n);
    const size_t q = c.bdd_and(j, i); MC_CHECK(q == 3, "result has index %zu", q); ref::stored_is(s, c, q, w, "conjunction with a very large BDD", n);
    std::vector<size_t> o{j, i, j}; const size_t t = c.bdd_and(o.begin(), o.end()); ref::stored_is(s, c, t, w, "conjunction of three with a very large BDD", n);
    MC_CHECK(stored(c, j) == sj, "an operand changed"); mc::nontrivial(); mc::state(mc::mix(n, kind * 8 + with));
}
// k operands, each a clause or parity over a window of n variables
void scalek(size_t n, int k, int kind) {
    ref::Store s; const auto V = ref::vars(n, kind % 4); bdd_collection c; std::vector<size_t> o; ref::Id w = 1; mc::steps(2); std::vector<Stored> before;
    for (int q = 0; q < k; ++q) { const size_t from = q * n / k, to = std::min(n, (q + 1) * n / k + 3); const ref::Id d = ref::shape(s, kind < 3 ? std::array<int, 3>{5, 9, 6}[kind] : q % 2 ? 5 : 7, std::vector<size_t>(V.begin() + from, V.begin() + to)); o.push_back(ref::put(c, s, d)); w = s.land(w, d); before.push_back(stored(c, o.back())); }
    const size_t r = c.bdd_and(o.begin(), o.end()); ref::stored_is(s, c, r, w, "conjunction of many", n); std::reverse(o.begin(), o.end()); const size_t r2 = c.bdd_and(o.begin(), o.end()); ref::stored_is(s, c, r2, w, "conjunction of many, reversed", n); ref::evaluates(s, c, r, w, V, V.back() + 1, "conjunction of many");
    for (int q = 0; q < k; ++q) MC_CHECK(stored(c, q) == before[q], "an operand changed"); mc::nontrivial(); mc::state(mc::mix(n, k * 8 + kind));
}
// more operands than are supported: an exception (or the conjunction), and nothing else has changed
void too_many(int n, int kind) {
    static const Pos pos = {0, 2, 3}; static const TT t[5] = {0xfe, 0xca, 0xff, 0xe8, 0x0f}; bdd_collection c; for (TT x : t) put(c, x, pos); const auto before = all_stored(c); mc::steps();
    std::vector<size_t> o; TT w = 0xff; for (int i = 0; i < n; ++i) { o.push_back(kind == 0 ? 2 : kind == 1 ? i % 4 : (i * 7 + kind) % 5); w &= t[o.back()]; }
    size_t r = NONE; bool refused = false; try { r = kind % 2 ? c.bdd_and(o.begin(), o.end(), 100) : c.bdd_and(o.begin(), o.end()); } catch (const std::exception&) { refused = true; }
    if (!refused) { MC_CHECK(r == 5 && c.nr_bdds() == 6, "conjunction of %d BDDs gives index %zu", n, r); check_stored(c, r, w, pos, "conjunction of very many"); std::vector<size_t> x{r}; c.remove(x.begin(), x.end()); }
    MC_CHECK(c.nr_bdds() == 5 && all_stored(c) == before, "a conjunction of %d BDDs that was refused changed the collection", n);
    size_t a = c.bdd_and(size_t(0), size_t(1)); check_stored(c, a, t[0] & t[1], pos, "conjunction afterwards"); o.assign({0, 1, 3}); size_t b = c.bdd_and(o.begin(), o.end()); check_stored(c, b, t[0] & t[1] & t[3], pos, "conjunction afterwards");
    mc::nontrivial(); mc::state(mc::mix(n, kind));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(); std::vector<mc::Scenario> s;
    if (A) {
        s.push_back({"pairs-3var", "all 65536 pairs of functions of 3 variables, constants included, in a fresh collection each; various argument forms", 256, [](long u) { pairs(u, {0, 2, 3}, false); }});
        s.push_back({"pairs-shared", "the same pairs, 256 per collection, with removals", 256, [](long u) { pairs(u, {1, 2, 4}, true); }});
    }
    const int P3 = A ? 16 : 8;
    s.push_back({"triples", "all triples out of " + std::to_string(P3) + " functions of 3 variables", P3, [=](long u) { tuple({int(u)}, P3, 3); }});
    s.push_back({"singles", "all single BDDs out of 16", 16, [](long u) { tuple({int(u)}, 16, 1); }});
    for (int n = 4; n <= 7; ++n) { const int p = !A ? 2 : n == 4 ? (T ? 16 : 10) : n == 5 ? (T ? 10 : 6) : n == 6 ? (T ? 7 : 4) : (T ? 5 : 3);
        s.push_back({"tuples-" + std::to_string(n), "all lists of " + std::to_string(n) + " out of " + std::to_string(p) + " functions", p * p, [=](long u) { tuple({int(u / p), int(u % p)}, p, n); }}); }
    for (int n = 6; n <= (A ? T ? 16 : 14 : 9); ++n) { const int p = n <= 8 ? 4 : n <= (T ? 11 : 10) ? 3 : 2; s.push_back({"groups-" + std::to_string(n), "all lists of " + std::to_string(n) + " out of " + std::to_string(p) + " BDDs, in one collection", p * p, [=](long u) { group(n, p, int(u % p), int(u / p)); }, 240}); }
    s.push_back({"wide", "1..49 operands over as many variables in three orders with a negated, constant or repeated operand at every position", 49 * 12, [](long u) { wide(1 + int(u / 12), int(u % 4), int(u / 4 % 3)); }, 120});
    s.push_back({"too-many", "no and 50..300 operands: refused or right, the collection unchanged", 252 * 4, [](long u) { too_many(u < 4 ? 0 : 49 + int(u / 4), int(u % 4)); }});
    const int D = T && A ? 4 : A ? 3 : 2;
    s.push_back({"chains", "all sequences of " + std::to_string(D) + " conjunctions of two or three stored BDDs, earlier results included", 16, [D](long u) { chain(int(u / 4), int(u % 4), D); }});
    const int N = T ? 13 : 10;
    s.push_back({"large", "all triples of six kinds of functions of 4.." + std::to_string(N) + " variables, compared with the manager", (N - 3) * 216, [](long u) { large(4 + int(u / 216), u % 6, u / 6 % 6, u / 36 % 6); }, 60});
    { const size_t M = A ? (T ? 4097 : 1025) : 65; std::vector<std::array<int, 3>> u; for (size_t n : ref::sizes(M)) for (int a = 0; a < ref::SHAPES; ++a) for (int b = 0; b < ref::SHAPES; ++b) if ((n < 70 || ref::pair_at(n * 4, a, b)) && (T || (a * 5 + b * 7 + n) % (n < 70 ? 3 : 5) == 0)) u.push_back({int(n), a, b});
      s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 6, [](long u) { ref::Far far(ref::FAR[u % 3]); const int a = int(u / 3 % 12), b = int((a + 1 + u / 36 * 2) % 12); scale(6, a, b); }, 120});
      s.push_back({"scale", "pairs of 12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ", against an independent diagram store", long(u.size()), [u](long i) { scale(u[i][0], u[i][1], u[i][2]); }, 120});
      const int KM = A ? 49 : 5; s.push_back({"scale-operands", "3.." + std::to_string(KM) + " operands over overlapping windows of 150 and 400 variables, four kinds, in two orders", (KM - 2) * 8, [](long u) { scalek(u % 2 ? 400 : 150, 3 + int(u / 8), int(u / 2 % 4)); }, 120}); }
    if (A) s.push_back({"huge", "two kinds of functions with more than 2^17 nodes and four parities of few variables, in both orders and repeated", 8, [T](long u) { huge(T ? 18 : 17, 12 + int(u % 2), int(u / 2)); }, 300});
    { const int K = A ? (T ? 16 : 15) : 5; s.push_back({"wide-level", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + ", and 9 others", long(K - 3) * 9, [](long u) { static const int o[9][2] = {{12, 0}, {12, 3}, {12, 6}, {12, 9}, {12, 12}, {13, 2}, {13, 5}, {13, 8}, {13, 11}}; scale(2 * size_t(4 + u / 9), o[u % 9][0], o[u % 9][1]); }, 240}); }
    return s;
}
