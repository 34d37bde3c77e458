// C09: conjunction, disjunction and exclusive-or of many operands.
#include "ref.h"
#include <deque>
using namespace kit; using namespace BDD;

namespace {
const char* opname[3] = {"conjunction", "disjunction", "exclusive-or"};
TT apply(int o, TT a, TT b) { return o == 0 ? a & b : o == 1 ? a | b : a ^ b; }
node_ref two(bdd_mgr& m, int o, node_ref a, node_ref b) { return o == 0 ? m.and_rec(a, b) : o == 1 ? m.or_rec(a, b) : m.xor_rec(a, b); }
template<class I> node_ref range(bdd_mgr& m, int o, I a, I e) { mc::steps(); return o == 0 ? m.and_rec(a, e) : o == 1 ? m.or_rec(a, e) : m.xor_rec(a, e); }
template<class... N> node_ref args(bdd_mgr& m, int o, N... n) { mc::steps(); return o == 0 ? m.and_rec(n...) : o == 1 ? m.or_rec(n...) : m.xor_rec(n...); }
node_ref separate(bdd_mgr& m, int o, const std::vector<node_ref>& l) {
    switch (l.size()) {
        case 2: return args(m, o, l[0], l[1]);
        case 3: return args(m, o, l[0], l[1], l[2]);
        case 4: return args(m, o, l[0], l[1], l[2], l[3]);
        case 5: return args(m, o, l[0], l[1], l[2], l[3], l[4]);
        case 6: return args(m, o, l[0], l[1], l[2], l[3], l[4], l[5]);
        case 7: return args(m, o, l[0], l[1], l[2], l[3], l[4], l[5], l[6]);
        default: return args(m, o, l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7]);
    }
}
static const TT pool[12] = {0xaa, 0xcc, 0xf0, 0x00, 0xff, 0x55, 0x96, 0xe8, 0xc0, 0x1b, 0x33, 0x3c};

// one list of functions of 3 variables, everything against the truth table and the canonical reference
void list(const std::vector<int>& idx, int keys) {
    key_regime(keys); static const Pos pos = {0, 2, 3}; bdd_mgr m; add_vars(m, 4);
    std::vector<node_ref> l; std::vector<TT> t; std::deque<node_ref> dq;
    for (int i : idx) { t.push_back(pool[i]); l.push_back(build(m, pool[i], pos)); dq.push_back(l.back()); }
    if (mc::tracing) { std::string s; for (TT x : t) s += " " + str(x, 3); MC_NOTE("list%s", s.c_str()); }
    const std::vector<node_ref> copy(l); const int n = int(l.size());
    for (int o = 0; o < 3; ++o) {
        TT want = t[0]; for (int i = 1; i < n; ++i) want = apply(o, want, t[i]);
        auto ok = [&](node_ref r, const char* how) {
            TT got = eval_tt(r, pos, 4);
            MC_CHECK(got == want, "%s of %d BDDs given as %s is %s, expected %s", opname[o], n, how, str(got, 3).c_str(), str(want, 3).c_str());
            MC_CHECK(r == build(m, want, pos), "%s of %d BDDs given as %s is not the canonical reference", opname[o], n, how);
        };
        // which form computes first differs between lists
        if ((idx[0] + o) % 2) { ok(separate(m, o, l), "separate arguments"); ok(range(m, o, l.begin(), l.end()), "a range"); }
        else { ok(range(m, o, dq.begin(), dq.end()), "a range in a deque"); ok(separate(m, o, l), "separate arguments"); }
        node_ref left = l[0]; for (int i = 1; i < n; ++i) left = two(m, o, left, l[i]);
        node_ref right = l[n - 1]; for (int i = n - 2; i >= 0; --i) right = two(m, o, l[i], right);
        MC_CHECK(left == right && left == range(m, o, l.begin(), l.end()), "%s of %d BDDs depends on the grouping", opname[o], n);
        std::vector<node_ref> rev(l.rbegin(), l.rend());
        MC_CHECK(range(m, o, rev.begin(), rev.end()) == left, "%s of %d BDDs depends on the order", opname[o], n);
        MC_CHECK(range(m, o, l.rbegin(), l.rend()) == left, "%s of %d BDDs given as a reverse range differs", opname[o], n);
        const node_ref* p = l.data(); MC_CHECK(range(m, o, p, p + n) == left, "%s of %d BDDs given as an array differs", opname[o], n);
    }
    for (int i = 0; i < n; ++i) MC_CHECK(l[i] == copy[i] && dq[i] == copy[i] && eval_tt(l[i], pos, 4) == t[i], "operand %d was modified", i);
    mc::nontrivial(n > 2); uint64_t h = n; for (int i : idx) h = mc::mix(h, i); mc::state(h);
}
// n operands on n variables, one of them special; order of the operands: ascending, descending, interleaved
void longlist(int n, int special, int order) {
    bdd_mgr m; add_vars(m, n);
    std::vector<int> at; for (int i = 0; i < n; ++i) at.push_back(order == 0 ? i : order == 1 ? n - 1 - i : i % 2 ? n - 1 - i / 2 : i / 2);
    auto cube = [&](bool conj, int neg, int skip) { node_ref r = conj ? m.topsink() : m.botsink(); for (int v = n - 1; v >= 0; --v) { if (v == skip) continue; bool s = v != neg; r = conj ? (s ? m.unique_find(v, m.botsink(), r) : m.unique_find(v, r, m.botsink())) : (s ? m.unique_find(v, r, m.topsink()) : m.unique_find(v, m.topsink(), r)); } return r; };
    auto parity = [&](bool odd, int skip) { node_ref a = m.botsink(), b = m.topsink(); for (int v = n - 1; v >= 0; --v) { if (v == skip) continue; node_ref x = m.unique_find(v, a, b), y = m.unique_find(v, b, a); a = x; b = y; } return odd ? a : b; };
    for (int p = 0; p < n; ++p) {
        std::vector<node_ref> l; for (int i = 0; i < n; ++i) l.push_back(m.projection(at[i]));
        const int v = at[p];
        l[p] = special == 0 ? m.negate(l[p]) : special == 1 ? m.botsink() : special == 2 ? m.topsink() : m.projection(at[(p + 1) % n]);
        node_ref e[3];
        switch (special) {
            case 0: e[0] = cube(true, v, -1); e[1] = cube(false, v, -1); e[2] = parity(false, -1); break;
            case 1: e[0] = m.botsink(); e[1] = cube(false, -1, v); e[2] = parity(true, v); break;
            case 2: e[0] = cube(true, -1, v); e[1] = m.topsink(); e[2] = parity(false, v); break;
            default: { e[0] = cube(true, -1, v); e[1] = cube(false, -1, v); node_ref a = m.botsink(), b = m.topsink(); for (int w = n - 1; w >= 0; --w) { if (w == v || w == at[(p + 1) % n]) continue; node_ref x = m.unique_find(w, a, b), y = m.unique_find(w, b, a); a = x; b = y; } e[2] = a; }
        }
        const std::vector<node_ref> copy(l);
        for (int o = 0; o < (n <= 20 ? 3 : 2); ++o) MC_CHECK(range(m, o, l.begin(), l.end()) == e[o], "%s of %d BDDs, special operand %d of kind %d, is wrong", opname[o], n, p, special);
        MC_CHECK(l == copy, "the range was modified");
        if (p % 3 == 2) m.collect_garbage();
    }
    mc::state(mc::mix(n, special * 4 + order));
}
// long lists of operands
void longlist(size_t n, int kind, int op) {
    ref::Store s; bdd_mgr m; const auto V = ref::vars(n + 2, kind % 4); add_vars(m, V.back() + 1); std::vector<node_ref> x; std::vector<ref::Id> y; mc::steps(4);
    for (size_t i = 0; i < n; ++i) { ref::Id d = 0; const ref::Id p = s.var(V[i]), q = s.var(V[i + 1]), r = s.var(V[i + 2]); switch (kind) { case 0: d = p; break; case 1: d = i % 3 == 1 ? s.neg(p) : p; break; case 2: d = s.lor(s.neg(p), s.neg(q)); break; case 3: d = s.land(p, r); break; case 4: d = s.lxor(p, q); break; default: d = i == n / 2 ? (op == 0 ? 1 : 0) : s.lor(p, s.lxor(q, r)); } x.push_back(ref::make(m, s, d)); y.push_back(d); }
    ref::Id w = op == 0 ? 1 : 0; for (size_t i = n; i-- > 0;) { mc::beat(); w = op == 0 ? s.land(y[i], w) : op == 1 ? s.lor(y[i], w) : s.lxor(y[i], w); }
    const std::vector<node_ref> keep(x);
    const auto go = [&](auto b, auto e) { return op == 0 ? m.and_rec(b, e) : op == 1 ? m.or_rec(b, e) : m.xor_rec(b, e); };
    ref::is(s, go(x.begin(), x.end()), w, "range of operands", n); std::reverse(x.begin(), x.end()); ref::is(s, go(x.begin(), x.end()), w, "reversed range of operands", n); std::deque<node_ref> d(keep.begin(), keep.end()); ref::is(s, go(d.begin(), d.end()), w, "range of operands in a deque", n);
    std::vector<node_ref> z; for (size_t i = 0; i < n; ++i) z.push_back(keep[(i * 7 + 3) % n]); if (n % 7) ref::is(s, go(z.begin(), z.end()), w, "permuted range of operands", n);
    for (size_t i = 0; i < n; ++i) MC_CHECK(x[n - 1 - i] == keep[i], "an operand was changed"); mc::nontrivial(); mc::state(mc::mix(n, kind * 4 + op));
}
// all lists of n out of a pool that is closed under some of the operations, the first two given; ranges within one manager
void group(int n, const std::vector<TT>& P, int first, int second) {
    static const Pos pos = {0, 1, 2}; bdd_mgr m; add_vars(m, 3); const int p = int(P.size()); std::vector<node_ref> f, canon; for (TT t : P) f.push_back(build(m, t, pos)); for (TT t = 0; t < 256; ++t) canon.push_back(build(m, t, pos));
    std::vector<int> d(n, 0); d[0] = first; d[1] = second; std::vector<node_ref> l; for (int i : d) l.push_back(f[i]); long lists = 0;
    for (;;) {
        for (int o = 0; o < 3; ++o) { TT w = P[d[0]]; for (int i = 1; i < n; ++i) w = apply(o, w, P[d[i]]);
            if (!(range(m, o, l.begin(), l.end()) == canon[w & 0xff])) { std::string x; for (int i : d) x += " " + str(P[i], 3); mc::fail("%s of%s is not %s", opname[o], x.c_str(), str(w, 3).c_str()); } }
        if (++lists % 64 == 0) { for (int i = 0; i < n; ++i) MC_CHECK(l[i] == f[d[i]], "operand %d was modified", i); mc::beat(); }
        int k = n - 1; while (k > 1 && d[k] == p - 1) { d[k] = 0; l[k] = f[0]; --k; } if (k == 1) break; l[k] = f[++d[k]];
    }
    mc::nontrivial(); mc::state(mc::mix(mc::mix(n, P[0] * 256 + P[1]), first * 16 + second));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s; const int NP = 12;
    s.push_back({"lists-2-3", "all lists of 2 and 3 out of 12 functions of 3 variables, three operations, as range (vector, deque, array, reversed), separate arguments and pairwise, 4 key regimes", NP * NKEYS,
        [](long u) { std::vector<int> l{int(u / NKEYS)}; int n = 2 + mc::choose(2, "length"); while (int(l.size()) < n) l.push_back(mc::choose(NP, "operand")); list(l, u % NKEYS); }});
    s.push_back({"lists-4", "all lists of 4 out of 12 functions", NP * NP, [](long u) { std::vector<int> l{int(u / NP), int(u % NP)}; while (l.size() < 4) l.push_back(mc::choose(NP, "operand")); list(l, u % NKEYS); }});
    const int P5 = T ? 12 : 7;
    s.push_back({"lists-5", "all lists of 5 out of " + std::to_string(P5) + " functions", P5 * P5, [=](long u) { std::vector<int> l{int(u / P5), int(u % P5)}; while (l.size() < 5) l.push_back(mc::choose(P5, "operand")); list(l, u % NKEYS); }});
    for (int n = 6; n <= 8; ++n) { const int p = n == 6 ? (T ? 7 : 5) : n == 7 ? (T ? 5 : 3) : (T ? 4 : 3);
        s.push_back({"lists-" + std::to_string(n), "all lists of " + std::to_string(n) + " out of " + std::to_string(p) + " functions", p * p, [=](long u) { std::vector<int> l{int(u / p), int(u % p)}; while (int(l.size()) < n) l.push_back(mc::choose(p, "operand")); list(l, u % NKEYS); }}); }
    static const std::vector<TT> G[4] = {{0x00, 0xaa, 0xcc, 0x66}, {0x00, 0xff, 0xaa, 0x55}, {0xaa, 0xcc, 0x88, 0xee}, {0x00, 0xaa, 0xcc, 0x66, 0xf0, 0x5a, 0x3c, 0x96}};
    for (int n = 4; n <= (T ? 11 : 9); ++n) s.push_back({"groups-" + std::to_string(n), "all lists of " + std::to_string(n) + " out of three sets of 4 functions closed under operations", 48, [n](long u) { group(n, G[u / 16], int(u % 4), int(u / 4 % 4)); }, 120});
    for (int n = 5; n <= (T ? 8 : 6); ++n) s.push_back({"group8-" + std::to_string(n), "all lists of " + std::to_string(n) + " out of 8 functions closed under exclusive-or", 64, [n](long u) { group(n, G[3], int(u % 8), int(u / 8)); }, 120});
    const int N = T ? 64 : 33;
    s.push_back({"long", "2.." + std::to_string(N) + " variables in three orders, with one negated, constant or repeated operand at every position (exclusive-or up to 20 variables)", (N - 1) * 12, [](long u) { int n = 2 + int(u / 12); longlist(n, u % 4, u / 4 % 3); }, 120});
    { const size_t M = T ? 2049 : 513; const auto z = ref::sizes(M); s.push_back({"far", "the same for lists of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 54, [](long u) { ref::Far far(ref::FAR[u % 3]); longlist(size_t(6), int(u / 3 % 6), int(u / 18)); }, 120});
      s.push_back({"long-lists", "2^k-1, 2^k, 2^k+1 operands up to " + std::to_string(M) + " of six kinds, in four orders, against an independent diagram store", long(z.size()) * 18, [z](long u) { longlist(z[u / 18], int(u / 3 % 6), int(u % 3)); }, 120}); }
    return s;
}
