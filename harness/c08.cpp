// C08: counting constraints mean what their names say.
#include "ref.h"
#include <deque>
using namespace kit; using namespace BDD;

namespace {
constexpr int KINDS = 7;
const char* name[KINDS] = {"all_false", "at_least_one", "at_most_one", "simplex", "at_least", "at_most", "cardinality"};
bool cond(int k, int c, int b) { switch (k) { case 0: return c == 0; case 1: return c >= 1; case 2: return c <= 1; case 3: return c == 1; case 4: return c >= b; case 5: return c <= b; default: return c == b; } }
template<class I> node_ref make(bdd_mgr& m, int k, I a, I e, size_t b) {
    mc::steps();
    switch (k) { case 0: return m.all_false(a, e); case 1: return m.at_least_one(a, e); case 2: return m.at_most_one(a, e); case 3: return m.simplex(a, e); case 4: return m.at_least(a, e, b); case 5: return m.at_most(a, e, b); default: return m.cardinality(a, e, b); }
}
// lists of arbitrary functions of 3 variables
static const TT pool[12] = {0xaa, 0xcc, 0xf0, 0x00, 0xff, 0x55, 0x96, 0xe8, 0xc0, 0x1b, 0x33, 0x3c};
void arbitrary(std::vector<int> idx, int npool, int len, int keys) {
    key_regime(keys); const Pos pos = {0, 2, 3}; bdd_mgr m; add_vars(m, 4);
    while (int(idx.size()) < len) idx.push_back(mc::choose(npool, "member"));
    std::vector<node_ref> l; std::vector<TT> t; for (int i : idx) { t.push_back(pool[i]); l.push_back(build(m, pool[i], pos)); }
    if (mc::tracing) { std::string s; for (TT x : t) s += " " + str(x, 3); MC_NOTE("list%s", s.c_str()); }
    const std::vector<node_ref> copy(l);
    for (int k = 0; k < KINDS; ++k) for (int b = 0; b <= (k < 4 ? 0 : len + 2); ++b) {
        TT want = 0; for (int a = 0; a < 8; ++a) { int c = 0; for (TT x : t) c += x >> a & 1; if (cond(k, c, b)) want |= TT(1) << a; }
        node_ref r = make(m, k, l.begin(), l.end(), b); TT got = eval_tt(r, pos, 4);
        MC_CHECK(got == want, "%s of %d BDDs, bound %d, is %s, expected %s", name[k], len, b, str(got, 3).c_str(), str(want, 3).c_str());
        MC_CHECK(build(m, want, pos) == r, "%s of %d BDDs, bound %d, is not canonical", name[k], len, b);
    }
    MC_CHECK(l == copy, "the list was modified");
    uint64_t h = len; for (int i : idx) h = mc::mix(h, i); mc::state(h);
}
// all lists of n out of a small pool, the first two given, within one manager
void group(int n, const std::vector<TT>& P, int first, int second) {
    static const Pos pos = {0, 1, 2}; bdd_mgr m; add_vars(m, 3); const int p = int(P.size()); std::vector<node_ref> f, canon; for (TT t : P) f.push_back(build(m, t, pos)); for (TT t = 0; t < 256; ++t) canon.push_back(build(m, t, pos));
    std::vector<int> d(n, 0); d[0] = first; d[1] = second; std::vector<node_ref> l; for (int i : d) l.push_back(f[i]); long lists = 0;
    for (;;) {
        int c[8] = {}; for (int i : d) for (int a = 0; a < 8; ++a) c[a] += P[i] >> a & 1;
        for (int k = 0; k < KINDS; ++k) for (int b = 0; b <= (k < 4 ? 0 : n + 1); ++b) { TT w = 0; for (int a = 0; a < 8; ++a) if (cond(k, c[a], b)) w |= TT(1) << a;
            if (!(make(m, k, l.begin(), l.end(), b) == canon[w])) { std::string x; for (int i : d) x += " " + str(P[i], 3); mc::fail("%s of%s, bound %d, is not %s", name[k], x.c_str(), b, str(w, 3).c_str()); } }
        if (++lists % 16 == 0) { for (int i = 0; i < n; ++i) MC_CHECK(l[i] == f[d[i]], "member %d was modified", i); mc::beat(); }
        int k = n - 1; while (k > 1 && d[k] == p - 1) { d[k] = 0; l[k] = f[0]; --k; } if (k == 1) break; l[k] = f[++d[k]];
    }
    mc::nontrivial(); mc::state(mc::mix(mc::mix(n, P[0] * 256 + P[1]), first * 16 + second));
}
// n variables in an order, all assignments
void variables(int n, const std::vector<int>& order, int gap, int keys, int maxb, bool deque) {
    key_regime(keys); bdd_mgr m; std::vector<node_ref> l; std::deque<node_ref> dq; const size_t nv = size_t(n) * gap + 1; add_vars(m, nv);
    for (int i : order) { l.push_back(m.projection(i * gap)); dq.push_back(l.back()); }
    std::vector<char> lab(nv, 0);
    for (int k = 0; k < KINDS; ++k) for (int b = 0; b <= (k < 4 ? 0 : maxb); ++b) {
        node_ref r = deque ? make(m, k, dq.begin(), dq.end(), b) : make(m, k, l.begin(), l.end(), b);
        for (int a = 0; a < (1 << n); ++a) {
            for (int i = 0; i < n; ++i) lab[i * gap] = a >> i & 1;
            bool got = r.evaluate(lab.begin(), lab.end()), want = cond(k, __builtin_popcount(a), b);
            MC_CHECK(got == want, "%s of %d variables, bound %d, is %d under an assignment with %d true", name[k], n, b, got, __builtin_popcount(a));
        }
        // canonical counting diagram
        std::vector<node_ref> level; for (int c = 0; c <= n; ++c) level.push_back(cond(k, c, b) ? m.topsink() : m.botsink());
        for (int i = n - 1; i >= 0; --i) { std::vector<node_ref> up; for (int c = 0; c <= i; ++c) up.push_back(m.unique_find(i * gap, level[c], level[c + 1])); level = up; }
        MC_CHECK(level[0] == r, "%s of %d variables, bound %d, is not the canonical reference", name[k], n, b);
        if (b % 3 == 2) m.collect_garbage();
    }
    uint64_t h = n; for (int i : order) h = mc::mix(h, i); mc::state(h);
}
// long lists against the independent store
void longlist(size_t n, int place, int kind) {
    ref::Store s; bdd_mgr m; const auto V = ref::vars(n, place); std::vector<node_ref> x; for (size_t v : V) x.push_back(m.projection(v)); mc::steps(6); if (kind % 2) std::reverse(x.begin(), x.end());
    const auto count = [&](size_t lo, size_t hi) { return s.automaton(V, 0, [hi](size_t, long q, int b) -> long { return size_t(q + b) > hi ? -1 : q + b; }, [lo](long q) { return size_t(q) >= lo; }); };
    const auto least = [&](size_t b) { return b == 0 ? 1 : s.neg(count(0, b - 1)); };
    const auto is = [&](node_ref r, ref::Id w, const char* who) { ref::is(s, r, w, who, n); ref::evaluates(s, r, w, V, m.nr_variables(), who); };
    switch (kind / 2) {
        case 0: is(m.all_false(x.begin(), x.end()), count(0, 0), "all-false"); is(m.at_least_one(x.begin(), x.end()), least(1), "at-least-one"); break;
        case 1: is(m.at_most_one(x.begin(), x.end()), count(0, 1), "at-most-one"); is(m.simplex(x.begin(), x.end()), count(1, 1), "simplex"); break;
        case 2: is(m.at_least(x.begin(), x.end(), 1), least(1), "at-least 1"); is(m.at_most(x.begin(), x.end(), 1), count(0, 1), "at-most 1"); is(m.cardinality(x.begin(), x.end(), 1), count(1, 1), "exactly 1"); is(m.at_most(x.begin(), x.end(), 0), count(0, 0), "at-most 0"); is(m.cardinality(x.begin(), x.end(), 0), count(0, 0), "exactly 0"); is(m.at_least(x.begin(), x.end(), 0), 1, "at-least 0"); is(m.at_least(x.begin(), x.end(), n + 1), 0, "at-least n+1"); is(m.at_most(x.begin(), x.end(), n + 1), 1, "at-most n+1"); is(m.cardinality(x.begin(), x.end(), n + 1), 0, "exactly n+1"); break;
        default: if (n > 40) return; is(m.at_least(x.begin(), x.end(), 2), least(2), "at-least 2"); is(m.at_most(x.begin(), x.end(), 2), count(0, 2), "at-most 2"); is(m.cardinality(x.begin(), x.end(), 2), count(2, 2), "exactly 2"); if (n > 20) return; is(m.at_least(x.begin(), x.end(), n / 2), least(n / 2), "at-least n/2"); is(m.at_most(x.begin(), x.end(), n - 1), count(0, n - 1), "at-most n-1"); is(m.cardinality(x.begin(), x.end(), n - 1), count(n - 1, n - 1), "exactly n-1"); is(m.cardinality(x.begin(), x.end(), n), count(n, n), "exactly n");
    }
    mc::nontrivial(); mc::state(mc::mix(n, place * 16 + kind));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s; const int NP = 12;
    s.push_back({"arbitrary-short", "all lists of 1 to 3 out of 12 functions of 3 variables (variables, constants, negations, parity, majority, ...), all seven constraints, all bounds up to length + 2, 4 key regimes", NP * NKEYS,
        [](long u) { int len = 1 + mc::choose(3, "length"); arbitrary({int(u / NKEYS)}, NP, len, u % NKEYS); }});
    s.push_back({"arbitrary-4", "all lists of 4 out of 12 functions, all bounds up to 6", NP * NP, [=](long u) { arbitrary({int(u / NP), int(u % NP)}, NP, 4, u % NKEYS); }});
    const int P5 = T ? 12 : 6;
    s.push_back({"arbitrary-5", "all lists of 5 out of " + std::to_string(P5) + " functions, all bounds up to 7", P5 * P5, [=](long u) { arbitrary({int(u / P5), int(u % P5)}, P5, 5, u % NKEYS); }});
    s.push_back({"arbitrary-6", "all lists of 6 out of " + std::to_string(T ? 7 : 4) + " functions, all bounds up to 8", T ? 49 : 16, [=](long u) { int p = T ? 7 : 4; arbitrary({int(u / p), int(u % p)}, p, 6, u % NKEYS); }});
    const int PN = T ? 7 : 6;
    for (int n = 1; n <= PN; ++n) { auto ps = std::make_shared<std::vector<std::vector<int>>>(permutations(n));
        s.push_back({"orders-" + std::to_string(n), "all orders of " + std::to_string(n) + " variables, adjacent and with gaps, all bounds up to length + 2", long(ps->size()), [=](long u) { for (int g = 1; g <= 3; ++g) variables(n, (*ps)[u], g, u % NKEYS, n + 2, g == 2); }}); }
    const int N = T ? 14 : 11;
    static const std::vector<TT> G[3] = {{0xaa, 0x55, 0xcc, 0x88}, {0xaa, 0xcc, 0xf0, 0x00}, {0x66, 0xaa, 0xff, 0x3c}};
    for (int n = 5; n <= (T ? 9 : 7); ++n) s.push_back({"groups-" + std::to_string(n), "all lists of " + std::to_string(n) + " out of three sets of 4 functions of 3 variables, all constraints and bounds", 48, [n](long u) { group(n, G[u / 16], int(u % 4), int(u / 4 % 4)); }, 240});
    s.push_back({"long", "7.." + std::to_string(N) + " variables in increasing, decreasing and interleaved order, all bounds up to length + 2", (N - 6) * 3, [=](long u) {
        int n = 7 + int(u / 3); std::vector<int> o; for (int i = 0; i < n; ++i) o.push_back(u % 3 == 0 ? i : u % 3 == 1 ? n - 1 - i : i % 2 ? n - 1 - i / 2 : i / 2); variables(n, o, 1, 0, n + 2, false); }, 300});
    { auto z = ref::sizes(T ? 1025 : 513); for (int k = 18; k < 31; ++k) z.push_back(k); s.push_back({"far", "the same for lists of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 96, [](long u) { ref::Far far(ref::FAR[u % 3]); longlist(6, int(u / 3 % 4), int(u / 12)); }, 120});
      s.push_back({"long-lists", "lists of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(T ? 1025 : 513) + " (and 18..30), forwards and backwards, 4 placements, against an independent diagram store", long(z.size()) * 32, [z](long u) { const size_t n = z[u / 32]; if (u % 8 / 2 == 2 && n > 300) return; longlist(n, int(u / 8 % 4), int(u % 8)); }, 120}); }
    return s;
}
