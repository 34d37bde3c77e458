// C24: growth through every capacity step, shrinking and regrowing.
#include "kit.h"
#include <functional>
#include <set>
using namespace kit; using namespace BDD;

namespace {
// Nodes of one variable: pairs of different children out of K functions of the four variables below it.
struct Grid {
    bdd_mgr m; int K; std::vector<node_ref> kids; std::vector<TT> kt; size_t base; std::vector<node*> addr; // addr[p]: where pair p was seen last, null if not present
    std::vector<node_ref> held; size_t present = 0;
    explicit Grid(int k) : K(k) { add_vars(m, 5); const Pos pos{1, 2, 3, 4}; std::set<TT> used{0, 0xffff}; for (TT x = 0; int(kids.size()) < K; ++x) { TT t = scatter(x) & 0xffff; if (used.insert(t).second) { kids.push_back(build(m, t, pos)); kt.push_back(t); } } base = m.nr_nodes(); }
    ~Grid() { held.clear(); kids.clear(); }
    void pair(size_t p, int& a, int& b) const { a = int(p % K); b = int((a + 1 + p / K) % K); }
    size_t capacity() const { return size_t(K) * (K - 1); }
    node_ref find(size_t p) { mc::beat(); int a, b; pair(p, a, b); return m.unique_find(0, kids[a], kids[b]); }
    void create(size_t p) { // must be new
        const size_t before = m.nr_nodes(); node_ref r = find(p); int a, b; pair(p, a, b); if (p >= addr.size()) addr.resize(p + 1, nullptr);
        MC_CHECK(m.nr_nodes() == before + 1 && before == base + present, "%zu nodes with %zu of one variable, after creating another: %zu", before, present, m.nr_nodes());
        MC_CHECK(r.variable() == 0 && r.low() == kids[a] && r.high() == kids[b], "the node created %zu-th has other children than asked for", present + 1);
        addr[p] = r.address(); ++present;
    }
    void same(size_t p) { node_ref r = find(p); MC_CHECK(r.address() == addr[p], "with %zu nodes of one variable, node %zu is not found again (or another one is)", present, p); }
    void verify(size_t stride = 1) { const size_t n = m.nr_nodes(); MC_CHECK(n == base + present, "%zu nodes, expected %zu", n, base + present); for (size_t p = 0; p < addr.size(); p += stride) if (addr[p]) same(p); MC_CHECK(m.nr_nodes() == n, "looking nodes up changed the count from %zu to %zu", n, m.nr_nodes()); }
    void distinct() { std::vector<node*> v; for (node* a : addr) if (a) v.push_back(a); std::sort(v.begin(), v.end()); MC_CHECK(std::adjacent_find(v.begin(), v.end()) == v.end(), "two of %zu nodes share an address", v.size()); }
    void values(size_t stride) { std::array<char, 5> l; for (size_t p = 0; p < addr.size(); p += stride) if (addr[p]) { int a, b; pair(p, a, b); node_ref r(addr[p]); for (int x : {int(p % 32), int(p * 7 % 32), int((p >> 5) % 32)}) { for (int i = 0; i < 5; ++i) l[i] = x >> i & 1; const bool want = (x & 1 ? kt[b] : kt[a]) >> (x >> 1) & 1; MC_CHECK(r.evaluate(l.begin(), l.end()) == want, "node %zu of %zu has a wrong value", p, present); } } }
    void grow(size_t n, bool everywhere = false) { // pairs 0..n-1 all present afterwards
        for (size_t p = 0; p < n; ++p) { if (p < addr.size() && addr[p]) continue; create(p); const size_t q = present; if (everywhere || near(q)) { verify(); } else if (q % 64 == 0) { same(q * 31 % (p + 1) < addr.size() && addr[q * 31 % (p + 1)] ? q * 31 % (p + 1) : p); } } mc::steps(n); }
    static bool near(size_t q) { for (size_t k = 32; k <= (size_t(1) << 20); k *= 2) if (q + 1 >= k && q <= k + 2) return q < 40000 || q == k + 1; return false; }
    void keep(const std::function<bool(size_t)>& f) { held.clear(); for (size_t p = 0; p < addr.size(); ++p) if (addr[p]) { if (f(p)) held.push_back(node_ref(addr[p])); } }
    void collect(const std::function<bool(size_t)>& f) { keep(f); m.collect_garbage(); present = 0; for (size_t p = 0; p < addr.size(); ++p) if (addr[p]) { if (f(p)) ++present; else addr[p] = nullptr; } verify(); values(present > 5000 ? 17 : 1); mc::steps(3); }
};
// Three variables whose tables grow one after the other: pages given back by one are taken by the next.
struct Tables {
    bdd_mgr m; int K; std::vector<node_ref> kids; size_t base; std::vector<node*> at[3];
    explicit Tables(size_t n) : K(3) { while (size_t(K) * (K - 1) < n) ++K; add_vars(m, 7); const Pos pos{3, 4, 5, 6}; std::set<TT> used; for (TT x = 0; int(kids.size()) < K; ++x) { const TT t = (x * 40503 + 77) & 0xffff; if (used.insert(t).second) kids.push_back(build(m, t, pos)); } base = m.nr_nodes(); }
    node_ref find(int v, size_t p) { const int a = int(p % K), b = int((a + 1 + p / K) % K); return m.unique_find(v, kids[a], kids[b]); }
    size_t total() const { return base + at[0].size() + at[1].size() + at[2].size(); }
    void grow(int v, size_t n) { for (size_t p = at[v].size(); p < n; ++p) { at[v].push_back(find(v, p).address()); if (p % 4096 == 0) mc::beat(); } MC_CHECK(m.nr_nodes() == total(), "variable %d grown to %zu nodes: %zu nodes reported, %zu created", v, n, m.nr_nodes(), total()); mc::steps(n); }
    void verify() { for (int v = 0; v < 3; ++v) for (size_t p = 0; p < at[v].size(); ++p) { node_ref r = find(v, p); const int a = int(p % K), b = int((a + 1 + p / K) % K); MC_CHECK(r.address() == at[v][p] && r.variable() == size_t(v) && r.low() == kids[a] && r.high() == kids[b], "tables of %zu, %zu and %zu nodes: node %zu of variable %d is not found again", at[0].size(), at[1].size(), at[2].size(), p, v); if (p % 4096 == 0) mc::beat(); } MC_CHECK(m.nr_nodes() == total(), "looking nodes up created %zu", m.nr_nodes() - total()); }
    void drop(int v) { std::vector<node_ref> held; for (int w = 0; w < 3; ++w) if (w != v) for (node* x : at[w]) held.push_back(node_ref(x)); at[v].clear(); m.collect_garbage(); MC_CHECK(m.nr_nodes() == total(), "%zu nodes after dropping a variable's, %zu referenced", m.nr_nodes(), total()); }
};
void tables(int i, int j, int how) { // sizes 3/8 of 2^i and of 2^j slots
    const size_t x = (size_t(3) << i) / 8, y = (size_t(3) << j) / 8; Tables t(std::max(x, y) + 3); const int A = how & 1, B = 1 - A;
    t.grow(A, x); if (how & 2) { t.drop(A); t.grow(2, x / 2 + 1); } t.grow(B, y); t.verify(); if (how & 2) { t.grow(A, y); t.drop(B); t.grow(B, x); t.verify(); }
    mc::nontrivial(); mc::state(mc::mix(how, i * 32 + j));
}
const int NPAT = 12;
std::function<bool(size_t)> pattern(int k, size_t n) {
    switch (k) {
        case 0: return [](size_t) { return false; }; case 1: return [](size_t) { return true; };
        case 2: return [](size_t p) { return p % 2 == 0; }; case 3: return [](size_t p) { return p % 8 == 3; }; case 4: return [](size_t p) { return p % 9 == 0; };
        case 5: return [n](size_t p) { return p < n / 2; }; case 6: return [n](size_t p) { return p >= n - n / 8; }; case 7: return [n](size_t p) { return p < n / 16 + 1; };
        case 8: return [](size_t p) { return p % 64 == 63; }; case 9: return [](size_t p) { return scatter(p) & 1; }; case 10: return [](size_t p) { return scatter(p + 99) % 7 == 0; };
        default: return [n](size_t p) { return p + 1 == n || p == 0; }; }
}
void keys(int k) { switch (k) { case 0: mc::keys_pseudo(); break; case 1: mc::keys_pseudo(77); break; case 2: mc::keys_sequence(60, 64); break; case 3: mc::keys_sequence(1, 1 << 9 | 1); break; case 4: mc::keys_sequence(0, 1 << 12 | 5); break; default: mc::keys_pseudo(1000 + k); } }
void all_sizes(int k, size_t n) { keys(k); Grid g(n > 1500 ? 120 : 50); g.grow(std::min(n, g.capacity()), true); g.distinct(); g.values(1); mc::state(n * 8 + k); }
void rounds(size_t n, int k, int a) {
    keys(k); int K = 2; while (size_t(K) * (K - 1) < n) ++K; K += 3;
    for (int b = 0; b < NPAT; ++b) { Grid g(K); g.grow(n); g.collect(pattern(a, n)); g.grow(n); g.distinct(); g.collect(pattern(b, n)); size_t more = std::min(g.capacity(), n + n / 4 + 3); g.grow(more); g.distinct(); g.verify(); g.values(more > 5000 ? 17 : 1); g.collect(pattern((a + b) % NPAT, more)); mc::state(mc::mix(n, a * 100 + b)); }
}
void huge(int k, int a, int b, size_t n) {
    keys(k); Grid g(int(std::sqrt(double(n))) + 3); g.grow(n); g.distinct(); g.verify(); g.values(5); if (a < 0) { mc::state(n + k); return; }
    g.collect(pattern(a, n)); g.grow(n / 3 + 1000); g.grow(n); g.distinct(); g.collect(pattern(b, n)); g.grow(n / 7); g.verify(); mc::state(mc::mix(n, a * 100 + b));
}
// a manager holding all functions of 4 variables, thinned out, collected, and built up again
void functions(int k, int a, int how) {
    keys(k); bdd_mgr m; add_vars(m, 5); const Pos pos = ident(4); const TT N = 65536; std::vector<node_ref> f(N);
    std::vector<size_t> order(N); for (size_t i = 0; i < N; ++i) order[i] = how & 1 ? N - 1 - i : how & 2 ? (i * 40503) % N : i;
    for (size_t i : order) f[i] = build(m, i, pos);
    auto count = [&](const std::vector<TT>& ts) { return 2 + shared_size(ts, 4); };
    std::vector<TT> all; for (TT t = 0; t < N; ++t) all.push_back(t); MC_CHECK(m.nr_nodes() == count(all), "%zu nodes for all functions of 4 variables", m.nr_nodes());
    auto keep = pattern(a, N); std::vector<TT> kept; for (TT t = 0; t < N; ++t) if (keep(t)) kept.push_back(t); else f[t] = m.botsink();
    m.collect_garbage(); MC_CHECK(m.nr_nodes() == count(kept), "%zu nodes for %zu functions after a collection, expected %zu", m.nr_nodes(), kept.size(), count(kept));
    for (TT t : kept) MC_CHECK(build(m, t, pos) == f[t], "%s is not found again", str(t, 4).c_str()); MC_CHECK(m.nr_nodes() == count(kept), "looking functions up created nodes");
    for (TT t : kept) MC_CHECK(eval_tt(f[t], pos, 5) == t, "%s changed", str(t, 4).c_str());
    for (size_t i : order) if (!keep(i)) { TT t = i, u = scatter(t) & 0xffff; node_ref r = how & 4 ? build(m, t, pos) : m.and_rec(build(m, t | u, pos), build(m, t | (~u & 0xffff), pos)); f[t] = r; }
    std::set<node*> d; for (TT t = 0; t < N; ++t) d.insert(f[t].address()); MC_CHECK(d.size() == N, "%zu references for all functions of 4 variables", d.size());
    for (TT t = 0; t < N; t += 1) MC_CHECK(eval_tt(f[t], pos, 5) == t, "%s has another function after regrowth", str(t, 4).c_str());
    m.collect_garbage(); MC_CHECK(m.nr_nodes() == count(all), "%zu nodes after regrowth and a collection", m.nr_nodes()); mc::steps(3 * N); mc::state(k * 100 + a * 8 + how);
}
// many results: every result is compared by reference, the cache passes all its sizes
void results(int u, size_t target) {
    keys(5 + u); bdd_mgr m; add_vars(m, 4); const Pos pos = ident(4); const TT N = 65536; std::vector<node_ref> f; for (TT t = 0; t < N; ++t) f.push_back(build(m, t, pos));
    for (size_t i = 0; i < target; ++i) { mc::beat(); TT a = scatter(i + u) & 0xffff, b = scatter(i / 3 * 7 + u) & 0xffff; TT w; node_ref r; switch ((i + u) % 4) { case 0: r = m.and_rec(f[a], f[b]); w = a & b; break; case 1: r = m.xor_rec(f[a], f[b]); w = a ^ b; break; case 2: r = m.or_rec(f[a], f[b]); w = a | b; break; default: { TT c = (a * 5 + b) & 0xffff; r = m.ite_rec(f[a], f[b], f[c]); w = (a & b) | (~a & c & 0xffff); } } MC_CHECK(r == f[w], "result %zu is %s, expected %s", i, str(eval_tt(r, pos, 4), 4).c_str(), str(w, 4).c_str()); if ((i & (i + 1)) == 0) m.collect_garbage(); }
    mc::steps(target); mc::state(u);
}
// counting constraints with hundreds of thousands of nodes over hundreds of variables, built level by level
void counting(int n, int b) {
    bdd_mgr m; add_vars(m, n);
    auto cond = [&](int kind, int c) { return kind == 0 ? c == b : kind == 1 ? c <= b : c >= b; };
    auto make = [&](int kind) { std::vector<node_ref> level; for (int c = 0; c <= n; ++c) level.push_back(cond(kind, c) ? m.topsink() : m.botsink()); for (int i = n - 1; i >= 0; --i) { std::vector<node_ref> up; for (int c = 0; c <= i; ++c) mc::beat(), up.push_back(m.unique_find(i, level[c], level[c + 1])); level.swap(up); } return level[0]; };
    auto size = [&](int kind) { // nodes: (level, ones so far) pairs at which the outcome is still open
        size_t want = 0; for (int i = 0; i < n; ++i) for (int c = 0; c <= i; ++c) { const int rest = n - i; if (kind == 0 ? c <= b && c + rest >= b : kind == 1 ? c <= b && c + rest > b : c < b && c + rest >= b) ++want; } return want; };
    node_ref f[3]; for (int k = 0; k < 3; ++k) { f[k] = make(k); MC_CHECK(f[k].nr_nodes() == size(k), "counting diagram over %d variables (bound %d, kind %d) has %zu nodes, expected %zu", n, b, k, f[k].nr_nodes(), size(k)); }
    MC_CHECK(m.and_rec(f[1], f[2]) == f[0], "at most and at least %d of %d is not exactly", b, n); MC_CHECK(m.or_rec(f[1], f[2]) == m.topsink(), "at most or at least %d of %d is not true", b, n);
    { node_ref x = m.xor_rec(f[1], f[2]), back = m.xor_rec(x, f[2]); MC_CHECK(back == f[1], "exclusive-or twice with the diagram of %d of %d gives another reference", b, n); MC_CHECK(m.ite_rec(f[1], f[2], m.botsink()) == f[0] && m.ite_rec(f[2], f[1], f[0]) == f[0], "if-then-else of counting diagrams"); }
    std::vector<char> l(n); for (int k = 0; k < 60; ++k) { int c = k < 20 ? b - 10 + k : int(scatter(k) % (n + 1)); if (c < 0 || c > n) continue; std::vector<int> p(n); for (int i = 0; i < n; ++i) p[i] = i; for (int i = n - 1; i > 0; --i) std::swap(p[i], p[scatter(k * 100003 + i) % (i + 1)]); for (int i = 0; i < n; ++i) l[p[i]] = i < c; for (int q = 0; q < 3; ++q) MC_CHECK(f[q].evaluate(l.begin(), l.end()) == cond(q, c), "counting diagram over %d variables wrong with %d ones", n, c); }
    std::vector<int> order{int(n % 3), int((n + 1) % 3), int((n + 2) % 3)};
    m.collect_garbage(); for (int k = 0; k < 3; ++k) { MC_CHECK(make(k) == f[k], "built a second time it is another reference"); }
    for (int k : order) { f[k] = m.botsink(); m.collect_garbage(); for (int q = 0; q < 3; ++q) if (!f[q].is_terminal()) MC_CHECK(f[q].nr_nodes() == size(q) && make(q) == f[q], "a held diagram changed in a collection"); m.collect_garbage(); }
    MC_CHECK(m.nr_nodes() == 2, "%zu nodes remain", m.nr_nodes()); mc::steps(3 * size(0)); mc::state(mc::mix(n, b));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH && !TINY_POOLS; std::vector<mc::Scenario> s;
    static const size_t sizes[] = {1, 2, 31, 32, 33, 34, 62, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 511, 512, 513, 514, 1024, 1025, 1026, 1500, 2047, 2048, 2049, 2050, 4096, 4097, 4098, 5000}; const int NS = sizeof sizes / sizeof *sizes;
    static const size_t big[] = {8192, 8194, 16384, 16386, 32768, 32770, 65536, 65538}; 
    s.push_back({"tables", "two variables grown one after the other to every pair of table sizes from 64 to " + std::string(TINY_POOLS ? "16384" : T ? "1048576" : "524288") + " slots, in both orders; with the first one's nodes dropped, collected and regrown in between for sizes up to " + std::string(T ? "131072" : "65536"), 15 * 15 * 4, [T](long u) { const int i = 6 + int(u % 15), j = 6 + int(u / 15 % 15), h = int(u / 225), top = TINY_POOLS ? 14 : h >= 2 ? (T ? 17 : 16) : T ? 20 : 19; if (i <= top && j <= top) tables(i, j, h); }, 240});
#ifdef LBDD_VERIF_SMALL_POOLS
    s.push_back({"rounds", "tables of 35 sizes from 1 to 5000 around the capacity steps, 5 key families: grown, collected keeping one of 12 patterns, regrown, collected keeping one of 12 patterns, grown further", NS * NPAT * 5, [](long u) { rounds(sizes[u % NS], int(u / NS % 5), int(u / NS / 5)); }, 120});
    s.push_back({"rounds-big", "the same for 8 sizes from 8192 to 65538", T ? 8 * NPAT * 2 : 8 * 4, [](long u) { rounds(big[u % 8], int(u / 8 / NPAT), int(u / 8 % NPAT)); }, 300});
    s.push_back({"functions", "all 65536 functions of 4 variables in one manager, three orders, two key families, thinned by one of 12 patterns, collected, regrown by lookups or conjunctions", T ? 2 * NPAT * 8 : 2 * NPAT * 2, [](long u) { functions(int(u % 2), int(u / 2 % NPAT), int(u / 2 / NPAT * 3) % 8); }, 300});
    s.push_back({"counting", "exactly, at most and at least b of n variables, n up to " + std::to_string(T ? 800 : 400) + ", and their combinations", T ? 120 : 60, [T](long u) { int n = int(u / 3 + 1) * 20; counting(n, int(u % 3 == 0 ? n / 2 : u % 3 == 1 ? n / 3 : n - 7)); }, 120});
#else
    s.push_back({"every-size", "one table grown node by node to " + std::to_string(T ? 12000 : 5000) + ", every earlier node looked up after every step, 5 key families", 5, [T](long u) { all_sizes(int(u), T ? 12000 : 5000); }, 300});
    s.push_back({"ladder", "one variable grown to 600000 nodes through all fifteen table sizes, four key families, all nodes looked up again around every step", T ? 16 : 4, [](long u) { huge(u < 2 ? int(u) : int(u) + 5, -1, -1, 600000); }, 300});
    s.push_back({"ladder-rounds", "one variable grown to 530000 nodes, collected keeping one of 12 patterns, regrown, collected keeping another, grown", T ? NPAT * 6 : NPAT, [](long u) { huge(int(u % 2), int(u % NPAT), int((u * 5 + u / NPAT + 1) % NPAT), 530000); }, 300});
    s.push_back({"results", "histories of " + std::to_string(T ? 12000000 : 3000000) + " operations on the functions of 4 variables with collections at every power of two", T ? 32 : 8, [T](long u) { results(int(u), T ? 12000000 : 3000000); }, 300});
#endif
    return s;
}
