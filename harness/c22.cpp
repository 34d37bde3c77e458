// C22: the node pool and the page pools.
#include "kit.h"
#include "bdd_node_cache.h"
#include "bdd_var.h"
#include <cstring>
#include <map>
using namespace kit; using namespace BDD;

namespace {
const int BLOCK = int(bdd_node_page_size);
// --- node pool ---
struct NodePool {
    bdd_mgr mgr; bdd_node_cache cache; struct Slot { node* p; node *lo, *hi; size_t tag; unsigned key; }; std::vector<Slot> live; std::set<node*> freed; size_t tag = 0, fresh = 0;
    NodePool() : cache(&mgr) {}
    void reserve() {
        node* p = cache.reserve_node(); mc::steps(); MC_CHECK(p != nullptr, "null node handed out");
        MC_CHECK(p != cache.botsink() && p != cache.topsink(), "a sink was handed out");
        for (node* s : {cache.botsink(), cache.topsink()}) MC_CHECK(std::abs((char*)p - (char*)s) >= long(sizeof(node)), "a node overlapping a sink was handed out");
        for (auto& x : live) MC_CHECK(std::abs((char*)p - (char*)x.p) >= long(sizeof(node)), "node %zu was handed out while %s", x.tag, p == x.p ? "still reserved" : "overlapped by another");
        if (!freed.empty()) MC_CHECK(freed.count(p), "a new node was taken although %zu freed ones are available", freed.size()); else ++fresh;
        freed.erase(p);
        Slot s; s.p = p; s.tag = ++tag; s.lo = cache.botsink(); s.hi = cache.topsink();
        p->init_new_node(s.tag % 1000, s.lo, s.hi); s.key = p->hash_key; live.push_back(s);
        check();
    }
    void free(size_t i) { node* p = live[i].p; cache.free_node(p); mc::steps(); live.erase(live.begin() + i); freed.insert(p); check(); }
    void check() {
        MC_CHECK(cache.nr_nodes() == live.size() + 2, "%zu nodes reported, %zu are reserved besides the sinks", cache.nr_nodes(), live.size());
        if (live.size() <= 64) full_check();
    }
    void full_check() {
        for (auto& x : live) MC_CHECK(x.p->lo == x.lo && x.p->hi == x.hi && x.p->index == x.tag % 1000 && x.p->hash_key == x.key && x.p->xref == 0 && x.p->marked_ == 0, "reserved node %zu was overwritten", x.tag);
        node *b = cache.botsink(), *t = cache.topsink(); MC_CHECK(b != t && b->is_botsink() && t->is_topsink() && !b->is_topsink() && !t->is_botsink() && b->bdd_mgr_1 == &mgr && t->bdd_mgr_1 == &mgr, "a sink was overwritten");
        MC_CHECK(b->xref == 1 + int(live.size()) && t->xref == 1 + int(live.size()), "sinks have %d and %d references, %zu nodes point to them", b->xref, t->xref, live.size());
    }
    void prefill(int n) { for (int i = 0; i < n; ++i) { if (i < n - 3) quick(); else reserve(); } full_check(); }
    void quick() { node* p = cache.reserve_node(); Slot s{p, cache.botsink(), cache.topsink(), ++tag, 0}; p->init_new_node(s.tag % 1000, s.lo, s.hi); s.key = p->hash_key; live.push_back(s); ++fresh; mc::steps(); if (live.size() % 512 == 0) distinct(); }
    void distinct() { std::vector<char*> a{(char*)cache.botsink(), (char*)cache.topsink()}; for (auto& x : live) a.push_back((char*)x.p); std::sort(a.begin(), a.end()); for (size_t i = 1; i < a.size(); ++i) MC_CHECK(a[i] - a[i - 1] >= long(sizeof(node)), "two nodes handed out overlap"); }
    uint64_t hash() { uint64_t h = live.size(); std::vector<size_t> t; for (auto& x : live) t.push_back(x.tag); size_t lo = t.size() > 8 ? t.size() - 8 : 0; for (size_t i = lo; i < t.size(); ++i) h = mc::mix(h, t[i]); return mc::mix(h, freed.size()); }
};
// all sequences of reserving and of freeing one of the first two or last four nodes
void node_histories(int prefill, int depth, int byte) {
    if (mc::memory_controlled()) mc::memory_fill((unsigned char)byte);
    NodePool w; w.prefill(prefill);
    for (int d = 0; d < depth; ++d) {
        std::vector<size_t> c; const size_t n = w.live.size(); for (size_t i = 0; i < n; ++i) if (i < 2 || i + 4 >= n) c.push_back(i);
        int a = mc::choose(int(c.size()) + 1, "reserve/free"); MC_NOTE(a == 0 ? "reserve" : "free the node at position %d", a == 0 ? 0 : int(c[a - 1]));
        if (a == 0) w.reserve(); else w.free(c[a - 1]);
    }
    w.full_check(); w.distinct(); mc::state(w.hash());
}
// k nodes, freed in every order (a subset of them), reserved again and a few more
void node_orders(int prefill, int k, int subset) {
    for (auto& p : permutations(k)) {
        NodePool w; w.prefill(prefill); const size_t base = w.live.size(); for (int i = 0; i < k; ++i) w.reserve(); std::vector<size_t> tags; for (int i = 0; i < k; ++i) tags.push_back(w.live[base + i].tag);
        int n = 0; for (int i : p) if (subset >> i & 1) { for (size_t j = 0; j < w.live.size(); ++j) if (w.live[j].tag == tags[i]) { w.free(j); ++n; break; } }
        const size_t fresh = w.fresh; for (int i = 0; i < n; ++i) w.reserve(); MC_CHECK(w.fresh == fresh && w.freed.empty(), "freed nodes were not handed out again"); for (int i = 0; i < 3; ++i) w.reserve(); w.full_check(); w.distinct(); mc::state(w.hash());
    }
}
// trees: nodes with other nodes as children; freeing a node releases its children
void node_references(int shape, int order) {
    NodePool w; node *bot = w.cache.botsink(), *top = w.cache.topsink(); std::vector<node*> v; std::vector<std::array<int, 2>> ch; const int b0 = bot->xref, t0 = top->xref;
    for (int i = 0; i < 5; ++i) { node* p = w.cache.reserve_node(); int lo = (shape >> i & 1) && i > 0 ? i - 1 : -1, hi = (shape >> i & 2) && i > 1 ? i - 2 : -1; p->init_new_node(9 - i, lo < 0 ? bot : v[lo], hi < 0 ? top : v[hi]); v.push_back(p); ch.push_back({lo, hi}); mc::steps(); }
    auto refs = [&](std::vector<char>& gone) { int b = b0, t = t0; std::vector<int> r(5, 0); for (int i = 0; i < 5; ++i) if (!gone[i]) { if (ch[i][0] < 0) ++b; else ++r[ch[i][0]]; if (ch[i][1] < 0) ++t; else ++r[ch[i][1]]; }
        for (int i = 0; i < 5; ++i) if (!gone[i]) MC_CHECK(v[i]->xref == r[i], "node %d has %d references, %d nodes point to it", i, v[i]->xref, r[i]); MC_CHECK(bot->xref == b && top->xref == t, "sinks have %d and %d references, expected %d and %d", bot->xref, top->xref, b, t); };
    std::vector<char> gone(5, 0); refs(gone); std::vector<std::vector<int>> ps = permutations(5); 
    for (int k = 0; k < 5; ++k) { // free in the order's sequence whichever is unreferenced
        int pick = -1; for (int i : ps[order]) if (!gone[i] && v[i]->xref == 0) { pick = i; break; } MC_CHECK(pick >= 0, "no node is unreferenced");
        w.cache.free_node(v[pick]); gone[pick] = 1; mc::steps(); MC_CHECK(w.cache.nr_nodes() == size_t(2 + 4 - k), "%zu nodes reported", w.cache.nr_nodes()); refs(gone); }
    mc::state(mc::mix(shape, order));
}

// --- page pools ---
template <size_t P, size_t N> struct PagePool {
    using Page = unique_table_page<P>; using Cache = unique_table_page_cache<P, N>; static constexpr size_t per = Cache::nr_pages_simultaneous_allocation;
    Cache cache; struct Slot { Page* p; size_t tag; }; std::vector<Slot> live; std::set<char*> at; std::set<Page*> freed; size_t tag = 0, fresh = 0; const bool big = P > 4096;
    static node* stamp(size_t tag, size_t i) { return reinterpret_cast<node*>((tag << 24 | i << 1) + 8); }
    template <class F> void slots(F f) { if (!big) for (size_t i = 0; i < P; ++i) f(i); else { for (size_t i = 0; i < 40; ++i) f(i); for (size_t i = P - 40; i < P; ++i) f(i); for (size_t i = 64; i < P - 40; i *= 2) { f(i - 1); f(i); } } }
    void count() { const size_t want = (fresh + per - 1) / per * per; MC_CHECK(cache.nr_pages() == want, "%zu pages counted; %zu different ones were needed, allocated %zu at a time", cache.nr_pages(), fresh, per); }
    void reserve() {
        Page* p = cache.reserve_page(); mc::steps(); MC_CHECK(p != nullptr, "null page handed out");
        { auto nx = at.lower_bound((char*)p); MC_CHECK(nx == at.end() || *nx - (char*)p >= long(sizeof(node*) * P), "a page was handed out %s", *nx == (char*)p ? "while still reserved" : "overlapping a reserved one"); if (nx != at.begin()) MC_CHECK((char*)p - *std::prev(nx) >= long(sizeof(node*) * P), "a page was handed out overlapping a reserved one"); at.insert((char*)p); }
        if (!freed.empty()) MC_CHECK(freed.count(p), "a new page was taken although %zu freed ones are available", freed.size()); else ++fresh;
        freed.erase(p); for (size_t i = 0; i < P; ++i) MC_CHECK(p->data[i] == nullptr, "a page of %zu slots is handed out with slot %zu not empty", P, i);
        live.push_back({p, ++tag}); slots([&](size_t i) { p->data[i] = stamp(tag, i); }); check();
    }
    void free(size_t i) { Page* p = live[i].p; cache.free_page(p); mc::steps(); live.erase(live.begin() + i); at.erase((char*)p); freed.insert(p); check(); }
    void check() { count(); if (live.size() <= 12) full_check(); }
    void full_check() { for (auto& x : live) slots([&](size_t i) { MC_CHECK(x.p->data[i] == stamp(x.tag, i), "slot %zu of reserved page %zu was overwritten", i, x.tag); }); }
    uint64_t hash() { uint64_t h = mc::mix(P, live.size()); for (size_t i = live.size() > 8 ? live.size() - 8 : 0; i < live.size(); ++i) h = mc::mix(h, live[i].tag); return mc::mix(h, freed.size()); }
};
template <size_t P, size_t N> void page_histories(int prefill, int depth, int byte) {
    if (mc::memory_controlled()) mc::memory_fill((unsigned char)byte);
    PagePool<P, N> w; if (prefill < 0) prefill = std::max(0, int(w.per) + prefill); for (int i = 0; i < prefill; ++i) w.reserve();
    for (int d = 0; d < depth; ++d) {
        std::vector<size_t> c; const size_t n = w.live.size(); for (size_t i = 0; i < n; ++i) if (i < 1 || i + 3 >= n) c.push_back(i);
        int a = mc::choose(int(c.size()) + 1, "reserve/free"); MC_NOTE(a == 0 ? "reserve page" : "free the page at position %d", a == 0 ? 0 : int(c[a - 1]));
        if (a == 0) w.reserve(); else w.free(c[a - 1]);
    }
    w.full_check(); mc::state(w.hash());
}
template <size_t P, size_t N> void page_orders(int prefill, int k) {
    for (auto& p : permutations(k)) for (int subset = 1; subset < (1 << k); subset = subset * 2 + 1) {
        PagePool<P, N> w; for (int i = 0; i < prefill + k; ++i) w.reserve(); int n = 0;
        for (int i : p) if (subset >> i & 1) for (size_t j = 0; j < w.live.size(); ++j) if (w.live[j].tag == size_t(prefill + i + 1)) { w.free(j); ++n; break; }
        const size_t fresh = w.fresh; for (int i = 0; i < n; ++i) w.reserve(); MC_CHECK(w.fresh == fresh, "freed pages were not handed out again"); w.reserve(); w.full_check(); mc::state(w.hash()); }
}
// one pool per size in the same program: a write to a page of one never shows in another
void all_pools(int byte) {
    if (mc::memory_controlled()) mc::memory_fill((unsigned char)byte);
    PagePool<64, 16384> a; PagePool<128, 8192> b; PagePool<256, 4096> c; PagePool<512, 2048> d; PagePool<1024, 1024> e; PagePool<2048, 512> f; PagePool<4096, 256> g; PagePool<8192, 128> h; PagePool<16384, 64> i; PagePool<32768, 32> j; PagePool<65536, 16> k; PagePool<131072, 8> l; PagePool<262144, 4> m; PagePool<524288, 2> n; PagePool<1048576, 1> o;
    auto each = [&](auto fn) { fn(a); fn(b); fn(c); fn(d); fn(e); fn(f); fn(g); fn(h); fn(i); fn(j); fn(k); fn(l); fn(m); fn(n); fn(o); };
    for (int r = 0; r < 3; ++r) each([](auto& x) { x.reserve(); }); each([](auto& x) { x.full_check(); }); each([](auto& x) { x.free(1); x.full_check(); }); each([](auto& x) { x.free(0); }); each([](auto& x) { x.reserve(); x.full_check(); }); each([](auto& x) { x.reserve(); }); each([](auto& x) { x.full_check(); }); mc::state(byte);
}
// through the library: node and page counts of a manager, nodes' storage taken again after a collection
void manager(long u, int depth) {
    static const int bytes[3] = {0, 0xff, 0x5a}; if (mc::memory_controlled()) mc::memory_fill(bytes[u % 3]);
    bdd_mgr m; add_vars(m, 4); std::vector<node_ref> held; std::vector<TT> tt; const Pos pos = ident(4); std::set<node*> ever;
    const uint64_t salt = u / 3;
    for (int d = 0; d < depth; ++d) {
        int a = d == 0 ? int(salt % 6) : mc::choose(6, "step");
        if (a < 4) { TT t = scatter(salt * 1000 + a + d * 7) & 0xffff; const size_t before = m.nr_nodes(); held.push_back(build(m, t, pos)); tt.push_back(t); std::vector<TT> all(tt); (void)before; }
        else if (a == 4 && !held.empty()) { held.erase(held.begin()); tt.erase(tt.begin()); } else if (a == 5) { m.collect_garbage(); const size_t want = shared_size(tt, 4) + m.nr_variables(); (void)want; }
        mc::steps();
        // all nodes under held BDDs are distinct storage, and hold what they should
        std::set<node*> seen; for (size_t i = 0; i < held.size(); ++i) { if (held[i].is_terminal()) continue; for (auto& x : held[i].nodes_postorder()) seen.insert(x.address()); MC_CHECK(eval_tt(held[i], pos, 4) == tt[i], "a held BDD changed"); }
        MC_CHECK(seen.size() == shared_size(tt, 4), "%zu nodes under the held BDDs, expected %zu", seen.size(), shared_size(tt, 4));
        for (auto it = seen.begin(); it != seen.end(); ++it) { auto nx = std::next(it); if (nx != seen.end()) MC_CHECK((char*)*nx - (char*)*it >= long(sizeof(node)), "two nodes overlap"); }
    }
    uint64_t h = 7; for (TT t : tt) h = mc::mix(h, t); mc::state(h);
}
// tables of three variables of one manager, growing and shrinking in turn: pages come from and return to the pools
std::vector<size_t> page_counts(bdd_mgr& m) { auto& c = m.get_unique_table_page_cache(); return {c.cache_64.nr_pages(), c.cache_128.nr_pages(), c.cache_256.nr_pages(), c.cache_512.nr_pages(), c.cache_1024.nr_pages(), c.cache_2048.nr_pages(), c.cache_4096.nr_pages(), c.cache_8192.nr_pages(), c.cache_16384.nr_pages(), c.cache_32768.nr_pages(), c.cache_65536.nr_pages(), c.cache_131072.nr_pages(), c.cache_262144.nr_pages(), c.cache_524288.nr_pages(), c.cache_1048576.nr_pages()}; }
void tables(long u, int depth, size_t scale) {
    static const int bytes[3] = {0, 0xff, 0x5a}; if (mc::memory_controlled()) mc::memory_fill(bytes[u % 3]);
    const size_t size[5] = {0, 33 * scale, 70 * scale, 140 * scale, 300 * scale}; int K = 2; while (size_t(K) * (K - 1) < size[4]) ++K;
    bdd_mgr m; add_vars(m, 7); std::vector<node_ref> kids; { std::set<TT> used{0, 0xffff}; for (TT x = 0; int(kids.size()) < K; ++x) if (used.insert(scatter(x) & 0xffff).second) kids.push_back(build(m, scatter(x) & 0xffff, {3, 4, 5, 6})); } m.collect_garbage(); const size_t base = m.nr_nodes();
    std::vector<int> plan; for (int d = 0; d < depth; ++d) plan.push_back(d == 0 ? int(u / 3 % 15) : mc::choose(15, "variable and size"));
    std::vector<size_t> after; std::vector<std::vector<node_ref>> t(3);
    for (int round = 0; round < 3; ++round) {
        for (int x : plan) { const int v = x % 3; const size_t n = size[x / 3]; mc::steps();
            if (n < t[v].size()) t[v].resize(n), m.collect_garbage(); else for (size_t p = t[v].size(); p < n; ++p) t[v].push_back(m.unique_find(v, kids[p % K], kids[(p + 1 + p / K) % K]));
            MC_CHECK(m.nr_nodes() == base + t[0].size() + t[1].size() + t[2].size(), "%zu nodes, expected %zu", m.nr_nodes(), base + t[0].size() + t[1].size() + t[2].size());
            for (int w = 0; w < 3; ++w) for (size_t p = 0; p < t[w].size(); ++p) { node_ref r = m.unique_find(w, kids[p % K], kids[(p + 1 + p / K) % K]); MC_CHECK(r == t[w][p] && r.variable() == size_t(w), "node %zu of variable %d is not found again with tables of %zu, %zu and %zu nodes", p, w, t[0].size(), t[1].size(), t[2].size()); } }
        for (auto& x : t) x.clear(); m.collect_garbage(); MC_CHECK(m.nr_nodes() == base, "%zu nodes remain, expected %zu", m.nr_nodes(), base);
        auto c = page_counts(m); if (round == 1) after = c; if (round > 1) for (size_t i = 0; i < c.size(); ++i) MC_CHECK(c[i] == after[i], "pages of %d slots: %zu allocated although the %zu before were released", 64 << i, c[i], after[i]);
    }
    uint64_t h = 1; for (int x : plan) h = mc::mix(h, x); mc::state(h);
}
} // namespace

template <size_t P, size_t N> void pages(std::vector<mc::Scenario>& s, bool T, bool small, bool A) {
    static const int bytes[4] = {0, 0xff, 0xdd, 0x01}; const std::string w = std::to_string(P); const bool big = P > 16384;
    if (!A && P > 1024) return;
    const int D = small ? (big ? 4 : P > 1024 ? (T ? 6 : 5) : (T ? 8 : A ? 6 : 5)) : (T && P <= 4096 ? 4 : 3);
    if (small) s.push_back({"pages-" + w, "pool of pages of " + w + " slots: all sequences of " + std::to_string(D) + " reservations and releases (oldest or one of the three newest pages), after 0.." + (big ? "2" : "6") + " reserved pages, four initial memory contents", long(big ? 12 : 28), [D](long u) { page_histories<P, N>(int(u / 4), D, bytes[u % 4]); }, 120});
    else s.push_back({"pages-" + w, "pool of pages of " + w + " slots with its real block size: all sequences of " + std::to_string(D) + " reservations and releases at every distance from -2 to 1 of the block boundary, four initial memory contents", long(16), [D](long u) { page_histories<P, N>(int(u / 4) - 2 >= 0 ? std::max(int(PagePool<P, N>::per) + int(u / 4) - 2, 1) : int(u / 4) - 2, D, bytes[u % 4]); }, 240});
    if (small && !big) s.push_back({"page-orders-" + w, "pages of " + w + " slots: five pages released in every order, reserved again", 6, [](long u) { page_orders<P, N>(int(u), 5); }, 240});
}

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(), small = BLOCK < 64; std::vector<mc::Scenario> s; static const int bytes[4] = {0, 0xff, 0xdd, 0x01};
    if (small) {
        const int D = A ? (T ? 7 : 5) : 4;
        s.push_back({"nodes", "node pool (blocks of " + std::to_string(BLOCK) + "): all sequences of " + std::to_string(D) + " reservations and releases (first two or last four nodes), after 0.." + std::to_string(2 * BLOCK + 2) + " reserved nodes, four initial memory contents", 4 * (2 * BLOCK + 3), [D](long u) { node_histories(int(u / 4), D, bytes[u % 4]); }});
        s.push_back({"node-orders", "node pool: five nodes, any subset of them released in every order, reserved again, at every distance from the block boundary", 32 * (2 * BLOCK), [](long u) { node_orders(int(u / 32), 5, int(u % 32)); }, 60});
        s.push_back({"node-references", "five nodes with children among each other, 64 shapes, released in all orders compatible with the references", 64, [](long u) { for (int o = 0; o < 120; ++o) node_references(int(u), o); }});
        if (A) s.push_back({"all-pools", "pools of all fifteen sizes side by side", 4, [](long u) { all_pools(bytes[u]); }, 120});
        s.push_back({"tables", "three variables of one manager: all sequences of " + std::to_string(A ? (T ? 5 : 4) : 3) + " steps bringing one table to one of five sizes, three times over, three memory contents; page counts settle", 45, [T, A](long u) { tables(u, A ? (T ? 5 : 4) : 3, 1); }, 120});
        s.push_back({"tables-large", "the same with tables 16, 64 (thorough: 256) times larger, sequences of 3", T ? 135 : 90, [](long u) { tables(u % 45, 2 + (u < 45), u < 45 ? 16 : u < 90 ? 64 : 256); }, 120});
        s.push_back({"manager", "managers: all sequences of building (4 functions), dropping and collecting", 54, [T](long u) { manager(u, T ? 7 : 5); }, 60});
    } else {
        const int D = T ? 5 : 3;
        s.push_back({"nodes-boundary", "node pool with its real block size (" + std::to_string(BLOCK) + "): all sequences of " + std::to_string(D) + " reservations and releases at every distance from -3 to 2 of the first and second block boundary, four initial memory contents", 48, [D](long u) { const int q = int(u / 4); node_histories((q < 6 ? BLOCK - 2 : 2 * BLOCK - 2) + q % 6 - 3, D, bytes[u % 4]); }, 240});
    }
    pages<64, 16384>(s, T, small, A); pages<128, 8192>(s, T, small, A); pages<256, 4096>(s, T, small, A); pages<512, 2048>(s, T, small, A); pages<1024, 1024>(s, T, small, A); pages<2048, 512>(s, T, small, A); pages<4096, 256>(s, T, small, A); pages<8192, 128>(s, T, small, A); pages<16384, 64>(s, T, small, A);
    pages<32768, 32>(s, T, small, A); pages<65536, 16>(s, T, small, A); if (small || T) { pages<131072, 8>(s, T, small, A); pages<262144, 4>(s, T, small, A); pages<524288, 2>(s, T, small, A); pages<1048576, 1>(s, T, small, A); }
    return s;
}
