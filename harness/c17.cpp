// C17: removing BDDs from a collection keeps the others.
#include "ref.h"
#include <deque>
using namespace kit; using namespace BDD;

namespace {
static const Pos pos = {0, 2, 3};
static const TT pool[10] = {0xca, 0x00, 0x96, 0xff, 0xaa, 0xe8, 0x80, 0x00, 0x3c, 0xff};

// iterator that may only be read inside its range
struct Guard { // random access, reports every access outside the range
    using iterator_category = std::random_access_iterator_tag; using value_type = size_t; using difference_type = ptrdiff_t; using pointer = size_t*; using reference = size_t&;
    size_t *p, *b, *e;
    Guard at(ptrdiff_t d) const { MC_CHECK(p + d >= b && p + d <= e, "removal moves outside the given range"); return Guard{p + d, b, e}; }
    reference operator*() const { MC_CHECK(p >= b && p < e, "removal reads outside the given range"); return *p; }
    pointer operator->() const { return &**this; } reference operator[](ptrdiff_t d) const { return *at(d); }
    Guard& operator++() { return *this = at(1); } Guard operator++(int) { Guard g = *this; ++*this; return g; }
    Guard& operator--() { return *this = at(-1); } Guard operator--(int) { Guard g = *this; --*this; return g; }
    Guard& operator+=(ptrdiff_t d) { return *this = at(d); } Guard& operator-=(ptrdiff_t d) { return *this = at(-d); }
    Guard operator+(ptrdiff_t d) const { return at(d); } Guard operator-(ptrdiff_t d) const { return at(-d); } friend Guard operator+(ptrdiff_t d, const Guard& g) { return g.at(d); }
    ptrdiff_t operator-(const Guard& o) const { return p - o.p; }
    bool operator==(const Guard& o) const { return p == o.p; } bool operator!=(const Guard& o) const { return p != o.p; } bool operator<(const Guard& o) const { return p < o.p; } bool operator>(const Guard& o) const { return p > o.p; } bool operator<=(const Guard& o) const { return p <= o.p; } bool operator>=(const Guard& o) const { return p >= o.p; }
};
const char* fname[6] = {"vector", "part of a longer array", "part of a deque", "deque", "ints", "guarded iterator"};
void rem(bdd_collection& c, const std::vector<size_t>& idx, int form) {
    mc::steps();
    switch (form % 6) {
        case 0: { std::vector<size_t> v(idx); c.remove(v.begin(), v.end()); MC_CHECK(v == idx, "the given indices were modified"); break; }
        case 1: { std::vector<size_t> v{0, 0}; v.insert(v.end(), idx.begin(), idx.end()); const size_t behind = idx.empty() ? 0 : idx.back() + 1; v.push_back(behind); v.push_back(behind + 1); v.push_back(0); size_t* p = v.data() + 2; c.remove(p, p + idx.size()); break; }
        case 2: { std::deque<size_t> v(idx.begin(), idx.end()); v.push_back(idx.empty() ? 0 : idx.back() + 1); c.remove(v.begin(), v.end() - 1); break; }
        case 3: { std::deque<size_t> v(idx.begin(), idx.end()); c.remove(v.begin(), v.end()); break; }
        case 4: { std::vector<int> v(idx.begin(), idx.end()); v.shrink_to_fit(); c.remove(v.begin(), v.end()); break; }
        default: { std::vector<size_t> v(idx); size_t* p = v.data(); c.remove(Guard{p, p, p + v.size()}, Guard{p + v.size(), p, p + v.size()}); }
    }
}
struct Model { std::vector<TT> t; };
void same(bdd_collection& c, const std::vector<TT>& t, const char* who) {
    MC_CHECK(c.nr_bdds() == t.size() && c.size() == t.size(), "%s: %zu BDDs are stored, expected %zu", who, c.nr_bdds(), t.size());
    for (size_t i = 0; i < t.size(); ++i) check_stored(c, i, t[i], pos, who);
}
void remove_and_check(bdd_collection& c, std::vector<TT>& t, unsigned mask, int form) {
    std::vector<size_t> idx; std::vector<TT> left; std::vector<Stored> s, k = all_stored(c);
    for (size_t i = 0; i < t.size(); ++i) if (mask >> i & 1) idx.push_back(i); else { left.push_back(t[i]); s.push_back(k[i]); }
    if (mc::tracing) { std::string x; for (size_t i : idx) x += " " + std::to_string(i); MC_NOTE("of %zu BDDs remove%s (%s)", t.size(), x.c_str(), fname[form % 6]); }
    rem(c, idx, form); t = left; same(c, t, "after removal");
    for (size_t i = 0; i < s.size(); ++i) MC_CHECK(same_diagram(stored(c, i), s[i]), "BDD now at %zu has another structure after removal", i);
}
// all subsets of n stored BDDs, then every kind of later operation
void subsets(int n, long u) {
    const int shift = int(u % 10), form = int(u / 10 % 6), source = int(u / 60 % 3);
    for (unsigned mask = 0; mask < (1u << n); ++mask) {
        bdd_mgr m; add_vars(m, 4); bdd_collection c; std::vector<TT> t;
        for (int i = 0; i < n; ++i) {
            TT x = pool[(i + shift) % 10];
            if (source == 0 || (source == 2 && i % 2)) c.add_bdd(build(m, x, pos));
            else { bdd_collection d; size_t a = c.add_bdd(build(m, x, pos)); size_t r = c.bdd_and(a, a); std::vector<size_t> one{a}; (void)r; c.remove(one.begin(), one.end()); } // sinks in the other order
            t.push_back(x);
        }
        same(c, t, "before removal"); remove_and_check(c, t, mask, form);
        switch ((mask + u) % 5) { // later operations
            case 0: { size_t r = c.add_bdd(build(m, 0x1b, pos)); MC_CHECK(r == t.size(), "index after removal is %zu", r); t.push_back(0x1b); break; }
            case 1: if (t.size() > 1) { c.bdd_and(t.size() - 1, size_t(0)); t.push_back(t.front() & t.back()); } break;
            case 2: if (!t.empty()) { std::set<size_t> p{0}, q; c.bdd_or_var(t.size() - 1, p, q); TT w = 0; { bdd_collection d; put(d, t.back(), pos); d.bdd_or_var(0, p, q); w = eval_tt(d, 1, pos, 4); } t.push_back(w); } break;
            case 3: if (!t.empty()) { std::vector<size_t> map{0, 1, 2, 3}; c.rebase(0, map.begin(), map.end()); for (size_t i = 0; i < t.size(); ++i) MC_CHECK(c.export_bdd(m, i) == build(m, t[i], pos), "exporting BDD %zu after removal gives another reference", i); } break;
            default: remove_and_check(c, t, mask * 5 % 64, form + 1);
        }
        same(c, t, "after a later operation"); 
        for (size_t i = 0; i < t.size(); ++i) MC_CHECK(m.add_bdd(c, i) == build(m, t[i], pos), "adding BDD %zu to a manager after removal gives another reference", i);
        mc::state(mc::mix(mc::mix(mask, n), shift));
    }
}
// sequences of removals, additions and conjunctions
void history(long u, int depth) {
    bdd_mgr m; add_vars(m, 4); bdd_collection c; std::vector<TT> t; for (int i = 0; i < 4; ++i) { t.push_back(pool[i * 3 % 10]); c.add_bdd(build(m, t.back(), pos)); }
    for (int d = 0; d < depth; ++d) {
        int a = d == 0 ? int(u) : mc::choose(20, "step");
        if (a < 16) remove_and_check(c, t, a, a + d);
        else if (a < 18) { TT x = a == 16 ? 0xff : 0xe8; size_t r = c.add_bdd(build(m, x, pos)); MC_CHECK(r == t.size(), "index is %zu", r); t.push_back(x); MC_NOTE("add %s", str(x, 3).c_str()); }
        else if (t.size() >= 2) { std::vector<size_t> o{t.size() - 1, 0}; if (a == 19) o.push_back(t.size() / 2); size_t r = c.bdd_and(o.begin(), o.end()); MC_CHECK(r == t.size(), "index is %zu", r); TT w = 0xff; for (size_t i : o) w &= t[i]; t.push_back(w); MC_NOTE("conjunction"); }
        same(c, t, "history");
    }
    uint64_t h = 5; for (TT x : t) h = mc::mix(h, x); mc::state(h);
}
// many BDDs: every k-th removed, ranges removed
void many(int n, int k) {
    bdd_mgr m; add_vars(m, 4); bdd_collection c; std::vector<TT> t; for (int i = 0; i < n; ++i) { t.push_back(pool[(i * 7 + k) % 10] ^ (i % 3 ? 0 : 0x42)); c.add_bdd(build(m, t.back(), pos)); }
    std::vector<size_t> idx; std::vector<TT> left; for (int i = 0; i < n; ++i) { bool r = k == 0 ? true : k == 1 ? i < n - 1 : k == 2 ? i > 0 : k < 6 ? i % (k - 1) == 0 : i % (k - 1) != 0; if (r) idx.push_back(i); else left.push_back(t[i]); }
    rem(c, idx, n + k); t = left; same(c, t, "after removing many"); size_t r = c.add_bdd(build(m, 0x96, pos)); MC_CHECK(r == t.size(), "index is %zu", r); t.push_back(0x96); same(c, t, "after adding again"); mc::state(mc::mix(n, k));
}
// many and large BDDs
void scale(size_t n, int pattern, int form) {
    ref::Store s; bdd_collection c; bdd_mgr m; std::vector<ref::Id> id; std::vector<size_t> gone; mc::steps(3); const auto V = ref::vars(9, 1), L = ref::vars(300, 1); add_vars(m, 400);
    for (size_t i = 0; i < n; ++i) { const ref::Id f = i % 97 == 5 ? ref::shape(s, int(i / 97 % ref::SHAPES), L) : i % 31 == 7 ? ref::Id(i / 31 % 2) : ref::shape(s, int(i % ref::SHAPES), std::vector<size_t>(V.begin() + i % 5, V.end())); id.push_back(f); c.add_bdd(ref::make(m, s, f)); }
    for (size_t i = 0; i < n; ++i) if (pattern == 0 ? i % 2 == 0 : pattern == 1 ? i >= n / 2 : pattern == 2 ? i < n / 2 : pattern == 3 ? i == n / 2 : pattern == 4 ? i % 17 == 3 : pattern == 5 ? i != n / 2 : i == n - 1) gone.push_back(i);
    const auto before = all_stored(c); rem(c, gone, form); std::vector<ref::Id> left; std::vector<Stored> keep; for (size_t i = 0; i < n; ++i) if (!std::binary_search(gone.begin(), gone.end(), i)) { left.push_back(id[i]); keep.push_back(before[i]); }
    MC_CHECK(c.nr_bdds() == left.size(), "%zu of %zu BDDs removed, %zu left", gone.size(), n, c.nr_bdds()); MC_CHECK(all_stored(c) == keep, "removing %zu of %zu BDDs changed another one", gone.size(), n);
    for (size_t i = 0; i < left.size(); i += 1 + left.size() / 40) { ref::stored_is(s, c, i, left[i], "BDD that was kept", n); if (left[i] > 1) MC_CHECK(c.export_bdd(m, i) == ref::make(m, s, left[i]), "export after removal"); }
    const size_t k = c.add_bdd(ref::make(m, s, id[n / 2])); MC_CHECK(k == left.size(), "next BDD has index %zu", k); ref::stored_is(s, c, k, id[n / 2], "BDD added after removal", n); if (k > 0) { const size_t r = c.bdd_and(k, size_t(0)); ref::stored_is(s, c, r, s.land(id[n / 2], left[0]), "conjunction after removal", n); }
    mc::nontrivial(); mc::state(mc::mix(n, pattern * 8 + form));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(); std::vector<mc::Scenario> s;
    for (int n = 1; n <= (T ? 8 : 6); ++n) s.push_back({"subsets-" + std::to_string(n), "all subsets of " + std::to_string(n) + " stored BDDs (10 selections, constants included, imported or computed) given by 6 kinds of iterators, then a later operation of 5 kinds", 180, [n](long u) { subsets(n, u); }, 120});
    const int D = T && A ? 4 : 3; s.push_back({"histories", "all sequences of " + std::to_string(D) + " steps out of 20 (removal of every subset of the first four, additions, conjunctions)", 20, [D](long u) { history(u, D); }});
    s.push_back({"many", "up to " + std::to_string(T ? 200 : 60) + " BDDs, ten patterns of removal", (T ? 200 : 60) * 10, [](long u) { many(1 + int(u / 10), int(u % 10)); }});
    { const size_t M = A ? (T ? 4097 : 1025) : 129; const auto z = ref::sizes(M); s.push_back({"scale", "collections of 2^k-1, 2^k, 2^k+1 BDDs up to " + std::to_string(M) + ", some of hundreds of nodes, seven patterns of removal x six iterator kinds", long(z.size()) * 42, [z](long u) { scale(z[u / 42], int(u / 6 % 7), int(u % 6)); }, 120}); }
    return s;
}
