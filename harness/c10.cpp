// C10: size-limited conjunction of references.
#include "ref.h"
#include <limits>
using namespace kit; using namespace BDD;

namespace {
const size_t MAX = std::numeric_limits<size_t>::max();

void call(bdd_mgr& m, node_ref f, node_ref g, size_t limit, size_t size, const node_ref* canon, const std::function<bool(node_ref&)>& same, const char* when) {
    mc::steps();
    std::tuple<node_ref, size_t> x = m.and_rec_limited(f, g, limit);
    node_ref r(std::get<0>(x)); const size_t c = std::get<1>(x);
    const bool null = r.address() == nullptr;
    MC_CHECK(null == (size >= limit), "limit %zu, the conjunction has %zu nodes (%s): %s", limit, size, when, null ? "null reference" : "not null");
    if (null) { MC_CHECK(c == MAX, "limit %zu, %zu nodes (%s): null reference with count %zu", limit, size, when, c); return; }
    MC_CHECK(c == size, "limit %zu (%s): reports %zu nodes, the conjunction has %zu", limit, when, c, size);
    MC_CHECK(!canon || r == *canon, "limit %zu (%s): not the canonical conjunction", limit, when);
    MC_CHECK(same(r), "limit %zu (%s): returns another function than the conjunction", limit, when);
    MC_CHECK(r.nr_nodes() == size, "limit %zu (%s): result has %zu nodes, not %zu", limit, when, r.nr_nodes(), size);
}
// which limits in which order
std::vector<size_t> limits(int order, size_t size) {
    std::vector<size_t> l; for (size_t i = 0; i <= size + 2; ++i) l.push_back(i);
    if (order == 0) { l.push_back(1000000); l.push_back(MAX); }
    else if (order == 1) std::reverse(l.begin(), l.end());
    else { std::vector<size_t> k; for (size_t i = 0, j = l.size(); i < j;) { k.push_back(l[i++]); if (i < j) k.push_back(l[--j]); } l = k; k.insert(k.begin(), MAX); l = k; }
    return l;
}
// modes: 0..2 orders of limits in a fresh manager; 3 the full conjunction is computed first; 4 part of it is
void pair(bdd_mgr& m, TT a, TT b, const Pos& pos, int mode) {
    const int n = int(pos.size()); const TT w = a & b; const size_t size = bdd_size(w, n);
    node_ref f = build(m, a, pos), g = build(m, b, pos);
    MC_NOTE("%s and %s (%zu nodes), mode %d", str(a, n).c_str(), str(b, n).c_str(), size, mode);
    auto same = [&](node_ref& r) { return eval_tt(r, pos, m.nr_variables()) == w; };
    if (mode == 3) m.and_rec(f, g);
    if (mode == 4 && !f.is_terminal() && !g.is_terminal()) { m.and_rec(f.low(), g.low()); m.and_rec(f.high(), g); m.or_rec(f, g); m.xor_rec(f, g); }
    for (size_t l : limits(mode % 3, size)) {
        call(m, f, g, l, size, nullptr, same, "f, g"); call(m, g, f, l, size, nullptr, same, "g, f");
        if (l == size) { // right after a failed attempt
            node_ref o = m.or_rec(f, g); MC_CHECK(eval_tt(o, pos, m.nr_variables()) == (a | b), "disjunction wrong after a failed conjunction");
            if (mode == 1) m.collect_garbage();
        }
    }
    node_ref full = m.and_rec(f, g), canon = build(m, w, pos);
    MC_CHECK(full == canon && eval_tt(full, pos, m.nr_variables()) == w, "conjunction wrong after limited ones");
    call(m, f, g, size + 1, size, &canon, same, "after the full conjunction"); call(m, f, g, size, size, &canon, same, "after the full conjunction");
    check_structure(full, "conjunction"); check_structure(f, "operand"); check_structure(g, "operand");
    MC_CHECK(eval_tt(f, pos, m.nr_variables()) == a && eval_tt(g, pos, m.nr_variables()) == b, "an operand changed");
    if (mode == 2) { m.collect_garbage(); call(m, f, g, size + 1, size, &canon, same, "after garbage collection"); }
    mc::nontrivial(size > 1); mc::state(mc::mix(mc::mix(a, b), n * 8 + mode));
}
// larger conjunctions: counting constraints over n variables; every limit
void large(int n, int kf, int kg, int order) {
    bdd_mgr m; std::vector<node_ref> x, ev; for (int i = 0; i < n; ++i) { x.push_back(m.projection(i)); if (i % 2 == 0) ev.push_back(x.back()); }
    auto mk = [&](int k) -> node_ref { switch (k) {
        case 0: return m.at_most(x.begin(), x.end(), n / 2); case 1: return m.at_least(x.begin(), x.end(), n / 3); case 2: return m.cardinality(x.begin(), x.end(), n / 2);
        case 3: return m.simplex(ev.begin(), ev.end()); case 4: { node_ref r = m.botsink(); for (int i = 0; i + 1 < n; i += 2) r = m.or_rec(r, m.and_rec(x[i], x[i + 1])); return r; }
        default: { node_ref r = m.topsink(); for (int i = 0; 2 * i + 1 < n; ++i) r = m.and_rec(r, m.or_rec(x[i], x[n - 1 - i])); return r; } } };
    node_ref f = mk(kf), g = mk(kg);
    size_t size; std::vector<char> want; std::vector<char> lab(n);
    { bdd_mgr m2; std::vector<size_t> id; for (int i = 0; i < n; ++i) id.push_back(i); // reference: conjunction evaluated pointwise, canonical diagram built level by level
      std::vector<node_ref> lev; for (size_t a = 0; a < (size_t(1) << n); ++a) { for (int i = 0; i < n; ++i) lab[i] = a >> (n - 1 - i) & 1; lev.push_back(f.evaluate(lab.begin(), lab.end()) && g.evaluate(lab.begin(), lab.end()) ? m2.topsink() : m2.botsink()); }
      add_vars(m2, n); for (int i = n - 1; i >= 0; --i) { std::vector<node_ref> up; for (size_t a = 0; a < (size_t(1) << i); ++a) up.push_back(m2.unique_find(i, lev[2 * a], lev[2 * a + 1])); lev = up; }
      std::vector<node_ref> seen{lev[0]}; std::set<node*> s; while (!seen.empty()) { node_ref r = seen.back(); seen.pop_back(); if (r.is_terminal() || !s.insert(r.address()).second) continue; seen.push_back(r.low()); seen.push_back(r.high()); } size = s.size(); }
    auto same = [&](node_ref& r) { for (size_t a = 0; a < (size_t(1) << n); ++a) { for (int i = 0; i < n; ++i) lab[i] = a >> i & 1; if (r.evaluate(lab.begin(), lab.end()) != (f.evaluate(lab.begin(), lab.end()) && g.evaluate(lab.begin(), lab.end()))) return false; } return true; };
    bool checked = false; auto once = [&](node_ref& r) { if (checked) return true; checked = true; return same(r); };
    MC_NOTE("%d variables, kinds %d and %d: %zu nodes", n, kf, kg, size);
    node_ref first(nullptr);
    for (size_t l : limits(order, size)) { call(m, f, g, l, size, nullptr, once, "large"); if (l % 5 == 3) m.collect_garbage(); }
    node_ref full = m.and_rec(f, g); MC_CHECK(same(full), "conjunction wrong after limited ones");
    for (size_t l : limits(order, size)) call(m, g, f, l, size, &full, [](node_ref&) { return true; }, "after the full conjunction");
    mc::nontrivial(size > 10); mc::state(mc::mix(n, kf * 64 + kg * 8 + order));
}
void scale(size_t n, int a, int b) {
    ref::Store s; const auto V = ref::vars(n, (a + b) % 4); const ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, V), w = s.land(f, g); const size_t size = s.size(w); MC_NOTE("%zu variables: %s, %s, %zu nodes", n, ref::shape_name(a), ref::shape_name(b), size);
    std::set<size_t> ls{0, 1, 2, size / 2, size, size + 1, size + 2, MAX, MAX - 1, size_t(1) << 32, (size_t(1) << 32) + 1, (size_t(1) << 31), 65536, 65537}; if (size) ls.insert(size - 1); for (size_t p = 4; p < size; p *= 2) ls.insert(p);
    bdd_mgr m; node_ref F = ref::make(m, s, f), G = ref::make(m, s, g); const auto same = [&](node_ref& r) { return ref::read(s, r, "limited conjunction") == w; };
    for (size_t l : ls) { if (l > size && l % 2 == 0) { bdd_mgr q; node_ref F2 = ref::make(q, s, f), G2 = ref::make(q, s, g); call(q, G2, F2, l, size, nullptr, same, "fresh manager"); } call(m, F, G, l, size, nullptr, same, "large"); mc::beat(); }
    node_ref full = m.and_rec(F, G); MC_CHECK(same(full), "conjunction wrong after limited ones"); for (size_t l : {size, size + 1, size + 2, MAX}) call(m, G, F, l, size, &full, same, "after the full conjunction");
    ref::is(s, F, f, "operand", n); ref::is(s, G, g, "operand", n); mc::nontrivial(size > 10); mc::state(mc::mix(n, a * 64 + b));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH; std::vector<mc::Scenario> s;
    s.push_back({"pairs-3var", "all 65536 pairs of functions of 3 variables, every limit from 0 to the size + 2 in both operand orders, five histories (limits ascending, descending, alternating; result computed before; part of it computed before), fresh manager each", 256,
        [](long u) { static const Pos pos = {0, 1, 3}; for (TT b = 0; b < 256; ++b) for (int mode = 0; mode < 5; ++mode) { bdd_mgr m; add_vars(m, 4); key_regime((u + b) % NKEYS); pair(m, u, b, pos, mode); } }, 60});
    s.push_back({"shared-manager-3var", "all 65536 pairs of functions of 3 variables, one manager per first operand, so that results accumulate", 256,
        [](long u) { static const Pos pos = {1, 2, 4}; bdd_mgr m; add_vars(m, 5); for (TT b = 0; b < 256; ++b) pair(m, u, (b * 77 + 5) % 256, pos, int(b % 5)); }});
    const long P = T ? 65536 : 8192;
    s.push_back({"pairs-4var", "functions of 4 variables: " + std::to_string(P) + " first operands x 8 second operands of a covering design, every limit", P / 32,
        [P](long u) { const Pos pos = ident(4); for (int k = 0; k < 32; ++k) { TT a = (u * 32 + k) * (65536 / P); a += scatter(a) % (65536 / P); for (int j = 0; j < 8; ++j) { bdd_mgr m; add_vars(m, 4); TT b = j == 0 ? a : j == 1 ? ~a & 0xffff : j < 5 ? scatter(a * 8 + j) & 0xffff : a | (scatter(a * 8 + j) & scatter(j) & 0xffff); pair(m, a & 0xffff, b & 0xffff, pos, j % 5); } } }, 60});
    const int N = T ? 14 : 12;
    s.push_back({"large", "conjunctions of six kinds of functions of 4.." + std::to_string(N) + " variables, every limit, with collections in between, before and after the full conjunction", (N - 3) * 36, [](long u) { int n = 4 + int(u / 36); large(n, u % 6, u / 6 % 6, int(u % 3)); }, 120});
    { const size_t M = T ? 1025 : 513; std::vector<std::array<int, 3>> u; for (size_t n : ref::sizes(M)) for (int a = 0; a < ref::SHAPES; ++a) for (int b = 0; b < ref::SHAPES; ++b) if ((n <= 70 || ref::pair_at(n * 4, a, b)) && (T || (a * 5 + b * 7 + n) % (n < 70 ? 2 : 5) == 0)) u.push_back({int(n), a, b});
      s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 6, [](long u) { ref::Far far(ref::FAR[u % 3]); const int a = int(u / 3 % 12), b = int((a + 1 + u / 36 * 2) % 12); scale(6, a, b); }, 120});
      s.push_back({"scale", "pairs of 12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ", limits around the size, powers of two and very large ones, against an independent diagram store", long(u.size()), [u](long i) { scale(u[i][0], u[i][1], u[i][2]); }, 120}); }
    { const int K = T ? 15 : 13; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + ", and one of 12 kinds or the other", long(K - 3) * 26, [](long u) { scale(2 * size_t(4 + u / 26), ref::WIDE + int(u / 13 % 2), u % 13 == 12 ? (u / 13 % 2 ? ref::WIDE : ref::WIDE + 1) : int(u % 13)); }, 240}); }
    return s;
}
