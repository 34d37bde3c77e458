// C23: managers and collections are independent of each other and of what memory held before.
#include "coll.h"
#include <sstream>
#include <unordered_set>
using namespace kit; using namespace BDD;

namespace {
const int NV = 3;
const TT menu[6] = {0xca, 0x96, 0x80, 0x1b, 0xe8, 0xaa};
// One side: a manager with the references held on it, and a collection. Every operation appends to a log what can be observed.
struct Side {
    std::unique_ptr<bdd_mgr> m; std::vector<node_ref> held; std::vector<TT> t; bdd_collection c; std::vector<TT> ct; std::vector<uint64_t> log; int fresh = 0; size_t extra = 0;
    Side() { make(); }
    void make() { m.reset(new bdd_mgr); add_vars(*m, NV); extra = 0; }
    void drop() { held.clear(); t.clear(); }
    ~Side() { drop(); }
    size_t nv() const { return NV + extra; }
    void hold(node_ref f, TT x) { if (held.size() == 3) { held.erase(held.begin()); t.erase(t.begin()); } held.push_back(f); t.push_back(x & 0xff); }
    TT last(int k = 0) { return t.empty() ? 0xaa : t[t.size() - 1 - k % t.size()]; }
    node_ref ref(int k = 0) { return held.empty() ? m->projection(0) : held[held.size() - 1 - k % held.size()]; }
    static constexpr int OPS = 12;
    void act(int a) {
        mc::steps(); log.push_back(a);
        switch (a) {
            case 0: { TT x = menu[fresh++ % 6]; hold(build(*m, x, ident(NV)), x); break; }
            case 1: { TT x = menu[fresh++ % 6] ^ 0x55; hold(build_minterms(*m, x & 0xff, ident(NV)), x); break; }
            case 2: { node_ref r = m->and_rec(ref(), ref(1)); hold(r, last() & last(1)); break; }
            case 3: { node_ref r = m->xor_rec(ref(), ref(1)); hold(r, last() ^ last(1)); break; }
            case 4: { node_ref r = m->ite_rec(ref(), ref(1), m->negate(ref())); hold(r, (last() & last(1)) | (~last() & ~last())); break; }
            case 5: if (!held.empty()) { held.erase(held.begin()); t.erase(t.begin()); } break;
            case 6: m->collect_garbage(); break;
            case 7: drop(); m.reset(); make(); break; // destroyed, a new one created
            case 8: { size_t nr = c.add_bdd(ref()); ct.push_back(last()); log.push_back(nr); break; }
            case 9: if (!ct.empty()) { size_t nr = c.bdd_and(size_t(0), ct.size() - 1); ct.push_back(ct[0] & ct.back()); log.push_back(nr); } break;
            case 10: if (!ct.empty()) { node_ref r = c.export_bdd(*m, ct.size() - 1); hold(r, ct.back()); } break;
            default: if (!ct.empty()) { std::vector<size_t> x{0}; c.remove(x.begin(), x.end()); ct.erase(ct.begin()); } else if (extra < 2) { m->add_variable(); ++extra; } break;
        }
        log.push_back(m->nr_nodes()); log.push_back(m->nr_variables()); log.push_back(c.nr_bdds()); for (auto& h : held) { log.push_back(h.nr_nodes()); log.push_back(h.variable()); log.push_back(h.reference_count()); } for (size_t i = 0; i < ct.size(); ++i) log.push_back(c.nr_bdd_nodes(i));
    }
    void check(const char* when) {
        for (size_t i = 0; i < held.size(); ++i) {
            TT g = eval_tt(held[i], ident(NV), nv()); MC_CHECK(g == t[i], "%s: a held BDD is %s, should be %s", when, str(g, NV).c_str(), str(t[i], NV).c_str());
            for (size_t j = 0; j < i; ++j) MC_CHECK((held[i] == held[j]) == (t[i] == t[j]), "%s: comparing two held BDDs goes wrong", when);
            if (!held[i].is_terminal()) for (auto& x : held[i].nodes_postorder()) { MC_CHECK(x.find_bdd_mgr() == m.get(), "%s: a node leads to another manager", when); MC_CHECK(x.botsink() == m->botsink() && x.topsink() == m->topsink(), "%s: a node leads to other sinks", when); }
            else MC_CHECK(held[i].find_bdd_mgr() == m.get() && held[i].botsink() == m->botsink() && held[i].topsink() == m->topsink(), "%s: a constant leads to another manager", when);
        }
        MC_CHECK(m->botsink().find_bdd_mgr() == m.get() && m->topsink().find_bdd_mgr() == m.get() && m->botsink().is_botsink() && m->topsink().is_topsink() && m->topsink().nr_nodes() == 0 && m->botsink().nodes_bfs().empty(), "%s: the sinks are wrong", when);
        MC_CHECK(c.nr_bdds() == ct.size(), "%s: %zu BDDs stored, expected %zu", when, c.nr_bdds(), ct.size()); for (size_t i = 0; i < ct.size(); ++i) MC_CHECK(stored_tt(stored(c, i), ident(NV)) == ct[i], "%s: stored BDD %zu changed", when, i);
    }
    void thorough(const char* when) { check(when); for (size_t i = 0; i < ct.size(); ++i) check_stored(c, i, ct[i], ident(NV), when); for (size_t i = 0; i < held.size(); ++i) { check_structure(held[i], when); MC_CHECK(build(*m, t[i], ident(NV)) == held[i], "%s: rebuilding gives another reference", when); } }
    struct Snap { size_t nodes, vars; std::vector<size_t> refs; std::vector<size_t> counts; bool operator==(const Snap& o) const { return nodes == o.nodes && vars == o.vars && refs == o.refs && counts == o.counts; } };
    Snap snap() { Snap s{m->nr_nodes(), m->nr_variables(), {}, {}}; for (auto& h : held) s.refs.push_back(h.reference_count()); s.refs.push_back(m->topsink().reference_count()); s.refs.push_back(m->botsink().reference_count()); for (size_t i = 0; i < c.nr_bdds(); ++i) s.counts.push_back(c.nr_bdd_nodes(i)); return s; }
};
static const int bytes[4] = {0, 0xff, 0x5a, 0x01};
// all sequences of (side, operation); afterwards each side's own history is run alone on memory with other contents
void interleave(int first, int second, int depth, int byte) {
    mc::memory_fill(bytes[byte]); Side s[2]; std::vector<int> h[2];
    for (int d = 0; d < depth; ++d) {
        int x = d == 0 ? first : d == 1 ? second : mc::choose(2 * Side::OPS, "side and operation"), i = x / Side::OPS, a = x % Side::OPS;
        auto o = s[1 - i].snap(); MC_NOTE("side %d: operation %d", i, a); s[i].act(a); h[i].push_back(a); s[i].check("after the operation");
        MC_CHECK(s[1 - i].snap() == o, "an operation on one side changed the other's counts"); s[1 - i].check("the other side");
    }
    for (int i = 0; i < 2; ++i) s[i].thorough("at the end");
    for (int i = 0; i < 2; ++i) { mc::memory_fill(bytes[(byte + 1 + i) % 4]); Side alone; for (int a : h[i]) alone.act(a); MC_CHECK(alone.log == s[i].log, "the same history on its own is observed differently"); }
    uint64_t q = 3; for (int i = 0; i < 2; ++i) { for (TT t : s[i].t) q = mc::mix(q, t); for (TT t : s[i].ct) q = mc::mix(q, t + 512); q = mc::mix(q, s[i].m->nr_nodes()); } mc::state(q); mc::nontrivial(!h[0].empty() && !h[1].empty());
}
// two fixed longer histories, all their interleavings
void merge(long u, int len) {
    static const int scripts[8][6] = {{0, 1, 8, 6, 9, 10}, {0, 8, 7, 10, 0, 2}, {1, 0, 3, 5, 6, 4}, {0, 8, 0, 8, 9, 11}, {1, 8, 7, 0, 10, 4}, {0, 0, 0, 2, 6, 8}, {7, 1, 6, 7, 0, 3}, {11, 11, 0, 1, 4, 6}};
    mc::memory_fill(bytes[u / 16 % 4]); Side s[2]; size_t at[2] = {0, 0}; const int* h[2] = {scripts[u % 8], scripts[(u / 8 + u) % 8]}; std::string order;
    while (at[0] < size_t(len) || at[1] < size_t(len)) { int i = at[0] == size_t(len) ? 1 : at[1] == size_t(len) ? 0 : mc::choose(2, "side"); order += char('A' + i); auto o = s[1 - i].snap(); s[i].act(h[i][at[i]++]); MC_CHECK(s[1 - i].snap() == o, "an operation on one side changed the other's counts (order %s)", order.c_str()); s[0].check("after the operation"); s[1].check("after the operation"); }
    for (int i = 0; i < 2; ++i) { s[i].thorough("at the end"); mc::memory_fill(bytes[(u + i) % 4]); Side alone; for (int k = 0; k < len; ++k) alone.act(h[i][k]); MC_CHECK(alone.log == s[i].log, "the same history on its own is observed differently"); mc::state(mc::mix(s[i].log.size(), s[i].log.back())); }
}
// BDDs travel between managers through a collection, and collections are filled from several managers
void travel(long u, int depth) {
    mc::memory_fill(bytes[u % 4]); bdd_mgr* m[2]; std::unique_ptr<bdd_mgr> own[2]; std::vector<std::pair<node_ref, TT>> held[2]; bdd_collection c[2]; std::vector<TT> ct[2]; const Pos pos = ident(NV);
    auto make = [&](int i) { own[i].reset(new bdd_mgr); m[i] = own[i].get(); add_vars(*m[i], NV); }; make(0); make(1); int fresh = int(u / 4 % 6);
    for (int d = 0; d < depth; ++d) {
        const int a = mc::choose(14, "operation"); mc::steps(); size_t n[2] = {m[0]->nr_nodes(), m[1]->nr_nodes()}, k[2] = {ct[0].size(), ct[1].size()}; int touched = -1, ctouched = -1;
        if (a < 2) { TT t = menu[fresh++ % 6]; held[a].push_back({build_ite(*m[a], t, pos), t}); touched = a; }
        else if (a < 6) { int i = a & 1, j = a >> 1 & 1; if (!held[i].empty()) { auto& x = held[i].back(); c[j].add_bdd(x.first); ct[j].push_back(x.second); ctouched = j; } } // from manager i to collection j
        else if (a < 10) { int i = a & 1, j = a >> 1 & 1; if (!ct[j].empty()) { TT t = ct[j].back(); held[i].push_back({a & 1 ? c[j].export_bdd(*m[i], ct[j].size() - 1) : m[i]->add_bdd(c[j], ct[j].size() - 1), t}); touched = i; } }
        else if (a < 12) { int i = a & 1; held[i].clear(); own[i].reset(); make(i); touched = i; }
        else { int j = a & 1; if (ct[j].size() > 1) { c[j].bdd_and(ct[j].size() - 1, ct[j].size() - 2); TT t = ct[j].back() & ct[j][ct[j].size() - 2]; ct[j].push_back(t); ctouched = j; } else m[j]->collect_garbage(), touched = j; }
        for (int i = 0; i < 2; ++i) {
            if (touched != i) MC_CHECK(m[i]->nr_nodes() == n[i], "an operation elsewhere changed the node count of manager %d", i); if (ctouched != i) MC_CHECK(c[i].nr_bdds() == k[i], "an operation elsewhere changed collection %d", i);
            for (auto& x : held[i]) { MC_CHECK(eval_tt(x.first, pos, NV) == x.second, "a BDD held in manager %d changed", i); MC_CHECK(x.first.find_bdd_mgr() == m[i], "a BDD leads to another manager"); }
            for (size_t q = 0; q < ct[i].size(); ++q) MC_CHECK(stored_tt(stored(c[i], q), pos) == ct[i][q], "BDD %zu of collection %d changed", q, i); }
    }
    uint64_t q = 5; for (int i = 0; i < 2; ++i) { for (auto& x : held[i]) { MC_CHECK(build(*m[i], x.second, pos) == x.first, "rebuilding gives another reference"); q = mc::mix(q, x.second); } for (size_t z = 0; z < ct[i].size(); ++z) { check_stored(c[i], z, ct[i][z], pos, "stored BDD"); q = mc::mix(q, ct[i][z] + 999); } held[i].clear(); } mc::state(q);
}
// a copy of a collection is a collection of its own
void copies(long u) {
    const Pos pos = ident(NV); bdd_collection a; std::vector<TT> t{menu[u % 6], menu[u / 6 % 6], TT(u / 36 ? 0 : 0xff)}; for (TT x : t) put(a, x, pos); std::vector<size_t> none;
    bdd_collection b(a), d; d = a; auto sa = all_stored(a);
    for (int which = 0; which < 5; ++which) {
        bdd_collection w(which % 2 ? b : d);
        if (which == 0) { std::vector<size_t> x{0}; w.remove(x.begin(), x.end()); } else if (which == 1) w.bdd_and(size_t(0), size_t(1)); else if (which == 2) { std::vector<size_t> map{3, 4, 5}; w.rebase(0, map.begin(), map.end()); } else if (which == 3) put(w, 0x42, pos); else { std::set<size_t> p{0}, q; size_t r = w.bdd_or_var(1, p, q); (void)r; }
        mc::steps(); MC_CHECK(all_stored(a) == sa && all_stored(b) == sa && all_stored(d) == sa, "an operation on a copy changed another collection");
    }
    size_t r = a.bdd_and(size_t(0), size_t(1)); check_stored(a, r, t[0] & t[1], pos, "conjunction"); MC_CHECK(all_stored(b) == sa && all_stored(d) == sa, "an operation changed a copy"); r = b.bdd_and(size_t(1), size_t(2)); check_stored(b, r, t[1] & t[2], pos, "conjunction in the copy"); mc::state(u);
}
// many managers, created and destroyed in every order
void lifetimes(long u, int n) {
    auto ps = permutations(n); mc::memory_fill(bytes[u % 4]);
    for (auto& p : ps) {
        std::vector<std::unique_ptr<bdd_mgr>> m; std::vector<std::vector<node_ref>> f(n); const Pos pos = ident(NV); for (int i = 0; i < n; ++i) { m.emplace_back(new bdd_mgr); add_vars(*m.back(), NV + i); f[i].push_back(build(*m.back(), menu[(u + i) % 6], pos)); f[i].push_back(m.back()->negate(f[i][0])); }
        for (int k = 0; k < n; ++k) { int i = p[k]; std::vector<size_t> cnt; for (int j = 0; j < n; ++j) cnt.push_back(m[j] ? m[j]->nr_nodes() : 0); f[i].clear(); m[i].reset(); mc::steps();
            for (int j = 0; j < n; ++j) if (m[j]) { MC_CHECK(m[j]->nr_nodes() == cnt[j] && eval_tt(f[j][0], pos, NV + j) == menu[(u + j) % 6] && eval_tt(f[j][1], pos, NV + j) == (~menu[(u + j) % 6] & 0xff) && f[j][1].find_bdd_mgr() == m[j].get(), "destroying a manager changed another one"); MC_CHECK(build(*m[j], menu[(u + j) % 6], pos) == f[j][0], "destroying a manager broke canonicity in another one"); } }
    }
    mc::state(u * 16 + n);
}
// A question asked about t's BDD in manager m; the answer must be t's, whatever existed earlier at the same addresses.
const int QUESTIONS = 20;
void ask(bdd_mgr& m, TT t, int q, const char* who) {
    const Pos pos = ident(NV); const TT one = ones(NV); node_ref f = build(m, t, pos); mc::steps(); const auto is = [&](node_ref g, TT want, const char* what) { MC_CHECK(eval_tt(g, pos, m.nr_variables()) == (want & one) && build(m, want & one, pos) == g && g.find_bdd_mgr() == &m, "%s: %s of %s is wrong", who, what, str(t, NV).c_str()); };
    const size_t size = bdd_size(t, NV); const bool term = f.is_terminal(); const TT u = (t * 0x1d + 0x35) & 0xff;
    switch (q) {
        case 0: MC_CHECK(f.find_bdd_mgr() == &m && f.botsink() == m.botsink() && f.topsink() == m.topsink(), "%s: BDD of %s leads to another manager", who, str(t, NV).c_str()); break;
        case 1: MC_CHECK(f.nr_nodes() == size, "%s: %zu nodes instead of %zu", who, f.nr_nodes(), size); break;
        case 2: { auto v = f.variables(); auto w = support(t, NV); MC_CHECK(std::vector<size_t>(w.begin(), w.end()) == v, "%s: variables of %s", who, str(t, NV).c_str()); break; }
        case 3: case 4: if (!term) { auto v = q == 3 ? f.nodes_postorder() : f.nodes_bfs(); MC_CHECK(v.size() == size && (q == 3 ? v.back() : v.front()) == f, "%s: traversal of %s lists %zu nodes", who, str(t, NV).c_str(), v.size()); std::set<TT> sub, got; subfunctions(t, NV, sub); for (auto& x : v) { MC_CHECK(x.find_bdd_mgr() == &m, "%s: a traversed node leads to another manager", who); got.insert(eval_tt(x, pos, m.nr_variables())); } MC_CHECK(got == sub, "%s: traversal of %s lists other functions", who, str(t, NV).c_str()); } break;
        case 5: MC_CHECK(eval_tt(f, pos, m.nr_variables()) == (t & one), "%s: evaluation of %s", who, str(t, NV).c_str()); break;
        case 6: { std::stringstream o; f.print(o); std::string x = o.str(); size_t arrows = 0; for (size_t i = 0; (i = x.find("->", i)) != std::string::npos; ++i) ++arrows; MC_CHECK(arrows == 2 * size, "%s: graph of %s has %zu arcs", who, str(t, NV).c_str(), arrows); break; }
        case 7: { TT c = t & one; bool want; auto s = support(t, NV); int sols = 0; for (int a = 0; a < (1 << NV); ++a) if (c >> a & 1) ++sols; sols >>= NV - int(s.size()); want = term ? c != 0 : sols == 1; MC_CHECK(f.exactly_one_solution() == want, "%s: exactly-one-solution of %s", who, str(t, NV).c_str()); break; }
        case 8: { bdd_collection c; size_t k = c.add_bdd(f); check_stored(c, k, t & one, pos, who); break; }
        case 9: is(m.and_rec(f, build(m, u, pos)), t & u, "conjunction"); break;
        case 10: { node_ref g = build(m, u, pos); is(f & g, t & u, "operator &"); node_ref h = f; h = h & g; is(h, t & u, "operator &"); break; }
        case 11: is(m.negate(f), ~t, "negation"); break;
        case 12: is(m.ite_rec(f, build(m, u, pos), build(m, u >> 1, pos)), (t & u) | (~t & (u >> 1)), "if-then-else"); break;
        case 13: { node_ref g = build(m, u, pos); auto r = m.and_rec_limited(f, g, 100); is(std::get<0>(r), t & u, "limited conjunction"); break; }
        case 14: { std::vector<size_t> map{3, 4, 5}; node_ref g = m.rebase(f, map.begin(), map.end()); MC_CHECK(eval_tt(g, {3, 4, 5}, m.nr_variables()) == (t & one), "%s: rebasing %s", who, str(t, NV).c_str()); break; }
        case 15: { m.collect_garbage(); MC_CHECK(m.nr_nodes() == size + 2, "%s: %zu nodes in the manager", who, m.nr_nodes()); break; }
        case 16: { std::vector<node_ref> l{m.projection(0), f, m.projection(2)}; TT a = tvar(0, NV), c = tvar(2, NV); is(m.simplex(l.begin(), l.end()), (a & ~t & ~c) | (~a & t & ~c) | (~a & ~t & c), "simplex"); break; }
        case 17: { bdd_collection c; put(c, u, pos); size_t k = c.add_bdd(f); is(c.export_bdd(m, k), t, "export"); is(m.add_bdd(c, 0), u, "import"); break; }
        case 18: is(m.or_rec(f, build(m, u, pos)), t | u, "disjunction"); is(m.xor_rec(f, build(m, u, pos)), t ^ u, "exclusive-or"); break;
        default: { std::unordered_map<size_t, size_t> map{{0, 1}, {1, 3}, {2, 7}}; node_ref g = m.rebase(f, map); MC_CHECK(m.nr_variables() == 8 && eval_tt(g, {1, 3, 7}, 8) == (t & one), "%s: rebasing %s by a map", who, str(t, NV).c_str()); break; }
    }
}
// manager after manager, each asked the same question; the nodes of a later one lie where those of an earlier one were, the manager itself in the same place or elsewhere
void reborn(TT t1, TT t2, int q, int place) {
    mc::memory_reuse(true); std::vector<std::unique_ptr<char[]>> pad; std::unique_ptr<bdd_mgr> m; const TT ts[3] = {t1, t2, t1};
    MC_NOTE("%s, then %s: question %d, place %d", str(t1, NV).c_str(), str(t2, NV).c_str(), q, place);
    for (int g = 0; g < 3; ++g) {
        if (g && place) pad.emplace_back(new char[sizeof(bdd_mgr)]); // takes the place of the destroyed manager
        m.reset(new bdd_mgr); add_vars(*m, NV); ask(*m, ts[g], q, g ? "in a new manager" : "in the first manager"); if (place == 2) ask(*m, ts[g] ^ 0x42, q, "once more"); m.reset();
    }
    mc::state(mc::mix(mc::mix(t1, t2), q)); mc::nontrivial(t1 != t2);
}
// the same for collections: destroyed and created anew, assigned over, or the BDD removed and another one stored under its number
const int CQUESTIONS = 12;
void cask(bdd_collection& c, size_t k, TT t, TT u, int q, const char* who) {
    const Pos pos = ident(NV); mc::steps(); const size_t n = c.nr_bdds();
    switch (q) {
        case 0: check_stored(c, k, t, pos, who); break;
        case 1: { size_t r = c.bdd_and(k, n - 1); check_stored(c, r, t & u, pos, who); break; }
        case 2: { std::vector<size_t> l{k, n - 1, k}; size_t r = c.bdd_and(l.begin(), l.end()); check_stored(c, r, t & u, pos, who); break; }
        case 3: { const size_t want = bdd_size(t & u, NV) + 2; size_t r = c.bdd_and(k, n - 1, std::max<size_t>(3, want)); MC_CHECK(r == n, "%s: limited conjunction fails", who); check_stored(c, r, t & u, pos, who); if (want > 3) { r = c.bdd_and(k, n - 1, want - 1); MC_CHECK(r == NONE && c.nr_bdds() == n + 1, "%s: limited conjunction succeeds with too many nodes", who); } break; }
        case 4: { std::unordered_set<size_t> p{1}, e; if (!bdd_size(t, NV)) break; size_t r = c.bdd_or_var(k, p, e); TT g = 0; Stored s = stored(c, k); for (int a = 0; a < 8; ++a) { size_t i = 0; bool v = false; while (!s.nodes[i].sink && !v) { if (s.nodes[i].var == 1 && (a >> 1 & 1)) v = true; else i = a >> s.nodes[i].var & 1 ? s.nodes[i].hi : s.nodes[i].lo; } if (v || s.nodes[i].sink == 't') g |= TT(1) << a; } check_stored(c, r, g, pos, who); break; }
        case 5: { bdd_mgr m; add_vars(m, NV); MC_CHECK(c.export_bdd(m, k) == build(m, t, pos), "%s: export of %s", who, str(t, NV).c_str()); break; }
        case 6: { std::vector<size_t> v; for (int i : support(t, NV)) v.push_back(i); MC_CHECK(c.variables(k) == v && c[k].variables() == v, "%s: variables of %s", who, str(t, NV).c_str()); break; }
        case 7: { std::set<TT> sub; subfunctions(t, NV, sub); MC_CHECK(c.nr_bdd_nodes(k) == sub.size() + 2 && c[k].nr_nodes() == sub.size() + 2, "%s: node count of %s", who, str(t, NV).c_str()); for (int v = 0; v < NV; ++v) { size_t w = 0; for (TT x : sub) w += support(x, NV)[0] == v; MC_CHECK(c.nr_bdd_nodes(k, v) == w && c[k].nr_nodes(v) == w, "%s: nodes per variable of %s", who, str(t, NV).c_str()); } break; }
        case 8: { std::vector<size_t> map{1, 2, 5}; c.rebase(k, map.begin(), map.end()); check_stored(c, k, t, {1, 2, 5}, who); std::unordered_map<size_t, size_t> back{{1, 0}, {2, 1}, {5, 2}}; c.rebase(k, back); check_stored(c, k, t, pos, who); break; }
        case 9: { std::stringstream o; c.export_graphviz(k, o); std::string x = o.str(); size_t arrows = 0; for (size_t i = 0; (i = x.find("->", i)) != std::string::npos; ++i) ++arrows; size_t extra = 0; if (!bdd_size(t, NV)) break; MC_CHECK(arrows >= 2 * bdd_size(t, NV), "%s: graph of %s has %zu arcs", who, str(t, NV).c_str(), arrows); (void)extra; break; }
        case 10: { if (!bdd_size(t, NV)) break; auto e = c[k]; size_t cnt = 1; auto x = e.first_node_postorder(); auto root = e.root_node(); while (!(x == root)) { x = x.next_postorder(); ++cnt; } MC_CHECK(cnt == bdd_size(t, NV), "%s: %zu steps through %s", who, cnt, str(t, NV).c_str()); break; }
        default: { MC_CHECK(eval_tt(c, k, pos, NV) == t && eval_tt(c, n - 1, pos, NV) == u, "%s: evaluation", who); std::vector<size_t> x{k}; c.remove(x.begin(), x.end()); MC_CHECK(c.nr_bdds() == n - 1, "%s: removal", who); MC_CHECK(eval_tt(c, n - 2, pos, NV) == u, "%s: evaluation after removal", who); break; }
    }
}
void creborn(TT t1, TT t2, int q, int how) {
    mc::memory_reuse(true); const Pos pos = ident(NV); const TT u = 0xd8, ts[3] = {t1, t2, t1}; MC_NOTE("%s, then %s: question %d about a collection, kind %d", str(t1, NV).c_str(), str(t2, NV).c_str(), q, how);
    std::unique_ptr<bdd_collection> c(new bdd_collection); const auto fill = [&](bdd_collection& c, TT t) { put(c, 0x1b, pos); put(c, t, pos); put(c, u, pos); };
    for (int g = 0; g < 3; ++g) {
        if (how == 0 && g) { c.reset(); c.reset(new bdd_collection); fill(*c, ts[g]); }
        else if (how == 1) { bdd_collection d; fill(d, ts[g]); *c = d; }
        else if (how == 2) { std::vector<size_t> all; for (size_t i = 0; i < c->nr_bdds(); ++i) all.push_back(i); c->remove(all.begin(), all.end()); fill(*c, ts[g]); }
        else if (how == 3) { bdd_collection d; fill(d, ts[g]); std::swap(*c, d); }
        else if (g == 0) fill(*c, ts[g]);
        cask(*c, 1, ts[g], u, q, g ? "in the new collection" : "in the first collection");
    }
    mc::state(mc::mix(mc::mix(t1, t2), q + 64)); mc::nontrivial(t1 != t2);
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(); std::vector<mc::Scenario> s; const long N = 2 * Side::OPS;
    const int D = A ? (T ? 6 : 4) : 3;
    s.push_back({"interleavings", "two managers with collections: all sequences of " + std::to_string(D) + " operations (12 kinds on either side: building, connectives, dropping, collecting, destroying and re-creating, storing, conjunction, export, removal or a new variable), four memory contents; each side's history repeated alone", N * N * (A ? 4 : 1), [D, N](long u) { interleave(int(u % N), int(u / N % N), D, int(u / N / N)); }, 60});
    s.push_back({"merged", "64 pairs of histories of 5 (thorough: 6) operations, all their interleavings", 64 * (A ? 4 : 1), [T](long u) { merge(u, T ? 6 : 5); }, 60});
    s.push_back({"travel", "BDDs passed between two managers through two collections, with destruction: all sequences of operations (14 kinds)", 24, [T, A](long u) { travel(u, A ? (T ? 6 : 5) : 4); }, 60});
    s.push_back({"copies", "copies of collections with three BDDs, five operations on a copy", 72, [](long u) { copies(u); }});
    const int R = T ? 256 : 16; // second functions per first one
    s.push_back({"reborn", "every question about a BDD (" + std::to_string(QUESTIONS) + " kinds) asked in three managers one after the other, nodes in the same places, the manager in the same place or not: all 256 functions of 3 variables x " + std::to_string(R) + " other functions", 256 * QUESTIONS, [R](long u) { const TT t = u % 256; const int q = int(u / 256); for (int place = 0; place < 3; ++place) for (int k = 0; k < R; ++k) reborn(t, R == 256 ? TT(k) : k == 0 ? t : k == 1 ? (~t & 0xff) : scatter(t * 64 + k) & 0xff, q, place); }, 60});
    s.push_back({"reborn-collections", "every question about a stored BDD (" + std::to_string(CQUESTIONS) + " kinds) asked again after the collection was created anew, assigned, swapped or emptied and filled: all 256 functions x " + std::to_string(R) + " other functions", 256 * CQUESTIONS, [R](long u) { const TT t = u % 256; const int q = int(u / 256); for (int how = 0; how < 4; ++how) for (int k = 0; k < R; ++k) creborn(t, R == 256 ? TT(k) : k == 0 ? t : k == 1 ? (~t & 0xff) : scatter(t * 64 + k + 7) & 0xff, q, how); }, 60});
    s.push_back({"lifetimes", "2..5 managers alive at once, destroyed in every order", 24, [](long u) { for (int n = 2; n <= 5; ++n) lifetimes(u, n); }, 120});
    return s;
}
