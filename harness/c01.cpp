// C01: connectives compute the pointwise Boolean function.
#include "ref.h"
using namespace kit; using namespace BDD;

namespace {

struct Op { const char* name; int arity; TT (*ref)(TT, TT, TT); node_ref (*run)(bdd_mgr&, node_ref, node_ref, node_ref); };
const Op ops[] = {
    {"and_rec", 2, [](TT f, TT g, TT) { return f & g; }, [](bdd_mgr& m, node_ref f, node_ref g, node_ref) { return m.and_rec(f, g); }},
    {"or_rec", 2, [](TT f, TT g, TT) { return f | g; }, [](bdd_mgr& m, node_ref f, node_ref g, node_ref) { return m.or_rec(f, g); }},
    {"xor_rec", 2, [](TT f, TT g, TT) { return f ^ g; }, [](bdd_mgr& m, node_ref f, node_ref g, node_ref) { return m.xor_rec(f, g); }},
    {"negate", 1, [](TT f, TT, TT) { return ~f; }, [](bdd_mgr& m, node_ref f, node_ref, node_ref) { return m.negate(f); }},
    {"operator&", 2, [](TT f, TT g, TT) { return f & g; }, [](bdd_mgr&, node_ref f, node_ref g, node_ref) { return f & g; }},
    {"operator||", 2, [](TT f, TT g, TT) { return f | g; }, [](bdd_mgr&, node_ref f, node_ref g, node_ref) { return f || g; }},
    {"operator^", 2, [](TT f, TT g, TT) { return f ^ g; }, [](bdd_mgr&, node_ref f, node_ref g, node_ref) { return f ^ g; }},
    {"operator!", 1, [](TT f, TT, TT) { return ~f; }, [](bdd_mgr&, node_ref f, node_ref, node_ref) { return !f; }},
    {"ite_rec", 3, [](TT f, TT g, TT h) { return (f & g) | (~f & h); }, [](bdd_mgr& m, node_ref f, node_ref g, node_ref h) { return m.ite_rec(f, g, h); }},
};
enum { AND, OR, XOR, NEG, OPAND, OPOR, OPXOR, OPNOT, ITE };

void expect(node_ref r, TT want, const Pos& pos, size_t nv, const char* op, TT f, TT g, TT h) {
    const int n = int(pos.size());
    MC_CHECK(r.address() != nullptr, "%s(%s, %s, %s) returned a null reference", op, str(f, n).c_str(), str(g, n).c_str(), str(h, n).c_str());
    TT got = eval_tt(r, pos, nv);
    MC_CHECK(got == (want & ones(n)), "%s(%s, %s, %s) computes %s, expected %s (model variable i is manager variable %zu,...; %zu variables)", op,
        str(f, n).c_str(), str(g, n).c_str(), str(h, n).c_str(), str(got, n).c_str(), str(want, n).c_str(), pos[0], nv);
}
node_ref apply(bdd_mgr& m, int o, node_ref f, node_ref g, node_ref h, TT tf, TT tg, TT th, const Pos& pos) {
    MC_NOTE("%s(%s, %s, %s)", ops[o].name, str(tf, pos.size()).c_str(), str(tg, pos.size()).c_str(), str(th, pos.size()).c_str());
    node_ref r = ops[o].run(m, f, g, h);
    expect(r, ops[o].ref(tf, tg, th), pos, m.nr_variables(), ops[o].name, tf, tg, th);
    mc::steps();
    return r;
}

// every ordered pair of functions of n variables at one placement; binary operations in every order on a fresh manager
void pairs_orders(int n, const Pos& pos, size_t nv, TT f) {
    const TT N = TT(1) << (1 << n);
    static const auto perms = permutations(4);
    for (TT g = 0; g < N; ++g) for (auto& p : perms) {
        bdd_mgr m; add_vars(m, nv);
        node_ref a = build(m, f, pos), b = build(m, g, pos);
        for (int k : p) apply(m, k, a, b, b, f, g, 0, pos);
        // the operands in the other order, and again
        for (int k : {AND, OR, XOR}) apply(m, k, b, a, a, g, f, 0, pos);
        for (int k : p) apply(m, k, a, b, b, f, g, 0, pos);
        mc::state(mc::mix(mc::mix(n, f), g));
    }
}
// one manager: all second operands, operations interleaved
void pairs_shared(int n, const Pos& pos, size_t nv, TT f) {
    const TT N = TT(1) << (1 << n);
    bdd_mgr m; add_vars(m, nv);
    node_ref a = build(m, f, pos);
    for (TT g = 0; g < N; ++g) {
        node_ref b = build(m, g, pos);
        for (int k : {OPAND, XOR, OR, AND, OPXOR, OPOR, NEG, OPNOT}) apply(m, k, (k & 1) ? a : b, (k & 1) ? b : a, a, (k & 1) ? f : g, (k & 1) ? g : f, 0, pos);
        apply(m, ITE, a, b, m.negate(b), f, g, ~g & ones(n), pos);
        mc::state(mc::mix(mc::mix(mc::mix(7, pos[0] * 8 + nv), f), g));
    }
}
void ite_triples(int n, const Pos& pos, size_t nv, TT f, TT g_from, TT g_to, TT hstep) {
    const TT N = TT(1) << (1 << n);
    for (TT g = g_from; g < g_to; ++g) {
        bdd_mgr m; add_vars(m, nv);
        node_ref a = build(m, f, pos), b = build(m, g, pos);
        MC_NOTE("ite_rec(%s, %s, h) for every h", str(f, n).c_str(), str(g, n).c_str());
        for (TT h = (f * 7 + g * 3) % hstep; h < N; h += hstep) {
            node_ref c = build(m, h, pos);
            node_ref r = m.ite_rec(a, b, c);
            expect(r, (f & g) | (~f & h), pos, nv, "ite_rec", f, g, h);
        }
        mc::steps(N / hstep); mc::state(mc::mix(mc::mix(11, f), g));
    }
}
// wide operands: and/or/parity/threshold chains of up to w variables, compared by all assignments when w is small and
// by all assignments with at most two zeros or two ones otherwise
void wide(int w, int off) {
    bdd_mgr m; add_vars(m, w + 2 * off);
    typedef bool (*F)(const std::vector<char>&, int, int);
    struct Fam { const char* name; F eval; };
    static const Fam fam[] = {
        {"and", [](const std::vector<char>& l, int o, int w) { for (int i = 0; i < w; ++i) if (!l[o + i]) return false; return true; }},
        {"or", [](const std::vector<char>& l, int o, int w) { for (int i = 0; i < w; ++i) if (l[o + i]) return true; return false; }},
        {"last", [](const std::vector<char>& l, int o, int w) { return l[o + w - 1] != 0; }},
        {"first", [](const std::vector<char>& l, int o, int) { return l[o] != 0; }},
        {"equal-neighbours", [](const std::vector<char>& l, int o, int w) { for (int i = 0; i + 1 < w; i += 2) if (l[o + i] != l[o + i + 1]) return false; return true; }},
        {"parity", [](const std::vector<char>& l, int o, int w) { bool r = false; for (int i = 0; i < w; ++i) r ^= l[o + i] != 0; return r; }},
    };
    auto make = [&](int k) {
        node_ref r = k == 0 || k == 4 ? m.topsink() : m.botsink();
        if (k == 2) return m.projection(off + w - 1);
        if (k == 3) return m.projection(off);
        if (k == 4) { for (int i = 0; i + 1 < w; i += 2) r = m.and_rec(r, m.negate(m.xor_rec(m.projection(off + i), m.projection(off + i + 1)))); return r; }
        for (int i = 0; i < w; ++i) { node_ref p = m.projection(off + i); r = k == 0 ? m.and_rec(r, p) : k == 1 ? m.or_rec(r, p) : m.xor_rec(r, p); }
        return r;
    };
    std::vector<std::vector<char>> as;
    const int nv = w + 2 * off;
    if (w <= 10) for (int a = 0; a < (1 << w); ++a) { std::vector<char> l(nv, 0); for (int i = 0; i < w; ++i) l[off + i] = a >> i & 1; as.push_back(l); }
    else for (int base = 0; base < 2; ++base) for (int i = 0; i < w; ++i) for (int j = i; j < w; ++j) {
        std::vector<char> l(nv, base); l[off + i] ^= 1; if (j != i) l[off + j] ^= 1; as.push_back(l); if (i == 0 && j == 0) as.push_back(std::vector<char>(nv, base)); }
    const int nf = w <= 12 ? 6 : 4; // negation does not share work: exponential on the last two families
    int i = mc::choose(nf, "f"), j = mc::choose(nf, "g"), k = mc::choose(nf, "h");
    node_ref f = make(i), g = make(j), h = make(k);
    node_ref ra = m.and_rec(f, g), ro = m.or_rec(f, g), rx = m.xor_rec(f, g), ri = m.ite_rec(f, g, h), rn = m.negate(f);
    MC_NOTE("width %d at offset %d: f=%s g=%s h=%s: and, or, xor, ite, not; %zu assignments", w, off, fam[i].name, fam[j].name, fam[k].name, as.size());
    for (auto& l : as) {
        bool bf = fam[i].eval(l, off, w), bg = fam[j].eval(l, off, w), bh = fam[k].eval(l, off, w);
        auto ev = [&](node_ref& x) { return x.evaluate(l.begin(), l.end()); };
        MC_CHECK(ev(f) == bf, "width %d: %s built wrongly", w, fam[i].name);
        MC_CHECK(ev(ra) == (bf && bg), "width %d: and(%s, %s) wrong", w, fam[i].name, fam[j].name);
        MC_CHECK(ev(ro) == (bf || bg), "width %d: or(%s, %s) wrong", w, fam[i].name, fam[j].name);
        MC_CHECK(ev(rx) == (bf != bg), "width %d: xor(%s, %s) wrong", w, fam[i].name, fam[j].name);
        MC_CHECK(ev(ri) == (bf ? bg : bh), "width %d: ite(%s, %s, %s) wrong", w, fam[i].name, fam[j].name, fam[k].name);
        MC_CHECK(ev(rn) == !bf, "width %d: not(%s) wrong", w, fam[i].name);
    }
    mc::steps(5); mc::state(mc::mix(mc::mix(13, w * 64 + off), i * 36 + j * 6 + k));
}

// large operands against the independent store: g over the same variables, over all but the first third, or over every second one
void scale(size_t n, int a, int b) {
    ref::Store s; const auto V = ref::vars(n, (a + 2 * b) % 4); std::vector<size_t> W; const int how = (a + b) % 3;
    for (size_t i = 0; i < n; ++i) if (how == 0 || (how == 1 && i >= n / 3) || (how == 2 && i % 2)) W.push_back(V[i]);
    const ref::Id f = ref::shape(s, a, V), g = ref::shape(s, b, W); bdd_mgr m; add_vars(m, V.back() + 1 + (a % 2) * 5); node_ref F = ref::make(m, s, f), G = ref::make(m, s, g); const size_t nv = m.nr_variables();
    MC_NOTE("%zu variables: %s, %s", n, ref::shape_name(a), ref::shape_name(b)); mc::steps(8);
    const auto res = [&](node_ref r, ref::Id w, const char* who) { ref::is(s, r, w, who, n); ref::evaluates(s, r, w, V, nv, who); MC_CHECK(r.nr_nodes() == s.size(w), "%s (size %zu): node count", who, n); };
    res(m.and_rec(F, G), s.land(f, g), "conjunction"); res(m.xor_rec(G, F), s.lxor(f, g), "exclusive-or"); res(m.or_rec(F, G), s.lor(f, g), "disjunction"); res(m.negate(F), s.neg(f), "negation");
    if (n <= 300) { res(F & G, s.land(f, g), "operator &"); res(G || F, s.lor(f, g), "operator ||"); res(F ^ G, s.lxor(f, g), "operator ^"); res(!G, s.neg(g), "operator !"); }
    res(m.ite_rec(F, G, m.negate(G)), s.neg(s.lxor(f, g)), "if-then-else"); res(m.ite_rec(G, m.projection(V[n / 2]), F), s.ite(g, s.var(V[n / 2]), f), "if-then-else");
    if (n <= 130) { const ref::Id h = ref::shape(s, (a + b + 1) % ref::SHAPES, V); node_ref Hh = ref::make(m, s, h); res(m.ite_rec(F, G, Hh), s.ite(f, g, h), "if-then-else"); res(m.ite_rec(Hh, F, G), s.ite(h, f, g), "if-then-else"); }
    ref::is(s, F, f, "operand", n); ref::is(s, G, g, "operand", n); mc::nontrivial(); mc::state(mc::mix(n, a * 64 + b));
}
// one level with 2^k nodes
void broad(size_t k) {
    ref::Store s; const auto V = ref::vars(2 * k, int(k % 4)); const ref::Id f = ref::equality(s, V), g = ref::shape(s, 11, V); bdd_mgr m; node_ref F = ref::make(m, s, f), G = ref::make(m, s, g); mc::steps(4);
    ref::is(s, m.and_rec(F, G), s.land(f, g), "conjunction", k); ref::is(s, m.or_rec(F, G), s.lor(f, g), "disjunction", k); ref::is(s, m.xor_rec(F, G), s.lxor(f, g), "exclusive-or", k); ref::is(s, m.negate(F), s.neg(f), "negation", k); ref::is(s, m.ite_rec(F, m.negate(G), G), s.lxor(f, g), "if-then-else", k);
    ref::evaluates(s, F, f, V, V.back() + 1, "equality"); mc::nontrivial(); mc::state(mc::mix(77, k));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH;
    std::vector<mc::Scenario> s;
    s.push_back({"pairs-2var-all-orders", "all 16x16 pairs of functions of 2 variables x 6 placements among 4 variables x 24 orders of and/or/xor/not on a fresh manager, each repeated with exchanged operands", 6 * 16,
        [](long u) { static const auto pl = placements(2, 4); pairs_orders(2, pl[u / 16], 4, u % 16); }});
    s.push_back({"pairs-3var-all-orders", "all 256x256 pairs of functions of 3 variables x 24 orders of and/or/xor/not on a fresh manager, each repeated with exchanged operands", 256,
        [](long u) { pairs_orders(3, ident(3), 3, u); }});
    s.push_back({"pairs-3var-placements", "all 256x256 pairs of functions of 3 variables x all 10 placements among 5 manager variables, all binary operations and operator forms, on one manager per first operand", 256 * 10,
        [](long u) { static const auto pl = placements(3, 5); pairs_shared(3, pl[u / 256], 5, u % 256); }});
    s.push_back({"ite-2var-placements", "all 16^3 triples of functions of 2 variables x 10 placements among 5 variables", 10 * 16,
        [](long u) { static const auto pl = placements(2, 5); ite_triples(2, pl[u / 16], 5, u % 16, 0, 16, 1); }});
    s.push_back({"ite-3var-all", std::string("all 256^3 = 16777216 triples of functions of 3 variables, fresh manager per (f,g), placed on ") + (T ? "the first three and on variables 1,2,4 of 5" : "all three variables"), T ? 512 : 256,
        [](long u) { if (u < 256) ite_triples(3, ident(3), 3, u, 0, 256, 1); else ite_triples(3, {1, 2, 4}, 5, u - 256, 0, 256, 1); }, 120});
    const long step4 = T ? 1 : 16;
    s.push_back({"pairs-4var", T ? "all 65536 functions of 4 variables x 352 second operands (every 187th function and its complement), one manager per first operand" :
        "every 16th function of 4 variables x 352 second operands (every 187th function and its complement), one manager per first operand", 65536 / step4 / 16,
        [step4](long u) { for (int k = 0; k < 16; ++k) {
            TT f = TT((u * 16 + k) * step4 + (u + k) % step4); bdd_mgr m; add_vars(m, 4); Pos pos = ident(4); node_ref a = build(m, f, pos);
            for (TT g0 = 0; g0 < 65536; g0 += 373) for (int c = 0; c < 2; ++c) { TT g = c ? ~g0 & 65535 : g0; node_ref b = build(m, g, pos);
                for (int o : {AND, OR, XOR}) apply(m, o, a, b, b, f, g, 0, pos);
                apply(m, ITE, a, b, m.negate(b), f, g, ~g & 65535, pos); }
            apply(m, NEG, a, a, a, f, 0, 0, pos); mc::state(mc::mix(17, f)); } }});
    const int W = T ? 70 : 40;
    s.push_back({"wide", std::string("operands and/or/projection chains (up to 12 variables also equality and parity) over 2..") + std::to_string(W) + " variables at offsets 0 and 3: all triples; all assignments up to 10 variables, all assignments within two flips of a constant beyond", (W - 1) * 2,
        [](long u) { wide(2 + u / 2, (u % 2) * 3); }});
    { const size_t M = T ? 8193 : 4097; std::vector<std::array<int, 3>> u; for (size_t n : ref::sizes(M)) for (int a = 0; a < ref::SHAPES; ++a) for (int b = 0; b < ref::SHAPES; ++b) if (ref::pair_at(n, a, b) && (T || n < 100 || (a * 5 + b * 7 + n) % (n < 300 ? 3 : 7) == 0)) u.push_back({int(n), a, b});
      s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 6, [](long u) { ref::Far far(ref::FAR[u % 3]); const int a = int(u / 3 % 12), b = int((a + 1 + u / 36 * 2) % 12); scale(6, a, b); }, 120});
      s.push_back({"scale", "pairs of 12 kinds of functions (conjunction, parity, counting, chains, ...) of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + ", every connective compared with an independent diagram store", long(u.size()), [u](long i) { scale(u[i][0], u[i][1], u[i][2]); }, 120});
      s.push_back({"broad", "diagrams with 2^k nodes on one level, k up to " + std::to_string(T ? 15 : 12), T ? 14 : 11, [](long i) { broad(size_t(i) + 2); }, 120}); }
    return s;
}
