// Histories of one manager with three references, garbage collections and dropped references, against
// the truth-table model. Used by C03 (semantics) and C04 (counts).
#pragma once
#include "kit.h"

namespace hist {
using namespace kit; using namespace BDD;

static const TT menu[6] = {0xaa, 0xcc, 0x96, 0xea, 0xc0, 0x1b}; // x0; x1; x0^x1^x2; (x1&x2)|x0...; x1&x2; mux

struct World {
    bdd_mgr m; Pos pos; size_t nv; node_ref s[3]; TT t[3]; size_t last_count = 2; bool collected = false;
    static constexpr int ACTIONS = 23;
    explicit World(const Pos& p, size_t n) : pos(p), nv(n) { add_vars(m, n); for (int i = 0; i < 3; ++i) { s[i] = m.botsink(); t[i] = 0; } }
    void act(int a) {
        mc::steps();
        if (a < 12) { int i = a / 6; t[i] = menu[a % 6]; s[i] = (a & 1) ? build(m, t[i], pos) : build_minterms(m, t[i], pos); MC_NOTE("s%d := %s", i, str(t[i], 3).c_str()); }
        else if (a == 12) { s[2] = m.and_rec(s[0], s[1]); t[2] = t[0] & t[1]; MC_NOTE("s2 := s0 and s1"); }
        else if (a == 13) { s[2] = m.or_rec(s[0], s[1]); t[2] = t[0] | t[1]; MC_NOTE("s2 := s0 or s1"); }
        else if (a == 14) { s[2] = m.xor_rec(s[0], s[1]); t[2] = t[0] ^ t[1]; MC_NOTE("s2 := s0 xor s1"); }
        else if (a == 15) { s[2] = m.ite_rec(s[0], s[1], s[2]); t[2] = (t[0] & t[1]) | (~t[0] & t[2]); MC_NOTE("s2 := ite(s0,s1,s2)"); }
        else if (a == 16) { s[2] = m.negate(s[2]); t[2] = ~t[2] & ones(3); MC_NOTE("s2 := not s2"); }
        else if (a == 17 || a == 18) { s[a - 17] = s[2]; t[a - 17] = t[2]; MC_NOTE("s%d := s2", a - 17); }
        else if (a < 22) { s[a - 19] = m.botsink(); t[a - 19] = 0; MC_NOTE("drop s%d", a - 19); }
        else { m.collect_garbage(); collected = true; MC_NOTE("collect"); }
    }
    void check_meaning(const char* when) {
        for (int i = 0; i < 3; ++i) {
            TT g = eval_tt(s[i], pos, nv);
            MC_CHECK(g == t[i], "%s: s%d should be %s, evaluates to %s", when, i, str(t[i], 3).c_str(), str(g, 3).c_str());
            for (int j = 0; j < i; ++j) MC_CHECK((s[i] == s[j]) == (t[i] == t[j]), "%s: s%d and s%d (%s, %s) compare %s", when, i, j, str(t[i], 3).c_str(), str(t[j], 3).c_str(), s[i] == s[j] ? "equal" : "different");
        }
    }
    void check_canonical(const char* when) {
        for (int i = 0; i < 3; ++i) {
            check_structure(s[i], when);
            MC_CHECK(build(m, t[i], pos) == s[i], "%s: rebuilding %s gives another reference", when, str(t[i], 3).c_str());
            MC_CHECK(m.and_rec(s[i], m.or_rec(s[i], s[(i + 1) % 3])) == s[i], "%s: absorption on %s gives another reference", when, str(t[i], 3).c_str());
        }
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
            node_ref a = m.and_rec(s[i], s[j]), o = m.or_rec(s[i], s[j]), x = m.xor_rec(s[i], s[j]);
            MC_CHECK(eval_tt(a, pos, nv) == (t[i] & t[j]), "%s: s%d and s%d wrong", when, i, j);
            MC_CHECK(eval_tt(o, pos, nv) == (t[i] | t[j]), "%s: s%d or s%d wrong", when, i, j);
            MC_CHECK(eval_tt(x, pos, nv) == (t[i] ^ t[j]), "%s: s%d xor s%d wrong", when, i, j);
            MC_CHECK(m.xor_rec(x, s[j]) == s[i], "%s: (s%d xor s%d) xor s%d is another reference than s%d", when, i, j, j, i);
            node_ref e = m.ite_rec(s[i], s[j], s[3 - i - j >= 0 && i != j ? 3 - i - j : 2]); TT te = t[3 - i - j >= 0 && i != j ? 3 - i - j : 2];
            MC_CHECK(eval_tt(e, pos, nv) == ((t[i] & t[j]) | (~t[i] & te & ones(3))), "%s: ite(s%d, s%d, ..) wrong", when, i, j);
        }
    }
    size_t expected_count() const { return 2 + shared_size({t[0], t[1], t[2]}, 3); }
    uint64_t hash() const { return mc::mix(mc::mix(mc::mix(t[0], t[1]), t[2]), m.nr_nodes()); }
};
} // namespace hist
