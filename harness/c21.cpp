// C21: printed and exported graphs, read back.
#include "ref.h"
#include <cctype>
#include <cstring>
#include <map>
#include <sstream>
using namespace kit; using namespace BDD;

namespace {
// --- a small reader of the graph language: statements, node and edge attributes, nested subgraphs ---
struct Edge { std::string from, to; std::map<std::string, std::string> attr; };
struct Graph { std::vector<Edge> edges; std::vector<std::pair<std::string, std::map<std::string, std::string>>> nodes; };
struct Reader {
    std::string s; size_t i = 0;
    [[noreturn]] void bad(const char* what) { mc::fail("the text is not a well-formed graph (%s) near: %.80s", what, s.substr(i > 10 ? i - 10 : 0).c_str()); }
    void skip() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
    bool eat(const char* t) { skip(); size_t n = strlen(t); if (s.compare(i, n, t) != 0) return false; i += n; return true; }
    bool ident(std::string& r) {
        skip(); r.clear(); if (i >= s.size()) return false;
        if (s[i] == '"') { for (++i; i < s.size() && s[i] != '"'; ++i) { if (s[i] == '\\') ++i; r += s[i]; } if (i >= s.size()) bad("open quotes"); ++i; return true; }
        while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_' || s[i] == '.')) r += s[i++];
        return !r.empty(); }
    void attrs(std::map<std::string, std::string>& a) { while (eat("[")) { std::string k, v; while (!eat("]")) { if (!ident(k) || !eat("=") || !ident(v)) bad("attribute"); a[k] = v; eat(","); eat(";"); } } }
    void block(Graph& g) {
        if (!eat("{")) bad("{ expected");
        while (!eat("}")) {
            if (eat(";")) continue; std::string a, b; if (!ident(a)) bad("statement");
            if (a == "subgraph") { ident(b); block(g); continue; }
            if (eat("=")) { if (!ident(b)) bad("value"); continue; }
            if (eat("->")) { if (!ident(b)) bad("arc"); Edge e{a, b, {}}; attrs(e.attr); g.edges.push_back(e); continue; }
            std::map<std::string, std::string> at; attrs(at); if (a != "node" && a != "edge" && a != "graph") g.nodes.push_back({a, at}); }
    }
    Graph read() { Graph g; std::string d; if (!ident(d) || d != "digraph") bad("digraph expected"); skip(); if (s[i] != '{') ident(d); block(g); skip(); if (i != s.size()) bad("text after the graph"); return g; }
};
struct Read { std::map<std::string, size_t> var; std::map<std::string, std::array<std::string, 2>> arc; std::string bot, top, root; };
TT function_of(const Read& r, const std::string& from, const Pos& pos) {
    const int n = int(pos.size()); TT t = 0;
    for (int a = 0; a < (1 << n); ++a) {
        std::string x = from; size_t hops = 0; while (r.var.count(x)) { int v = 0; while (v < n && pos[v] != r.var.at(x)) ++v; MC_CHECK(v < n, "the graph mentions variable %zu", r.var.at(x)); x = r.arc.at(x)[a >> v & 1]; MC_CHECK(++hops <= r.var.size(), "the graph has a cycle"); }
        MC_CHECK(x == r.top || x == r.bot, "the graph has a node %s without arcs", x.c_str()); if (x == r.top) t |= TT(1) << a; }
    return t;
}
std::string root_of(const Read& r) { // the only decision node without incoming arcs
    std::set<std::string> in; for (auto& a : r.arc) for (auto& x : a.second) in.insert(x); std::string root; for (auto& v : r.var) if (!in.count(v.first)) { MC_CHECK(root.empty(), "the graph has two roots"); root = v.first; }
    MC_CHECK(!root.empty(), "the graph has no root"); return root;
}
Read parse_printed(const std::string& text) {
    Graph g = Reader{text}.read(); Read r; r.bot = "bot"; r.top = "top";
    for (auto& e : g.edges) {
        MC_CHECK(e.from != "bot" && e.from != "top", "a sink has an outgoing arc"); auto l = e.attr.find("label"); MC_CHECK(l != e.attr.end() && (l->second == "0" || l->second == "1"), "arc without a label 0 or 1");
        for (auto* x : {&e.from, &e.to}) if (*x != "bot" && *x != "top") r.var[*x] = strtoull(x->c_str(), nullptr, 10);
        auto& slot = r.arc[e.from][l->second == "1"]; MC_CHECK(slot.empty(), "node %s has two %s-arcs", e.from.c_str(), l->second.c_str()); slot = e.to; }
    for (auto& v : r.var) { auto it = r.arc.find(v.first); MC_CHECK(it != r.arc.end() && !it->second[0].empty() && !it->second[1].empty(), "node %s lacks an arc", v.first.c_str()); }
    return r;
}
void check_printed(const std::string& text, TT t, const Pos& pos) {
    const int n = int(pos.size()); const size_t size = bdd_size(t, n); Read r = parse_printed(text);
    MC_CHECK(r.var.size() == size, "the graph of %s has %zu decision nodes, the diagram %zu", str(t, n).c_str(), r.var.size(), size);
    if (!size) return;
    TT got = function_of(r, root_of(r), pos); MC_CHECK(got == t, "the printed graph of %s describes %s", str(t, n).c_str(), str(got, n).c_str());
}
Read parse_exported(const std::string& text) {
    Graph g = Reader{text}.read(); Read r; std::set<std::string> seen;
    for (auto& x : g.nodes) {
        auto l = x.second.find("label"); MC_CHECK(l != x.second.end(), "node %s has no label", x.first.c_str()); MC_CHECK(seen.insert(x.first).second, "node %s is listed twice", x.first.c_str());
        if (l->second == "bot") { MC_CHECK(r.bot.empty(), "two false sinks"); r.bot = x.first; } else if (l->second == "top") { MC_CHECK(r.top.empty(), "two true sinks"); r.top = x.first; }
        else { MC_CHECK(!l->second.empty() && l->second.find_first_not_of("0123456789") == std::string::npos, "node %s is labelled %s", x.first.c_str(), l->second.c_str()); r.var[x.first] = strtoull(l->second.c_str(), nullptr, 10); } }
    MC_CHECK(!r.bot.empty() && !r.top.empty(), "the exported graph lacks a labelled sink");
    for (auto& e : g.edges) {
        MC_CHECK(seen.count(e.from) && seen.count(e.to), "an arc mentions an unlisted node (%s -> %s)", e.from.c_str(), e.to.c_str());
        auto st = e.attr.find("style"); if (st != e.attr.end() && st->second == "invis") continue;
        const bool dashed = st != e.attr.end() && st->second == "dashed"; MC_CHECK(dashed || st == e.attr.end() || st->second == "solid", "arc of style %s", st->second.c_str());
        MC_CHECK(r.var.count(e.from), "a sink has an outgoing arc"); auto& slot = r.arc[e.from][!dashed]; MC_CHECK(slot.empty(), "node %s has two %s arcs", e.from.c_str(), dashed ? "dashed" : "solid"); slot = e.to; }
    for (auto& v : r.var) { auto it = r.arc.find(v.first); MC_CHECK(it != r.arc.end() && !it->second[0].empty() && !it->second[1].empty(), "node %s lacks an arc", v.first.c_str()); }
    return r;
}
void check_exported(const std::string& text, TT t, const Pos& pos) {
    const int n = int(pos.size()); const size_t size = bdd_size(t, n); Read r = parse_exported(text);
    MC_CHECK(r.var.size() == size, "the exported graph of %s has %zu decision nodes, the diagram %zu", str(t, n).c_str(), r.var.size(), size);
    if (!size) return;
    TT got = function_of(r, root_of(r), pos); MC_CHECK(got == t, "the exported graph of %s describes %s", str(t, n).c_str(), str(got, n).c_str());
}
std::string printed(node_ref f) { std::ostringstream o; f.print(o); mc::steps(); return o.str(); }
std::string exported(const bdd_collection& c, size_t nr) { std::ostringstream o; c.export_graphviz(nr, o); mc::steps(); return o.str(); }

void print_one(bdd_mgr& m, TT t, const Pos& pos, size_t nv) {
    node_ref f = build(m, t, pos); const size_t count = m.nr_nodes(), refs = f.reference_count(); const std::string a = printed(f); check_printed(a, t, pos);
    MC_CHECK(printed(f) == a, "printing %s a second time gives another text", str(t, int(pos.size())).c_str());
    MC_CHECK(m.nr_nodes() == count && f.reference_count() == refs && eval_tt(f, pos, nv) == t && f.nr_nodes() == bdd_size(t, int(pos.size())), "printing changed the BDD");
    check_structure(f, "printed BDD"); for (auto& x : f.nodes_postorder()) MC_CHECK(!x.marked(), "printing left a node marked"); MC_CHECK(build(m, t, pos) == f, "printing destroyed canonicity"); mc::state(mc::mix(t, mc::mix(pos.size(), pos.back()))); mc::nontrivial(f.nr_nodes() > 1);
}
void shared(TT a, TT b, int n) { // printing one of two BDDs sharing nodes, in turn
    bdd_mgr m; add_vars(m, n); const Pos p = ident(n); node_ref f = build(m, a, p), g = build(m, b, p); 
    for (int k = 0; k < 3; ++k) { check_printed(printed(k == 1 ? g : f), k == 1 ? b : a, p); if (!f.is_terminal()) { auto l = f.low(); const TT lt = eval_tt(l, p, n); check_printed(printed(l), lt, p); } }
    node_ref h = m.and_rec(f, g); check_printed(printed(h), a & b, p); check_printed(printed(f), a, p); mc::state(mc::mix(a, b));
}
void export_one(bdd_collection& c, size_t nr, TT t, const Pos& pos, const std::vector<Stored>& before) {
    const std::string a = exported(c, nr); check_exported(a, t, pos); MC_CHECK(exported(c, nr) == a, "exporting a second time gives another text"); MC_CHECK(all_stored(c) == before, "exporting changed the collection"); mc::state(mc::mix(t, mc::mix(nr, pos.back()))); mc::nontrivial(bdd_size(t, int(pos.size())) > 1);
}
// the function a graph describes, in the independent store
ref::Id graph_id(ref::Store& s, const Read& r) {
    std::unordered_map<std::string, ref::Id> id{{r.bot, 0}, {r.top, 1}}; std::vector<std::string> todo{root_of(r)};
    while (!todo.empty()) { const std::string x = todo.back(); if (id.count(x)) { todo.pop_back(); continue; } auto a = r.arc.find(x); MC_CHECK(a != r.arc.end(), "the graph has a node %s without arcs", x.c_str()); MC_CHECK(todo.size() <= 2 * r.var.size() + 2, "the graph is cyclic"); bool ok = true; for (auto& c : a->second) if (!id.count(c)) { todo.push_back(c); ok = false; } if (ok) { id[x] = s.mk(r.var.at(x), id[a->second[0]], id[a->second[1]]); todo.pop_back(); } }
    return id[root_of(r)];
}
void scale(size_t n, int kind, int place) {
    ref::Store s; const auto V = ref::vars(n, place); const ref::Id f = ref::shape(s, kind, V); if (f < 2) return; bdd_mgr m; node_ref F = ref::make(m, s, f); bdd_collection c; ref::put(c, s, ref::shape(s, 1, ref::vars(5))); const size_t nr = c.add_bdd(F); const size_t k = s.size(f); mc::steps(2);
    for (int round = 0; round < 2; ++round) {
        Read p = parse_printed(printed(F)); mc::beat(); MC_CHECK(p.var.size() == k, "the printed graph has %zu decision nodes, the diagram %zu", p.var.size(), k); MC_CHECK(graph_id(s, p) == f, "the printed graph of %zu nodes describes another function", k); mc::beat();
        Read e = parse_exported(exported(c, nr)); mc::beat(); MC_CHECK(e.var.size() == k, "the exported graph has %zu decision nodes, the diagram %zu", e.var.size(), k); MC_CHECK(graph_id(s, e) == f, "the exported graph of %zu nodes describes another function", k); mc::beat(); }
    ref::is(s, F, f, "printed BDD", n); ref::stored_is(s, c, nr, f, "exported BDD", n);
    if (place == 0) { const size_t far[3] = {65530, (size_t(1) << 32) - 4, size_t(1) << 40}; for (size_t base : far) { std::unordered_map<size_t, size_t> to; size_t at = 0; for (size_t v : c.variables(nr)) to[v] = base + at++; c.rebase(nr, to); const ref::Id w = ref::read(s, c, nr, "exported BDD"); MC_CHECK(graph_id(s, parse_exported(exported(c, nr))) == w, "the exported graph with variables from %zu describes another function", base); } }
    mc::nontrivial(); mc::state(mc::mix(n, kind * 16 + place));
}
} // namespace

std::vector<mc::Scenario> mc_scenarios(int tier) {
    const bool T = tier == mc::THOROUGH, A = mc::memory_controlled(); std::vector<mc::Scenario> s;
    for (int n = 1; n <= 3; ++n) s.push_back({"print-" + std::to_string(n), "all functions of " + std::to_string(n) + " variables, constants included, all placements into " + std::to_string(n + 1) + " of " + std::to_string(n + 2) + " variables, printed and parsed back", 16, [n](long u) { const long N = 1l << (1 << n); key_regime(u % 4); for (auto& pos : placements(n, n + 1)) { bdd_mgr m; add_vars(m, n + 2); for (long t = N * (u / 4) / 4; t < N * (u / 4 + 1) / 4; ++t) print_one(m, t, pos, n + 2); } }});
    if (A) s.push_back({"print-4", "all functions of 4 variables", 512, [](long u) { bdd_mgr m; add_vars(m, 4); for (long k = 0; k < 128; ++k) print_one(m, (k * 512 + u) & 0xffff, ident(4), 4); }, 120});
    s.push_back({"print-far", "functions of 2 variables placed at variables up to 300 (labels of one to three digits)", 16, [](long u) { bdd_mgr m; add_vars(m, 301); for (size_t a : {0, 1, 9, 10, 11, 99, 100}) for (size_t b : {12, 101, 110, 300}) if (a < b) print_one(m, u, {a, b}, 301); }});
    s.push_back({"print-shared", A ? "all pairs of functions of 3 variables in one manager, printed in turn with their subdiagrams and their conjunction" : "a sixteenth of the pairs", A ? 256 : 16, [](long u) { for (int b = 0; b < 256; ++b) shared(u, b, 3); }});
    for (int n = 1; n <= 3; ++n) s.push_back({"export-" + std::to_string(n), "all functions of " + std::to_string(n) + " variables, all placements into " + std::to_string(n + 1) + ", stored after 0..3 others, exported and parsed back", 16, [n](long u) { const long N = 1l << (1 << n); for (auto& pos : placements(n, n + 1)) for (long t = N * (u / 4) / 4; t < N * (u / 4 + 1) / 4; ++t) { bdd_collection c; for (int k = 0; k < u % 4; ++k) put(c, scatter(k * 77 + t) & 0xff, {0, 1, 2}); size_t nr = put(c, t, pos); if (t % 2) put(c, 0x96, {0, 1, 2}); export_one(c, nr, t, pos, all_stored(c)); } }});
    s.push_back({"export-4", "functions of 4 variables stored in one collection", T ? 512 : 32, [](long u) { bdd_collection c; std::vector<TT> t; for (long k = 0; k < 16; ++k) { t.push_back(scatter(u * 16 + k) & 0xffff); put(c, t.back(), ident(4)); } auto b = all_stored(c); for (size_t i = 0; i < t.size(); ++i) export_one(c, i, t[i], ident(4), b); }, 60});
    s.push_back({"export-far", "functions of 2 variables placed at variables up to 300", 16, [](long u) { for (size_t a : {0, 1, 9, 10, 11, 99, 100}) for (size_t b : {12, 101, 110, 300}) if (a < b) { bdd_collection c; put(c, 0x96, {0, 1, 2}); size_t nr = put(c, u, {a, b}); export_one(c, nr, u, {a, b}, all_stored(c)); } }});
    s.push_back({"export-derived", "all pairs from 16 functions of 3 variables: conjunctions, relaxations, rebased BDDs and BDDs moved by a removal, exported", 16, [](long u) { static const TT fs[16] = {0, 0xff, 0xaa, 0xcc, 0xf0, 0x96, 0x80, 0xfe, 0xe8, 0xca, 0xd8, 0x69, 0x01, 0x7f, 0x18, 0x3c}; for (int j = 0; j < 16; ++j) {
        bdd_collection c; const Pos p = ident(3); put(c, fs[u], p); put(c, fs[j], p); size_t r = c.bdd_and(size_t(0), size_t(1)); export_one(c, r, fs[u] & fs[j], p, all_stored(c)); export_one(c, 0, fs[u], p, all_stored(c));
        std::set<size_t> none; size_t q = c.bdd_or_var(r, none, none); export_one(c, q, fs[u] & fs[j], p, all_stored(c)); std::vector<size_t> map{2, 5, 11}; c.rebase(r, map.begin(), map.end()); export_one(c, r, fs[u] & fs[j], {2, 5, 11}, all_stored(c));
        std::vector<size_t> rm{0}; c.remove(rm.begin(), rm.end()); export_one(c, 1, fs[u] & fs[j], {2, 5, 11}, all_stored(c)); export_one(c, 0, fs[j], p, all_stored(c)); } }});
    { const size_t M = mc::memory_controlled() ? (T ? 1025 : 513) : 65; const auto z = ref::sizes(M); s.push_back({"far", "the same for functions of 6 variables around 2^8, 2^15 and 2^16: across that index and at equal remainders of it", 3 * 12 * 4, [](long u) { ref::Far far(ref::FAR[u % 3]); scale(6, int(u / 3 % 12), int(u / 36)); }, 120});
      s.push_back({"scale", "12 kinds of functions of 2^k-1, 2^k, 2^k+1 variables up to " + std::to_string(M) + " in 4 placements, exported also with variables around 2^16, 2^32, 2^40; graphs read back into an independent store", long(z.size()) * 48, [z](long u) { scale(z[u / 48], int(u / 4 % 12), int(u % 4)); }, 120}); }
    { const int K = mc::memory_controlled() ? (T ? 11 : 10) : 4; s.push_back({"wide", "two kinds of functions of 2k variables with 2^k nodes on one level, k = 4.." + std::to_string(K) + " (about 3 * 2^k nodes), exported and read back", long(K - 3) * 2 * 2, [](long u) { const size_t n = 2 * (4 + size_t(u / 4)); const int kind = ref::WIDE + int(u / 2 % 2), r = int(u % 2); scale(n, kind, r); }, 240}); }
    return s;
}
