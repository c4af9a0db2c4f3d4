// P21: the CNF programs, run whole, and the CUDD wrapper they use.
#include "common.hpp"
#include "io.hpp"
#include <cudd.h>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/util/MySet.hpp>
#include <bits/stdc++.h>        // whatever the programs include has to be in before the namespaces open
#include "apps/cnfbdd/Cudd.hpp"

namespace cnfbdd {
#include "apps/cnfbdd/CnfToBdd.cpp"
#define main program
#include "apps/cnfbdd/cnfbdd.cpp"
#undef main
}
namespace cnfztdd {
#include "apps/cnf2ztdd2bdd/CnfToZtdd.cpp"
#define main program
#include "apps/cnf2ztdd2bdd/cnf2ztdd2bdd.cpp"
#undef main
}
#include "app.hpp"
static bool mine(const char* n) { return strstr(n, "N6cnfbdd") || strstr(n, "N7cnfztdd"); }

typedef std::vector<VI> Clauses;        // literals
static bool gMany = false;
struct Cnf {
    int nv; Clauses c; std::string text; size_t lastZero;
    // variables at bit v-1
    bool holds(uint32_t m) const { for (auto& k : c) { bool ok = false; for (int x : k) if ((m >> (std::abs(x) - 1) & 1) == (x > 0)) ok = true; if (!ok) return false; } return true; }
    // sorted by variable, without duplicates and without clauses that always hold
    Clauses normal() const { Clauses r; for (auto k : c) { std::sort(k.begin(), k.end(), [](int a, int b) { return std::abs(a) != std::abs(b) ? std::abs(a) < std::abs(b) : a < b; }); k.erase(std::unique(k.begin(), k.end()), k.end()); bool t = false; for (size_t i = 1; i < k.size(); ++i) if (k[i] == -k[i - 1]) t = true; if (!t) r.push_back(k); } return r; }
    void generate(int maxV, int maxC) {
        int small = (int)draw(6); nv = small ? 2 + (int)draw(maxV - 1) : 1 + (int)draw(2); int len = 1 + (int)draw(3), more = 1 + (int)draw(4), nc = 1 + (int)draw(len == 1 ? (maxC + 1) / 2 : maxC), span = draw(2) ? nv : 1 + (int)draw(nv), odd = (int)draw(12); SM r(draw(1ULL << 40));
        if (gMany) { nc = 250 + (int)draw(60); nv = 6 + (int)draw(4); len = 5; more = 1 + (int)draw(6); span = nv; odd = draw(2) ? 5 : 3; }
        for (int j = 0; j < nc; ++j) {
            VI k; int n = len + (int)r.below(more), base = 1 + (int)r.below(nv - span + 1);
            for (int i = 0; i < n; ++i) { int v = base + (int)r.below(span), again = 0; for (int x : k) again |= std::abs(x) == v; if (again && odd > 2) continue; k.push_back(r.below(2) ? v : -v); }
            if (odd == 0 && r.below(3) == 0) k.push_back(-k[0]);
            if (odd == 1) k.push_back(-k.back());
            if (odd == 2 && j && r.below(2)) { k = c[r.below(c.size())]; std::reverse(k.begin(), k.end()); }
            if (odd == 3 && j && r.below(2)) { k = c[r.below(c.size())]; k.push_back(1 + (int)r.below(nv)); }       // a weaker clause
            c.push_back(k);
        }
        int style = (int)draw(4); char b[32];
        for (int i = (int)r.below(3); i > 0; --i) text += style == 3 ? "c p cnf 1 1\n" : "c comment 1 0\n";
        snprintf(b, 32, "p cnf %d %d\n", nv, nc); text += b;
        for (auto& k : c) { for (int x : k) { snprintf(b, 32, "%d", x); text += b; text += style == 1 && r.below(3) == 0 ? "\n" : style == 2 ? "  " : " "; } lastZero = text.size(); text += "0"; text += style == 1 && r.below(2) ? " " : "\n"; }
        if (draw(3) == 2) text.erase(text.size() - 1);
        if (draw(6) == 5) text += draw(2) ? "\n%\n0\n" : "\n\n";
    }
};
static int truthBdd(Canon& c, std::vector<char> const& t, int nv, int v, uint32_t m) {
    if (v > nv) return t[m];
    int k[2] = { truthBdd(c, t, nv, v + 1, m), truthBdd(c, t, nv, v + 1, m | 1u << (v - 1)) }; return c.make(nv - v + 1, k);
}
static int clauseZtdd(Canon& c, std::set<VI> const& s, int nv, int v) {
    if (s.empty()) return 0; if (v > nv) return 1;
    std::set<VI> p[3]; for (auto k : s) { int b = 0; if (!k.empty() && std::abs(k[0]) == v) { b = k[0] > 0 ? 2 : 1; k.erase(k.begin()); } p[b].insert(k); }
    int ch[3]; for (int b = 0; b < 3; ++b) ch[b] = clauseZtdd(c, p[b], nv, v + 1); return c.make(nv - v + 1, ch);
}
// clauses a -cnf picture shows
static Clauses picture(std::string const& t) {
    std::map<int, VI> m; size_t p = 0; std::vector<std::string> L = splitLines(t); if (L.empty() || L[0].compare(0, 9, "digraph \"") || L.back() != "}") sim::fail("TEXT", "not a complete digraph");
    for (auto& s : L) { int j, v, x; (void)p; if (sscanf(s.c_str(), " c%d_%d [label=\"%d\"", &j, &v, &x) == 3 && v > 0) { if (std::abs(x) != v) sim::fail("TEXT", "literal %d is at variable %d", x, v); m[j].push_back(x); } }
    Clauses r; for (auto& x : m) { std::sort(x.second.begin(), x.second.end(), [](int a, int b) { return std::abs(a) < std::abs(b); }); r.push_back(x.second); } return r;
}
static void cnfRun(int maxV, int maxC) {
    sim::stepLimit(2000000000ULL); cudd::World world; cudd::w = &world;
    Env e = drawEnv(); bool bdd = draw(3) != 2; Cnf f; f.generate(maxV, maxC); Input in; in.text = f.text;
    bool cut = draw(8) == 7; if (cut) in.text.erase(draw(f.lastZero + 1));
    VS a; a.push_back(bdd ? "cnfbdd" : "cnf2ztdd2bdd"); auto opt = [&](bool on, const char* o) { if (on) a.push_back(o); return on; };
    bool sorted = false; int dump = 0; // 0 none, 1 cnf, 2 dd0, 3 dd1, 4 dump, 5 dd2
    if (bdd) {
        sorted = opt(draw(3) == 2, "-s"); opt(draw(5) == 4, "-n"); opt(draw(4) == 3, "-b"); opt(draw(3) == 2, "-c"); opt(e.mp, "-p");
        if (draw(3) == 2) { a.push_back("-limit"); a.push_back(std::to_string(draw(2) ? draw(40) : draw(6))); }
        dump = (int)draw(6); if (dump == 5) dump = 0;
    } else { dump = (int)draw(6); if (dump == 1) dump = 0; }
    static const char* const dn[] = { "", "-cnf", "-dd0", "-dd1", "-dump", "-dd2" }; opt(dump, dn[dump]);
    in.prepare(true, true); a.push_back(in.arg); std::unique_ptr<MemFile> of; int list = (int)draw(3); // 0 none, 1 to the file, 2 standard output
    if (list == 2 && dump) list = 1;
    if (list == 1) { of.reset(new MemFile); of->put("old"); a.push_back(of->path); } else if (list == 2) a.push_back("-");
    mixArgs(a);
    for (auto& x : a) sim::note("%s ", &x != &a[0] && x == in.arg && !in.viaCin ? "CNF" : of && x == of->path ? "OUT" : x.c_str()); sim::note("%d: ", f.nv); for (auto& k : f.c) { if (&k - &f.c[0] > 60) break; sim::note("("); for (int x : k) sim::note(" %d", x); sim::note(")"); } sim::note(cut ? " cut " : " ");
    Disk d; d.in.push_back(&in); sim::setIo(&d.io);
    App r = runApp(e, a, in.b.get(), [&](int c, char** v) { return bdd ? cnfbdd::program(c, v) : cnfztdd::program(c, v); });
    sim::setIo(0);
    if (world.outside) sim::fail("LIFE", "%ld references to CUDD nodes are left", world.outside);
    if (in.hit() || cut) { if (!r.rc && (cut || in.stopped(f.lastZero + 1))) sim::fail("PARTIAL", "the formula could not be read in full and the program returns success"); if (r.rc) return; }
    if (r.rc) sim::fail("REJECTED", "the program returns %d for well-formed input: %s", r.rc, r.err.c_str());
    std::vector<char> t(1u << f.nv); size_t members = 0; for (uint32_t m = 0; m < t.size(); ++m) members += t[m] = f.holds(m);
    Clauses want = f.normal(); std::set<VI> distinct(want.begin(), want.end());
    Canon c(BDD_, 2); int b = truthBdd(c, t, f.nv, 1, 0);
    checkNumber(r.err, "#var = ", f.nv); checkNumber(r.err, "#clause = ", (double)want.size()); checkNumber(r.err, "#solution = ", (double)members, true);
    if (!bdd) checkNumber(r.err, "#clause = ", (double)distinct.size(), true);
    std::string text = list == 1 ? of->get() : list == 2 ? r.out : std::string();
    if (dump == 1) { Clauses got = picture(r.out); if (sorted) { std::set<VI> g(got.begin(), got.end()); if (got.size() > want.size()) sim::fail("TEXT", "there are more clauses than in the input"); got.assign(g.begin(), g.end()); want.assign(distinct.begin(), distinct.end()); } std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); if (got != want) sim::fail("TEXT", "the pictured clauses are not those of the input"); }
    else if (dump == 4 || (bdd && dump)) { size_t nodes; if (dotZdd(c, r.out, &nodes) != b) sim::fail("MEANING", "the dumped diagram does not have the %d models", (int)members); if (dump == 4 && nodes != c.count(b)) sim::fail("SIZE", "the final diagram has %d nodes, the smallest %d", (int)nodes, (int)c.count(b)); }
    else if (dump) { Canon z(ZDD_, 3); size_t nodes; int g = clauseZtdd(z, distinct, f.nv, 1); if (dotZdd(z, r.out, &nodes) != g) sim::fail("MEANING", "the dumped diagram does not hold the %d clauses", (int)distinct.size()); if (dump == 5 && nodes != z.count(g)) sim::fail("SIZE", "the reduced diagram has %d nodes, the smallest %d", (int)nodes, (int)z.count(g)); }
    else if (list != 2 && !r.out.empty()) sim::fail("TEXT", "unasked output");
    if (list) {
        std::set<uint32_t> seen;
        for (auto& s : splitLines(text)) {
            std::istringstream is(s); int x, v = 1; uint32_t m = 0; std::string w; for (; is >> w; ++v) { x = atoi(w.c_str()); if (w != (x < 0 ? "-" : "+") + std::to_string(v)) sim::fail("LIST", "malformed line '%s'", s.c_str()); if (x > 0) m |= 1u << (v - 1); }
            if (v != f.nv + 1 || !is.eof()) sim::fail("LIST", "malformed line '%s'", s.c_str());
            if (!t[m]) sim::fail("LIST", "a listed assignment is not a model"); if (!seen.insert(m).second) sim::fail("LIST", "a model is listed twice");
        }
        if (seen.size() != members) sim::fail("LIST", "%d of %d models are listed", (int)seen.size(), (int)members);
    }
    if (members > 1 && c.count(b) > 2) sim::nontrivial();
}
WORKLOAD(cnf) { cnfRun(7, 10); }
WORKLOAD(cnfbig) { cnfRun(11, 30); }
WORKLOAD(cnfmany) { gMany = true; cnfRun(9, 30); gMany = false; }       // more than 256 clauses

// ---------------------------------------------------------------- wrong command lines
WORKLOAD(cnfusage) {
    sim::stepLimit(2000000000ULL); cudd::World world; cudd::w = &world;
    Env e = drawEnv(); bool bdd = draw(2); int kind = (int)draw(5); Input in; in.text = "p cnf 2 1\n1 2 0\n"; if (kind == 3) in.text = draw(2) ? "p cnf 2 1\n1 3 0\n" : "p cnf 2 1\n1 2 0\n2 0\n"; if (kind == 4) in.text = "1 2 0\n"; in.prepare(false, false);
    VS a; a.push_back(bdd ? "cnfbdd" : "cnf2ztdd2bdd"); if (kind == 0) a.push_back("-nonsense"); if (kind != 1) a.push_back(in.arg); if (kind == 2) { a.push_back("-"); a.push_back("-"); }
    sim::note("kind=%d bdd=%d ", kind, bdd);
    Disk d; d.in.push_back(&in); sim::setIo(&d.io);
    App r = runApp(e, a, 0, [&](int c, char** v) { return bdd ? cnfbdd::program(c, v) : cnfztdd::program(c, v); });
    sim::setIo(0);
    if (!r.rc) sim::fail("ACCEPTED", "a wrong command line or formula is accepted");
    if (!r.out.empty()) sim::fail("TEXT", "there is output for a wrong command line or formula");
    static const char* const said[] = { "usage", "usage", "usage", "", "header line not found" }; std::string what = kind == 3 ? in.text[11] == '3' || in.text[12] == '3' ? "out of range" : "Too many" : said[kind];
    if (r.err.find(what) == std::string::npos) sim::fail("TEXT", "nothing is said about what is wrong: %s", r.err.c_str());
}

// ---------------------------------------------------------------- the wrapper
typedef uint64_t TT;                    // truth table; variable l (1-based level) at bit l-1 of the row number
static void wrapperRun() {
    sim::stepLimit(2000000000ULL); cudd::World world; cudd::w = &world;
    Env e = drawEnv(); e.mp = gMp = false; int n = 1 + (int)draw(6), rows = 1 << n; TT all = rows == 64 ? ~0ULL : (1ULL << rows) - 1;
    auto var = [&](int l) { TT t = 0; for (int m = 0; m < rows; ++m) if (m >> (l - 1) & 1) t |= 1ULL << m; return t; };
    auto cof = [&](TT f, int l, bool b) { TT r = 0; for (int m = 0; m < rows; ++m) { int q = b ? m | 1 << (l - 1) : m & ~(1 << (l - 1)); if (f >> q & 1) r |= 1ULL << m; } return r; };
    struct F { std::unique_ptr<Cudd> f; TT t; }; std::vector<F> v;
    auto add = [&](Cudd* p, TT t) { F x; x.f.reset(p); x.t = t & all; v.push_back(std::move(x)); };
    { Cudd* p; SUT(p = new Cudd(0)); add(p, 0); SUT(p = new Cudd(1)); add(p, all); }
    VI ls; for (int l = 1; l <= n; ++l) ls.push_back(l);
    while (!ls.empty()) { size_t k = draw(ls.size()); int l = ls[k]; ls.erase(ls.begin() + k); Cudd* p; SUT(p = new Cudd(l, Cudd(0), Cudd(1))); add(p, var(l)); }
    std::function<void(Cudd const&, TT, const char*)> check = [&](Cudd const& f, TT t, const char* what) {
        if (f.isNull()) sim::fail("MEANING", "%s gives nothing", what);
        TT got = 0; for (int m = 0; m < rows; ++m) { bool bit; SUT(Cudd g(f); while (!g.isConstant()) { int l = g.level(); if (l < 1 || l > n) sim::fail("MEANING", "level %d", l); g = g.child(m >> (l - 1) & 1); } bit = g == 1; if (bit == (g == 0) || bit != !(g != 1)) sim::fail("MEANING", "a constant is both or none")); if (bit) got |= 1ULL << m; }
        if (got != t) sim::fail("MEANING", "%s gives %llx, right is %llx", what, (ULL)got, (ULL)t);
    };
    size_t steps = 4 + draw(20);
    for (size_t s = 0; s < steps; ++s) {
        size_t i = draw(v.size()), j = draw(v.size()), k = draw(v.size()); Cudd const &f = *v[i].f, &g = *v[j].f, &h = *v[k].f; TT a = v[i].t, b = v[j].t, c = v[k].t, r = 0; Cudd* p = 0; const char* what = "";
        TT cm = draw(1 << n); auto cube = [&](bool neg) { Cudd q(1); for (int l = 1; l <= n; ++l) if (cm >> (l - 1) & 1) { Cudd x(l, Cudd(neg), Cudd(!neg)); q &= x; } return q; };
        int op = (int)draw(18); sim::note("%d(%zu,%zu,%zu) ", op, i, j, k);
        switch (op) {
        case 0: what = "~"; SUT(p = new Cudd(~f)); r = ~a; break;
        case 1: what = "&"; SUT(p = new Cudd(f & g)); r = a & b; break;
        case 2: what = "|"; SUT(p = new Cudd(f | g)); r = a | b; break;
        case 3: what = "^"; SUT(p = new Cudd(f ^ g)); r = a ^ b; break;
        case 4: what = "ite"; SUT(p = new Cudd(f.ite(g, h))); r = (a & b) | (~a & c); break;
        case 5: { what = "a node"; int l = 1 + (int)draw(n); SUT(p = new Cudd(l, f, g)); r = (var(l) & b) | (~var(l) & a); break; }
        case 6: what = "abstract"; SUT(p = new Cudd(f.abstract(cube(false)))); r = a; for (int l = 1; l <= n; ++l) if (cm >> (l - 1) & 1) r = cof(r, l, 0) | cof(r, l, 1); break;
        case 7: what = "andAbstract"; SUT(p = new Cudd(f.andAbstract(g, cube(false)))); r = a & b; for (int l = 1; l <= n; ++l) if (cm >> (l - 1) & 1) r = cof(r, l, 0) | cof(r, l, 1); break;
        case 8: { what = "cofactor"; bool neg = draw(2); SUT(p = new Cudd(f.cofactor(cube(neg)))); r = a; for (int l = 1; l <= n; ++l) if (cm >> (l - 1) & 1) r = cof(r, l, !neg); break; }
        case 9: what = "abstract1"; SUT(p = new Cudd(f.abstract1(cube(false)))); r = a; for (int l = 1; l <= n; ++l) if (cm >> (l - 1) & 1) { TT x = cof(r, l, 0), y = cof(r, l, 1); r = (~var(l) & x) | (var(l) & (x | y)); } break;
        case 10: { what = "compose"; std::vector<size_t> w(n + 1, (size_t)-1); for (int l = 1; l <= n; ++l) if (draw(2)) w[l] = draw(v.size());
            SUT({ std::vector<Cudd> x(n + 1); for (int l = 1; l <= n; ++l) if (w[l] != (size_t)-1) x[l] = *v[w[l]].f; p = new Cudd(f.compose(x)); });
            for (int m = 0; m < rows; ++m) { int q = 0; for (int l = 1; l <= n; ++l) if ((w[l] == (size_t)-1 ? m >> (l - 1) & 1 : (int)(v[w[l]].t >> m & 1))) q |= 1 << (l - 1); if (a >> q & 1) r |= 1ULL << m; } break; }
        case 11: { what = "&="; SUT(p = new Cudd(f); *p &= g); r = a & b; break; }
        case 12: { what = "|="; SUT(p = new Cudd(f); *p |= g); r = a | b; break; }
        case 13: { what = "^="; SUT(p = new Cudd(f); *p ^= g); r = a ^ b; break; }
        case 14: { what = "support"; SUT(p = new Cudd(f.support())); r = all; for (int l = 1; l <= n; ++l) if (cof(a, l, 0) != cof(a, l, 1)) r &= var(l); break; }
        case 15: { bool q1, q2, q3, q4; size_t h1, h2; SUT(q1 = f.contains(g); q2 = f.intersects(g); q3 = f == g; q4 = f != g; h1 = f.hash(); h2 = g.hash());
            if (q1 != !(b & ~a & all)) sim::fail("MEANING", "contains"); if (q2 != !!(a & b)) sim::fail("MEANING", "intersects"); if (q3 != (a == b) || q4 == q3) sim::fail("MEANING", "comparison"); if (a == b && h1 != h2) sim::fail("MEANING", "hash"); continue; }
        case 16: { double x; SUT(x = f.countMinterm(n)); if (x != (double)__builtin_popcountll(a)) sim::fail("MEANING", "%g minterms, right is %d", x, __builtin_popcountll(a)); continue; }
        default: { what = "the diagram"; std::unique_ptr<DdStructure<2> > dd; SUT(Cudd q(f); dd.reset(new DdStructure<2>(q))); Canon z(BDD_, 2); std::vector<char> t(rows); for (int m = 0; m < rows; ++m) { int q = 0; for (int l = 1; l <= n; ++l) if (m >> (n - l) & 1) q |= 1 << (l - 1); t[m] = a >> q & 1; }
            int want = truthBdd(z, t, n, 1, 0); checkCanon(*dd, z, want, what); SUT(dd.reset()); if (z.count(want) > 2) sim::nontrivial(); continue; }
        }
        add(p, r); check(*v.back().f, v.back().t, what);
    }
    for (size_t s = 0; s < v.size(); ++s) check(*v[s].f, v[s].t, "an earlier function");
    for (auto& x : v) if (x.t && x.t != all && v.size() > 6) sim::nontrivial();
    SUT(v.clear());
    if (world.outside) sim::fail("LIFE", "%ld references to CUDD nodes are left", world.outside);
}
WORKLOAD(wrapper) { wrapperRun(); }
