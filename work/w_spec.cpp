// P17: the supplied combinatorial specifications against brute force.
#include "common.hpp"
#include "gref.hpp"
#include <tdzdd/util/IntSubset.hpp>
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/spec/DegreeConstraint.hpp>
#include <tdzdd/spec/PathZdd.hpp>
#include <tdzdd/spec/PathZddByStdMap.hpp>
#include <tdzdd/spec/LinearConstraints.hpp>
#include <tdzdd/spec/FrontierBasedSearch.hpp>

// knownPred: the family an unrepaired known defect gives instead
template<typename SPEC> static void compare(Env& e, SPEC const& spec, int n, Pred const& p, const char* what, const char* knownId = 0, Pred const& knownPred = Pred()) {
    Canon c(ZDD_, 2); size_t members = 0; int want = bruteZdd(c, n, p, members);
    sim::note("%s members=%llu ", what, (ULL)members);
    DdP<2> dd = mk<2>(e, spec, e.mp);
    if (knownId) { size_t m2 = 0; int w2 = bruteZdd(c, n, knownPred, m2); SUT(checkTable(*dd, what)); if (w2 != want && canonOf(c, *dd, what) == w2 && sim::known(knownId)) want = w2, members = m2; }
    checkCanon(*dd, c, want, what);
    perturbThreads(e);
    int k = (int)draw(4);
    if (k == 1) { op(e, [&] { dd->zddReduce(); }); checkCanon(*dd, c, want, what); checkMinimal(*dd, c, want, what); }
    if (k == 2) {       // used as a filter of the power set
        DdP<2> u; op(e, [&] { u.reset(new DdStructure<2>(n, e.mp)); u->zddSubset(spec); });
        checkCanon(*u, c, want, what); SUT(u.reset());
    }
    if (k == 3) { std::string s; op(e, [&] { s = dd->zddCardinality(); }); if (s != Canon(c).cardinality(want, 0)) sim::fail("COUNT", "%s: %s members are counted instead of %llu", what, s.c_str(), (ULL)members); }
    if (members > 1) sim::nontrivial();
    SUT(dd.reset());
}

static void pathRun(int maxV, int maxE) {
    Env e = drawEnv(); G g; drawGraph(g, maxV, maxE); int n = (int)g.e.size();
    int kind = (int)draw(7); bool la = draw(2) == 0; sim::note("kind=%d la=%d ", kind, la);
    if (kind < 3) {
        int pairs = 1 + (int)draw(2); if (2 * pairs > g.nv) pairs = 1; if (g.nv < 2) sim::reject("too small");
        std::vector<int> vs; for (int v = 1; v <= g.nv; ++v) vs.push_back(v);
        for (int c = 1; c <= pairs; ++c) for (int k = 0; k < 2; ++k) { size_t i = draw(vs.size()); g.col[vs[i]] = c; vs.erase(vs.begin() + i); }
        setColors(g);
        if (g.g->numColor() != pairs || !g.g->hasColorPairs()) sim::fail("GRAPH", "colour pairs are not recognised");
        if (kind == 0) { PathZdd s(*g.g, la); compare(e, s, n, [&](uint32_t m) { return pathPred(g, m, false); }, "PathZdd"); }
        else if (kind == 1) { HamiltonPathZdd s(*g.g, la); compare(e, s, n, [&](uint32_t m) { return pathPred(g, m, true); }, "HamiltonPathZdd", "hamilton-path-left-out", [&](uint32_t m) { return pathPred(g, m, false) && leftOut(g, m, false); }); }
        else { PathZddByStdMap s(*g.g); struct P2 : PathZddByStdMap { P2(Graph const& g) : PathZddByStdMap(g) {} };
            // states print as nothing useful; only construction is compared
            Canon c(ZDD_, 2); size_t mem = 0; int want = bruteZdd(c, n, [&](uint32_t m) { return pathPred(g, m, false); }, mem); DdP<2> dd; op(e, [&] { dd.reset(new DdStructure<2>(s, e.mp)); }); 
            if (pairs > 1) { size_t m2 = 0; int w2 = bruteZdd(c, n, [&](uint32_t m) { return slowPred(g, m); }, m2); SUT(checkTable(*dd, "PathZddByStdMap")); if (w2 != want && canonOf(c, *dd, "PathZddByStdMap") == w2 && sim::known("slow-several-pairs")) want = w2; }
            checkCanon(*dd, c, want, "PathZddByStdMap"); if (mem > 1) sim::nontrivial(); SUT(dd.reset()); }
    } else if (kind < 6) {
        if (kind == 3) { CycleZdd s(*g.g, la); compare(e, s, n, [&](uint32_t m) { return cyclePred(g, m, false); }, "CycleZdd"); }
        else if (kind == 4) { HamiltonCycleZdd s(*g.g, la); compare(e, s, n, [&](uint32_t m) { return cyclePred(g, m, true); }, "HamiltonCycleZdd", "hamilton-cycle-left-out", [&](uint32_t m) { return cyclePred(g, m, false) && leftOut(g, m, true); }); }
        else { PathZddByStdMap s(*g.g); Canon c(ZDD_, 2); size_t mem = 0; int want = bruteZdd(c, n, [&](uint32_t m) { return cyclePred(g, m, false); }, mem); DdP<2> dd; op(e, [&] { dd.reset(new DdStructure<2>(s, e.mp)); }); checkCanon(*dd, c, want, "PathZddByStdMap (cycles)"); if (mem > 1) sim::nontrivial(); SUT(dd.reset()); }
    } else {
        std::vector<std::unique_ptr<IntSubset> > cs; std::vector<IntSubset const*> at(g.nv + 1, (IntSubset const*)0);
        auto drawSet = [&]() -> IntSubset const* { int lo = (int)draw(3), hi = lo + (int)draw(3), st = 1 + (int)draw(2); cs.emplace_back(new IntRange(lo, draw(4) == 3 ? 0x7fffffff : hi, st)); return cs.back().get(); };
        IntSubset const* def = draw(3) ? drawSet() : 0; for (int v = 1; v <= g.nv; ++v) at[v] = def;
        std::unique_ptr<DegreeConstraint> s; { sim::Sut q; s.reset(new DegreeConstraint(*g.g, def, la)); }
        for (int k = (int)draw(4); k > 0; --k) { int v = 1 + (int)draw(g.nv); at[v] = draw(5) == 4 ? 0 : drawSet(); sim::Sut q; if (draw(2)) s->setConstraint(v, at[v]); else s->setConstraint(g.g->vertexName(v), at[v]); }
        compare(e, *s, n, [&](uint32_t m) { for (int v = 1; v <= g.nv; ++v) if (at[v] && !at[v]->contains(g.deg(m, v))) return false; return true; }, "DegreeConstraint");
        SUT(s.reset());
    }
    SUT(g.g.reset());
}
WORKLOAD(graph6) { pathRun(6, 10); }
WORKLOAD(graph9) { pathRun(9, 12); }

static void fbsRun(int maxV, int maxE) {
    Env e = drawEnv(); G g; drawGraph(g, maxV, maxE); int n = (int)g.e.size();
    int nc = (int)draw(3); for (int v = 1; v <= g.nv; ++v) if (nc && draw(3) == 2) g.col[v] = 1 + (int)draw(nc);
    if (nc) setColors(g);
    int uec = (int)draw(4) - 1; bool noLoop = draw(2), la = draw(2) == 0; sim::note("uec=%d noLoop=%d la=%d ", uec, noLoop, la);
    FrontierBasedSearch s(*g.g, uec, noLoop, la);
    compare(e, s, n, [&](uint32_t m) { return fbsPred(g, m, uec, noLoop); }, "FrontierBasedSearch");
    SUT(g.g.reset());
}
WORKLOAD(fbs) { fbsRun(6, 10); }
WORKLOAD(fbs9) { fbsRun(9, 12); }

static void itemRun(int maxN) {
    Env e = drawEnv(); int n = 1 + (int)draw(maxN);
    if (draw(2) == 0) {
        int lo = (int)draw(n + 2), hi = lo + (int)draw(n + 1), st = 1 + (int)draw(4); bool none = draw(12) == 11; if (draw(5) == 4) hi = 0x7fffffff;
        sim::note("n=%d size %d..%d/%d%s ", n, lo, hi, st, none ? " none" : "");
        IntRange r(lo, hi, st); SizeConstraint s(n, none ? (IntSubset const*)0 : &r);
        compare(e, s, n, [&](uint32_t m) { return none || r.contains(__builtin_popcount(m)); }, "SizeConstraint");
    } else {
        LinearConstraints<int> s(n); int k = (int)draw(4); std::vector<std::pair<std::map<int,int>, std::pair<int,int> > > cs;
        for (int i = 0; i < k; ++i) {
            std::map<int,int> ex; for (int l = 1; l <= n; ++l) if (draw(2)) ex[l] = (int)draw(7) - 3;
            int lb = (int)draw(9) - 5, ub = lb + (int)draw(8) - (draw(10) == 9 ? 3 : 0); if (draw(6) == 5) ub = 1000; if (draw(6) == 5) lb = -1000;
            sim::note("[%d..%d] ", lb, ub); cs.push_back({ ex, { lb, ub } });
            { sim::Sut q; s.addConstraint(ex, lb, ub); }
        }
        { sim::Sut q; s.update(); }
        compare(e, s, n, [&](uint32_t m) { for (auto& c : cs) { long v = 0; for (auto& t : c.first) if (m >> (n - t.first) & 1) v += t.second; if (v < c.second.first || v > c.second.second) return false; } return true; }, "LinearConstraints");
    }
}
WORKLOAD(items) { itemRun(10); }
