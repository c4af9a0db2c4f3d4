// P19: exchange with SAPPOROBDD (a stand-in of that library, see stub/sapporo.hpp).
#include "common.hpp"
#include <tdzdd/eval/ToBDD.hpp>
#include <tdzdd/eval/ToZBDD.hpp>
#include <tdzdd/spec/SapporoBdd.hpp>
#include <tdzdd/spec/SapporoZdd.hpp>

// f with every level moved by offset; ZDD: members with an item that would get a level below 1 are left out
static int moved(Canon& to, Canon const& c, int f, int offset, std::map<int,int>& m) {
    if (f < 2) return f;
    auto it = m.find(f); if (it != m.end()) return it->second;
    int a = moved(to, c, c.child(f, 0), offset, m), r;
    if (c.level(f) + offset < 1) r = a;
    else { int k[2] = { a, moved(to, c, c.child(f, 1), offset, m) }; r = to.make(c.level(f) + offset, k); }
    return m[f] = r;
}
static int moved(Canon& to, Canon const& c, int f, int offset) { std::map<int,int> m; return moved(to, c, f, offset, m); }
static int lowest(Canon const& c, int f) { int l = 1 << 30; std::vector<size_t> n = c.perLevel(f, c.level(f)); for (size_t i = n.size(); i-- > 1;) if (n[i]) l = (int)i; return l; }

// SapporoZdd takes the number of a variable for its level below the offset
static bool zddOrderDefect(int f, int offset) {
    Canon& c = sap::w->z; std::vector<int> st(1, f); std::set<int> seen;
    while (!st.empty()) {
        int g = st.back(); st.pop_back(); if (g < 2 || !seen.insert(g).second) continue;
        if (c.level(g) > offset) { st.push_back(c.child(g, 0)); st.push_back(c.child(g, 1)); continue; }
        if (sap::w->varOfLev[c.level(g)] != c.level(g)) return true;
        st.push_back(c.child(g, 0));
    }
    return false;
}

static void sapRun(int maxN, int maxW) {
    sap::World world; sap::w = &world;
    Env e = drawEnv();
    for (int k = 0, m = (int)draw(maxN + 4); k < m; ++k) world.insert(draw(3) ? (int)world.varOfLev.size() : 1 + (int)draw(world.varOfLev.size()));
    AutoParam q = lively(drawParam(maxN, maxW), maxN); noteParam(q);
    Auto A = makeAuto(2, q); drawRoot(A);
    Canon cz(ZDD_, 2), cb(BDD_, 2); DdP<2> dd;
    withSpec<2>(A, [&](auto const& spec) { dd = mk<2>(e, spec, draw(2)); });
    int fz = cz.fromAuto(A), fb = cb.fromAuto(A), red = (int)draw(4); bool zok = red != 2, bok = red != 1;
    if (red) op(e, [&] { if (red == 1) dd->zddReduce(); else if (red == 2) dd->bddReduce(); else dd->qddReduce(); });
    dd->useMultiProcessors(e.mp);
    static const int off[] = { 0, 0, 1, 3, -1, -2, 7, -20 };
    for (int k = 0, m = 1 + (int)draw(3); k < m; ++k) {
        perturbThreads(e);
        int o1 = off[draw(8)], o2 = draw(2) ? o1 : off[draw(8)]; long live = world.live; bool zdd = zok && (!bok || draw(2));
        sim::note("%s(%d,%d) ", zdd ? "zbdd" : "bdd", o1, o2);
        size_t size = dd->size();
        if (zdd) {
            std::unique_ptr<ZBDD> f; op(e, [&] { f.reset(new ZBDD(dd->evaluate(ToZBDD(o1)))); });
            int want = moved(world.z, cz, fz, o1), id = f->id;
            if (id != want) sim::fail("MEANING", "ToZBDD(%d) gives another family", o1);
            if (world.live != live + 1) sim::fail("LIFE", "%ld handles are left after ToZBDD", world.live - live - 1);
            if ((int)world.varOfLev.size() - 1 < dd->topLevel() + o1) sim::fail("MEANING", "ToZBDD did not create the variables");
            bool skip = o2 < 0 ? sim::known("sapporo-zdd-negative") : zddOrderDefect(id, o2) && sim::known("sapporo-zdd-order");
            if (!skip) {
                DdP<2> g; { SapporoZdd spec(*f, o2); g = mk<2>(e, spec, false); }
                Canon c(ZDD_, 2); checkCanon(*g, c, moved(c, world.z, id, -o2), "diagram made from a ZBDD");
                if (g->size() > 3) sim::nontrivial();
                SUT(g.reset());
            }
            SUT(f.reset());
        }
        else {
            std::unique_ptr<BDD> f; bool threw = false, bad = false;
            NodeTableEntity<2> const& tab = *dd->getDiagram();
            for (int i = 1; i <= dd->topLevel(); ++i) if (i + o1 < 1 && tab[i].size()) bad = true;
            op(e, [&] { try { f.reset(new BDD(dd->evaluate(ToBDD(o1)))); } catch (std::runtime_error&) { threw = true; } });
            if (threw != bad) sim::fail("MEANING", bad ? "ToBDD(%d) accepts nodes below level 1" : "ToBDD(%d) throws", o1);
            if (!threw) {
                int want = moved(world.b, cb, fb, o1), id = f->id;
                if (id != want) sim::fail("MEANING", "ToBDD(%d) gives another function", o1);
                if (world.live != live + 1) sim::fail("LIFE", "%ld handles are left after ToBDD", world.live - live - 1);
                bool bad2 = lowest(world.b, id) <= o2, threw2 = false; DdP<2> g;
                { SapporoBdd spec(*f, o2); op(e, [&] { try { g.reset(new DdStructure<2>(spec, false)); } catch (std::runtime_error&) { threw2 = true; } }); }
                if (threw2 != bad2) sim::fail("MEANING", bad2 ? "SapporoBdd accepts nodes below its offset %d" : "SapporoBdd(%d) throws", o2);
                if (g) {
                    Canon c(BDD_, 2); checkCanon(*g, c, moved(c, world.b, id, -o2), "diagram made from a BDD");
                    if (g->size() > 3) sim::nontrivial();
                    SUT(g.reset());
                }
                SUT(f.reset());
                if (threw2) live = world.live;       // a failed construction may keep some
            }
            else live = world.live;
        }
        if (world.live != live) sim::fail("LIFE", "%ld handles are left after the exchange", world.live - live);
        if (dd->size() != size) sim::fail("CHANGED", "the exchange changed the diagram");
        if (zok) checkCanon(*dd, cz, fz, "diagram after the exchange"); else checkCanon(*dd, cb, fb, "diagram after the exchange");
    }
    SUT(dd.reset());
}
WORKLOAD(sap2) { sapRun(10, 12); }
WORKLOAD(sap2wide) { sapRun(9, 100); }
WORKLOAD(sap2deep) { sapRun(40, 5); }
