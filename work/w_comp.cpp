// P16: composed specifications.
#include "any.hpp"

template<int AR> static void comp(int maxN, int maxW, int depth) {
    Env e = drawEnv();
    bool zdd = draw(2) == 0;
    Canon c(zdd ? ZDD_ : BDD_, AR);
    Life::reset();
    {
        Expr<AR> x(e, c, maxN, maxW);
        typename Expr<AR>::Val v; v.full = 0; v.f = 0;
        sim::note(zdd ? "zdd: " : "bdd: ");
        x.tree(v, depth);
        perturbThreads(e);
        DdP<AR> dd;
        if (zdd && draw(5) == 4) {          // as the specification of a subset
            AutoParam q = drawDense(maxN, maxW, maxN); Auto b = makeAuto(AR, q); SpecInt<AR> sb(&b);
            dd = mk<AR>(e, sb, draw(2)); dd->useMultiProcessors(e.mp); sim::note("subset ");
            op(e, [&] { dd->zddSubset(v.s); });
            v.f = c.apply(c.fromAuto(b), v.f, false); v.full = 0;
        }
        else dd = mk<AR>(e, v.s, e.mp);
        checkCanon(*dd, c, v.f, "diagram of a composed specification");
        if (v.full > 0 && v.f) {            // unreduction: no level is skipped on a path to 1, so both readings agree
            Canon z(ZDD_, AR), b(BDD_, AR); Hist<AR> h(e, 1, 1, 1);
            int fz = canonOf(h.cz, *dd, ""), fb = canonOf(h.cb, *dd, "");
            if (dd->topLevel() < v.full - 1 || dd->topLevel() < c.level(v.f)) sim::fail("MEANING", "unreduction to %d levels has its root at level %d", v.full - 1, dd->topLevel());
            if (h.z2b(fz, dd->topLevel()) != fb) sim::fail("MEANING", "an unreduced diagram means different functions as BDD and ZDD");
        }
        if (x.ops && dd->size() > 3) sim::nontrivial();
        sim::note("size=%llu", (ULL)dd->size());
        { sim::Sut s; dd.reset(); v.s = AnySpec<AR>(); for (auto& d : x.dds) d.reset(); }
    }
    if (Life::live) sim::fail("LIFE", "%ld states are still alive", Life::live);
}
WORKLOAD(comp2) { comp<2>(7, 6, 2); }
WORKLOAD(comp2deep) { comp<2>(5, 4, 3); }
WORKLOAD(comp2wide) { comp<2>(9, 40, 1); }
WORKLOAD(comp3) { comp<3>(5, 8, 2); }
