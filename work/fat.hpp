#pragma once
#include "common.hpp"

// Large states: blocks of the state pools fill up and overflow.
template<int AR> static void buildFat() {
    Env e = drawEnv();
    AutoParam q = drawDense(6, 20); if (q.n < 3) q.n = 3; noteParam(q);
    Auto A = makeAuto(AR, q); drawRoot(A);
    size_t reach, alive; reachCounts(A, reach, alive);
    static const int ms[] = { 3, 200, 400, 1000, 1030, 3000, 10300, 300 };
    int m = ms[draw(8)] + (int)draw(16), hm = (int)draw(5), mb = m; if (reach > 60 && m > 3000) m = 1024;
    if (mb > (e.mp ? 60 : 1100)) mb = e.mp ? 60 : 1100;        // a list of states takes blocks of 1000 states
    sim::note("ints=%d/%d hash=%d ", mb, m, hm);
    SpecFat<AR> spec(&A, mb); spec.hashMode = hm;
    DdP<AR> dd = mk<AR>(e, spec, e.mp);
    checkMeaning(*dd, A, "built diagram");
    if (dd->size() < alive || dd->size() > reach) sim::fail("UNIQUE", "diagram has %llu nodes; the specification has %llu distinct states (%llu live)", (ULL)dd->size(), (ULL)reach, (ULL)alive);
    if (draw(4)) {       // and again as the filter of a diagram
        Canon c(ZDD_, AR); AutoParam p = drawDense(6, 12, A.n); noteParam(p); Auto B = makeAuto(AR, p); bool mp = draw(4) == 3; SpecFat<AR> sb(&B, mp && m > 60 ? 60 : m); sb.hashMode = hm;
        int want = c.apply(c.fromAuto(A), c.fromAuto(B), false);
        dd->useMultiProcessors(mp); op(e, [&] { dd->zddSubset(sb); });
        checkCanon(*dd, c, want, "subset");
    }
    SUT(dd.reset());
    if (reach > 3) sim::nontrivial();
}
