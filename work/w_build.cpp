// P01: construction follows the specification.
#include "fat.hpp"

template<int AR> static void build(int maxN, int maxW) {
    Env e = drawEnv();
    AutoParam q = drawParam(maxN, maxW); noteParam(q);
    Auto A = makeAuto(AR, q); drawRoot(A);
    size_t reach, alive; reachCounts(A, reach, alive);
    Life::reset();
    withSpec<AR>(A, [&](auto const& spec) {
        DdP<AR> dd = mk<AR>(e, spec, e.mp);
        sim::ev(dd->size());
        checkMeaning(*dd, A, "built diagram");
        if (dd->size() < alive || dd->size() > reach) sim::fail("UNIQUE", "diagram has %llu nodes; the specification has %llu distinct states (%llu live)", (ULL)dd->size(), (ULL)reach, (ULL)alive);
        if (A.root.lev <= 0 && (dd->topLevel() != 0 || dd->root() != NodeId(A.root.lev ? 1 : 0) || dd->empty() != !A.root.lev)) sim::fail("MEANING", "terminal specification gave root level %d", dd->topLevel());
        if (A.root.lev > 0 && alive && dd->topLevel() != A.root.lev) sim::fail("MEANING", "topLevel() is %d, the specification's root is at level %d", dd->topLevel(), A.root.lev);
        if (dd->empty() && alive) sim::fail("MEANING", "empty() on a satisfiable diagram");
        if (Life::live) sim::fail("LIFE", "%ld states are still alive after construction", Life::live);
        SUT(dd.reset());
    });
    if (reach > 3) sim::nontrivial();
    sim::note("reach=%llu alive=%llu", (ULL)reach, (ULL)alive);
}
WORKLOAD(build2fat) { buildFat<2>(); }
WORKLOAD(build2) { build<2>(10, 20); }
WORKLOAD(build3) { gHugeOk = HUGE_DEEP; build<3>(7, 20); }
WORKLOAD(build5) { build<5>(5, 12); }
WORKLOAD(build2wide) { gHugeOk = HUGE_WIDE; build<2>(14, 1000); }
WORKLOAD(build2deep) { gHugeOk = HUGE_DEEP | HUGE_SERIAL; build<2>(60, 6); }
WORKLOAD(build70) { build<70>(3, 6); }
