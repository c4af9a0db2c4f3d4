// P03: reduction is canonical and preserves the function.
#include "common.hpp"

template<int AR> static void reduceSeq(int maxN, int maxW) {
    Env e = drawEnv();
    AutoParam q = drawParam(maxN, maxW); noteParam(q);
    Auto A = makeAuto(AR, q); drawRoot(A);
    bool bmp = draw(2);
    DdP<AR> dd; SpecInt<AR> spec(&A);
    dd = mk<AR>(e, spec, bmp);
    checkMeaning(*dd, A, "built diagram");
    size_t before = dd->size(), merged = 0;
    int steps = 1 + (int)draw(3);
    DdP<AR> keep; Canon kc(QDD, AR); int kid = 0; size_t ksize = 0;
    bool share = draw(4) == 3;
    if (share) { SUT(keep.reset(new DdStructure<AR>(*dd))); kid = canonOf(kc, *keep, "copy"); ksize = keep->size(); }
    for (int k = 0; k < steps; ++k) {
        perturbThreads(e);
        int kind = (int)draw(3);                  // 0 zdd, 1 bdd, 2 qdd
        bool mp = k == 0 ? e.mp : (bool)draw(2);
        Rule rule = kind == 0 ? ZDD_ : kind == 1 ? BDD_ : QDD;
        Canon c(rule, AR); int f = canonOf(c, *dd, "before");
        Canon cq(QDD, AR), cb(BDD_, AR), cz(ZDD_, AR); int fb = 0, fz = 0;
        if (kind == 2) { fb = canonOf(cb, *dd, ""); fz = canonOf(cz, *dd, ""); }
        size_t sz = dd->size();
        dd->useMultiProcessors(mp);
        sim::note("%s%s ", kind == 0 ? "zdd" : kind == 1 ? "bdd" : "qdd", mp ? "/mp" : "");
        op(e, [&] { if (kind == 0) dd->zddReduce(); else if (kind == 1) dd->bddReduce(); else dd->qddReduce(); });
        checkCanon(*dd, c, f, "reduced diagram");
        if (kind != 2) checkMinimal(*dd, c, f, "reduced diagram");
        else {
            checkCanon(*dd, cb, fb, "qdd-reduced diagram"); checkCanon(*dd, cz, fz, "qdd-reduced diagram");
            bool dup; canonOf(cq, *dd, "", 0, &dup);
            if (dup) sim::fail("MINIMAL", "two equal nodes are reachable after qddReduce");
            if (dd->size() > sz) sim::fail("MINIMAL", "reduction grew the diagram from %llu to %llu nodes", (ULL)sz, (ULL)dd->size());
        }
        sim::ev(dd->size());
        if (dd->size() < sz) ++merged;
        if (share) { checkCanon(*keep, kc, kid, "copy made before the reduction"); if (keep->size() != ksize) sim::fail("MEANING", "a copy changed its size during the reduction of another diagram"); }
    }
    if (before > 3 && merged) sim::nontrivial();
    SUT(dd.reset(); keep.reset());
}
WORKLOAD(reduce2) { reduceSeq<2>(10, 20); }
WORKLOAD(reduce3) { reduceSeq<3>(6, 20); }
WORKLOAD(reduce4) { reduceSeq<4>(5, 12); }
WORKLOAD(reduce2wide) { gHugeOk = HUGE_WIDE; reduceSeq<2>(13, 1000); }
WORKLOAD(reduce2deep) { gHugeOk = HUGE_DEEP; reduceSeq<2>(60, 6); }
WORKLOAD(reduce70) { reduceSeq<70>(3, 6); }
