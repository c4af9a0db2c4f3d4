// P04: subsetting is intersection.
#include "fat.hpp"

// reachable pairs (input node, specification state) of the aligned descent, and how many of them are live
static void pairCount(Dag const& g, Auto const& a, size_t& pairs, size_t& live) {
    typedef std::pair<int,int> PR;
    struct R { static bool align(Dag const& g, Auto const& a, Ref& f, Tr& s) {       // false: 0; levels equal otherwise (-1: accept)
        for (;;) {
            if (f.lev == 0 || s.lev == 0) return false;
            if (f.lev < 0 && s.lev < 0) return true;
            if (f.lev == s.lev) return true;
            if (f.lev > s.lev) f = g.row[f.lev][(size_t)f.col * g.ar];
            else s = a.next(s.lev, s.st, 0);
        } } };
    pairs = live = 0;
    Ref f = g.root; Tr s = a.root;
    if (!R::align(g, a, f, s) || f.lev <= 0) return;
    int n = f.lev;
    std::vector<std::map<PR, std::vector<PR> > > lv(n + 1);     // level -> pair -> children (lev, index key later)
    std::vector<std::map<PR, char> > alive(n + 1);
    lv[n][PR(f.col, s.st)];
    std::vector<std::map<PR, std::vector<std::pair<int,PR> > > > ch(n + 1);
    for (int i = n; i >= 1; --i) for (auto& kv : lv[i]) {
        ++pairs;
        for (int b = 0; b < g.ar; ++b) {
            Ref x = g.row[i][(size_t)kv.first.first * g.ar + b]; Tr t = a.next(i, kv.first.second, b);
            if (!R::align(g, a, x, t)) continue;
            if (x.lev < 0) { ch[i][kv.first].push_back(std::make_pair(-1, PR())); continue; }
            ch[i][kv.first].push_back(std::make_pair(x.lev, PR(x.col, t.st)));
            lv[x.lev][PR(x.col, t.st)];
        }
    }
    for (int i = 1; i <= n; ++i) for (auto& kv : lv[i]) { bool v = false; for (auto& c : ch[i][kv.first]) if (c.first < 0 || alive[c.first][c.second]) v = true; alive[i][kv.first] = v; if (v) ++live; }
}
template<int AR> static void subset(int maxN, int maxW) {
    Env e = drawEnv();
    bool dense = draw(5) != 4;
    AutoParam q = dense ? lively(drawDense(maxN, maxW), maxN) : drawParam(maxN, maxW); noteParam(q);
    Auto A = makeAuto(AR, q); drawRoot(A);
    bool bmp = draw(2);
    SpecInt<AR> spec(&A);
    DdP<AR> dd = mk<AR>(e, spec, bmp);
    int red = (int)draw(4);
    if (red == 1) op(e, [&] { dd->zddReduce(); }); else if (red == 2) op(e, [&] { dd->qddReduce(); });
    int steps = 1 + (int)draw(2);
    Canon c(ZDD_, AR);
    DdP<AR> keep; int kid = 0; size_t ksize = 0;
    if (draw(3) == 2) { SUT(keep.reset(new DdStructure<AR>(*dd))); kid = canonOf(c, *keep, "copy"); ksize = keep->size(); }
    bool nt = false;
    for (int k = 0; k < steps; ++k) {
        perturbThreads(e);
        dd->useMultiProcessors(k == 0 ? e.mp : (bool)draw(2));
        int f = canonOf(c, *dd, "before"); Dag g = dagOf(*dd);
        size_t pairs, live;
        int how = (int)draw(5);
        if (how == 4) {        // a diagram as specification, possibly the subject itself
            bool self = draw(2) && k == 0;
            sim::note("self=%d ", self);
            AutoParam q2 = dense ? lively(drawDense(maxN, maxW, A.n), 0) : drawParam(maxN, maxW); noteParam(q2); Auto B = makeAuto(AR, q2); drawRoot(B);
            SpecInt<AR> sb(&B);
            DdP<AR> other; if (!self) other = mk<AR>(e, sb, draw(2)); else SUT(other.reset(new DdStructure<AR>(*dd)));
            int h = canonOf(c, *other, "specification diagram"); size_t hs = other->size();
            op(e, [&] { if (self && hs % 2) dd->zddSubset(*dd); else dd->zddSubset(*other); });
            checkCanon(*dd, c, c.apply(f, h, false), "subset by a diagram");
            checkCanon(*other, c, h, "diagram used as specification"); if (other->size() != hs) sim::fail("MEANING", "the diagram used as specification changed its size");
            SUT(other.reset());
        }
        else {
            AutoParam q2 = dense ? lively(drawDense(maxN, maxW, A.n), 0) : drawParam(maxN, maxW); noteParam(q2);
            Auto B = makeAuto(AR, q2); drawRoot(B);
            Life::reset();
            pairCount(g, B, pairs, live);
            withSpec<AR>(B, [&](auto const& sb) {
                op(e, [&] { dd->zddSubset(sb); });
                checkCanon(*dd, c, c.apply(f, c.fromAuto(B), false), "subset");
                if (dd->size() > pairs || dd->size() < live) sim::fail("UNIQUE", "subset has %llu nodes; there are %llu distinct pairs (%llu live)", (ULL)dd->size(), (ULL)pairs, (ULL)live);
                if (Life::live) sim::fail("LIFE", "%ld states are still alive after subsetting", Life::live);
            });
            if (pairs > 3) nt = true;
            sim::ev(pairs);
        }
        sim::ev(dd->size());
        if (keep) { checkCanon(*keep, c, kid, "copy made before subsetting"); if (keep->size() != ksize) sim::fail("MEANING", "a copy changed its size during subsetting of another diagram"); }
        if (draw(3) == 2) { int f = canonOf(c, *dd, ""); op(e, [&] { dd->zddReduce(); }); checkCanon(*dd, c, f, "reduced subset"); checkMinimal(*dd, c, f, "reduced subset"); }
    }
    if (nt) sim::nontrivial();
    SUT(dd.reset(); keep.reset());
}
WORKLOAD(subset2) { subset<2>(9, 12); }
WORKLOAD(subset3) { subset<3>(6, 12); }
WORKLOAD(subset2wide) { gHugeOk = draw(2) ? HUGE_WIDE : HUGE_300; subset<2>(12, 100); }
WORKLOAD(subset2fat) { buildFat<2>(); }
WORKLOAD(subset70) { subset<70>(3, 5); }
