// P08: states, values and memory are released exactly once.
#include "any.hpp"
#include "fat.hpp"

struct LVal { Obj o; MyVector<int> v; std::vector<int> w; };
template<int AR> struct LifeEval : DdEval<LifeEval<AR>, LVal, int> {
    bool safe; MemoryPools pools; std::vector<int> own;
    LifeEval(bool s) : safe(s), own(7, 1) {}
    bool isThreadSafe() const { return safe; }
    void initialize(int n) { pools.resize(n + 1); }
    void evalTerminal(LVal& v, int id) { v.o.set(id); v.v.resize(1 + id); }
    void evalNode(LVal& v, int level, DdValues<LVal,AR> const& c) {
        int h = level; int* tmp = pools[level].allocate<int>(AR); for (int b = 0; b < AR; ++b) { tmp[b] = c.get(b).o.get(); h = (h * 7 + tmp[b]) & 0xffff; if (c.get(b).v.size() && v.v.size() < 40) v.v.push_back(h); }
        v.o.set(h); v.w.assign(own.begin(), own.end());
    }
    int getValue(LVal const& v) { return v.o.get(); }
    void destructLevel(int l) { pools[l].clear(); }
};
template<int AR> static void lifeRun(int maxN, int maxW, int depth) {
    Env e = drawEnv(); Life::reset();
    {
        Hist<AR> h(e, maxN, maxW, 4);
        Canon c(ZDD_, AR);
        Expr<AR> x(e, c, maxN, maxW);
        int steps = 1 + (int)draw(4); size_t made = 0;
        for (int k = 0; k < steps; ++k) {
            perturbThreads(h.e); perturbThreads(e);
            switch (h.S.empty() ? 0 : draw(8)) {
            case 0: case 1: { typename Expr<AR>::Val v; x.tree(v, depth); bool mp = draw(2) == 0;
                { DdP<AR> d = mk<AR>(e, v.s, mp); checkCanon(*d, c, v.f, "diagram"); h.put(std::move(d), typename Hist<AR>::M()); h.S.back().m = h.snap(*h.S.back().d, 0); }
                SUT(v.s = AnySpec<AR>()); break; }
            case 2: { typename Expr<AR>::Val v; x.tree(v, depth); size_t i = h.pick(); sim::note("subset%d ", (int)i); h.S[i].d->useMultiProcessors(draw(2) == 0);
                op(e, [&] { h.S[i].d->zddSubset(v.s); }); h.S[i].m = h.snap(*h.S[i].d, 0); SUT(v.s = AnySpec<AR>()); break; }
            case 3: h.reduce(h.pick()); break;
            case 4: { size_t i = h.pick(); sim::note("eval%d ", (int)i); h.S[i].d->useMultiProcessors(draw(2) == 0); bool safe = draw(3) != 2; int r = 0;
                { sim::Sut s; LifeEval<AR> ev(safe); inEnv(e, [&] { r = h.S[i].d->evaluate(ev); }); } sim::ev(r); break; }
            case 5: h.copy(h.pick()); break;
            case 6: h.destroy(h.pick()); break;
            case 7: if (draw(2)) h.count(h.pick()); else h.convert(h.pick()); break;
            }
            if (Life::live) sim::fail("LIFE", "%ld state or value objects are alive after the operation", Life::live);
            made = (size_t)Life::made;
        }
        if (made > 3) sim::nontrivial();
        h.clear();
        SUT(for (auto& d : x.dds) d.reset());
    }
    if (sim::liveSut()) { char b[200]; sim::listLive(b, sizeof b); sim::fail("LEAK", "%llu blocks (%llu bytes) are still allocated after everything was destroyed: %s", (ULL)sim::liveSut(), (ULL)sim::liveSutBytes(), b); }
}
WORKLOAD(life2) { lifeRun<2>(7, 8, 1); }
WORKLOAD(life2deep) { lifeRun<2>(5, 4, 2); }
WORKLOAD(life2wide) { lifeRun<2>(9, 100, 0); }
WORKLOAD(life3) { lifeRun<3>(5, 8, 1); }
WORKLOAD(lifefat2) { buildFat<2>(); if (sim::liveSut()) { char b[200]; sim::listLive(b, sizeof b); sim::fail("LEAK", "%llu blocks are still allocated after everything was destroyed: %s", (ULL)sim::liveSut(), b); } }
// Memory that belongs to a level of the specification: held while states of the level are in use, freed by destructLevel().
template<int AR> static void levelRun(int maxN, int maxW) {
    Env e = drawEnv(); Life::reset();
    AutoParam q = drawParam(maxN, maxW); noteParam(q); Auto a = makeAuto(AR, q); drawRoot(a); LevelLog log;
    { std::unique_ptr<SpecPool<AR> > s; int hm = (int)draw(8); if (hm > 4) hm = 0; SUT(s.reset(new SpecPool<AR>(&a, hm, &log)));
      int n = 1 + (int)draw(3); Canon c(ZDD_, AR); int f = c.fromAuto(a);
      for (int k = 0; k < n; ++k) {
          log.clear(); bool mp = draw(2) == 0; perturbThreads(e);
          if (draw(3) == 2) {
              AutoParam q2 = drawDense(maxN, maxW, a.n); Auto b = makeAuto(AR, q2); SpecInt<AR> si(&b); DdP<AR> d = mk<AR>(e, si, mp); sim::note("subset ");
              op(e, [&] { d->zddSubset(*s); }); int top = d->root().row(); SUT(d.reset());
              if (log.left(top)) sim::fail("LEVEL", "subsetting returns without destructLevel(%d), though states of that level were made", log.left(top));
              continue;
          }
          DdP<AR> d = mk<AR>(e, *s, mp); checkCanon(*d, c, f, "diagram");
          if (log.left()) sim::fail("LEVEL", "construction returns without destructLevel(%d), though states of that level were made", log.left());
          SUT(d.reset());
      }
      SUT(s.reset()); }
    size_t r, al; reachCounts(a, r, al); if (r > 3) sim::nontrivial();
    if (sim::liveSut()) { char b[200]; sim::listLive(b, sizeof b); sim::fail("LEAK", "%llu blocks are still allocated after everything was destroyed: %s", (ULL)sim::liveSut(), b); }
}
WORKLOAD(level2) { levelRun<2>(10, 40); }
WORKLOAD(level3) { levelRun<3>(6, 20); }
// The same inside compositions: each part is told about every level from the root of the whole down.
template<int AR> static void levelComp(int maxN, int maxW, int depth) {
    Env e = drawEnv(); Life::reset();
    { Canon c(draw(2) ? BDD_ : ZDD_, AR); Expr<AR> x(e, c, maxN, maxW); std::vector<std::unique_ptr<LevelLog> > logs; x.logs = &logs;
      typename Expr<AR>::Val v; x.tree(v, depth); int top = 0;
      { sim::Sut s; AnySpec<AR> t(v.s); std::vector<uint64_t> buf(t.datasize() / 8 + 2); top = t.get_root(buf.data()); t.destruct(buf.data()); }
      for (int k = 0, n = 1 + (int)draw(2); k < n; ++k) {
          for (auto& l : logs) l->clear();
          perturbThreads(e); bool mp = draw(2) == 0; sim::note("build ");
          DdP<AR> d = mk<AR>(e, v.s, mp); checkCanon(*d, c, v.f, "diagram"); SUT(d.reset());
          for (size_t i = 0; i < logs.size(); ++i) if (logs[i]->left(top)) sim::fail("LEVEL", "construction returns without destructLevel(%d) of part %llu, though states of that level were made", logs[i]->left(top), (ULL)i);
      }
      if (logs.size() > 1 || x.ops) sim::nontrivial();
      SUT(v.s = AnySpec<AR>(); for (auto& d : x.dds) d.reset()); }
    if (sim::liveSut()) { char b[200]; sim::listLive(b, sizeof b); sim::fail("LEAK", "%llu blocks are still allocated after everything was destroyed: %s", (ULL)sim::liveSut(), b); }
}
WORKLOAD(levelcomp2) { levelComp<2>(6, 6, 2); }
WORKLOAD(levelcomp3) { levelComp<3>(4, 6, 2); }
