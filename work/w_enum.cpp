// P13: random instance search.  P18: counting and enumeration.
#include "any.hpp"

// ---------------------------------------------------------------- P18
static std::string decimal(unsigned long long v) { Big b; while (v) { b.d.push_back((uint32_t)(v % 1000000000ULL)); v /= 1000000000ULL; } return b.str(); }

template<int AR> static void countRun(int maxN, int maxW, bool big) {
    Env e = drawEnv();
    AutoParam q = big ? drawDense(maxN, maxW) : drawParam(maxN, maxW); if (big && draw(2)) { q.p0 = q.p0 > 5 ? 2 : q.p0; q.dead = 0; q.skip = draw(2) ? 60 : 0; } noteParam(q);
    Auto A = makeAuto(AR, q); drawRoot(A);
    DdP<AR> dd; Canon cz(ZDD_, AR), cb(BDD_, AR);
    withSpec<AR>(A, [&](auto const& spec) { dd = mk<AR>(e, spec, draw(2)); });
    int fz = cz.fromAuto(A), fb = cb.fromAuto(A);
    int red = (int)draw(4); bool zok = true, bok = true;
    if (red) { op(e, [&] { if (red == 1) dd->zddReduce(); else if (red == 2) dd->bddReduce(); else dd->qddReduce(); }); if (red == 1) bok = false; if (red == 2) zok = false; sim::note("red%d ", red); }
    int top = dd->topLevel(); size_t size = dd->size();
    dd->useMultiProcessors(e.mp);
    std::string first;
    for (int k = 0, m = 1 + (int)draw(2); k < m; ++k) {
        perturbThreads(e);
        std::string z, b; uint64_t z64 = 0, b64 = 0; double zd = 0; int nv = top;
        switch (draw(4)) { case 1: nv += (int)draw(6); break; case 2: nv += (int)draw(150); break; case 3: nv += (int)draw(900); break; }
        sim::note("count(%d) ", nv);
        op(e, [&] { z = dd->zddCardinality(); b = dd->bddCardinality(nv); z64 = dd->evaluate(ZddCardinality<uint64_t,AR>()); b64 = dd->evaluate(BddCardinality<uint64_t,AR>(nv)); zd = dd->evaluate(ZddCardinality<double,AR>()); });
        std::string wz = zok ? cz.cardinality(fz, 0) : "", wb = bok ? cb.cardinality(fb, nv) : "";
        if (zok && z != wz) sim::fail("COUNT", "zddCardinality() is %s, the family has %s members", z.c_str(), wz.c_str());
        if (bok && b != wb) sim::fail("COUNT", "bddCardinality(%d) is %s, the function has %s minterms", nv, b.c_str(), wb.c_str());
        if (zok && wz.size() <= 19 && decimal(z64) != wz) sim::fail("COUNT", "a 64-bit count gives %s, the family has %s members", decimal(z64).c_str(), wz.c_str());
        if (bok && wb.size() <= 19 && decimal(b64) != wb) sim::fail("COUNT", "a 64-bit count over %d variables gives %s, the function has %s minterms", nv, decimal(b64).c_str(), wb.c_str());
        if (zok && wz.size() <= 15 && decimal((unsigned long long)zd) != wz) sim::fail("COUNT", "a floating-point count gives %.0f, the family has %s members", zd, wz.c_str());
        if (k && first != z) sim::fail("COUNT", "counting again gives %s after %s", z.c_str(), first.c_str());
        first = z;
        if (z.size() > 19 || b.size() > 19) sim::note("big ");
    }
    if (dd->size() != size || dd->topLevel() != top) sim::fail("CHANGED", "counting changed the diagram");
    if (zok) checkCanon(*dd, cz, fz, "diagram after counting"); else checkCanon(*dd, cb, fb, "diagram after counting");
    if (dd->size() > 3) sim::nontrivial();
    SUT(dd.reset());
}
WORKLOAD(count2) { countRun<2>(12, 12, false); }
WORKLOAD(count2big) { gHugeOk = HUGE_300; countRun<2>(220, 5, true); }
WORKLOAD(count3big) { countRun<3>(140, 5, true); }
WORKLOAD(count4) { countRun<4>(90, 4, true); }
WORKLOAD(count2wide) { countRun<2>(60, 100, true); }

static void members(Canon const& c, int f, std::vector<int>& cur, std::set<std::vector<int> >& out, size_t lim) {
    if (f == 0 || out.size() > lim) return;
    if (f == 1) { out.insert(cur); return; }
    members(c, c.child(f, 0), cur, out, lim);
    cur.push_back(c.level(f)); members(c, c.child(f, 1), cur, out, lim); cur.pop_back();
}
static void iterRun(int maxN, int maxW) {
    Env e = drawEnv();
    AutoParam q = drawParam(maxN, maxW); noteParam(q);
    Auto A = makeAuto(2, q); drawRoot(A);
    Canon cz(ZDD_, 2); int f = cz.fromAuto(A);
    std::set<std::vector<int> > want; std::vector<int> cur; members(cz, f, cur, want, 1500);
    if (want.size() > 1500) sim::reject("family too large");
    DdP<2> dd; withSpec<2>(A, [&](auto const& spec) { dd = mk<2>(e, spec, e.mp); });
    int red = (int)draw(4); if (red == 1) op(e, [&] { dd->zddReduce(); }); if (red == 2) op(e, [&] { dd->qddReduce(); });
    perturbThreads(e);
    for (int pass = 0; pass < 2; ++pass) {
        std::set<std::vector<int> > got; size_t n = 0; bool dup = false, bad = false;
        sim::stepLimit(400000 + 60000ULL * (want.size() + 2) * (q.n + 2));
        uint64_t keepAt = draw(6);
        { sim::Sut s;
          std::vector<DdStructure<2>::const_iterator> kept;
          for (DdStructure<2>::const_iterator it = dd->begin(), end = dd->end(); it != end; ++it) {
            { sim::Oracle o;
              std::vector<int> v; for (int x : *it) v.push_back(x);
              if (it->size() != v.size()) bad = true;
              std::reverse(v.begin(), v.end());
              if (!got.insert(v).second) dup = true; }
            if (++n > want.size() + 4) break;
            if (n == keepAt) kept.push_back(it);
          }
          if (!kept.empty()) {      // a copy of an iterator goes on from where it was taken
            size_t m = keepAt; DdStructure<2>::const_iterator it = kept[0];
            for (++it; it != dd->end() && m <= want.size() + 4; ++it) ++m;
            if (m != want.size()) sim::fail("ITERATE", "a copied iterator visits %llu members in all instead of %llu", (ULL)m, (ULL)want.size());
          } }
        if (bad) sim::fail("ITERATE", "the two accessors of an iterator disagree");
        if (dup) sim::fail("ITERATE", "a member is visited twice");
        if (got != want) sim::fail("ITERATE", "iteration visits %llu sets, the family has %llu members%s", (ULL)got.size(), (ULL)want.size(), got.size() == want.size() ? " (different sets)" : "");
        sim::ev(n);
    }
    if (want.size() > 1) sim::nontrivial();
    SUT(checkTable(*dd, "diagram")); checkCanon(*dd, cz, f, "diagram after iteration");
    SUT(dd.reset());
}
WORKLOAD(iter2) { iterRun(10, 12); }
WORKLOAD(iter2deep) { iterRun(24, 3); }

// ---------------------------------------------------------------- P13
typedef std::vector<std::pair<int,int> > Inst;
static bool accepts(Auto const& a, Inst const& v, const char*& why) {
    std::map<int,int> m;
    for (auto& p : v) if (!m.insert(p).second) { why = "names a level twice"; return false; }
    Tr x = a.root; size_t used = 0;
    while (x.lev > 0) {
        auto it = m.find(x.lev); if (it == m.end()) { why = "lacks a level the specification branches on"; return false; }
        if (it->second < 0 || it->second >= a.ar) { why = "has a value out of range"; return false; }
        ++used; x = a.next(x.lev, x.st, it->second);
    }
    if (used != m.size()) { why = "names a level the specification does not branch on"; return false; }
    if (x.lev == 0) { why = "is not accepted"; return false; }
    return true;
}
static void allInst(Auto const& a, Tr x, Inst& cur, std::set<Inst>& out) {
    if (x.lev == 0 || out.size() > 40) return;
    if (x.lev < 0) { Inst s = cur; std::sort(s.begin(), s.end()); out.insert(s); return; }
    for (int b = 0; b < a.ar; ++b) { cur.push_back(std::make_pair(x.lev, b)); allInst(a, a.next(x.lev, x.st, b), cur, out); cur.pop_back(); }
}
template<int AR> static void instRun(int maxN, int maxW, bool cover) {
    Life::reset();
    {
    AutoParam q = drawParam(maxN, maxW); noteParam(q);
    Auto A = makeAuto(AR, q); drawRoot(A);
    Canon c(QDD, AR); bool some = c.fromAuto(A) != 0;
    std::set<Inst> all, seen; Inst cur;
    if (cover) { allInst(A, A.root, cur, all); if (all.size() > 40) cover = false; }
    int mode = cover ? 0 : (int)draw(6); if (mode == 5) mode = 0;
    sim::setRandMode(mode, draw(1000000)); sim::note("rand=%d ", mode);
    sim::stepLimit(200000000);
    auto search = [&](auto const& spec, Auto const* ref) {
        int tries = cover ? 700 : 1 + (int)draw(4);
        for (int k = 0; k < tries; ++k) {
            Inst v; bool got = false, none = false;
            { sim::Sut s; try { Inst w = spec.findOneInstance(); sim::Oracle o; for (auto& p : w) v.push_back(p); got = true; } catch (std::runtime_error&) { sim::Oracle o; none = true; } }
            if (got && !some) sim::fail("INSTANCE", "an instance of an empty family is returned");
            if (none && some) sim::fail("INSTANCE", "no instance is found although one exists");
            const char* why = "";
            if (got && ref && !accepts(*ref, v, why)) sim::fail("INSTANCE", "the instance found %s", why);
            if (got && cover) { std::sort(v.begin(), v.end()); seen.insert(v); }
            sim::ev(got); for (auto& p : v) sim::ev(p.first * 8 + p.second);
            if (Life::live) sim::fail("LIFE", "%ld states are still alive after the search", Life::live);
        }
        if (cover && seen != all) sim::fail("INSTANCE", "only %llu of the %llu instances are ever found in 700 random searches", (ULL)seen.size(), (ULL)all.size());
    };
    int kind = (int)draw(7); LevelLog log;
    sim::note("spec%d ", kind);
    switch (kind) {
    case 0: search(SpecInt<AR>(&A), &A); break;
    case 1: search(SpecObj<AR>(&A), &A); break;
    case 2: search(SpecArr<AR,unsigned char>(&A, 2 + (int)draw(9)), &A); break;
    case 3: search(SpecHybObj<AR>(&A, 1 + (int)draw(5)), &A); break;
    case 6: { std::unique_ptr<SpecPool<AR> > q; SUT(q.reset(new SpecPool<AR>(&A, 0, &log))); search(*q, &A); SUT(q.reset()); if (log.left()) sim::fail("LEVEL", "the search returns without destructLevel(%d), though states of that level were made", log.left()); break; }
    default: {                  // a diagram as the specification: any form of it has the same instances as its own table
        Env e = drawEnv(); SpecInt<AR> s(&A); DdP<AR> d = mk<AR>(e, s, e.mp);
        if (kind == 5 && !cover) { op(e, [&] { d->zddReduce(); }); }
        Dag g = dagOf(*d); Auto R; R.n = g.levels(); R.ar = AR; R.K.assign(R.n + 1, 0); R.t.resize(R.n + 1);
        for (int i = 1; i <= R.n; ++i) { R.K[i] = (int)g.width(i); for (auto& r : g.row[i]) { Tr t; t.lev = r.lev; t.st = r.lev > 0 ? r.col : 0; R.t[i].push_back(t); } }
        R.root.lev = g.root.lev; R.root.st = g.root.col;
        if (kind == 5) { Canon z(ZDD_, AR); some = z.fromAuto(A) != 0; }
        search(*d, &R); SUT(d.reset()); break; }
    }
    if (some && A.root.lev > 1) sim::nontrivial();
    }
    if (sim::liveSut()) sim::fail("LEAK", "%llu blocks are still allocated", (ULL)sim::liveSut());
}
WORKLOAD(inst2) { instRun<2>(9, 12, false); }
WORKLOAD(inst3) { instRun<3>(6, 12, false); }
WORKLOAD(inst5) { instRun<5>(4, 8, false); }
WORKLOAD(instcover2) { instRun<2>(3, 4, true); }
WORKLOAD(instcover3) { instRun<3>(2, 4, true); }
WORKLOAD(inst12) { instRun<12>(3, 6, false); }
WORKLOAD(count12) { countRun<12>(20, 4, true); }
