// P07: progress.  P14: messages and clock.  P15: several caller threads.
#include "hist.hpp"
#include <iostream>

// ---------------------------------------------------------------- P07
// Each operation must return within PROGRESS_FACTOR times a work measure computed from the
// reference model: transitions, hash probes when all states collide, per-level task tables.
static const double PROGRESS_FACTOR = 60;
struct Work { double states, trans, probes; int levels; };
static Work workOf(Auto const& a, bool collide) {
    Work w; w.states = w.trans = w.probes = 0; w.levels = std::max(0, a.root.lev);
    if (a.root.lev <= 0) return w;
    std::vector<std::vector<char> > r(a.n + 1); std::vector<double> arr(a.n + 1, 0), dist(a.n + 1, 0);
    for (int i = 1; i <= a.n; ++i) r[i].assign(a.K[i], 0);
    r[a.root.lev][a.root.st] = 1;
    for (int i = a.root.lev; i >= 1; --i) for (int s = 0; s < a.K[i]; ++s) if (r[i][s]) { ++w.states; ++dist[i]; for (int b = 0; b < a.ar; ++b) { ++w.trans; Tr x = a.next(i, s, b); if (x.lev > 0) { r[x.lev][x.st] = 1; ++arr[x.lev]; } } }
    for (int i = 1; i <= a.n; ++i) w.probes += collide ? arr[i] * (dist[i] + 1) : 2 * arr[i];
    return w;
}
template<typename F> static void timed(Env const& e, const char* what, double m, F fn) {
    uint64_t s0 = sim::steps();
    sim::stepLimit((uint64_t)(m * PROGRESS_FACTOR) + 20000);
    sim::note("%s ", what);
    op(e, fn);
    double r = (double)(sim::steps() - s0) / m; sim::ev((uint64_t)r);
    static const char* lim = getenv("SIM_RATIO");
    if (lim && r > atof(lim)) sim::fail("RATIO", "%s: %.1f steps per unit of work (%llu steps)", what, r, (ULL)(sim::steps() - s0));
    sim::stepLimit(2000000000ULL);
}
static double teams(Env const& e, int levels) { double t = std::max(e.threads, 1); return (levels + 2) * (40 * t * t + 60 * t + 60); }

// Callbacks that synchronise their workers by OpenMP's unnamed critical section, as user code
// that counts or logs does.  The library must not call them while it holds that section itself.
static uint64_t critCount;
static void inCritical() {
#pragma omp critical
    ++critCount;
}
template<int AR> struct SpecCrit : DdSpec<SpecCrit<AR>, int, AR>, SpecCore {
    int where;
    SpecCrit(Auto const* A, int hm, int where) : SpecCore(A, hm), where(where) {}
    void at(int w) const { if (where == w || where == 7) inCritical(); }
    int getRoot(int& s) { at(0); return root(s); }
    int getChild(int& s, int l, int v) { at(1); return step(s, l, v); }
    void getCopy(void* p, int const& s) { at(2); new (p) int(s); }
    void destruct(void* p) { at(3); (void)p; }
    void destructLevel(int) { at(4); }
    size_t hashCode(int const& s) const { at(5); return hsh(s); }
    bool equalTo(int const& a, int const& b) const { at(6); return a == b; }
    int mergeStates(int&, int&) { at(4); return 0; }
};
template<int AR> struct CritEval : DdEval<CritEval<AR>, int, int> {
    void initialize(int) { inCritical(); }
    void evalTerminal(int& v, int id) { inCritical(); v = id; }
    void evalNode(int& v, int, DdValues<int,AR> const& c) { inCritical(); v = 0; for (int b = 0; b < AR; ++b) v |= c.get(b); }
    int getValue(int const& v) { inCritical(); return v; }
    void destructLevel(int) { inCritical(); }
};

template<int AR> static void progressRun(int maxN, int maxW) {
    Env e = drawEnv(); bool dense = draw(2); AutoParam q = dense ? drawDense(maxN, maxW) : drawParam(maxN, maxW); noteParam(q);
    Auto A = makeAuto(AR, q); drawRoot(A);
    int hm = (int)draw(5); int kind = (int)draw(3); int where = (int)draw(8); int steps = 1 + (int)draw(4);
    Work w = workOf(A, hm != 0);
    DdP<AR> dd, cp; SpecInt<AR> si(&A, hm); SpecObj<AR> so(&A, hm); SpecCrit<AR> sc(&A, hm, where); if (kind == 2) sim::note("crit@%d ", where);
    timed(e, "build", teams(e, w.levels) + 12 * (w.states + w.trans) + w.probes, [&] { if (kind == 2) dd.reset(new DdStructure<AR>(sc, e.mp)); else if (kind == 1) dd.reset(new DdStructure<AR>(so, e.mp)); else dd.reset(new DdStructure<AR>(si, e.mp)); });
    for (int k = 0; k < steps; ++k) {
        perturbThreads(e);
        double base = teams(e, dd->getDiagram()->numRows()) + 12.0 * AR * (dd->size() + 1);
        dd->useMultiProcessors(draw(4) != 3);
        switch (draw(8)) {
        case 7: { int r = 0; Canon c(QDD, AR); int want = canonOf(c, *dd, "") != 0; timed(e, "evaluate", base * 3, [&] { r = dd->evaluate(CritEval<AR>()); }); if (r != want) sim::fail("VALUE", "evaluate() is wrong"); break; }
        case 0: timed(e, "zddReduce", base, [&] { dd->zddReduce(); }); break;
        case 1: timed(e, "bddReduce", base, [&] { dd->bddReduce(); }); break;
        case 2: timed(e, "qddReduce", base, [&] { dd->qddReduce(); }); break;
        case 3: { AutoParam p = drawDense(maxN, maxW, std::max(1, dd->topLevel())); noteParam(p); Auto B = makeAuto(AR, p); int h2 = (int)draw(5); SpecInt<AR> sb(&B, h2); SpecCrit<AR> sbc(&B, h2, where);
            double pairs = 0, probes = 0;      // every (node, state) pair of a level, at most
            NodeTableEntity<AR> const& tab = *dd->getDiagram();
            for (int i = 1; i <= dd->topLevel(); ++i) { double x = (double)tab[i].size() * (i <= B.n ? B.K[i] : 1); pairs += x; probes += h2 ? x * AR * (i <= B.n ? B.K[i] : 1) : 0; }
            timed(e, "zddSubset", base + 40.0 * AR * (pairs + B.n) + 2 * probes, [&] { if (kind == 2) dd->zddSubset(sbc); else dd->zddSubset(sb); }); break; }
        case 4: { std::string s; timed(e, "count", base * 3, [&] { s = dd->zddCardinality(); }); break; }
        case 5: { bool eq = false; SUT(cp.reset(new DdStructure<AR>(*dd))); timed(e, "compare", base * 3, [&] { eq = *dd == *cp; }); if (!eq) sim::fail("COMPARE", "a diagram differs from its copy"); break; }
        case 6: { DdP<AR> o; double m = teams(e, dd->topLevel() + 3) + 40.0 * AR * (dd->topLevel() + 4) * (dd->size() + 4); int nv = dd->topLevel() + (int)draw(3); timed(e, "bdd2zdd", m, [&] { o.reset(new DdStructure<AR>(dd->bdd2zdd(nv))); }); SUT(checkTable(*o, "converted")); SUT(o.reset()); break; }
        }
        SUT(checkTable(*dd, "diagram"));
    }
    if (w.states > 3) sim::nontrivial();
    timed(e, "destroy", 100 + 50.0 * (dd->topLevel() + 1), [&] { dd.reset(); cp.reset(); });
}
WORKLOAD(progress2) { progressRun<2>(10, 20); }
WORKLOAD(progress3) { progressRun<3>(6, 12); }
WORKLOAD(progress2wide) { progressRun<2>(9, 300); }
WORKLOAD(progress2deep) { progressRun<2>(60, 4); }

// ---------------------------------------------------------------- P14
struct MsgBuf : std::streambuf {
    size_t n, cap; int mode; std::string s;
    MsgBuf(size_t cap, int mode) : n(0), cap(cap), mode(mode) {}
    int_type overflow(int_type c) override {
        sim::Oracle o; if (c == traits_type::eof()) return 0; ++n;
        if (mode == 1 && n > cap) { sim::hit(sim::F_WRITE_EIO); return traits_type::eof(); }      // never works again
        if (mode == 2 && n > cap && n < cap + 40) { sim::hit(sim::F_WRITE_ENOSPC); return traits_type::eof(); }   // recovers
        if (mode == 3 && n > cap) { sim::hit(sim::F_WRITE_THROW); throw std::runtime_error("device error"); }      // caught by the stream
        s.push_back((char)c); return c;
    }
    int sync() override { return mode && n > cap ? -1 : 0; }
};
template<int AR> struct LoudEval : DdEval<LoudEval<AR>, uint64_t, uint64_t> {
    bool showMessages() const { return true; }
    bool isThreadSafe() const { return true; }
    void evalTerminal(uint64_t& v, int id) { v = id + 1; }
    void evalNode(uint64_t& v, int level, DdValues<uint64_t,AR> const& c) { v = level; for (int b = 0; b < AR; ++b) v = sim::mix(v, c.get(b)); }
};
template<int AR> static void messageRun(int maxN, int maxW) {
    Env e = drawEnv(); Hist<AR> h(e, maxN, maxW, 3);
    int clock = (int)fault(sim::F_CLOCK, 5); sim::setClockMode(clock); if (clock) sim::hit(sim::F_CLOCK);
    bool on = draw(4) != 3; int mode = on ? (int)fault(sim::F_WRITE_EIO, 4) : 0;
    MsgBuf b(draw(4) == 0 ? draw(40) : draw(3000), mode);
    sim::note("clock=%d messages=%d stream=%d@%llu ", clock, on, mode, (ULL)b.cap);
    std::streambuf* old = std::cerr.rdbuf(&b); std::ios::fmtflags fl = std::cerr.flags();
    bool was; { sim::Sut s; was = MessageHandler::showMessages(on); }
    sim::stepLimit(400000000ULL);
    size_t silent = 0, spoke = 0; bool cur = on;
    int steps = 1 + (int)draw(5);
    h.build();
    for (int k = 0; k < steps; ++k) {
        perturbThreads(h.e);
        if (draw(5) == 4) { cur = !cur; sim::Sut s; MessageHandler::showMessages(cur); sim::note("messages:=%d ", cur); }
        size_t n0 = b.n;
        switch (draw(9)) {
        case 0: case 1: h.reduce(h.pick()); if (!cur && b.n != n0) ++silent; break;
        case 2: h.subsetSpec(h.pick()); break;
        case 3: if (h.S.size() < 3) h.convert(h.pick()); break;
        case 4: h.compare(h.pick(), h.pick()); break;
        case 5: h.count(h.pick()); break;
        case 6: if (h.S.size() < 3) h.build(); break;
        case 7: { size_t i = h.pick(); Dag g = dagOf(*h.S[i].d); uint64_t want, got = 0;
            { std::vector<std::vector<uint64_t> > v(g.row.size()); auto val = [&](Ref r) { return r.lev > 0 ? v[r.lev][r.col] : (uint64_t)(r.lev < 0) + 1; };
              for (size_t l = 1; l < g.row.size(); ++l) { v[l].resize(g.width(l)); for (size_t j = 0; j < g.width(l); ++j) { uint64_t x = l; for (int c = 0; c < AR; ++c) x = sim::mix(x, val(g.row[l][j * AR + c])); v[l][j] = x; } } want = val(g.root); }
            sim::note("evaluate(%d) ", (int)i); h.S[i].d->useMultiProcessors(draw(2) == 0);
            op(h.e, [&] { got = h.S[i].d->evaluate(LoudEval<AR>()); }); if (got != want) sim::fail("VALUE", "evaluate() returned a wrong value"); break; }
        case 8: { Auto a = h.drawAuto(); SpecInt<AR> sp(&a); SpecCore::calls = 0; SpecCore::throwAt = 1 + draw(60); bool threw = false; sim::note("throw@%llu ", (ULL)SpecCore::throwAt);
            { sim::Sut s; try { DdStructure<AR> d(sp, false); } catch (Throwing&) { threw = true; } } SpecCore::throwAt = 0; sim::ev(threw); break; }
        }
        if (!cur && b.n != n0) ++silent;
        if (cur && b.n != n0) ++spoke;
    }
    if (silent) sim::fail("MESSAGE", "text is written although messages are disabled");
    if (cur && mode == 0) {      // every message was closed, also by an operation that failed
        size_t at = b.s.size();
        { sim::Sut s; MessageHandler mh; mh.begin("probe"); mh.end(); }
        size_t p = b.s.find("Probe", at);
        if (p == std::string::npos) sim::fail("MESSAGE", "an enabled message is not written to the selected stream");
        if (p && b.s[p - 1] != '\n') sim::fail("MESSAGE", "an unfinished message of an earlier operation is still open");
    }
    std::cerr.rdbuf(old); std::cerr.clear(); std::cerr.flags(fl);
    { sim::Sut s; MessageHandler::showMessages(was); }
    if (h.big && (spoke || !on)) sim::nontrivial();
    h.clear();
}
WORKLOAD(message2) { messageRun<2>(8, 8); }
WORKLOAD(message3) { messageRun<3>(5, 8); }
WORKLOAD(message2deep) { messageRun<2>(120, 3); }
WORKLOAD(message2wide) { messageRun<2>(8, 100); }

// ---------------------------------------------------------------- P15
struct CallerOp { int kind; bool mp; int threads; int autoIdx; int extra; };
static Big big(std::string const& t) { Big x; for (char c : t) { x.mul(10); Big y; if (c != '0') { y.d.push_back(c - '0'); x.add(y); } } return x; }
static std::string itos(size_t v) { char b[32]; snprintf(b, sizeof b, "%llu", (ULL)v); return b; }
template<int AR> struct Caller {
    std::vector<Auto> autos; std::vector<CallerOp> ops; int id; bool obj; bool ok;
    // runs alone or next to others; the reference model belongs to this caller
    void run() {
        Canon cz(ZDD_, AR), cb(BDD_, AR); int z = 0, b = 0; bool bok = true;
        DdP<AR> d;
        for (size_t k = 0; k < ops.size(); ++k) {
            CallerOp const& o = ops[k]; Auto const& A = autos[o.autoIdx];
            { sim::setThreads(o.threads); }
            switch (d ? o.kind : 0) {
            case 0: { { sim::Sut s; if (obj) { SpecObj<AR> sp(&A); d.reset(new DdStructure<AR>(sp, o.mp)); } else { SpecArr<AR, short> sp(&A, 3); d.reset(new DdStructure<AR>(sp, o.mp)); } }
                z = cz.fromAuto(A); b = cb.fromAuto(A); bok = true; checkCanon(*d, cz, z, "built diagram"); checkCanon(*d, cb, b, "built diagram"); break; }
            case 1: { sim::Sut s; d->useMultiProcessors(o.mp); d->zddReduce(); } checkCanon(*d, cz, z, "reduced diagram"); checkMinimal(*d, cz, z, "reduced diagram"); bok = false; break;
            case 2: { z = cz.apply(z, cz.fromAuto(A), false); { sim::Sut s; SpecInt<AR> sp(&A); d->useMultiProcessors(o.mp); d->zddSubset(sp); } checkCanon(*d, cz, z, "subset"); bok = false; break; }
            case 3: { std::string s1; { sim::Sut s; d->useMultiProcessors(o.mp); s1 = d->zddCardinality(); } std::string w = cz.cardinality(z, 0); if (s1 != w) sim::fail("COUNT", "caller %d: zddCardinality() is %s, the family has %s members", id, s1.c_str(), w.c_str()); break; }
            case 4: { DdP<AR> c; { sim::Sut s; c.reset(new DdStructure<AR>(*d)); c->zddReduce(); } checkCanon(*d, cz, z, "original"); checkCanon(*c, cz, z, "copy"); { sim::Sut s; *d = *c; c.reset(); } bok = false; break; }
            case 5: { size_t n = 0; std::string t; { sim::Sut s; std::ostringstream os; os << *d; sim::Oracle q; t = os.str(); } for (char x : t) n += x == '\n'; size_t reach; Canon cq(QDD, AR); canonOf(cq, *d, "", &reach); if (n < reach + 2) sim::fail("TEXT", "caller %d: an export is incomplete", id); break; }
            case 7: { std::set<std::set<int> > got; size_t n = 0; if (AR != 2 || cz.cardinality(z, 0).size() > 2) break; { sim::Sut s; for (auto it = d->begin(); it != d->end(); ++it) { sim::Oracle q; got.insert(*it); if (++n > 200) break; } } if (itos(n) != cz.cardinality(z, 0) || got.size() != n) sim::fail("ITER", "caller %d: iteration yields %d members", id, (int)n); break; }
            case 8: { std::string s1; int nv = d->topLevel() + o.extra; DdP<AR> c; { sim::Sut s; c.reset(new DdStructure<AR>(*d)); c->useMultiProcessors(o.mp); *c = c->zdd2bdd(nv); s1 = c->bddCardinality(nv + o.extra); }
                Big w = big(cz.cardinality(z, 0)); for (int q = 0; q < o.extra; ++q) w.mul(AR); if (s1 != w.str()) sim::fail("COUNT", "caller %d: bddCardinality() is %s instead of %s", id, s1.c_str(), w.str().c_str()); SUT(c.reset()); break; }
            case 9: { std::string t1, t2; { sim::Sut s; std::ostringstream os, ot; if (AR == 2) { d->dumpSapporo(os); d->dumpSapporo(ot); } else { d->getDiagram()->dumpDot(os, "x"); d->getDiagram()->dumpDot(ot, "x"); } sim::Oracle q; t1 = os.str(); t2 = ot.str(); } if (t1 != t2) sim::fail("TEXT", "caller %d: two exports of one diagram differ", id); break; }
            case 10: { bool none = z == 0, thr = false; std::vector<std::pair<int,int> > v; { sim::Sut s; try { v = d->findOneInstance(); } catch (std::runtime_error&) { thr = true; } } if (thr != none) sim::fail("INSTANCE", "caller %d: findOneInstance() %s", id, thr ? "finds no member" : "finds a member of an empty family"); 
                if (!thr) { int f = z; std::map<int,int> val(v.begin(), v.end()); for (int l = 100; f >= 2 && l; --l) { int x = cz.level(f); f = cz.child(f, val.count(x) ? val[x] : 0); } if (f != 1) sim::fail("INSTANCE", "caller %d: findOneInstance() returns no member", id); } break; }
            case 6: { bool eq; { sim::Sut s; DdStructure<AR> c(*d); d->zddReduce(); c.zddReduce(); eq = c == *d; } if (!eq) sim::fail("COMPARE", "caller %d: two reductions of a diagram differ", id); checkCanon(*d, cz, z, "reduced diagram"); bok = false; break; }
            }
            sim::ev(d->size());
        }
        (void)bok; SUT(d.reset()); ok = true;
    }
    static void tramp(void* p) { ((Caller*)p)->run(); }
};
template<int AR> static void callersRun(int maxN, int maxW) {
    Life::reset();
    int n = 2 + (int)draw(3); static const int th[] = { 1, 2, 3, 2, 4 };
    std::vector<std::unique_ptr<Caller<AR> > > c; size_t sz = 0;
    sim::setDynamic(fault(sim::F_TEAM_SHRINK, 4) == 3);
    int focus = draw(2) ? (int)draw(11) : -1;      // all callers do the same at the same time
    for (int i = 0; i < n; ++i) {
        c.emplace_back(new Caller<AR>); Caller<AR>& x = *c.back(); x.id = i; x.ok = false; x.obj = draw(2);
        int na = 1 + (int)draw(2); for (int k = 0; k < na; ++k) { AutoParam q = drawDense(maxN, maxW); noteParam(q); x.autos.push_back(makeAuto(AR, q)); drawRoot(x.autos.back()); size_t r, al; reachCounts(x.autos.back(), r, al); sz += r > 3; }
        int no = 1 + (int)draw(focus >= 0 ? 5 : 4); sim::note("caller%d:", i);
        for (int k = 0; k < no; ++k) { CallerOp o; o.kind = !k ? 0 : focus >= 0 ? focus : (int)draw(11); o.extra = (int)draw(4) * (int)draw(40); o.mp = draw(3) != 2; o.threads = th[draw(5)]; o.autoIdx = (int)draw(na); x.ops.push_back(o); sim::note("%d%s", o.kind, o.mp ? "m" : ""); }
        sim::note(" ");
    }
    std::vector<int> ids; for (int i = 1; i < n; ++i) ids.push_back(sim::spawn(Caller<AR>::tramp, c[i].get()));
    c[0]->run();
    for (int id : ids) sim::join(id);
    for (auto& x : c) if (!x->ok) sim::fail("LOST", "a caller did not finish");
    if (Life::live) sim::fail("LIFE", "%ld states are alive at the end", Life::live);
    if (sz >= 2) sim::nontrivial();
}
WORKLOAD(callers2) { callersRun<2>(6, 8); }
WORKLOAD(callers3) { callersRun<3>(4, 6); }
WORKLOAD(callers2wide) { callersRun<2>(7, 100); }
