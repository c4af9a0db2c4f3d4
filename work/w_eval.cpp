// P05: bottom-up evaluation.
#include "common.hpp"

struct HVal {                       // heap-owning value
    Obj o; uint64_t h;
    HVal() : h(0) {}
};
inline void setv(uint64_t& v, uint64_t h) { v = h; }
inline uint64_t getv(uint64_t const& v) { return v; }
inline void setv(HVal& v, uint64_t h) { v.o.set((int)(h & 0xffff)); v.h = h; }
inline uint64_t getv(HVal const& v) { if (v.o.get() != (int)(v.h & 0xffff)) sim::fail("VALUE", "torn value"); return v.h; }

static std::vector<size_t> nodeCalls; static size_t termCalls, getCalls;
static int callerFiber; static int wantTop;

template<int AR, typename T> struct HashEval : DdEval<HashEval<AR,T>, T, uint64_t> {
    bool safe, msg; int inits, top, busy, lastLevel; uint64_t released[20];
    HashEval(bool safe, bool msg) : safe(safe), msg(msg), inits(0), top(-1), busy(0), lastLevel(0) { for (int k = 0; k < 20; ++k) released[k] = 0; }
    bool isThreadSafe() const { return safe; }
    bool showMessages() const { return msg; }
    struct G { HashEval& e; G(HashEval& e) : e(e) { if (e.busy) sim::fail("CONFINE", "one copy of an evaluator is used by two workers at once"); e.busy = 1; } ~G() { e.busy = 0; } };
    void where() { if (!safe && sim::fiberId() != callerFiber) sim::fail("CONFINE", "an evaluator that is not thread safe is called by another worker"); }
    bool rel(int l) const { return released[l >> 6] >> (l & 63) & 1; }
    void initialize(int level) { G g(*this); where(); if (level != wantTop) sim::fail("VALUE", "initialize(%d) for a diagram of top level %d", level, wantTop); ++inits; top = level; }
    void evalTerminal(T& v, int id) { G g(*this); where(); if (!inits) sim::fail("INIT", "evalTerminal before initialize"); { sim::Oracle o; ++termCalls; } setv(v, 0x1234567ULL + 977 * id); }
    void evalNode(T& v, int level, DdValues<T,AR> const& values) {
        G g(*this); where();
        if (!inits) sim::fail("INIT", "evalNode is called on a copy of the evaluator that was never initialized");
        if (level < 1 || level > top) sim::fail("VALUE", "evalNode at level %d", level);
        if (level < lastLevel) sim::fail("VALUE", "levels are evaluated out of order");
        lastLevel = level;
        if (rel(level)) sim::fail("VALUE", "level %d is evaluated after it was released", level);
        uint64_t h = level * 7919;
        for (int b = 0; b < AR; ++b) {
            int l = values.getLevel(b);
            if (l < 0 || l >= level) sim::fail("VALUE", "child level %d of a node at level %d", l, level);
            if (l > 0 && rel(l)) sim::fail("VALUE", "a value of level %d is used after that level was released", l);
            h = sim::mix(sim::mix(h, l), getv(values.get(b)));
        }
        { sim::Oracle o; ++nodeCalls[level]; }
        setv(v, h);
    }
    uint64_t getValue(T const& v) { where(); { sim::Oracle o; ++getCalls; } if (!inits) sim::fail("INIT", "getValue before initialize"); return getv(v); }
    void destructLevel(int l) {
        G g(*this); where();
        if (l < 1 || l > top) sim::fail("VALUE", "destructLevel(%d)", l);
        if (rel(l)) sim::fail("VALUE", "level %d is released twice", l);
        released[l >> 6] |= 1ULL << (l & 63);
    }
};
static uint64_t refHash(Dag const& g) {
    std::vector<std::vector<uint64_t> > h(g.row.size());
    auto val = [&](Ref r) { return r.lev > 0 ? h[r.lev][r.col] : 0x1234567ULL + 977 * (r.lev < 0); };
    for (size_t i = 1; i < g.row.size(); ++i) { h[i].resize(g.width(i)); for (size_t j = 0; j < g.width(i); ++j) { uint64_t x = i * 7919; for (int b = 0; b < g.ar; ++b) { Ref r = g.row[i][j * g.ar + b]; x = sim::mix(sim::mix(x, r.lev > 0 ? r.lev : 0), val(r)); } h[i][j] = x; } }
    return val(g.root);
}
template<int AR, typename T> static void evalOnce(Env const& e, DdStructure<AR> const& dd) {
    Dag g = dagOf(dd); uint64_t want = refHash(g), got = 0;
    nodeCalls.assign(g.row.size() + 1, 0); termCalls = getCalls = 0; wantTop = dd.topLevel();
    bool safe = draw(4) != 3, msg = draw(4) == 3;
    Life::reset();
    HashEval<AR,T> ev(safe, msg);
    { sim::Sut s; inEnv(e, [&] { callerFiber = sim::fiberId(); got = dd.evaluate(ev); }); }
    if (got != want) sim::fail("VALUE", "evaluate() returned a wrong value");
    for (int i = 1; i <= dd.topLevel(); ++i) if (nodeCalls[i] != g.width(i)) sim::fail("VALUE", "%llu of %llu nodes of level %d were evaluated", (ULL)nodeCalls[i], (ULL)g.width(i), i);
    for (size_t i = dd.topLevel() + 1; i < nodeCalls.size(); ++i) if (nodeCalls[i] > (i < g.row.size() ? g.width(i) : 0)) sim::fail("VALUE", "level %llu evaluated too often", (ULL)i);
    if (getCalls != 1) sim::fail("VALUE", "getValue was called %llu times", (ULL)getCalls);
    if (Life::live) sim::fail("LIFE", "%ld values are still alive after evaluation", Life::live);
    sim::ev(got);
}
template<int AR> static void evalRun(int maxN, int maxW) {
    Env e = drawEnv();
    AutoParam q = drawParam(maxN, maxW); noteParam(q);
    Auto A = makeAuto(AR, q); drawRoot(A);
    SpecInt<AR> spec(&A);
    DdP<AR> dd = mk<AR>(e, spec, draw(2));
    int red = (int)draw(5);
    if (red) op(e, [&] { if (red == 1) dd->zddReduce(); else if (red == 2) dd->bddReduce(); else if (red == 3) dd->qddReduce(); });
    dd->useMultiProcessors(e.mp);
    int steps = 1 + (int)draw(3);
    for (int k = 0; k < steps; ++k) {
        perturbThreads(e);
        if (draw(2)) evalOnce<AR,HVal>(e, *dd); else evalOnce<AR,uint64_t>(e, *dd);
        if (k + 1 < steps && draw(3) == 2) {      // evaluate again after an in-place operation
            AutoParam q2 = drawDense(maxN, maxW, q.n); Auto B = makeAuto(AR, q2); SpecInt<AR> sb(&B);
            if (draw(2)) op(e, [&] { dd->zddSubset(sb); }); else op(e, [&] { dd->zddReduce(); });
        }
    }
    sim::note("size=%llu", (ULL)dd->size());
    if (dd->size() > 3) sim::nontrivial();
    SUT(dd.reset());
}
WORKLOAD(eval2) { evalRun<2>(12, 20); }
WORKLOAD(eval3) { evalRun<3>(7, 20); }
WORKLOAD(eval2wide) { gHugeOk = HUGE_WIDE; evalRun<2>(12, 300); }
WORKLOAD(eval2deep) { gHugeOk = HUGE_DEEP; evalRun<2>(60, 6); }
WORKLOAD(eval70) { evalRun<70>(3, 6); }
