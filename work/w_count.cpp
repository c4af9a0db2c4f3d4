// P22: counting paths without building the diagram.
#include "any.hpp"
#include <tdzdd/dd/PathCounter.hpp>

enum { N_COUNT, N_FAST, N_64 };
static const char* const nName[] = { "countPaths(spec)", "countPaths(spec, true)", "countPaths64(spec)" };
static std::string decimal(unsigned long long v) { Big b; while (v) { b.d.push_back((uint32_t)(v % 1000000000ULL)); v /= 1000000000ULL; } return b.str(); }

// Many levels, few paths cut off; one long skip that starts before and ends after the counts grow by a word.
template<int AR> static Auto longSkip() {
    static const int ws[] = { 8, 4, 16, 2, 40, 1, 100 };
    int w = ws[draw(7)], k = 1 + (int)draw(2), j = 1 + (int)draw(2), c = 1 + (int)draw(4);
    double lg = AR == 2 ? 1 : AR == 3 ? 1.585 : 2;
    int L = (int)(63 * k / lg) - 2 + (int)draw(5), D = (int)(63 * j / lg) - 2 + (int)draw(10), kc = 1 + (int)draw(2);
    Auto a; a.ar = AR; a.n = c + L + D; a.K.assign(a.n + 1, w); a.t.resize(a.n + 1); a.K[0] = 0; a.K[a.n] = 1;
    for (int i = 1; i <= c; ++i) a.K[i] = kc;
    uint64_t more = draw(3) * 2; SM r(draw(1000000));
    for (int i = 1; i <= a.n; ++i) {
        a.t[i].resize((size_t)a.K[i] * AR);
        for (int s = 0; s < a.K[i]; ++s) for (int b = 0; b < AR; ++b) {
            Tr x; x.lev = i - 1; x.st = i > 1 ? (s * AR + b) % a.K[i - 1] : 0; if (i == 1) x.lev = -1;
            if (i == c + L && s == a.K[i] - 1 && b == AR - 1) { x.lev = c; x.st = 0; }
            else if (i > c + 1 && i <= c + L && r.pct(more)) { x.lev = c + (int)r.below(i - c); x.st = (int)r.below(a.K[x.lev]); }
            a.t[i][(size_t)s * AR + b] = x;
        }
    }
    a.root.lev = a.n; a.root.st = 0;
    sim::note("[skip %d of %d levels, w=%d k=%d more=%d] ", L, a.n, w, kc, (int)more);
    return a;
}
// Two tracks that never meet: one whose counts grow over several words, with stretches in which its paths only move on,
// and one with few paths whose states meet behind short skips.
template<int AR> static Auto sideTrack() {
    double lg = AR == 2 ? 1 : AR == 3 ? 1.585 : 2; static const int ws[] = { 1, 2, 4, 3, 8 };
    int w = ws[draw(5)], sw = 2 + (int)draw(3), jump = 2 + (int)draw(3), rest = 1 + (int)draw(3), keep = (int)draw(2) * 40, first = (int)draw(2);
    int n = 8 + (int)draw((uint64_t)(63 * 5 / lg) * (rest == 1 ? 1 : 2)); SM r(draw(1000000));
    Auto a; a.ar = AR; a.n = n; a.K.assign(n + 1, w + sw); a.t.resize(n + 1); a.K[0] = 0; a.K[n] = 1;
    int until = n - 1; bool move = false;
    for (int i = n; i >= 1; --i) {
        a.t[i].resize((size_t)a.K[i] * AR);
        if (i < until) { move = !move; until = i - (move ? 1 + (int)r.below(5) : 1 + (int)r.below(move || rest == 1 ? 9 : 70)); if (rest == 1) move = false; }
        for (int s = 0; s < a.K[i]; ++s) for (int b = 0; b < AR; ++b) {
            Tr x; x.lev = 0; x.st = 0;
            bool side = i < n && (first ? s < sw : s >= w); int so = first ? 0 : w, mo = first ? sw : 0;
            if (i == n) { if (b == AR - 1) { x.lev = i - 1 - (int)r.below(2); x.st = so; } else { x.lev = i - 1; x.st = mo; } if (x.lev < 1) x.lev = -1; }
            else if (!side) { if (!move || b == 0) { x.lev = i - 1; x.st = mo + (move ? s - mo : (int)((s - mo) * AR + b) % w); if (i == 1) { x.lev = -1; x.st = 0; } } }
            else if (b == 0 || r.pct(keep ? 50 : 8)) { x.lev = i - (int)(1 + r.below(jump)); x.st = so + (int)r.below(sw); if (x.lev < 1) { x.lev = -1; x.st = 0; } }
            a.t[i][(size_t)s * AR + b] = x;
        }
    }
    a.root.lev = n; a.root.st = 0;
    sim::note("[tracks of %d and %d over %d levels, jumps below %d, rest=%d keep=%d] ", w, sw, n, jump, rest, keep);
    return a;
}
template<typename S> static std::string* countOnce(S& spec, int how) {      // in Sut scope
    std::string r; uint64_t v = 0;
    if (how == N_COUNT) r = countPaths(spec); else if (how == N_FAST) r = countPaths(spec, true); else v = countPaths64(spec);
    sim::Oracle o; return new std::string(how == N_64 ? decimal(v) : std::string(r.c_str()));
}
template<int AR> struct Counter {
    Auto a; std::string want; std::vector<int> ops; bool faults, ok; int id;
    void check(std::string* got, int how, const char* when) {
        std::unique_ptr<std::string> g(got);
        if (how == N_64 && want.size() > 19) return;
        if (*g != want) sim::fail("PATHS", "caller %d: %s is %s%s, there are %s paths", id, nName[how], g->c_str(), when, want.c_str());
        if (log.left()) sim::fail("LEVEL", "%s returns without destructLevel(%d), though states of that level were made", nName[how], log.left());
        if (Life::live && !faults && !many) sim::fail("LIFE", "%ld states are alive after %s", Life::live, nName[how]);
    }
    bool many; int kind, hm, m; LevelLog log;
    template<typename S> void with(S&& s) {
        for (int how : ops) {
            log.clear();
            if (faults && draw(2)) {
                bool done = false, wasAlloc = false; std::string* g = 0;
                uint64_t at = 1 + (draw(2) ? draw(40) : draw(600)); bool cb = draw(2);
                if (cb) sim::note("[callback %llu throws] ", (ULL)at); else sim::note("[alloc %llu fails] ", (ULL)at);
                try { sim::Sut u; if (cb) { SpecCore::calls = 0; SpecCore::throwAt = at; } else sim::allocFailAt(at, draw(2) ? 1 : 1000000000); g = countOnce(s, how); done = true; }
                catch (std::bad_alloc&) { sim::Oracle o; wasAlloc = true; }
                catch (Throwing&) { sim::Oracle o; }
                bool af = sim::allocFailed(), ct = SpecCore::throwAt && SpecCore::calls >= SpecCore::throwAt;
                sim::allocFailAt(0); SpecCore::throwAt = 0;
                if (!done && wasAlloc && !af) sim::fail("EXCEPTION", "bad_alloc although no allocation failed");
                if (done && (ct || af)) sim::fail("EXCEPTION", "%s did not report a failure to the caller", nName[how]);
                if (done) check(g, how, ""); else { sim::note("-> failed "); sim::nontrivial(); }
                sim::ev(done);
                continue;
            }
            std::string* g; { sim::Sut u; g = countOnce(s, how); }
            check(g, how, "");
        }
        ok = true;
    }
    void run() {
        SpecInt<AR> si(&a, hm);
        switch (kind) {
        case 1: with(SpecObj<AR>(&a, hm)); break;
        case 2: with(SpecArr<AR, unsigned char>(&a, 1 + m)); break;
        case 3: with(SpecArr<AR, int>(&a, 1 + m)); break;
        case 4: with(SpecHyb<AR>(&a, m)); break;
        case 5: with(SpecHybObj<AR>(&a, m)); break;
        case 6: with(SpecLev<AR>(&a, hm)); break;
        case 7: with(SpecLevArr<AR>(&a, 1 + m, hm)); break;
        case 8: if (stateless(a)) { with(SpecNone<AR>(&a)); break; }
        case 9: { DdP<AR> d; SUT(d.reset(new DdStructure<AR>(si, false))); with(*d); SUT(d.reset()); break; }
        case 10: case 11: if (byteSized(a)) { if (kind == 10) with(SpecByte<AR>(&a, hm)); else with(SpecNine<AR>(&a, hm)); break; }
        case 12: { std::unique_ptr<SpecPool<AR> > q; SUT(q.reset(new SpecPool<AR>(&a, hm, &log))); with(*q); SUT(q.reset()); break; }
        default: with(si); break;
        }
    }
    static void tramp(void* p) { ((Counter*)p)->run(); }
};
template<int AR> static void drawCounter(Counter<AR>& x, int id, bool many, int maxN, int maxW, int shape) {
    x.id = id; x.many = many; x.ok = false;
    if (shape == 2) x.a = longSkip<AR>(); else if (shape == 3) x.a = sideTrack<AR>();
    else { AutoParam q = shape == 1 ? drawDense(maxN, maxW) : drawParam(maxN, maxW); if (shape == 1 && draw(2)) { q.p0 = q.p0 > 5 ? 2 : q.p0; q.dead = 0; q.skip = draw(2) ? 60 : 0; } noteParam(q); x.a = makeAuto(AR, q); drawRoot(x.a); }
    Canon c(ZDD_, AR); x.want = c.cardinality(c.fromAuto(x.a), 0);
    x.kind = (int)draw(13); x.hm = (int)draw(8); if (x.hm > 4 || shape) x.hm = 0; x.m = 1 + (int)draw(6);
    x.faults = !many && shape == 0 && fault(sim::F_SPEC_THROW, 3) == 2;
    int no = 1 + (int)draw(3); sim::note("spec=%d hash=%d ops=", x.kind, x.hm);
    for (int k = 0; k < no; ++k) { x.ops.push_back((int)draw(3)); sim::note("%d", x.ops.back()); } sim::note(" ");
    size_t r, al; reachCounts(x.a, r, al); if (al > 3) sim::nontrivial();
}
template<int AR> static void pathRun(int maxN, int maxW, int shape) {
    Life::reset(); SpecCore::throwAt = 0;
    int n = shape == 0 && draw(3) == 2 ? 2 + (int)draw(2) : 1;
    std::vector<std::unique_ptr<Counter<AR> > > c;
    for (int i = 0; i < n; ++i) { c.emplace_back(new Counter<AR>); drawCounter<AR>(*c.back(), i, n > 1, maxN, maxW, shape); }
    std::vector<int> ids; for (int i = 1; i < n; ++i) ids.push_back(sim::spawn(Counter<AR>::tramp, c[i].get()));
    c[0]->run();
    for (int id : ids) sim::join(id);
    for (auto& x : c) if (!x->ok) sim::fail("LOST", "a caller did not finish");
    if (!c[0]->faults) {
        if (Life::live) sim::fail("LIFE", "%ld states are alive at the end", Life::live);
        if (sim::liveSut()) { char b[200]; sim::listLive(b, sizeof b); sim::fail("LEAK", "%llu blocks are still allocated after counting: %s", (ULL)sim::liveSut(), b); }
    }
}
WORKLOAD(paths2) { pathRun<2>(12, 40, 0); }
WORKLOAD(paths3) { pathRun<3>(8, 12, 0); }
WORKLOAD(paths2big) { pathRun<2>(220, 20, 1); }
WORKLOAD(paths3big) { pathRun<3>(140, 8, 1); }
WORKLOAD(paths4big) { pathRun<4>(90, 8, 1); }
WORKLOAD(paths2skip) { pathRun<2>(0, 0, 2); }
WORKLOAD(paths3skip) { pathRun<3>(0, 0, 2); }
WORKLOAD(paths2side) { pathRun<2>(0, 0, 3); }
WORKLOAD(paths3side) { pathRun<3>(0, 0, 3); }
WORKLOAD(paths12) { pathRun<12>(30, 5, 1); }
