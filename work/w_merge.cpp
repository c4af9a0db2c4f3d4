// P02: state merging and pruning.
#include "common.hpp"

// Costs are updated per transition; equal keys at a level meet in mergeStates.
struct Costs { uint64_t seed; int limit; int w(int lev, int key, int b) const { return (int)(sim::mix(seed, ((uint64_t)lev << 40) ^ ((uint64_t)key << 8) ^ b) % 5); } };
// BEST: the cheaper state survives, costs only grow; SUM: costs are added up; SCRAMBLE: the cheaper state survives,
// and what follows from a dearer one may be cheaper (so that expanding a state that was dropped shows).
enum Mode { BEST, SUM, SCRAMBLE };

struct MState { int key; int cost; };
inline std::ostream& operator<<(std::ostream& os, MState const& s) { return os << s.key << "/" << s.cost; }
// one step of the specification on (level, key, cost); used by the library side and by the reference
struct Machine {
    Auto const* A; Costs c; int mode;
    Tr step(int lev, MState& s, int b) const {
        int k = s.key;
        if (mode == SUM) k = (k + s.cost % 3) % A->K[lev];         // expansion depends on the merged value
        Tr x = A->next(lev, k, b);
        if (mode == SCRAMBLE) s.cost = (int)(sim::mix(c.seed, (uint64_t)s.cost * 31 + c.w(lev, s.key, b)) % 101);
        else s.cost = mode == SUM ? (s.cost + c.w(lev, s.key, b)) % 1000003 : s.cost + c.w(lev, s.key, b);
        if (mode == BEST && c.limit && s.cost > c.limit) x.lev = 0;
        s.key = x.st;
        return x;
    }
    // 0: merged into the first, 1: drop the first, 2: drop the second
    int merge(MState& a, MState& b) const {
        if (mode == SUM) { a.cost = (a.cost + b.cost) % 1000003; return 0; }
        return a.cost > b.cost ? 1 : a.cost < b.cost ? 2 : 0;
    }
};
struct MObj : Obj { int cost; MObj() : cost(0) {} };

template<int AR, int KIND> struct MSpec;
template<int AR> struct MSpec<AR,0> : DdSpec<MSpec<AR,0>, MState, AR>, SpecCore {
    Machine m;
    MSpec(Machine const& m, int hm) : SpecCore(m.A, hm), m(m) {}
    int getRoot(MState& s) { int t; int l = root(t); s.key = t; s.cost = 0; return l; }
    int getChild(MState& s, int l, int b) { Guard g(*this); return m.step(l, s, b).lev; }
    int mergeStates(MState& a, MState& b) { Guard g(*this); return m.merge(a, b); }
    size_t hashCode(MState const& s) const { return hsh(s.key); }
    bool equalTo(MState const& a, MState const& b) const { return a.key == b.key; }
};
template<int AR> struct MSpec<AR,1> : DdSpec<MSpec<AR,1>, MObj, AR>, SpecCore {
    Machine m;
    MSpec(Machine const& m, int hm) : SpecCore(m.A, hm), m(m) {}
    int getRoot(MObj& s) { int t; int l = root(t); s.set(t); s.cost = 0; return l; }
    int getChild(MObj& o, int l, int b) { Guard g(*this); MState s; s.key = o.get(); s.cost = o.cost; int r = m.step(l, s, b).lev; o.set(s.key); o.cost = s.cost; return r; }
    int mergeStates(MObj& a, MObj& b) { Guard g(*this); MState x, y; x.key = a.get(); x.cost = a.cost; y.key = b.get(); y.cost = b.cost; int r = m.merge(x, y); a.cost = x.cost; return r; }
    size_t hashCode(MObj const& s) const { return hsh(s.get()); }
    bool equalTo(MObj const& a, MObj const& b) const { return a.get() == b.get(); }
};
template<int AR> struct MSpec<AR,2> : HybridDdSpec<MSpec<AR,2>, int, short, AR>, SpecCore {   // scalar = cost, array = key
    Machine m;
    MSpec(Machine const& m, int) : SpecCore(m.A, 0), m(m) { this->setArraySize(4); }
    void put(short* a, int k) { a[0] = a[1] = (short)k; a[2] = a[3] = 7; }
    int getRoot(int& c, short* a) { int t; int l = root(t); put(a, t); c = 0; return l; }
    int getChild(int& c, short* a, int l, int b) { Guard g(*this); MState s; s.key = a[0]; s.cost = c; int r = m.step(l, s, b).lev; put(a, s.key); c = s.cost; return r; }
    int mergeStates(int& c1, short*, int& c2, short*) { Guard g(*this); MState x, y; x.key = y.key = 0; x.cost = c1; y.cost = c2; int r = m.merge(x, y); c1 = x.cost; return r; }
    size_t hashCode(int const&) const { return 0; }
    bool equalTo(int const&, int const&) const { return true; }
};

// What the library is given: the merging specification itself, or a composition with it as a part.
enum Wrap { W_NONE, W_UNRED, W_LOOK, W_AND, W_INTER };
struct GS { int key, cost, il, il2, k2; };
struct GM {
    Machine m; int wrap, nv; bool zdd; Auto const* B;
    int inner(int lev, GS& s, int b) const { MState x; x.key = s.key; x.cost = s.cost; int l = m.step(lev, x, b).lev; s.key = x.key; s.cost = x.cost; return l; }
    int other(int lev, GS& s, int b) const { Tr x = B->next(lev, s.k2, b); s.k2 = x.st; return x.lev; }
    int look(GS& s, int lev) const {
        while (lev >= 1) {
            for (int b = 1; b < m.A->ar; ++b) { GS t = s; if (inner(lev, t, b) != 0) return lev; }
            lev = inner(lev, s, 0);
        }
        return lev;
    }
    int meet(GS& s, int i1, int i2) const {
        while (i1 != 0 && i2 != 0 && i1 != i2) { if (i1 > i2) i1 = inner(i1, s, 0); else i2 = other(i2, s, 0); }
        return i1 == 0 || i2 == 0 ? 0 : i1;
    }
    int root(GS& s) const {
        s.key = m.A->root.st; s.cost = 0; s.il = s.il2 = s.k2 = 0; int i1 = m.A->root.lev;
        if (wrap == W_UNRED) { s.il = i1; if (!i1) return 0; int n = std::max(nv, i1); return n > 0 ? n : -1; }
        if (wrap == W_LOOK) return look(s, i1);
        if (wrap == W_NONE) return i1;
        int i2 = B->root.lev; s.k2 = B->root.st;
        if (i1 == 0 || i2 == 0) return 0;
        if (wrap == W_INTER) return meet(s, i1, i2);
        s.il = i1; s.il2 = i2; return std::max(i1, i2);
    }
    int step(int lev, GS& s, int b) const {
        switch (wrap) {
        case W_UNRED:
            if (s.il == lev) { s.il = inner(lev, s, b); if (!s.il) return 0; } else if (zdd && b) return 0;
            return lev > 1 ? lev - 1 : s.il;
        case W_LOOK: return look(s, inner(lev, s, b));
        case W_INTER: { int i1 = inner(lev, s, b); if (!i1) return 0; int i2 = other(lev, s, b); if (!i2) return 0; return meet(s, i1, i2); }
        case W_AND:
            if (s.il == lev) { s.il = inner(lev, s, b); if (!s.il) return 0; }
            if (s.il2 == lev) { s.il2 = other(lev, s, b); if (!s.il2) return 0; }
            return std::max(s.il, s.il2);
        }
        return inner(lev, s, b);
    }
    std::vector<int> keyOf(int col, GS const& s) const {
        std::vector<int> k; k.push_back(col);
        switch (wrap) {
        case W_UNRED: k.push_back(s.il); k.push_back(s.il > 0 ? s.key : 0); break;
        case W_AND: k.push_back(s.il); k.push_back(s.il > 0 ? s.key : 0); k.push_back(s.il2); k.push_back(s.il2 > 0 ? s.k2 : 0); break;
        case W_INTER: k.push_back(s.key); k.push_back(s.k2); break;
        default: k.push_back(s.key);
        }
        return k;
    }
};

// Reference construction.  With an input diagram g: subsetting.
struct Cand { Ref* slot; GS s; };
static Dag reference(GM const& gm, int ar, Dag const* g, bool mergeOne, size_t& groups, size_t& meets, size_t& maxSize) {
    Machine const& m = gm.m;
    Dag d; d.ar = ar; d.root.lev = 0; d.root.col = 0; groups = meets = maxSize = 0;
    GS s0; int lev = gm.root(s0); Ref f; f.lev = lev; f.col = 0;
    auto align = [&](Ref& f, int& lev, GS& s) {
        if (!g) { f.lev = lev; f.col = 0; return lev != 0; }
        for (;;) {
            if (f.lev == 0 || lev == 0) return false;
            if (f.lev == lev) return true;
            if (f.lev > lev) f = g->row[f.lev][(size_t)f.col * ar];
            else lev = gm.step(lev, s, 0);
        }
    };
    if (g) f = g->root;
    if (!align(f, lev, s0)) return d;
    if (lev < 0) { d.root.lev = -1; return d; }
    int n = lev;
    d.row.resize(n + 1);
    std::vector<std::map<std::vector<int>, std::vector<Cand> > > pend(n + 1);
    Cand c0; c0.slot = &d.root; c0.s = s0; pend[n][gm.keyOf(f.col, s0)].push_back(c0);
    std::vector<Cand> ones;
    for (int i = n; i >= 1; --i) {
        d.row[i].assign(pend[i].size() * ar, Ref());
        size_t j = 0;
        for (auto& kv : pend[i]) {
            ++groups; meets += kv.second.size() - 1; maxSize += kv.second.size();
            int cost = kv.second[0].s.cost;
            if (m.mode == SUM) { for (size_t k = 1; k < kv.second.size(); ++k) cost = (cost + kv.second[k].s.cost) % 1000003; }
            else for (auto& x : kv.second) cost = std::min(cost, x.s.cost);
            for (auto& x : kv.second) { if (m.mode != SUM && x.s.cost > cost) { x.slot->lev = 0; x.slot->col = 0; } else { x.slot->lev = i; x.slot->col = (int)j; } }
            for (int b = 0; b < ar; ++b) {
                GS s = kv.second[0].s; s.cost = cost;
                Ref x; x.lev = i; x.col = kv.first[0];
                if (g) x = g->row[i][(size_t)x.col * ar + b];
                int l = (g && x.lev == 0) ? 0 : gm.step(i, s, b);
                Ref* slot = &d.row[i][j * ar + b]; slot->lev = slot->col = 0;
                if (!align(x, l, s)) continue;
                Cand c; c.slot = slot; c.s = s;
                if (l < 0) { slot->lev = -1; ones.push_back(c); }
                else pend[l][gm.keyOf(x.col, s)].push_back(c);
            }
            ++j;
        }
    }
    if (mergeOne && m.mode != SUM && !ones.empty()) {
        int best = ones[0].s.cost; for (auto& x : ones) best = std::min(best, x.s.cost);
        for (auto& x : ones) if (x.s.cost > best) x.slot->lev = 0;
    }
    return d;
}
template<int AR, typename SPEC> static void mergeRun3(GM const& m, SPEC const& spec, Env const& e, bool sub, int maxN, int maxW) {
    size_t groups, meets, mx;
    if (!sub) {
        Dag d = reference(m, AR, 0, !e.mp, groups, meets, mx);
        DdP<AR> dd = mk<AR>(e, spec, e.mp);
        SUT(checkTable(*dd, "merged diagram"));
        for (int r = 0; r < 3; ++r) { Canon c((Rule)r, AR); int w = d.canon(c); checkCanon(*dd, c, w, "merged diagram"); }
        if (dd->size() > mx) sim::fail("UNIQUE", "%llu nodes for %llu references", (ULL)dd->size(), (ULL)mx);
        SUT(dd.reset());
    }
    else {
        AutoParam q = lively(drawDense(maxN, maxW, m.m.A->n), 0); noteParam(q);
        Auto B = makeAuto(AR, q); drawRoot(B); SpecInt<AR> sb(&B);
        DdP<AR> dd = mk<AR>(e, sb, draw(2));
        if (draw(2)) op(e, [&] { dd->zddReduce(); });
        Dag in = dagOf(*dd);
        Dag d = reference(m, AR, &in, !e.mp, groups, meets, mx);
        dd->useMultiProcessors(e.mp);
        op(e, [&] { dd->zddSubset(spec); });
        Canon c(ZDD_, AR); int w = d.canon(c);
        checkCanon(*dd, c, w, "merged subset");
        if (dd->size() > mx) sim::fail("UNIQUE", "%llu nodes for %llu references", (ULL)dd->size(), (ULL)mx);
        SUT(dd.reset());
    }
    if (meets > 1) sim::nontrivial();
    sim::note("groups=%llu meets=%llu", (ULL)groups, (ULL)meets);
    sim::ev(meets);
}
template<int AR, typename SPEC> static void mergeAnd(GM const&, SPEC const&, Env const&, bool, int, int, std::integral_constant<bool,false>) {}
template<int AR, typename SPEC> static void mergeAnd(GM const& gm, SPEC const& spec, Env const& e, bool sub, int maxN, int maxW, std::integral_constant<bool,true>) {
    SpecLev<AR> sb(gm.B);
    if (gm.wrap == W_AND) mergeRun3<AR>(gm, bddAnd(spec, sb), e, sub, maxN, maxW);
    else mergeRun3<AR>(gm, zddIntersection(spec, sb), e, sub, maxN, maxW);
}
template<int AR, int KIND> static void mergeRun2(Machine const& m, Env const& e, int hm, bool sub, int maxN, int maxW) {
    MSpec<AR,KIND> spec(m, hm);
    Life::reset();
    GM gm; gm.m = m; gm.wrap = W_NONE; gm.nv = 0; gm.zdd = false; gm.B = 0; Auto B;
    static const int wr[] = { W_NONE, W_NONE, W_NONE, W_NONE, W_UNRED, W_LOOK, W_AND, W_INTER };
    gm.wrap = wr[draw(AR == 2 ? 8 : 6)]; sim::note("wrap=%d ", gm.wrap);
    switch (gm.wrap) {
    case W_UNRED: gm.nv = (int)draw(m.A->n + 3); gm.zdd = draw(2);
        if (gm.zdd) mergeRun3<AR>(gm, zddUnreduction(spec, gm.nv), e, sub, maxN, maxW); else mergeRun3<AR>(gm, bddUnreduction(spec, gm.nv), e, sub, maxN, maxW); break;
    case W_LOOK: mergeRun3<AR>(gm, zddLookahead(spec), e, sub, maxN, maxW); break;
    case W_AND: case W_INTER: { AutoParam q = drawDense(maxN, 4, draw(3) ? m.A->n : 0); noteParam(q); B = makeAuto(AR, q); gm.B = &B; 
        mergeAnd<AR>(gm, spec, e, sub, maxN, maxW, std::integral_constant<bool,AR == 2>()); break; }
    default: mergeRun3<AR>(gm, spec, e, sub, maxN, maxW);
    }
    if (Life::live) sim::fail("LIFE", "%ld states are still alive", Life::live);
}
template<int AR> static void mergeRun(bool sub, int maxN, int maxW) {
    Env e = drawEnv();
    AutoParam q = lively(drawDense(maxN, maxW), maxN); if (q.w > 12 && draw(2)) q.w = 4; noteParam(q);
    Auto A = makeAuto(AR, q); drawRoot(A);
    Machine m; m.A = &A; m.c.seed = draw(100000); m.mode = (int)draw(3);
    static const int lim[] = { 0, 3, 8, 15 }; m.c.limit = lim[draw(4)];
    int kind = (int)draw(3), hm = (int)draw(8); if (hm > 4 || gHuge) hm = 0; if (kind == 2 && gHuge) kind = 0;
    sim::note("mode=%d limit=%d kind=%d hash=%d sub=%d ", m.mode, m.c.limit, kind, hm, sub);
    if (kind == 1) mergeRun2<AR,1>(m, e, hm, sub, maxN, maxW);
    else if (kind == 2) mergeRun2<AR,2>(m, e, hm, sub, maxN, maxW);
    else mergeRun2<AR,0>(m, e, hm, sub, maxN, maxW);
}
WORKLOAD(merge2) { mergeRun<2>(false, 9, 12); }
WORKLOAD(merge3) { mergeRun<3>(false, 6, 12); }
WORKLOAD(merge2wide) { gHugeOk = draw(2) ? HUGE_WIDE : HUGE_300; mergeRun<2>(false, 12, 100); }
WORKLOAD(mergesub2) { mergeRun<2>(true, 8, 8); }
WORKLOAD(mergesub3) { mergeRun<3>(true, 5, 8); }
// The same runs with an account of all memory (P08).
static void released() { if (sim::liveSut()) { char b[200]; sim::listLive(b, sizeof b); sim::fail("LEAK", "%llu blocks (%llu bytes) are still allocated after everything was destroyed: %s", (ULL)sim::liveSut(), (ULL)sim::liveSutBytes(), b); } }
WORKLOAD(lifemerge2) { mergeRun<2>(false, 9, 12); released(); }
WORKLOAD(lifemergesub2) { mergeRun<2>(true, 8, 8); released(); }
WORKLOAD(merge12) { mergeRun<12>(false, 3, 6); }
