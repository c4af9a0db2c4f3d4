// Stand-in for the CUDD library, with the part of its interface the programs use: reduced ordered diagrams with
// complemented edges and reference counts.  Like the original it is not made for several threads: two calls that touch
// the node table or a count and overlap are reported, as is the use of a node that nothing refers to (the original
// would have collected it) and a count that falls below nothing.  Looking at a node (its index, its children, the
// constants) is free to happen at any time.
#pragma once
#include "../common.hpp"

struct DdNode { unsigned index; int ref; DdNode *T, *E; };
struct DdManager { int unused; };
#define CUDD_UNIQUE_SLOTS 256
#define CUDD_CACHE_SLOTS 262144
#define CUDD_CONST_INDEX 0x7fffffffu
enum Cudd_ReorderingType { CUDD_REORDER_SAME, CUDD_REORDER_NONE, CUDD_REORDER_SIFT = 4 };

#define Cudd_Not(n) ((DdNode*)((uintptr_t)(n) ^ 1))
#define Cudd_NotCond(n, c) ((DdNode*)((uintptr_t)(n) ^ (uintptr_t)(c)))
#define Cudd_Regular(n) ((DdNode*)((uintptr_t)(n) & ~(uintptr_t)1))
#define Cudd_Complement(n) ((DdNode*)((uintptr_t)(n) | 1))
#define Cudd_IsComplement(n) ((int)((uintptr_t)(n) & 1))
#define Cudd_IsConstant(n) (Cudd_Regular(n)->index == CUDD_CONST_INDEX)
#define Cudd_T(n) (Cudd_Regular(n)->T)
#define Cudd_E(n) (Cudd_Regular(n)->E)
inline unsigned Cudd_NodeReadIndex(DdNode* n) { return Cudd_Regular(n)->index; }

namespace cudd {
enum { POOL = 1 << 17 };
static DdNode pool[POOL];               // addresses are the same in every run: the programs hash them
typedef DdNode* N;
struct World {
    int used, busy; long outside; volatile int pad[4]; size_t peak;
    std::map<std::pair<unsigned, std::pair<N, N> >, N> uniq; std::vector<N> var; VI posOf; std::vector<unsigned> order;
    World() : used(1), busy(0), outside(0), peak(0) { for (int i = 0; i < 4; ++i) pad[i] = 0; pool[0].index = CUDD_CONST_INDEX; pool[0].ref = 1; pool[0].T = pool[0].E = 0; }
    N one() { return pool; }
    int pos(N f) { f = Cudd_Regular(f); return f->index == CUDD_CONST_INDEX ? INT_MAX : posOf[f->index]; }
    N make(unsigned i, N t, N e) {
        if (t == e) return t;
        if (Cudd_IsComplement(t)) { N r = make(i, Cudd_Not(t), Cudd_Not(e)); return Cudd_Not(r); }
        N& n = uniq[std::make_pair(i, std::make_pair(t, e))];
        if (!n) { if (used == POOL) sim::reject("the stand-in for CUDD is full"); n = pool + used++; n->index = i; n->ref = 0; n->T = t; n->E = e; }
        return n;
    }
    N newVar(size_t at) {
        unsigned i = (unsigned)var.size(); order.insert(order.begin() + std::min(at, order.size()), i); posOf.resize(i + 1);
        for (size_t k = 0; k < order.size(); ++k) posOf[order[k]] = (int)k;
        N v = make(i, one(), Cudd_Not(one())); up(v); var.push_back(v); return v;
    }
    N cof(N f, int p, bool b) { if (pos(f) != p) return f; return Cudd_NotCond(b ? Cudd_T(f) : Cudd_E(f), Cudd_IsComplement(f)); }
    void up(N f) { std::vector<N> s(1, f); while (!s.empty()) { N n = Cudd_Regular(s.back()); s.pop_back(); if (n->ref++ == 0 && n != one()) { s.push_back(n->T); s.push_back(n->E); } } }
    void down(N f) {
        std::vector<N> s(1, f);
        while (!s.empty()) { N n = Cudd_Regular(s.back()); s.pop_back(); if (n->ref <= 0) sim::fail("LIFE", "a CUDD node is given up more often than it was taken"); if (--n->ref == 0 && n != one()) { s.push_back(n->T); s.push_back(n->E); } }
    }
    typedef std::map<std::pair<N, std::pair<N, N> >, N> Memo3; typedef std::map<std::pair<N, N>, N> Memo2; typedef std::map<N, N> Memo1;
    N ite(N f, N g, N h, Memo3& m) {
        if (f == one()) return g; if (f == Cudd_Not(one())) return h; if (g == h) return g; if (g == one() && h == Cudd_Not(one())) return f; if (h == one() && g == Cudd_Not(one())) return Cudd_Not(f);
        std::pair<N, std::pair<N, N> > k(f, std::make_pair(g, h)); Memo3::iterator it = m.find(k); if (it != m.end()) return it->second;
        int p = std::min(pos(f), std::min(pos(g), pos(h)));
        N t = ite(cof(f, p, 1), cof(g, p, 1), cof(h, p, 1), m), e = ite(cof(f, p, 0), cof(g, p, 0), cof(h, p, 0), m);
        return m[k] = make(order[p], t, e);
    }
    N ite(N f, N g, N h) { Memo3 m; return ite(f, g, h, m); }
    N exist(N f, N cube, Memo2& m) {
        while (pos(cube) < pos(f)) cube = cof(cube, pos(cube), 1);
        if (Cudd_IsConstant(f) || Cudd_IsConstant(cube)) return f;
        std::pair<N, N> k(f, cube); Memo2::iterator it = m.find(k); if (it != m.end()) return it->second;
        int p = pos(f); N t = exist(cof(f, p, 1), cube, m), e = exist(cof(f, p, 0), cube, m);
        return m[k] = pos(cube) == p ? ite(t, one(), e) : make(order[p], t, e);
    }
    N constrain(N f, N c, Memo2& m) {
        N zero = Cudd_Not(one());
        if (c == one() || Cudd_IsConstant(f)) return f; if (c == zero) return zero;
        std::pair<N, N> k(f, c); Memo2::iterator it = m.find(k); if (it != m.end()) return it->second;
        int p = std::min(pos(f), pos(c)); N c1 = cof(c, p, 1), c0 = cof(c, p, 0), r;
        if (c1 == zero) r = constrain(cof(f, p, 0), c0, m); else if (c0 == zero) r = constrain(cof(f, p, 1), c1, m);
        else r = make(order[p], constrain(cof(f, p, 1), c1, m), constrain(cof(f, p, 0), c0, m));
        return m[k] = r;
    }
    N compose(N f, N* v, Memo1& m) {
        if (Cudd_IsConstant(f)) return f;
        Memo1::iterator it = m.find(f); if (it != m.end()) return it->second;
        int p = pos(f); N t = compose(cof(f, p, 1), v, m), e = compose(cof(f, p, 0), v, m);
        return m[f] = ite(v[Cudd_Regular(f)->index], t, e);
    }
    void reach(N f, std::set<N>& s) { f = Cudd_Regular(f); if (!s.insert(f).second || f == one()) return; reach(f->T, s); reach(f->E, s); }
    double density(N f, std::map<N, double>& m) {
        bool c = Cudd_IsComplement(f); f = Cudd_Regular(f); double d = 1;
        if (f != one()) { std::map<N, double>::iterator it = m.find(f); if (it != m.end()) d = it->second; else d = m[f] = (density(f->T, m) + density(f->E, m)) / 2; }
        return c ? 1 - d : d;
    }
};
inline World* w;
struct Call {
    sim::Oracle* o; char mem[sizeof(sim::Oracle)];
    Call() {
        if (w->busy) sim::fail("SHARED", "CUDD is entered by a worker while another one is inside");
        w->busy = 1; for (int i = 0; i < 4; ++i) w->pad[i]++;
        o = new (mem) sim::Oracle();
    }
    ~Call() { o->~Oracle(); for (int i = 0; i < 4; ++i) w->pad[i]++; w->busy = 0; }
    N in(N f) { if (!f) sim::fail("LIFE", "CUDD is called without a node"); if (Cudd_Regular(f)->ref <= 0) sim::fail("LIFE", "a CUDD node that nothing refers to is used"); return f; }
};
} // namespace cudd

inline DdManager* Cudd_Init(unsigned, unsigned, unsigned, unsigned, unsigned long) { static DdManager m; return &m; }
inline int Cudd_ReadSize(DdManager*) { return (int)cudd::w->var.size(); }
inline DdNode* Cudd_ReadOne(DdManager*) { return cudd::w->one(); }
inline DdNode* Cudd_ReadLogicZero(DdManager*) { return Cudd_Not(cudd::w->one()); }
inline DdNode* Cudd_bddNewVarAtLevel(DdManager*, int l) { cudd::Call c; return cudd::w->newVar(l); }
inline DdNode* Cudd_bddNewVar(DdManager*) { cudd::Call c; return cudd::w->newVar(cudd::w->order.size()); }
inline DdNode* Cudd_bddIthVar(DdManager*, int i) { cudd::Call c; while ((int)cudd::w->var.size() <= i) cudd::w->newVar(cudd::w->order.size()); return cudd::w->var[i]; }
inline void Cudd_Ref(DdNode* f) { cudd::Call c; if (!f) sim::fail("LIFE", "CUDD is called without a node"); ++cudd::w->outside; cudd::w->up(f); }
inline void Cudd_RecursiveDeref(DdManager*, DdNode* f) { cudd::Call c; --cudd::w->outside; cudd::w->down(f); }
inline void Cudd_Deref(DdNode* f) { cudd::Call c; --cudd::w->outside; cudd::w->down(f); }
inline DdNode* Cudd_bddIte(DdManager*, DdNode* f, DdNode* g, DdNode* h) { cudd::Call c; return cudd::w->ite(c.in(f), c.in(g), c.in(h)); }
inline DdNode* Cudd_bddAnd(DdManager* m, DdNode* f, DdNode* g) { cudd::Call c; return cudd::w->ite(c.in(f), c.in(g), Cudd_ReadLogicZero(m)); }
inline DdNode* Cudd_bddOr(DdManager* m, DdNode* f, DdNode* g) { cudd::Call c; return cudd::w->ite(c.in(f), Cudd_ReadOne(m), c.in(g)); }
inline DdNode* Cudd_bddXor(DdManager*, DdNode* f, DdNode* g) { cudd::Call c; return cudd::w->ite(c.in(f), Cudd_Not(c.in(g)), g); }
inline int Cudd_bddLeq(DdManager* m, DdNode* f, DdNode* g) { cudd::Call c; return cudd::w->ite(c.in(f), c.in(g), Cudd_ReadOne(m)) == Cudd_ReadOne(m); }
inline DdNode* Cudd_bddExistAbstract(DdManager*, DdNode* f, DdNode* cube) { cudd::Call c; cudd::World::Memo2 m; return cudd::w->exist(c.in(f), c.in(cube), m); }
inline DdNode* Cudd_bddAndAbstract(DdManager* d, DdNode* f, DdNode* g, DdNode* cube) { cudd::Call c; cudd::World::Memo2 m; return cudd::w->exist(cudd::w->ite(c.in(f), c.in(g), Cudd_ReadLogicZero(d)), c.in(cube), m); }
inline DdNode* Cudd_bddConstrain(DdManager*, DdNode* f, DdNode* g) { cudd::Call c; cudd::World::Memo2 m; return cudd::w->constrain(c.in(f), c.in(g), m); }
inline DdNode* Cudd_bddMinimize(DdManager* d, DdNode* f, DdNode* g) { return Cudd_bddConstrain(d, f, g); }
inline DdNode* Cudd_Cofactor(DdManager* d, DdNode* f, DdNode* g) { return Cudd_bddConstrain(d, f, g); }
inline DdNode* Cudd_bddVectorCompose(DdManager*, DdNode* f, DdNode** v) { cudd::Call c; for (size_t i = 0; i < cudd::w->var.size(); ++i) c.in(v[i]); cudd::World::Memo1 m; return cudd::w->compose(c.in(f), v, m); }
inline DdNode* Cudd_Support(DdManager*, DdNode* f) {
    cudd::Call c; std::set<DdNode*> s; cudd::w->reach(c.in(f), s); std::set<unsigned> x; for (DdNode* n : s) if (n != cudd::w->one()) x.insert(n->index);
    DdNode* r = cudd::w->one(); for (size_t p = cudd::w->order.size(); p-- > 0;) if (x.count(cudd::w->order[p])) r = cudd::w->make(cudd::w->order[p], r, Cudd_Not(cudd::w->one()));
    return r;
}
inline int Cudd_bddVarIsDependent(DdManager* d, DdNode* f, DdNode* v) {      // is v a function of the others wherever f holds
    cudd::Call c; cudd::World::Memo2 m, n; DdNode *a = cudd::w->constrain(c.in(f), c.in(v), m), *b = cudd::w->constrain(f, Cudd_Not(v), n);
    return cudd::w->ite(a, b, Cudd_ReadLogicZero(d)) == Cudd_ReadLogicZero(d);
}
inline int Cudd_DagSize(DdNode* f) { cudd::Call c; std::set<DdNode*> s; cudd::w->reach(c.in(f), s); return (int)s.size(); }
inline int Cudd_SharingSize(DdNode** v, int n) { cudd::Call c; std::set<DdNode*> s; for (int i = 0; i < n; ++i) cudd::w->reach(c.in(v[i]), s); return (int)s.size(); }
inline double Cudd_CountMinterm(DdManager*, DdNode* f, int n) { cudd::Call c; std::map<DdNode*, double> m; return ldexp(cudd::w->density(c.in(f), m), n); }
inline long Cudd_ReadPeakLiveNodeCount(DdManager*) { return cudd::w->used; }
inline int Cudd_ReduceHeap(DdManager*, Cudd_ReorderingType, int) { return 1; }
