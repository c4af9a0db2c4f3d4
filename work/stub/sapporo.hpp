// Stand-in for the SAPPOROBDD library, with the part of its interface TdZdd uses.  Functions are held by
// the reference diagrams of common.hpp.  Like the original it has one global node table and is not made
// for several threads: two calls that overlap are reported.
#pragma once
#include "../common.hpp"

namespace sap {
struct World {
    Canon z, b; VI varOfLev, levOfVar;     // both 1-based
    int busy, owner; long live; volatile int pad[4];
    World() : z(ZDD_, 2), b(BDD_, 2), varOfLev(1, 0), levOfVar(1, 0), busy(0), owner(0), live(0) { for (int i = 0; i < 4; ++i) pad[i] = 0; }
    void insert(int lev) {                  // a new variable at that level; the ones above move up
        int v = (int)levOfVar.size(); levOfVar.push_back(lev); varOfLev.insert(varOfLev.begin() + lev, v);
        for (size_t l = 1; l < varOfLev.size(); ++l) levOfVar[varOfLev[l]] = (int)l;
    }
};
inline World* w;
struct Call {
    sim::Oracle* o; char mem[sizeof(sim::Oracle)];
    Call() {
        if (w->busy) sim::fail("SHARED", "SAPPOROBDD is entered by a worker while another one is inside");
        w->busy = 1; for (int i = 0; i < 4; ++i) w->pad[i]++;
        o = new (mem) sim::Oracle();
    }
    ~Call() { o->~Oracle(); for (int i = 0; i < 4; ++i) w->pad[i]++; w->busy = 0; }
};
typedef std::map<int,int> Memo;
inline int toggle(Canon& c, int f, int l, Memo& m) {
    if (c.level(f) < l) { int k[2] = { 0, f }; return c.make(l, k); }
    if (c.level(f) == l) { int k[2] = { c.child(f, 1), c.child(f, 0) }; return c.make(l, k); }
    Memo::iterator it = m.find(f); if (it != m.end()) return it->second;
    int k[2] = { toggle(c, c.child(f, 0), l, m), toggle(c, c.child(f, 1), l, m) };
    return m[f] = c.make(c.level(f), k);
}
inline int cofactor(Canon& c, int f, int l, int b, Memo& m) {      // ZDD and BDD by c.rule
    if (c.level(f) <= l) return c.cof(f, l, b);
    Memo::iterator it = m.find(f); if (it != m.end()) return it->second;
    int k[2] = { cofactor(c, c.child(f, 0), l, b, m), cofactor(c, c.child(f, 1), l, b, m) };
    return m[f] = c.make(c.level(f), k);
}
inline int negate(Canon& c, int f, Memo& m) {
    if (f < 2) return !f;
    Memo::iterator it = m.find(f); if (it != m.end()) return it->second;
    int k[2] = { negate(c, c.child(f, 0), m), negate(c, c.child(f, 1), m) };
    return m[f] = c.make(c.level(f), k);
}
struct Handle {         // reference-counted in the original: making, copying and dropping one touches the table
    uint32_t magic; int id;
    void up() { Call c; ++w->live; magic = 0x5A99; }
    void alive() const { if (magic != 0x5A99) sim::fail("LIFE", "a SAPPOROBDD handle that is not alive is used"); }
    explicit Handle(int id) : id(id) { up(); }
    Handle(Handle const& o) : id(o.id) { o.alive(); up(); }
    Handle& operator=(Handle const& o) { alive(); o.alive(); Call c; id = o.id; return *this; }
    ~Handle() { alive(); Call c; --w->live; magic = 0xDEAD; }
};
} // namespace sap

inline int BDD_Init(uint64_t, uint64_t) { sap::Call c; if (sap::w->levOfVar.size() > 1) sim::fail("SAPPORO", "the library is initialised again after variables were made"); return 0; }
inline int BDD_VarUsed() { sap::Call c; return (int)sap::w->levOfVar.size() - 1; }
inline int BDD_NewVar() { sap::Call c; sap::w->insert((int)sap::w->varOfLev.size()); return (int)sap::w->levOfVar.size() - 1; }
inline int BDD_LevOfVar(int v) { sap::Call c; if (v < 0 || v >= (int)sap::w->levOfVar.size()) sim::fail("SAPPORO", "level of a variable %d that does not exist", v); return sap::w->levOfVar[v]; }
inline int BDD_VarOfLev(int l) { sap::Call c; if (l < 0 || l >= (int)sap::w->varOfLev.size()) sim::fail("SAPPORO", "variable of a level %d that does not exist", l); return sap::w->varOfLev[l]; }

class ZBDD : public sap::Handle {
    static int lev(int v) { if (v < 1 || v >= (int)sap::w->levOfVar.size()) sim::fail("SAPPORO", "operation on a variable %d that does not exist", v); return sap::w->levOfVar[v]; }
public:
    ZBDD() : Handle(0) {}
    explicit ZBDD(int v) : Handle(v ? 1 : 0) {}
    static ZBDD of(int id) { ZBDD f; f.id = id; return f; }
    ZBDD& operator+=(ZBDD const& g) { alive(); g.alive(); sap::Call c; id = sap::w->z.apply(id, g.id, true); return *this; }
    ZBDD Change(int v) const { alive(); int r; { sap::Call c; sap::Memo m; r = sap::toggle(sap::w->z, id, lev(v), m); } return of(r); }
    ZBDD OffSet(int v) const { alive(); int r; { sap::Call c; sap::Memo m; r = sap::cofactor(sap::w->z, id, lev(v), 0, m); } return of(r); }
    ZBDD OnSet0(int v) const { alive(); int r; { sap::Call c; sap::Memo m; r = sap::cofactor(sap::w->z, id, lev(v), 1, m); } return of(r); }
    int Top() const { alive(); sap::Call c; return sap::w->varOfLev[sap::w->z.level(id)]; }
    uint64_t GetID() { alive(); sap::Call c; return id; }
    uint64_t Size() { alive(); sap::Call c; return sap::w->z.count(id); }
    bool operator==(ZBDD const& o) const { alive(); o.alive(); return id == o.id; }
    bool operator==(int v) const { alive(); return id == v; }
};
class BDD : public sap::Handle {
    static int lev(int v) { if (v < 1 || v >= (int)sap::w->levOfVar.size()) sim::fail("SAPPORO", "operation on a variable %d that does not exist", v); return sap::w->levOfVar[v]; }
public:
    BDD() : Handle(0) {}
    explicit BDD(int v) : Handle(v ? 1 : 0) {}
    static BDD of(int id) { BDD f; f.id = id; return f; }
    BDD operator&(BDD const& g) const { alive(); g.alive(); int r; { sap::Call c; r = sap::w->b.apply(id, g.id, false); } return of(r); }
    BDD operator|(BDD const& g) const { alive(); g.alive(); int r; { sap::Call c; r = sap::w->b.apply(id, g.id, true); } return of(r); }
    BDD operator~() const { alive(); int r; { sap::Call c; sap::Memo m; r = sap::negate(sap::w->b, id, m); } return of(r); }
    BDD At0(int v) const { alive(); int r; { sap::Call c; sap::Memo m; r = sap::cofactor(sap::w->b, id, lev(v), 0, m); } return of(r); }
    BDD At1(int v) const { alive(); int r; { sap::Call c; sap::Memo m; r = sap::cofactor(sap::w->b, id, lev(v), 1, m); } return of(r); }
    int Top() const { alive(); sap::Call c; return sap::w->varOfLev[sap::w->b.level(id)]; }
    uint64_t GetID() { alive(); sap::Call c; return id; }
    bool operator==(BDD const& o) const { alive(); o.alive(); return id == o.id; }
    bool operator==(int v) const { alive(); return id == v; }
};
inline BDD BDDvar(int v) { int r; { sap::Call c; if (v < 1 || v >= (int)sap::w->levOfVar.size()) sim::fail("SAPPORO", "variable %d does not exist", v); int k[2] = { 0, 1 }; r = sap::w->b.make(sap::w->levOfVar[v], k); } return BDD::of(r); }
