// A specification of a type chosen at run time, so that compositions can be nested freely.
#pragma once
#include "hist.hpp"

template<int AR> struct AnySpec : DdSpecBase<AnySpec<AR>, AR> {
    struct Base {
        virtual ~Base() {}
        virtual Base* clone() const = 0;
        virtual int datasize() const = 0;
        virtual int get_root(void*) = 0;
        virtual int get_child(void*, int, int) = 0;
        virtual void get_copy(void*, void const*) = 0;
        virtual int merge_states(void*, void*) = 0;
        virtual void destruct(void*) = 0;
        virtual void destructLevel(int) = 0;
        virtual size_t hash_code(void const*, int) const = 0;
        virtual bool equal_to(void const*, void const*, int) const = 0;
        virtual void print_state(std::ostream&, void const*, int) const = 0;
    };
    template<typename S> struct Impl : Base {
        S s; Impl(S const& s) : s(s) {}
        Base* clone() const { return new Impl(*this); }
        int datasize() const { return s.datasize(); }
        int get_root(void* p) { return s.get_root(p); }
        int get_child(void* p, int l, int b) { return s.get_child(p, l, b); }
        void get_copy(void* t, void const* f) { s.get_copy(t, f); }
        int merge_states(void* p, void* q) { return s.merge_states(p, q); }
        void destruct(void* p) { s.destruct(p); }
        void destructLevel(int l) { s.destructLevel(l); }
        size_t hash_code(void const* p, int l) const { return s.hash_code(p, l); }
        bool equal_to(void const* p, void const* q, int l) const { return s.equal_to(p, q, l); }
        void print_state(std::ostream& os, void const* p, int l) const { s.print_state(os, p, l); }
    };
    Base* b;
    template<typename S> static AnySpec of(S const& s) { AnySpec a; a.b = new Impl<S>(s); return a; }
    AnySpec() : b(0) {}
    AnySpec(AnySpec const& o) : b(o.b ? o.b->clone() : 0) {}
    AnySpec& operator=(AnySpec const& o) { Base* n = o.b ? o.b->clone() : 0; delete b; b = n; return *this; }
    ~AnySpec() { delete b; }
    int datasize() const { return b->datasize(); }
    int get_root(void* p) { return b->get_root(p); }
    int get_child(void* p, int l, int v) { return b->get_child(p, l, v); }
    void get_copy(void* t, void const* f) { b->get_copy(t, f); }
    int merge_states(void* p, void* q) { return b->merge_states(p, q); }
    void destruct(void* p) { b->destruct(p); }
    void destructLevel(int l) { b->destructLevel(l); }
    size_t hash_code(void const* p, int l) const { return b->hash_code(p, l); }
    bool equal_to(void const* p, void const* q, int l) const { return b->equal_to(p, q, l); }
    void print_state(std::ostream& os, void const* p, int l) const { b->print_state(os, p, l); }
};

// Expression trees over automata with their meaning under one reading of skipped levels.
template<int AR> struct Expr {
    Env& e; Canon& c; bool zdd; int maxN, maxW;
    std::vector<std::unique_ptr<Auto> > autos;
    std::vector<DdP<AR> > dds;
    struct Val { AnySpec<AR> s; int f; int full; };    // full: 1 + n if unreduced to at least n levels
    bool useDd, merge; int ops;
    std::vector<std::unique_ptr<LevelLog> >* logs = 0;      // not 0: all parts are SpecPool, one log each
    Expr(Env& e, Canon& c, int n, int w) : e(e), c(c), zdd(c.rule == ZDD_), maxN(n), maxW(w), useDd(true), merge(false), ops(0) {}
    void leaf(Val& v) {
        AutoParam q = draw(3) ? drawDense(maxN, maxW, draw(3) ? maxN : 0) : drawParam(maxN, maxW); noteParam(q);
        autos.emplace_back(new Auto(makeAuto(AR, q))); Auto& a = *autos.back(); drawRoot(a);
        v.f = c.fromAuto(a); v.full = 0;
        int kind = (int)draw(useDd ? 12 : 11), hm = (int)draw(8); if (hm > 4) hm = 0;
        if (logs) kind = 10;
        sim::note("leaf%d ", kind);
        int m = 1 + (int)draw(6);
        if (kind >= 8 && kind < 10 && !byteSized(a)) kind = 0;
        if (kind == 11) {        // a diagram as a specification
            SpecInt<AR> s(&a, hm); DdP<AR> d = mk<AR>(e, s, draw(2));
            if (draw(2)) op(e, [&] { if (zdd) d->zddReduce(); else d->bddReduce(); });
            SUT(v.s = AnySpec<AR>::of(*d)); dds.push_back(std::move(d)); return;
        }
        sim::Sut sut;
        switch (kind) {
        case 1: v.s = AnySpec<AR>::of(SpecObj<AR>(&a, hm)); break;
        case 2: v.s = AnySpec<AR>::of(SpecArr<AR, unsigned char>(&a, 1 + m)); break;
        case 3: v.s = AnySpec<AR>::of(SpecHybObj<AR>(&a, m)); break;
        case 4: v.s = AnySpec<AR>::of(SpecHyb<AR>(&a, m)); break;
        case 5: v.s = AnySpec<AR>::of(SpecArr<AR, int>(&a, 1 + m)); break;
        case 6: v.s = AnySpec<AR>::of(SpecLev<AR>(&a, hm)); break;
        case 7: v.s = AnySpec<AR>::of(SpecLevArr<AR>(&a, 1 + m, hm)); break;
        case 8: v.s = AnySpec<AR>::of(SpecByte<AR>(&a, hm)); break;
        case 9: v.s = AnySpec<AR>::of(SpecNine<AR>(&a, hm)); break;
        case 10: { LevelLog* log = 0; if (logs) { sim::Oracle o; log = new LevelLog; logs->emplace_back(log); } v.s = AnySpec<AR>::of(SpecPool<AR>(&a, hm, log)); break; }
        default: if (stateless(a)) v.s = AnySpec<AR>::of(SpecNone<AR>(&a)); else v.s = AnySpec<AR>::of(SpecInt<AR>(&a, hm)); break;
        }
    }
    void wrap(Val& v) {         // look-ahead or unreduction
        ++ops; int n = 0; bool la = draw(2) == 0; if (!la) n = (int)draw(maxN + 3);
        sim::note(la ? "look(" : "unred%d(", n);
        Val in; tree(in, 1); sim::note(") ");
        v.f = in.f; v.full = la ? 0 : 1 + n;
        sim::Sut sut;
        if (la) { if (zdd) v.s = AnySpec<AR>::of(zddLookahead(in.s)); else v.s = AnySpec<AR>::of(bddLookahead(in.s)); }
        else { if (zdd) v.s = AnySpec<AR>::of(zddUnreduction(in.s, n)); else v.s = AnySpec<AR>::of(bddUnreduction(in.s, n)); }
    }
    void tree(Val& v, int depth);
};
template<> inline void Expr<2>::tree(Val& v, int depth) {
    int k = depth <= 0 ? 0 : (int)draw(7);
    if (k == 0) { leaf(v); return; }
    if (k == 6) { wrap(v); return; }
    bool uni = k >= 4; bool three = k == 3 || k == 5; ++ops;
    sim::note("%s%d(", uni ? "or" : "and", three ? 3 : 2);
    Val x, y, z; tree(x, depth - 1); tree(y, depth - 1); if (three) tree(z, depth - 1 > 0 ? depth - 2 : 0);
    sim::note(") ");
    v.f = c.apply(x.f, y.f, uni); if (three) v.f = c.apply(v.f, z.f, uni);
    v.full = 0;
    sim::Sut sut;
    if (zdd) {
        if (uni) { if (three) v.s = AnySpec<2>::of(zddUnion(x.s, y.s, z.s)); else v.s = AnySpec<2>::of(zddUnion(x.s, y.s)); }
        else { if (three) v.s = AnySpec<2>::of(zddIntersection(x.s, y.s, z.s)); else v.s = AnySpec<2>::of(zddIntersection(x.s, y.s)); }
    }
    else {
        if (uni) { if (three) v.s = AnySpec<2>::of(bddOr(x.s, y.s, z.s)); else v.s = AnySpec<2>::of(bddOr(x.s, y.s)); }
        else { if (three) v.s = AnySpec<2>::of(bddAnd(x.s, y.s, z.s)); else v.s = AnySpec<2>::of(bddAnd(x.s, y.s)); }
    }
}
template<int AR> inline void Expr<AR>::tree(Val& v, int depth) { if (depth > 0 && draw(3)) wrap(v); else leaf(v); }
