// Histories of operations over several diagrams, with a reference model per diagram.
#pragma once
#include "common.hpp"

template<int AR> struct Hist {
    struct M { int q, b, z; size_t size; int red; };    // readings, node count, 0 none / 1 bdd / 2 zdd reduced
    struct Slot { DdP<AR> d; M m; };
    Env e; int maxN, maxW, maxSize;
    Canon cq, cb, cz;
    std::vector<Slot> S;
    size_t ops, big;
    std::map<std::pair<int,int>, int> mb2z, mz2b;
    Hist(Env const& e, int n, int w, int ms) : e(e), maxN(n), maxW(w), maxSize(ms), cq(QDD, AR), cb(BDD_, AR), cz(ZDD_, AR), ops(0), big(0) {}

    M snap(DdStructure<AR> const& d, int red) { M m; m.q = canonOf(cq, d, ""); m.b = canonOf(cb, d, ""); m.z = canonOf(cz, d, ""); m.size = d.size(); m.red = red; return m; }
    void verifyUnchanged(size_t k, const char* after) {
        Slot& s = S[k];
        SUT(checkTable(*s.d, "diagram"));
        if (s.d->size() != s.m.size) sim::fail("ISOLATION", "after %s on another diagram: diagram %d has %llu nodes instead of %llu", after, (int)k, (ULL)s.d->size(), (ULL)s.m.size);
        if (canonOf(cq, *s.d, "") != s.m.q) sim::fail("ISOLATION", "after %s on another diagram: diagram %d represents another function", after, (int)k);
    }
    void others(size_t k, const char* after) { for (size_t i = 0; i < S.size(); ++i) if (i != k) verifyUnchanged(i, after); }
    void expect(DdStructure<AR> const& d, Canon& c, int want, const char* what) { checkCanon(d, c, want, what); }

    int b2z(int f, int lev) {
        if (lev == 0) return f;
        std::pair<int,int> k(f, lev); auto it = mb2z.find(k); if (it != mb2z.end()) return it->second;
        VI c(AR); for (int b = 0; b < AR; ++b) c[b] = b2z(cb.level(f) == lev ? cb.child(f, b) : f, lev - 1);
        return mb2z[k] = cz.make(lev, c.data());
    }
    int z2b(int f, int lev) {
        if (lev == 0) return f;
        std::pair<int,int> k(f, lev); auto it = mz2b.find(k); if (it != mz2b.end()) return it->second;
        VI c(AR); for (int b = 0; b < AR; ++b) c[b] = cz.level(f) == lev ? z2b(cz.child(f, b), lev - 1) : b ? 0 : z2b(f, lev - 1);
        return mz2b[k] = cb.make(lev, c.data());
    }
    Auto drawAuto(int n = 0) {
        AutoParam q = n || draw(3) ? drawDense(maxN, maxW, n) : drawParam(maxN, maxW); noteParam(q);
        Auto a = makeAuto(AR, q); drawRoot(a); return a;
    }
    void put(DdP<AR> d, M m) { Slot s; s.d = std::move(d); s.m = m; S.push_back(std::move(s)); if (m.size > 3) ++big; }
    void build() {
        Auto a = drawAuto(); bool mp = draw(2) == 0; DdP<AR> d;
        sim::note("build%s ", mp ? "/mp" : "");
        withSpec<AR>(a, [&](auto const& spec) { d = mk<AR>(e, spec, mp); });
        M m; m.q = cq.fromAuto(a); m.b = cb.fromAuto(a); m.z = cz.fromAuto(a); m.red = 0;
        expect(*d, cq, m.q, "built diagram"); expect(*d, cb, m.b, "built diagram"); expect(*d, cz, m.z, "built diagram");
        m.size = d->size(); put(std::move(d), m); others(S.size() - 1, "construction");
    }
    void universal() {
        int n = (int)draw(maxN + 1); DdP<AR> d; sim::note("universal(%d) ", n);
        op(e, [&] { d.reset(draw(4) == 3 ? new DdStructure<AR>() : new DdStructure<AR>(n, false)); });
        M m = snap(*d, 0);
        if (d->size() == 0 && d->root() == NodeId(0)) {}        // default constructed: the 0-terminal
        else { int f = 1; VI c(AR); for (int i = 1; i <= n; ++i) { for (int b = 0; b < AR; ++b) c[b] = f; f = cz.make(i, c.data()); } if (m.z != f) sim::fail("MEANING", "DdStructure(%d) is not the universal family", n); }
        put(std::move(d), m);
    }
    void reduce(size_t k) {
        Slot& s = S[k]; int kind = (int)draw(3);
        s.d->useMultiProcessors(draw(2) == 0);
        sim::note("%s(%d) ", kind == 0 ? "zddReduce" : kind == 1 ? "bddReduce" : "qddReduce", (int)k);
        op(e, [&] { if (kind == 0) s.d->zddReduce(); else if (kind == 1) s.d->bddReduce(); else s.d->qddReduce(); });
        if (kind == 0) { expect(*s.d, cz, s.m.z, "zdd-reduced diagram"); checkMinimal(*s.d, cz, s.m.z, "zdd-reduced diagram"); }
        else if (kind == 1) { expect(*s.d, cb, s.m.b, "bdd-reduced diagram"); checkMinimal(*s.d, cb, s.m.b, "bdd-reduced diagram"); }
        else expect(*s.d, cq, s.m.q, "qdd-reduced diagram");
        s.m = snap(*s.d, kind == 0 ? 2 : kind == 1 ? 1 : 0);
        others(k, "a reduction");
    }
    void subsetSpec(size_t k) {
        Slot& s = S[k]; Auto a = drawAuto(draw(3) ? std::max(1, s.d->topLevel()) : 0);
        s.d->useMultiProcessors(draw(2) == 0); sim::note("subset(%d) ", (int)k);
        int want = cz.apply(s.m.z, cz.fromAuto(a), false);
        withSpec<AR>(a, [&](auto const& spec) { op(e, [&] { s.d->zddSubset(spec); }); });
        expect(*s.d, cz, want, "subset"); s.m = snap(*s.d, 0); others(k, "subsetting");
    }
    void subsetDd(size_t k, size_t j) {     // j may be k
        Slot& s = S[k]; sim::note("subset(%d by %d) ", (int)k, (int)j);
        s.d->useMultiProcessors(draw(2) == 0);
        int want = cz.apply(s.m.z, S[j].m.z, false);
        op(e, [&] { s.d->zddSubset(*S[j].d); });
        expect(*s.d, cz, want, "subset by a diagram"); s.m = snap(*s.d, 0); others(k, "subsetting by a diagram");
    }
    void convert(size_t k) {
        Slot& s = S[k]; bool toZ = draw(2) == 0; int nv = (int)draw(maxN + 3);
        int n = std::max(nv, toZ ? s.d->topLevel() : s.d->topLevel());
        s.d->useMultiProcessors(draw(2) == 0); DdP<AR> d;
        sim::note("%s(%d,%d) ", toZ ? "bdd2zdd" : "zdd2bdd", (int)k, nv);
        op(e, [&] { d.reset(new DdStructure<AR>(toZ ? s.d->bdd2zdd(nv) : s.d->zdd2bdd(nv))); });
        if (toZ) expect(*d, cz, b2z(s.m.b, n), "bdd2zdd result"); else expect(*d, cb, z2b(s.m.z, n), "zdd2bdd result");
        verifyUnchanged(k, "conversion");
        put(std::move(d), M()); S.back().m = snap(*S.back().d, 0);
        others(S.size() - 1, "conversion");
    }
    void compare(size_t k, size_t j) {
        bool eq = false, ne = false, re = false; sim::note("cmp(%d,%d) ", (int)k, (int)j);
        op(e, [&] { eq = *S[k].d == *S[j].d; ne = *S[k].d != *S[j].d; re = *S[j].d == *S[k].d; });
        if (eq == ne) sim::fail("COMPARE", "== and != agree");
        M& a = S[k].m; M& b = S[j].m;
        if (a.red && a.red == b.red) {
            bool want = a.red == 1 ? a.b == b.b : a.z == b.z;
            if (eq != want || re != want) sim::fail("COMPARE", "== of two reduced diagrams is %d/%d, their functions are %s", eq, re, want ? "equal" : "different");
        }
        else if ((eq || re) && a.q != b.q) sim::fail("COMPARE", "== holds for diagrams of different structure");
        if (k == j && !eq) sim::fail("COMPARE", "a diagram is not equal to itself");
        sim::ev(eq);
        others(S.size(), "comparison");
    }
    void count(size_t k) {
        Slot& s = S[k]; bool mp = draw(2) == 0; s.d->useMultiProcessors(mp); std::string z, b; int nv = s.d->topLevel() + (int)draw(4) * (int)draw(5);
        sim::note("count(%d,%d) ", (int)k, nv);
        op(e, [&] { z = s.d->zddCardinality(); b = s.d->bddCardinality(nv); });
        std::string wz = cz.cardinality(s.m.z, 0), wb = cb.cardinality(s.m.b, nv);
        if (z != wz) sim::fail("COUNT", "zddCardinality() is %s, the family has %s members", z.c_str(), wz.c_str());
        if (b != wb) sim::fail("COUNT", "bddCardinality(%d) is %s, the function has %s minterms", nv, b.c_str(), wb.c_str());
        others(S.size(), "counting");
    }
    void copy(size_t k) {
        DdP<AR> d; sim::note("copy(%d) ", (int)k);
        op(e, [&] { d.reset(new DdStructure<AR>(*S[k].d)); });
        put(std::move(d), S[k].m); others(S.size(), "copying");
    }
    void assign(size_t k, size_t j) {      // S[k] = S[j]
        sim::note("assign(%d=%d) ", (int)k, (int)j);
        op(e, [&] { *S[k].d = *S[j].d; }); S[k].m = S[j].m; others(S.size(), "assignment");
    }
    void viaVector() {      // copies through a growing container, then back
        sim::note("vector ");
        op(e, [&] { std::vector<DdStructure<AR> > v; for (size_t i = 0; i < S.size(); ++i) v.push_back(*S[i].d); for (size_t i = 0; i < S.size(); ++i) *S[i].d = v[i]; });
        others(S.size(), "copying through a container");
    }
    void swap2(size_t k, size_t j) { sim::note("swap(%d,%d) ", (int)k, (int)j); op(e, [&] { std::swap(*S[k].d, *S[j].d); }); std::swap(S[k].m, S[j].m); others(S.size(), "swap"); }
    void destroy(size_t k) { sim::note("destroy(%d) ", (int)k); SUT(S[k].d.reset()); S.erase(S.begin() + k); others(S.size(), "destruction"); }
    void tableHandle(size_t k) {       // node table handles share the table as well
        sim::note("handle(%d) ", (int)k);
        op(e, [&] { NodeTableHandler<AR> h(S[k].d->getDiagram()); NodeTableHandler<AR> h2; h2 = h; h = h2; h2.init(3); S[k].d->getDiagram() = h; });
        others(S.size(), "handle operations");
    }
    size_t pick() { return draw(S.size()); }
    void clear() { SUT(for (size_t i = 0; i < S.size(); ++i) S[i].d.reset()); S.clear(); }
};
