// P23: the containers of include/tdzdd/util under random histories and failing allocations.
#undef NDEBUG        // the assertions of the containers are part of the check
#include <cassert>
#include "common.hpp"
#include <tdzdd/util/MySet.hpp>
#include <tdzdd/util/BigNumber.hpp>
#include <tdzdd/dd/DataTable.hpp>
#include <sstream>

static bool gFaults;
// Runs fn in library scope, sometimes with a failing allocation; false if it failed and said so.
template<typename F> static bool act(F fn) {
    bool arm = gFaults && draw(5) == 4; uint64_t at = arm ? 1 + draw(3) : 0, len = arm && draw(2) ? 1000000000 : 1;
    bool ok = false;
    try { sim::Sut s; if (arm) sim::allocFailAt(at, len); fn(); ok = true; }
    catch (std::bad_alloc&) { sim::Oracle o; }
    bool af = arm && sim::allocFailed(); sim::allocFailAt(0);
    if (!ok && !af) sim::fail("EXCEPTION", "bad_alloc although no allocation failed");
    if (ok && af) sim::fail("EXCEPTION", "a failed allocation was not reported to the caller");
    if (!ok) { sim::note("-> failed "); sim::nontrivial(); }
    sim::ev(ok);
    return ok;
}
static void accounts() {
    if (Life::live) sim::fail("LIFE", "%ld elements are alive at the end", Life::live);
    if (sim::liveSut()) { char b[200]; sim::listLive(b, sizeof b); sim::fail("LEAK", "%llu blocks are still allocated at the end: %s", (ULL)sim::liveSut(), b); }
}
template<typename V, typename E> static void put(V& v, E e) { sim::Oracle o; v.push_back(e); if (v.size() > 100000) sim::fail("ENDLESS", "an iteration does not end"); }
// both comparisons of two iterators
template<typename I, typename J> static bool more(I const& t, J const& e) { bool a = t != e, b = t == e; if (a == b) { sim::Oracle o; sim::fail("ITERATOR", "== and != of two iterators are both %s", a ? "true" : "false"); } return a; }
static std::string braces(VI const& v, char a, char z) { std::string s(1, a); for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += std::to_string(v[i]); } return s + z; }

// ---------------------------------------------------------------- elements
template<typename E> struct El;
template<> struct El<int> { static int mk(int v) { return v; } static int val(int e) { return e; } };
template<> struct El<Obj> { static Obj mk(int v) { Obj o; o.set(v); return o; } static int val(Obj const& e) { return e.get(); } };
template<> struct El<Nine> { static Nine mk(int v) { Nine o; o.set(v & 255); return o; } static int val(Nine const& e) { return e.get(); } };

// ---------------------------------------------------------------- MyVector
template<typename E> struct Vecs {
    typedef MyVector<E> V; typedef El<E> X;
    std::vector<std::unique_ptr<V> > v; std::vector<VI> m;
    int value() { return 1 + (int)draw(200); }
    void check(size_t k, const char* what) {
        V& x = *v[k]; VI const& w = m[k]; VI f, b; std::string txt;
        if (x.size() != w.size() || x.empty() != w.empty() || x.capacity() < w.size()) sim::fail("VECTOR", "after %s the size is %llu instead of %llu", what, (ULL)x.size(), (ULL)w.size());
        { sim::Sut s; V const& c = x; std::ostringstream os; if (draw(4) == 3) { os << c; sim::Oracle o; txt = os.str(); }
          for (typename V::const_iterator t = c.begin(); more(t, c.end()); ++t) { int e = X::val(*t); put(f, e); }
          if (w.size()) for (typename V::reverse_iterator t = x.rbegin(); more(t, x.rend()); ++t) { int e = X::val(*t); put(b, e); } }
        if (!txt.empty() && txt != braces(w, '(', ')')) sim::fail("VECTOR", "after %s the vector is printed as %s", what, txt.c_str());
        if (f != w) sim::fail("VECTOR", "after %s the elements are %s instead of %s", what, braces(f, '(', ')').substr(0, 300).c_str(), braces(w, '(', ')').substr(0, 300).c_str());
        std::reverse(b.begin(), b.end()); if (b != w) sim::fail("VECTOR", "after %s reverse iteration gives other elements", what);
        if (w.size() && draw(2)) {      // the other kinds of access
            VI fm, bc; { sim::Sut s; V const& c = x; for (typename V::iterator t = x.begin(); more(t, x.end()); ++t) { int e = X::val(*t); put(fm, e); } for (typename V::const_reverse_iterator t = c.rbegin(); more(t, c.rend()); ++t) { int e = X::val(*t.operator->()); put(bc, e); } }
            std::reverse(bc.begin(), bc.end()); if (fm != w || bc != w) sim::fail("VECTOR", "after %s iteration (%s) gives other elements", what, fm != w ? "writable" : "constant, reverse");
            V const& c = x; size_t i = draw(w.size()); int e, l, d; SUT(e = X::val(c[i]); l = X::val(c.back()); d = X::val(c.data()[i])); if (e != w[i] || l != w.back() || d != w[i]) sim::fail("VECTOR", "after %s element %llu of the constant vector is wrong", what, (ULL)i);
        }
        if (w.size()) { size_t i = draw(w.size()); int e, l; SUT(e = X::val(x[i]); l = X::val(x.back())); if (e != w[i] || l != w.back()) sim::fail("VECTOR", "after %s element %llu is wrong", what, (ULL)i); }
    }
    void lost(size_t k) {      // after a failure: clear, assign or destroy
        switch (draw(3)) {
        case 0: SUT(v[k]->clear()); m[k].clear(); break;
        case 1: { size_t j = draw(v.size()); if (j == k) { SUT(v[k]->clear()); m[k].clear(); } else { SUT(*v[k] = *v[j]); m[k] = m[j]; } break; }
        default: SUT(v[k].reset()); SUT(v[k].reset(new V)); m[k].clear();
        }
    }
    void step() {
        size_t k = draw(v.size()), j = draw(v.size()); V& x = *v[k]; VI& w = m[k]; const char* what = ""; bool ok = true;
        if (!w.empty() && draw(3) == 2) what = "writing an element", void(0);
        switch (*what ? 99 : draw(19)) {
        case 99: { size_t i = draw(w.size()); w[i] = value(); SUT(x[i] = X::mk(w[i])); break; }
        case 0: case 1: case 2: { what = "push_back"; int n = 1 + (int)draw(6); for (int i = 0; i < n && ok; ++i) { int e = value(); ok = act([&] { x.push_back(X::mk(e)); }); if (ok) w.push_back(e); } break; }
        case 3: what = "pop_back"; SUT(x.pop_back()); if (!w.empty()) w.pop_back(); break;
        case 4: case 5: { what = "resize"; size_t n = draw(3) ? draw(w.size() + 8) : draw(60); ok = act([&] { x.resize(n); }); if (ok) { size_t o = w.size(); w.resize(n); for (size_t i = o; i < n; ++i) SUT(x[i] = X::mk(w[i] = 7)); } break; }
        case 6: { what = "init"; size_t n = draw(40); ok = act([&] { x.init(n); }); if (ok) { w.assign(n, 9); SUT(for (size_t i = 0; i < n; ++i) x[i] = X::mk(9)); } break; }
        case 7: { what = "reserve"; size_t n = draw(80); ok = act([&] { x.reserve(n); }); if (ok && x.capacity() < n) sim::fail("VECTOR", "reserve(%llu) gives a capacity of %llu", (ULL)n, (ULL)x.capacity()); break; }
        case 8: what = "clear"; SUT(x.clear()); w.clear(); break;
        case 9: { what = "copying"; V* c = 0; if (act([&] { c = new V(*v[j]); })) { SUT(v[k].reset(c)); m[k] = VI(m[j]); } break; }
        case 10: case 11: what = j == k ? "self-assignment" : "assignment"; ok = act([&] { x = *v[j]; }); if (ok) { VI t = m[j]; w = t; } break;
        case 12: what = "swap"; SUT(x.swap(*v[j])); if (j != k) w.swap(m[j]); break;
        case 13: case 14: { what = "erasing a range"; size_t a = draw(w.size() + 1), b = a + draw(w.size() - a + 1); E* r = 0; if (w.empty()) break; SUT(r = x.erase(x.begin() + a, x.begin() + b)); w.erase(w.begin() + a, w.begin() + b); if (r != x.begin() + a) sim::fail("VECTOR", "erase() returns a wrong position"); break; }
        case 15: { what = "erasing an element"; if (w.empty()) break; size_t a = draw(w.size()); E* r = 0; SUT(r = x.erase(x.begin() + a)); w.erase(w.begin() + a); if (r != x.begin() + a) sim::fail("VECTOR", "erase() returns a wrong position"); break; }
        case 16: { what = "making from a std::vector"; VI t(draw(6)); for (int& e : t) e = value(); V* c = 0; bool asg = draw(2);
            ok = act([&] { std::vector<E> s; for (int e : t) s.push_back(X::mk(e)); if (asg) x = s; else c = new V(s); });
            if (ok) { if (!asg) SUT(v[k].reset(c)); m[k] = t; } else if (!asg) ok = true; break; }
        case 17: { what = "making with a value"; size_t n = draw(20); int e = value(); V* c = 0; bool two = draw(2); if (act([&] { if (two) c = new V(n, X::mk(e)); else c = new V(n); })) { SUT(v[k].reset(c)); m[k].assign(n, e); if (!two) SUT(for (size_t i = 0; i < n; ++i) (*c)[i] = X::mk(e)); } break; }
        case 18: { what = "comparing"; bool eq; SUT(eq = x == *v[j]); if (eq != (w == m[j])) sim::fail("VECTOR", "== is %d for %s vectors", eq, w == m[j] ? "equal" : "different"); break; }
        }
        sim::note("%s%d ", *what ? what : "write", (int)k);
        if (!ok) lost(k);
        for (size_t i = 0; i < v.size(); ++i) check(i, what);
        if (m[k].size() > 3) sim::nontrivial();
    }
};
template<typename E> static void vectorRun(bool faults) {
    Life::reset(); gFaults = faults && fault(sim::F_SPEC_THROW, 3) == 2;
    { Vecs<E> s; int n = 1 + (int)draw(3); for (int i = 0; i < n; ++i) { MyVector<E>* p; SUT(p = new MyVector<E>); s.v.emplace_back(p); s.m.push_back(VI()); }
      for (int k = 0, steps = 4 + (int)draw(24); k < steps; ++k) s.step();
      SUT(for (auto& x : s.v) x.reset()); }
    accounts();
}
WORKLOAD(vector) { switch (draw(3)) { case 0: vectorRun<int>(true); break; case 1: vectorRun<Obj>(false); break; default: vectorRun<Nine>(true); } }

// ---------------------------------------------------------------- hash tables
struct HF { int mode; HF(int m = 0) : mode(m) {}
    size_t operator()(int k) const { switch (mode) { case 1: return 0; case 2: return k & 3; case 3: return ~size_t(0) - (k & 7); case 4: return size_t(k) << 20; default: return k * 314159257ULL; } }
    bool operator()(int a, int b) const { return a == b; } };
template<typename V> struct Maps {
    typedef MyHashMap<int, V, HF, HF> M; typedef El<V> X; typedef std::map<int, int> W;
    std::vector<std::unique_ptr<M> > v; std::vector<W> m; int keys, mode;
    void check(size_t k, const char* what) {
        M& x = *v[k]; W& w = m[k]; std::vector<std::pair<int,int> > got, gotc; bool bad = false;
        if (x.size() != w.size() || x.empty() != w.empty()) sim::fail("HASH", "after %s there are %llu elements instead of %llu", what, (ULL)x.size(), (ULL)w.size());
        { sim::Sut s; M const& c = x;
          for (typename M::Table::iterator t = x.begin(); more(t, x.end()); ++t) { std::pair<int,int> e((*t).key, X::val(t->value)); put(got, e); }
          for (typename M::Table::const_iterator t = c.begin(); more(t, c.end()); ++t) { std::pair<int,int> e((*t).key, X::val(t->value)); put(gotc, e); }
          for (int i = 0; i < 6; ++i) { int key = 1 + (int)draw(keys); V* p = c.getValue(key); int e = p ? X::val(*p) : -1; sim::Oracle o; W::iterator q = w.find(key); if (e != (q == w.end() ? -1 : q->second)) bad = true; } }
        std::sort(got.begin(), got.end()); std::sort(gotc.begin(), gotc.end()); std::vector<std::pair<int,int> > want(w.begin(), w.end());
        if (bad) sim::fail("HASH", "after %s a key is not found, or found with a wrong value", what);
        if (got != want || gotc != want) sim::fail("HASH", "after %s iteration visits other elements than were added (%llu, %llu instead of %llu)", what, (ULL)got.size(), (ULL)gotc.size(), (ULL)want.size());
    }
    M* make(size_t n) { M* p; SUT(p = n ? new M(n, HF(mode), HF(mode)) : new M(HF(mode), HF(mode))); return p; }
    void lost(size_t k) {
        switch (draw(3)) {
        case 0: SUT(v[k]->clear()); m[k].clear(); break;
        case 1: { size_t j = draw(v.size()); if (j == k) { SUT(v[k]->clear()); m[k].clear(); } else { SUT(*v[k] = *v[j]); m[k] = m[j]; } break; }
        default: SUT(v[k].reset()); v[k].reset(make(0)); m[k].clear();
        }
    }
    void step() {
        size_t k = draw(v.size()), j = draw(v.size()); M& x = *v[k]; W& w = m[k]; const char* what = ""; bool ok = true;
        switch (draw(14)) {
        case 0: case 1: case 2: case 3: { what = "storing"; int n = 1 + (int)draw(12); for (int i = 0; i < n && ok; ++i) { int key = 1 + (int)draw(keys), e = 1 + (int)draw(200); ok = act([&] { x[key] = X::mk(e); }); if (ok) w[key] = e; } break; }
        case 4: case 5: { what = "adding"; int n = 1 + (int)draw(8); for (int i = 0; i < n && ok; ++i) { int key = 1 + (int)draw(keys), e = 1 + (int)draw(200), r = 0; ok = act([&] { r = X::val(x.add(typename M::Entry(key, X::mk(e))).value); });
            if (ok) { if (!w.count(key)) w[key] = e; if (r != w[key]) sim::fail("HASH", "add() returns another element than the one of the key"); } } break; }
        case 6: { what = "rehash"; size_t n = draw(100); ok = act([&] { x.rehash(n); }); break; }
        case 7: { what = "initialize"; size_t n = draw(60); ok = act([&] { x.initialize(n); }); if (ok) w.clear(); break; }
        case 8: what = "clear"; SUT(x.clear()); w.clear(); break;
        case 9: { what = "copying"; size_t n = draw(100); M* c = 0; if (act([&] { c = new M(*v[j], n); })) { SUT(v[k].reset(c)); W t = m[j]; m[k] = t; } break; }
        case 10: case 11: what = j == k ? "self-assignment" : "assignment"; ok = act([&] { x = *v[j]; }); if (ok) { W t = m[j]; w = t; } break;
        case 12: what = "moving"; if (j != k) { SUT(x.moveAssign(*v[j])); w = m[j]; m[j].clear(); } break;
        case 13: { what = "changing values while iterating"; int d = (int)draw(5); SUT(for (typename M::Table::iterator t = x.begin(); more(t, x.end()); ++t) t->value = X::mk((X::val(t->value) + d) & 127)); for (auto& p : w) p.second = (p.second + d) & 127; break; }
        }
        sim::note("%s%d ", what, (int)k);
        if (!ok) lost(k);
        for (size_t i = 0; i < v.size(); ++i) check(i, what);
        if (m[k].size() > 3) sim::nontrivial();
    }
};
template<typename V> static void hashRun(bool faults) {
    Life::reset(); gFaults = faults && fault(sim::F_SPEC_THROW, 3) == 2;
    { Maps<V> s; static const int ks[] = { 12, 40, 5, 150 }; s.keys = ks[draw(4)]; s.mode = (int)draw(5); sim::note("keys=%d hash=%d ", s.keys, s.mode);
      int n = 1 + (int)draw(3); for (int i = 0; i < n; ++i) { s.v.emplace_back(s.make(draw(2) * draw(30))); s.m.push_back(typename Maps<V>::W()); }
      for (int k = 0, steps = 3 + (int)draw(16); k < steps; ++k) s.step();
      SUT(for (auto& x : s.v) x.reset()); }
    accounts();
}
WORKLOAD(hash) { if (draw(2)) hashRun<int>(true); else hashRun<Obj>(false); }

// ---------------------------------------------------------------- pieces of memory
struct Piece { unsigned char* p; size_t n; unsigned char c; };
static size_t stride(Piece const& x, size_t i) { return i < 24 || i + 24 >= x.n || x.n < 200 ? 1 : std::min<size_t>(x.n - 24 - i, x.n < 5000 ? 29 : 997); }
static void fill(Piece& x) { for (size_t i = 0; i < x.n; i += stride(x, i)) x.p[i] = (unsigned char)(x.c + i * 3); }
static void verify(Piece const& x, const char* what) { for (size_t i = 0; i < x.n; i += stride(x, i)) if (x.p[i] != (unsigned char)(x.c + i * 3)) sim::fail("MEMORY", "after %s byte %llu of a piece of %llu bytes has changed", what, (ULL)i, (ULL)x.n); }
static void fresh(Piece& x, std::vector<Piece> const& o, unsigned char c) {
    x.c = c;
    if ((size_t)x.p % 8) sim::fail("MEMORY", "a piece of memory is not aligned");
    for (Piece const& y : o) if (x.p < y.p + y.n && y.p < x.p + x.n) sim::fail("MEMORY", "a new piece of %llu bytes overlaps another", (ULL)x.n);
    SUT(fill(x));
}
template<size_t BLOCK> static void listRun() {
    Life::reset(); gFaults = fault(sim::F_SPEC_THROW, 3) == 2;
    typedef MyList<uint64_t, BLOCK> L; L* x; SUT(x = new L); std::vector<Piece> w; unsigned char c = 1;
    for (int k = 0, steps = 4 + (int)draw(40); k < steps; ++k) {
        const char* what = "alloc_front";
        switch (draw(8)) {
        case 0: case 1: case 2: case 3: case 4: { size_t n = draw(4) ? 1 + draw(3) : draw(20); Piece q; q.n = n * 8; if (act([&] { q.p = (unsigned char*)(n == 1 && k % 2 ? x->alloc_front() : x->alloc_front(n)); })) { fresh(q, w, c++); w.push_back(q); } break; }
        case 5: case 6: what = "pop_front"; if (w.size()) { SUT(x->pop_front()); w.pop_back(); } break;
        case 7: if (draw(3)) break; what = "clear"; if (draw(2)) SUT(x->clear()); else { what = "assigning an empty list"; SUT(L e; *x = e); } w.clear(); break;
        }
        if (draw(3) == 2) continue;
        std::vector<unsigned char*> f, g;
        { sim::Sut s; L const& cx = *x; for (typename L::iterator t = x->begin(); more(t, x->end()); ++t) { unsigned char* p = (unsigned char*)*t; put(f, p); }
          for (typename L::const_iterator t = cx.begin(); more(t, cx.end()); ++t) { unsigned char* p = (unsigned char*)*t; put(g, p); } }
        std::vector<unsigned char*> want; for (size_t i = w.size(); i-- > 0;) want.push_back(w[i].p);
        if (f != want || g != want) sim::fail("LIST", "after %s iteration does not visit the pieces, last first", what);
        if (x->size() != w.size() || x->empty() != w.empty()) sim::fail("LIST", "after %s the size is %llu instead of %llu", what, (ULL)x->size(), (ULL)w.size());
        if (w.size() && (unsigned char*)x->front() != w.back().p) sim::fail("LIST", "after %s front() is not the last piece", what);
        SUT(for (Piece const& q : w) verify(q, what));
        if (w.size() > 3) sim::nontrivial();
    }
    SUT(delete x);
    accounts();
}
WORKLOAD(list) { switch (draw(4)) { case 0: listRun<1>(); break; case 1: listRun<3>(); break; case 2: listRun<10>(); break; default: listRun<1000>(); } }

WORKLOAD(pool) {
    Life::reset(); gFaults = fault(sim::F_SPEC_THROW, 3) == 2;
    MemoryPools* ps; SUT(ps = new MemoryPools); int n = 1 + (int)draw(3); SUT(ps->resize(n));
    typedef MyListOnPool<uint32_t> LP; std::vector<std::vector<Piece> > w(n); std::vector<std::vector<Piece> > lw(n); std::vector<std::unique_ptr<LP> > lists; unsigned char c = 1;
    auto list = [&] { LP* p; SUT(p = new LP); lists.emplace_back(p); }; for (int i = 0; i < n; ++i) list();
    auto all = [&] { std::vector<Piece> a; for (auto& x : w) a.insert(a.end(), x.begin(), x.end()); for (auto& x : lw) a.insert(a.end(), x.begin(), x.end()); return a; };
    for (int k = 0, steps = 4 + (int)draw(24); k < steps; ++k) {
        size_t i = draw(n), j = draw(n); MemoryPool& p = (*ps)[i]; const char* what = "alloc";
        switch (draw(14)) {
        case 0: case 1: case 2: case 3: { static const size_t sz[] = { 1, 8, 9, 24, 1000, 39999, 40000, 40001, 40008, 70000, 399992, 400000, 500000 }; Piece q; q.n = draw(2) ? 1 + draw(100) : sz[draw(13)]; if (act([&] { q.p = (unsigned char*)p.alloc(q.n); })) { fresh(q, all(), c++); w[i].push_back(q); if (p.empty()) sim::fail("MEMORY", "a pool in use is empty()"); } break; }
        case 4: { int m = 1 + (int)draw(12); for (int t = 0; t < m; ++t) { Piece q; q.n = 8 * (1 + draw(4900)); if (act([&] { q.p = (unsigned char*)p.allocate<uint64_t>(q.n / 8); })) { fresh(q, all(), c++); w[i].push_back(q); } } break; }
        case 5: case 6: { what = "alloc_front"; size_t m = 1 + draw(9); Piece q; q.n = 4 * m; if (act([&] { q.p = (unsigned char*)lists[i]->alloc_front(p, m); })) { fresh(q, all(), c++); lw[i].push_back(q); } break; }
        case 7: what = "pop_front"; if (lw[i].size()) { SUT(lists[i]->pop_front()); lw[i].pop_back(); } break;
        case 8: what = "clear"; SUT(lists[i]->clear(); p.clear()); w[i].clear(); lw[i].clear(); if (!p.empty()) sim::fail("MEMORY", "a cleared pool is not empty()"); break;
        case 9: what = "reuse"; SUT(lists[i]->clear(); p.reuse()); w[i].clear(); lw[i].clear(); break;
        case 10: what = "splice"; if (i != j) { SUT(p.splice((*ps)[j])); w[i].insert(w[i].end(), w[j].begin(), w[j].end()); w[j].clear();
                 w[i].insert(w[i].end(), lw[j].begin(), lw[j].end()); lw[j].clear(); SUT(lists[j]->clear()); if (!(*ps)[j].empty()) sim::fail("MEMORY", "a pool whose contents were moved is not empty()"); } break;
        case 11: { what = "adding a pool"; if (n > 5) break; if (act([&] { ps->resize(n + 1); })) { ++n; w.push_back({}); lw.push_back({}); list(); } break; }
        case 13: { what = "copying a list on a pool"; LP* t = 0; bool thrown = false; { sim::Sut u; try { if (draw(2)) t = new LP(*lists[i]); else { t = new LP; *t = *lists[i]; } } catch (std::runtime_error&) { sim::Oracle o; thrown = true; } }
                 if (thrown == lw[i].empty()) sim::fail("LIST", "copying a list on a pool that is %sempty %s", thrown ? "" : "not ", thrown ? "fails" : "is not refused"); if (t && !thrown && (t->size() || !t->empty() || t->begin() != t->end())) sim::fail("LIST", "a copy of an empty list is not empty"); SUT(delete t); break; }
        case 12: { what = "copying the pools"; MemoryPools* t = 0; if (act([&] { t = new MemoryPools(*ps); })) { if (t->size() != (size_t)n) sim::fail("MEMORY", "a copy has another number of pools"); SUT(for (int q = 0; q < n; ++q) { if (!(*t)[q].empty()) sim::fail("MEMORY", "a copy of a pool is not empty"); *(char*)(*t)[q].alloc(5) = 1; } delete t); } break; }
        }
        sim::note("%s%d ", what, (int)i);
        SUT(for (int q = 0; q < n; ++q) { for (Piece const& y : w[q]) verify(y, what); for (Piece const& y : lw[q]) verify(y, what); });
        for (int q = 0; q < n; ++q) {
            std::vector<unsigned char*> f, g, want; for (size_t t = lw[q].size(); t-- > 0;) want.push_back(lw[q][t].p);
            { sim::Sut s; LP& x = *lists[q]; LP const& cx = x; for (LP::iterator t = x.begin(); more(t, x.end()); ++t) { unsigned char* a = (unsigned char*)*t; put(f, a); }
              for (LP::const_iterator t = cx.begin(); more(t, cx.end()); ++t) { unsigned char* a = (unsigned char*)*t; put(g, a); } }
            if (f != want || g != want || lists[q]->size() != want.size() || lists[q]->empty() != want.empty()) sim::fail("LIST", "after %s iteration does not visit the pieces, last first", what);
        }
        if (w[i].size() + lw[i].size() > 2) sim::nontrivial();
    }
    SUT(for (auto& x : lists) x.reset(); delete ps);
    accounts();
}

// ---------------------------------------------------------------- sets
template<typename S> static VI elements(S const& s) { VI r; sim::Sut u; for (typename S::const_iterator t = s.begin(); more(t, s.end()); ++t) { int e = (int)*t; put(r, e); } return r; }
template<typename S> static std::string text(S const& s) { std::string r; sim::Sut u; std::ostringstream os; os << s; sim::Oracle o; r = os.str().c_str(); return r; }
// mk(k): makes the k-th set; cap: number of elements it may hold
template<typename S, bool SMALL, typename MK> static void setRun(int range, size_t cap, MK mk) {
    int n = 1 + (int)draw(3); std::vector<S*> v; std::vector<std::set<int> > m(n); for (int i = 0; i < n; ++i) v.push_back(mk());
    for (int k = 0, steps = 4 + (int)draw(40); k < steps; ++k) {
        size_t i = draw(n), j = draw(n); S& x = *v[i]; std::set<int>& w = m[i]; int e = (int)draw(range);
        switch (draw(8)) {
        case 0: case 1: case 2: case 3: if (w.size() < cap || (SMALL && w.size() == cap && w.count(e) && cap)) { SUT(x.add(e)); w.insert(e); } break;
        case 4: SUT(x.remove(e)); w.erase(e); break;
        case 5: if (draw(6) == 5) { SUT(x.clear()); w.clear(); } break;
        default: break;
        }
        VI want(w.begin(), w.end()); bool in, eq, is; size_t h1, h2;
        if (elements(x) != want) sim::fail("SET", "the elements are %s instead of %s", braces(elements(x), '{', '}').c_str(), braces(want, '{', '}').c_str());
        SUT(in = x.includes(e); eq = x == *v[j]; is = x.intersects(*v[j]); h1 = x.hash(); h2 = v[j]->hash());
        bool wi = false; for (int a : m[j]) if (w.count(a)) wi = true;
        if (in != (w.count(e) > 0)) sim::fail("SET", "includes(%d) is %d", e, in);
        if (eq != (w == m[j])) sim::fail("SET", "== is %d for %s sets", eq, w == m[j] ? "equal" : "different");
        if (is != wi) sim::fail("SET", "intersects() is %d", is);
        if (w == m[j] && h1 != h2) sim::fail("SET", "equal sets have different hash codes");
        if (x.empty() != w.empty()) sim::fail("SET", "empty() is wrong");
        if (draw(4) == 3 && text(x) != braces(want, '{', '}')) sim::fail("SET", "the set is printed as %s", text(x).c_str());
        if constexpr (SMALL) {
            bool ce, ca; VI r; std::set<int> o2; { std::set<int> t; for (int q = 0, z = (int)draw(4); q < z; ++q) t.insert((int)draw(range)); if (draw(2)) t = w; if (draw(3) == 2 && t.size()) t.erase(t.begin()); o2 = t; }
            SUT(ce = x.equals(o2); ca = x.containsAll(o2); is = x.intersects(o2));
            bool si = false; for (int a : o2) if (w.count(a)) si = true;
            if (ce != (w == o2) || ca != std::includes(w.begin(), w.end(), o2.begin(), o2.end()) || is != si) sim::fail("SET", "equals(), containsAll() or intersects() of another container is wrong");
            if (x.size() != w.size()) sim::fail("SET", "the size is %llu instead of %llu", (ULL)x.size(), (ULL)w.size());
            if (w.size()) { sim::Sut u; for (typename S::const_reverse_iterator t = x.rbegin(); more(t, x.rend()); ++t) { int a = *t; put(r, a); } }
            std::reverse(r.begin(), r.end()); if (r != want) sim::fail("SET", "reverse iteration gives other elements");
            if (w.size()) { size_t t = draw(w.size()); int a; SUT(a = x.get(t)); if (a != want[t]) sim::fail("SET", "get(%llu) is wrong", (ULL)t); }
        }
        if (w.size() > 2) sim::nontrivial();
        for (int t = 0; t < n; ++t) if (elements(*v[t]) != VI(m[t].begin(), m[t].end())) sim::fail("SET", "another set has changed");
    }
    if (draw(2)) for (int i = 0; i < n; ++i) for (int e = 0; e < range; ++e) { bool in; SUT(in = v[i]->includes(e)); if (in != (m[i].count(e) > 0)) sim::fail("SET", "includes(%d) is %d", e, in); }
}
WORKLOAD(sets) {
    int kind = (int)draw(8); sim::note("kind=%d ", kind);
    MemoryPool* pool; SUT(pool = new MemoryPool);
    switch (kind) {
    case 0: { std::vector<std::unique_ptr<MySmallSet<int,6> > > o; setRun<MySmallSet<int,6>, true>(12, 4, [&] { MySmallSet<int,6>* p; SUT(p = new MySmallSet<int,6>); o.emplace_back(p); return p; }); SUT(for (auto& x : o) x.reset()); break; }
    case 1: { std::vector<std::unique_ptr<MySmallSet<uint16_t,40> > > o; setRun<MySmallSet<uint16_t,40>, true>(60, 38, [&] { MySmallSet<uint16_t,40>* p; SUT(p = new MySmallSet<uint16_t,40>); o.emplace_back(p); return p; }); SUT(for (auto& x : o) x.reset()); break; }
    case 2: { typedef MySmallSetOnPool<uint16_t> S; size_t c = 1 + draw(9); setRun<S, true>((int)c + 3, c, [&] { S* p; SUT(p = S::newInstance(*pool, c)); return p; }); break; }
    case 3: { typedef MySmallSetOnPool<int> S; size_t c = 1 + draw(9); setRun<S, true>((int)c + 3, c, [&] { S* p; SUT(p = S::newInstance(*pool, c)); return p; }); break; }
    case 4: { typedef MyBitSet<1> S; std::vector<std::unique_ptr<S> > o; setRun<S, false>(64, 64, [&] { S* p; SUT(p = new S); o.emplace_back(p); return p; }); SUT(for (auto& x : o) x.reset()); break; }
    case 5: { typedef MyBitSet<3> S; std::vector<std::unique_ptr<S> > o; setRun<S, false>(192, 192, [&] { S* p; SUT(p = new S); o.emplace_back(p); return p; }); SUT(for (auto& x : o) x.reset()); break; }
    case 6: { typedef MySmallSetOnPool<uint64_t> S; size_t c = 1 + draw(9); setRun<S, true>((int)c + 3, c, [&] { S* p; SUT(p = S::newInstance(*pool, c)); return p; }); break; }
    default: { typedef MyBitSetOnPool S; size_t b = 1 + draw(200); setRun<S, false>((int)b, b, [&] { S* p; SUT(p = S::newInstance(*pool, b)); return p; }); break; }
    }
    SUT(delete pool);
    accounts();
}

// ---------------------------------------------------------------- numbers
// the reference: 32-bit words, least significant first, no leading zeros
struct Nat {
    std::vector<uint32_t> d;
    Nat(uint64_t v = 0) { for (; v; v >>= 32) d.push_back((uint32_t)v); }
    void trim() { while (!d.empty() && !d.back()) d.pop_back(); }
    void add(Nat const& o) { uint64_t c = 0; for (size_t i = 0; i < o.d.size() || i < d.size() || c; ++i) { if (i >= d.size()) d.push_back(0); c += (uint64_t)d[i] + (i < o.d.size() ? o.d[i] : 0); d[i] = (uint32_t)c; c >>= 32; } trim(); }
    uint32_t div(uint32_t n) { uint64_t r = 0; for (size_t i = d.size(); i-- > 0;) { r = r << 32 | d[i]; d[i] = (uint32_t)(r / n); r %= n; } trim(); return (uint32_t)r; }
    void shl(int k) { if (d.empty()) return; Nat t; for (; k >= 32; k -= 32) d.insert(d.begin(), 0); uint64_t c = 0; for (size_t i = 0; i < d.size(); ++i) { c |= (uint64_t)d[i] << k; d[i] = (uint32_t)c; c >>= 32; } if (c) d.push_back((uint32_t)c); }
    int bits() const { return d.empty() ? 0 : 32 * (int)d.size() - __builtin_clz(d.back()); }
    bool operator==(Nat const& o) const { return d == o.d; }
    std::string str() const { Nat t = *this; std::string s; do s += (char)('0' + t.div(10)); while (!t.d.empty()); return std::string(s.rbegin(), s.rend()); }
    size_t words() const { return d.empty() ? 1 : (bits() + 62) / 63; }
};
// an object BigNumber::translate<T>() can build: shifts and additions only
struct Acc { Nat n; Acc(uint64_t v) : n(v) {} Acc& operator<<=(int k) { sim::Oracle o; n.shl(k); return *this; } Acc& operator+=(uint64_t v) { sim::Oracle o; n.add(Nat(v)); return *this; } };
static uint64_t drawWord() { uint64_t r = draw(1u << 30) | (uint64_t)draw(1u << 30) << 30 | (uint64_t)draw(16) << 60; switch (draw(6)) { case 0: return draw(20); case 1: return ~(uint64_t)0 - draw(2); case 2: return ((uint64_t)1 << 63) - draw(2); case 3: return (uint64_t)1 << draw(64); default: return r >> draw(64); } }
static uint32_t drawDivisor() { switch (draw(5)) { case 0: return 10; case 1: return ~0u - (uint32_t)draw(3); case 2: return (1u << 31) + (uint32_t)draw(3) - 1; case 3: return 1 + (uint32_t)draw(9); default: return (uint32_t)drawWord() | 1; } }

static void bigRun() {
    int n = 2 + (int)draw(3); std::vector<std::unique_ptr<uint64_t[]> > st(n); std::vector<BigNumber> b(n); std::vector<Nat> m(n);
    // a number in a piece of storage of exactly `words` words that holds the same value
    auto room = [&](int i, size_t words) { uint64_t* p; SUT(p = new uint64_t[words]; BigNumber t(p); t.store(b[i]); b[i].setArray(p); st[i].reset(p)); };
    for (int i = 0; i < n; ++i) room(i, 1);
    for (int k = 0, steps = 4 + (int)draw(30); k < steps; ++k) {
        int i = (int)draw(n), j = (int)draw(n); size_t w = 0; const char* what = "";
        switch (draw(8)) {
        case 7: { what = "making a pattern"; int z = 1 + (int)draw(6); Nat x; for (int t = 0; t < z; ++t) { uint64_t v; switch (draw(5)) { case 0: v = 0; break; case 1: v = drawWord() >> 1; break; case 2: v = (uint64_t)1 << draw(63); break; default: v = ~(uint64_t)0 >> 1; } x.shl(63); x.add(Nat(v)); room(i, std::max(x.words(), m[i].words())); uint64_t one[1] = { v }; SUT(BigNumber o(one); if (t == 0) w = b[i].store(v); else { b[i].shiftLeft(63); w = b[i].add(o); }); m[i] = x; } break; }
        case 0: { what = "store"; uint64_t v = drawWord(); Nat x(v); room(i, std::max(x.words(), m[i].words())); SUT(w = b[i].store(v)); m[i] = x; break; }
        case 1: { what = "copying"; Nat x = m[j]; room(i, std::max(x.words(), m[i].words())); SUT(w = b[i].store(b[j])); m[i] = x; break; }
        case 2: case 3: { what = i == j ? "adding to itself" : "add"; Nat x = m[i]; Nat y = m[j]; x.add(y); if (x.bits() > 3000) break; room(i, std::max(x.words(), std::max(m[i].words(), m[j].words()))); SUT(w = b[i].add(b[j])); m[i] = x; break; }
        case 4: { what = "shiftLeft"; int s = draw(2) ? (int)draw(70) : 63 * (int)draw(4) + (int)draw(3); Nat x = m[i]; x.shl(s); if (x.bits() > 3000) break; room(i, std::max(x.words(), m[i].words())); sim::note("<<%d ", s); SUT(w = b[i].shiftLeft(s)); m[i] = x; break; }
        case 5: { what = "divide"; uint32_t q = drawDivisor(), r; room(i, m[i].words()); SUT(r = b[i].divide(q)); Nat x = m[i]; uint32_t want = m[i].div(q); sim::note("/%u ", q); if (r != want) sim::fail("NUMBER", "the remainder of %s by %u is %u instead of %u", x.str().c_str(), q, r, want); break; }
        default: { what = "a number without storage"; BigNumber z; bool thrown = false; size_t s1 = 0, s2 = 0; std::string t;
            { sim::Sut s; s1 = z.size(); try { s2 = z.store(b[i]); } catch (std::runtime_error&) { sim::Oracle o; thrown = true; } std::string x = z; sim::Oracle o; t = x.c_str(); }
            bool zero = m[i].d.empty(), e1, e2, e3; SUT(e1 = z == b[i]; e2 = b[i] == z; e3 = z == 0);
            if (thrown == zero || s1 != 1 || (zero && s2 != 1) || e1 != zero || e2 != zero || !e3 || t != "0") sim::fail("NUMBER", "a number without storage is not zero");
            if (draw(3) == 2) { room(i, m[i].words()); SUT(w = b[i].store(z)); m[i] = Nat(); } }
        }
        sim::note("%s %d %d; ", what, i, j);
        if (w && w != m[i].words()) sim::fail("NUMBER", "after %s %llu words are used instead of %llu", what, (ULL)w, (ULL)m[i].words());
        for (int a = 0; a < n; ++a) {
            size_t s; std::string t; Acc acc(0); uint64_t v = draw(3) ? drawWord() : m[a].d.empty() ? 0 : m[a].d[0] | (m[a].d.size() > 1 ? (uint64_t)m[a].d[1] << 32 : 0); bool e, ne, ev, nv;
            { sim::Sut u; s = b[a].size(); std::ostringstream os; os << b[a]; acc = b[a].translate<Acc>(); e = b[a] == b[j]; ne = b[a] != b[j]; ev = b[a] == v; nv = b[a] != v; sim::Oracle o; t = os.str().c_str(); }
            if (t != m[a].str()) sim::fail("NUMBER", "after %s the number is printed as %s instead of %s", what, t.c_str(), m[a].str().c_str());
            if (!(acc.n == m[a])) sim::fail("NUMBER", "after %s the number is translated to %s instead of %s", what, acc.n.str().c_str(), m[a].str().c_str());
            if (s != m[a].words()) sim::fail("NUMBER", "after %s the size of %s is %llu instead of %llu", what, t.c_str(), (ULL)s, (ULL)m[a].words());
            bool we = m[a] == m[j], wv = m[a] == Nat(v);
            if (e != we || ne == we) sim::fail("NUMBER", "%s == %s is %d", t.c_str(), m[j].str().c_str(), e);
            if (ev != wv || nv == wv) sim::fail("NUMBER", "%s == %llu is %d", t.c_str(), (ULL)v, ev);
        }
        if (m[i].d.size() > 2) sim::nontrivial();
        sim::ev(m[i].d.size());
    }
    SUT(for (auto& x : st) x.reset());
}
template<int N> static void fixedRun() {
    typedef FixedBigNumber<N> F; int n = 2 + (int)draw(3); std::vector<F> b(n); std::vector<Nat> m(n);
    for (int k = 0, steps = 4 + (int)draw(40); k < steps; ++k) {
        int i = (int)draw(n), j = (int)draw(n);
        switch (draw(7)) {
        case 6: { F x; Nat y; for (int t = 0; t < N; ++t) { uint32_t v; switch (draw(5)) { case 0: v = 0; break; case 1: v = (uint32_t)drawWord(); break; case 2: v = 1u << draw(32); break; default: v = ~0u; } SUT(if (t) for (int u = 0; u < 32; ++u) x += x; x += F(v)); y.shl(32); y.add(Nat(v)); } b[i] = x; m[i] = y; break; }
        case 0: { uint32_t v = (uint32_t)drawWord(); SUT(if (draw(2)) b[i] = v; else b[i] = F(v)); m[i] = Nat(v); break; }
        case 1: b[i] = b[j]; m[i] = Nat(m[j]); break;
        case 2: case 3: case 4: { Nat x = m[i], y = m[j]; x.add(y); bool thrown = false, plus = draw(2); F t = b[i]; { sim::Sut s; try { if (plus) t = t + b[j]; else if (i == j) t += t; else t += b[j]; } catch (std::runtime_error&) { sim::Oracle o; thrown = true; } }
            if (thrown != (x.bits() > 32 * N)) sim::fail("NUMBER", "adding %s and %s %s", m[i].str().c_str(), y.str().c_str(), thrown ? "reports an overflow" : "does not report an overflow");
            if (!thrown) { b[i] = t; m[i] = x; } break; }
        default: { uint32_t q = drawDivisor(), r; SUT(r = b[i].divide(q)); Nat x = m[i]; uint32_t want = m[i].div(q); if (r != want) sim::fail("NUMBER", "the remainder of %s by %u is %u instead of %u", x.str().c_str(), q, r, want); break; }
        }
        for (int a = 0; a < n; ++a) {
            std::string t, c; Acc acc(0); uint32_t v = draw(2) ? (uint32_t)drawWord() : m[a].d.empty() ? 0 : m[a].d[0]; bool e, ne, ev, nv;
            { sim::Sut u; std::ostringstream os; os << b[a]; std::string z = b[a]; acc = b[a].template translate<Acc>(); e = b[a] == b[j]; ne = b[a] != b[j]; ev = b[a] == v; nv = b[a] != v; sim::Oracle o; t = os.str().c_str(); c = z.c_str(); }
            if (t != m[a].str() || c != t) sim::fail("NUMBER", "the number is printed as %s instead of %s", t.c_str(), m[a].str().c_str());
            if (!(acc.n == m[a])) sim::fail("NUMBER", "the number is translated to %s instead of %s", acc.n.str().c_str(), m[a].str().c_str());
            bool we = m[a] == m[j], wv = m[a] == Nat(v);
            if (e != we || ne == we) sim::fail("NUMBER", "%s == %s is %d", t.c_str(), m[j].str().c_str(), e);
            if (ev != wv || nv == wv) sim::fail("NUMBER", "%s == %u is %d", t.c_str(), v, ev);
        }
        if (m[i].d.size() > 1) sim::nontrivial();
        sim::ev(m[i].d.size());
    }
}
WORKLOAD(numbers) {
    switch (draw(6)) {
    case 0: fixedRun<1>(); break;
    case 1: fixedRun<2>(); break;
    case 2: fixedRun<5>(); break;
    default: bigRun();
    }
    accounts();
}

// ---------------------------------------------------------------- tables
template<typename E> static void tableRun() {
    typedef El<E> X; typedef DataTable<E> T; int n = 1 + (int)draw(3);
    std::vector<std::unique_ptr<T> > v(n); std::vector<std::vector<VI> > m(n);
    for (int i = 0; i < n; ++i) { int r = draw(2) ? (int)draw(6) : 0; SUT(if (r) v[i].reset(new T(r)); else v[i].reset(new T)); m[i].resize(r); }
    for (int k = 0, steps = 4 + (int)draw(40); k < steps; ++k) {
        int i = (int)draw(n), j = (int)draw(n); T& x = *v[i]; std::vector<VI>& w = m[i]; int r = w.empty() ? -1 : (int)draw(w.size()); const char* what = "";
        switch (draw(9)) {
        case 0: { what = "init"; int q = (int)draw(7); SUT(if (q) x.init(q); else x.init()); w.assign(q, VI()); break; }
        case 1: case 2: { what = "setNumRows"; int q = draw(4) == 3 ? (int)draw(25) : (int)draw(9); SUT(x.setNumRows(q)); w.resize(q); break; }
        case 3: if (r >= 0) { what = "initRow"; size_t q = draw(9); SUT(x.initRow(r, q)); w[r].assign(q, 3); SUT(for (size_t t = 0; t < q; ++t) x[r][t] = X::mk(3)); } break;
        case 4: case 5: case 6: for (int t = 0, z = 1 + (int)draw(7); r >= 0 && t < z; ++t) { what = "addColumn"; size_t c; SUT(c = x.addColumn(r)); if (c != w[r].size()) sim::fail("TABLE", "addColumn() returns %llu in a row of %llu", (ULL)c, (ULL)w[r].size()); int e = 1 + (int)draw(200); w[r].push_back(e); SUT(x[r][c] = X::mk(e)); } break;
        case 7: { what = i == j ? "self-assignment" : "assignment"; SUT(x = *v[j]); std::vector<VI> t = m[j]; w = t; break; }
        default: { what = "copying"; T* c; SUT(c = new T(*v[j])); SUT(v[i].reset(c)); std::vector<VI> t = m[j]; w = t; break; }
        }
        sim::note("%s %d %d; ", what, i, j);
        for (int a = 0; a < n; ++a) {
            T const& y = *v[a]; size_t total; std::vector<VI> got; std::string want, txt; bool print = draw(4) == 3;
            { sim::Sut s; total = y.totalSize(); for (int p = 0; p < y.numRows(); ++p) { { sim::Oracle o; got.push_back(VI()); } for (size_t q = 0; q < y[p].size(); ++q) { int e = X::val(y[p][q]); put(got.back(), e); } }
              if (print) { std::ostringstream os; os << y; sim::Oracle o; txt = os.str().c_str(); } }
            if (got != m[a]) sim::fail("TABLE", "after %s a table has other rows or elements", what);
            size_t t = 0; for (VI const& p : m[a]) t += p.size(); if (t != total) sim::fail("TABLE", "after %s the total size is %llu instead of %llu", what, (ULL)total, (ULL)t);
            if (t > 4) sim::nontrivial();
            if (print) { for (size_t p = 0; p < m[a].size(); ++p) { want += std::to_string(p) + ": "; for (size_t q = 0; q < m[a][p].size(); ++q) { if (q) want += ", "; want += std::to_string(m[a][p][q]); } want += "\n"; } if (txt != want) sim::fail("TABLE", "after %s a table is printed as %s", what, txt.c_str()); }
        }
        sim::ev(w.size());
    }
    SUT(for (auto& x : v) x.reset());
}
WORKLOAD(table) { Life::reset(); switch (draw(3)) { case 0: tableRun<int>(); break; case 1: tableRun<Obj>(); break; default: tableRun<Nine>(); } accounts(); }
