// Shared pieces of the workloads: reference automata, reference canonical diagrams,
// specifications that encode a reference automaton, and walkers over library diagrams.
#pragma once
#include "../sim/rt.h"
#include <tdzdd/DdEval.hpp>
#include <tdzdd/DdSpec.hpp>
#include <tdzdd/DdSpecOp.hpp>
#include <tdzdd/DdStructure.hpp>
#include <tdzdd/util/MessageHandler.hpp>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>

using namespace tdzdd;
typedef std::vector<int> VI;
typedef unsigned long long ULL;
using sim::draw;
using sim::fault;

struct SM {     // small deterministic generator expanded from a drawn table seed
    uint64_t s;
    explicit SM(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x5151) { next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
    bool pct(unsigned p) { return below(100) < p; }
};

// ---------------------------------------------------------------- reference automaton
struct Tr { int lev, st; };        // lev -1 accept, 0 reject, >0 state st of that level
struct Auto {
    int n, ar;
    std::vector<int> K;            // number of states per level
    std::vector<std::vector<Tr> > t;
    Tr root;
    Tr next(int lev, int st, int b) const { return t[lev][(size_t)st * ar + b]; }
};

struct AutoParam { int n, w, skip, p0, p1, dead, grow; uint64_t seed; };

// n levels, at most w states per level, skip/p0/p1/dead in percent
inline Auto makeAuto(int ar, AutoParam const& q) {
    Auto a; a.n = q.n; a.ar = ar; SM r(q.seed);
    a.K.assign(q.n + 1, 0); a.t.resize(q.n + 1);
    for (int i = 1; i <= q.n; ++i) {
        int cap = q.w;
        if (q.grow) { // limited by fan-out from the top
            double m = 1; for (int k = q.n; k > i && m < q.w; --k) m *= ar;
            if (m < cap) cap = (int)m;
        }
        a.K[i] = cap < 1 ? 1 : cap;
    }
    for (int i = 1; i <= q.n; ++i) {
        a.t[i].resize((size_t)a.K[i] * ar);
        for (int s = 0; s < a.K[i]; ++s) {
            bool dead = r.pct(q.dead);
            for (int b = 0; b < ar; ++b) {
                Tr x;
                if (dead && (i == 1 || r.pct(70))) { x.lev = 0; x.st = 0; }
                else if (r.pct(q.p0)) { x.lev = 0; x.st = 0; }
                else if (i == 1 || r.pct(q.p1)) { x.lev = -1; x.st = 0; }
                else {
                    int l = i - 1;
                    if (l > 1 && r.pct(q.skip)) l = 1 + (int)r.below(l);
                    x.lev = l; x.st = (int)r.below(a.K[l]);
                    if (q.w >= 10000 && l == i - 1) x.st = (int)(((uint64_t)s * ar + b) % a.K[l]);       // fill the level
                }
                a.t[i][(size_t)s * ar + b] = x;
            }
        }
    }
    a.root.lev = q.n; a.root.st = 0;
    return a;
}

// Rarely, where the workload allows it: a level of more than 2^16 nodes (HUGE_WIDE), hundreds of levels (HUGE_DEEP),
// more than 2^15 levels in serial mode (HUGE_SERIAL).
enum { HUGE_WIDE = 1, HUGE_DEEP = 2, HUGE_SERIAL = 4, HUGE_300 = 8 };     // HUGE_300: 300 levels, with several workers 130 (the pools of MP subsetting take 400 kB per worker and level)
inline bool gHuge = false, gMp = true;
inline int gHugeOk = 0;
inline AutoParam drawHuge(AutoParam q) {
    if (gHuge) {       // another automaton in a huge run stays small
        if (q.w > 3) q.w = 3;
        if (q.n > 200) { q.skip = 0; q.p0 = q.p0 && q.w > 1 ? 2 : 0; q.p1 = q.dead = 0; }
        return q;
    }
    if (!gHugeOk) return q;
    int ok = gHugeOk; gHugeOk = 0;
    { uint64_t m = ok & HUGE_WIDE ? 300 : 100; if (draw(m) != m - 1) return q; }
    gHuge = true; sim::note("huge ");
    q.dead = q.p1 = 0; q.skip = q.skip > 10 ? 10 : 0;
    if (ok & HUGE_WIDE) { static const int w[] = { 70000, 20000, 140000 }; q.w = w[draw(3)]; q.n = 17 + (int)draw(4); q.grow = 1; if (q.p0 > 5) q.p0 = 3; }
    else { static const int n[] = { 300, 1100, 33000 }; q.n = ok & HUGE_300 ? (gMp ? 130 : 300) : n[gMp || !(ok & HUGE_SERIAL) ? draw(2) : std::min<uint64_t>(draw(4), 2)]; if (q.w > 3) q.w = 3; q.p0 = q.w > 1 && q.p0 ? 2 : 0; }
    if (sim::threads() > 4) sim::setThreads(3);
    return q;
}
inline AutoParam drawParam0(int maxN, int maxW) {
    AutoParam q;
    q.n = 1 + (int)std::max(draw(maxN), draw(maxN));
    static const int ws[] = { 1, 2, 3, 4, 6, 8, 12, 20, 40, 100, 300, 1000, 4000 };
    int k = 0; while (k < 12 && ws[k + 1] <= maxW) ++k;
    q.w = ws[std::max(draw(k + 1), draw(k + 1))];
    static const int sk[] = { 0, 10, 40, 80 };
    q.skip = sk[draw(4)];
    static const int p0[] = { 0, 5, 15, 30, 10, 20, 40, 60 };
    q.p0 = p0[draw(8)];
    static const int p1[] = { 0, 5, 20, 0, 2 };
    q.p1 = p1[draw(5)];
    static const int dd[] = { 0, 0, 15, 50 };
    q.dead = dd[draw(4)];
    q.grow = (int)draw(2);
    q.seed = draw(1000000);
    return q;
}
inline AutoParam drawParam(int maxN, int maxW) { return drawHuge(drawParam0(maxN, maxW)); }
// Variant with few early terminals and skips, so that products of two automata stay large.
inline AutoParam drawDense(int maxN, int maxW, int n = 0) {
    AutoParam q = drawParam0(maxN, maxW);
    if (n) q.n = n;
    static const int sk[] = { 0, 0, 5, 0, 20, 50 }; q.skip = sk[draw(6)];
    static const int p0[] = { 0, 5, 10, 2, 20, 35 }; q.p0 = p0[draw(6)];
    static const int p1[] = { 0, 0, 0, 4, 10 }; q.p1 = p1[draw(5)];
    static const int dd[] = { 0, 0, 0, 15, 50 }; q.dead = dd[draw(5)];
    return drawHuge(q);
}
// Most of the time: enough levels and states for something to happen.
inline AutoParam lively(AutoParam q, int maxN) {
    if (draw(4) == 3 || gHuge) return q;
    if (q.n < 4 && maxN >= 4) q.n = 4 + (int)draw(maxN - 3);
    if (q.w < 3) q.w = 3;
    if (q.p0 > 15) q.p0 = 10;
    if (q.dead > 15) q.dead = 0;
    return q;
}
inline void noteParam(AutoParam const& q) {
    sim::note("[n=%d w=%d skip=%d p0=%d p1=%d dead=%d grow=%d seed=%llu]", q.n, q.w, q.skip, q.p0, q.p1, q.dead, q.grow, (ULL)q.seed);
}
// Rarely replaces the root to reach terminal-only diagrams.
inline void drawRoot(Auto& a) {
    uint64_t k = draw(24);
    if (k == 23) { a.root.lev = 0; } else if (k == 22) { a.root.lev = -1; }
    else if (k >= 19 && a.n > 1) { a.root.lev = 1 + (int)draw(a.n); a.root.st = 0; }
}

// ---------------------------------------------------------------- canonical reference diagrams
// ids: 0 = false, 1 = true, >=2 nodes.  Two diagrams represent the same function under the
// rule's interpretation of skipped levels iff their ids are equal.
enum Rule { QDD, BDD_, ZDD_ };
struct VecHash { size_t operator()(VI const& v) const { uint64_t h = 1469598103934665603ULL; for (size_t i = 0; i < v.size(); ++i) { h ^= (uint32_t)v[i]; h *= 1099511628211ULL; h ^= h >> 31; } return h; } };
struct Canon {
    Rule rule; int ar;
    std::vector<VI> nodes;               // nodes[id] = {level, children...}
    std::unordered_map<VI, int, VecHash> uniq;
    std::map<std::pair<int,int>, int> memoI, memoU;
    Canon(Rule r, int ar) : rule(r), ar(ar), nodes(2) {}
    int level(int f) const { return f < 2 ? 0 : nodes[f][0]; }
    int make(int lev, int const* c) {
        bool all0 = true, same = true, z = true;
        for (int b = 0; b < ar; ++b) { if (c[b]) all0 = false; if (c[b] != c[0]) same = false; if (b && c[b]) z = false; }
        if (all0) return 0;
        if (rule == BDD_ && same) return c[0];
        if (rule == ZDD_ && z) return c[0];
        VI k(1 + ar); k[0] = lev; for (int b = 0; b < ar; ++b) k[1 + b] = c[b];
        std::unordered_map<VI, int, VecHash>::iterator it = uniq.find(k);
        if (it != uniq.end()) return it->second;
        int id = (int)nodes.size(); nodes.push_back(k); uniq[k] = id; return id;
    }
    int child(int f, int b) const { return nodes[f][1 + b]; }
    int fromAuto(Auto const& a) {
        if (a.root.lev <= 0) return a.root.lev ? 1 : 0;
        std::vector<VI> id(a.n + 1);
        VI c(ar);
        for (int i = 1; i <= a.root.lev; ++i) {
            id[i].resize(a.K[i]);
            for (int s = 0; s < a.K[i]; ++s) {
                for (int b = 0; b < ar; ++b) { Tr x = a.next(i, s, b); c[b] = x.lev < 0 ? 1 : x.lev == 0 ? 0 : id[x.lev][x.st]; }
                id[i][s] = make(i, c.data());
            }
        }
        return id[a.root.lev][a.root.st];
    }
    size_t count(int f) const {        // nonterminal nodes reachable from f
        std::vector<int> st; std::vector<char> seen(nodes.size(), 0); size_t n = 0;
        if (f >= 2) { st.push_back(f); seen[f] = 1; }
        while (!st.empty()) { int g = st.back(); st.pop_back(); ++n; for (int b = 0; b < ar; ++b) { int h = child(g, b); if (h >= 2 && !seen[h]) { seen[h] = 1; st.push_back(h); } } }
        return n;
    }
    std::vector<size_t> perLevel(int f, int n) const {
        std::vector<size_t> r(n + 1, 0);
        std::vector<int> st; std::vector<char> seen(nodes.size(), 0);
        if (f >= 2) { st.push_back(f); seen[f] = 1; }
        while (!st.empty()) { int g = st.back(); st.pop_back(); ++r[level(g)]; for (int b = 0; b < ar; ++b) { int h = child(g, b); if (h >= 2 && !seen[h]) { seen[h] = 1; st.push_back(h); } } }
        return r;
    }
    int cof(int f, int lev, int b) const {     // cofactor under the rule's reading of skipped levels
        if (level(f) == lev) return child(f, b);
        if (rule == ZDD_) return b == 0 ? f : 0;
        return f;
    }
    int apply(int f, int g, bool uni) {
        if (!uni) { if (f == 0 || g == 0) return 0; if (f == g) return f; if (rule == BDD_) { if (f == 1) return g; if (g == 1) return f; } }
        else { if (f == 0) return g; if (g == 0) return f; if (f == g) return f; if (rule == BDD_ && (f == 1 || g == 1)) return 1; }
        if (f > g) std::swap(f, g);
        std::map<std::pair<int,int>, int>& memo = uni ? memoU : memoI;
        std::pair<int,int> k(f, g);
        std::map<std::pair<int,int>, int>::iterator it = memo.find(k);
        if (it != memo.end()) return it->second;
        int l = std::max(level(f), level(g)); VI c(ar);
        for (int b = 0; b < ar; ++b) c[b] = apply(cof(f, l, b), cof(g, l, b), uni);
        int r = make(l, c.data());
        memo[k] = r; return r;
    }
    // decimal number of vectors; ZDD: every skipped level is 0; BDD: free over numVars levels
    std::string cardinality(int f, int numVars) const;
};

struct Big {   // little-endian base 1e9
    std::vector<uint32_t> d;
    void add(Big const& o) { uint64_t c = 0; for (size_t i = 0; i < o.d.size() || c; ++i) { if (i >= d.size()) d.push_back(0); c += (uint64_t)d[i] + (i < o.d.size() ? o.d[i] : 0); d[i] = c % 1000000000; c /= 1000000000; } }
    void mul(uint32_t m) { uint64_t c = 0; for (size_t i = 0; i < d.size(); ++i) { c += (uint64_t)d[i] * m; d[i] = c % 1000000000; c /= 1000000000; } if (c) d.push_back((uint32_t)c); while (!d.empty() && !d.back()) d.pop_back(); }
    std::string str() const { if (d.empty()) return "0"; char b[16]; std::string s; snprintf(b, 16, "%u", d.back()); s = b; for (size_t i = d.size() - 1; i-- > 0;) { snprintf(b, 16, "%09u", d[i]); s += b; } return s; }
};
inline std::string Canon::cardinality(int f, int numVars) const {
    std::vector<Big> v(nodes.size()); v[1].d.push_back(1);
    std::vector<char> need(nodes.size(), 0); need[f] = 1;
    for (int g = (int)nodes.size() - 1; g >= 2; --g) if (need[g]) for (int b = 0; b < ar; ++b) need[child(g, b)] = 1;
    for (size_t g = 2; g < nodes.size(); ++g) if (need[g]) {     // children have smaller ids
        for (int b = 0; b < ar; ++b) { int h = child(g, b); Big x = v[h]; if (rule == BDD_) for (int k = level(h) + 1; k < level(g); ++k) x.mul(ar); v[g].add(x); }
    }
    Big x = v[f];
    if (rule == BDD_) for (int k = level(f) + 1; k <= numVars; ++k) x.mul(ar);
    return x.str();
}

// Every operation on a library object runs in Sut scope.
#define SUT(...) do { sim::Sut sut_; __VA_ARGS__; } while (0)

// ---------------------------------------------------------------- library diagram -> reference
template<int AR> struct Extract {
    std::vector<size_t> rowSize;                 // library's own row sizes
    std::vector<std::vector<int> > node;         // [level][col*AR+b] -> packed reference
    std::vector<std::vector<char> > reach;
    int rootLev; size_t rootCol; size_t total; size_t reachable;
    int numRows;
};
// Reads the whole table through the public interface, checking that every reference is valid.
template<int AR> void checkTable(DdStructure<AR> const& dd, const char* what) {
    size_t total = 0;
    NodeTableEntity<AR> const& tab = *dd.getDiagram();
    int nr = tab.numRows();
    NodeId r = dd.root();
    if (r.row() >= nr || r.col() >= tab[r.row()].size()) sim::fail("STRUCT", "%s: root %d:%llu outside the table", what, r.row(), (ULL)r.col());
    for (int i = 1; i < nr; ++i) {
        size_t m = tab[i].size(); total += m;
        for (size_t j = 0; j < m; ++j) for (int b = 0; b < AR; ++b) {
            NodeId f = tab[i][j].branch[b];
            if (f.row() >= i || f.col() >= tab[f.row()].size())
                sim::fail("STRUCT", "%s: node %d:%llu has an invalid child %d:%llu", what, i, (ULL)j, f.row(), (ULL)f.col());
        }
    }
    if (total != dd.size()) sim::fail("STRUCT", "%s: size() is %llu but the table has %llu nodes", what, (ULL)dd.size(), (ULL)total);
}
// Canonical id of a library diagram.  *reach: nodes reachable from the root.
template<int AR> int canonOf(Canon& c, DdStructure<AR> const& dd, const char* what, size_t* reach = 0, bool* dup = 0) {
    // reference code reads the table directly; validity was established by checkTable
    NodeTableEntity<AR> const& tab = *dd.getDiagram();
    int n = dd.root().row();
    std::vector<std::vector<char> > seen(n + 1);
    std::vector<VI> id(n + 1);
    for (int i = 0; i <= n; ++i) { seen[i].assign(tab[i].size(), 0); id[i].assign(tab[i].size(), 0); }
    seen[n][dd.root().col()] = 1;
    size_t cnt = 0;
    for (int i = n; i >= 1; --i) for (size_t j = 0; j < tab[i].size(); ++j) if (seen[i][j]) { ++cnt; for (int b = 0; b < AR; ++b) { NodeId f = tab[i][j].branch[b]; seen[f.row()][f.col()] = 1; } }
    if (reach) *reach = cnt;
    id[0][0] = 0; id[0][1] = 1;
    if (dup) *dup = false;
    std::set<int> usedLevel;
    for (int i = 1; i <= n; ++i) {
        usedLevel.clear();
        for (size_t j = 0; j < tab[i].size(); ++j) if (seen[i][j]) {
            int ch[AR]; for (int b = 0; b < AR; ++b) { NodeId f = tab[i][j].branch[b]; ch[b] = id[f.row()][f.col()]; }
            id[i][j] = c.make(i, ch);
            if (dup && !usedLevel.insert(id[i][j]).second) *dup = true;
        }
    }
    (void)what;
    return id[n][dd.root().col()];
}

// ---------------------------------------------------------------- environment of a run
struct Env { int threads; bool mp, dyn, nested; };
inline Env drawEnv(bool allowSerial = true) {
    Env e;
    static const int th[] = { 2, 3, 4, 2, 1, 5, 6, 8, 7, 11, 16, 23 };
    e.threads = th[draw(12)];
    e.mp = allowSerial ? draw(5) != 4 : true; gMp = e.mp;
    e.dyn = fault(sim::F_TEAM_SHRINK, 4) == 3;
    e.nested = fault(sim::F_NESTED, 16) == 15;
    sim::setThreads(e.threads); sim::setDynamic(e.dyn);
    sim::note("threads=%d mp=%d dyn=%d nested=%d ", e.threads, e.mp, e.dyn, e.nested);
    return e;
}
// Runs fn; with env.nested, from inside an active parallel region of two workers.
template<typename F> void inEnv(Env const& e, F fn) {
    if (!e.nested) { fn(); return; }
    F* pf = &fn;
    int old = sim::threads();
    bool dyn = e.dyn;
    sim::setDynamic(false);
#pragma omp parallel num_threads(2)
    {
#pragma omp single
        { sim::setThreads(old); sim::setDynamic(dyn); (*pf)(); }
    }
    sim::setDynamic(dyn);
}

// ---------------------------------------------------------------- specifications
// Life cycle of heap-owning states.
struct Life {
    static long live, made, killed;
    static void reset() { live = made = killed = 0; }
};
inline long Life::live, Life::made, Life::killed;

struct Obj {
    uint32_t magic; int s; Obj const* self; int* heap;
    void init(int v) { { sim::Oracle o; ++Life::live; ++Life::made; } magic = 0x0B1EC7; self = this; s = v; heap = new int(v ^ 0x55); }
    Obj() { init(0); }
    Obj(Obj const& o) { o.check("copied"); init(o.s); }
    Obj& operator=(Obj const& o) { o.check("assigned from"); check("assigned"); s = o.s; *heap = *o.heap; return *this; }
    void set(int v) { check("written"); s = v; *heap = v ^ 0x55; }
    int get() const { check("read"); if (*heap != (s ^ 0x55)) bad("torn"); return s; }
    void check(const char* w) const { if (magic != 0x0B1EC7 || self != this) bad(w); }
    void bad(const char* w) const { sim::fail("LIFE", "a state that is not alive is %s (magic %x)", w, magic); }
    ~Obj() { if (magic == 0xDEAD0B1) bad("destroyed twice"); check("destroyed"); magic = 0xDEAD0B1; delete heap; { sim::Oracle o; --Life::live; ++Life::killed; } }
    bool operator==(Obj const& o) const { return get() == o.get(); }
    friend std::ostream& operator<<(std::ostream& os, Obj const& o) { return os << o.s; }
};

struct Throwing { };     // thrown by callbacks under fault injection

// Common part of all specifications below.
struct SpecCore {
    Auto const* A; int hashMode; int reenter;
    int scratchLev, scratchSt;
    SpecCore(Auto const* A, int hm) : A(A), hashMode(hm), reenter(0), scratchLev(0), scratchSt(0) {}
    static uint64_t throwAt, calls;
    struct Guard {   // a copy of a specification serves one worker at a time
        SpecCore& c;
        Guard(SpecCore& c) : c(c) { if (c.reenter) sim::fail("CONFINE", "one copy of a specification is used by two workers at once"); c.reenter = 1; }
        ~Guard() { c.reenter = 0; }
    };
    void tick() { if (throwAt && ++calls == throwAt) { sim::hit(sim::F_SPEC_THROW); reenter = 0; throw Throwing(); } }
    int root(int& st) { tick(); st = A->root.st; return A->root.lev; }
    int step(int& st, int lev, int b) {
        Guard g(*this); tick();
        scratchLev = lev; scratchSt = st;              // per-copy scratch, as user code keeps it
        if (lev < 1 || lev > A->n || st < 0 || st >= A->K[lev]) sim::fail("STATE", "getChild received state %d at level %d which was never produced there", st, lev);
        Tr x = A->next(scratchLev, scratchSt, b);
        st = x.st; return x.lev;
    }
    size_t hsh(size_t v) const { switch (hashMode) { case 1: return 0; case 2: return v & 3; case 3: return v << 20; case 4: return ~size_t(0) - (v & 7); default: return v * 314159257ULL; } }
};
inline uint64_t SpecCore::throwAt, SpecCore::calls;

template<int AR> struct SpecInt : DdSpec<SpecInt<AR>, int, AR>, SpecCore {
    SpecInt(Auto const* A, int hm = 0) : SpecCore(A, hm) {}
    int getRoot(int& s) { return root(s); }
    int getChild(int& s, int l, int v) { return step(s, l, v); }
    size_t hashCode(int const& s) const { return hsh(s); }
};
template<int AR> struct SpecObj : DdSpec<SpecObj<AR>, Obj, AR>, SpecCore {
    SpecObj(Auto const* A, int hm = 0) : SpecCore(A, hm) {}
    int getRoot(Obj& s) { int t; int l = root(t); s.set(t); return l; }
    int getChild(Obj& s, int l, int v) { int t = s.get(); int r = step(t, l, v); s.set(t); return r; }
    size_t hashCode(Obj const& s) const { return hsh(s.get()); }
};
template<int AR, typename E> struct SpecArr : PodArrayDdSpec<SpecArr<AR,E>, E, AR>, SpecCore {
    int m;
    SpecArr(Auto const* A, int size) : SpecCore(A, 0), m(size) { this->setArraySize(size); }
    void put(E* a, int s) { for (int i = 0; i < m; ++i) { a[i] = (E)((i % 2) ? (s >> 8) : s); } }
    int get(E const* a) const { int s = (unsigned char)a[0] + ((unsigned char)a[1]) * 256; if (sizeof(E) > 1) s = (a[0] & 0xff) | ((a[1] & 0xff) << 8);
        for (int i = 2; i < m; ++i) if (a[i] != a[i - 2]) sim::fail("STATE", "array state is torn"); return s; }
    int getRoot(E* a) { int t; int l = root(t); put(a, t); return l; }
    int getChild(E* a, int l, int v) { int t = get(a); int r = step(t, l, v); put(a, t); return r; }
    void printState(std::ostream& os, E const* a) const { os << get(a); }
};
template<int AR> struct SpecHyb : HybridDdSpec<SpecHyb<AR>, short, short, AR>, SpecCore {
    int m;
    SpecHyb(Auto const* A, int size) : SpecCore(A, 0), m(size) { this->setArraySize(size); }
    void put(short& x, short* a, int s) { x = (short)(s & 0xff); for (int i = 0; i < m; ++i) a[i] = (short)(s >> 8); }
    int get(short x, short const* a) const { for (int i = 1; i < m; ++i) if (a[i] != a[0]) sim::fail("STATE", "array state is torn"); return x | (a[0] << 8); }
    int getRoot(short& x, short* a) { int t; int l = root(t); put(x, a, t); return l; }
    int getChild(short& x, short* a, int l, int v) { int t = get(x, a); int r = step(t, l, v); put(x, a, t); return r; }
};
// Hybrid state whose scalar part owns heap memory.
template<int AR> struct SpecHybObj : HybridDdSpec<SpecHybObj<AR>, Obj, short, AR>, SpecCore {
    int m;
    SpecHybObj(Auto const* A, int size) : SpecCore(A, 0), m(size) { this->setArraySize(size); }
    void put(Obj& x, short* a, int s) { x.set(s & 0xff); for (int i = 0; i < m; ++i) a[i] = (short)(s >> 8); }
    int get(Obj const& x, short const* a) const { for (int i = 1; i < m; ++i) if (a[i] != a[0]) sim::fail("STATE", "array state is torn"); return x.get() | (a[0] << 8); }
    int getRoot(Obj& x, short* a) { int t; int l = root(t); put(x, a, t); return l; }
    int getChild(Obj& x, short* a, int l, int v) { int t = get(x, a); int r = step(t, l, v); put(x, a, t); return r; }
    size_t hashCode(Obj const& x) const { return x.get() * 31; }
    bool equalTo(Obj const& x, Obj const& y) const { return x.get() == y.get(); }
};

// State whose equality depends on the level it lives at: only one field counts there, the others
// hold leftovers of the path taken, as the cells of forgotten vertices do in frontier-based search.
struct LevState { short f[4]; };
inline int leftover(int l, int v) { return l % 3 ? v & 1 : 0; }     // some leftovers tell the branch, some do not
inline std::ostream& operator<<(std::ostream& os, LevState const& s) { return os << s.f[0] << "," << s.f[1] << "," << s.f[2] << "," << s.f[3]; }
template<int AR> struct SpecLev : DdSpec<SpecLev<AR>, LevState, AR>, SpecCore {
    SpecLev(Auto const* A, int hm = 0) : SpecCore(A, hm) {}
    int getRoot(LevState& s) { int t; int l = root(t); for (int i = 0; i < 4; ++i) s.f[i] = 0; s.f[l & 3] = (short)t; return l; }
    int getChild(LevState& s, int l, int v) { int t = s.f[l & 3]; int r = step(t, l, v); s.f[l & 3] = (short)leftover(l, v); s.f[r & 3] = (short)t; return r; }
    size_t hashCodeAtLevel(LevState const& s, int l) const { return hsh(s.f[l & 3]); }
    bool equalToAtLevel(LevState const& a, LevState const& b, int l) const { return a.f[l & 3] == b.f[l & 3]; }
};
template<int AR> struct SpecLevArr : PodArrayDdSpec<SpecLevArr<AR>, int, AR>, SpecCore {
    int m;
    SpecLevArr(Auto const* A, int size, int hm = 0) : SpecCore(A, hm), m(size) { this->setArraySize(size); }
    int at(int l) const { return l <= 0 ? 0 : l % m; }
    int getRoot(int* a) { int t; int l = root(t); for (int i = 0; i < m; ++i) a[i] = 0; a[at(l)] = t; return l; }
    int getChild(int* a, int l, int v) { int t = a[at(l)]; int r = step(t, l, v); a[at(l)] = leftover(l, v); a[at(r)] = t; return r; }
    size_t hashCodeAtLevel(int const* a, int l) const { return hsh(a[at(l)]); }
    bool equalToAtLevel(int const* a, int const* b, int l) const { return a[at(l)] == b[at(l)]; }
};
// No state at all: the automaton has one state per level.
template<int AR> struct SpecNone : StatelessDdSpec<SpecNone<AR>, AR>, SpecCore {
    SpecNone(Auto const* A) : SpecCore(A, 0) {}
    int getRoot() { int t; return root(t); }
    int getChild(int l, int v) { int t = 0; return step(t, l, v); }
};
inline bool stateless(Auto const& a) { for (int i = 1; i <= a.n; ++i) if (a.K[i] > 1) return false; return true; }
// Large states: they fill the blocks of a memory pool, or exceed them.
template<int AR> struct SpecFat : PodArrayDdSpec<SpecFat<AR>, int, AR>, SpecCore {
    int m;
    SpecFat(Auto const* A, int size) : SpecCore(A, 0), m(size) { this->setArraySize(size); }
    int getRoot(int* a) { int t; int l = root(t); for (int i = 0; i < m; ++i) a[i] = 0; a[0] = a[m - 1] = t; return l; }
    int getChild(int* a, int l, int v) {
        int t = a[0]; if (a[m - 1] != t || a[m / 2]) sim::fail("STATE", "array state is torn");
        int r = step(t, l, v); a[0] = a[m - 1] = t; return r; }
    size_t hashCode(int const* a) const { return hsh(a[0]); }
    bool equalTo(int const* a, int const* b) const { return a[0] == b[0] && a[m - 1] == b[m - 1]; }
};

// States of one byte and of nine bytes: just above a multiple of the word size.
template<int AR> struct SpecByte : DdSpec<SpecByte<AR>, unsigned char, AR>, SpecCore {
    SpecByte(Auto const* A, int hm = 0) : SpecCore(A, hm) {}
    int getRoot(unsigned char& s) { int t; int l = root(t); s = (unsigned char)t; return l; }
    int getChild(unsigned char& s, int l, int v) { int t = s; int r = step(t, l, v); s = (unsigned char)t; return r; }
    size_t hashCode(unsigned char const& s) const { return hsh(s); }
};
struct Nine {
    unsigned char c[9];
    void set(int v) { for (int i = 0; i < 8; ++i) c[i] = (unsigned char)(i * 29 + (v & 15)); c[8] = (unsigned char)v; }
    int get() const { for (int i = 0; i < 8; ++i) if (c[i] != (unsigned char)(i * 29 + (c[8] & 15))) sim::fail("STATE", "a state of nine bytes is torn"); return c[8]; }
    bool operator==(Nine const& o) const { return get() == o.get(); }
};
inline std::ostream& operator<<(std::ostream& os, Nine const& s) { return os << s.get(); }
template<int AR> struct SpecNine : DdSpec<SpecNine<AR>, Nine, AR>, SpecCore {
    SpecNine(Auto const* A, int hm = 0) : SpecCore(A, hm) {}
    int getRoot(Nine& s) { int t; int l = root(t); s.set(t); return l; }
    int getChild(Nine& s, int l, int v) { int t = s.get(); int r = step(t, l, v); s.set(t); return r; }
    size_t hashCode(Nine const& s) const { return hsh(s.get()); }
};
// States that refer to memory of their level, which the copy that made them holds until destructLevel().
struct LevelLog { std::map<int,int> dirty; void clear() { sim::Oracle o; dirty.clear(); } int left(int top = 1 << 30) const { for (auto& p : dirty) if (p.second && p.first <= top) return p.first; return 0; } };
struct Cell { int lev, st; };
struct CellRef { int st; Cell* c; int get() const { return c ? c->st : st; } bool operator==(CellRef const& o) const { return get() == o.get(); } };
inline std::ostream& operator<<(std::ostream& os, CellRef const& s) { return os << s.get(); }
template<int AR> struct SpecPool : DdSpec<SpecPool<AR>, CellRef, AR>, SpecCore {
    std::vector<std::vector<Cell*> > own; LevelLog* log;
    SpecPool(Auto const* A, int hm = 0, LevelLog* log = 0) : SpecCore(A, hm), own(A->n + 1), log(log) {}
    SpecPool(SpecPool const& o) : DdSpec<SpecPool<AR>, CellRef, AR>(o), SpecCore(o), own(A->n + 1), log(o.log) {}
    ~SpecPool() { for (int i = 0; i <= A->n; ++i) drop(i); }
    void drop(int i) { for (Cell* c : own[i]) delete c; own[i].clear(); }
    void put(CellRef& s, int t, int l) {
        s.st = t; s.c = 0; if (l <= 0) return;
        own[l].push_back(0); Cell* c = own[l].back() = new Cell; c->lev = l; c->st = t; s.c = c;
        if (log) { sim::Oracle o; log->dirty[l] = 1; }
    }
    int getRoot(CellRef& s) { int t; int l = root(t); put(s, t, l); return l; }
    int getChild(CellRef& s, int l, int v) {
        if (!s.c || s.c->lev != l) sim::fail("STATE", "getChild at level %d received a state of another level", l);
        int t = s.c->st; int r = step(t, l, v); put(s, t, r); return r; }
    size_t hashCode(CellRef const& s) const { return hsh(s.get()); }
    void destructLevel(int l) { if (l < 0 || l > A->n) return; drop(l); if (log) { sim::Oracle o; log->dirty[l] = 0; } }
};
inline bool byteSized(Auto const& a) { for (int i = 1; i <= a.n; ++i) if (a.K[i] > 256) return false; return true; }

// Calls fn with a specification of a drawn type that encodes A.
template<int AR, typename F> void withSpec(Auto const& A, F fn) {
    int kind = (int)draw(11), hm = (int)draw(8);
    if (hm > 4) hm = 0;
    if (gHuge) { hm = 0; if (kind > 1) kind = 0; }
    if ((kind == 8 || kind == 9) && !byteSized(A)) kind = 0;
    if (stateless(A) && kind == 5) { sim::note("spec=none "); SpecNone<AR> s(&A); fn(s); return; }
    sim::note("spec=%d hash=%d ", kind, hm);
    switch (kind) {
    case 1: { SpecObj<AR> s(&A, hm); fn(s); break; }
    case 2: { SpecArr<AR, unsigned char> s(&A, 2 + (int)draw(20)); fn(s); break; }
    case 3: { SpecArr<AR, int> s(&A, 2 + (int)draw(5)); fn(s); break; }
    case 4: { SpecHyb<AR> s(&A, 1 + (int)draw(9)); fn(s); break; }
    case 6: { SpecLev<AR> s(&A, hm); fn(s); break; }
    case 7: { SpecLevArr<AR> s(&A, 2 + (int)draw(6), hm); fn(s); break; }
    case 8: { SpecByte<AR> s(&A, hm); fn(s); break; }
    case 9: { SpecNine<AR> s(&A, hm); fn(s); break; }
    case 10: { std::unique_ptr<SpecPool<AR> > s; SUT(s.reset(new SpecPool<AR>(&A, hm))); fn(*s); SUT(s.reset()); break; }
    default: { SpecInt<AR> s(&A, hm); fn(s); break; }
    }
}

// reachable states and live reachable states of an automaton
inline void reachCounts(Auto const& a, size_t& reach, size_t& alive) {
    reach = alive = 0;
    if (a.root.lev <= 0) return;
    std::vector<std::vector<char> > r(a.n + 1), v(a.n + 1);
    for (int i = 1; i <= a.n; ++i) { r[i].assign(a.K[i], 0); v[i].assign(a.K[i], 0); }
    r[a.root.lev][a.root.st] = 1;
    for (int i = a.root.lev; i >= 1; --i) for (int s = 0; s < a.K[i]; ++s) if (r[i][s]) for (int b = 0; b < a.ar; ++b) { Tr x = a.next(i, s, b); if (x.lev > 0) r[x.lev][x.st] = 1; }
    for (int i = 1; i <= a.root.lev; ++i) for (int s = 0; s < a.K[i]; ++s) { for (int b = 0; b < a.ar; ++b) { Tr x = a.next(i, s, b); if (x.lev < 0 || (x.lev > 0 && v[x.lev][x.st])) v[i][s] = 1; } if (r[i][s]) { ++reach; if (v[i][s]) ++alive; } }
}
template<int AR> void checkMeaning(DdStructure<AR> const& dd, Auto const& a, const char* what) {
    SUT(checkTable(dd, what));
    for (int r = 0; r < 3; ++r) {
        Canon c((Rule)r, AR); size_t reach; 
        int x = canonOf(c, dd, what, &reach), y = c.fromAuto(a);
        if (x != y) sim::fail("MEANING", "%s: the diagram does not represent the specified function (rule %d)", what, r);
        sim::ev(reach);
    }
}

// ---------------------------------------------------------------- running library operations
template<int AR> using DdP = std::unique_ptr<DdStructure<AR> >;
template<int AR, typename SPEC> DdP<AR> mk(Env const& e, SPEC const& spec, bool mp) {
    DdP<AR> r;
    { sim::Sut s; inEnv(e, [&] { r.reset(new DdStructure<AR>(spec, mp)); }); }
    return r;
}
template<typename F> void op(Env const& e, F fn) { sim::Sut s; inEnv(e, fn); }
// Possibly changes the number of workers between two operations.
inline void perturbThreads(Env& e) {
    static const int th[] = { 2, 3, 4, 1, 5, 7, 8, 13 };
    if (fault(sim::F_THREADS_CHG, 3) == 2) { e.threads = th[draw(8)]; sim::setThreads(e.threads); sim::hit(sim::F_THREADS_CHG); sim::note("threads:=%d ", e.threads); }
}

// ---------------------------------------------------------------- explicit reference diagrams
struct Ref { int lev, col; };      // lev -1: accept, 0: reject
struct Dag {
    int ar; Ref root;
    std::vector<std::vector<Ref> > row;       // row[lev][col*ar+b]
    int levels() const { return (int)row.size() - 1; }
    size_t width(int l) const { return row[l].size() / ar; }
    size_t size() const { size_t k = 0; for (size_t i = 1; i < row.size(); ++i) k += row[i].size() / ar; return k; }
    int canon(Canon& c) const {
        if (root.lev <= 0) return root.lev ? 1 : 0;
        std::vector<VI> id(row.size()); VI ch(ar);
        for (size_t i = 1; i < row.size(); ++i) {
            id[i].resize(width(i));
            for (size_t j = 0; j < width(i); ++j) {
                for (int b = 0; b < ar; ++b) { Ref x = row[i][j * ar + b]; ch[b] = x.lev < 0 ? 1 : x.lev == 0 ? 0 : id[x.lev][x.col]; }
                id[i][j] = c.make((int)i, ch.data());
            }
        }
        return id[root.lev][root.col];
    }
};
template<int AR> Dag dagOf(DdStructure<AR> const& dd) {
    Dag g; g.ar = AR;
    NodeTableEntity<AR> const& tab = *dd.getDiagram();
    auto conv = [](NodeId f) { Ref r; r.lev = f.row(); r.col = (int)f.col(); if (r.lev == 0 && r.col) r.lev = -1; return r; };
    g.root = conv(dd.root());
    g.row.resize(tab.numRows() < 1 ? 1 : tab.numRows());
    for (int i = 1; i < tab.numRows(); ++i) {
        g.row[i].resize(tab[i].size() * AR);
        for (size_t j = 0; j < tab[i].size(); ++j) for (int b = 0; b < AR; ++b) g.row[i][j * AR + b] = conv(tab[i][j].branch[b]);
    }
    return g;
}
inline Dag dagOf(Auto const& a) {
    Dag g; g.ar = a.ar; g.root.lev = a.root.lev; g.root.col = a.root.st; g.row.resize(a.n + 1);
    for (int i = 1; i <= a.n; ++i) { g.row[i].resize(a.t[i].size()); for (size_t k = 0; k < a.t[i].size(); ++k) { g.row[i][k].lev = a.t[i][k].lev; g.row[i][k].col = a.t[i][k].st; } }
    return g;
}
template<int AR> void checkCanon(DdStructure<AR> const& dd, Canon& c, int want, const char* what) {
    SUT(checkTable(dd, what));
    size_t reach; int x = canonOf(c, dd, what, &reach);
    if (x != want) sim::fail("MEANING", "%s: the diagram does not represent the expected function (rule %d)", what, (int)c.rule);
    sim::ev(reach);
}
// Is the diagram the unique minimal one of its function under c.rule?
template<int AR> void checkMinimal(DdStructure<AR> const& dd, Canon& c, int f, const char* what) {
    NodeTableEntity<AR> const& tab = *dd.getDiagram();
    int n = std::max(tab.numRows() - 1, c.level(f));
    std::vector<size_t> want = c.perLevel(f, n);
    if (dd.root().row() != c.level(f)) sim::fail("MINIMAL", "%s: the root is at level %d instead of %d", what, dd.root().row(), c.level(f));
    for (int i = 1; i <= n; ++i) {
        size_t got = i < tab.numRows() ? tab[i].size() : 0;
        if (got != want[i]) sim::fail("MINIMAL", "%s: %llu nodes at level %d, the reduced diagram has %llu", what, (ULL)got, i, (ULL)want[i]);
    }
    if (dd.size() != c.count(f)) sim::fail("MINIMAL", "%s: size() is %llu, the reduced diagram has %llu nodes", what, (ULL)dd.size(), (ULL)c.count(f));
}
