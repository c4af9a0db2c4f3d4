// P11: graph input under read faults.  P12: exported text under write faults.
#include "common.hpp"
#include <tdzdd/util/Graph.hpp>
#include <tdzdd/spec/GraphillionZdd.hpp>
#include "io.hpp"
#include <fstream>
#include <iostream>

struct RefGraph {
    typedef std::pair<std::string, std::string> NP;
    std::vector<NP> edges; std::set<NP> seen; std::map<std::string, int> color; bool bad;
    RefGraph() : bad(false) {}
    void add(std::string const& a, std::string const& b) { if (seen.count(NP(a, b))) return; edges.push_back(NP(a, b)); seen.insert(NP(a, b)); seen.insert(NP(b, a)); }
};
static std::string sp() { static const char* const s[] = { " ", "\t", "  ", " \t ", "\r", " " }; return s[draw(6)]; }
static std::string eol() { static const char* const s[] = { "\n", "\n", " \n", "\r\n", "\n\n" }; return s[draw(5)]; }
static std::string vname(int v, int style) { char b[32]; if (style == 0) snprintf(b, sizeof b, "%d", v); else if (style == 1) snprintf(b, sizeof b, "v%d", v); else snprintf(b, sizeof b, "\xC3\xA9\x85\xFF%d,x", v); return b; }
static std::string itos(int v) { char b[16]; snprintf(b, sizeof b, "%d", v); return b; }

static std::string makeEdges(RefGraph& r, int nv, int ne, int style, int badLine) {
    std::string t; if (draw(8) == 7) t += eol();
    for (int i = 0; i < ne; ++i) {
        std::string a = vname(1 + (int)draw(nv), style), b = vname(1 + (int)draw(nv), style);
        if (draw(6) == 5) t += sp();
        if (i == badLine) { r.bad = true; switch (draw(3)) { case 0: t += a; break; case 1: t += a + sp() + b + sp() + a; break; default: t += a + sp() + b + sp() + a + sp() + b; } }
        else { t += a + sp() + b; r.add(a, b); }
        if (draw(6) == 5) t += sp();
        if (i + 1 < ne || draw(3)) t += eol(); else sim::note("no-eol ");
    }
    return t;
}
static std::string makeAdj(RefGraph& r, int nv, int badLine) {
    std::string t;
    for (int v = 1; v <= nv; ++v) {
        int k = (int)draw(4);
        for (int i = 0; i < k; ++i) { int w = 1 + (int)draw(nv); if (i || draw(4) == 3) t += sp()[0] == '\r' ? " " : sp(); if (v == badLine) { r.bad = true; t += draw(2) ? "x3" : "7y"; } else { t += itos(w); r.add(itos(v), itos(w)); } }
        if (draw(6) == 5) t += " ";
        if (v < nv || draw(3)) t += "\n"; else sim::note("no-eol ");
    }
    return t;
}
static std::string makeGroups(RefGraph& r, int ng, int badLine) {
    std::string t; std::vector<std::string> vs; std::set<std::string> u;
    for (auto& e : r.edges) { u.insert(e.first); u.insert(e.second); }
    vs.assign(u.begin(), u.end());
    int c = 0;
    for (int i = 0; i < ng; ++i) {
        int k = (int)draw(3);
        for (int j = 0; j < k && !vs.empty(); ++j) {
            size_t x = draw(vs.size()); if (j) t += " "; else if (draw(4) == 3) t += "  ";
            if (i == badLine) { r.bad = true; t += "q"; } else { t += vs[x]; r.color[vs[x]] = c; }
            vs.erase(vs.begin() + x);
        }
        ++c; if (i + 1 < ng || draw(3)) t += "\n";
    }
    return t;
}
static void checkGraph(Graph const& g, RefGraph const& r) {
    if ((size_t)g.edgeSize() != r.edges.size()) sim::fail("PARTIAL", "the graph has %d edges, the input describes %d", g.edgeSize(), (int)r.edges.size());
    std::set<std::string> vs; for (auto& e : r.edges) { vs.insert(e.first); vs.insert(e.second); }
    if ((size_t)g.vertexSize() != vs.size()) sim::fail("PARTIAL", "the graph has %d vertices, the input names %d", g.vertexSize(), (int)vs.size());
    std::set<int> nums;
    for (auto& v : vs) { int k = g.getVertex(v); if (k < 1 || k > g.vertexSize() || !nums.insert(k).second || g.vertexName(k) != v) sim::fail("GRAPH", "vertex name and number do not correspond"); }
    for (size_t i = 0; i < r.edges.size(); ++i) {
        RefGraph::NP p = g.edgeName((int)i), w = r.edges[i];
        if (p != w) sim::fail("GRAPH", "edge %d is %s,%s, the input has %s,%s", (int)i, p.first.c_str(), p.second.c_str(), w.first.c_str(), w.second.c_str());
        Graph::EdgeInfo const& e = g.edgeInfo((int)i); int a = g.getVertex(w.first), b = g.getVertex(w.second); if (a > b) std::swap(a, b);
        if (e.v1 != a || e.v2 != b) sim::fail("GRAPH", "edge %d joins other vertices than the input says", (int)i);
        if (g.getEdge(w.first, w.second) != (int)i || g.getEdge(w.second, w.first) != (int)i || g.getEdge(a, b) != (int)i) sim::fail("GRAPH", "edge %d is not found by its name", (int)i);
    }
    std::map<int, int> m, inv;
    for (auto& v : vs) {
        auto it = r.color.find(v); int c = g.colorNumber(g.getVertex(v));
        if ((it != r.color.end()) != (c != 0)) sim::fail("PARTIAL", "vertex %s has colour %d but is %sin a group", v.c_str(), c, it == r.color.end() ? "not " : "");
        if (it != r.color.end()) { if (m.count(it->second) && m[it->second] != c) sim::fail("GRAPH", "one group has two colours"); if (inv.count(c) && inv[c] != it->second) sim::fail("GRAPH", "two groups have one colour"); m[it->second] = c; inv[c] = it->second; }
    }
    if ((size_t)g.numColor() != m.size()) sim::fail("GRAPH", "%d colours for %d groups", g.numColor(), (int)m.size());
    // pairs
    std::map<int, std::vector<int>> grp; for (auto& v : vs) { auto it = r.color.find(v); if (it != r.color.end()) grp[it->second].push_back(g.getVertex(v)); }
    bool pairs = !grp.empty(); std::map<int, int> mate; for (auto& x : grp) if (x.second.size() == 2) { mate[x.second[0]] = x.second[1]; mate[x.second[1]] = x.second[0]; } else pairs = false;
    if (g.hasColorPairs() != pairs) sim::fail("GRAPH", "hasColorPairs() is %d", (int)g.hasColorPairs());
    for (int v = 1; v <= g.vertexSize(); ++v) if (g.virtualMate(v) != (mate.count(v) ? mate[v] : 0)) sim::fail("GRAPH", "vertex %d is paired with %d", v, (int)g.virtualMate(v));
    // what frontier-based specifications rely on: vertices in leaving order, first and last uses
    int E = g.edgeSize(), V = g.vertexSize(); std::vector<int> last(V + 1, -1), last2(V + 1, -1); std::set<int> col; int allSeen = m.empty() ? 0 : E, front = 0;
    for (int a = 0; a < E; ++a) { Graph::EdgeInfo const& e = g.edgeInfo(a); last2[e.v1] = last[e.v1]; last2[e.v2] = last[e.v2]; last[e.v1] = last[e.v2] = a; if (g.colorNumber(e.v1)) col.insert(g.colorNumber(e.v1)); if (g.colorNumber(e.v2)) col.insert(g.colorNumber(e.v2)); if (!m.empty() && col.size() == m.size() && allSeen == E) allSeen = a; }
    for (int v = 1; v < V; ++v) if (last[v] > last[v + 1]) sim::fail("GRAPH", "vertex %d is left after vertex %d", v, v + 1);
    for (int a = 0, v0 = 1; a < E; ++a) {
        Graph::EdgeInfo const& e = g.edgeInfo(a); while (last[v0] < a) ++v0;
        if (e.v0 != v0 || e.v1final != (last[e.v1] == a) || e.v2final != (last[e.v2] == a) || e.finalEdge != (a == E - 1) || e.allColorsSeen != (a >= allSeen)) sim::fail("GRAPH", "the frontier information of edge %d is wrong", a);
        if (e.v1final2 != (last2[e.v1] == a) || e.v2final2 != (last2[e.v2] == a)) sim::fail("GRAPH", "the second-last-use information of edge %d is wrong", a);
        front = std::max(front, e.v2 - v0 + 1);
    }
    if (g.maxFrontierSize() != front) sim::fail("GRAPH", "maxFrontierSize() is %d instead of %d", (int)g.maxFrontierSize(), front);
}
static bool faulted;
// Reads text with reader fn(g, filename).  Returns false if it threw.
template<typename F> static bool readText(std::string const& t, bool allowFault, F fn, std::string& what) {
    ReadPlan p; memset(&p, 0, sizeof p);
    static const int ch[] = { 0, 1, 2, 5, 17, 300, 4095 };
    p.chunk = ch[draw(7)]; p.eintr = draw(3) == 2;
    bool viaCin = draw(3) == 2; bool threw = false; faulted = false;
    int fk = allowFault ? (int)fault(sim::F_READ_EIO, 4) : 0;
    uint64_t at = draw(t.size() + 1);
    sim::note("%s len=%llu chunk=%d fault=%d@%llu ", viaCin ? "stdin" : "file", (ULL)t.size(), p.chunk, fk, (ULL)at);
    if (viaCin) {
        DripBuf b(t, p.chunk, fk >= 2, at);
        std::streambuf* old = std::cin.rdbuf(&b); std::cin.clear();
        { sim::Sut s; try { fn(std::string()); } catch (std::exception& e) { threw = true; sim::Oracle o; what = e.what(); } }
        std::cin.rdbuf(old); std::cin.clear(); faulted = b.hitErr;
    } else {
        MemFile f; f.put(t);
        static const int errs[] = { EIO, EISDIR, ESTALE, EIO };
        if (fk >= 2) { p.err = errs[draw(4)]; p.failAt = at; } else if (fk == 1) p.openErr = draw(2) ? EMFILE : ENOENT;
        sim::IoPlan io = { ReadPlan::onRead, 0, ReadPlan::onOpen, &p }; sim::setIo(&io);
        { sim::Sut s; try { fn(f.path); } catch (std::exception& e) { threw = true; sim::Oracle o; what = e.what(); } }
        sim::setIo(0); faulted = p.hitErr;
    }
    return !threw;
}
static void graphRun(int kind, int scale) {
    sim::stepLimit(4000000);
    RefGraph r; int nv = 1 + (int)draw(6 * scale), ne = (int)draw(12 * scale); bool tryBad = draw(6) == 5; int style = kind == 2 ? 0 : (int)draw(3);
    std::string t = kind == 1 ? makeAdj(r, nv, tryBad ? 1 + (int)draw(nv) : -1) : makeEdges(r, nv, ne, style, tryBad && kind == 0 && ne ? (int)draw(ne) : -1);
    std::string what; std::unique_ptr<Graph> g;
    { sim::Sut s; g.reset(new Graph); }
    bool ok = readText(t, kind != 2, [&](std::string const& fn) { if (kind == 1) g->readAdjacencyList(fn); else g->readEdges(fn); }, what);
    if (r.bad && ok) sim::fail("ACCEPTED", "malformed input is accepted");
    if (faulted && ok) sim::fail("PARTIAL", "reading failed part-way and the caller was not told");
    if (!r.bad && !faulted && !ok) sim::fail("REJECTED", "well-formed input is rejected: %s", what.c_str());
    if (ok) checkGraph(*g, r);
    if (!r.bad && faulted && draw(2)) {   // a reading that failed can be repeated
        sim::note("again ");
        ok = readText(t, false, [&](std::string const& fn) { if (kind == 1) g->readAdjacencyList(fn); else g->readEdges(fn); }, what);
        if (!ok) sim::fail("REJECTED", "well-formed input is rejected after a failed attempt: %s", what.c_str());
        checkGraph(*g, r);
    }
    if (kind == 2 && ok) for (int rep = 1 + (int)draw(2); rep > 0 && ok; --rep) {   // later groups replace earlier ones
        r.color.clear();
        std::string gt = makeGroups(r, 1 + (int)draw(5 + scale), tryBad ? (int)draw(3) : -1);
        ok = readText(gt, true, [&](std::string const& fn) { g->readVertexGroups(fn); }, what);
        if (r.bad && ok) sim::fail("ACCEPTED", "malformed vertex groups are accepted");
        if (faulted && ok) sim::fail("PARTIAL", "reading vertex groups failed part-way and the caller was not told");
        if (!r.bad && !faulted && !ok) sim::fail("REJECTED", "well-formed vertex groups are rejected: %s", what.c_str());
        if (ok) checkGraph(*g, r);
    }
    if (ok && !faulted && draw(3) == 2) {   // dump() writes every vertex and edge
        std::string s; { sim::Sut q; std::ostringstream os; os << *g; sim::Oracle o; s = os.str(); }
        size_t n = 0; for (size_t k = 0; (k = s.find("\"--\"", k)) != std::string::npos; ++k) ++n;
        if (n != r.edges.size()) sim::fail("GRAPH", "the dump of the graph has %d edges instead of %d", (int)n, (int)r.edges.size());
        n = 0; for (size_t k = 0; (k = s.find("[color=", k)) != std::string::npos; ++k) ++n;
        if (n != r.color.size()) sim::fail("GRAPH", "the dump of the graph has %d coloured vertices instead of %d", (int)n, (int)r.color.size());
        for (auto& x : r.edges) { std::string a = "  \"" + x.first + "\"--\"" + x.second + "\"", b = "  \"" + x.second + "\"--\"" + x.first + "\""; if (s.find(a) == std::string::npos && s.find(b) == std::string::npos) sim::fail("GRAPH", "the dump of the graph lacks an edge"); }
    }
    if (r.edges.size() > 1) sim::nontrivial();
    SUT(g.reset());
    if (sim::liveSut()) sim::fail("LEAK", "%llu blocks are left after the graph was destroyed", (ULL)sim::liveSut());
}
WORKLOAD(edges) { graphRun(0, 1); }
WORKLOAD(edgesbig) { graphRun(0, 60); }
WORKLOAD(adjacency) { graphRun(1, 1); }
WORKLOAD(adjacencybig) { graphRun(1, 120); }
WORKLOAD(groups) { graphRun(2, 1); }
WORKLOAD(groupsbig) { graphRun(2, 40); }

// A ZDD in Graphillion's text format: "id index lo hi" per node, B and T for the terminals.
static void graphillionRun(int maxN, int maxW) {
    sim::stepLimit(40000000); Env e = drawEnv();
    AutoParam q = drawParam(maxN, maxW); noteParam(q); Auto A = makeAuto(2, q);
    Canon c(ZDD_, 2); int f = c.fromAuto(A); if (f < 2) sim::reject("terminal");
    std::vector<int> order; std::set<int> seen; std::vector<int> st(1, f); int lmin = 1 << 30;
    while (!st.empty()) { int g = st.back(); st.pop_back(); if (g < 2 || !seen.insert(g).second) continue; order.push_back(g); lmin = std::min(lmin, c.level(g)); st.push_back(c.child(g, 0)); st.push_back(c.child(g, 1)); }
    std::sort(order.begin(), order.end()); if (draw(3) == 2) { SM r(draw(1000)); for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]); }
    int top = c.level(f), off = 1 + (int)draw(3); uint64_t mul = 1 + draw(3); std::string t; bool bad = false; size_t badAt = draw(8) == 7 ? draw(order.size()) : ~size_t(0);
    auto id = [&](int g) { char b[32]; if (g < 2) return std::string(g ? "T" : "B"); snprintf(b, 32, "%llu", (ULL)(g * mul)); return std::string(b); };
    for (size_t k = 0; k < order.size(); ++k) { int g = order[k]; char b[16]; snprintf(b, 16, "%d", top - c.level(g) + off); if (draw(8) == 7) t += " "; t += id(g) + " "; if (k == badAt) { bad = true; t += "?\n"; continue; } t += std::string(b) + " " + id(c.child(g, 0)) + " " + id(c.child(g, 1)); if (k + 1 < order.size() || draw(3)) t += "\n"; }
    if (!t.empty() && t.back() == '\n') t += draw(2) ? ".\n" : ".";
    std::string what; std::unique_ptr<GraphillionZdd> z; { sim::Sut s; z.reset(new GraphillionZdd); }
    bool ok = readText(t, true, [&](std::string const& fn) { z->read(fn); }, what);
    if (bad && ok) { if (!sim::known("zddfile-incomplete-node")) sim::fail("ACCEPTED", "a malformed ZDD file is accepted"); SUT(z.reset()); return; }
    if (faulted && ok) { if (!sim::known("zddfile-read-error")) sim::fail("PARTIAL", "reading a ZDD failed part-way and the caller was not told"); SUT(z.reset()); return; }
    if (!bad && !faulted && !ok) sim::fail("REJECTED", "a well-formed ZDD file is rejected: %s", what.c_str());
    if (ok) {
        std::map<int, int> sh; std::vector<int> up(order); std::sort(up.begin(), up.end()); sh[0] = 0; sh[1] = 1;
        for (int g : up) { int ch[2] = { sh[c.child(g, 0)], sh[c.child(g, 1)] }; int l = c.level(g) - lmin + 1; sh[g] = c.make(l, ch); }
        DdP<2> dd = mk<2>(e, *z, e.mp); checkCanon(*dd, c, sh[f], "ZDD read from a file"); SUT(dd.reset());
        if (order.size() > 3) sim::nontrivial();
    }
    SUT(z.reset());
}
WORKLOAD(zddfile) { graphillionRun(8, 12); }
WORKLOAD(zddfilebig) { graphillionRun(10, 300); }

// ---------------------------------------------------------------- P12
struct WritePlan {
    uint64_t pos, failAt; int chunk, err; bool hitErr; int eintrRun;
    static int onWrite(void* s, size_t want, size_t* take) {
        WritePlan& p = *(WritePlan*)s;
        if (p.eintrRun < 3 && p.chunk && fault(sim::F_MISC, 5) == 4) { ++p.eintrRun; sim::hit(sim::F_MISC); return EINTR; }
        p.eintrRun = 0;
        if (p.err && p.pos >= p.failAt) { p.hitErr = true; sim::hit(p.err == ENOSPC ? sim::F_WRITE_ENOSPC : sim::F_WRITE_EIO); return p.err; }
        size_t g = want;
        if (p.chunk && (size_t)p.chunk < g) { g = 1 + draw(p.chunk); sim::hit(sim::F_WRITE_SHORT); }
        if (p.err && p.pos + g > p.failAt) { g = p.failAt - p.pos; sim::hit(sim::F_WRITE_SHORT); }
        p.pos += g; *take = g; return 0;
    }
};
struct TightBuf : std::streambuf {      // accepts a number of characters, then refuses or throws
    std::string s; uint64_t cap; int mode; bool hitErr;
    TightBuf(uint64_t cap, int mode) : cap(cap), mode(mode), hitErr(false) {}
    int_type overflow(int_type c) override {
        sim::Oracle o;
        if (c == traits_type::eof()) return 0;
        if (mode && s.size() >= cap) { hitErr = true; sim::hit(mode == 2 ? sim::F_WRITE_THROW : sim::F_WRITE_ENOSPC); if (mode == 2) throw std::runtime_error("device error"); return traits_type::eof(); }
        s.push_back((char)c); return c;
    }
};
// Writes with fn(os) to a reliable stream, then to a faulty one.  Returns the reliable text.
static bool exportThrew;
template<typename F> static std::string writeText(F fn) {
    std::string want; bool plainBad = false; exportThrew = false;
    { sim::Sut s; std::ostringstream os; fn(os); plainBad = !os; sim::Oracle o; want = os.str(); }
    if (plainBad) sim::fail("STREAM", "writing to memory leaves the stream in a failed state");
    int kind = (int)draw(3); bool exc = draw(4) == 3; bool threw = false, failed = false, hitErr = false; std::string got;
    uint64_t at = draw(want.size() + 1);
    if (kind == 1) {
        MemFile f; WritePlan p; memset(&p, 0, sizeof p);
        static const int ch[] = { 0, 1, 7, 100, 1000 }; p.chunk = ch[draw(5)];
        if (fault(sim::F_WRITE_EIO, 2)) { p.err = draw(2) ? ENOSPC : EIO; p.failAt = at; }
        sim::note("file chunk=%d err=%d@%llu exc=%d ", p.chunk, p.err, (ULL)at, exc);
        sim::IoPlan io = { 0, WritePlan::onWrite, 0, &p }; sim::setIo(&io);
        { sim::Sut s; std::ofstream os; if (draw(4) == 3) os.rdbuf()->pubsetbuf(0, 0); os.open(f.path.c_str()); if (exc) os.exceptions(std::ios::badbit | std::ios::failbit);
          try { fn(os); os.flush(); } catch (std::exception&) { threw = true; }
          failed = !os; os.exceptions(std::ios::goodbit); os.clear(); }
        sim::setIo(0); got = f.get(); hitErr = p.hitErr;
    } else if (kind == 2) {
        int mode = (int)fault(sim::F_WRITE_THROW, 3);
        sim::note("buf mode=%d@%llu exc=%d ", mode, (ULL)at, exc);
        TightBuf b(at, mode);
        { sim::Sut s; std::ostream os(&b); if (exc) os.exceptions(std::ios::badbit);
          try { fn(os); os.flush(); } catch (std::exception&) { threw = true; }
          failed = !os; }
        got = b.s; hitErr = b.hitErr;
    } else return want;
    exportThrew = threw;
    if (threw && !(exc && hitErr)) sim::fail("STREAM", "an export throws although the stream %s", hitErr ? "does not ask for exceptions" : "works");
    if (hitErr && !failed && !threw) sim::fail("STREAM", "writing failed and the stream does not show it");
    if (!hitErr && failed) sim::fail("STREAM", "the stream is marked failed although every write succeeded");
    if (got.size() > want.size() || want.compare(0, got.size(), got)) sim::fail("TEXT", "the delivered bytes are not a prefix of the right text");
    if (!hitErr && got != want) sim::fail("TEXT", "every write succeeded but %llu of %llu bytes were delivered", (ULL)got.size(), (ULL)want.size());
    return want;
}

static void checkSapporo(DdStructure<2> const& dd, std::string const& t) {
    int n; size_t cnt; Dag g = sapporoDag(t, n, cnt);
    if (n < dd.topLevel()) sim::fail("TEXT", "%d inputs are declared for a diagram with %d levels", n, dd.topLevel());
    if (cnt != dd.size()) sim::fail("TEXT", "%llu nodes are announced, the diagram has %llu", (ULL)cnt, (ULL)dd.size());
    NodeTableEntity<2> const& tab = *dd.getDiagram();
    for (int k = 1; k <= n; ++k) if (g.width(k) != (k < tab.numRows() ? tab[k].size() : 0)) sim::fail("TEXT", "%d nodes are written for level %d", (int)g.width(k), k);
    Canon c(QDD, 2);
    if (g.canon(c) != canonOf(c, dd, "")) sim::fail("TEXT", "the exported text describes another function");
}
// The text of a specification's dump: one node per reachable state, edges as the automaton has them.
template<int AR> static void checkSpecDot(Auto const& A, std::string const& t) {
    Dot d = parseDot(t, AR);
    std::vector<std::vector<std::string> > name(A.n + 1); for (int i = 1; i <= A.n; ++i) name[i].resize(A.K[i]);
    size_t reach = 0, alive = 0; reachCounts(A, reach, alive);
    if (d.nodes.size() != reach) sim::fail("TEXT", "%d nodes are written, %d states are reachable", (int)d.nodes.size(), (int)reach);
    for (auto& x : d.nodes) { int i; long j; nid(x.first, i, j); int s = atoi(x.second.label.c_str()); if (i < 1 || i > A.n || s < 0 || s >= A.K[i] || !name[i][s].empty()) sim::fail("TEXT", "node %s has label '%s'", x.first.c_str(), x.second.label.c_str()); name[i][s] = x.first; }
    auto isOne = [&](std::string const& s) { int i; long j; nid(s, i, j); auto it = d.attrs.find(s); return i == 0 && j >= 1 && it != d.attrs.end() && it->second.find("label=\"T\"") != std::string::npos; };
    for (auto& x : d.nodes) {
        int i; long j; nid(x.first, i, j); int s = atoi(x.second.label.c_str()); std::vector<int> have(AR, 0);
        for (auto& e : x.second.e) {
            if (e.b >= AR || have[e.b]++) sim::fail("TEXT", "branch %d of node %s is written twice", e.b, x.first.c_str());
            Tr y = A.next(i, s, e.b);
            if (y.lev < 0 ? !isOne(e.to) : y.lev == 0 || e.to != name[y.lev][y.st]) sim::fail("TEXT", "branch %d of node %s leads to %s", e.b, x.first.c_str(), e.to.c_str());
        }
        for (int b = 0; b < AR; ++b) if (!have[b] && A.next(i, s, b).lev) sim::fail("TEXT", "branch %d of node %s is missing", b, x.first.c_str());
    }
    if (A.root.lev > 0 ? d.root != name[A.root.lev][A.root.st] : A.root.lev < 0 ? !isOne(d.root) : !d.root.empty()) sim::fail("TEXT", "the root is '%s'", d.root.c_str());
}
// The text of a diagram's dump (as a specification): the part reachable from the root.
template<int AR> static void checkDdDot(DdStructure<AR> const& dd, std::string const& t) {
    Dot d = parseDot(t, AR);
    std::map<std::string, Ref> pos; Dag g; g.ar = AR; g.row.resize(dd.topLevel() + 1);
    for (auto& x : d.nodes) { int i; long j; nid(x.first, i, j); if (i < 1 || i > dd.topLevel()) sim::fail("TEXT", "node %s is at a level the diagram does not have", x.first.c_str()); Ref r; r.lev = i; r.col = (int)g.width(i); pos[x.first] = r; Ref z; z.lev = z.col = 0; for (int b = 0; b < AR; ++b) g.row[i].push_back(z); }
    auto ref = [&](std::string const& s) { if (pos.count(s)) return pos[s]; Ref r; r.col = 0; r.lev = -1; auto it = d.attrs.find(s); if (it == d.attrs.end() || it->second.find("label=\"T\"") == std::string::npos) sim::fail("TEXT", "an edge leads to '%s'", s.c_str()); return r; };
    for (auto& x : d.nodes) { Ref me = pos[x.first]; std::set<int> have; for (auto& e : x.second.e) { if (e.b >= AR || !have.insert(e.b).second) sim::fail("TEXT", "branch %d of node %s is written twice", e.b, x.first.c_str()); Ref r = ref(e.to); if (r.lev >= me.lev) sim::fail("TEXT", "an edge does not lead downwards"); g.row[me.lev][me.col * AR + e.b] = r; } }
    if (d.root.empty()) g.root.lev = g.root.col = 0; else g.root = ref(d.root);
    Canon c(QDD, AR); size_t reach = 0; int f = canonOf(c, dd, "", &reach);
    if (g.size() != reach) sim::fail("TEXT", "%d nodes are written, %d are reachable from the root", (int)g.size(), (int)reach);
    if (g.canon(c) != f) sim::fail("TEXT", "the exported text describes another function");
}
// The text of a node table: every node.
template<int AR> static void checkTableDot(DdStructure<AR> const& dd, std::string const& t) {
    Dot d = parseDot(t, AR); NodeTableEntity<AR> const& tab = *dd.getDiagram();
    if (d.nodes.size() != dd.size()) sim::fail("TEXT", "%d nodes are written, the table has %d", (int)d.nodes.size(), (int)dd.size());
    for (auto& x : d.nodes) {
        int i; long j; nid(x.first, i, j); std::vector<int> have(AR, 0);
        if (i < 1 || i >= tab.numRows() || j < 0 || (size_t)j >= tab[i].size()) sim::fail("TEXT", "node %s does not exist", x.first.c_str());
        for (auto& e : x.second.e) {
            NodeId f = e.b < AR ? tab[i][j].branch[e.b] : NodeId(0); char want[64]; snprintf(want, sizeof want, "%d:%llu", f.row(), (ULL)f.col());
            if (e.b >= AR || have[e.b]++ || f == 0 || e.to != (f == 1 ? std::string("$") : std::string(want))) sim::fail("TEXT", "branch %d of node %s leads to %s", e.b, x.first.c_str(), e.to.c_str());
            if (f == 1 && !d.attrs.count("$")) sim::fail("TEXT", "the 1-terminal is not declared");
        }
        for (int b = 0; b < AR; ++b) if (!have[b] && tab[i][j].branch[b] != 0) sim::fail("TEXT", "branch %d of node %s is missing", b, x.first.c_str());
    }
}
static void sapporoOf(DdStructure<2> const& dd) { std::string t = writeText([&](std::ostream& os) { dd.dumpSapporo(os); }); checkSapporo(dd, t); }
template<int AR> static void sapporoOf(DdStructure<AR> const&) {}

template<int AR> static void exportRun(int maxN, int maxW) {
    Env e = drawEnv(); AutoParam q = drawParam(maxN, maxW); noteParam(q);
    Auto A = makeAuto(AR, q); drawRoot(A);
    int kind = (int)draw(5);
    if (kind == 0) {       // a specification
        std::string t; int hm = (int)draw(5), sk = (int)draw(4); sim::note("specdot%d ", sk); Life::reset();
        bool sh = draw(2); auto go = [&](auto const& s) { t = writeText([&](std::ostream& os) { if (sh) os << s; else s.dumpDot(os, "t"); }); };
        if (sk == 0) { SpecInt<AR> s(&A, hm); go(s); } else if (sk == 1) { SpecObj<AR> s(&A, hm); go(s); } else if (sk == 3) { LevelLog log; std::unique_ptr<SpecPool<AR> > s; SUT(s.reset(new SpecPool<AR>(&A, hm, &log))); go(*s); SUT(s.reset()); if (!exportThrew && log.left()) sim::fail("LEVEL", "the export returns without destructLevel(%d), though states of that level were made", log.left()); } else { SpecArr<AR, unsigned char> s(&A, 2 + (int)draw(6)); go(s); }
        checkSpecDot<AR>(A, t);
        if (Life::live && !exportThrew) sim::fail("LIFE", "%ld states are alive after the export", Life::live);
        size_t r, al; reachCounts(A, r, al); if (r > 3) sim::nontrivial();
    } else {
        DdP<AR> dd; withSpec<AR>(A, [&](auto const& spec) { dd = mk<AR>(e, spec, e.mp); });
        for (int k = (int)draw(3); k > 0; --k) {
            int o = (int)draw(4); perturbThreads(e);
            if (o == 3) { AutoParam q2 = drawDense(maxN, maxW, std::max(1, dd->topLevel())); Auto B = makeAuto(AR, q2); SpecInt<AR> sb(&B); op(e, [&] { dd->zddSubset(sb); }); }
            else op(e, [&] { if (o == 0) dd->zddReduce(); else if (o == 1) dd->bddReduce(); else dd->qddReduce(); });
        }
        if (draw(6) == 5) { DdP<AR> d2(new DdStructure<AR>(*dd)); SUT(checkTable(*d2, "copy")); SUT(d2.reset()); }
        Canon c(QDD, AR); int f = canonOf(c, *dd, ""); size_t size = dd->size();
        SUT(checkTable(*dd, "diagram"));
        bool sh = draw(2);
        if (kind == 1 || (kind == 4 && AR != 2)) { sim::note("dddot "); checkDdDot<AR>(*dd, writeText([&](std::ostream& os) { if (sh) os << *dd; else dd->dumpDot(os, "some title"); })); }
        else if (kind == 2) { sim::note("tabledot "); checkTableDot<AR>(*dd, writeText([&](std::ostream& os) { dd->getDiagram()->dumpDot(os, sh ? "t" : ""); })); }
        else { sim::note("sapporo "); sapporoOf(*dd); }
        SUT(checkTable(*dd, "diagram after export"));
        if (canonOf(c, *dd, "") != f || dd->size() != size) sim::fail("CHANGED", "an export changed the diagram");
        if (size > 3) sim::nontrivial();
        SUT(dd.reset());
    }
}
WORKLOAD(export2) { exportRun<2>(10, 12); }
WORKLOAD(export2wide) { exportRun<2>(8, 100); }
WORKLOAD(export2deep) { gHugeOk = HUGE_DEEP; exportRun<2>(60, 3); }
WORKLOAD(export3) { exportRun<3>(6, 12); }
WORKLOAD(export4) { exportRun<4>(5, 8); }
