// P20: the bundled programs, run whole (main() with arguments, standard streams and files).
#include "common.hpp"
#include "gref.hpp"
#include "io.hpp"
#include <tdzdd/util/IntSubset.hpp>
#include <tdzdd/spec/SizeConstraint.hpp>
#include <tdzdd/spec/DegreeConstraint.hpp>
#include <tdzdd/spec/PathZdd.hpp>
#include <tdzdd/spec/PathZddByStdMap.hpp>
#include <tdzdd/spec/FrontierBasedSearch.hpp>
#include <tdzdd/spec/LinearConstraints.hpp>
#include <tdzdd/spec/GraphillionZdd.hpp>
#include <tdzdd/spec/SapporoZdd.hpp>
#include <tdzdd/eval/ToZBDD.hpp>
#include <bits/stdc++.h>        // whatever the programs include has to be in before the namespaces open

namespace queens {
#define main program
#include "apps/ddqueens/ddqueens.cpp"
#undef main
}
namespace numlink {
#include "apps/numberlink/Board.cpp"
#include "apps/numberlink/ConstraintZdd.cpp"
#include "apps/numberlink/DegreeZdd.cpp"
#include "apps/numberlink/NumlinZdd.cpp"
#define main program
#include "apps/numberlink/ddnumlin.cpp"
#undef main
}
namespace paths {
#define main program
#include "apps/ddpaths/ddpaths.cpp"
#undef main
}

namespace gillion {
#define main program
#include "apps/graphillion/graphillion_example.cpp"
#undef main
}

#include "app.hpp"
static bool mine(const char* n) { return strstr(n, "N6queens") || strstr(n, "N7numlink") || strstr(n, "N5paths") || strstr(n, "N7gillion"); }
// canonical ZDD of a family given by its members (levels)
static int familyZdd(Canon& c, std::vector<VI> const& f) {
    int top = 0; for (auto& s : f) for (int l : s) top = std::max(top, l);
    if (f.empty()) return 0;
    if (!top) return 1;
    std::vector<VI> a, b;
    for (auto& s : f) { VI t; bool in = false; for (int l : s) if (l == top) in = true; else t.push_back(l); (in ? b : a).push_back(t); }
    int ch[2] = { familyZdd(c, a), familyZdd(c, b) }; return c.make(top, ch);
}
// ---------------------------------------------------------------- ddqueens
static bool placeable(VI const& p, bool rook) { for (size_t a = 0; a < p.size(); ++a) for (size_t b = a + 1; b < p.size(); ++b) if (p[a] == p[b] || (!rook && std::abs(p[a] - p[b]) == (int)(b - a))) return false; return true; }
// all placements of n pieces, p[i] = column in row i; first: column of the piece in the top row (n-1), or -1
static std::vector<VI> placements(int n, bool rook, int first) {
    std::vector<VI> r; VI p(n); for (int i = 0; i < n; ++i) p[i] = i;
    do { if (placeable(p, rook) && (first < 0 || p[n - 1] == first)) r.push_back(p); } while (std::next_permutation(p.begin(), p.end()));
    return r;
}
static std::vector<VI> boardSets(int n, bool rook, int first) {
    std::vector<VI> r; for (auto& p : placements(n, rook, first)) { VI s; for (int i = 0; i < n; ++i) s.push_back(i * n + p[i] + 1); r.push_back(s); } return r;
}
// n disjoint placements, colour k's piece of the top row in column k (mirrored: n-1-k)
static std::vector<VI> colourSets(int n, bool rook, bool mirrored) {
    std::vector<std::vector<VI> > pl(n); for (int k = 0; k < n; ++k) pl[k] = placements(n, rook, mirrored ? n - 1 - k : k);
    std::vector<VI> r; std::vector<VI const*> ch;
    std::function<void()> rec = [&] {
        int k = (int)ch.size();
        if (k == n) { VI s; for (int c = 0; c < n; ++c) for (int i = 0; i < n; ++i) s.push_back(i * n * n + (*ch[c])[i] * n + c + 1); r.push_back(s); return; }
        for (auto& p : pl[k]) { bool ok = true; for (auto q : ch) for (int i = 0; i < n && ok; ++i) if (p[i] == (*q)[i]) ok = false; if (ok) { ch.push_back(&p); rec(); ch.pop_back(); } }
    };
    rec(); return r;
}
static void queensRun() {
    sim::stepLimit(2000000000ULL);
    Env e = drawEnv(); int kind = (int)draw(4); static const int cn[] = { 4, 5, 1, 3, 2 };
    int n = kind < 2 ? (draw(12) == 11 ? 7 : 1 + (int)std::max(draw(6), draw(6))) : cn[draw(5)]; bool dump = draw(3) != 2, report = !dump || draw(3) != 2;
    VS a; a.push_back("ddqueens"); if (e.mp) a.push_back("-p");
    if (kind == 1) a.push_back("-rook"); if (kind == 2) a.push_back("-colored1"); if (kind == 3) a.push_back("-colored");
    if (dump) a.push_back("-dump"); if (!report) a.push_back("-noreport"); a.push_back(std::to_string(n));
    mixArgs(a);
    for (auto& x : a) sim::note("%s ", x.c_str());
    App r = runApp(e, a, 0, [](int c, char** v) { return queens::program(c, v); });
    if (r.rc) sim::fail("EXIT", "the program returns %d", r.rc);
    Canon c(ZDD_, 2); std::vector<VI> f = kind < 2 ? boardSets(n, false, -1) : colourSets(n, false, kind == 3); int want = familyZdd(c, f);
    if (report) { checkNumber(r.err, "#solution = ", (double)f.size()); checkNumber(r.err, "#node = ", (double)c.count(want)); }
    if (dump) { size_t nodes; if (dotZdd(c, r.out, &nodes) != want) sim::fail("MEANING", "the dumped diagram is not that of the %d solutions", (int)f.size()); }
    else if (!r.out.empty()) sim::fail("TEXT", "unasked output");
    if (f.size() > 1) sim::nontrivial();
}
WORKLOAD(queens) { queensRun(); }

// The specifications of ddqueens/, used directly.
static void queenSpecRun() {
    sim::stepLimit(2000000000ULL);
    Env e = drawEnv(); int kind = (int)draw(7); Canon c(ZDD_, 2); DdP<2> dd; std::vector<VI> f; int want = -1; const char* what = "";
    if (kind < 2) { int n = 1 + (int)draw(5); int k = draw(4) ? (int)draw(n) : -1; sim::note("%s n=%d first=%d ", kind ? "rooks" : "queens", n, k);
        if (kind) { what = "NRookZdd"; if (k < 0) { queens::NRookZdd s(n); dd = mk<2>(e, s, e.mp); } else { queens::NRookZdd s(n, k); dd = mk<2>(e, s, e.mp); } }
        else { what = "NQueenZdd"; if (k < 0) { queens::NQueenZdd s(n); dd = mk<2>(e, s, e.mp); } else { queens::NQueenZdd s(n, k); dd = mk<2>(e, s, e.mp); } }
        f = boardSets(n, kind, k < 0 ? -1 : n - 1 - k); want = familyZdd(c, f); }
    else if (kind == 2) { int n = 1 + (int)draw(4); sim::note("latin n=%d ", n); what = "ColoredNRookZdd"; queens::ColoredNRookZdd s(n); dd = mk<2>(e, s, e.mp); f = colourSets(n, true, false); want = familyZdd(c, f); }
    else if (kind < 5) { bool hot = kind == 3; int ar = 2 + (int)draw(3), len = 1 + (int)draw(5); sim::note("%s %d^%d ", hot ? "onehot" : "nary", ar, len); what = hot ? "OneHotNAryZdd" : "NAryZdd";
        if (hot) { queens::OneHotNAryZdd s(ar, len); dd = mk<2>(e, s, e.mp); } else { queens::NAryZdd s(ar, len); dd = mk<2>(e, s, e.mp); }
        int g = hot ? ar : ar - 1; want = 1;      // groups of g items, exactly (at most) one of each
        for (int k = 0; k < len; ++k) { int x = hot ? 0 : want; for (int j = 0; j < g; ++j) { int ch[2] = { x, want }; x = c.make(k * g + j + 1, ch); } want = x; } }
    else { // interleaving of families
        int n = 1 + (int)draw(4), form = (int)draw(3); std::vector<DdStructure<2> > v; std::vector<int> ids; what = "ZddInterleave"; sim::note("interleave n=%d form=%d ", n, form);
        int m = form == 1 ? n : 1, top = 0; Canon p(ZDD_, 2);
        for (int k = 0; k < m; ++k) { AutoParam q = drawParam(5, 4); Auto A = makeAuto(2, q); if (m == 1 && draw(3)) q.p1 = 0; drawRoot(A); SpecInt<2> s(&A); { sim::Sut t; v.push_back(DdStructure<2>(s, e.mp)); if (draw(2)) v.back().zddReduce(); } ids.push_back(p.fromAuto(A)); top = v.back().topLevel(); }
        int pos = (int)draw(n);
        int dc = 1; for (int l = 1; l <= top; ++l) { int ch[2] = { dc, dc }; dc = p.make(l, ch); }
        if (form == 0) { queens::ZddInterleave s(v[0], n); dd = mk<2>(e, s, e.mp); ids.assign(n, ids[0]); }
        else if (form == 1) { queens::ZddInterleave s(v); dd = mk<2>(e, s, e.mp); }
        else { queens::ZddInterleave s(v[0], n, pos); dd = mk<2>(e, s, e.mp); int x = ids[0]; ids.assign(n, dc); ids[pos] = x; }
        std::map<VI, int> memo;
        std::function<int(VI)> rec = [&](VI a) -> int {
            int l = 0, k = 0; for (int j = 0; j < n; ++j) { if (!a[j]) return 0; if (a[j] > 1 && (p.level(a[j]) - 1) * n + j + 1 > l) { l = (p.level(a[j]) - 1) * n + j + 1; k = j; } }
            if (!l) return 1; auto it = memo.find(a); if (it != memo.end()) return it->second;
            int ch[2]; for (int b = 0; b < 2; ++b) { VI t = a; t[k] = p.child(a[k], b); ch[b] = rec(t); }
            int r = c.make(l, ch); memo[a] = r; return r; };
        want = rec(ids); SUT(v.clear(); v.shrink_to_fit()); }
    checkCanon(*dd, c, want, what);
    if (draw(2)) { perturbThreads(e); op(e, [&] { dd->zddReduce(); }); checkCanon(*dd, c, want, what); checkMinimal(*dd, c, want, what); }
    if (c.count(want) > 2) sim::nontrivial();
    SUT(dd.reset());
}
WORKLOAD(queenspec) { queenSpecRun(); }

// ---------------------------------------------------------------- ddnumlin
struct Puzzle {
    int rows, cols; std::vector<VI> num;
    struct Sol { std::vector<VI> h, v; int blanks; };
    bool solve(std::vector<Sol>& out) const {      // every way to draw the lines
        int H = rows * (cols - 1); if (H > 16) return false;
        for (uint32_t m = 0; m < 1u << H; ++m) {
            Sol s; s.h.assign(rows, VI(cols, 0)); s.v.assign(rows, VI(cols, 0)); s.blanks = 0;
            for (int i = 0; i < rows; ++i) for (int j = 0; j + 1 < cols; ++j) s.h[i][j] = m >> (i * (cols - 1) + j) & 1;
            bool ok = true;
            for (int i = 0; i < rows && ok; ++i) for (int j = 0; j < cols && ok; ++j) {
                int d = (num[i][j] > 0) + (j ? s.h[i][j - 1] : 0) + s.h[i][j] + (i ? s.v[i - 1][j] : 0);
                if (d > 2) ok = false; else if (d == 1) { if (i + 1 < rows) s.v[i][j] = 1; else ok = false; } else if (d == 0) ++s.blanks;
            }
            if (!ok) continue;
            VI id(rows * cols); for (size_t x = 0; x < id.size(); ++x) id[x] = (int)x;
            auto root = [&](int x) { while (id[x] != x) x = id[x]; return x; };
            for (int i = 0; i < rows && ok; ++i) for (int j = 0; j < cols && ok; ++j) for (int q = 0; q < 2; ++q) if (q ? s.v[i][j] : s.h[i][j]) { int a = root(i * cols + j), b = root(q ? (i + 1) * cols + j : i * cols + j + 1); if (a == b) ok = false; id[a] = b; }
            std::map<int, int> lab; std::map<int, int> cnt;
            for (int i = 0; i < rows && ok; ++i) for (int j = 0; j < cols && ok; ++j) if (num[i][j] > 0) { int r = root(i * cols + j); if (lab.count(r) && lab[r] != num[i][j]) ok = false; lab[r] = num[i][j]; }
            if (ok) out.push_back(s);
        }
        return true;
    }
    VS render(Sol const& s) const {
        VS r;
        for (int i = 0; i < rows; ++i) {
            std::string t;
            for (int j = 0; j < cols; ++j) {
                bool L = j && s.h[i][j - 1], R = s.h[i][j], U = i && s.v[i - 1][j], D = s.v[i][j];
                if (L + R + U + D < 2) { char b[16]; if (num[i][j]) snprintf(b, sizeof b, "%2d", num[i][j]); else strcpy(b, "  "); t += b; }
                else t += L && R ? "──" : L && U ? "─┘" : L && D ? "─┐" : R && U ? " └" : R && D ? " ┌" : " │";
            }
            r.push_back(t);
        }
        return r;
    }
};
// the boards in a text: rows between the frame's bars
static std::vector<VS> boards(std::string const& t) {
    std::vector<VS> r; size_t k = 0; bool in = false;
    while (k < t.size()) {
        size_t e = t.find('\n', k); if (e == std::string::npos) sim::fail("TEXT", "the last line is not terminated"); std::string l = t.substr(k, e - k); k = e + 1;
        size_t b = l.find_first_not_of(' '); if (b == std::string::npos) continue; l = l.substr(b);
        if (l.compare(0, 3, "┏") == 0) { r.push_back(VS()); in = true; }
        else if (l.compare(0, 3, "┗") == 0) in = false;
        else if (in) { std::string bar = "┃"; if (l.size() < 7 || l.compare(0, 3, bar) || l.compare(l.size() - 3, 3, bar)) sim::fail("TEXT", "malformed board line '%s'", l.c_str()); r.back().push_back(l.substr(3, l.size() - 7)); }
    }
    if (in) sim::fail("TEXT", "a board has no end");
    return r;
}
static void linkRun(int maxCells) {
    sim::stepLimit(2000000000ULL);
    Env e = drawEnv(); Puzzle q; q.rows = 1 + (int)draw(5); q.cols = 1 + (int)draw(5);
    while (q.rows * q.cols > maxCells || std::min(q.rows * (q.cols - 1), q.cols * (q.rows - 1)) > 12 || q.rows * (q.cols - 1) > 16) if (q.cols > q.rows) --q.cols; else --q.rows;
    if (q.rows * q.cols < 2) q.cols = 2 + (int)draw(6);
    q.num.assign(q.rows, VI(q.cols, 0));
    if (draw(4) == 3) { int k = (int)draw(6); for (int i = 0; i < k; ++i) q.num[draw(q.rows)][draw(q.cols)] = 1 + (int)draw(3); }       // labels anywhere, not always in pairs
    else { // the ends of lines drawn at random: solvable
        std::vector<VI> used(q.rows, VI(q.cols, 0)); int labs = 1 + (int)draw(3), far = (int)draw(8), big = far == 7 ? 10 + (int)draw(80) : far == 6 ? 235 + (int)draw(30) : far == 5 ? 65520 + (int)draw(20) : 0;
        for (int t = 1; t <= labs; ++t) {
            int i = (int)draw(q.rows), j = (int)draw(q.cols); if (used[i][j]) continue;
            int si = i, sj = j, len = 0, max = 1 + (int)draw(q.rows + q.cols); used[i][j] = 1;
            while (len < max) { static const int di[] = { 0, 1, 0, -1 }, dj[] = { 1, 0, -1, 0 }; int d = (int)draw(4), k; for (k = 0; k < 4; ++k, d = (d + 1) % 4) { int a = i + di[d], b = j + dj[d]; if (a >= 0 && b >= 0 && a < q.rows && b < q.cols && !used[a][b]) { i = a; j = b; break; } } if (k == 4) break; used[i][j] = 1; ++len; }
            if (len) q.num[si][sj] = q.num[i][j] = t + big; else used[i][j] = 0;
        }
    }
    Input in; std::string& t = in.text;
    if (draw(4) == 3) t += "# a puzzle\n"; if (draw(6) == 5) t += "\n";
    if (draw(3) == 2) t += std::to_string(q.rows) + (draw(2) ? "," : " , ") + std::to_string(q.cols); else t += std::to_string(q.cols) + " " + std::to_string(q.rows);
    t += draw(4) == 3 ? "  \n" : "\n";
    static const char* const bl[] = { "-", ".", "0", "_" }; const char* blank = bl[draw(4)]; bool extra = draw(6) == 5, brief = draw(6) == 5; bool ended = false;
    for (int i = 0; i < q.rows; ++i) {
        int to = q.cols; if (brief) while (to > 0 && !q.num[i][to - 1]) --to;       // blanks at the end of a row may be left out
        for (int j = 0; j < to; ++j) { if (j) t += " "; if (q.num[i][j]) t += std::to_string(q.num[i][j]); else t += blank; }
        if (extra && to == q.cols) t += " 9";
        if (i + 1 < q.rows || (ended = draw(3) != 0)) t += "\n";
    }
    if (ended && draw(6) == 5) t += "9 9 9\n";
    for (int i = 0; i < q.rows; ++i) { sim::note(i ? "/" : "board "); for (int j = 0; j < q.cols; ++j) sim::note("%d ", q.num[i][j]); }
    { std::string x; for (char ch : t) if (ch == 10) x += "\\n"; else x += ch; sim::note("text \"%s\" ", x.c_str()); }
    bool all = draw(3) != 2; int k = draw(3) == 2 ? (int)draw(4) : -1; int m = draw(2) ? -1 : draw(6) == 5 ? 0 : draw(2) ? (int)draw(30) : 100000;
    in.prepare(true, true);
    VS a; a.push_back("ddnumlin"); if (all) a.push_back("-a"); if (e.mp) a.push_back("-p"); if (k >= 0) { a.push_back("-k"); a.push_back(std::to_string(k)); } if (m >= 0) { a.push_back("-m"); a.push_back(std::to_string(m)); } a.insert(a.begin() + 1 + draw(a.size()), in.arg);
    { std::vector<std::string>& x = a; for (size_t y = 1; y + 1 < x.size(); ++y) if ((x[y] == "-k" || x[y] == "-m") && x[y + 1] == in.arg) { x.erase(x.begin() + y + 1); x.push_back(in.arg); break; } }
    mixArgs(a);
    for (auto& x : a) sim::note("%s ", x == in.arg ? "FILE" : x.c_str());
    Disk d; d.in.push_back(&in); sim::setIo(&d.io);
    App r = runApp(e, a, in.b.get(), [](int c, char** v) { return numlink::program(c, v); });
    sim::setIo(0);
    if (in.hit()) { if (!r.rc) sim::fail("PARTIAL", "reading the puzzle failed and the program returns success"); return; }
    if (r.rc) sim::fail("REJECTED", "the program returns %d for a well-formed puzzle: %s", r.rc, r.err.c_str());
    std::vector<Puzzle::Sol> sol, ok; if (!q.solve(sol)) sim::reject("large"); std::map<VS, int> left;
    for (auto& s : sol) if (k < 0 || s.blanks <= k) { ok.push_back(s); ++left[q.render(s)]; }
    std::string v; if (!number(r.err, "#solution = ", v)) sim::fail("REPORT", "the number of solutions is not reported");
    double n = strtod(v.c_str(), 0);
    if (all ? n != (double)ok.size() : n > (double)ok.size()) sim::fail("REPORT", "%s solutions are reported, the puzzle has %d", v.c_str(), (int)ok.size());
    if (!all && k < 0 && (n > 0) != !ok.empty()) sim::fail("REPORT", "no solution is found for a puzzle that has %d", (int)ok.size());
    if (m < 0) m = 10;
    std::vector<VS> got = boards(r.out);
    if ((double)got.size() != std::min(n, (double)m)) sim::fail("LIST", "%d solutions are listed, %d are asked for and %s exist", (int)got.size(), m, v.c_str());
    for (auto& b : got) if (--left[b] < 0) sim::fail("LIST", "a listed board is not a solution, or is listed twice: %s", b.empty() ? "" : b[0].c_str());
    if (m) { if (n > m) checkNumber(r.out, ".\n\n", n - m); else if (r.out.find("more solution") != std::string::npos) sim::fail("LIST", "more solutions are announced than exist"); }
    else if (!r.out.empty()) sim::fail("LIST", "solutions are listed that were not asked for");
    if (ok.size() > 1) sim::nontrivial();
}
WORKLOAD(numlin) { linkRun(12); }
WORKLOAD(numlinbig) { linkRun(20); }

// ---------------------------------------------------------------- graphs of a program
typedef std::vector<std::pair<std::string,std::string> > Names;
static void addName(Names& v, std::string const& a, std::string const& b) { for (auto& x : v) if ((x.first == a && x.second == b) || (x.first == b && x.second == a)) return; v.push_back({ a, b }); }
static void fromNames(G& g, Names const& names) {
    { sim::Sut s; g.g.reset(new Graph); for (auto& x : names) g.g->addEdge(x.first, x.second); g.g->update(); }
    g.e.clear(); for (auto& x : names) { sim::Sut s; int a = g.g->getVertex(x.first), b = g.g->getVertex(x.second); sim::Oracle o; g.e.push_back({ a, b }); }
    g.nv = g.g->vertexSize(); g.col.assign(g.nv + 1, 0);
}
// graphs in a text; bold edges are members
static void edgesOf(Names const& names, std::string const& t, std::vector<uint32_t>& masks) {
    bool in = false; std::set<std::pair<std::string,std::string> > seen; uint32_t m = 0;
    for (auto& l : splitLines(t)) {
        if (l == "graph {") { in = true; seen.clear(); m = 0; }
        else if (l == "}") { if (!in || seen.size() != names.size()) sim::fail("TEXT", "a listed graph has %d edges instead of %d", (int)seen.size(), (int)names.size()); masks.push_back(m); in = false; }
        else if (l.find("\"--\"") != std::string::npos) {
            size_t p = l.find('"'), x = l.find("\"--\""), y = l.find('"', x + 4); std::pair<std::string,std::string> ed(l.substr(p + 1, x - p - 1), l.substr(x + 4, y - x - 4)); int at = -1;
            for (size_t i = 0; i < names.size(); ++i) if (names[i] == ed || (names[i].first == ed.second && names[i].second == ed.first)) at = (int)i;
            if (at < 0 || !seen.insert(names[at]).second) sim::fail("TEXT", "a listed graph has an edge %s--%s", ed.first.c_str(), ed.second.c_str());
            if (l.find("style=bold") != std::string::npos) m |= 1u << at;
        } }
    if (in) sim::fail("TEXT", "a listed graph has no end");
}

// ---------------------------------------------------------------- ddpaths
static void pathsRun(int maxV, int maxE) {
    sim::stepLimit(2000000000ULL);
    Env e = drawEnv(); G g; std::vector<VI> adj; int nv;
    if (draw(3) == 0) { int w = 2 + (int)draw(2), h = 2 + (int)draw(2); nv = w * h; adj.resize(nv + 1); for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int v = 1 + y * w + x; if (y) adj[v].push_back(v - w); if (x) adj[v].push_back(v - 1); if (x + 1 < w) adj[v].push_back(v + 1); if (y + 1 < h) adj[v].push_back(v + w); } }
    else { nv = 2 + (int)draw(maxV - 1); adj.resize(nv + 1); std::set<std::pair<int,int> > seen; int ne = 1 + (int)draw(maxE); for (int k = 0; k < 3 * ne && (int)seen.size() < ne; ++k) { int a = 1 + (int)draw(nv), b = 1 + (int)draw(nv); if (a == b || !seen.insert({ std::min(a, b), std::max(a, b) }).second) continue; adj[a].push_back(b); if (draw(3) == 2) adj[b].push_back(a); } }
    Input gi, ti;
    for (int v = 1; v <= nv; ++v) { for (size_t k = 0; k < adj[v].size(); ++k) { if (k) gi.text += " "; gi.text += std::to_string(adj[v][k]); } if (v < nv || draw(3)) gi.text += "\n"; }
    Names names;
    for (int v = 1; v <= nv; ++v) for (int w : adj[v]) addName(names, std::to_string(v), std::to_string(w));
    if (names.empty()) sim::reject("no edge");
    std::vector<int> num(nv + 1, 0), back(nv + 1, 0); fromNames(g, names); int used = g.nv;
    for (int v = 1; v <= used; ++v) { int k = atoi(g.g->vertexName(v).c_str()); num[k] = v; back[v] = k; }
    int n = (int)g.e.size();
    static const char* const types[] = { "path", "cycle", "cc", "forest" }; int type = (int)draw(4);
    bool ham = type < 2 && draw(5) == 4, slow = type < 2 && !ham && draw(4) == 3, nola = draw(2), dc = draw(3) == 2, nored = draw(4) == 3, count = draw(3) == 2; int out = (int)draw(5);     // 0 zdd, 1 all, 2 export, 3 none, 4 graph
    int lb = draw(4) == 3 ? (int)draw(n + 1) : -1, ub = draw(4) == 3 ? (int)draw(n + 2) : -1, uec = type >= 2 && draw(2) ? (int)draw(3) : -1; if (lb >= 0 && ub >= 0 && ub < lb) std::swap(lb, ub);
    bool term = type >= 2 ? draw(2) == 0 : type == 0 ? used != nv || used < 2 || draw(2) == 0 : draw(3) == 2;
    if (term) {
        int pairs = type == 0 ? 1 + (int)draw(2) : 1 + (int)draw(3); std::vector<int> vs; for (int v = 1; v <= used; ++v) vs.push_back(v);
        for (int c = 1; c <= pairs; ++c) { if (vs.size() < 2) { break; } int k = type == 0 ? 2 : 1 + (int)draw(3); for (int j = 0; j < k && !vs.empty(); ++j) { size_t i = draw(vs.size()); g.col[vs[i]] = c; if (j) ti.text += " "; ti.text += std::to_string(back[vs[i]]); vs.erase(vs.begin() + i); } ti.text += "\n"; }
        if (draw(3) == 2 && !ti.text.empty()) ti.text.erase(ti.text.size() - 1);
    } else if (type == 0) g.col[num[1]] = g.col[num[nv]] = 1;       // the default: from the first vertex to the last one
    if (type == 1) g.col.assign(used + 1, 0);
    gi.prepare(true, true); ti.prepare(false, term);
    VS a; a.push_back("ddpaths"); if (type || draw(2)) { a.push_back("-t"); a.push_back(types[type]); }
    if (e.mp) a.push_back("-p"); if (ham) a.push_back("-hamilton"); if (slow) a.push_back("-slow"); if (nola) a.push_back("-nola"); if (dc) a.push_back("-dc"); if (nored) a.push_back("-nored"); if (count) a.push_back("-count");
    if (lb >= 0) { a.push_back("-lb"); a.push_back(std::to_string(lb)); } if (ub >= 0) { a.push_back("-ub"); a.push_back(std::to_string(ub)); } if (uec >= 0) { a.push_back("-uec"); a.push_back(std::to_string(uec)); }
    static const char* const outs[] = { "-zdd", "-all", "-export", "", "-graph" }; if (out != 3) a.push_back(outs[out]);
    a.push_back(gi.arg); if (term) a.push_back(ti.arg);
    mixArgs(a);
    for (auto& x : a) sim::note("%s ", x == gi.arg ? "GRAPH" : term && x == ti.arg ? "GROUPS" : x.c_str()); sim::note("e="); for (auto& x : g.e) sim::note("%d-%d,", x.first, x.second); for (int v = 1; v <= used; ++v) if (g.col[v]) sim::note(" c%d=%d", v, g.col[v]); sim::note(" ");
    Disk d; d.in.push_back(&gi); if (term) d.in.push_back(&ti); sim::setIo(&d.io);
    App r = runApp(e, a, gi.b.get(), [](int c, char** v) { return paths::program(c, v); });
    sim::setIo(0);
    bool bad = gi.hit() || (term && ti.hit());
    if (bad) { if (!r.rc) sim::fail("PARTIAL", "reading the input failed and the program returns success"); SUT(g.g.reset()); return; }
    if (r.rc) sim::fail("REJECTED", "the program returns %d for well-formed input: %s", r.rc, r.err.c_str());
    if (out == 4) { std::vector<uint32_t> ms; edgesOf(names, r.out, ms); if (ms.size() != 1) sim::fail("TEXT", "%d graphs are dumped", (int)ms.size()); SUT(g.g.reset()); return; }
    // the colours as the specifications see them, for the model of the known defects
    if (ham) { for (int v = 1; v <= used; ++v) if (g.col[v]) { sim::Sut s; g.g->setColor(g.g->vertexName(v), g.col[v]); } sim::Sut s; g.g->update(); }
    auto size = [&](uint32_t m) { int k = __builtin_popcount(m); return (lb < 0 || k >= lb) && (ub < 0 || k <= ub); };
    Pred pred, knownPred; const char* knownId = 0;
    if (type == 0) { pred = [&](uint32_t m) { return size(m) && pathPred(g, m, ham); }; if (ham) { knownId = "hamilton-path-left-out"; knownPred = [&](uint32_t m) { return size(m) && pathPred(g, m, false) && leftOut(g, m, false); }; } else if (slow) { knownId = "slow-several-pairs"; knownPred = [&](uint32_t m) { return size(m) && slowPred(g, m); }; } }
    else if (type == 1) { pred = [&](uint32_t m) { return size(m) && cyclePred(g, m, ham); }; if (ham) { knownId = "hamilton-cycle-left-out"; knownPred = [&](uint32_t m) { return size(m) && cyclePred(g, m, false) && leftOut(g, m, true); }; } }
    else pred = [&](uint32_t m) { return size(m) && fbsPred(g, m, uec, type == 3); };
    Canon c(ZDD_, 2); size_t members = 0; int want = bruteZdd(c, n, pred, members);
    std::string v; if (!number(r.err, "#solution = ", v)) sim::fail("REPORT", "the number of solutions is not reported");
    if (knownId) { size_t m2 = 0; int w2 = bruteZdd(c, n, knownPred, m2); if (w2 != want && strtod(v.c_str(), 0) == (double)m2 && sim::known(knownId)) { if (m2 == members) sim::reject("undecided"); want = w2, members = m2, pred = knownPred; } }
    checkNumber(r.err, "#solution = ", (double)members); checkNumber(r.err, "#solution = ", (double)members, true);
    std::string nodes; if (!nored) checkNumber(r.err, "#node = ", (double)c.count(want));
    if (count) { size_t k = 0, p = 0; while ((p = r.err.find("#solution = ", p)) != std::string::npos) ++p, ++k; if (k != 2) sim::fail("REPORT", "-count reports nothing"); }
    if (out == 0) { if (dotZdd(c, r.out) != want) sim::fail("MEANING", "the dumped diagram is not that of the %d solutions", (int)members); }
    else if (out == 1) { std::vector<uint32_t> ms; edgesOf(names, r.out, ms); std::set<uint32_t> st(ms.begin(), ms.end()); if (ms.size() != members || st.size() != members) sim::fail("LIST", "%d solutions are listed, %d of them different; %d exist", (int)ms.size(), (int)st.size(), (int)members); for (uint32_t m : ms) if (!pred(m)) sim::fail("LIST", "a listed edge set is not a solution"); }
    else if (out == 2) { if (sapporoZdd(c, r.out) != want) sim::fail("MEANING", "the exported diagram is not that of the %d solutions", (int)members); }
    else if (!r.out.empty()) sim::fail("TEXT", "unasked output");
    if (members > 1) sim::nontrivial();
    SUT(g.g.reset());
}
WORKLOAD(paths) { pathsRun(6, 9); }
WORKLOAD(pathsbig) { pathsRun(9, 12); }

// ---------------------------------------------------------------- graphillion_example
// a family of edge sets in Graphillion's text form: index 1 is the first edge
static std::string zddText(Canon& c, int f, int n) {
    std::vector<int> order; std::set<int> seen; std::vector<int> st(1, f);
    while (!st.empty()) { int g = st.back(); st.pop_back(); if (g < 2 || !seen.insert(g).second) continue; order.push_back(g); st.push_back(c.child(g, 0)); st.push_back(c.child(g, 1)); }
    std::sort(order.begin(), order.end()); std::string t; auto id = [](int g) { return g < 2 ? std::string(g ? "T" : "B") : std::to_string(g); };
    for (int g : order) t += id(g) + " " + std::to_string(n - c.level(g) + 1) + " " + id(c.child(g, 0)) + " " + id(c.child(g, 1)) + "\n";
    return t + ".\n";
}
static void exampleRun(int maxV, int maxE) {
    sim::stepLimit(2000000000ULL);
    sap::World world; sap::w = &world;
    Env e = drawEnv(); G g; Names names; Input gi, ti, ii; bool own = draw(12) != 0, adjacency = own && draw(2), numbers = true;
    if (own) {
        int nv = 2 + (int)draw(maxV - 1), ne = 1 + (int)draw(maxE); static const char* const nm[] = { "%d", "v%d" }; const char* fm = adjacency ? "%d" : nm[draw(2)]; numbers = fm[0] == '%';
        auto name = [&](int v) { char b[16]; snprintf(b, 16, fm, v); return std::string(b); };
        std::vector<VI> adj(nv + 1); for (int k = 0; k < ne; ++k) { int a = 1 + (int)draw(nv), b = 1 + (int)draw(nv); if (a == b) continue; bool dup = false; for (int x : adj[a]) dup |= x == b; for (int x : adj[b]) dup |= x == a; if (dup) continue; adj[a].push_back(b); if (!adjacency) { addName(names, name(a), name(b)); gi.text += name(a) + (draw(4) == 3 ? "  " : " ") + name(b) + "\n"; } }
        if (adjacency) for (int v = 1; v <= nv; ++v) { for (size_t k = 0; k < adj[v].size(); ++k) { if (k) gi.text += " "; gi.text += name(adj[v][k]); addName(names, name(v), name(adj[v][k])); } if (v < nv || draw(3)) gi.text += "\n"; }
        else if (draw(3) == 2 && !gi.text.empty()) gi.text.erase(gi.text.size() - 1);
        if (names.empty()) sim::reject("no edge");
    } else { static const char* const d[][2] = { {"v1","v2"},{"v1","v3"},{"v1","v4"},{"v2","v4"},{"v2","v5"},{"v3","v4"},{"v3","v6"},{"v4","v5"},{"v4","v6"},{"v4","v7"},{"v5","v7"},{"v6","v7"} }; for (auto& x : d) addName(names, x[0], x[1]); }
    fromNames(g, names); int n = (int)g.e.size(), used = g.nv;
    bool path = draw(3) == 2, matching = draw(4) == 3, spanning = draw(4) == 3, noloop = draw(3) == 2, sttt = own && draw(4) == 3, nola = draw(2), count = draw(3) == 2, sapporo = draw(4) == 3, import = own && draw(3) == 2, term = own && numbers && draw(2);
    int uec = draw(3) ? -1 : (int)draw(3), lb = draw(4) == 3 ? (int)draw(n + 1) : -1, ub = draw(4) == 3 ? (int)draw(n + 2) : -1; if (lb >= 0 && ub >= 0 && ub < lb) std::swap(lb, ub);
    int out = (int)draw(5), sols = 1 + (int)draw(12);       // 0 zdd, 1 solutions, 2 export, 3 none, 4 graph
    if (!own) { sim::Sut s; int a = g.g->getVertex("v2"), b = g.g->getVertex("v3"); sim::Oracle o; g.col[a] = g.col[b] = 1; }
    if (term) { std::vector<int> vs; for (int v = 1; v <= used; ++v) vs.push_back(v); int groups = 1 + (int)draw(3);
        for (int c = 1; c <= groups && !vs.empty(); ++c) { int k = 1 + (int)draw(3); for (int j = 0; j < k && !vs.empty(); ++j) { size_t i = draw(vs.size()); g.col[vs[i]] = c; if (j) ti.text += " "; ti.text += g.g->vertexName(vs[i]); vs.erase(vs.begin() + i); } ti.text += "\n"; } }
    if (sttt) { if (term) { term = false; ti.text.clear(); } g.col.assign(used + 1, 0); g.col[1] = g.col[used] = 1; }
    Canon c(ZDD_, 2); int base = -1;
    if (import) { SM r(draw(1000000)); uint64_t dens = 1 + r.below(4); size_t k = 0; Pred any = [&](uint32_t m) { SM h(r.s + m * 1000003ULL); return h.below(dens + 1) != 0; }; base = bruteZdd(c, n, any, k); if (base < 2 || c.level(base) != n) sim::reject("base");
        std::vector<size_t> pl = c.perLevel(base, n); if (!pl[1]) sim::reject("base"); ii.text = zddText(c, base, n); }
    VS a; a.push_back("graphillion_example"); auto opt = [&](bool on, const char* o) { if (on) a.push_back(o); }; auto num = [&](int v, const char* o) { if (v >= 0) { a.push_back(o); a.push_back(std::to_string(v)); } };
    opt(path, "-path"); opt(matching, "-matching"); opt(spanning, "-spanning"); opt(noloop, "-noloop"); opt(sttt, "-st"); opt(nola, "-nola"); opt(count, "-count"); opt(sapporo, "-sapporo"); opt(import, "-import"); opt(adjacency, "-a"); num(uec, "-uec"); num(lb, "-lb"); num(ub, "-ub");
    opt(out == 0, "-zdd"); opt(out == 2, "-export"); opt(out == 4, "-graph"); num(out == 1 ? sols : -1, "-solutions");
    memset(&ii.p, 0, sizeof ii.p); if (import) { static const int ch[] = { 0, 1, 5, 300 }; ii.viaCin = true; ii.b.reset(new DripBuf(ii.text, ch[draw(4)], false, 0)); }
    if (own) { gi.prepare(false, true); a.push_back(gi.arg); } if (term) { ti.prepare(false, true); a.push_back(ti.arg); }
    mixArgs(a);
    for (auto& x : a) sim::note("%s ", own && x == gi.arg ? "GRAPH" : term && x == ti.arg ? "GROUPS" : x.c_str()); sim::note("e="); for (auto& x : g.e) sim::note("%d-%d,", x.first, x.second); for (int v = 1; v <= used; ++v) if (g.col[v]) sim::note(" c%d=%d", v, g.col[v]); sim::note(" ");
    Disk d; if (own) d.in.push_back(&gi); if (term) d.in.push_back(&ti); sim::setIo(&d.io);
    App r = runApp(e, a, ii.b.get(), [](int c, char** v) { return gillion::program(c, v); });
    sim::setIo(0);
    if (world.live) sim::fail("LIFE", "%ld SAPPOROBDD handles are left", world.live);
    if ((own && gi.hit()) || (term && ti.hit())) { if (!r.rc) sim::fail("PARTIAL", "reading the input failed and the program returns success"); SUT(g.g.reset()); return; }
    if (r.rc) sim::fail("REJECTED", "the program returns %d for well-formed input: %s", r.rc, r.err.c_str());
    if (out == 4) { std::vector<uint32_t> ms; edgesOf(names, r.out, ms); if (ms.size() != 1) sim::fail("TEXT", "%d graphs are dumped", (int)ms.size()); SUT(g.g.reset()); return; }
    int u = path && uec < 0 ? 0 : uec;
    Pred pred = [&](uint32_t m) {
        int k = __builtin_popcount(m); if ((lb >= 0 && k < lb) || (ub >= 0 && k > ub)) return false;
        for (int v = 1; v <= used; ++v) { int dg = g.deg(m, v);
            if (spanning && !g.col[v]) { if (dg < 1) return false; } else if (matching) { if (dg > 1) return false; } else if (path) { if (g.col[v] ? dg != 1 : dg != 0 && dg != 2) return false; } }
        return fbsPred(g, m, u, noloop); };
    size_t members = 0; Pred both = pred;
    if (import) both = [&](uint32_t m) { int f = base; for (int i = 0; i < n && f; ++i) { bool b = m >> i & 1; if (f > 1 && c.level(f) == n - i) f = c.child(f, b); else if (b) f = 0; } return f == 1 && pred(m); };
    int want = bruteZdd(c, n, both, members);
    checkNumber(r.err, "#solution = ", (double)members); checkNumber(r.err, "#solution = ", (double)members, true);
    if (count) { size_t k = 0, p = 0; while ((p = r.err.find("#solution = ", p)) != std::string::npos) ++p, ++k; if (k != 2) sim::fail("REPORT", "-count reports nothing"); }
    if (sapporo) { size_t p = r.err.find("ToZBDD"); if (p == std::string::npos) sim::fail("REPORT", "-sapporo reports nothing"); checkNumber(r.err.substr(p), "<", (double)c.count(want), true); }
    if (out == 0) { if (dotZdd(c, r.out) != want) sim::fail("MEANING", "the dumped diagram is not that of the %d solutions", (int)members); }
    else if (out == 1) { std::vector<uint32_t> ms; edgesOf(names, r.out, ms); std::set<uint32_t> st(ms.begin(), ms.end()); if (ms.size() != std::min<size_t>(members, sols) || st.size() != ms.size()) sim::fail("LIST", "%d solutions are listed, %d of them different; %d are asked for, %d exist", (int)ms.size(), (int)st.size(), sols, (int)members); for (uint32_t m : ms) if (!both(m)) sim::fail("LIST", "a listed edge set is not a solution"); }
    else if (out == 2) { if (sapporoZdd(c, r.out) != want) sim::fail("MEANING", "the exported diagram is not that of the %d solutions", (int)members); }
    else if (!r.out.empty()) sim::fail("TEXT", "unasked output");
    if (members > 1) sim::nontrivial();
    SUT(g.g.reset());
}
WORKLOAD(example) { exampleRun(6, 9); }
WORKLOAD(examplebig) { exampleRun(9, 12); }

// ---------------------------------------------------------------- wrong command lines
WORKLOAD(usage) {
    sim::stepLimit(2000000000ULL); sap::World world; sap::w = &world;
    Env e = drawEnv(); int prog = (int)draw(4), kind = (int)draw(4); Input in; in.text = prog == 1 ? "2 2\n1 -\n- 1\n" : "2 3\n1 3\n1 2\n"; in.prepare(false, false);
    static const char* const names[] = { "ddqueens", "ddnumlin", "ddpaths", "graphillion_example" }; static const int most[] = { 1, 1, 2, 2 };
    VS a; a.push_back(names[prog]); std::string arg = prog == 0 ? "4" : in.arg; if (e.mp && prog != 3) a.push_back("-p");
    if (kind == 3 && prog == 3) kind = 0;                                                       // no operand is needed
    if (kind == 0) a.push_back(draw(2) ? "-nonsense" : "-px"); if (kind == 1) for (int i = 0; i < most[prog]; ++i) a.push_back(arg);
    if (kind != 3) a.push_back(arg); if (kind == 0 && draw(2)) std::swap(a[a.size() - 1], a[a.size() - 2]);
    if (kind == 2) { if (prog == 0) a.back() = draw(2) ? "0" : "queens"; else if (prog == 2) { a.insert(a.begin() + 1, "-t"); a.insert(a.begin() + 2, "tree"); } else a.back() = "/proc/self/nothing"; }
    for (auto& x : a) sim::note("%s ", x == in.arg ? "FILE" : x.c_str());
    Disk d; d.in.push_back(&in); sim::setIo(&d.io);
    App r = runApp(e, a, 0, [&](int c, char** v) { return prog == 0 ? queens::program(c, v) : prog == 1 ? numlink::program(c, v) : prog == 2 ? paths::program(c, v) : gillion::program(c, v); });
    sim::setIo(0);
    if (!r.rc) sim::fail("ACCEPTED", "a wrong command line is accepted");
    if (!r.out.empty()) sim::fail("TEXT", "there is output for a wrong command line");
    if (r.err.find(kind == 2 && prog % 2 ? "No such file" : "usage") == std::string::npos) sim::fail("TEXT", "nothing is said about a wrong command line: %s", r.err.c_str());
}
