// Graphs and the families of their edge sets, by brute force.
#pragma once
#include "common.hpp"
#include <tdzdd/util/Graph.hpp>

typedef std::function<bool(uint32_t)> Pred;      // bit i = edge/item i
// canonical ZDD of { masks with pred }, item i at level n-i
inline int bruteZdd(Canon& c, int n, Pred const& p, size_t& members) {
    std::vector<int> cur((size_t)1 << n);
    for (uint32_t m = 0; m < cur.size(); ++m) { cur[m] = p(m) ? 1 : 0; members += cur[m]; }
    for (int l = 1; l <= n; ++l) {               // merge over item n-l (level l), the highest bit left
        std::vector<int> nx(cur.size() / 2); uint32_t bit = 1u << (n - l);
        for (uint32_t m = 0; m < nx.size(); ++m) { int ch[2] = { cur[m], cur[m | bit] }; nx[m] = c.make(l, ch); }
        cur.swap(nx);
    }
    return cur[0];
}
struct G {
    int nv; std::vector<std::pair<int,int> > e; std::vector<int> col;      // col[v] 0 = none
    std::unique_ptr<Graph> g;
    int deg(uint32_t m, int v) const { int d = 0; for (size_t i = 0; i < e.size(); ++i) if (m >> i & 1) d += (e[i].first == v) + (e[i].second == v); return d; }
    bool has(int v) const { for (auto& x : e) if (x.first == v || x.second == v) return true; return false; }
    std::vector<int> comp(uint32_t m) const { std::vector<int> r(nv + 1); for (int v = 0; v <= nv; ++v) r[v] = v; for (size_t i = 0; i < e.size(); ++i) if (m >> i & 1) { int a = r[e[i].first], b = r[e[i].second]; if (a != b) for (int& x : r) if (x == a) x = b; } return r; }
};
inline void drawGraph(G& G_, int maxV, int maxE) {
    G& g = G_; int shape = (int)draw(5);
    std::vector<std::pair<int,int> > all;
    if (shape == 3) { int w = 2 + (int)draw(2), h = 2 + (int)draw(2); g.nv = w * h; for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) { int v = 1 + y * w + x; if (x + 1 < w) all.push_back({ v, v + 1 }); if (y + 1 < h) all.push_back({ v, v + w }); } }
    else if (shape == 4) { g.nv = 3 + (int)draw(maxV - 2); for (int v = 1; v < g.nv; ++v) all.push_back({ v, v + 1 }); all.push_back({ 1, g.nv }); int k = (int)draw(3); for (int i = 0; i < k; ++i) { int a = 1 + (int)draw(g.nv), b = 1 + (int)draw(g.nv); if (a != b) all.push_back({ a, b }); } }
    else { g.nv = 2 + (int)draw(maxV - 1); for (int a = 1; a <= g.nv; ++a) for (int b = a + 1; b <= g.nv; ++b) all.push_back({ a, b }); SM r(draw(1000000)); for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.below(i)]); }
    if (draw(3) == 2) { SM r(draw(1000000)); for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[r.below(i)]); }
    size_t ne = 1 + draw(maxE); std::set<std::pair<int,int> > seen;
    for (auto x : all) { if (g.e.size() >= ne) break; if (x.first == x.second || seen.count(x) || seen.count({ x.second, x.first })) continue; seen.insert(x); if (draw(4) == 3) std::swap(x.first, x.second); g.e.push_back(x); }
    std::sort(all.begin(), all.end());
    { sim::Sut s; g.g.reset(new Graph); }
    static const char* const nm[] = { "%d", "n%d" }; const char* f = nm[draw(2)];
    auto name = [&](int v) { char b[16]; snprintf(b, 16, f, v); return std::string(b); };
    for (auto& x : g.e) { sim::Sut s; g.g->addEdge(name(x.first), name(x.second)); }
    g.col.assign(g.nv + 1, 0);
    { sim::Sut s; g.g->update(); }
    // renumber by the library's vertex numbers so that constraints can be given by number
    std::vector<int> num(g.nv + 1, 0); int nvUsed = 0;
    for (auto& x : g.e) { num[x.first] = g.g->getVertex(name(x.first)); num[x.second] = g.g->getVertex(name(x.second)); }
    for (int v = 1; v <= g.nv; ++v) nvUsed += num[v] > 0;
    if (g.g->vertexSize() != nvUsed || g.g->edgeSize() != (int)g.e.size()) sim::fail("GRAPH", "the graph has %d vertices and %d edges instead of %d and %d", g.g->vertexSize(), g.g->edgeSize(), nvUsed, (int)g.e.size());
    for (auto& x : g.e) { x.first = num[x.first]; x.second = num[x.second]; }
    g.nv = nvUsed; g.col.assign(g.nv + 1, 0);
    sim::note("v=%d e=", g.nv); for (auto& x : g.e) sim::note("%d-%d,", x.first, x.second); sim::note(" ");
}
inline void setColors(G& g) {
    for (int v = 1; v <= g.nv; ++v) if (g.col[v]) { sim::note("c%d=%d ", v, g.col[v]); sim::Sut s; char b[8]; snprintf(b, 8, "k%d", g.col[v]); if (g.col[v] % 2) g.g->setColor(g.g->vertexName(v), b); else g.g->setColor(g.g->vertexName(v), g.col[v]); }
    sim::Sut s; g.g->update();
}
inline bool pathPred(G const& g, uint32_t m, bool ham) {
    std::vector<int> comp = g.comp(m); size_t edges = 0, verts = 0;
    for (size_t i = 0; i < g.e.size(); ++i) edges += m >> i & 1;
    for (int v = 1; v <= g.nv; ++v) {
        int d = g.deg(m, v);
        if (g.col[v] ? d != 1 : (d != 0 && d != 2)) return false;
        if (ham && d == 0) return false;
        verts += d > 0;
    }
    size_t comps = 0; std::set<int> cs; for (int v = 1; v <= g.nv; ++v) if (g.deg(m, v)) cs.insert(comp[v]); comps = cs.size();
    if (edges + comps != verts) return false;      // forest: no cycles
    for (int v = 1; v <= g.nv; ++v) for (int w = v + 1; w <= g.nv; ++w) if (g.col[v] && g.col[w] && (comp[v] == comp[w]) != (g.col[v] == g.col[w])) return false;
    return true;
}
// What PathZddByStdMap accepts (known defect with several pairs): one cycle of the edges and one extra edge per pair.
inline bool slowPred(G const& g, uint32_t m) {
    if (!m) return false; std::vector<int> comp = g.comp(m); int c = -1;
    for (int v = 1; v <= g.nv; ++v) for (int w = v + 1; w <= g.nv; ++w) if (g.col[v] && g.col[v] == g.col[w] && comp[v] != comp[w]) { int a = comp[v], b = comp[w]; for (int& x : comp) if (x == a) x = b; }
    for (int v = 1; v <= g.nv; ++v) { int d = g.deg(m, v) + (g.col[v] > 0); if (d != 0 && d != 2) return false; if (d) { if (c >= 0 && comp[v] != c) return false; c = comp[v]; } }
    return true;
}
inline bool cyclePred(G const& g, uint32_t m, bool ham) {
    if (!m) return false; std::vector<int> comp = g.comp(m); int c = -1;
    for (int v = 1; v <= g.nv; ++v) { int d = g.deg(m, v); if (d != 0 && d != 2) return false; if (ham && !d) return false; if (d) { if (c >= 0 && comp[v] != c) return false; c = comp[v]; } }
    return true;
}
// The known defect of the Hamiltonian specifications: a path or cycle is accepted when its last edge e is
// taken although vertices are left out that have not entered the frontier array yet, or (cycles) that is its first.
inline bool leftOut(G const& g, uint32_t m, bool cycle) {
    int last = -1; for (size_t i = 0; i < g.e.size(); ++i) if (m >> i & 1) last = (int)i;
    if (last < 0) return true;
    Graph::EdgeInfo const& e = g.g->edgeInfo(last); int size = g.g->maxFrontierSize();
    for (int v = 1; v <= g.nv; ++v) if (!g.deg(m, v)) {
        if (v < e.v0 + size && !(cycle && v == e.v0)) return false;
        for (int i = 0; i < last; ++i) { Graph::EdgeInfo const& x = g.g->edgeInfo(i); if ((x.v1 == v && (x.v1final || x.v1final2)) || (x.v2 == v && (x.v2final || x.v2final2))) return false; }
    }
    return true;
}
inline bool fbsPred(G const& g, uint32_t m, int uec, bool noLoop) {
    std::vector<int> comp = g.comp(m); size_t edges = 0, verts = 0; std::set<int> cs, un;
    for (size_t i = 0; i < g.e.size(); ++i) edges += m >> i & 1;
    for (int v = 1; v <= g.nv; ++v) if (g.deg(m, v)) { ++verts; cs.insert(comp[v]); un.insert(comp[v]); }
    for (int v = 1; v <= g.nv; ++v) if (g.col[v]) un.erase(comp[v]);
    if (noLoop && edges + cs.size() != verts) return false;
    for (int v = 1; v <= g.nv; ++v) for (int w = v + 1; w <= g.nv; ++w) if (g.col[v] && g.col[w] && (comp[v] == comp[w]) != (g.col[v] == g.col[w])) return false;
    return uec < 0 || (int)un.size() == uec;
}
