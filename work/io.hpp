// Simulated files and streams, and a reader of DOT text.
#pragma once
#include "common.hpp"
#include <errno.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>

// A file of the simulated disk: an anonymous memory file that only this run sees.
struct MemFile {
    int fd; std::string path;
    MemFile() { fd = (int)syscall(SYS_memfd_create, "sim", 0); char b[64]; snprintf(b, sizeof b, "/proc/self/fd/%d", fd); path = b; }
    ~MemFile() { close(fd); }
    void put(std::string const& s) { size_t k = 0; while (k < s.size()) { ssize_t r = syscall(SYS_pwrite64, fd, s.data() + k, s.size() - k, k); if (r <= 0) sim::reject("scratch file"); k += r; } }
    std::string get() { std::string s; char b[4096]; ssize_t r; while ((r = syscall(SYS_pread64, fd, b, sizeof b, s.size())) > 0) s.append(b, r); return s; }
};

struct ReadPlan {
    uint64_t pos, failAt; int chunk; bool eintr; int eintrRun; int openErr; int err; bool hitErr;
    static int onRead(void* s, size_t want, size_t* give) {
        ReadPlan& p = *(ReadPlan*)s;
        if (p.eintr && p.eintrRun < 3 && fault(sim::F_READ_EINTR, 3) == 2) { ++p.eintrRun; sim::hit(sim::F_READ_EINTR); return EINTR; }
        p.eintrRun = 0;
        if (p.err && p.pos >= p.failAt) { p.hitErr = true; sim::hit(sim::F_READ_EIO); return p.err; }
        size_t g = want;
        if (p.chunk && (size_t)p.chunk < g) { g = 1 + draw(p.chunk); sim::hit(sim::F_READ_SHORT); }
        if (p.err && p.pos + g > p.failAt) g = p.failAt - p.pos;
        p.pos += g; *give = g; return 0;
    }
    static int onOpen(void* s, const char*) { ReadPlan& p = *(ReadPlan*)s; if (p.openErr) { p.hitErr = true; sim::hit(sim::F_OPEN_FAIL); } return p.openErr; }
};
// Stream buffer for standard input: delivers a few bytes at a time and may fail by throwing.
struct DripBuf : std::streambuf {
    std::string s; size_t k; int chunk; uint64_t failAt; bool fails; bool hitErr; char buf[64];
    DripBuf(std::string const& s, int chunk, bool fails, uint64_t failAt) : s(s), k(0), chunk(chunk), failAt(failAt), fails(fails), hitErr(false) {}
    int_type underflow() override {
        if (fails && k >= failAt) { hitErr = true; sim::hit(sim::F_READ_EIO); throw std::runtime_error("device error"); }
        if (k >= s.size()) return traits_type::eof();
        size_t g = std::min<size_t>(sizeof buf - 1, s.size() - k); if (chunk && (size_t)chunk < g) { g = 1 + draw(chunk); sim::hit(sim::F_READ_SHORT); }
        if (fails && k + g > failAt) g = failAt - k;
        char keep = eback() ? gptr()[-1] : 0; buf[0] = keep;      // one character may be put back
        memcpy(buf + 1, s.data() + k, g); k += g; setg(buf, buf + 1, buf + 1 + g);
        return traits_type::to_int_type(buf[1]);
    }
};

inline std::vector<std::string> splitLines(std::string const& t) { std::vector<std::string> v; size_t k = 0; while (k < t.size()) { size_t e = t.find('\n', k); if (e == std::string::npos) sim::fail("TEXT", "the last line is not terminated"); v.push_back(t.substr(k, e - k)); k = e + 1; } return v; }

struct DotEdge { std::string to; int b; };
struct DotNode { std::string label; std::vector<DotEdge> e; bool declared; DotNode() : declared(false) {} };
struct Dot { std::map<std::string, DotNode> nodes; std::string root; std::map<std::string, std::string> attrs; std::set<std::string> ranked; };
inline Dot parseDot(std::string const& t, int ar) {
    Dot d; std::vector<std::string> L = splitLines(t);
    if (L.size() < 2 || L[0].compare(0, 9, "digraph \"") || L.back() != "}") sim::fail("TEXT", "not a complete digraph");
    for (size_t k = 1; k + 1 < L.size(); ++k) {
        std::string const& s = L[k];
        if (s.compare(0, 3, "  \"") == 0) {
            size_t e = s.find('"', 3); if (e == std::string::npos) sim::fail("TEXT", "malformed line '%s'", s.c_str());
            std::string a = s.substr(3, e - 3);
            if (s.compare(e, 6, "\" -> \"") == 0) {
                size_t f = s.find('"', e + 6); std::string b = s.substr(e + 6, f - e - 6), at = s.substr(f + 1);
                if (a == "^") { if (!d.root.empty()) sim::fail("TEXT", "two roots"); d.root = b; continue; }
                DotEdge x; x.to = b;
                if (at.find("style=dashed") != std::string::npos) x.b = 0;
                else if (at.find("style=solid") == std::string::npos) { sim::fail("TEXT", "edge without style"); }
                else if (ar == 2) x.b = 1;
                else x.b = at.find("color=blue") != std::string::npos ? 1 : at.find("color=red") != std::string::npos ? 2 : at.find("color=green") != std::string::npos ? 3 : -1;
                if (x.b < 0) sim::fail("TEXT", "edge without colour");
                d.nodes[a].e.push_back(x);
            } else {
                size_t l = s.find("label=\"");
                if (s.find("shape=") != std::string::npos || s.find("style=invis") != std::string::npos) { d.attrs[a] = s; continue; }
                DotNode& x = d.nodes[a]; if (x.declared) sim::fail("TEXT", "node %s is declared twice", a.c_str());
                x.declared = true; if (l != std::string::npos) { size_t q = s.find('"', l + 7); x.label = s.substr(l + 7, q - l - 7); }
            }
        } else if (s.compare(0, 13, "  {rank=same;") == 0) { size_t p = 0; while ((p = s.find('"', p)) != std::string::npos) { size_t q = s.find('"', p + 1); d.ranked.insert(s.substr(p + 1, q - p - 1)); p = q + 1; } }
    }
    for (auto& x : d.nodes) { if (!x.second.declared) sim::fail("TEXT", "node %s has edges but is not declared", x.first.c_str()); if (!d.ranked.count(x.first)) sim::fail("TEXT", "node %s is not placed at its level", x.first.c_str()); }
    return d;
}
inline void nid(std::string const& s, int& i, long& j) { char x; if (sscanf(s.c_str(), "%d:%ld%c", &i, &j, &x) != 2) sim::fail("TEXT", "malformed node name '%s'", s.c_str()); }
// The diagram that a text in SAPPOROBDD format describes.
inline Dag sapporoDag(std::string const& t, int& n, size_t& cnt) {
    std::vector<std::string> L = splitLines(t);
    n = -1; unsigned long long u; int i;
    if (L.size() < 4 || sscanf(L[0].c_str(), "_i %d", &n) != 1 || n < 0 || n > 10000000 || L[1] != "_o 1" || sscanf(L[2].c_str(), "_n %llu", &u) != 1) sim::fail("TEXT", "header is wrong");
    cnt = u;
    if (L.size() != cnt + 4) sim::fail("TEXT", "%llu nodes are announced and %d lines follow", u, (int)L.size() - 4);
    std::map<unsigned long long, Ref> id; Dag g; g.ar = 2; g.row.resize(n + 1); g.root.lev = g.root.col = 0;
    auto ref = [&](const char* s) { Ref r; r.col = 0; if (!strcmp(s, "F")) r.lev = 0; else if (!strcmp(s, "T")) r.lev = -1; else { char* e; unsigned long long x = strtoull(s, &e, 10); if (*e || !id.count(x)) sim::fail("TEXT", "a reference to %s which is not defined before", s); r = id[x]; } return r; };
    for (size_t k = 0; k < cnt; ++k) {
        char a[64], b[64]; char x; unsigned long long me;
        if (sscanf(L[3 + k].c_str(), "%llu %d %60s %60s%c", &me, &i, a, b, &x) != 4 || i < 1 || i > n) sim::fail("TEXT", "malformed node line '%s'", L[3 + k].c_str());
        Ref r0 = ref(a), r1 = ref(b);
        if (r0.lev >= i || r1.lev >= i) sim::fail("TEXT", "a child is not at a lower level");
        Ref r; r.lev = i; r.col = (int)g.width(i);
        if (me < 2 || me % 2 || !id.insert(std::make_pair(me, r)).second) sim::fail("TEXT", "node number %llu is not new and even", me);
        g.row[i].push_back(r0); g.row[i].push_back(r1);
    }
    g.root = ref(L[3 + cnt].c_str());
    return g;
}
inline int sapporoZdd(Canon& c, std::string const& t) { int n; size_t k; return sapporoDag(t, n, k).canon(c); }
