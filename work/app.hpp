// Running a whole program: main() with arguments, standard streams and files.
#pragma once
#include "common.hpp"
#include "io.hpp"
#include <elf.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

typedef std::vector<std::string> VS;
struct TextBuf : std::streambuf {
    std::string s;
    int_type overflow(int_type c) override { sim::Oracle o; if (c != traits_type::eof()) s.push_back((char)c); return 0; }
    std::streamsize xsputn(char const* p, std::streamsize n) override { sim::Oracle o; s.append(p, n); return n; }
};
// The programs keep their settings in global variables. A process runs many simulations, so these are put back to what
// they were when the process started; they are found by the namespace in their symbol, not by name.
static bool mine(const char* symbol);     // of a program this workload runs
struct Globals {
    std::vector<std::pair<char*, std::string> > v;
    Globals() {
        sim::Oracle o; int fd = open("/proc/self/exe", O_RDONLY); struct stat st; if (fd < 0 || fstat(fd, &st)) abort();
        char* m = (char*)mmap(0, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0); close(fd); if (m == MAP_FAILED) abort();
        Elf64_Ehdr* h = (Elf64_Ehdr*)m; Elf64_Shdr* sh = (Elf64_Shdr*)(m + h->e_shoff); if (h->e_type != ET_EXEC) abort();
        for (int i = 0; i < h->e_shnum; ++i) if (sh[i].sh_type == SHT_SYMTAB) {
            Elf64_Sym* y = (Elf64_Sym*)(m + sh[i].sh_offset); const char* str = m + sh[sh[i].sh_link].sh_offset;
            for (size_t k = 0; k < sh[i].sh_size / sizeof *y; ++k) {
                const char* n = str + y[k].st_name; if (ELF64_ST_TYPE(y[k].st_info) != STT_OBJECT || !y[k].st_size || y[k].st_shndx >= h->e_shnum) continue;
                if (!(sh[y[k].st_shndx].sh_flags & SHF_WRITE) || !strncmp(n, "_ZT", 3) || !mine(n)) continue;
                v.push_back({ (char*)y[k].st_value, std::string((char*)y[k].st_value, y[k].st_size) });
            } }
        munmap(m, st.st_size);
    }
    void restore() { for (auto& x : v) memcpy(x.first, x.second.data(), x.second.size()); }
};
static Globals globals;
static bool const unsynced = std::ios::sync_with_stdio(false);     // a program that asks for it later would get new stream buffers
struct App { int rc; std::string out, err; };
// Options may stand before, between and after the file names.
static void mixArgs(VS& a) {
    if (draw(3) != 2) return;
    static const char* const valued[] = { "-limit", "-t", "-ub", "-lb", "-uec", "-solutions", "-k", "-m" };
    std::vector<VS> o; VS f; size_t i = 1;
    for (; i < a.size(); ++i) { if (a[i].size() < 2 || a[i][0] != '-') { f.push_back(a[i]); continue; } o.push_back(VS(1, a[i])); for (auto v : valued) if (a[i] == v && i + 1 < a.size()) { o.back().push_back(a[++i]); break; } }
    a.resize(1); size_t k = 0;
    while (!o.empty() || k < f.size()) if (o.empty() || (k < f.size() && draw(2))) a.push_back(f[k++]); else { size_t j = draw(o.size()); a.insert(a.end(), o[j].begin(), o[j].end()); o.erase(o.begin() + j); }
}
// Runs one program: its output is collected, its settings are put back afterwards.
template<typename F> static App runApp(Env const& e, VS args, std::streambuf* in, F fn) {
    App r; r.rc = -1; TextBuf out, err; std::vector<char*> argv;
    for (auto& a : args) argv.push_back(&a[0]);
    argv.push_back(0);
    std::streambuf *o = std::cout.rdbuf(&out), *c = std::cerr.rdbuf(&err), *i = in ? std::cin.rdbuf(in) : 0; std::cin.clear();
    std::ios fo(0), fc(0); fo.copyfmt(std::cout); fc.copyfmt(std::cerr);
    bool threw = false;
    { sim::Sut s; bool was = MessageHandler::showMessages(false);
      inEnv(e, [&] { try { r.rc = fn((int)args.size(), argv.data()); } catch (std::exception&) { threw = true; } });
      MessageHandler::showMessages(was); }
    std::cout.rdbuf(o); std::cerr.rdbuf(c); if (in) std::cin.rdbuf(i); std::cin.clear(); std::cout.clear(); std::cerr.clear();
    std::cout.copyfmt(fo); std::cerr.copyfmt(fc); globals.restore();
    if (threw) sim::fail("EXIT", "the program ends by an exception nobody catches");
    r.out = out.s; r.err = err.s; sim::ev(r.rc); sim::ev(std::hash<std::string>()(r.out));
    return r;
}
static bool number(std::string const& t, const char* key, std::string& v, bool last = false) {
    size_t p = last ? t.rfind(key) : t.find(key); if (p == std::string::npos) return false; p += strlen(key);
    size_t q = p; while (q < t.size() && (isdigit((unsigned char)t[q]) || t[q] == '.' || t[q] == 'e' || t[q] == '+')) ++q;
    v = t.substr(p, q - p); return q > p;
}
static void checkNumber(std::string const& t, const char* key, double want, bool last = false) {
    std::string v; if (!number(t, key, v, last)) sim::fail("REPORT", "'%s' is not reported", key);
    double d = strtod(v.c_str(), 0); if (d != want && (want < 1e9 || d < want * 0.999999 || d > want * 1.000001)) sim::fail("REPORT", "'%s%s' is reported, right is %.0f", key, v.c_str(), want);
}
// canonical diagram of the diagram a DOT text shows
static int dotZdd(Canon& c, std::string const& t, size_t* nodes = 0) {
    int const ar = c.ar; Dot d = parseDot(t, ar); std::map<std::string, Ref> pos; Dag g; g.ar = ar;
    for (auto& x : d.nodes) { int i; long j; nid(x.first, i, j); if (i < 1 || i > 100000) sim::fail("TEXT", "node %s", x.first.c_str()); if ((int)g.row.size() <= i) g.row.resize(i + 1); Ref r; r.lev = i; r.col = (int)g.width(i); pos[x.first] = r; Ref z; z.lev = z.col = 0; for (int b = 0; b < ar; ++b) g.row[i].push_back(z); }
    if (g.row.empty()) g.row.resize(1);
    auto ref = [&](std::string const& s) { if (pos.count(s)) return pos[s]; Ref r; r.col = 0; r.lev = -1; auto it = d.attrs.find(s); if (it == d.attrs.end() || it->second.find("label=\"T\"") == std::string::npos) sim::fail("TEXT", "an edge leads to %s, which is not a node", s.c_str()); return r; };
    for (auto& x : d.nodes) { Ref me = pos[x.first]; for (auto& e : x.second.e) { Ref r = ref(e.to); if (r.lev >= me.lev) sim::fail("TEXT", "a child is not at a lower level"); g.row[me.lev][me.col * ar + e.b] = r; } }
    if (d.root.empty()) g.root.lev = g.root.col = 0; else g.root = ref(d.root);
    if (nodes) *nodes = g.size();
    return g.canon(c);
}

// ---------------------------------------------------------------- input of a program
struct Input {
    std::string text; bool viaCin, faulty, stored; ReadPlan p; std::unique_ptr<MemFile> f; std::unique_ptr<DripBuf> b; std::string arg;
    Input() : viaCin(false), faulty(false), stored(false) {}
    void prepare(bool cinOk, bool allowFault) {
        memset(&p, 0, sizeof p); static const int ch[] = { 0, 1, 2, 5, 17, 300 };
        viaCin = cinOk && draw(2) == 0; p.chunk = ch[draw(6)]; p.eintr = draw(3) == 2; int fk = allowFault ? (int)fault(sim::F_READ_EIO, 10) : 0; if (fk > 4) fk = 0; uint64_t at = draw(text.size() + 1);
        if (viaCin) { b.reset(new DripBuf(text, p.chunk, fk >= 3, at)); arg = "-"; }
        else { f.reset(new MemFile); f->put(text); arg = f->path; static const int errs[] = { EIO, EISDIR, ESTALE }; if (fk >= 3) { p.err = errs[draw(3)]; p.failAt = at; } else if (fk == 2) p.openErr = draw(2) ? EMFILE : ENOENT; }
        if (fk >= 2) sim::note("readfault%d@%llu ", fk, (ULL)at);
    }
    bool stopped(size_t before) const { return viaCin ? b->failAt < before : p.openErr || p.failAt < before; }     // the failure hides something before that position
    bool hit() const { return viaCin ? b->hitErr : p.hitErr; }
};
// Files are told apart by their path; a read belongs to the file opened last.
struct Disk {
    std::vector<Input*> in; Input* cur; sim::IoPlan io;
    Disk() : cur(0) { io.onRead = onRead; io.onWrite = 0; io.onOpen = onOpen; io.self = this; }
    static int onOpen(void* s, const char* path) { Disk& d = *(Disk*)s; for (Input* i : d.in) if (!i->viaCin && i->arg == path) { d.cur = i; return ReadPlan::onOpen(&i->p, path); } return 0; }
    static int onRead(void* s, size_t want, size_t* give) { Disk& d = *(Disk*)s; if (!d.cur) { *give = want; return 0; } return ReadPlan::onRead(&d.cur->p, want, give); }
};
