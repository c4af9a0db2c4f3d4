// Deterministic simulation runtime.
//
// The code under test is compiled with -fopenmp -fsanitize=thread and linked against
// this file instead of libgomp and libtsan.  Every OpenMP construct, every lock, every
// memory access, every allocation, clock, random number and file operation of the code
// under test therefore enters this file.  All simulated threads are fibers of one OS
// thread; one seeded generator (or a replay file) decides every switch and every fault.
#include "rt_int.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <link.h>
#include <new>

extern "C" void* __cxa_get_globals();
extern "C" char __data_start, _end, __executable_start, etext;

#define ALWAYS_INLINE inline __attribute__((always_inline))
#define UNLIKELY(x) __builtin_expect(!!(x), 0)

namespace sim {

const char* const faultName[F_N] = { "preemption", "worker_stall", "team_smaller_than_requested",
    "worker_count_changed", "nested_in_parallel_region", "allocation_failure", "callback_exception",
    "short_read", "read_EINTR", "read_EIO", "input_truncated", "open_failure", "short_write",
    "write_EIO", "write_ENOSPC", "write_exception", "clock_jump", "adversarial_random",
    "junk_memory", "hogging_worker", "conflict_directed_preemption", "other", "known_finding_met" };

// ------------------------------------------------------------------ memory map
static const uintptr_t ARENA = 0x200000000000ULL;
static const size_t ARENA_SZ = 8ULL << 30;
static const uintptr_t SHADOW = 0x210000000000ULL;      // 1 byte per 8 bytes of arena
static const uintptr_t CONF = 0x220000000000ULL;        // 8 bytes per 8 bytes of arena
static const uintptr_t STACKS = 0x230000000000ULL;
static const size_t STACK_SZ = 1ULL << 20;
static const int MAXF = 96;
static const size_t MAIN_STACK = 64ULL << 20;
static const size_t STACKS_SZ = MAIN_STACK + MAXF * STACK_SZ;
static const uintptr_t CONFS = 0x240000000000ULL;       // for stacks
static const uintptr_t CONFG = 0x250000000000ULL;       // for globals

Result* res;
Trace rec, rep;
Workload* workloads;
int nStrategyForced = -1;
void (*onFinish)();
static bool inRun;
static int mode;

// ------------------------------------------------------------------ PRNG
struct Rng {
    uint64_t s;
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : (uint64_t)(((unsigned __int128)next() * n) >> 64); }
};
static Rng rw, rs, rf, rj;
uint64_t mix(uint64_t a, uint64_t b) {
    Rng r; r.s = a * 0x9E3779B97F4A7C15ULL + b + 0x1234567; r.next(); return r.next() ^ b;
}
static ALWAYS_INLINE void hmix(uint64_t& h, uint64_t v) { h = (h ^ v) * 0x100000001b3ULL; h ^= h >> 29; }

// ------------------------------------------------------------------ fibers
enum State { FREE, IDLE, RUN, BLOCK };
struct Team;
struct Fiber {
    void* sp;
    int id;
    State st;
    int on;                    // >0: code under test
    uint64_t lstep, stop, pre, slice0;
    const void* waitAddr;
    Team* team; int tnum; uint64_t wsIdx; uint64_t singleIdx;
    int icv;                   // nthreads-var
    void (*fn)(void*); void* arg;
    void* (*pfn)(void*); void* pret; bool isThread, finished;
    int prio;
    uint64_t weight;
    int master;                // owner of the worker
    char exc[16];
    char* tls;
    const void* guardHeld;
};
static Fiber fb[MAXF];
static int nf;
static Fiber* cur;
static Fiber dummy;
static char* tlsBase; static size_t tlsSize; static char* tlsInit;

static uint64_t gstep, gstepMark;        // gstep counts completed slices; add cur->lstep - gstepMark
static uint64_t limitSteps;
static uint64_t Q = 2000000;
static int nRunnable;
static uint64_t maxSwitch = 400000;
static uint64_t regionCount;
static uint32_t epoch = 1;
static bool confOn;

struct Strat {
    int kind;                 // 0 sync-only, 1 random walk, 2 PCT, 3 conflict directed, 4 hog, 5 round robin
    uint64_t p;               // mean distance of preemptions
    uint64_t psync;           // 1/psync switch chance at sync points
    uint64_t hot;             // 1/hot switch chance at hot code
    uint64_t cp[8]; int ncp;  // PCT change points
    int stallVictim; uint64_t stallFrom, stallLen;
    uint64_t quantum;
} strat;
static bool dynTeams;
static int defaultThreads = 4;

static ALWAYS_INLINE uint64_t gnow() { return gstep + (cur->lstep - gstepMark); }
uint64_t steps() { return gnow(); }
uint64_t regions() { return regionCount; }
int fiberId() { return cur->id; }
bool multi() { return nRunnable > 1; }

// ------------------------------------------------------------------ verdicts
static void finish(int code) __attribute__((noreturn));
static bool finishing;
static uint64_t simNs();
static void finish(int code) {
    finishing = true;
    cur->on = 0;
    if (res) {
        res->steps = gnow(); res->regions = regionCount; res->simns = simNs();
        res->draws = rec.nw;
        if (onFinish) onFinish();
    }
    fflush(stdout); 
    _exit(code);
}
void fail(const char* code, const char* fmt, ...) {
    cur->on = 0;
    if (res->status != 2) {
        snprintf(res->code, sizeof res->code, "%s", code);
        va_list ap; va_start(ap, fmt);
        vsnprintf(res->msg, sizeof res->msg, fmt, ap);
        va_end(ap);
        for (char* p = res->msg; *p; ++p) if (*p == '\n') *p = ' ';
        res->status = 2;
    }
    finish(0);
}
void reject(const char* why) {
    snprintf(res->msg, sizeof res->msg, "%s", why);
    res->status = 3;
    finish(0);
}
static void internalError(const char* what) __attribute__((noreturn));
static void internalError(const char* what) {
    if (res && res->status != 2) { snprintf(res->msg, sizeof res->msg, "%s", what); res->status = 4; }
    finish(0);
}
void ev(uint64_t x) { hmix(res->hev, x); }
void note(const char* fmt, ...) {
    size_t l = 0; while (res->note[l]) ++l;
    if (l + 2 >= sizeof res->note) return;
    va_list ap; va_start(ap, fmt);
    vsnprintf(res->note + l, sizeof res->note - l, fmt, ap);
    va_end(ap);
}
void nontrivial() { res->nontriv = 1; }
bool known(const char* id) {
    const char* l = getenv("SIM_KNOWN"); if (!l) return false;
    for (const char* p = l; *p;) {
        const char* q = id; while (*q && *p == *q) ++p, ++q;
        if (!*q && (!*p || *p == ',')) { hit(F_KNOWN); return true; }
        while (*p && *p != ',') ++p;
        if (*p) ++p;
    }
    return false;
}
void hit(int kind, uint64_t n) { res->faults[kind] += n; }

// ------------------------------------------------------------------ choices
template<typename T> static void push(T*& a, size_t& n, size_t& c, T const& v) {
    if (n == c) {
        size_t nc = c ? c * 2 : 1024;
        T* b = (T*)mmap(0, nc * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (size_t i = 0; i < n; ++i) b[i] = a[i];
        if (a) munmap(a, c * sizeof(T));
        a = b; c = nc;
    }
    a[n++] = v;
}
uint64_t draw(uint64_t bound) {
    uint64_t v;
    if (mode == ST_REPLAY) {
        v = rec.nw < rep.nw ? rep.w[rec.nw] : 0;
        if (bound && v >= bound) v = bound - 1;
    } else v = rw.below(bound);
    push(rec.w, rec.nw, rec.cw, v);
    hmix(res->hwork, v);
    return v;
}
static uint32_t fOrd[F_N];
uint64_t fault(int kind, uint64_t bound) {
    uint64_t v = 0; uint32_t ord = fOrd[kind]++;
    if (mode == ST_REPLAY) {
        for (size_t i = 0; i < rep.nf; ++i) if (rep.f[i].kind == (uint32_t)kind && rep.f[i].ord == ord) v = rep.f[i].val;
        if (bound && v >= bound) v = bound - 1;
    } else v = rf.below(bound);
    if (v) { Trace::FEnt e; e.kind = kind; e.ord = ord; e.val = v; push(rec.f, rec.nf, rec.cf, e); }
    hmix(res->hwork, v + 77);
    return v;
}

// ------------------------------------------------------------------ context switch
extern "C" void sim_swap(void** save, void* to);
asm(R"(
.text
.globl sim_swap
.type sim_swap,@function
sim_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_swap,.-sim_swap
)");

static void fiberMain();
extern "C" void sim_fiber_entry() { fiberMain(); __builtin_trap(); }

static void bcopy8(void* d, const void* s, size_t n) {
    char* a = (char*)d; const char* b = (const char*)s;
    while (n--) *a++ = *b++;
}

static char* stackTop(int id) {
    if (id == 0) return (char*)(STACKS + MAIN_STACK);
    return (char*)(STACKS + MAIN_STACK + (uintptr_t)id * STACK_SZ);
}
static void prepStack(Fiber* f) {
    uintptr_t top = (uintptr_t)stackTop(f->id) - 64;
    top &= ~(uintptr_t)15;
    uint64_t* p = (uint64_t*)top;
    *--p = 0;                                  // fake return address of entry
    *--p = (uint64_t)(void*)&sim_fiber_entry;  // ret target
    for (int i = 0; i < 6; ++i) *--p = 0;
    *--p = 0;
    uint32_t* q = (uint32_t*)p;
    q[0] = 0x1f80; q[1] = 0x037f;
    f->sp = p;
}
static void newFiber(Fiber* f, int id) {
    f->id = id; f->st = IDLE; f->on = 0; f->lstep = 0; f->stop = f->pre = ~0ULL; f->slice0 = 0;
    f->team = 0; f->tnum = 0; f->icv = defaultThreads; f->fn = 0; f->pfn = 0; f->isThread = false; f->finished = false;
    f->wsIdx = f->singleIdx = 0;
    f->prio = mode == ST_SEED ? (int)rs.below(1000000) + 100 : 0;
    f->weight = 1;
    for (int i = 0; i < 16; ++i) f->exc[i] = 0;
    if (tlsSize) {
        f->tls = (char*)mmap(0, tlsSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        bcopy8(f->tls, tlsInit, tlsSize);
    }
    if (id) prepStack(f);
}
static Fiber* allocFiber() {
    if (nf >= MAXF) internalError("too many simulated threads");
    Fiber* f = &fb[nf]; newFiber(f, nf); ++nf;
    if (strat.kind == 4 && mode == ST_SEED) f->weight = rs.below(3) == 0 ? 200 : 1;
    return f;
}

// ------------------------------------------------------------------ scheduler
static void planStop(Fiber* f) {
    uint64_t g = gnow();
    uint64_t stop = limitSteps > g ? f->lstep + (limitSteps - g) : f->lstep + 1;
    f->pre = ~0ULL;
    if (nRunnable > 1) {
        if (f->slice0 + Q < stop) stop = f->slice0 + Q;
        if (mode == ST_SEED) {
            if (res->switches < maxSwitch) switch (strat.kind) {
            case 1: case 3: case 4: {
                if (strat.p) f->pre = f->lstep + 1 + (strat.p <= 1 ? 0 : rs.below(2 * strat.p));
                break; }
            case 2:
                if (strat.ncp) {
                    uint64_t c = strat.cp[strat.ncp - 1];
                    f->pre = f->lstep + (c > g ? c - g : 1);
                }
                break;
            case 5: f->pre = f->slice0 + strat.quantum; if (f->pre <= f->lstep) f->pre = f->lstep + 1; break;
            default: break;
            }
            if (strat.stallLen && strat.stallVictim == f->id && g < strat.stallFrom + strat.stallLen) {
                uint64_t at = g < strat.stallFrom ? f->lstep + (strat.stallFrom - g) : f->lstep + 1;
                if (at < f->pre) f->pre = at;
            }
        } else {
            // next recorded switch of this fiber (entries are sorted by fiber, lstep)
            size_t lo = 0, hi = rep.ns;
            while (lo < hi) {
                size_t m = (lo + hi) / 2;
                if (rep.s[m].fiber < (uint32_t)f->id || (rep.s[m].fiber == (uint32_t)f->id && rep.s[m].lstep <= f->lstep)) lo = m + 1;
                else hi = m;
            }
            if (lo < rep.ns && rep.s[lo].fiber == (uint32_t)f->id) f->pre = rep.s[lo].lstep;
        }
        if (f->pre < stop) stop = f->pre;
    }
    f->stop = stop;
}

static int runnables(int* out, Fiber* except) {
    int n = 0;
    for (int i = 0; i < nf; ++i) if (fb[i].st == RUN && &fb[i] != except) out[n++] = i;
    return n;
}
static Fiber* cyclicNext(Fiber* f) {
    for (int k = 1; k <= nf; ++k) {
        Fiber* t = &fb[(f->id + k) % nf];
        if (t->st == RUN && t != f) return t;
    }
    return f->st == RUN ? f : 0;
}
static bool stalled(int id) {
    if (!strat.stallLen || mode != ST_SEED || id != strat.stallVictim) return false;
    uint64_t g = gnow();
    return g >= strat.stallFrom && g < strat.stallFrom + strat.stallLen;
}
// Picks the next fiber; `must`: the current one may not continue.
static Fiber* choose(Fiber* f, bool must) {
    Fiber* def = must ? cyclicNext(f) : f;
    Fiber* t = def;
    if (mode == ST_REPLAY) {
        size_t lo = 0, hi = rep.ns;
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            if (rep.s[m].fiber < (uint32_t)f->id || (rep.s[m].fiber == (uint32_t)f->id && rep.s[m].lstep < f->lstep)) lo = m + 1;
            else hi = m;
        }
        if (lo < rep.ns && rep.s[lo].fiber == (uint32_t)f->id && rep.s[lo].lstep == f->lstep) {
            int g = rep.s[lo].target;
            if (g < nf && fb[g].st == RUN && !(must && &fb[g] == f)) t = &fb[g];
        }
    } else if (res->switches < maxSwitch) {
        int r[MAXF]; int n = runnables(r, must ? f : 0);
        if (n == 0) return 0;
        if (strat.stallLen) {
            int m = 0;
            for (int i = 0; i < n; ++i) if (!stalled(r[i])) r[m++] = r[i];
            if (m && m < n) { hit(F_STALL); n = m; }
        }
        switch (strat.kind) {
        case 2: {
            int b = r[0];
            for (int i = 1; i < n; ++i) if (fb[r[i]].prio > fb[b].prio) b = r[i];
            t = &fb[b]; break; }
        case 4: {
            uint64_t s = 0; for (int i = 0; i < n; ++i) s += fb[r[i]].weight;
            uint64_t x = rs.below(s); int i = 0;
            while (x >= fb[r[i]].weight) { x -= fb[r[i]].weight; ++i; }
            t = &fb[r[i]];
            if (t->weight > 1) hit(F_HOG);
            break; }
        case 5: {
            t = 0;
            for (int k = 1; k <= nf && !t; ++k) {
                int g = (f->id + k) % nf;
                for (int i = 0; i < n; ++i) if (r[i] == g) { t = &fb[g]; break; }
            }
            break; }
        default: t = &fb[r[rs.below(n)]];
        }
    }
    if (t != def) { SEnt e; e.fiber = f->id; e.lstep = f->lstep; e.target = t->id; push(rec.s, rec.ns, rec.cs, e); }
    return t;
}
static void switchTo(Fiber* t) {
    Fiber* f = cur;
    if (t == f) { planStop(f); return; }
    gstep = gnow();
    ++res->switches;
    hmix(res->hsched, ((uint64_t)f->id << 56) ^ ((uint64_t)t->id << 48) ^ f->lstep);
    gstepMark = t->lstep;
    bcopy8(f->exc, __cxa_get_globals(), 16);
    if (tlsSize) { bcopy8(f->tls, tlsBase, tlsSize); bcopy8(tlsBase, t->tls, tlsSize); }
    bcopy8(__cxa_get_globals(), t->exc, 16);
    cur = t;
    t->slice0 = t->lstep;
    planStop(t);
    sim_swap(&f->sp, t->sp);
    // resumed
}
static void deadlock() {
    char b[600]; size_t l = 0; b[0] = 0;
    for (int i = 0; i < nf && l < sizeof b - 60; ++i)
        if (fb[i].st == BLOCK) l += snprintf(b + l, sizeof b - l, " t%d@%llu", i, (unsigned long long)fb[i].lstep);
    fail("DEADLOCK", "no simulated thread can run; blocked:%s", b);
}
static void slow(Fiber* f) {
    if (gnow() >= limitSteps) fail("PROGRESS", "step bound %llu exceeded without completion", (unsigned long long)limitSteps);
    if (nRunnable > 1) {
        if (f->lstep >= f->slice0 + Q) { switchTo(choose(f, true)); return; }
        if (f->lstep >= f->pre) {
            if (mode == ST_SEED && strat.kind == 2 && strat.ncp && gnow() >= strat.cp[strat.ncp - 1]) {
                f->prio = strat.ncp; --strat.ncp;      // change point: lowest priority so far
            }
            Fiber* t = choose(f, false);
            if (t != f) { ++res->preempts; hit(F_PREEMPT); switchTo(t); return; }
        }
    }
    planStop(f);
}
// Scheduling point at a synchronisation operation.
static void syncPoint() {
    Fiber* f = cur;
    ++f->lstep;
    if (f->lstep >= f->stop && gnow() >= limitSteps) slow(f);
    if (nRunnable > 1) {
        bool sw = false;
        if (mode == ST_SEED) sw = res->switches < maxSwitch && (strat.kind == 2 || strat.kind == 5 ? (strat.kind == 2 || rs.below(strat.psync) == 0) : rs.below(strat.psync) == 0);
        else sw = f->lstep >= f->pre;
        if (sw) {
            Fiber* t = choose(f, false);
            if (t != f) { switchTo(t); return; }
        }
        if (f->lstep >= f->stop) slow(f);
    }
}
void yield() { if (inRun && cur->on) syncPoint(); }
static void blockOn(const void* a) {
    Fiber* f = cur;
    ++f->lstep;
    f->st = BLOCK; f->waitAddr = a; --nRunnable;
    Fiber* t = choose(f, true);
    if (!t) deadlock();
    switchTo(t);
}
static void wake(const void* a) {
    bool any = false;
    for (int i = 0; i < nf; ++i) if (fb[i].st == BLOCK && fb[i].waitAddr == a) { fb[i].st = RUN; fb[i].waitAddr = 0; ++nRunnable; any = true; }
    if (any) planStop(cur);
}
static void wakeFiber(Fiber* t) { if (t->st != RUN) { t->st = RUN; ++nRunnable; } }

// ------------------------------------------------------------------ heap
struct Hdr { uint32_t magic, tag; uint64_t size; };
static const uint32_t LIVE = 0x51B10CA1, DEAD = 0xDEADB10C;
static uintptr_t bump;
static uint64_t nAlloc, failAt, failEnd, liveN, liveB;
static bool didFail;
static int junkMode;
static uint64_t allocSerial;

static ALWAYS_INLINE uint8_t* sh(uintptr_t a) { return (uint8_t*)(SHADOW + ((a - ARENA) >> 3)); }
static void fillb(void* p, int v, size_t n) { unsigned char* a = (unsigned char*)p; asm volatile("rep stosb" : "+D"(a), "+c"(n) : "a"(v) : "memory"); }

static void* arenaAlloc(size_t n, size_t align, bool nothrow) {
    bool sut = cur->on > 0;
    if (sut) {
        ++nAlloc;
        if (failAt && nAlloc >= failAt && nAlloc < failEnd) {
            didFail = true; hit(F_ALLOC);
            if (nothrow) return 0;
            throw std::bad_alloc();
        }
        if (n > (1ULL << 30)) { if (nothrow) return 0; throw std::bad_alloc(); }   // as a real heap of this size would
    }
    if (align < 16) align = 16;
    uintptr_t p = (bump + sizeof(Hdr) + align - 1) & ~(uintptr_t)(align - 1);
    uintptr_t e = p + n;
    uintptr_t nb = ((e + 15) & ~(uintptr_t)15) + 16;
    if (inRun && sut && nb > ARENA + (1792ULL << 20)) {       // addresses are not used twice, so a run of many operations may use them up
        if (liveB > (1200ULL << 20)) fail("MEMORY", "the run holds more than 1.2 GB");
        reject("arena used up");
    }
    // what the harness records of a run (output, elements visited) is small unless the code under test does not come to an end
    if (inRun && !sut && (n > (256ULL << 20) || nb > ARENA + (4096ULL << 20))) fail("MEMORY", "the output or history of the run does not fit in memory");
    if (nb > ARENA + ARENA_SZ) { if (inRun) internalError("arena exhausted"); abort(); }
    fillb(sh(bump), 0xFA, ((p - bump) >> 3));
    fillb(sh(p), 0, n >> 3);
    uintptr_t g = p + (n & ~(size_t)7);
    if (n & 7) { *sh(g) = n & 7; g += 8; }
    fillb(sh(g), 0xFB, (nb - g) >> 3);
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    h->magic = LIVE; h->size = n; h->tag = sut ? (uint32_t)++allocSerial : 0;
    bump = nb;
    if (sut) {
        ++liveN; liveB += n;
        if (junkMode) {
            size_t m = n > 65536 ? 32768 : n;
            int v = junkMode == 1 ? 0xFF : junkMode == 2 ? 0xA5 : junkMode == 3 ? 0x01 : 0;
            if (junkMode <= 3) fillb((void*)p, v, m);
            else for (size_t i = 0; i + 8 <= m; i += 8) *(uint64_t*)(p + i) = rj.next() >> (junkMode == 5 ? 44 : 0);
            hit(F_JUNK);
        }
    }
    return (void*)p;
}
static void arenaFree(void* q) {
    if (!q) return;
    uintptr_t p = (uintptr_t)q;
    if (p - ARENA >= ARENA_SZ || (p & 15)) fail("HEAP", "invalid free of %p", q);
    Hdr* h = (Hdr*)(p - sizeof(Hdr));
    if (*sh(p - 8) != 0xFA) fail("HEAP", "invalid free: not the start of a block");
    if (h->magic == DEAD) fail("HEAP", "double free of a block of %llu bytes", (unsigned long long)h->size);
    if (h->magic != LIVE) fail("HEAP", "free of a corrupted block");
    h->magic = DEAD;
    if (h->tag) { --liveN; liveB -= h->size; }
    size_t n = h->size;
    fillb(sh(p), 0xFD, (n + 7) >> 3);
    if (n) { size_t m = n > 65536 ? 32768 : n; fillb(q, 0xDD, m); }
}
void allocFailAt(uint64_t n, uint64_t len) { failAt = n ? nAlloc + n : 0; failEnd = failAt + len < failAt ? ~0ULL : failAt + len; didFail = false; }
uint64_t allocCount() { return nAlloc; }
bool allocFailed() { return didFail; }
uint64_t liveSut() { return liveN; }
uint64_t liveSutBytes() { return liveB; }
void listLive(char* b, size_t bn) {
    // blocks are contiguous; walk via shadow is not possible, so only totals are given
    snprintf(b, bn, "%llu blocks, %llu bytes", (unsigned long long)liveN, (unsigned long long)liveB);
}

static void heapBad(uintptr_t a, unsigned sz, bool w, void* pc, uint8_t s) __attribute__((noinline, noreturn));
static void heapBad(uintptr_t a, unsigned sz, bool w, void* pc, uint8_t s) {
    const char* k = s == 0xFD ? "use after free" : s == 0xFB || s < 8 ? "access beyond the end of a heap block" : s == 0xFA ? "access before a heap block" : "wild heap access";
    fail("HEAP", "%s: %s of %u bytes at arena+0x%llx pc=%p thread %d", k, w ? "write" : "read", sz,
         (unsigned long long)(a - ARENA), pc, cur->id);
}
static ALWAYS_INLINE void heapCheck(uintptr_t a, unsigned sz, bool w, void* pc) {
    uint8_t s = *sh(a);
    if (UNLIKELY(s)) { if (s >= 8 || (a & 7) + sz > s) heapBad(a, sz, w, pc, s); }
    if (sz == 16 || (a & 7) + sz > 8) { uint8_t t = *sh(a + sz - 1); if (UNLIKELY(t)) { if (t >= 8 || ((a + sz - 1) & 7) >= t) heapBad(a, sz, w, pc, t); } }
}

// ------------------------------------------------------------------ conflicts
struct Cf { uint32_t pc; uint16_t ep; uint8_t fid; uint8_t w; };
static uint8_t hotBits[1 << 16];
static ALWAYS_INLINE uint32_t hotIdx(uint32_t pc) { return (pc * 2654435761u) >> 16; }
static bool conflictAccess(uintptr_t a, bool w, uint32_t pc) {
    Cf* c;
    if (a - ARENA < ARENA_SZ) c = (Cf*)(CONF + ((a - ARENA) & ~(uintptr_t)7));
    else if (a - STACKS < STACKS_SZ) c = (Cf*)(CONFS + ((a - STACKS) & ~(uintptr_t)7));
    else if (a - (uintptr_t)&__data_start < (uintptr_t)(&_end - &__data_start)) c = (Cf*)(CONFG + ((a - (uintptr_t)&__data_start) & ~(uintptr_t)7));
    else return false;
    bool hotNow = false;
    uint16_t ep = (uint16_t)epoch;
    if (c->ep == ep && c->fid != (uint8_t)cur->id && (c->w || w)) {
        ++res->conflicts;
        hotBits[hotIdx(pc)] = 1; hotBits[hotIdx(c->pc)] = 1;
        hotNow = true;
    }
    if (w || c->ep != ep || !c->w) { c->pc = pc; c->ep = ep; c->fid = cur->id; c->w = w; }
    return hotNow || hotBits[hotIdx(pc)];
}
static void hotPreempt(Fiber* f) __attribute__((noinline));
static void hotPreempt(Fiber* f) {
    if (res->switches >= maxSwitch || rs.below(strat.hot)) return;
    Fiber* t = choose(f, false);
    if (t != f) { ++res->preempts; hit(F_CONFLICT_PREEMPT); switchTo(t); }
}

static ALWAYS_INLINE void acc(uintptr_t a, unsigned sz, bool w, void* pc) {
    Fiber* f = cur;
    if (f->on <= 0) return;
    ++f->lstep;
    if (UNLIKELY(f->lstep >= f->stop)) slow(f);
    else if (confOn && nRunnable > 1 && mode == ST_SEED && strat.kind == 3) {
        // only the outcome (a switch at this lstep) is recorded, so a replay needs no shadow
        if (conflictAccess(a, w, (uint32_t)(uintptr_t)pc)) hotPreempt(f);
    }
    if (a - ARENA < ARENA_SZ) heapCheck(a, sz, w, pc);
    else if (UNLIKELY(a < 4096)) fail("CRASH", "null pointer %s at %p pc=%p", w ? "write" : "read", (void*)a, pc);
}
static void accRange(uintptr_t a, size_t n, bool w, void* pc) {
    Fiber* f = cur;
    if (f->on <= 0 || !n) return;
    ++f->lstep;
    if (UNLIKELY(f->lstep >= f->stop)) slow(f);
    if (a - ARENA < ARENA_SZ) {
        uintptr_t e = a + n;
        uintptr_t x = a;
        while (x < e) {
            unsigned k = 8 - (x & 7); if (k > e - x) k = e - x;
            uint8_t s = *sh(x);
            if (UNLIKELY(s) && (s >= 8 || (x & 7) + k > s)) heapBad(x, k, w, pc, s);
            x += k;
        }
    }
}

// ------------------------------------------------------------------ scopes and environment
void sutEnter() { if (cur->on < 0) internalError("scope"); cur->on = 1; planStop(cur); }
void sutLeave() { cur->on = 0; }
static int savedOn(int v) { return v; }
void oracleEnter() { cur->on = savedOn(cur->on) > 0 ? -cur->on : cur->on - 1000; }
void oracleLeave() { cur->on = cur->on <= -1000 ? cur->on + 1000 : -cur->on; }
void setThreads(int n) { cur->icv = n < 1 ? 1 : n; if (n > res->threads) res->threads = n; }
int threads() { return cur->icv; }
void setDynamic(bool on) { dynTeams = on; }
void stepLimit(uint64_t n) { limitSteps = gnow() + n; planStop(cur); }

// ------------------------------------------------------------------ clock, random
static int clockMode; static uint64_t clockN;
static int64_t clockOff;
static uint64_t simNs() { return gnow(); }
uint64_t simTimeNs() { return simNs(); }
void setClockMode(int m) { clockMode = m; }
uint64_t clockCalls() { return clockN; }
static int64_t simClock() {       // microseconds
    ++clockN;
    int64_t base = 1700000000LL * 1000000 + (int64_t)(gnow() / 1000);
    switch (clockMode) {
    case 0: return base;
    case 1: hit(F_CLOCK); return 1700000000LL * 1000000;                       // frozen
    case 2: hit(F_CLOCK); clockOff += 3600LL * 1000000 * (1 + mix(clockN, 1) % 50); return base + clockOff;   // leaps
    case 3: hit(F_CLOCK); clockOff -= 1000000LL * (mix(clockN, 2) % 100000); return base + clockOff;          // backwards
    default: hit(F_CLOCK); return base + (int64_t)(mix(clockN, 3) % 200000000000ULL) - 100000000000LL;        // jitter
    }
}
static int randMode; static Rng rr; static uint64_t randN;
void setRandMode(int m, uint64_t s) { randMode = m; rr.s = s; randN = 0; }
uint64_t randCalls() { return randN; }
static int simRand() {
    ++randN;
    switch (randMode) {
    case 1: hit(F_RAND); return 0;
    case 2: hit(F_RAND); return RAND_MAX;
    case 3: hit(F_RAND); return (randN & 1) ? 0 : RAND_MAX;
    case 4: hit(F_RAND); return (int)(randN & 0x7fffffff);
    default: return (int)(rr.next() & 0x7fffffff);
    }
}

// ------------------------------------------------------------------ teams
struct WS { bool inited; int64_t next, end, incr, chunk; bool down; uint64_t unext, uend, uincr, uchunk; bool single; void* copy; unsigned secNext, secCount; };
struct Team {
    int n; int arrived; uint64_t gen; int ended; int level;
    WS* ws[256]; Fiber* member[MAXF]; Team* up; int upTnum; uint64_t upWs;
    int tasksUnused;
};
static int workerOf[MAXF][MAXF];   // [master][tnum] -> fiber id + 1

static void* rtAlloc(size_t n) {
    char* p = (char*)calloc(1, n);
    if (!p) internalError("rt memory");
    return p;
}
static void teamBarrier(Team* t) {
    if (t->n == 1) { ++cur->lstep; return; }
    syncPoint();
    if (++t->arrived == t->n) {
        t->arrived = 0; ++t->gen; wake(t);
        ++epoch;
        syncPoint();
    } else {
        uint64_t g = t->gen;
        while (t->gen == g) blockOn(t);
    }
}
static WS* ws(Team* t, Fiber* f) {
    if (f->wsIdx >= 256) internalError("too many worksharing constructs in one region");
    WS*& w = t->ws[f->wsIdx];
    if (!w) w = (WS*)rtAlloc(sizeof(WS));
    return w;
}
static Team serialTeam[MAXF];
static Team* curTeam() {
    Fiber* f = cur;
    if (f->team) return f->team;
    Team* t = &serialTeam[f->id]; t->n = 1; t->member[0] = f; return t;
}
static int teamSize(int req) {
    if (req <= 1 || !dynTeams) return req;
    uint64_t idx = regionCount, v = req;
    if (mode == ST_REPLAY) {
        for (size_t i = 0; i < rep.nt; ++i) if (rep.t[i].idx == idx) v = rep.t[i].val;
        if (v < 1) v = 1;
        if (v > (uint64_t)req) v = req;
    } else {
        uint64_t k = rs.below(4);
        v = k == 0 ? 1 : k == 1 ? req : 1 + rs.below(req);
    }
    if (v != (uint64_t)req) { Trace::TEnt e; e.idx = idx; e.val = v; push(rec.t, rec.nt, rec.ct, e); hit(F_TEAM_SHRINK); }
    return (int)v;
}
static void runRegion(void (*fn)(void*), void* data, int n) {
    Fiber* f = cur;
    Team* t = (Team*)rtAlloc(sizeof(Team));
    t->up = f->team; t->upTnum = f->tnum; t->upWs = f->wsIdx;
    t->level = (f->team ? f->team->level : 0) + 1;
    if (t->up && t->up->n > 1) { n = 1; hit(F_NESTED); }
    ++regionCount;
    n = teamSize(n);
    if (n > MAXF - 1) n = MAXF - 1;
    t->n = n;
    hmix(res->hchunk, 0xABC00 + n);
    ++epoch; confOn = true;
    f->team = t; f->tnum = 0; f->wsIdx = 0; t->member[0] = f;
    for (int k = 1; k < n; ++k) {
        int& id = workerOf[f->id][k];
        if (!id) { Fiber* x = allocFiber(); x->master = f->id; id = x->id + 1; }
        Fiber* w = &fb[id - 1];
        w->fn = fn; w->arg = data; w->team = t; w->tnum = k; w->wsIdx = 0; w->icv = f->icv; w->on = f->on;
        t->member[k] = w;
        wakeFiber(w);
    }
    if (n > 1) { planStop(f); syncPoint(); }
    fn(data);
    if (n > 1) {
        syncPoint();
        ++t->ended;
        while (t->ended < n) blockOn(&t->ended);
    }
    ++epoch;
    f->team = t->up; f->tnum = t->upTnum; f->wsIdx = t->upWs;
    for (int i = 0; i < 256; ++i) if (t->ws[i]) free(t->ws[i]);
    free(t);
    planStop(f);
}
static void fiberMain() {
    for (;;) {
        Fiber* f = cur;
        if (f->isThread) {
            f->pret = f->pfn(f->arg);
            f->finished = true;
            wake(f);
        } else {
            f->fn(f->arg);
            Team* t = f->team;
            syncPoint();
            ++t->ended;
            if (t->ended == t->n) wake(&t->ended);
            f->team = 0;
        }
        ++f->lstep;
        f->st = IDLE; --nRunnable;
        f->on = 0;
        Fiber* nx = choose(f, true);
        if (!nx) deadlock();
        switchTo(nx);
    }
}
static bool dynNext(WS* w, long* a, long* b) {
    syncPoint();
    if (w->down ? w->next <= w->end : w->next >= w->end) return false;
    int64_t s = w->next, e = s + w->chunk * w->incr;
    if (w->down ? e < w->end : e > w->end) e = w->end;
    w->next = e; *a = s; *b = e;
    hmix(res->hchunk, ((uint64_t)cur->tnum << 48) ^ (uint64_t)s);
    return true;
}
static bool guidedNext(WS* w, long* a, long* b) {
    int64_t rem = w->down ? w->next - w->end : w->end - w->next;
    int64_t ai = w->incr < 0 ? -w->incr : w->incr;
    int64_t it = rem > 0 ? (rem + ai - 1) / ai : 0;
    int64_t c0 = w->chunk; int64_t n = curTeam()->n;
    int64_t q = (it + n - 1) / n; if (q > w->chunk) w->chunk = q;
    bool r = dynNext(w, a, b); w->chunk = c0; return r;
}
static WS* loopInit(long start, long end, long incr, long chunk) {
    Team* t = curTeam(); WS* w = ws(t, cur);
    if (!w->inited) {
        w->inited = true; w->next = start; w->end = end; w->incr = incr; w->chunk = chunk ? chunk : 1; w->down = incr < 0;
    }
    return w;
}
static bool udynNext(WS* w, unsigned long long* a, unsigned long long* b) {
    syncPoint();
    if (w->down ? w->unext <= w->uend : w->unext >= w->uend) return false;
    uint64_t s = w->unext, e;
    uint64_t d = w->uchunk * (w->down ? -w->uincr : w->uincr);
    if (w->down) e = (s - w->uend <= d) ? w->uend : s - d;
    else e = (w->uend - s <= d) ? w->uend : s + d;
    w->unext = e; *a = s; *b = e;
    hmix(res->hchunk, ((uint64_t)cur->tnum << 48) ^ s);
    return true;
}
static WS* uloopInit(bool up, uint64_t start, uint64_t end, uint64_t incr, uint64_t chunk) {
    Team* t = curTeam(); WS* w = ws(t, cur);
    if (!w->inited) {
        w->inited = true; w->unext = start; w->uend = end; w->uincr = incr; w->uchunk = chunk ? chunk : 1; w->down = !up;
        if (w->down ? w->unext < w->uend : w->unext > w->uend) w->uend = w->unext;
    }
    return w;
}
// static schedule served by the runtime: per-thread position kept in a side table
struct StPos { uint64_t trip; };
static StPos stPos[MAXF];
static bool statNext(WS* w, long* a, long* b) {
    Team* t = curTeam(); int64_t inc = w->incr;
    int64_t tot = w->down ? w->next - w->end : w->end - w->next;
    int64_t ai = inc < 0 ? -inc : inc;
    int64_t it = tot > 0 ? (tot + ai - 1) / ai : 0;
    uint64_t trip = stPos[cur->id].trip++;
    syncPoint();
    if (w->uchunk == 0) {          // one block per thread
        if (trip) return false;
        int64_t q = it / t->n, r = it % t->n, s0 = q * cur->tnum + (cur->tnum < r ? cur->tnum : r), e0 = s0 + q + (cur->tnum < r ? 1 : 0);
        if (s0 >= e0) return false;
        *a = w->next + s0 * inc; *b = w->next + e0 * inc; return true;
    }
    int64_t c = w->uchunk, s0 = ((int64_t)trip * t->n + cur->tnum) * c;
    if (s0 >= it) return false;
    int64_t e0 = s0 + c; if (e0 > it) e0 = it;
    *a = w->next + s0 * inc; *b = w->next + e0 * inc; return true;
}
// ------------------------------------------------------------------ locks
struct Lk { const void* a; int owner; int depth; };
static Lk lks[4096];
static Lk* lk(const void* a) {
    size_t h = ((uintptr_t)a >> 3) * 0x9E3779B97F4A7C15ULL >> 52;
    for (size_t i = 0; i < 4096; ++i) {
        Lk* l = &lks[(h + i) & 4095];
        if (l->a == a) return l;
        if (!l->a) { l->a = a; l->owner = -1; l->depth = 0; return l; }
    }
    internalError("too many locks");
}
static void lockAcq(const void* a, bool recursive = false) {
    Lk* l = lk(a);
    if (recursive && l->owner == cur->id) { ++l->depth; return; }
    if (inRun && cur->on > 0) syncPoint();
    while (l->owner >= 0) blockOn(a);
    l->owner = cur->id; l->depth = 1;
}
static bool lockTry(const void* a, bool recursive = false) {
    Lk* l = lk(a);
    if (inRun && cur->on > 0) syncPoint();
    if (recursive && l->owner == cur->id) { ++l->depth; return true; }
    if (l->owner >= 0) return false;
    l->owner = cur->id; l->depth = 1; return true;
}
static void lockRel(const void* a) {
    Lk* l = lk(a);
    if (--l->depth > 0) return;
    l->depth = 0; l->owner = -1; wake(a);
    if (inRun && cur->on > 0) syncPoint();
}

// ------------------------------------------------------------------ caller threads
static int spawnThread(void* (*fn)(void*), void* arg, int on) {
    Fiber* t = allocFiber();
    t->isThread = true; t->pfn = fn; t->arg = arg; t->on = on; t->icv = cur->icv;
    confOn = true; ++epoch;
    wakeFiber(t); planStop(cur);
    return t->id;
}
struct SpawnArg { void (*fn)(void*); void* arg; };
static void* spawnTramp(void* p) { SpawnArg a = *(SpawnArg*)p; free(p); a.fn(a.arg); return 0; }
int spawn(void (*fn)(void*), void* arg) {
    SpawnArg* a = (SpawnArg*)malloc(sizeof(SpawnArg)); a->fn = fn; a->arg = arg;
    return spawnThread(spawnTramp, a, 0);
}
void join(int id) { while (!fb[id].finished) blockOn(&fb[id]); }

// ------------------------------------------------------------------ I/O
static IoPlan io; static bool ioOn;
void setIo(IoPlan const* p) { if (p) { io = *p; ioOn = true; } else ioOn = false; }

void reg(Workload* w) { w->next = workloads; workloads = w; }

// ------------------------------------------------------------------ run
static void onSignal(int sig, siginfo_t* si, void* uc) {
    if (finishing) _exit(99);
    void* pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
    bool exe = (char*)pc >= &__executable_start && (char*)pc < &etext;
    cur->on = 0;
    if (sig == SIGABRT) fail("ABORT", "the program called abort()/std::terminate()");
    fail("CRASH", "signal %d (%s) in %s pc=%p", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : "signal",
         exe ? "the program" : "a library call", exe ? pc : (void*)0);
    (void)si;
}
static int tlsCb(struct dl_phdr_info* i, size_t, void*) {
    for (int k = 0; k < i->dlpi_phnum; ++k) if (i->dlpi_phdr[k].p_type == PT_TLS) {
        size_t al = i->dlpi_phdr[k].p_align ? i->dlpi_phdr[k].p_align : 1;
        tlsSize = i->dlpi_phdr[k].p_memsz;
        size_t off = (tlsSize + al - 1) / al * al;
        char* fs; asm("movq %%fs:0, %0" : "=r"(fs));
        tlsBase = fs - off;
        if (i->dlpi_tls_data) tlsBase = (char*)i->dlpi_tls_data;
    }
    return 1;   // main program only
}
static void mapAt(uintptr_t a, size_t n) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) { static const char m[] = "sim: cannot map memory\n"; (void)!::write(2, m, sizeof m - 1); _exit(3); }
}
static bool inited;
static void earlyInit() {
    if (inited) return;
    inited = true;
    mapAt(ARENA, ARENA_SZ); mapAt(SHADOW, ARENA_SZ / 8); mapAt(CONF, ARENA_SZ);
    mapAt(STACKS, STACKS_SZ); mapAt(CONFS, STACKS_SZ); mapAt(CONFG, 64 << 20);
    bump = ARENA + 64;
    dummy.id = 0; dummy.stop = ~0ULL;
    if (!cur) cur = &dummy;
}
void rtInit() {
    earlyInit();
    dl_iterate_phdr(tlsCb, 0);
    if (tlsSize > 65536) tlsSize = 0;
    if (tlsSize) { tlsInit = (char*)malloc(tlsSize); bcopy8(tlsInit, tlsBase, tlsSize); }
}
static Workload* theWl;
static void drawStrategy() {
    // All scheduling parameters come from the schedule generator; a replay needs none of them.
    strat.kind = nStrategyForced >= 0 ? nStrategyForced : (int)rs.below(6);
    static const uint64_t ps[] = { 3, 10, 40, 150, 600, 3000, 20000 };
    strat.p = strat.kind == 3 ? (rs.below(2) ? 0 : 3000) : ps[rs.below(7)];
    if (strat.kind == 4) strat.p = ps[1 + rs.below(6)];
    static const uint64_t sy[] = { 1, 2, 3, 8 };
    strat.psync = sy[rs.below(4)];
    static const uint64_t ht[] = { 1, 2, 4, 10, 40 };
    strat.hot = ht[rs.below(5)];
    strat.quantum = 1 + rs.below(ps[rs.below(6)]);
    strat.ncp = 0;
    if (strat.kind == 2) {
        int d = 1 + rs.below(6);
        uint64_t len = 1ULL << (8 + rs.below(13));
        for (int i = 0; i < d; ++i) strat.cp[i] = rs.below(len);
        for (int i = 0; i < d; ++i) for (int j = i + 1; j < d; ++j) if (strat.cp[j] > strat.cp[i]) { uint64_t x = strat.cp[i]; strat.cp[i] = strat.cp[j]; strat.cp[j] = x; }
        strat.ncp = d;
    }
    strat.stallLen = 0;
    if (rs.below(4) == 0) {
        strat.stallVictim = rs.below(4);
        strat.stallFrom = rs.below(1ULL << (4 + rs.below(14)));
        strat.stallLen = 1ULL << (6 + rs.below(15));
    }
    res->strategy = strat.kind;
}
static void mainFiber() {
    theWl->fn();
    res->status = 1;
    finish(0);
}
void runOne(int m, uint64_t seed, Workload* w) {
    mode = m; theWl = w;
    rw.s = mix(seed, 101); rs.s = mix(seed, 202); rf.s = mix(seed, 303);
    res->hsched = res->hev = res->hwork = res->hchunk = 0xcbf29ce484222325ULL;
    if (m == ST_SEED) drawStrategy();
    static char alt[65536];
    stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
    struct sigaction sa; for (size_t i = 0; i < sizeof sa; ++i) ((char*)&sa)[i] = 0;
    sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT };
    for (int s : sg) sigaction(s, &sa, 0);
    nf = 0;
    Fiber* f = &fb[0]; newFiber(f, 0); nf = 1;
    f->st = RUN; nRunnable = 1; f->isThread = false;
    limitSteps = 2000000000ULL;
    gstep = 0; gstepMark = 0;
    // run the workload on the fixed main stack
    f->fn = 0;
    uintptr_t top = ((uintptr_t)stackTop(0) - 64) & ~(uintptr_t)15;
    asm volatile("" : "+r"(top));
    uint64_t* p = (uint64_t*)top;
    *--p = 0; *--p = (uint64_t)(void*)&mainFiber;
    for (int i = 0; i < 6; ++i) *--p = 0;
    *--p = 0; ((uint32_t*)p)[0] = 0x1f80; ((uint32_t*)p)[1] = 0x037f;
    f->sp = p;
    junkMode = (int)fault(F_JUNK, 6);
    rj.s = mix(fault(F_JUNK, 1 << 20), 404);
    if (bump < ARENA + (256ULL << 20)) bump = ARENA + (256ULL << 20);     // the same addresses in every mode
    inRun = true;
    cur = f; planStop(f);
    static void* sink;
    sim_swap(&sink, f->sp);
    __builtin_trap();
}
} // namespace sim

using namespace sim;

// ====================================================================== allocation
void* operator new(size_t n) { earlyInit(); return arenaAlloc(n, 16, false); }
void* operator new[](size_t n) { earlyInit(); return arenaAlloc(n, 16, false); }
void* operator new(size_t n, std::nothrow_t const&) noexcept { earlyInit(); return arenaAlloc(n, 16, true); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { earlyInit(); return arenaAlloc(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { earlyInit(); return arenaAlloc(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { earlyInit(); return arenaAlloc(n, (size_t)a, false); }
void operator delete(void* p) noexcept { arenaFree(p); }
void operator delete[](void* p) noexcept { arenaFree(p); }
void operator delete(void* p, size_t) noexcept { arenaFree(p); }
void operator delete[](void* p, size_t) noexcept { arenaFree(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { arenaFree(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { arenaFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { arenaFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { arenaFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { arenaFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { arenaFree(p); }

#define PC __builtin_return_address(0)
extern "C" {
// ====================================================================== memory accesses
void __tsan_init() { earlyInit(); }
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* a) { acc((uintptr_t)a, n, false, PC); } \
    void __tsan_write##n(void* a) { acc((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_read##n(void* a) { acc((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_write##n(void* a) { acc((uintptr_t)a, n, true, PC); } \
    void __tsan_volatile_read##n(void* a) { acc((uintptr_t)a, n, false, PC); } \
    void __tsan_volatile_write##n(void* a) { acc((uintptr_t)a, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* a) { acc((uintptr_t)a, n, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void* a) { acc((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { accRange((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void* a, size_t n) { accRange((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void** a, void*) { acc((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void** a) { acc((uintptr_t)a, 8, false, PC); }

#define ATOM(n, T) \
    T __tsan_atomic##n##_load(const volatile T* a, int) { acc((uintptr_t)a, sizeof(T), false, PC); return __atomic_load_n(a, 5); } \
    void __tsan_atomic##n##_store(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true, PC); __atomic_store_n(a, v, 5); } \
    T __tsan_atomic##n##_exchange(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true, PC); return __atomic_exchange_n(a, v, 5); } \
    T __tsan_atomic##n##_fetch_add(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_add(a, v, 5); } \
    T __tsan_atomic##n##_fetch_sub(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_sub(a, v, 5); } \
    T __tsan_atomic##n##_fetch_and(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_and(a, v, 5); } \
    T __tsan_atomic##n##_fetch_or(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_or(a, v, 5); } \
    T __tsan_atomic##n##_fetch_xor(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_xor(a, v, 5); } \
    T __tsan_atomic##n##_fetch_nand(volatile T* a, T v, int) { acc((uintptr_t)a, sizeof(T), true, PC); return __atomic_fetch_nand(a, v, 5); } \
    bool __tsan_atomic##n##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { acc((uintptr_t)a, sizeof(T), true, PC); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
    bool __tsan_atomic##n##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { acc((uintptr_t)a, sizeof(T), true, PC); return __atomic_compare_exchange_n(a, c, v, false, 5, 5); } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* a, T c, T v, int, int) { acc((uintptr_t)a, sizeof(T), true, PC); __atomic_compare_exchange_n(a, &c, v, false, 5, 5); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { yield(); }
void __tsan_atomic_signal_fence(int) {}

void* memcpy(void* d, const void* s, size_t n) {
    if (cur && cur->on > 0) { accRange((uintptr_t)s, n, false, PC); accRange((uintptr_t)d, n, true, PC); }
    void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r;
}
void* memmove(void* d, const void* s, size_t n) {
    if (cur && cur->on > 0) { accRange((uintptr_t)s, n, false, PC); accRange((uintptr_t)d, n, true, PC); }
    void* r = d;
    if ((uintptr_t)d - (uintptr_t)s >= n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
    else {
        char* a = (char*)d + n - 1; const char* b = (const char*)s + n - 1;
        asm volatile("std; rep movsb; cld" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
    }
    return r;
}
void* memset(void* d, int v, size_t n) {
    if (cur && cur->on > 0) accRange((uintptr_t)d, n, true, PC);
    void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r;
}

// ====================================================================== OpenMP
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned) { runRegion(fn, data, nt ? (int)nt : cur->icv); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned nt, unsigned) {
    int n = nt ? (int)nt : cur->icv; runRegion(fn, data, n); return n; }
void GOMP_barrier() { teamBarrier(curTeam()); }
bool GOMP_barrier_cancel() { teamBarrier(curTeam()); return false; }
bool GOMP_single_start() {
    syncPoint();
    if (!cur->team) return true;
    Team* t = curTeam(); WS* w = ws(t, cur); ++cur->wsIdx;
    if (w->single) return false;
    w->single = true; hmix(res->hchunk, 0x51000 + cur->tnum); return true;
}
void* GOMP_single_copy_start() {
    Team* t = curTeam(); syncPoint();
    WS* w = ws(t, cur);
    if (!w->single) { w->single = true; return 0; }
    ++cur->wsIdx; teamBarrier(t); return w->copy;
}
void GOMP_single_copy_end(void* p) { Team* t = curTeam(); WS* w = ws(t, cur); ++cur->wsIdx; w->copy = p; teamBarrier(t); }
static char critLock, atomLock;
void GOMP_critical_start() { lockAcq(&critLock); }
void GOMP_critical_end() { lockRel(&critLock); }
void GOMP_critical_name_start(void** p) { lockAcq(p); }
void GOMP_critical_name_end(void** p) { lockRel(p); }
void GOMP_atomic_start() { lockAcq(&atomLock); }
void GOMP_atomic_end() { lockRel(&atomLock); }
#define DYN_START(name) bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return dynNext(loopInit(s, e, i, c), a, b); }
#define DYN_NEXT(name) bool GOMP_loop_##name##_next(long* a, long* b) { return dynNext(ws(curTeam(), cur), a, b); }
DYN_START(dynamic) DYN_NEXT(dynamic) DYN_START(nonmonotonic_dynamic) DYN_NEXT(nonmonotonic_dynamic)
bool GOMP_loop_runtime_start(long s, long e, long i, long* a, long* b) { return dynNext(loopInit(s, e, i, 1), a, b); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return dynNext(loopInit(s, e, i, 1), a, b); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* a, long* b) { return dynNext(loopInit(s, e, i, 1), a, b); }
DYN_NEXT(runtime) DYN_NEXT(nonmonotonic_runtime) DYN_NEXT(maybe_nonmonotonic_runtime)
#define GUI(name) \
    bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* a, long* b) { return guidedNext(loopInit(s, e, i, c), a, b); } \
    bool GOMP_loop_##name##_next(long* a, long* b) { return guidedNext(ws(curTeam(), cur), a, b); }
GUI(guided) GUI(nonmonotonic_guided)
bool GOMP_loop_static_start(long s, long e, long i, long c, long* a, long* b) {
    WS* w = loopInit(s, e, i, 1); w->uchunk = c; stPos[cur->id].trip = 0; return statNext(w, a, b); }
bool GOMP_loop_static_next(long* a, long* b) { return statNext(ws(curTeam(), cur), a, b); }
#define PLOOP(name, sel) \
    struct PL_##name { void (*fn)(void*); void* d; long s, e, i, c; }; \
    static void pl_##name(void* q) { PL_##name* p = (PL_##name*)q; WS* w = loopInit(p->s, p->e, p->i, p->c); (void)w; if (sel) { w->uchunk = p->c; stPos[cur->id].trip = 0; } p->fn(p->d); } \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { \
        PL_##name p = { fn, d, s, e, i, c }; runRegion(pl_##name, &p, nt ? (int)nt : cur->icv); }
PLOOP(dynamic, 0) PLOOP(nonmonotonic_dynamic, 0) PLOOP(guided, 0) PLOOP(nonmonotonic_guided, 0) PLOOP(static, 1)
#define PLOOPR(name) \
    struct PL_##name { void (*fn)(void*); void* d; long s, e, i; }; \
    static void pl_##name(void* q) { PL_##name* p = (PL_##name*)q; loopInit(p->s, p->e, p->i, 1); p->fn(p->d); } \
    void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { \
        PL_##name p = { fn, d, s, e, i }; runRegion(pl_##name, &p, nt ? (int)nt : cur->icv); }
PLOOPR(runtime) PLOOPR(nonmonotonic_runtime) PLOOPR(maybe_nonmonotonic_runtime)
#define UDYN(name) \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* a, unsigned long long* b) { return udynNext(uloopInit(up, s, e, i, c), a, b); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long* a, unsigned long long* b) { return udynNext(ws(curTeam(), cur), a, b); }
UDYN(dynamic) UDYN(nonmonotonic_dynamic) UDYN(guided) UDYN(nonmonotonic_guided)
#define UDYNR(name) \
    bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long* a, unsigned long long* b) { return udynNext(uloopInit(up, s, e, i, 1), a, b); } \
    bool GOMP_loop_ull_##name##_next(unsigned long long* a, unsigned long long* b) { return udynNext(ws(curTeam(), cur), a, b); }
UDYNR(runtime) UDYNR(nonmonotonic_runtime) UDYNR(maybe_nonmonotonic_runtime)
static void endOrphan() {     // worksharing construct outside any region
    Team* t = &serialTeam[cur->id];
    for (int i = 0; i < 256; ++i) if (t->ws[i]) { free(t->ws[i]); t->ws[i] = 0; }
    cur->wsIdx = 0;
}
void GOMP_loop_end() { ++cur->wsIdx; teamBarrier(curTeam()); if (!cur->team) endOrphan(); }
void GOMP_loop_end_nowait() { ++cur->wsIdx; if (!cur->team) endOrphan(); }
bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
unsigned GOMP_sections_next() {
    syncPoint(); WS* w = ws(curTeam(), cur);
    if (w->secNext < w->secCount) return ++w->secNext;
    return 0;
}
unsigned GOMP_sections_start(unsigned n) { WS* w = ws(curTeam(), cur); if (!w->inited) { w->inited = true; w->secCount = n; } return GOMP_sections_next(); }
struct PSec { void (*fn)(void*); void* d; unsigned n; };
static void psec(void* q) { PSec* p = (PSec*)q; WS* w = ws(curTeam(), cur); if (!w->inited) { w->inited = true; w->secCount = p->n; } p->fn(p->d); }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) { PSec p = { fn, d, n }; runRegion(psec, &p, nt ? (int)nt : cur->icv); }
void GOMP_sections_end() { GOMP_loop_end(); }
void GOMP_sections_end_nowait() { GOMP_loop_end_nowait(); }
bool GOMP_sections_end_cancel() { GOMP_loop_end(); return false; }
void GOMP_scope_start(uintptr_t*) { ++cur->wsIdx; }
void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool, unsigned, void**, int, void*) {
    syncPoint();
    if (cpy) { char* b = (char*)malloc(sz + al); char* p = (char*)(((uintptr_t)b + al - 1) / al * al); cpy(p, data); fn(p); free(b); }
    else fn(data);
}
void GOMP_taskwait() { syncPoint(); }
void GOMP_taskyield() { syncPoint(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { syncPoint(); }
void GOMP_ordered_start() { internalError("omp ordered is not simulated"); }
void GOMP_ordered_end() {}
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }

int omp_get_thread_num() { return cur->team ? cur->tnum : 0; }
int omp_get_num_threads() { return cur->team ? cur->team->n : 1; }
int omp_get_max_threads() { return cur->icv; }
void omp_set_num_threads(int n) { setThreads(n); }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { for (Team* t = cur->team; t; t = t->up) if (t->n > 1) return 1; return 0; }
void omp_set_dynamic(int v) { dynTeams = v; }
int omp_get_dynamic() { return dynTeams; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_level() { return cur->team ? cur->team->level : 0; }
int omp_get_active_level() { return omp_in_parallel(); }
int omp_get_ancestor_thread_num(int l) { return l == 0 ? 0 : cur->tnum; }
int omp_get_team_size(int l) { return l == 0 ? 1 : omp_get_num_threads(); }
int omp_get_thread_limit() { return MAXF - 1; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_cancellation() { return 0; }
int omp_in_final() { return 0; }
double omp_get_wtime() { return simClock() * 1e-6; }
double omp_get_wtick() { return 1e-6; }
void omp_init_lock(void* l) { lk(l)->owner = -1; }
void omp_destroy_lock(void*) {}
void omp_set_lock(void* l) { lockAcq(l); }
void omp_unset_lock(void* l) { lockRel(l); }
int omp_test_lock(void* l) { return lockTry(l); }
void omp_init_nest_lock(void* l) { lk(l)->owner = -1; }
void omp_destroy_nest_lock(void*) {}
void omp_set_nest_lock(void* l) { lockAcq(l, true); }
void omp_unset_nest_lock(void* l) { lockRel(l); }
int omp_test_nest_lock(void* l) { return lockTry(l, true) ? 1 : 0; }

// ====================================================================== threads and locks
int pthread_mutex_lock(pthread_mutex_t* m) { if (!inRun) return 0; lockAcq(m, m->__data.__kind & 1); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (!inRun) return 0; return lockTry(m, m->__data.__kind & 1) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!inRun) return 0; lockRel(m); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!inRun) return 0; lockAcq(m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!inRun) return 0; lockAcq(m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!inRun) return 0; lockRel(m); return 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { lockRel(m); blockOn(c); lockAcq(m); return 0; }
int pthread_cond_signal(pthread_cond_t* c) { if (inRun) wake(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) { if (inRun) wake(c); return 0; }
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) { *t = 0x51000 + spawnThread(fn, arg, cur->on); return 0; }
int pthread_join(pthread_t t, void** r) { int id = (int)(t - 0x51000); join(id); if (r) *r = fb[id].pret; return 0; }
int pthread_detach(pthread_t) { return 0; }
int sched_yield() { yield(); return 0; }

int __cxa_guard_acquire(uint64_t* g) {
    unsigned char* b = (unsigned char*)g;
    if (b[0]) return 0;
    while (inRun && b[1]) { blockOn(g); if (b[0]) return 0; }
    b[1] = 1; return 1;
}
void __cxa_guard_release(uint64_t* g) { unsigned char* b = (unsigned char*)g; b[0] = 1; b[1] = 0; if (inRun) wake(g); }
void __cxa_guard_abort(uint64_t* g) { unsigned char* b = (unsigned char*)g; b[1] = 0; if (inRun) wake(g); }

// ====================================================================== clocks and randomness
int gettimeofday(struct timeval* tv, void*) {
    if (!inRun) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    int64_t t = simClock(); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; if (tv->tv_usec < 0) { tv->tv_usec += 1000000; --tv->tv_sec; } return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts) {
    if (!inRun) return (int)syscall(SYS_clock_gettime, c, ts);
    int64_t t = simClock(); ts->tv_sec = t / 1000000; ts->tv_nsec = (t % 1000000) * 1000; return 0;
}
time_t time(time_t* p) {
    time_t t;
    if (!inRun) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; }
    else t = simClock() / 1000000;
    if (p) *p = t;
    return t;
}
clock_t clock() { return inRun ? (clock_t)simClock() : 0; }
int getrusage(__rusage_who_t w, struct rusage* r) {
    if (!inRun) return (int)syscall(SYS_getrusage, w, r);
    for (size_t i = 0; i < sizeof *r; ++i) ((char*)r)[i] = 0;
    int64_t t = simClock();
    r->ru_utime.tv_sec = t / 1000000; r->ru_utime.tv_usec = t % 1000000;
    r->ru_maxrss = (long)(bump - ARENA) / 1024;
    return 0;
}
int rand() { return simRand(); }
void srand(unsigned) {}
long random() { return simRand(); }
int nanosleep(const struct timespec*, struct timespec*) { yield(); return 0; }
int usleep(useconds_t) { yield(); return 0; }

// ====================================================================== file I/O
ssize_t read(int fd, void* b, size_t n) {
    if (inRun && ioOn && cur->on > 0 && io.onRead) {
        size_t give = n; int e = io.onRead(io.self, n, &give);
        if (e) { errno = e; return -1; }
        if (give < n) n = give;
        if (n == 0) return 0;
    }
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (inRun && ioOn && cur->on > 0 && io.onWrite) {
        size_t take = n; int e = io.onWrite(io.self, n, &take);
        if (e) { errno = e; return -1; }
        if (take < n) n = take;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (inRun && ioOn && cur->on > 0 && io.onWrite) {
        for (int i = 0; i < c; ++i) if (v[i].iov_len) return write(fd, v[i].iov_base, v[i].iov_len);
        return 0;
    }
    return syscall(SYS_writev, fd, v, c);
}
static FILE* realFopen(const char* p, const char* m) {
    int fl = m[0] == 'r' ? O_RDONLY : m[0] == 'w' ? O_WRONLY | O_CREAT | O_TRUNC : O_WRONLY | O_CREAT | O_APPEND;
    for (const char* q = m; *q; ++q) if (*q == '+') fl = (fl & ~O_ACCMODE) | O_RDWR;
    int fd = ::open(p, fl, 0666);
    if (fd < 0) return 0;
    return fdopen(fd, m);
}
FILE* fopen(const char* p, const char* m) {
    if (inRun && ioOn && cur->on > 0 && io.onOpen) { int e = io.onOpen(io.self, p); if (e) { errno = e; return 0; } }
    return realFopen(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
} // extern "C"
