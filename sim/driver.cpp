// Driver: explores seeds (one forked child per run), runs one seed, or replays a trace file.
#include "rt_int.h"
#include <errno.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace sim;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void* shared(size_t n) {
    void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return p;
}
static Workload* find(const char* n) { for (Workload* w = workloads; w; w = w->next) if (!strcmp(w->name, n)) return w; fprintf(stderr, "no workload %s\n", n); exit(3); }

static const char* dumpPath; static const char* dumpWl;
static int cmpS(const void* a, const void* b) {
    SEnt const* x = (SEnt const*)a; SEnt const* y = (SEnt const*)b;
    if (x->fiber != y->fiber) return x->fiber < y->fiber ? -1 : 1;
    return x->lstep < y->lstep ? -1 : x->lstep > y->lstep;
}
static void dump() {
    FILE* f = fopen(dumpPath, "w"); if (!f) return;
    fprintf(f, "workload %s\n", dumpWl);
    fprintf(f, "# choices of the workload, in the order they are consumed\nW");
    for (size_t i = 0; i < rec.nw; ++i) fprintf(f, " %llu", (unsigned long long)rec.w[i]);
    fprintf(f, "\n# faults: F kind ordinal value\n");
    for (size_t i = 0; i < rec.nf; ++i) fprintf(f, "F %u %u %llu\n", rec.f[i].kind, rec.f[i].ord, (unsigned long long)rec.f[i].val);
    fprintf(f, "# team sizes: T region size\n");
    for (size_t i = 0; i < rec.nt; ++i) fprintf(f, "T %llu %llu\n", (unsigned long long)rec.t[i].idx, (unsigned long long)rec.t[i].val);
    fprintf(f, "# schedule: S thread local_step next_thread\n");
    for (size_t i = 0; i < rec.ns; ++i) fprintf(f, "S %u %llu %u\n", rec.s[i].fiber, (unsigned long long)rec.s[i].lstep, rec.s[i].target);
    fclose(f);
}
static char wlName[128]; static bool bySeed; static uint64_t fileSeed;
static void load(const char* path) {
    FILE* f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
    size_t cap = 1 << 20; char* line = 0; size_t lc = 0;
    rep.w = (uint64_t*)malloc(cap * 8); rep.s = (SEnt*)malloc(cap * sizeof(SEnt));
    rep.t = (Trace::TEnt*)malloc(cap * sizeof *rep.t); rep.f = (Trace::FEnt*)malloc(65536 * sizeof *rep.f);
    while (getline(&line, &lc, f) > 0) {
        if (line[0] == '#') continue;
        if (!strncmp(line, "workload ", 9)) sscanf(line + 9, "%127s", wlName);
        else if (!strncmp(line, "seed ", 5)) { bySeed = true; fileSeed = strtoull(line + 5, 0, 10); }
        else if (line[0] == 'W') { char* p = line + 1; char* e; for (;;) { unsigned long long v = strtoull(p, &e, 10); if (e == p) break; rep.w[rep.nw++] = v; p = e; if (rep.nw >= cap) break; } }
        else if (line[0] == 'S') { unsigned a, c; unsigned long long b; if (sscanf(line + 1, "%u %llu %u", &a, &b, &c) == 3 && rep.ns < cap) { SEnt e; e.fiber = a; e.lstep = b; e.target = c; rep.s[rep.ns++] = e; } }
        else if (line[0] == 'T') { unsigned long long a, b; if (sscanf(line + 1, "%llu %llu", &a, &b) == 2 && rep.nt < cap) { rep.t[rep.nt].idx = a; rep.t[rep.nt++].val = b; } }
        else if (line[0] == 'F') { unsigned a, o; unsigned long long b; if (sscanf(line + 1, "%u %u %llu", &a, &o, &b) == 3 && rep.nf < 65536) { rep.f[rep.nf].kind = a; rep.f[rep.nf].ord = o; rep.f[rep.nf++].val = b; } }
    }
    free(line); fclose(f);
    qsort(rep.s, rep.ns, sizeof(SEnt), cmpS);
}
static void jstr(FILE* o, const char* s) {
    fputc('"', o);
    for (; *s; ++s) { unsigned char c = *s; if (c == '"' || c == '\\') { fputc('\\', o); fputc(c, o); } else if (c < 32 || c > 126) fprintf(o, "\\u%04x", c); else fputc(c, o); }
    fputc('"', o);
}
static void classify(Result* r, int st) {
    if (WIFSIGNALED(st)) {
        r->status = 2;
        if (WTERMSIG(st) == SIGALRM) { strcpy(r->code, "HANG"); strcpy(r->msg, "run did not finish within the wall-clock watchdog"); }
        else if (WTERMSIG(st) == SIGKILL) { r->status = 4; strcpy(r->msg, "child was killed (memory?)"); }
        else { strcpy(r->code, "CRASH"); snprintf(r->msg, sizeof r->msg, "process died with signal %d", WTERMSIG(st)); }
    } else if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && r->status != 2) {
        r->status = 4; snprintf(r->msg, sizeof r->msg, "child exit status %d", WEXITSTATUS(st));
    } else if (r->status == 0) {
        r->status = 2; strcpy(r->code, "EXIT"); strcpy(r->msg, "the code under test ended the process");
    }
}
static void printRes(FILE* o, Result* r, const char* wl, uint64_t seed, uint64_t idx) {
    fprintf(o, "{\"workload\":"); jstr(o, wl);
    fprintf(o, ",\"index\":%llu,\"seed\":%llu,\"status\":%d,\"code\":", (unsigned long long)idx, (unsigned long long)seed, r->status); jstr(o, r->code);
    fprintf(o, ",\"msg\":"); jstr(o, r->msg); fprintf(o, ",\"note\":"); jstr(o, r->note);
    fprintf(o, ",\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,\"regions\":%llu,\"conflicts\":%llu,\"simns\":%llu,\"draws\":%llu,\"strategy\":%d,\"threads\":%d,\"hash\":\"%016llx%016llx%016llx\"}\n",
            (unsigned long long)r->steps, (unsigned long long)r->switches, (unsigned long long)r->preempts, (unsigned long long)r->regions,
            (unsigned long long)r->conflicts, (unsigned long long)r->simns, (unsigned long long)r->draws, r->strategy, r->threads,
            (unsigned long long)r->hsched, (unsigned long long)r->hev, (unsigned long long)r->hwork);
}
static unsigned watchdog = 150;
static void childSetup() {
    struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    alarm(watchdog);
}
static uint64_t seedOf(uint64_t base, uint64_t i) { return mix(base * 1000003ULL + 17, i) & 0x7fffffffffffffffULL; }

struct Rec { uint64_t hs, hev, hw, hc; uint32_t wl; uint8_t status, nontriv, strat, thr; };
struct Sh {
    volatile uint64_t next; volatile int stop; volatile uint64_t done;
    volatile int nviol;
    uint64_t steps, switches, preempts, regions, conflicts, simns, rejects, errors, faults[F_N], faultRuns[F_N], stratRuns[8], thrRuns[128];
    int lock;
    char err[512];
    struct { Result r; uint32_t wl; uint64_t seed, idx; } viol[16];
    struct { Result r; uint32_t wl; uint64_t seed, idx; } samp[12]; int nsamp;
};
static int cmp64(const void* a, const void* b) { uint64_t x = *(uint64_t const*)a, y = *(uint64_t const*)b; return x < y ? -1 : x > y; }
static uint64_t distinct(uint64_t* a, uint64_t n) { qsort(a, n, 8, cmp64); uint64_t d = 0; for (uint64_t i = 0; i < n; ++i) if (!i || a[i] != a[i - 1]) ++d; return d; }

int main(int argc, char** argv) {
    rtInit();
    const char* m = argc > 1 ? argv[1] : "";
    uint64_t seed = 1, runs = 100, from = 0; int jobs = 1; double wall = 60; const char* out = 0; const char* wls = 0; int maxv = 1;
    const char* file = 0;
    for (int i = 2; i < argc; ++i) {
        if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--runs")) runs = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--from")) from = strtoull(argv[++i], 0, 10);
        else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--wall")) wall = atof(argv[++i]);
        else if (!strcmp(argv[i], "--out")) out = argv[++i];
        else if (!strcmp(argv[i], "--dump")) dumpPath = argv[++i];
        else if (!strcmp(argv[i], "--workload")) wls = argv[++i];
        else if (!strcmp(argv[i], "--strategy")) nStrategyForced = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--maxviol")) maxv = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--watchdog")) watchdog = atoi(argv[++i]);
        else file = argv[i];
    }
    if (!strcmp(m, "list")) { for (Workload* w = workloads; w; w = w->next) puts(w->name); return 0; }
    if (!strcmp(m, "one") || !strcmp(m, "replay")) {
        bool rp = m[0] == 'r';
        if (rp) { load(file); wls = wlName; if (bySeed) { rp = false; seed = fileSeed; } }
        Workload* w = find(wls); dumpWl = wls;
        Result* r = (Result*)shared(sizeof(Result)); res = r;
        if (dumpPath) onFinish = dump;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) { childSetup(); runOne(rp ? ST_REPLAY : ST_SEED, seed, w); _exit(5); }
        int st; waitpid(p, &st, 0); classify(r, st);
        printRes(stdout, r, wls, rp ? 0 : seed, 0);
        return r->status == 4 ? 2 : r->status == 2 ? 1 : 0;
    }
    if (strcmp(m, "explore")) { fprintf(stderr, "usage: explore|one|replay|list\n"); return 3; }
    // workload list: name:weight,...
    static Workload* wl[512]; static char names[64][64]; int nw = 0, nn = 0;
    { char* c = strdup(wls); for (char* t = strtok(c, ","); t; t = strtok(0, ",")) { char* k = strchr(t, ':'); int wt = 1; if (k) { *k = 0; wt = atoi(k + 1); } snprintf(names[nn++], 64, "%s", t); while (wt-- > 0 && nw < 512) wl[nw++] = find(t); } free(c); }
    Sh* S = (Sh*)shared(sizeof(Sh));
    Rec* R = (Rec*)shared((runs + 1) * sizeof(Rec));
    double t0 = now();
    for (int j = 0; j < jobs; ++j) {
        pid_t p = fork();
        if (p) continue;
        Result* r = (Result*)shared(sizeof(Result)); res = r;
        for (;;) {
            if (S->stop || now() - t0 > wall) break;
            uint64_t i = __sync_fetch_and_add(&S->next, 1);
            if (i >= runs) break;
            uint64_t sd = seedOf(seed, from + i);
            Workload* w = wl[(from + i) % nw];
            memset(r, 0, sizeof *r);
            pid_t c = fork();
            if (c == 0) { childSetup(); runOne(ST_SEED, sd, w); _exit(5); }
            if (c < 0) { usleep(10000); continue; }
            int st; while (waitpid(c, &st, 0) < 0 && errno == EINTR) {}
            classify(r, st);
            Rec& q = R[i]; q.hs = r->hsched; q.hev = r->hev; q.hw = r->hwork; q.hc = r->hchunk; q.status = r->status; q.nontriv = r->nontriv;
            uint32_t wi = 0; for (int k = 0; k < nn; ++k) if (!strcmp(names[k], w->name)) wi = k;
            q.wl = wi; q.strat = r->strategy; q.thr = r->threads;
            while (__sync_lock_test_and_set(&S->lock, 1)) usleep(1);
            S->done++; S->steps += r->steps; S->switches += r->switches; S->preempts += r->preempts; S->regions += r->regions; S->conflicts += r->conflicts; S->simns += r->simns;
            for (int k = 0; k < F_N; ++k) { S->faults[k] += r->faults[k]; if (r->faults[k]) S->faultRuns[k]++; }
            if (r->strategy < 8) S->stratRuns[r->strategy]++;
            if (r->threads < 128) S->thrRuns[r->threads]++;
            if (r->status == 3) S->rejects++;
            if (r->status == 4) { S->errors++; if (!S->err[0]) snprintf(S->err, sizeof S->err, "%s workload=%s seed=%llu", r->msg, w->name, (unsigned long long)sd); }
            if (r->status == 2 && S->nviol < 16) { int k = S->nviol; S->viol[k].r = *r; S->viol[k].wl = wi; S->viol[k].seed = sd; S->viol[k].idx = from + i; S->nviol = k + 1; if (S->nviol >= maxv) S->stop = 1; }
            if (r->status == 1 && r->nontriv && S->nsamp < 12 && (S->nsamp == 0 || i >= (uint64_t)S->nsamp * (runs / 16 + 1))) { int k = S->nsamp++; S->samp[k].r = *r; S->samp[k].wl = wi; S->samp[k].seed = sd; S->samp[k].idx = from + i; }
            __sync_lock_release(&S->lock);
        }
        _exit(0);
    }
    while (wait(0) > 0 || errno == EINTR) {}
    double el = now() - t0;
    uint64_t* a = (uint64_t*)malloc((runs + 1) * 8);
    uint64_t n = 0, nt = 0, okc = 0;
    uint64_t d[5];
    for (int which = 0; which < 5; ++which) {
        n = 0; nt = 0; okc = 0;
        for (uint64_t i = 0; i < runs; ++i) { Rec& q = R[i]; if (!q.status) continue; if (q.status == 1) ++okc; if (q.nontriv) ++nt;
            if (which == 4 && !q.nontriv) continue;
            a[n++] = which == 0 ? mix(q.hs, q.hw) : which == 1 ? q.hev : which == 2 ? q.hw : which == 3 ? q.hc : mix(mix(q.hs, q.hw), q.hev); }
        d[which] = distinct(a, n);
    }
    FILE* o = out ? fopen(out, "w") : stdout;
    fprintf(o, "{\"runs\":%llu,\"ok\":%llu,\"rejected\":%llu,\"errors\":%llu,\"error\":", (unsigned long long)S->done, (unsigned long long)okc, (unsigned long long)S->rejects, (unsigned long long)S->errors); jstr(o, S->err);
    fprintf(o, ",\"wall\":%.3f,\"steps\":%llu,\"switches\":%llu,\"preempts\":%llu,\"regions\":%llu,\"conflicts\":%llu,\"simns\":%llu", el, (unsigned long long)S->steps, (unsigned long long)S->switches, (unsigned long long)S->preempts, (unsigned long long)S->regions, (unsigned long long)S->conflicts, (unsigned long long)S->simns);
    fprintf(o, ",\"distinct_schedules\":%llu,\"distinct_histories\":%llu,\"distinct_workloads\":%llu,\"distinct_chunkings\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,\"faults\":{", (unsigned long long)d[0], (unsigned long long)d[1], (unsigned long long)d[2], (unsigned long long)d[3], (unsigned long long)nt, (unsigned long long)d[4]);
    bool first = true;
    for (int k = 0; k < F_N; ++k) if (S->faults[k]) { fprintf(o, "%s\"%s\":[%llu,%llu]", first ? "" : ",", faultName[k], (unsigned long long)S->faults[k], (unsigned long long)S->faultRuns[k]); first = false; }
    fprintf(o, "},\"strategies\":["); for (int k = 0; k < 6; ++k) fprintf(o, "%s%llu", k ? "," : "", (unsigned long long)S->stratRuns[k]);
    fprintf(o, "],\"threads\":{"); first = true; for (int k = 0; k < 128; ++k) if (S->thrRuns[k]) { fprintf(o, "%s\"%d\":%llu", first ? "" : ",", k, (unsigned long long)S->thrRuns[k]); first = false; }
    fprintf(o, "},\"per_workload\":{");
    for (int k = 0; k < nn; ++k) { uint64_t c = 0; for (uint64_t i = 0; i < runs; ++i) if (R[i].status && R[i].wl == (uint32_t)k) ++c; fprintf(o, "%s\"%s\":%llu", k ? "," : "", names[k], (unsigned long long)c); }
    fprintf(o, "},\"violations\":[");
    for (int k = 0; k < S->nviol; ++k) { if (k) fputc(',', o); printRes(o, &S->viol[k].r, names[S->viol[k].wl], S->viol[k].seed, S->viol[k].idx); }
    fprintf(o, "],\"samples\":[");
    for (int k = 0; k < S->nsamp; ++k) { if (k) fputc(',', o); printRes(o, &S->samp[k].r, names[S->samp[k].wl], S->samp[k].seed, S->samp[k].idx); }
    fprintf(o, "]}\n");
    if (out) fclose(o);
    return S->errors ? 2 : S->nviol ? 1 : 0;
}
