// Internal interface between the runtime (rt.cpp) and the driver (driver.cpp).
#pragma once
#include "rt.h"
namespace sim {
struct Result {
    volatile int status;      // 0 running, 1 ok, 2 violation, 3 rejected, 4 internal error
    char code[32];
    char msg[1024];
    char note[3072];
    uint64_t steps, switches, preempts, regions, conflicts, simns, draws;
    uint64_t faults[F_N];
    uint64_t hsched, hev, hwork, hchunk;
    int nontriv, threads, strategy;
};
enum { ST_SEED, ST_REPLAY };
struct SEnt { uint32_t fiber; uint32_t target; uint64_t lstep; };
struct Trace {   // replay input / recorded output
    uint64_t* w; size_t nw, cw;
    SEnt* s; size_t ns, cs;
    struct TEnt { uint64_t idx, val; }* t; size_t nt, ct;
    struct FEnt { uint32_t kind; uint32_t ord; uint64_t val; }* f; size_t nf, cf;
};
extern Result* res;
extern Trace rec, rep;       // recorded, to be replayed
extern Workload* workloads;
extern int nStrategyForced;
void rtInit();
// Runs one execution; never returns to the caller on violation.
void runOne(int mode, uint64_t seed, Workload* w);
extern void (*onFinish)();   // called in the child before it exits (dumps the trace)
}
