// Deterministic simulation runtime for TdZdd: API used by the workloads.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>

namespace sim {

// ---- fault kinds (counted per run and reported in the evidence) ----
enum Fault {
    F_PREEMPT,      // involuntary switch between two instructions of a worker
    F_STALL,        // a worker is not scheduled for a long window
    F_TEAM_SHRINK,  // a region gets fewer workers than requested
    F_THREADS_CHG,  // the number of workers is changed between operations
    F_NESTED,       // the call is made inside an active parallel region
    F_ALLOC,        // an allocation fails
    F_SPEC_THROW,   // user callback throws
    F_READ_SHORT, F_READ_EINTR, F_READ_EIO, F_READ_TRUNC, F_OPEN_FAIL,
    F_WRITE_SHORT, F_WRITE_EIO, F_WRITE_ENOSPC, F_WRITE_THROW,
    F_CLOCK, F_RAND, F_JUNK, F_HOG, F_CONFLICT_PREEMPT, F_MISC, F_KNOWN,
    F_N
};
extern const char* const faultName[F_N];

// ---- choices ----
uint64_t draw(uint64_t bound);              // workload choice in [0,bound); shrinks towards 0
uint64_t fault(int kind, uint64_t bound);   // fault choice in [0,bound); 0 = no fault
void hit(int kind, uint64_t n = 1);         // a fault really took effect
uint64_t mix(uint64_t a, uint64_t b);

// ---- verdicts and history ----
void fail(const char* code, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void reject(const char* why) __attribute__((noreturn));   // run does not apply (never a violation)
void ev(uint64_t x);                        // record an observation in the history
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool known(const char* id);                 // a listed known finding was met (false: not listed)
void nontrivial();                          // marks the run as non-trivial by the check's rule

// ---- scopes ----
void sutEnter(); void sutLeave();
void oracleEnter(); void oracleLeave();
struct Sut { Sut() { sutEnter(); } ~Sut() { sutLeave(); } };           // library code runs here
struct Oracle { Oracle() { oracleEnter(); } ~Oracle() { oracleLeave(); } }; // harness code inside Sut

// ---- environment ----
void setThreads(int n);                     // ICV nthreads of the calling initial thread
int  threads();
void setDynamic(bool on);                   // teams may be smaller than requested
void allocFailAt(uint64_t n, uint64_t len = 1); // the n-th (1-based) and len-1 following allocations in Sut scope fail, 0 off
uint64_t allocCount();                      // allocations in Sut scope so far
bool allocFailed();
uint64_t liveSut();                         // live blocks allocated in Sut scope
uint64_t liveSutBytes();
void listLive(char* buf, size_t n);
void setRandMode(int mode, uint64_t seed);
uint64_t randCalls();
void setClockMode(int mode);
uint64_t clockCalls();
void stepLimit(uint64_t n);                 // bound on further steps of this run
uint64_t steps();
uint64_t simTimeNs();
uint64_t regions();                         // parallel regions entered so far
int  fiberId();
bool multi();                               // more than one simulated thread is live
void yield();                               // explicit scheduling point

// ---- caller threads ----
int  spawn(void (*fn)(void*), void* arg);
void join(int id);

// ---- I/O seams: plans are consulted for read()/write() issued in Sut scope ----
struct IoPlan {
    int  (*onRead)(void* self, size_t want, size_t* give);   // return errno or 0; *give = bytes allowed
    int  (*onWrite)(void* self, size_t want, size_t* take);  // return errno or 0
    int  (*onOpen)(void* self, const char* path);            // return errno or 0
    void* self;
};
void setIo(IoPlan const* p);

struct Workload { const char* name; void (*fn)(); Workload* next; };
void reg(Workload*);
struct Reg { Workload w; Reg(const char* n, void (*f)()) { w.name = n; w.fn = f; reg(&w); } };
#define WORKLOAD(name) static void wl_##name(); static ::sim::Reg reg_##name(#name, wl_##name); static void wl_##name()

} // namespace sim
