// Simulation runtime: owns every memory access, allocation and thread switch of the library under test.
//
// The library is compiled with clang's ThreadSanitizer *instrumentation* but linked against this runtime
// instead of the sanitizer's, so each load/store/atomic/function entry of the library calls in here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace rt {

enum Mode : int { HOST = 0, CLIENT = 1, LIB = 2 };

// ---- shared (across worker processes) statistics and result page -----------------------------
constexpr int kMaxProbe = 96, kMaxOps = 512, kMaxFaultKind = 24;
constexpr size_t kSetSize = 1u << 18, kEdgeMax = 1u << 15;

struct Stats {
    uint64_t runs, execs, steps, allocs, switches, faultRuns, libCalls, failedCalls, rejectedCalls;
    uint64_t faultFired[kMaxFaultKind];
    uint64_t probe[kMaxProbe];
    uint64_t sites[kSetSize];      // distinct call stacks at which an allocation was made to fail
    uint64_t scheds[kSetSize];     // distinct interleavings
    uint64_t cases[kSetSize];      // distinct non-trivial cases (hash of observable log)
    uint64_t nsites, nscheds, ncases;
    unsigned char edge[kEdgeMax];
    uint64_t maxWorkRatio;         // per mille of the budget used, maximum
};
extern Stats* st;                  // MAP_SHARED
extern uint32_t edgeTotal;

struct RunResult {                 // per worker, MAP_SHARED
    int done;                      // child finished and filled this in
    int violated;
    char cls[96];
    char detail[1600];
    uint64_t hash, steps;
    int curOp, lib;
    uint64_t allocOf[kMaxOps];     // allocations made by each operation (filled in by probe runs)
    uint64_t phaseSteps;           // steps of the concurrent phase
    uint64_t runSteps;
    int trialKind;                 // fault trial under way (enumerating properties)
    uint64_t trialN, trialM;
};
extern RunResult* res;

bool setInsert(uint64_t* set, uint64_t* n, uint64_t key);

// ---- violations -----------------------------------------------------------------------------
struct Violation { std::string cls, detail; };
[[noreturn]] void violateNow(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void fail(const std::string& cls, const std::string& detail);   // throws Violation

// ---- fault kinds ----------------------------------------------------------------------------
enum FaultKind { F_NONE = 0, F_ONE = 1, F_BURST = 2, F_FROM = 3, F_BIG = 4,
                 F_SINKSHORT = 5, F_SINKTHROW = 6, F_SINKFULL = 7, F_BADARG = 8, F_PREEMPT = 9,
                 F_STARVE = 10, F_GARBAGE = 11, F_RECYCLE = 12, F_LAYOUT = 13, F_MOVE = 14, F_NEGSRC = 15,
                 F_STACK = 16, F_REORDER = 17, F_DESTROY = 18, F_CLOCK = 19 };
const char* faultName(int k);
void countFault(int k, uint64_t n = 1);

struct Fault { int kind = F_NONE; uint64_t n = 0, m = 0; };

// ---- per-thread state -----------------------------------------------------------------------
constexpr int kMaxThr = 5;
struct Thr {
    int id = 0;
    int mode = HOST;
    int depth = 0;
    uintptr_t stk[512];
    Fault f;
    uint64_t allocs = 0, fired = 0, steps = 0, budget = ~0ull;
    const char* op = "";
    uintptr_t stackLo = 0, stackHi = 0;
    uint32_t vc[kMaxThr] = {0, 0, 0, 0, 0};
};
extern thread_local Thr* tl;

struct Scope {                      // switch allocation mode for a scope
    int old;
    explicit Scope(int m) { old = tl->mode; tl->mode = m; }
    ~Scope() { tl->mode = old; }
};
struct Client : Scope { Client() : Scope(CLIENT) {} };
struct Host : Scope { Host() : Scope(HOST) {} };

// ---- calls into the library -----------------------------------------------------------------
enum Out { OK = 0, NOMEM, BADARG, LOGIC, RUNTIME, STDEXC, OTHER };
const char* outName(int o);
struct Outcome {
    int kind = OK;
    uint64_t allocs = 0, fired = 0, steps = 0;
    bool ok() const { return kind == OK; }
};
struct Spec { const char* op = ""; Fault f; uint64_t budget = ~0ull; };

void beginCall(const Spec& s);
void endCall(Outcome& o);
int classify();                    // current exception -> Out

template <class F> Outcome call(const Spec& s, F&& fn)
{
    Outcome o;
    beginCall(s);
    try { fn(); endCall(o); }
    catch (...) { tl->mode = HOST; o.kind = classify(); endCall(o); }
    return o;
}

// Object of the library living in simulated memory.
template <class T> struct Box {
    void* mem = nullptr;
    bool live = false;
    Box() = default;
    Box(const Box&) = delete;
    Box(Box&& r) : mem(r.mem), live(r.live) { r.mem = nullptr; r.live = false; }
    Box& operator=(Box&& r) { if (this != &r) { destroy(); std::swap(mem, r.mem); std::swap(live, r.live); } return *this; }
    ~Box() { destroy(); }
    T& operator*() const { return *static_cast<T*>(mem); }
    T* operator->() const { return static_cast<T*>(mem); }
    T* get() const { return static_cast<T*>(mem); }
    explicit operator bool() const { return live; }
    template <class F> Outcome build(const Spec& s, F&& f)   // f(void*) placement-constructs
    {
        destroy();
        { Client c; mem = ::operator new(sizeof(T)); }
        Outcome o = call(s, [&] { f(mem); });
        live = o.ok();
        if (!live) { Client c; ::operator delete(mem); mem = nullptr; }
        return o;
    }
    void destroy()
    {
        if (live) {
            live = false;
            Spec s; s.op = "destroy";
            T* p = static_cast<T*>(mem);
            Outcome o = call(s, [&] { p->~T(); });
            if (!o.ok()) violateNow("destructor-throws", "destructor threw");
        }
        if (mem) { Client c; ::operator delete(mem); mem = nullptr; }
    }
};

// ---- memory environment ---------------------------------------------------------------------
struct Env { int fill = 2; int reuse = 0; int pad = 0; uint64_t seed = 1; };
void setEnv(const Env&);
uint64_t liveLib();                 // live blocks allocated inside library calls
uint64_t liveLibBytes();
void paintStack(int pattern);

// ---- threads --------------------------------------------------------------------------------
struct Switch { uint64_t step; int to; };
void runThreads(const std::vector<std::function<void()>>& fns, const std::vector<Switch>& sched, int first);
uint64_t phaseSteps();
void noteRead(const void* p, size_t n);   // client reads data owned by the library

// ---- log ------------------------------------------------------------------------------------
extern bool verbose;
void logBytes(const void* p, size_t n);
void logU(uint64_t v);
void logD(double d);
void logS(const std::string& s);
uint64_t logHash();
void logReset();
void say(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

void init();                        // once per process, before the first fork
void childInit();                   // in each run process
uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull);

} // namespace rt
