#include "rt.hpp"

#include <atomic>
#include <cerrno>
#include <climits>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <map>

extern "C" {
void* __real_malloc(size_t);
void  __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
int   __real_pthread_mutex_lock(pthread_mutex_t*);
int   __real_pthread_mutex_unlock(pthread_mutex_t*);
extern char __executable_start, _end;
}

namespace rt {

Stats* st = nullptr;
RunResult* res = nullptr;
uint32_t edgeTotal = 0;
bool verbose = false;
thread_local Thr* tl = nullptr;
static Thr mainThr;

// ------------------------------------------------------------------ small things
const char* faultName(int k)
{
    static const char* n[] = {"none", "alloc_fail_once", "alloc_fail_burst", "alloc_fail_persistent", "alloc_fail_large_blocks",
        "sink_short_write", "sink_throw", "sink_full_then_recovers", "rejected_argument", "thread_preemption",
        "thread_starvation", "garbage_memory", "recycled_memory", "heap_layout_shift", "object_moved", "negative_source",
        "stack_garbage", "order_permuted", "object_destroyed_early", "clock_or_entropy_read"};
    return k >= 0 && k < int(sizeof n / sizeof *n) ? n[k] : "?";
}
static void add(uint64_t& c, uint64_t n = 1) { __atomic_fetch_add(&c, n, __ATOMIC_RELAXED); }
void countFault(int k, uint64_t n) { if (st) add(st->faultFired[k], n); }
const char* outName(int o)
{
    static const char* n[] = {"ok", "bad_alloc", "invalid_argument", "logic_error", "runtime_error", "std::exception", "other"};
    return n[o];
}
uint64_t fnv(const void* p, size_t n, uint64_t h)
{
    auto* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
bool setInsert(uint64_t* set, uint64_t* n, uint64_t key)
{
    if (key == 0) key = 1;
    uint64_t i = (key * 0x9E3779B97F4A7C15ull) >> 46;
    for (size_t k = 0; k < 256; ++k, i = (i + 1) & (kSetSize - 1)) {
        uint64_t cur = __atomic_load_n(&set[i], __ATOMIC_RELAXED);
        if (cur == key) return false;
        if (cur == 0) {
            uint64_t z = 0;
            if (__atomic_compare_exchange_n(&set[i], &z, key, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { add(*n); return true; }
            if (z == key) return false;
        }
    }
    return false;   // saturated: the count stays a lower bound
}

// ------------------------------------------------------------------ log
static uint64_t gLog = 1469598103934665603ull;
void logBytes(const void* p, size_t n) { gLog = fnv(p, n, gLog); }
void logU(uint64_t v) { logBytes(&v, sizeof v); }
void logD(double d) { logBytes(&d, sizeof d); }
void logS(const std::string& s) { logBytes(s.data(), s.size()); logU(s.size()); }
uint64_t logHash() { return gLog; }
void logReset() { gLog = 1469598103934665603ull; }
void say(const char* fmt, ...)
{
    if (!verbose) return;
    Host h;
    va_list ap; va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
}

// ------------------------------------------------------------------ violations
static void finish(const char* cls, const char* detail)
{
    if (res) {
        snprintf(res->cls, sizeof res->cls, "%s", cls);
        snprintf(res->detail, sizeof res->detail, "%s", detail);
        res->violated = 1;
        res->hash = gLog;
        res->done = 1;
    }
    _exit(42);
}
void violateNow(const char* cls, const char* fmt, ...)
{
    char buf[1200], all[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    snprintf(all, sizeof all, "in %s (thread %d): %s", tl ? tl->op : "?", tl ? tl->id : -1, buf);
    finish(cls, all);
    _exit(42);
}
void fail(const std::string& cls, const std::string& detail) { throw Violation{cls, detail}; }

static void onSignal(int s, siginfo_t*, void*)
{
    char b[200];
    snprintf(b, sizeof b, "signal %d (%s) in %s (thread %d)%s", s, s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGFPE ? "SIGFPE" : "other",
             tl ? tl->op : "?", tl ? tl->id : -1, tl && tl->mode == LIB ? "" : " [outside the library]");
    finish(tl && tl->mode == LIB ? "crash" : "crash-outside", b);
}

// ------------------------------------------------------------------ simulated heap
static char* const kArena = reinterpret_cast<char*>(0x200000000000ull);
static unsigned char* const kShadow = reinterpret_cast<unsigned char*>(0x280000000000ull);
static constexpr size_t kArenaSize = 1ull << 30;

struct Hdr { uint64_t magic; uint64_t size; uint32_t mode, seq; Hdr* next; };   // 32 bytes
static constexpr uint64_t kLive = 0x4c4956454c495645ull, kFree = 0x4652454546524545ull;
static constexpr size_t kRed = 32;

static size_t bump = 0;
static Env env;
static uint64_t envRng = 1;
static uint64_t nLiveLib = 0, nLiveLibBytes = 0;
static uint32_t seqNo = 0;
static Hdr* freeHead[4097];
static Hdr* freeTail[4097];

static inline bool inArena(const void* p) { return static_cast<size_t>(static_cast<const char*>(p) - kArena) < kArenaSize; }
static uint64_t envNext() { envRng ^= envRng << 13; envRng ^= envRng >> 7; envRng ^= envRng << 17; return envRng; }

void setEnv(const Env& e)
{
    env = e;
    envRng = e.seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    if (envRng == 0) envRng = 1;
}
uint64_t liveLib() { return nLiveLib; }
uint64_t liveLibBytes() { return nLiveLibBytes; }

static void fillBlock(char* p, size_t n, bool recycled)
{
    switch (env.fill) {
    case 0: memset(p, 0, n); break;
    case 1: memset(p, 0xFF, n); break;                  // NaNs, ints -1
    case 2: memset(p, 0xA5, n); break;
    case 3: for (size_t i = 0; i < n; ++i) p[i] = char(envNext()); break;
    case 4: for (size_t i = 0; i < n; ++i) p[i] = (i % 4 == 0) ? char(0xFE) : char(0xFF); break;   // ints -2
    case 5: for (size_t i = 0; i < n; ++i) p[i] = (i % 4 == 0) ? char(envNext() % 7) : 0; break;    // plausible small ints
    case 6: if (!recycled) memset(p, 0x3F, n); break;   // recycled memory keeps its old contents
    default: break;
    }
}

static void raceErase(const void* p, size_t n);
static void raceRange(const void* p, size_t n, bool write);
static void schedPoint(Thr* t);

static void* arenaAlloc(size_t n, int mode)
{
    size_t r = (n + 15) & ~size_t(15);
    if (r == 0) r = 16;
    if (env.fill >= 1) countFault(F_GARBAGE);
    Hdr* h = nullptr;
    bool recycled = false;
    size_t k = r / 16;
    if (env.reuse && k <= 4096 && freeHead[k]) {
        h = freeHead[k];
        freeHead[k] = h->next;
        if (!freeHead[k]) freeTail[k] = nullptr;
        recycled = true;
        countFault(F_RECYCLE);
    }
    else {
        if (env.pad) { size_t p = 16 * (envNext() % size_t(env.pad + 1)); bump += p; if (p) countFault(F_LAYOUT); }
        if (bump + r + 2 * kRed + sizeof(Hdr) > kArenaSize) violateNow("sim-arena-exhausted", "simulated heap exhausted (%zu bytes asked)", n);
        h = reinterpret_cast<Hdr*>(kArena + bump + kRed);
        bump += r + 2 * kRed + sizeof(Hdr);
    }
    char* p = reinterpret_cast<char*>(h + 1);
    h->magic = kLive; h->size = n; h->mode = mode; h->seq = ++seqNo; h->next = nullptr;
    fillBlock(p, r, recycled);
    memset(kShadow + (p - kArena), 1, n);
    if (mode == LIB) { ++nLiveLib; nLiveLibBytes += n; }
    raceErase(p, r);
    return p;
}

static void arenaFree(void* q)
{
    Hdr* h = static_cast<Hdr*>(q) - 1;
    if ((reinterpret_cast<uintptr_t>(q) & 15) != 0 || h->magic != kLive) {
        violateNow(h->magic == kFree ? "double-free" : "bad-free", "freeing an address that is not a live block");
    }
    size_t n = h->size, r = (n + 15) & ~size_t(15);
    if (r == 0) r = 16;
    if (tl && tl->mode == LIB) raceRange(q, n, true);
    h->magic = kFree;
    memset(kShadow + (static_cast<char*>(q) - kArena), 2, n);
    if (h->mode == LIB) { --nLiveLib; nLiveLibBytes -= n; }
    if (env.fill != 6) memset(q, 0xDD, r);
    size_t k = r / 16;
    if (env.reuse && k <= 4096) {
        h->next = nullptr;
        if (env.reuse == 1) { h->next = freeHead[k]; freeHead[k] = h; if (!freeTail[k]) freeTail[k] = h; }
        else { if (freeTail[k]) freeTail[k]->next = h; else freeHead[k] = h; freeTail[k] = h; }
    }
}

static uint64_t siteHash(Thr* t, size_t)
{
    uint64_t h = 0x9E37;
    int n = t->depth < 512 ? t->depth : 512;
    for (int i = n - 1, k = 0; i >= 0 && k < 7; --i, ++k) {
        uint64_t pc = t->stk[i] - reinterpret_cast<uintptr_t>(&__executable_start);
        h = (h ^ pc) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    }
    return h;
}

// Returns true when this allocation has to fail.
static bool allocFault(Thr* t, size_t n)
{
    ++t->allocs;
    if (st) add(st->allocs);
    bool f = false;
    switch (t->f.kind) {
    case F_ONE:   f = t->allocs == t->f.n; break;
    case F_BURST: f = t->allocs >= t->f.n && t->allocs < t->f.n + t->f.m; break;
    case F_FROM:  f = t->allocs >= t->f.n; break;
    case F_BIG:   f = t->allocs >= t->f.n && n >= t->f.m; break;
    default: break;
    }
    if (f) {
        ++t->fired;
        countFault(t->f.kind);
        if (st) setInsert(st->sites, &st->nsites, siteHash(t, n));
    }
    return f;
}

static void* simMalloc(size_t n)
{
    Thr* t = tl;
    if (!t || t->mode == HOST) return __real_malloc(n ? n : 1);
    if (t->mode == LIB) {
        schedPoint(t);
        if (n > (size_t(1) << 40)) return nullptr;
        if (allocFault(t, n)) { errno = ENOMEM; return nullptr; }
        if (n > (kArenaSize >> 2)) { return nullptr; }
    }
    return arenaAlloc(n, t->mode);
}
static void simFree(void* p)
{
    if (!p) return;
    if (inArena(p)) { if (tl && tl->mode == LIB) schedPoint(tl); arenaFree(p); }
    else __real_free(p);
}

// ------------------------------------------------------------------ scheduler and race detector
struct Cell { uint32_t w[kMaxThr][8]; uint32_t r[kMaxThr][8]; };
struct Sync { uint32_t vc[kMaxThr]; };

static bool gConc = false;
static uint64_t gStep = 0, gNext = ~0ull, gLastPhase = 0;
static size_t gSchedPos = 0;
static const std::vector<Switch>* gSched = nullptr;
static int gCur = -1, gN = 0;
static bool gDone[kMaxThr];
static sem_t gSem[kMaxThr], gMainSem;
static Thr gThr[kMaxThr];
static std::unordered_map<uintptr_t, Cell>* gCells = nullptr;
static std::map<const void*, Sync>* gSync = nullptr;
static uint64_t gSchedHash = 0, gSpin = 0;

uint64_t phaseSteps() { return gLastPhase; }

static void armNext() { gNext = gSched && gSchedPos < gSched->size() ? (*gSched)[gSchedPos].step : ~0ull; }

static int nextRunnable(int from)
{
    for (int k = 1; k <= gN; ++k) { int c = (from + k) % gN; if (!gDone[c]) return c; }
    return -1;
}
static void switchTo(Thr* t, int to)
{
    if (to == t->id || to < 0) return;
    uint64_t fn = t->depth > 0 && t->depth <= 512 ? t->stk[t->depth - 1] - reinterpret_cast<uintptr_t>(&__executable_start) : 0;
    gSchedHash = (gSchedHash ^ (fn * 31 + t->id * 7 + to)) * 0x9E3779B97F4A7C15ull;
    gSchedHash ^= gSchedHash >> 31;
    if (st) add(st->switches);
    gCur = to;
    sem_post(&gSem[to]);
    while (sem_wait(&gSem[t->id]) != 0) {}
}
static void schedPoint(Thr* t)
{
    ++t->steps;
    if (t->steps > t->budget) violateNow("hang", "more than %llu steps without finishing", (unsigned long long)t->budget);
    if (!gConc) return;
    ++gStep;
    if (gStep >= gNext) {
        int to = (*gSched)[gSchedPos].to % gN;
        ++gSchedPos;
        armNext();
        if (gDone[to]) to = nextRunnable(t->id);
        if (to != t->id && to >= 0) { countFault(F_PREEMPT); switchTo(t, to); }
    }
}
static void yieldBlocked(Thr* t)
{
    if (++gSpin > 100000) violateNow("deadlock", "threads block each other");
    int to = nextRunnable(t->id);
    if (to == t->id || to < 0) violateNow("deadlock", "lock is never released");
    switchTo(t, to);
}

static void raceErase(const void* p, size_t n)
{
    if (!gConc) return;
    Host h;
    uintptr_t a = reinterpret_cast<uintptr_t>(p) >> 3, b = (reinterpret_cast<uintptr_t>(p) + n + 7) >> 3;
    for (; a < b; ++a) gCells->erase(a);
}
static void raceOne(Thr* t, uintptr_t addr, size_t n, bool write)
{
    Cell& c = (*gCells)[addr >> 3];
    int lo = addr & 7, hi = lo + int(n);
    for (int u = 0; u < gN; ++u) {
        if (u == t->id) continue;
        for (int b = lo; b < hi; ++b) {
            bool cw = c.w[u][b] > t->vc[u];
            bool cr = write && c.r[u][b] > t->vc[u];
            if (cw || cr) {
                const char* where = inArena(reinterpret_cast<void*>(addr)) ? "heap block" : "static storage";
                violateNow("race", "%s of memory in a %s that thread %d %s without synchronisation (that thread was in %s)",
                           write ? "write" : "read", where, u, cw ? "writes" : "reads", gThr[u].op);
            }
        }
    }
    for (int b = lo; b < hi; ++b) (write ? c.w : c.r)[t->id][b] = t->vc[t->id];
}
static void raceRange(const void* p, size_t n, bool write)
{
    if (!gConc || !n) return;
    Thr* t = tl;
    uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
    // Simulated heap and static storage. Everything else (stacks, thread-local storage, exception objects) belongs to one thread.
    if (!inArena(p) && !(a >= reinterpret_cast<uintptr_t>(&__executable_start) && a < reinterpret_cast<uintptr_t>(&_end))) return;
    int m = t->mode; t->mode = HOST;
    while (a < e) {
        size_t k = 8 - (a & 7);
        if (k > e - a) k = e - a;
        raceOne(t, a, k, write);
        a += k;
    }
    t->mode = m;
}
static inline void bounds(const void* p, size_t n, bool write)
{
    if (!inArena(p)) return;
    size_t off = static_cast<const char*>(p) - kArena;
    const unsigned char* s = kShadow + off;
    for (size_t i = 0; i < n; ++i) {
        if (__builtin_expect(s[i] != 1, 0)) {
            violateNow(s[i] == 2 ? "use-after-free" : "out-of-bounds", "%s of %zu byte(s) %s a heap block",
                       write ? "write" : "read", n, s[i] == 2 ? "in freed" : "outside");
        }
    }
}
static inline void access(const void* p, size_t n, bool write)
{
    Thr* t = tl;
    if (!t || t->mode != LIB) return;
    bounds(p, n, write);
    schedPoint(t);
    if (gConc) raceRange(p, n, write);
}
static inline void accessRange(const void* p, size_t n, bool write)
{
    Thr* t = tl;
    if (!t || t->mode != LIB || n == 0) return;
    bounds(p, n, write);
    t->steps += n / 8;
    schedPoint(t);
    raceRange(p, n, write);
}
void noteRead(const void* p, size_t n)
{
    Scope s(LIB);
    accessRange(p, n, false);
}
static void acquire(Thr* t, const void* o)
{
    if (!gConc) return;
    Scope s(HOST);
    auto i = gSync->find(o);
    if (i == gSync->end()) return;
    for (int k = 0; k < kMaxThr; ++k) if (i->second.vc[k] > t->vc[k]) t->vc[k] = i->second.vc[k];
}
static void release(Thr* t, const void* o)
{
    if (!gConc) return;
    Scope s(HOST);
    Sync& y = (*gSync)[o];
    for (int k = 0; k < kMaxThr; ++k) if (t->vc[k] > y.vc[k]) y.vc[k] = t->vc[k];
    ++t->vc[t->id];
}
static inline void atomicPoint(const void* p, size_t n)
{
    Thr* t = tl;
    if (!t || t->mode != LIB) return;
    bounds(p, n, true);
    schedPoint(t);
    acquire(t, p);
    release(t, p);
}

struct ThrArg { int id; const std::function<void()>* fn; };
static void setStack(Thr* t)
{
    pthread_attr_t a;
    void* lo; size_t sz;
    if (pthread_getattr_np(pthread_self(), &a) == 0) {
        pthread_attr_getstack(&a, &lo, &sz);
        t->stackLo = reinterpret_cast<uintptr_t>(lo);
        // The thread control block and thread_local data lie above the stack proper, in the same mapping.
        t->stackHi = t->stackLo + sz;
        pthread_attr_destroy(&a);
    }
}
static void* threadMain(void* v)
{
    ThrArg* a = static_cast<ThrArg*>(v);
    tl = &gThr[a->id];
    setStack(tl);
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_size = 65536; ss.ss_sp = __real_malloc(ss.ss_size); sigaltstack(&ss, nullptr);
    while (sem_wait(&gSem[a->id]) != 0) {}
    try { (*a->fn)(); }
    catch (Violation& e) { finish(e.cls.c_str(), e.detail.c_str()); }
    catch (std::exception& e) { finish("harness-exception", e.what()); }
    gDone[a->id] = true;
    int to = nextRunnable(a->id);
    if (to >= 0) { gCur = to; sem_post(&gSem[to]); } else sem_post(&gMainSem);
    return nullptr;
}

void runThreads(const std::vector<std::function<void()>>& fns, const std::vector<Switch>& sched, int first)
{
    gN = int(fns.size());
    std::vector<ThrArg> args(gN);
    std::vector<pthread_t> ids(gN);
    sem_init(&gMainSem, 0, 0);
    gCells = new std::unordered_map<uintptr_t, Cell>();
    gSync = new std::map<const void*, Sync>();
    gCells->reserve(4096);
    for (int i = 0; i < gN; ++i) {
        sem_init(&gSem[i], 0, 0);
        gDone[i] = false;
        gThr[i] = Thr();
        gThr[i].id = i;
        gThr[i].vc[i] = 1;
        args[i] = {i, &fns[i]};
    }
    gSched = &sched; gSchedPos = 0; gStep = 0; gSpin = 0; gSchedHash = 1;
    armNext();
    gConc = true;
    for (int i = 0; i < gN; ++i) if (pthread_create(&ids[i], nullptr, threadMain, &args[i]) != 0) violateNow("sim-thread", "pthread_create failed");
    gCur = first % gN;
    sem_post(&gSem[gCur]);
    while (sem_wait(&gMainSem) != 0) {}
    for (int i = 0; i < gN; ++i) pthread_join(ids[i], nullptr);
    gConc = false;
    gLastPhase = gStep;
    if (st) setInsert(st->scheds, &st->nscheds, gSchedHash);
    if (res) res->phaseSteps = gStep;
    delete gCells; delete gSync; gCells = nullptr; gSync = nullptr;
}

// ------------------------------------------------------------------ calls
void beginCall(const Spec& s)
{
    Thr* t = tl;
    t->op = s.op; t->f = s.f; t->allocs = 0; t->fired = 0; t->steps = 0; t->budget = s.budget; t->depth = 0;
    if (t->budget == ~0ull) t->budget = 400000000ull;
    if (st) add(st->libCalls);
    t->mode = LIB;
}
void endCall(Outcome& o)
{
    Thr* t = tl;
    t->mode = HOST;
    o.allocs = t->allocs; o.fired = t->fired; o.steps = t->steps;
    t->f = Fault();
    t->budget = ~0ull;
    t->depth = 0;
    if (res) res->runSteps += t->steps;
    if (st) { add(st->steps, t->steps); if (o.kind != OK) add(st->failedCalls); }
}
int classify()
{
    try { throw; }
    catch (Violation&) { throw; }
    catch (std::bad_alloc&) { return NOMEM; }
    catch (std::invalid_argument&) { return BADARG; }
    catch (std::logic_error&) { return LOGIC; }
    catch (std::runtime_error&) { return RUNTIME; }
    catch (std::exception&) { return STDEXC; }
    catch (...) { return OTHER; }
}

__attribute__((noinline)) void paintStack(int pattern)
{
    volatile unsigned char buf[48 * 1024];
    for (size_t i = 0; i < sizeof buf; ++i)
        buf[i] = pattern == 4 ? (i % 4 ? 0xFF : 0xFE) : pattern == 1 ? 0xFF : pattern == 0 ? 0 : pattern == 5 ? (i % 4 ? 0 : (i / 4) % 7) : 0x5A + (unsigned char)pattern;
    countFault(F_STACK);
    __asm__ volatile("" ::"r"(buf) : "memory");
}

// ------------------------------------------------------------------ set-up
void init()
{
    tl = &mainThr;
    st = static_cast<Stats*>(mmap(nullptr, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    void* a = mmap(kArena, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* s = mmap(kShadow, kArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (st == MAP_FAILED || a != kArena || s != (void*)kShadow) { fprintf(stderr, "cannot map the simulated heap\n"); _exit(3); }
    setStack(&mainThr);
}
void childInit()
{
    static char alt[65536];
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSignal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGILL}) sigaction(s, &sa, nullptr);
    setStack(&mainThr);
    logReset();
}

} // namespace rt

// ====================================================================== instrumentation entry points
using namespace rt;
#define API extern "C" __attribute__((visibility("default")))

API void __tsan_init() {}
API void __tsan_func_entry(void* pc) { Thr* t = tl; if (t && t->mode == LIB) { if (t->depth >= 0 && t->depth < 512) t->stk[t->depth] = reinterpret_cast<uintptr_t>(pc); ++t->depth; } }
API void __tsan_func_exit() { Thr* t = tl; if (t && t->mode == LIB && t->depth > 0) --t->depth; }
#define RW(N) \
    API void __tsan_read##N(void* p) { access(p, N, false); } \
    API void __tsan_write##N(void* p) { access(p, N, true); } \
    API void __tsan_read_write##N(void* p) { access(p, N, true); } \
    API void __tsan_unaligned_read##N(void* p) { access(p, N, false); } \
    API void __tsan_unaligned_write##N(void* p) { access(p, N, true); } \
    API void __tsan_unaligned_read_write##N(void* p) { access(p, N, true); } \
    API void __tsan_volatile_read##N(void* p) { access(p, N, false); } \
    API void __tsan_volatile_write##N(void* p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
API void __tsan_read_range(void* p, unsigned long n) { accessRange(p, n, false); }
API void __tsan_write_range(void* p, unsigned long n) { accessRange(p, n, true); }
API void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
API void __tsan_vptr_read(void** p) { access(p, 8, false); }
API void __tsan_ignore_thread_begin() {}
API void __tsan_ignore_thread_end() {}
API void* __tsan_memcpy(void* d, const void* s, size_t n) { accessRange(s, n, false); accessRange(d, n, true); return memcpy(d, s, n); }
API void* __tsan_memmove(void* d, const void* s, size_t n) { accessRange(s, n, false); accessRange(d, n, true); return memmove(d, s, n); }
API void* __tsan_memset(void* d, int c, size_t n) { accessRange(d, n, true); return memset(d, c, n); }

typedef __int128 i128;
#define ATOMIC(S, T) \
    API T __tsan_atomic##S##_load(const volatile T* a, int) { atomicPoint((const void*)a, sizeof(T)); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    API void __tsan_atomic##S##_store(volatile T* a, T v, int) { atomicPoint((const void*)a, sizeof(T)); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##S##_exchange(volatile T* a, T v, int) { atomicPoint((const void*)a, sizeof(T)); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##S##_fetch_add(volatile T* a, T v, int) { atomicPoint((const void*)a, sizeof(T)); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##S##_fetch_sub(volatile T* a, T v, int) { atomicPoint((const void*)a, sizeof(T)); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##S##_fetch_and(volatile T* a, T v, int) { atomicPoint((const void*)a, sizeof(T)); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##S##_fetch_or(volatile T* a, T v, int) { atomicPoint((const void*)a, sizeof(T)); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##S##_fetch_xor(volatile T* a, T v, int) { atomicPoint((const void*)a, sizeof(T)); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##S##_fetch_nand(volatile T* a, T v, int) { atomicPoint((const void*)a, sizeof(T)); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    API int __tsan_atomic##S##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { atomicPoint((const void*)a, sizeof(T)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    API int __tsan_atomic##S##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { atomicPoint((const void*)a, sizeof(T)); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    API T __tsan_atomic##S##_compare_exchange_val(volatile T* a, T c, T v, int, int) { atomicPoint((const void*)a, sizeof(T)); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOMIC(8, char) ATOMIC(16, short) ATOMIC(32, int) ATOMIC(64, long)
API void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
API void __tsan_atomic_signal_fence(int) {}

API void __sanitizer_cov_trace_pc_guard_init(uint32_t* b, uint32_t* e)
{
    if (b == e || *b) return;
    for (uint32_t* x = b; x < e; ++x) *x = ++edgeTotal;
}
API void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
    Thr* t = tl;
    if (!t || t->mode != LIB) return;
    if (*g < kEdgeMax && st) st->edge[*g] = 1;
    schedPoint(t);
}

// ====================================================================== allocation seam
API void* __wrap_malloc(size_t n) { return simMalloc(n); }
API void __wrap_free(void* p) { simFree(p); }
API void* __wrap_calloc(size_t a, size_t b)
{
    Thr* t = tl;
    if (!t || t->mode == HOST) return __real_calloc(a, b);
    if (b && a > SIZE_MAX / b) return nullptr;
    void* p = simMalloc(a * b);
    if (p) memset(p, 0, a * b);
    return p;
}
API void* __wrap_realloc(void* p, size_t n)
{
    Thr* t = tl;
    if (!p) return simMalloc(n);
    if (!inArena(p)) {
        if (!t || t->mode == HOST) return __real_realloc(p, n);
    }
    void* q = simMalloc(n);
    if (!q) return nullptr;
    size_t old = inArena(p) ? (static_cast<Hdr*>(p) - 1)->size : n;
    memcpy(q, p, old < n ? old : n);
    simFree(p);
    return q;
}
API int __wrap_posix_memalign(void** out, size_t al, size_t n)
{
    if (al > 16) { void* p = simMalloc(n); if (!p) return ENOMEM; *out = p; return 0; }
    void* p = simMalloc(n);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
API void* __wrap_aligned_alloc(size_t, size_t n) { return simMalloc(n); }

static void* newImpl(size_t n)
{
    void* p = simMalloc(n);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new(size_t n) { return newImpl(n); }
void* operator new[](size_t n) { return newImpl(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return simMalloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return simMalloc(n); }
void* operator new(size_t n, std::align_val_t) { return newImpl(n); }
void* operator new[](size_t n, std::align_val_t) { return newImpl(n); }
void operator delete(void* p) noexcept { simFree(p); }
void operator delete[](void* p) noexcept { simFree(p); }
void operator delete(void* p, size_t) noexcept { simFree(p); }
void operator delete[](void* p, size_t) noexcept { simFree(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { simFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { simFree(p); }
void operator delete(void* p, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void* p, std::align_val_t) noexcept { simFree(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { simFree(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { simFree(p); }

// ====================================================================== synchronisation seam
API int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    Thr* t = tl;
    if (!t || t->mode != LIB) return __real_pthread_mutex_lock(m);
    schedPoint(t);
    int e;
    while ((e = pthread_mutex_trylock(m)) == EBUSY) { if (!gConc) violateNow("deadlock", "lock taken twice"); yieldBlocked(t); }
    gSpin = 0;
    if (e == 0) acquire(t, m);
    return e;
}
API int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    Thr* t = tl;
    if (t && t->mode == LIB) { release(t, m); }
    int e = __real_pthread_mutex_unlock(m);
    if (t && t->mode == LIB) schedPoint(t);
    return e;
}
API int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    Thr* t = tl;
    if (!t || t->mode != LIB) return pthread_rwlock_trywrlock(m);
    schedPoint(t);
    int e;
    while ((e = pthread_rwlock_trywrlock(m)) == EBUSY || e == EDEADLK) { if (!gConc) violateNow("deadlock", "lock taken twice"); yieldBlocked(t); }
    gSpin = 0;
    acquire(t, m);
    return e;
}
API int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    Thr* t = tl;
    if (!t || t->mode != LIB) return pthread_rwlock_tryrdlock(m);
    schedPoint(t);
    int e;
    while ((e = pthread_rwlock_tryrdlock(m)) == EBUSY || e == EAGAIN) { if (!gConc) violateNow("deadlock", "lock taken twice"); yieldBlocked(t); }
    gSpin = 0;
    acquire(t, m);
    return e;
}
extern "C" int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
API int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    Thr* t = tl;
    if (t && t->mode == LIB) release(t, m);
    return __real_pthread_rwlock_unlock(m);
}
API int __wrap_pthread_once(pthread_once_t* o, void (*fn)())
{
    // 0 = not run, 1 = running, 2 = done
    Thr* t = tl;
    int* s = reinterpret_cast<int*>(o);
    while (*s == 1) { if (t && gConc) yieldBlocked(t); else break; }
    if (*s == 0) {
        *s = 1;
        try { fn(); } catch (...) { *s = 0; throw; }
        *s = 2;
        if (t) release(t, o);
    }
    gSpin = 0;
    if (t) acquire(t, o);
    return 0;
}
API int __wrap___cxa_guard_acquire(uint64_t* g)
{
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    Thr* t = tl;
    for (;;) {
        if (b[0]) { if (t) acquire(t, g); gSpin = 0; return 0; }
        if (!b[1]) { b[1] = 1; gSpin = 0; return 1; }
        if (!t || !gConc) violateNow("deadlock", "recursive initialisation");
        yieldBlocked(t);
    }
}
API void __wrap___cxa_guard_release(uint64_t* g)
{
    unsigned char* b = reinterpret_cast<unsigned char*>(g);
    if (tl) release(tl, g);
    b[1] = 0; b[0] = 1;
}
API void __wrap___cxa_guard_abort(uint64_t* g) { reinterpret_cast<unsigned char*>(g)[1] = 0; }

API void __wrap___assert_fail(const char* expr, const char* file, unsigned line, const char* fn)
{
    (void)line; (void)fn;
    const char* b = strrchr(file, '/');
    violateNow("assertion", "assertion '%s' failed in %s", expr, b ? b + 1 : file);
}

// ====================================================================== clock and entropy seam
// The library should need neither; if it does, it sees a simulated clock that jumps and simulated entropy.
#include <sys/time.h>
#include <time.h>
static uint64_t gClock = 0;
static uint64_t entropy()
{
    countFault(F_CLOCK);
    uint64_t z = (env.seed * 0x9E3779B97F4A7C15ull) ^ (++gClock * 0xBF58476D1CE4E5B9ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t simNanos() { return 1700000000000000000ull + entropy() % 1000000000000000ull; }   // jumps both ways
static bool inLib() { return tl && tl->mode == LIB; }
extern "C" {
time_t __real_time(time_t*);
clock_t __real_clock();
int __real_gettimeofday(struct timeval*, void*);
int __real_clock_gettime(clockid_t, struct timespec*);
int __real_rand();
void __real_srand(unsigned);
long __real_random();
double __real_drand48();
int __real_rand_r(unsigned*);
long __real__ZNSt6chrono3_V212system_clock3nowEv();
long __real__ZNSt6chrono3_V212steady_clock3nowEv();
unsigned __real__ZNSt13random_device9_M_getvalEv(void*);
}
API time_t __wrap_time(time_t* t) { if (!inLib()) return __real_time(t); time_t v = time_t(simNanos() / 1000000000ull); if (t) *t = v; return v; }
API clock_t __wrap_clock() { return inLib() ? clock_t(simNanos() / 1000 % 100000000) : __real_clock(); }
API int __wrap_gettimeofday(struct timeval* t, void* z) { if (!inLib()) return __real_gettimeofday(t, z); uint64_t n = simNanos(); t->tv_sec = long(n / 1000000000ull); t->tv_usec = long(n / 1000 % 1000000); return 0; }
API int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (!inLib()) return __real_clock_gettime(c, t); uint64_t n = simNanos(); t->tv_sec = long(n / 1000000000ull); t->tv_nsec = long(n % 1000000000ull); return 0; }
API int __wrap_rand() { return inLib() ? int(entropy() & 0x7fffffff) : __real_rand(); }
API void __wrap_srand(unsigned s) { if (!inLib()) __real_srand(s); }
API long __wrap_random() { return inLib() ? long(entropy() & 0x7fffffff) : __real_random(); }
API double __wrap_drand48() { return inLib() ? double(entropy() >> 11) / 9007199254740992.0 : __real_drand48(); }
API int __wrap_rand_r(unsigned* s) { return __real_rand_r(s); }
API long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return inLib() ? long(simNanos()) : __real__ZNSt6chrono3_V212system_clock3nowEv(); }
API long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return inLib() ? long(simNanos()) : __real__ZNSt6chrono3_V212steady_clock3nowEv(); }
API unsigned __wrap__ZNSt13random_device9_M_getvalEv(void* p) { return inLib() ? unsigned(entropy()) : __real__ZNSt13random_device9_M_getvalEv(p); }
