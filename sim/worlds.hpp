// Worlds: pieces of the library driven by operations of a plan, with their executable models.
#pragma once
#include "model.hpp"
#include "plan.hpp"
#include <memory>
#include <set>

using rt::Box; using rt::Outcome; using rt::Spec; using rt::Fault;

struct Probe { enum { CYCLIC, CAPPED, CLOSED, REJECTED, TWIN, REFCHK, PRISTINE, STATICWS, BIGSCC, NULLRES, REVFAIL, SINKFAIL, DUPCONN,
                      MIXED, TOOSMALL, EMPTYROW, SKIPPED, RECOVERED, FAILEDRUN, FAILEDASSIGN, MOVED, LEAKTRIAL, FAULTTRIAL, TOLERATED,
                      CONCFAULT, SHAREDREAD, REUSED, ENVVAR, REORDER, LATEFAIL, STRADDLE, COPIED, BIGMODEL, NEGATIVE, CROSSFLOW, SHAREDCELL, DERIVED, GROWTH }; };
void probe(int k);
const char* probeName(int k);

enum Expect { ANY, MUST_OK, MUST_FAIL };

struct World {
    std::vector<uint64_t> dig;      // observable digest of each operation
    std::vector<uint64_t> fires;    // memory failures met so far: number of results before, outcome
    bool checks = true;             // compare with models (off when only recording)
    bool faults = true;
    int curOp = -1;
    virtual ~World() {}
    virtual void prepare(const Op&) {}
    virtual void op(const Op&) = 0;
    virtual void finish() {}
    int paint = -1;                 // stack contents left behind for each operation
    void step(const Op& o, int index)
    {
        curOp = index;
        if (rt::res) rt::res->curOp = index;
        if (paint >= 0) rt::paintStack(paint);
        op(o);
    }
    Outcome last;                   // outcome of the last library call made under the operation's fault

    // One library call of the current operation, under the operation's fault.
    template <class F> Outcome act(const Op& o, F&& fn, uint64_t budget = ~0ull)
    {
        Outcome r = rt::call(spec(o, budget), std::forward<F>(fn));
        noteOutcome(r);
        return r;
    }
    Spec spec(const Op& o, uint64_t budget = ~0ull);
    void noteOutcome(const Outcome&);
    // A call that has to succeed (no fault).
    template <class F> void sure(const char* what, F&& fn, uint64_t budget = ~0ull)
    {
        Spec s; s.op = what; s.budget = budget;
        Outcome r = rt::call(s, std::forward<F>(fn));
        if (!r.ok()) rt::fail("unexpected-error", std::string(what) + " failed with " + rt::outName(r.kind));
    }
    void expect(Expect e, const Outcome& r, const std::string& what);
    void rec(uint64_t h) { dig.push_back(h); rt::logU(h); }
};

struct Hash {
    uint64_t h = 1469598103934665603ull;
    Hash& u(uint64_t v) { h = rt::fnv(&v, 8, h); return *this; }
    Hash& d(double v) { h = rt::fnv(&v, 8, h); return *this; }
    Hash& s(const std::string& v) { h = rt::fnv(v.data(), v.size(), h); return u(v.size()); }
    Hash& b(const void* p, size_t n) { h = rt::fnv(p, n, h); return u(n); }
    template <class T> Hash& v(const std::vector<T>& x) { return b(x.data(), x.size() * sizeof(T)); }
    Hash& m(const std::map<int, double>& x) { for (auto& e : x) { u(uint64_t(e.first)); d(e.second); } return u(x.size()); }
};

template <class T, class... A> std::unique_ptr<T> mkClient(A&&... a)
{
    rt::Client c;
    return std::unique_ptr<T>(new T(std::forward<A>(a)...));
}

// Server that evaluates operation lists in a process that has never called the library before.
struct Pristine {
    int wr = -1, rd = -1;
    int pid = -1;
    using Fn = std::function<std::vector<uint64_t>(const std::vector<Op>&)>;
    void start(Fn fn);
    std::vector<uint64_t> ask(const std::vector<Op>&);
    ~Pristine();
};

// Factories (each returns a world configured from the plan).
struct WorldOpts { int prefix = 0; };
std::unique_ptr<World> makeToolboxWorld(const Plan&, const char* pre = "");
std::unique_ptr<World> makeSolverWorld(const Plan&, const char* pre = "");
std::unique_ptr<World> makeTarjanWorld(const Plan&, const char* pre = "");
std::unique_ptr<World> makeConnWorld(const Plan&, const char* pre = "");
std::unique_ptr<World> makeContainerWorld(const Plan&, const char* pre = "");
std::unique_ptr<World> makeRandomWorld(const Plan&, const char* pre = "");
enum { W_TOOLBOX, W_SOLVER, W_TARJAN, W_CONN, W_CONT, W_RANDOM, W_COUNT };
std::unique_ptr<World> makeWorld(int kind, const Plan&);
// Appends n random operations of a world kind to the plan. flags: 1 = rejected arguments, 2 = allocation faults
void genOps(int kind, Plan&, Rng&, int n, int flags, int thr = 0, int size = 1);
void genCfg(int kind, Plan&, Rng&, int size);

inline std::vector<uint64_t> playOps(World& w, const std::vector<Op>& ops)
{
    int i = 0;
    for (auto& o : ops) w.step(o, i++);
    w.finish();
    return w.dig;
}
// Results together with the memory failures met. How many allocations an operation makes may legitimately depend on
// what ran before (buffers kept per thread, say), so two executions of the same operations are compared up to the first
// operation that met a memory failure in only one of them.
struct Trace { std::vector<uint64_t> dig, fires; };
inline std::vector<uint64_t> pack(const World& w)
{
    std::vector<uint64_t> v(1, w.dig.size());
    v.insert(v.end(), w.dig.begin(), w.dig.end());
    v.insert(v.end(), w.fires.begin(), w.fires.end());
    return v;
}
inline Trace unpack(const std::vector<uint64_t>& v)
{
    Trace t;
    if (v.empty()) return t;
    t.dig.assign(v.begin() + 1, v.begin() + 1 + long(v[0]));
    t.fires.assign(v.begin() + 1 + long(v[0]), v.end());
    return t;
}
// Index of the first differing result, or -1. How far a failed request for random numbers has advanced the stream is
// not specified (Cmp::RANDOM), queries of constant objects leave nothing behind (Cmp::STATELESS).
enum class Cmp { HISTORY, STATELESS, RANDOM };
inline long firstDifference(const Trace& a, const Trace& b, Cmp cmp = Cmp::HISTORY)
{
    const bool stateless = cmp == Cmp::STATELESS;
    size_t lim = ~size_t(0), k = 0;
    while (cmp != Cmp::RANDOM && k < a.fires.size() && k < b.fires.size() && a.fires[k] == b.fires[k]) ++k;
    if (k < a.fires.size()) lim = std::min<size_t>(lim, a.fires[k] >> 8);
    if (k < b.fires.size()) lim = std::min<size_t>(lim, b.fires[k] >> 8);
    auto met = [](const Trace& t, size_t i) { for (auto f : t.fires) if ((f >> 8) == i) return true; return false; };
    for (size_t i = 0; i < a.dig.size() || i < b.dig.size(); ++i) {
        if (!stateless && i >= lim) return -1;
        if (i >= a.dig.size() || i >= b.dig.size()) return long(i);
        if (a.dig[i] != b.dig[i] && !(stateless && (met(a, i) || met(b, i)))) return long(i);
    }
    return -1;
}
std::vector<std::pair<std::vector<Op>, Trace>> randomHistories(World&);
