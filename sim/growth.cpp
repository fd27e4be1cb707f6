// Growth of work with size: the same kind of input at one size and at eight times that size.
// The amount of work per element may grow a little (logarithms), not in proportion to the size.
#include "worlds.hpp"
#include "growth.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <opm/utility/graph/tarjan.h>
#include <opm/utility/numeric/RandomVector.hpp>
#include <algorithm>
#include <cmath>
#include <ostream>
#include <streambuf>

namespace FD = Opm::FlowDiagnostics;
using FD::CellSet; using FD::CellSetID; using FD::CellSetValues;
using Opm::AssembledConnections;

namespace {

struct Meter {
    std::vector<double> base;        // steps per element at the small size
    size_t at = 0;
    bool second = false;
    template <class F> void run(const char* what, uint64_t units, F&& fn)
    {
        if (!units) units = 1;
        Spec s; s.op = what;
        double allow = 0;
        if (second && at < base.size()) { allow = 3.0 * std::max(base[at], 60.0); s.budget = 100000 + uint64_t(allow * double(units)); }
        else s.budget = 1000000 + 60000ull * units;
        Outcome o = rt::call(s, std::forward<F>(fn));
        if (!o.ok()) rt::fail("unexpected-error", std::string(what) + " failed with " + rt::outName(o.kind));
        if (!second) base.push_back(double(o.steps) / double(units));
        else ++at;
        rt::logU(o.steps);
    }
};

struct Null : std::streambuf {
    uint64_t n = 0;
    int overflow(int c) override { ++n; return c; }
    std::streamsize xsputn(const char*, std::streamsize k) override { n += uint64_t(k); return k; }
};

template <class T> struct Hold {                      // a library object made by a measured call
    Box<T> b;
    template <class F> void make(Meter& m, const char* what, uint64_t units, F&& f)
    {
        rt::Host h;
        { rt::Client c; b.mem = ::operator new(sizeof(T)); }
        m.run(what, units, [&] { f(b.mem); });
        b.live = true;
    }
};

void flow(Meter& m, long n, long seed, long shape, long perf, long phases)
{
    Rng r(mix(uint64_t(seed), 9001));
    // Connections and total fluxes; all flow runs from low to high cell numbers except in loops of four cells.
    std::vector<int> nb;
    std::vector<double> q;
    auto C = [&](long a, long b, double f) { nb.push_back(int(a)); nb.push_back(int(b)); q.push_back(f); };
    if (shape == 1) {
        long w = 1;
        while ((w + 1) * (w + 1) <= n) ++w;
        n = w * w;
        for (long y = 0; y < w; ++y) for (long x = 0; x < w; ++x) {
            if (x + 1 < w) C(y * w + x, y * w + x + 1, 1.0);
            if (y + 1 < w) C(y * w + x, (y + 1) * w + x, x % 3 ? 0.125 : -0.125);
        }
    }
    else if (shape == 3) for (long i = 1; i + 1 < n; ++i) { C(0, i, 0.5); C(n - 1, i, -0.5); }
    else {
        for (long i = 0; i + 1 < n; ++i) C(i, i + 1, 1.0);
        if (shape == 2) for (long i = 0; i + 3 < n; i += 8) C(i, i + 3, -0.25);
    }
    if (seed & 1) {                                  // listed in another order
        std::vector<int> p(q.size());
        for (size_t i = 0; i < p.size(); ++i) p[i] = int(i);
        r.shuffle(p);
        auto nb2 = nb; auto q2 = q;
        for (size_t i = 0; i < p.size(); ++i) { nb[2 * i] = nb2[2 * p[i]]; nb[2 * i + 1] = nb2[2 * p[i] + 1]; q[i] = q2[p[i]]; }
    }
    uint64_t nc = uint64_t(n), mc = q.size();
    std::map<int, double> inj, prod;
    if (perf == 0) { for (long k = 0; k < 3; ++k) { inj[int(k * n / 7)] = 1.0; prod[int(n - 1 - k * n / 7)] = -1.0; } }
    else for (long i = 0; i < n; ++i) if (perf == 1 ? i % 7 == 0 : i % 2 == 0) { inj[int(i)] = 1.0; if (i + 1 < n) prod[int(i + 1)] = -1.0; }
    uint64_t np = inj.size() + prod.size();
    auto pv = mkClient<std::vector<double>>(std::vector<double>(size_t(n), 1.0));
    for (size_t i = 0; i < pv->size(); ++i) (*pv)[i] = 0.5 + r.unit();
    auto wells = mkClient<std::map<CellSetID, CellSetValues>>();
    std::vector<int> ic, pc;
    for (auto& x : inj) ic.push_back(x.first);
    for (auto& x : prod) pc.push_back(x.first);
    r.shuffle(ic); r.shuffle(pc);
    std::unique_ptr<CellSetID> I, P;
    {
        rt::Client c;
        I.reset(new CellSetID("I")); P.reset(new CellSetID("P"));
        (*wells)[*I] = CellSetValues(inj.begin(), inj.end());
        (*wells)[*P] = CellSetValues(prod.begin(), prod.end());
    }
    auto list = mkClient<std::vector<int>>(nb);
    auto icells = mkClient<std::vector<int>>(ic), pcells = mkClient<std::vector<int>>(pc);
    uint64_t all = nc + mc * uint64_t(1 + phases) + np;

    Hold<FD::ConnectivityGraph> g;
    g.make(m, "ConnectivityGraph()", mc, [&](void* p) { new (p) FD::ConnectivityGraph(int(n), *list); });
    Hold<FD::ConnectionValues> f;
    f.make(m, "ConnectionValues()", mc * uint64_t(phases), [&](void* p) { new (p) FD::ConnectionValues(FD::ConnectionValues::NumConnections{size_t(mc)}, FD::ConnectionValues::NumPhases{size_t(phases)}); });
    m.run("writing values", mc, [&] { for (size_t i = 0; i < mc; ++i) for (long k = 0; k < phases; ++k) (*f.b)(FD::ConnectionValues::ConnID{i}, FD::ConnectionValues::PhaseID{size_t(k)}) = q[i] / double(phases); });
    Hold<std::vector<CellSet>> si, sp;
    si.make(m, "start set", np, [&](void* p) { new (p) std::vector<CellSet>{CellSet(*I, *icells)}; });
    sp.make(m, "start set", np, [&](void* p) { new (p) std::vector<CellSet>{CellSet(*P, *pcells)}; });
    if (shape != 2 && seed % 3 == 0) {
        // The solver by itself.
        Hold<AssembledConnections> d, u;
        d.make(m, "AssembledConnections()", 1, [&](void* p) { new (p) AssembledConnections; });
        u.make(m, "AssembledConnections()", 1, [&](void* p) { new (p) AssembledConnections; });
        m.run("addConnection()", mc, [&] { for (size_t i = 0; i < mc; ++i) { int a = nb[2 * i], b = nb[2 * i + 1]; if (q[i] < 0) std::swap(a, b); d.b->addConnection(a, b, std::fabs(q[i])); u.b->addConnection(b, a, std::fabs(q[i])); } });
        m.run("compress()", nc + mc, [&] { d.b->compress(nc); u.b->compress(nc); });
        auto src = mkClient<CellSetValues>((*wells)[*I]);
        Hold<FD::TracerTofSolver> s;
        s.make(m, "TracerTofSolver()", all, [&](void* p) { new (p) FD::TracerTofSolver(*d.b, *u.b, *pv, *src); });
        m.run("solveGlobal()", all, [&] { s.b->solveGlobal(); });
        m.run("solveLocal()", all, [&] { s.b->solveLocal(*src); });
        m.run("solveLocal() again", all, [&] { s.b->solveLocal(*src); });
        return;
    }
    Hold<FD::Toolbox> tb;
    tb.make(m, "Toolbox()", nc + mc, [&](void* p) { new (p) FD::Toolbox(*g.b); });
    m.run("assignPoreVolume()", nc, [&] { tb.b->assignPoreVolume(*pv); });
    m.run("assignConnectionFlux()", mc * uint64_t(phases), [&] { tb.b->assignConnectionFlux(*f.b); });
    m.run("assignInflowFlux()", np + nc / 16, [&] { tb.b->assignInflowFlux(*wells); });
    Hold<FD::Toolbox::Forward> a;
    Hold<FD::Toolbox::Reverse> b;
    a.make(m, "computeInjectionDiagnostics()", all, [&](void* p) { new (p) FD::Toolbox::Forward(tb.b->computeInjectionDiagnostics(*si.b)); });
    b.make(m, "computeProductionDiagnostics()", all, [&](void* p) { new (p) FD::Toolbox::Reverse(tb.b->computeProductionDiagnostics(*sp.b)); });
    m.run("computeInjectionDiagnostics() again", all, [&] { tb.b->computeInjectionDiagnostics(*si.b); });
    m.run("queries", nc, [&] { a.b->fd.startPoints(); a.b->fd.timeOfFlight(); a.b->fd.timeOfFlight(*I); b.b->fd.concentration(*P); });
    m.run("copy of a solution", nc, [&] { FD::Solution copy(a.b->fd); });
    Hold<FD::Graph> c;
    c.make(m, "flowCapacityStorageCapacityCurve()", nc, [&](void* p) { new (p) FD::Graph(FD::flowCapacityStorageCapacityCurve(*a.b, *b.b, *pv, 1.0)); });
    m.run("lorenzCoefficient()", nc, [&] { FD::lorenzCoefficient(*c.b); });
    m.run("sweepEfficiency()", nc, [&] { FD::sweepEfficiency(*c.b); });
    m.run("injectorProducerPairVolume()", nc, [&] { FD::injectorProducerPairVolume(*a.b, *b.b, *pv, *I, *P); });
    m.run("injectorProducerPairFlux()", nc, [&] { FD::injectorProducerPairFlux(*a.b, *b.b, *I, *P, *wells); });
}

void conns(Meter& m, long n, long seed, long shape)
{
    Rng r(mix(uint64_t(seed), 9002));
    std::vector<std::pair<int, int>> e;
    auto E = [&](long a, long b) { e.push_back({int(a), int(b)}); };
    for (long i = 0; i < n; ++i) switch (shape) {
    default:
    case 0: E(long(r.below(n)), long(r.below(n))); E(long(r.below(n)), long(r.below(n))); break;
    case 1: E(i, (i + 1) % n); E((i + 1) % n, i); break;
    case 2: E(i, i / 2); E(i, i / 2); E(i, i / 2); break;                              // repeated connections
    case 3: E(0, i); if (i % 2) E(0, i); break;                                        // one long row
    case 4: E(i, 0); break;                                                            // one column
    case 5: E(i % 5, 3); break;                                                        // very many repetitions
    }
    if (seed & 1) r.shuffle(e);
    Hold<AssembledConnections> a, b;
    a.make(m, "AssembledConnections()", 1, [&](void* p) { new (p) AssembledConnections; });
    bool w = !(seed & 2) || (seed & 4);
    auto fill = [&] { for (auto& x : e) if (w) a.b->addConnection(x.first, x.second, 0.5); else a.b->addConnection(x.first, x.second); };
    m.run("addConnection()", e.size(), fill);
    b.make(m, "copy of pending connections", e.size(), [&](void* p) { new (p) AssembledConnections(*a.b); });
    m.run("compress()", uint64_t(n) + e.size(), [&] { a.b->compress(size_t(n)); });
    m.run("addConnection() again", e.size(), fill);
    m.run("compress() again", uint64_t(n) + e.size(), [&] { a.b->compress(size_t(n) + 7); });
    m.run("copy assignment", uint64_t(n) + e.size(), [&] { *b.b = *a.b; });
    if (w) {
        m.run("neighbourhoods", uint64_t(n) + e.size(), [&] { for (long i = 0; i < n; ++i) { auto nb = a.b->cellNeighbourhood(int(i)); (void)nb; } });
        Null sink;
        std::ostream os(&sink);
        m.run("dump", uint64_t(n) + e.size(), [&] { os << *a.b; });
    }
}

void comps(Meter& m, long n, long seed, long shape)
{
    Rng r(mix(uint64_t(seed), 9003));
    std::vector<std::vector<int>> adj(n);
    auto E = [&](long a, long b) { adj[a].push_back(int(b)); };
    for (long i = 0; i < n; ++i) switch (shape) {
    default:
    case 0: E(i, long(r.below(n))); if (i % 2) E(i, long(r.below(n))); break;
    case 1: if (i + 1 < n) E(i, i + 1); break;
    case 2: if (i > 0) E(i, i - 1); break;
    case 3: E(i, (i + 1) % n); break;
    case 4: E(i, i % 4 == 3 ? i - 3 : std::min(i + 1, n - 1)); if (i % 4 == 0 && i + 9 < n) E(i, i + 9); break;
    case 5: if (i) { E(0, i); if (i % 3 == 0) E(i, 0); } break;
    case 6: break;
    case 7: if (i + 1 < n) { E(i, n - 1); E(i, i + 1); } break;
    }
    auto ia = mkClient<std::vector<size_t>>();
    auto ja = mkClient<std::vector<int>>();
    {
        rt::Client c;
        ia->push_back(0);
        for (auto& v : adj) { ja->insert(ja->end(), v.begin(), v.end()); ia->push_back(ja->size()); }
        if (ja->empty()) ja->push_back(0);
    }
    uint64_t units = uint64_t(n) + ja->size();
    std::vector<int> st;
    if (seed % 3 == 0) for (long k = 0; k < 3; ++k) st.push_back(int(k * n / 5));
    else for (long i = 0; i < n; i += seed % 3) st.push_back(int(i));
    if (seed & 1) r.shuffle(st);
    if (seed & 4) st.insert(st.end(), st.begin(), st.end());
    auto start = mkClient<std::vector<int>>(st);
    units += st.size();
    TarjanSCCResult* res = nullptr;
    TarjanWorkSpace* ws = nullptr;
    auto use = [&] {
        if (!res) rt::fail("unexpected-error", "component search gave no result");
        size_t nc = tarjan_get_numcomponents(res);
        m.run("reading components", nc + 1, [&] { size_t s = 0; for (size_t k = 0; k < nc; ++k) s += tarjan_get_strongcomponent(res, k).size; });
        m.run("tarjan_reverse_sccresult()", units, [&] { tarjan_reverse_sccresult(res); });
        m.run("destroy_tarjan_sccresult()", units, [&] { destroy_tarjan_sccresult(res); });
        res = nullptr;
    };
    m.run("tarjan()", units, [&] { res = tarjan(size_t(n), ia->data(), ja->data()); });
    use();
    m.run("create_tarjan_workspace()", uint64_t(n), [&] { ws = create_tarjan_workspace(size_t(n)); });
    for (int k = 0; k < 2; ++k) {
        m.run("tarjan_reachable_sccs()", units, [&] { res = tarjan_reachable_sccs(size_t(n), ia->data(), ja->data(), start->size(), start->data(), ws); });
        use();
    }
    m.run("destroy_tarjan_workspace()", uint64_t(n), [&] { destroy_tarjan_workspace(ws); });
}

void containers(Meter& m, long n, long seed)
{
    Rng r(mix(uint64_t(seed), 9004));
    std::vector<int> cells;
    for (long i = 0; i < n; ++i) cells.push_back(seed & 1 ? int(r.below(uint64_t(n))) : int(seed & 2 ? n - i : i));
    auto list = mkClient<std::vector<int>>(cells);
    std::unique_ptr<CellSetID> id = mkClient<CellSetID>("a set with a name");
    Hold<CellSet> a, b;
    a.make(m, "CellSet()", uint64_t(n), [&](void* p) { new (p) CellSet(*id, *list); });
    b.make(m, "CellSet()", 1, [&](void* p) { new (p) CellSet(*id); });
    // (an ordered vector would need a move of the tail for every insertion: not measured)
    m.run("copy assignment", uint64_t(n), [&] { *b.b = *a.b; });
    Hold<FD::ConnectionValues> v, w;
    v.make(m, "ConnectionValues()", uint64_t(n) * 2, [&](void* p) { new (p) FD::ConnectionValues(FD::ConnectionValues::NumConnections{size_t(n)}, FD::ConnectionValues::NumPhases{2}); });
    m.run("writing values", uint64_t(n) * 2, [&] { for (size_t i = 0; i < size_t(n); ++i) { (*v.b)(FD::ConnectionValues::ConnID{i}, FD::ConnectionValues::PhaseID{1}) = 1.0; } });
    w.make(m, "copy", uint64_t(n) * 2, [&](void* p) { new (p) FD::ConnectionValues(*v.b); });
    m.run("copy assignment", uint64_t(n) * 2, [&] { *w.b = *v.b; });
    Hold<Opm::RandomVector> x;
    x.make(m, "RandomVector()", 1000, [&](void* p) { new (p) Opm::RandomVector; });
    m.run("normal()", uint64_t(n), [&] { x.b->normal(size_t(n)); });
    m.run("index()", uint64_t(n), [&] { x.b->index(size_t(n), int(n)); });
}

} // namespace

void growthOp(const Op& o)
{
    Meter m;
    long n = std::max(200l, o.arg(1)), seed = o.arg(2), shape = o.arg(3);
    for (int pass = 0; pass < 2; ++pass) {
        m.second = pass == 1;
        m.at = 0;
        long k = pass ? 8 * n : n;
        switch (o.arg(0) % 4) {
        case 0: flow(m, k, seed, shape % 4, o.arg(4) % 3, 1 + o.arg(5) % 3); break;
        case 1: conns(m, k, seed, shape % 6); break;
        case 2: comps(m, k, seed, shape % 8); break;
        default: containers(m, k, seed); break;
        }
    }
}
