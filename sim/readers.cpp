// Finished objects queried by several threads.
#include "toolbox.hpp"
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <opm/utility/graph/AssembledConnections.hpp>
#include <opm/utility/graph/tarjan.h>
#include <algorithm>
#include <sstream>

namespace FD = Opm::FlowDiagnostics;
using FD::CellSetID;
using CV = FD::ConnectionValues;

struct ReaderObjects {
    FlowInputs inp;
    Box<FD::Toolbox> tb;
    Box<FD::Toolbox::Forward> f;
    Box<FD::Toolbox::Reverse> r;
    Box<Opm::AssembledConnections> down, up;
    Box<FD::ConnectivityGraph> cg;
    Box<CV> cv;
    Box<FD::CellSet> cs;
    TarjanSCCResult* comps = nullptr;
    std::vector<std::unique_ptr<CellSetID>> ids;
    std::unique_ptr<FD::CellSetValues> src;
    const FlowInputs::Pv* pv = nullptr;
    const FlowInputs::In* in = nullptr;
    double work = 0;
    explicit ReaderObjects(const Plan& p) : inp(p, "") {}
    ~ReaderObjects() { if (comps) { Spec s; auto c = comps; rt::call(s, [&] { destroy_tarjan_sccresult(c); }); } }
};

std::shared_ptr<ReaderObjects> makeReaderObjects(const Plan& p)
{
    auto x = std::make_shared<ReaderObjects>(p);
    long s = p.c("rseed", 1), fk = p.c("fk", 0);
    Spec sp; sp.op = "setup";
    auto ok = [](const Outcome& o, const char* w) { if (!o.ok()) rt::fail("unexpected-error", std::string(w) + " failed while building the shared objects"); };
    auto& inp = x->inp;
    const Mesh& m = inp.mesh[0];
    x->pv = &inp.pv(0, s, s % 3);
    x->in = &inp.in(0, s, 0);
    std::vector<double> src(m.nc, 0.0), snk(m.nc, 0.0);
    std::map<int, double> st, sk;
    for (auto& w : x->in->host) for (auto& q : w.second) {
        if (q.second > 0) { src[q.first] += q.second; st[q.first] = src[q.first]; }
        if (q.second < 0) { snk[q.first] -= q.second; sk[q.first] = snk[q.first]; }
    }
    // Recirculating flow only where the solve is quick.
    for (bool rev : {false, true}) if (fk == 1 && solveRef(flowGraph(m, inp.fl(0, s, 1, 1 + s % 2).host, rev), x->pv->host, rev ? snk : src, rev ? sk : st, false).slow) fk = 0;
    auto& fl = inp.fl(0, s, fk, 1 + s % 2);
    const FD::ConnectivityGraph& g = *inp.graph[0];
    ok(x->tb.build(sp, [&](void* q) { new (q) FD::Toolbox(g); }), "toolbox");
    ok(rt::call(sp, [&] { x->tb->assignPoreVolume(*x->pv->obj); x->tb->assignConnectionFlux(*fl.obj); x->tb->assignInflowFlux(*x->in->obj); }), "inputs");
    auto& si = inp.st(0, x->in, true, s, 0);
    auto& so = inp.st(0, x->in, false, s, 0);
    ok(x->f.build(sp, [&](void* q) { new (q) FD::Toolbox::Forward(x->tb->computeInjectionDiagnostics(*si.obj)); }), "injection diagnostics");
    ok(x->r.build(sp, [&](void* q) { new (q) FD::Toolbox::Reverse(x->tb->computeProductionDiagnostics(*so.obj)); }), "production diagnostics");
    Digraph d = flowGraph(m, fl.host, false);
    ok(x->down.build(sp, [&](void* q) { new (q) Opm::AssembledConnections(); }), "graph");
    ok(x->up.build(sp, [&](void* q) { new (q) Opm::AssembledConnections(); }), "graph");
    ok(rt::call(sp, [&] {
        for (int u = 0; u < m.nc; ++u) for (auto& e : d.out[u]) { x->down->addConnection(u, e.first, e.second); x->up->addConnection(e.first, u, e.second); }
        x->down->compress(size_t(m.nc)); x->up->compress(size_t(m.nc));
    }), "graph");
    ok(rt::call(sp, [&] { x->comps = tarjan(x->down->numRows(), x->down->startPointers().data(), x->down->neighbourhood().data()); }), "components");
    if (!x->comps) rt::fail("unexpected-error", "tarjan failed while building the shared objects");
    ok(x->cg.build(sp, [&](void* q) { new (q) FD::ConnectivityGraph(g); }), "connectivity");
    ok(x->cv.build(sp, [&](void* q) { new (q) CV(*fl.obj); }), "values");
    auto id = mkClient<CellSetID>("a cell set with a long name for sharing");
    ok(x->cs.build(sp, [&](void* q) { new (q) FD::CellSet(*id); }), "cell set");
    ok(rt::call(sp, [&] { for (int i = 0; i < 17; ++i) x->cs->insert(i * 5 % 23); }), "cell set");
    for (int i = 0; i < 10; ++i) x->ids.push_back(mkClient<CellSetID>(wellName(uint64_t(i))));
    x->ids.push_back(mkClient<CellSetID>("no such well"));
    std::map<int, double> sv;
    for (int i = 0; i < m.nc; ++i) if (src[i] > 0) sv[i] = src[i];
    x->src = mkClient<FD::CellSetValues>(sv);
    return x;
}

namespace {
struct ReaderWorld : World {
    std::shared_ptr<ReaderObjects> x;
    explicit ReaderWorld(std::shared_ptr<ReaderObjects> o) : x(std::move(o)) {}
    const FD::Solution& sol(long k) const { return k % 2 ? x->r->fd : x->f->fd; }
    void done(const Outcome& r, uint64_t h) { rec(r.ok() ? h : uint64_t(100 + r.kind)); if (!r.ok() && !r.fired) rt::fail("valid-call-rejected", "a query failed"); }

    static uint64_t hashSol(const FD::Solution& s, const std::vector<std::unique_ptr<CellSetID>>& ids)
    {
        Hash h;
        std::vector<std::string> names;
        auto st = s.startPoints();
        for (auto& i : st) { std::string n = i.to_string(); rt::Scope q(rt::HOST); names.push_back(n); }
        { rt::Scope q(rt::HOST); std::sort(names.begin(), names.end()); for (auto& n : names) h.s(n); names.clear(); names.shrink_to_fit(); }
        auto& g = s.timeOfFlight();
        rt::noteRead(g.data(), g.size() * 8);
        h.v(g);
        for (auto& id : ids) { auto t = s.timeOfFlight(*id); auto c = s.concentration(*id); h.m(t).m(c); }
        return h.h;
    }
    static uint64_t hashGraph(const Opm::AssembledConnections& a)
    {
        Hash h;
        h.u(a.numRows());
        rt::noteRead(a.startPointers().data(), a.startPointers().size() * sizeof(size_t));
        rt::noteRead(a.neighbourhood().data(), a.neighbourhood().size() * sizeof(int));
        rt::noteRead(a.connectionWeight().data(), a.connectionWeight().size() * 8);
        h.v(a.startPointers()).v(a.neighbourhood()).v(a.connectionWeight());
        for (size_t r = 0; r < a.numRows(); ++r) for (auto c : a.cellNeighbourhood(int(r))) h.u(uint64_t(c.neighbour)).d(c.weight);
        return h.h;
    }
    uint64_t hashComps()
    {
        Hash h;
        size_t n = tarjan_get_numcomponents(x->comps);
        for (size_t i = 0; i < n; ++i) { auto t = tarjan_get_strongcomponent(x->comps, i); rt::noteRead(t.vertex, t.size * sizeof(int)); h.b(t.vertex, t.size * sizeof(int)); }
        return h.u(n).h;
    }
    static uint64_t hashCg(const FD::ConnectivityGraph& g)
    {
        Hash h;
        h.u(g.numCells()).u(g.numConnections());
        for (size_t i = 0; i < g.numConnections(); ++i) { auto c = g.connection(i); h.u(uint64_t(c.first)).u(uint64_t(c.second)); }
        return h.h;
    }
    static uint64_t hashCv(const CV& v)
    {
        Hash h;
        h.u(v.numConnections()).u(v.numPhases());
        for (size_t i = 0; i < v.numConnections(); ++i) for (size_t p = 0; p < v.numPhases(); ++p) h.d(v(CV::ConnID{i}, CV::PhaseID{p}));
        return h.h;
    }
    static uint64_t hashCs(const FD::CellSet& s)
    {
        uint64_t sum = 0, n = 0;
        for (int c : s) { sum += mix(uint64_t(c), 3); ++n; }
        std::string id = s.id().to_string();
        return Hash().u(sum).u(n).s(id).h;
    }
    uint64_t derive(long a, long b)
    {
        const auto& pv = *x->pv->obj;
        Hash h;
        auto g1 = FD::flowCapacityStorageCapacityCurve(*x->f, *x->r, pv, a % 2 ? 1.0 : 0.5);
        auto g2 = FD::sweepEfficiency(g1);
        h.v(g1.first).v(g1.second).v(g2.first).v(g2.second).d(FD::lorenzCoefficient(g1));
        auto &i = *x->ids[size_t(a) % 11], &j = *x->ids[size_t(b) % 11];
        h.d(FD::injectorProducerPairVolume(*x->f, *x->r, pv, i, j));
        if (x->in->obj->count(i) && x->in->obj->count(j)) { auto q = FD::injectorProducerPairFlux(*x->f, *x->r, i, j, *x->in->obj); h.d(q.first).d(q.second); }
        return h.h;
    }
    uint64_t dumpText(const Opm::AssembledConnections& a)
    {
        std::ostringstream os;
        os << a;
        return Hash().s(os.str()).h;
    }
    uint64_t solve(long k)
    {
        FD::TracerTofSolver s(*x->down, *x->up, *x->pv->obj, *x->src);
        Hash h;
        if (k % 2) { auto l = s.solveLocal(*x->src); h.m(l.tof).m(l.concentration); }
        else h.v(s.solveGlobal());
        return h.h;
    }
    void op(const Op& o) override
    {
        uint64_t h = 0;
        Outcome r;
        long a = o.arg(0), b = o.arg(1);
        const std::string& n = o.name;
        if (n == "qsol") r = act(o, [&] { h = hashSol(sol(a), x->ids); });
        else if (n == "qtof") r = act(o, [&] { auto t = sol(a).timeOfFlight(*x->ids[size_t(b) % 11]); h = Hash().m(t).h; });
        else if (n == "qconc") r = act(o, [&] { auto t = sol(a).concentration(*x->ids[size_t(b) % 11]); h = Hash().m(t).h; });
        else if (n == "qcopy") r = act(o, [&] { FD::Solution c(sol(a)); h = hashSol(c, x->ids); });
        else if (n == "qderive") r = act(o, [&] { h = derive(a, b); });
        else if (n == "qgraph") r = act(o, [&] { h = hashGraph(a % 2 ? *x->up : *x->down); });
        else if (n == "qgcopy") r = act(o, [&] { Opm::AssembledConnections c(a % 2 ? *x->up : *x->down); h = hashGraph(c); });
        else if (n == "qdump") r = act(o, [&] { h = dumpText(a % 2 ? *x->up : *x->down); });
        else if (n == "qcomp") r = act(o, [&] { h = hashComps(); });
        else if (n == "qscc") {
            TarjanSCCResult* p = nullptr;
            r = act(o, [&] { p = tarjan(x->down->numRows(), x->down->startPointers().data(), x->down->neighbourhood().data()); });
            if (p) { Spec s; rt::call(s, [&] { h = tarjan_get_numcomponents(p); destroy_tarjan_sccresult(p); }); }
        }
        else if (n == "qsolve") r = act(o, [&] { h = solve(a); });
        else if (n == "qcg") r = act(o, [&] { h = hashCg(*x->cg); });
        else if (n == "qcgcopy") r = act(o, [&] { FD::ConnectivityGraph c(*x->cg); h = hashCg(c); });
        else if (n == "qcv") r = act(o, [&] { h = hashCv(*x->cv); });
        else if (n == "qcvcopy") r = act(o, [&] { CV c(*x->cv); h = hashCv(c); });
        else if (n == "qcs") r = act(o, [&] { h = hashCs(*x->cs); });
        else if (n == "qcscopy") r = act(o, [&] { FD::CellSet c(*x->cs); h = hashCs(c); });
        else if (n == "qeverything") {
            r = act(o, [&] {
                Hash q;
                q.u(hashSol(sol(0), x->ids)).u(hashSol(sol(1), x->ids)).u(hashGraph(*x->up)).u(hashGraph(*x->down)).u(hashComps()).u(hashCg(*x->cg)).u(hashCv(*x->cv)).u(hashCs(*x->cs)).u(derive(0, 1));
                h = q.h;
            });
        }
        else rt::fail("harness", "unknown operation " + o.name);
        done(r, h);
    }
};
} // namespace

std::unique_ptr<World> makeReaderWorld(std::shared_ptr<ReaderObjects> o) { return std::unique_ptr<World>(new ReaderWorld(std::move(o))); }

void genReaders(Plan& p, Rng& r, int n, int flags, int thr)
{
    static const char* names[] = {"qsol", "qtof", "qtof", "qconc", "qconc", "qcopy", "qderive", "qgraph", "qgcopy", "qdump", "qcomp", "qscc", "qsolve", "qcg", "qcgcopy", "qcv", "qcvcopy", "qcs", "qcscopy"};
    int hot = r.chance(500) ? int(r.below(19)) : -1;
    for (int i = 0; i < n; ++i) {
        p.add(hot >= 0 && r.chance(500) ? names[hot] : names[r.below(19)], {long(r.below(2)), long(r.below(11))}, thr);
        if ((flags & 2) && r.chance(300)) p.ops.back().f = randomFault(r);
    }
}
