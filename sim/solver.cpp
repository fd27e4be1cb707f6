// TracerTofSolver used directly, many solves on one object.
#include "toolbox.hpp"
#include <opm/flowdiagnostics/TracerTofSolver.hpp>
#include <cmath>
#include <cstring>

namespace FD = Opm::FlowDiagnostics;
using Opm::AssembledConnections;

namespace {

struct SolverWorld : World {
    struct Case {
        std::unique_ptr<AssembledConnections> down, up;
        std::unique_ptr<std::vector<double>> pv;
        std::unique_ptr<FD::CellSetValues> src;
        Digraph g;
        std::vector<double> source, pvHost;
        int nc = 0, edges = 0;
    };
    Plan plan;
    Case cs[2];
    Box<FD::TracerTofSolver> sol[2];
    bool refCheck, twinCheck;
    std::unique_ptr<Pristine> pristine;

    explicit SolverWorld(const Plan& p) : plan(p)
    {
        refCheck = p.c("ref", 1);
        twinCheck = p.c("twin", 1);
        for (int k = 0; k < 2; ++k) {
            std::string s = k ? "m2" : "m1";
            Mesh m = makeMesh(int(p.c(s + "k", 0)), int(p.c(s + "a", 3)), int(p.c(s + "b", 2)), uint64_t(p.c(s + "s", 1)));
            Flux f = makeFlux(m, uint64_t(p.c(s + "fs", 7)), int(p.c(s + "fk", 1)), 1);
            Wells w = makeWells(m.nc, uint64_t(p.c(s + "ws", 3)), int(p.c(s + "wk", 0)));
            int unit = int(p.c(s + "u", 0));
            for (auto& x : f.v) x = std::ldexp(x, unit);
            for (auto& y : w) for (auto& x : y.second) x.second = std::ldexp(x.second, unit);
            Case& c = cs[k];
            bool rev = p.c(s + "rev", 0);
            c.g = flowGraph(m, f, rev);
            c.nc = m.nc;
            c.pvHost = makePv(m.nc, uint64_t(p.c(s + "ps", 5)), int(p.c(s + "pk", 0)));
            for (auto& x : c.pvHost) x = std::ldexp(x, unit);
            c.source.assign(m.nc, 0.0);
            FD::CellSetValues src;
            for (auto& x : w) for (auto& q : x.second) if (rev ? q.second < 0 : q.second > 0) c.source[q.first] += std::fabs(q.second);
            for (int i = 0; i < m.nc; ++i) if (c.source[i] > 0) src[i] = c.source[i];
            rt::Client cl;
            c.down.reset(new AssembledConnections); c.up.reset(new AssembledConnections);
            for (int u = 0; u < m.nc; ++u) for (auto& e : c.g.out[u]) { c.down->addConnection(u, e.first, e.second); c.up->addConnection(e.first, u, e.second); ++c.edges; }
            for (int e = 0; e < m.nconn(); ++e) if (m.nb[2 * e] == m.nb[2 * e + 1] && f.total(e) != 0) { int u = m.nb[2 * e]; c.down->addConnection(u, u, std::fabs(f.total(e))); c.up->addConnection(u, u, std::fabs(f.total(e))); ++c.edges; }
            c.down->compress(m.nc); c.up->compress(m.nc);
            c.pv.reset(new std::vector<double>(c.pvHost));
            c.src.reset(new FD::CellSetValues(src));
        }
    }
    bool make(const Op& o, int k)
    {
        Case& c = cs[k];
        Outcome r = sol[k].build(spec(o, 400000 + 3000ull * (c.nc + c.edges)), [&](void* p) { new (p) FD::TracerTofSolver(*c.down, *c.up, *c.pv, *c.src); });
        noteOutcome(r);
        expect(MUST_OK, r, "TracerTofSolver()");
        return r.ok();
    }
    void startSet(const Op& o, const Case& c, std::map<int, double>& st, Expect& e)
    {
        Rng r(mix(uint64_t(o.arg(1)), 31));
        long k = o.arg(2);
        e = MUST_OK;
        for (int i = 0; i < c.nc; ++i) if (c.source[i] > 0 && r.chance(600)) st[i] = c.source[i] * (r.chance(500) ? 1.0 : r.chance(900) ? 0.5 : 1.5);
        if (st.empty()) for (int i = 0; i < c.nc && st.empty(); ++i) if (c.source[i] > 0) st[i] = c.source[i];
        if (k == 2) st.clear();
        if (k == 3 && !st.empty()) { st.begin()->second = 0.0; e = ANY; }
        if (k == 4) {                                       // cells without a source, alone or among the others
            if (r.chance(400)) st.clear();
            for (int t = r.range(1, 3); t > 0; --t) { int i = int(r.below(c.nc)); if (!(c.source[i] > 0)) st[i] = r.chance(700) ? 0.0 : 0.125; }
            e = ANY;
        }
        if (k == 5) {
            static const double neg[] = {-0.25, -1e-13, -5e-324, -1e300};
            double bad = neg[r.chance(500) ? 0 : r.below(4)];
            if (st.empty()) st[int(r.below(c.nc))] = bad;
            else { auto i = st.begin(); std::advance(i, long(r.below(st.size()))); i->second = bad; }
            e = MUST_FAIL;
        }
    }

    void op(const Op& o) override
    {
        int k = int(o.arg(0)) & 1;
        Case& c = cs[k];
        if (o.name == "snew") { bool ok = make(o, k); rec(ok); return; }
        if (!sol[k]) { Op n; n.name = "TracerTofSolver()"; make(n, k); if (!sol[k]) rt::fail("unexpected-error", "cannot construct the solver"); }
        if (o.name == "sglob") {
            std::map<int, double> st;
            for (int i = 0; i < c.nc; ++i) if (c.source[i] > 0) st[i] = c.source[i];
            RefSol ref = solveRef(c.g, c.pvHost, c.source, st, false);
            if (ref.slow) { probe(Probe::SKIPPED); rec(0x5711); return; }
            note(ref);
            uint64_t budget = 400000 + uint64_t(600 * (ref.work + c.nc)) ;
            std::vector<double> t;
            Outcome out = act(o, [&] { t = sol[k]->solveGlobal(); }, budget);
            if (out.fired && !out.ok()) probe(Probe::FAILEDRUN);
            expect(MUST_OK, out, "solveGlobal");
            if (!out.ok()) { rec(out.kind); return; }
            Hash h; h.v(t);
            rec(h.h);
            if (!checks) return;
            char b[200];
            if (int(t.size()) != c.nc) rt::fail("wrong-size", "global time-of-flight has the wrong length");
            if (refCheck && ref.usable) {
                probe(Probe::REFCHK);
                for (int i = 0; i < c.nc; ++i) if (!(std::fabs(t[i] - ref.tof[i]) <= ref.tolTof[i])) {
                    snprintf(b, sizeof b, "global time-of-flight in cell %d is %.12g, the upwind equations give %.12g (tolerance %.3g)", i, t[i], ref.tof[i], ref.tolTof[i]);
                    rt::fail("wrong-time-of-flight", b);
                }
            }
            if (twinCheck) {
                probe(Probe::TWIN);
                Box<FD::TracerTofSolver> tw;
                std::vector<double> t2;
                Spec sp; sp.op = "twin";
                tw.build(sp, [&](void* p) { new (p) FD::TracerTofSolver(*c.down, *c.up, *c.pv, *c.src); });
                sure("twin solveGlobal", [&] { t2 = tw->solveGlobal(); });
                if (t2.size() != t.size() || memcmp(t.data(), t2.data(), t.size() * 8)) rt::fail("history-dependence", "solveGlobal on a used solver differs from that of a fresh solver");
                askPristine(o, h.h);
            }
        }
        else if (o.name == "sloc") {
            std::map<int, double> st;
            Expect e;
            startSet(o, c, st, e);
            RefSol ref;
            uint64_t budget = 400000 + 3000ull * (c.nc + c.edges);
            if (e != MUST_FAIL) {
                ref = solveRef(c.g, c.pvHost, c.source, st, true);
                if (ref.slow) { probe(Probe::SKIPPED); rec(0x5711); return; }
                note(ref);
            }
            budget += uint64_t(600 * (ref.work + c.nc));
            if (o.arg(2) == 4) { ref.usable = false; budget *= 4; }
            auto start = mkClient<FD::CellSetValues>(st);
            FD::TracerTofSolver::LocalSolution ls;
            Outcome out = act(o, [&] { ls = sol[k]->solveLocal(*start); }, budget);
            if (out.fired && !out.ok()) probe(Probe::FAILEDRUN);
            if (e == MUST_FAIL && !out.ok()) { probe(Probe::NEGATIVE); rt::countFault(rt::F_NEGSRC); }
            expect(e, out, "solveLocal");
            uint64_t h = out.ok() ? Hash().m(ls.tof).m(ls.concentration).h : 100 + out.kind;
            rec(h);
            if (!checks) return;
            if (out.ok()) {
                char b[240];
                for (int i = 0; i < c.nc; ++i) {
                    bool want = ref.reach[i];
                    if (bool(ls.tof.count(i)) != want || bool(ls.concentration.count(i)) != want) {
                        snprintf(b, sizeof b, "cell %d is %s from the start set but %s the local solution", i, want ? "reachable" : "not reachable", want ? "missing in" : "present in");
                        rt::fail("wrong-tracer-cells", b);
                    }
                    if (!want || !ref.usable || !refCheck) continue;
                    double cv = ls.concentration[i], tv = ls.tof[i];
                    if (!(std::fabs(cv - ref.conc[i]) <= ref.tolConc[i])) { snprintf(b, sizeof b, "tracer in cell %d is %.12g, the upwind equations give %.12g", i, cv, ref.conc[i]); rt::fail("wrong-tracer", b); }
                    if (!(std::fabs(tv - ref.tof[i]) <= ref.tolTof[i])) { snprintf(b, sizeof b, "local time-of-flight in cell %d is %.12g, the upwind equations give %.12g (tolerance %.3g)", i, tv, ref.tof[i], ref.tolTof[i]); rt::fail("wrong-time-of-flight", b); }
                }
                if (refCheck && ref.usable) probe(Probe::REFCHK);
            }
            if (twinCheck && !out.fired) {
                probe(Probe::TWIN);
                Box<FD::TracerTofSolver> tw;
                FD::TracerTofSolver::LocalSolution l2;
                Spec sp; sp.op = "twin";
                tw.build(sp, [&](void* p) { new (p) FD::TracerTofSolver(*c.down, *c.up, *c.pv, *c.src); });
                Outcome o2 = rt::call(sp, [&] { l2 = tw->solveLocal(*start); });
                if (o2.ok() != out.ok()) rt::fail("history-dependence", "solveLocal on a used solver and on a fresh solver do not agree on success");
                if (out.ok() && h != Hash().m(l2.tof).m(l2.concentration).h) rt::fail("history-dependence", "solveLocal on a used solver differs from that of a fresh solver");
                if (out.ok()) askPristine(o, h);
            }
        }
        else rt::fail("harness", "unknown operation " + o.name);
    }
    void askPristine(const Op& o, uint64_t h)
    {
        if (!pristine) return;
        Op n; n.name = "snew"; n.a = {o.arg(0)};
        Op q = o; q.f = Fault();
        auto v = pristine->ask({n, q});
        if (v.empty() || v.back() != h) rt::fail("history-dependence", "the result differs from that of a fresh solver in a fresh process");
    }
    static void note(const RefSol& r)
    {
        if (r.cyclic) probe(Probe::CYCLIC);
        if (r.capped) probe(Probe::CAPPED);
        if (r.closed) probe(Probe::CLOSED);
    }
    void finish() override { for (auto& s : sol) s.destroy(); }
};

} // namespace

std::unique_ptr<World> makeSolverWorld(const Plan& p, const char*)
{
    std::unique_ptr<SolverWorld> w(new SolverWorld(p));
    if (p.c("pristine") && !probing) {
        w->pristine.reset(new Pristine);
        Plan q = p; q.cfg["pristine"] = 0;
        w->pristine->start([q](const std::vector<Op>& ops) {
            SolverWorld x(q);
            x.checks = false;
            return playOps(x, ops);
        });
    }
    return w;
}
