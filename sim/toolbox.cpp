// Toolbox, its solutions and the derived quantities.
#include "worlds.hpp"
#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/DerivedQuantities.hpp>
#include <opm/flowdiagnostics/Toolbox.hpp>
#include <algorithm>
#include <cmath>
#include <cstring>

#include "toolbox.hpp"

namespace FD = Opm::FlowDiagnostics;
using FD::CellSetID;

// ------------------------------------------------------------------ inputs
std::shared_ptr<FlowInputs> FlowInputs::shared;
FlowInputs::FlowInputs(const Plan& p, const std::string& pre)
{
    perm = uint64_t(p.c("perm", 0));
    rough = p.c("rough", 0);
    for (int k = 0; k < 2; ++k) {
        std::string s = pre + (k ? "m2" : "m1");
        unit[k] = int(p.c(s + "u", 0));
        mesh[k] = makeMesh(int(p.c(s + "k", 0)), int(p.c(s + "a", 3)), int(p.c(s + "b", 2)), uint64_t(p.c(s + "s", 1)));
        rt::Client c;
        graph[k].reset(new FD::ConnectivityGraph(mesh[k].nc, mesh[k].nb));
    }
}
const FlowInputs::Pv& FlowInputs::pv(int mesh_, long s, long k)
{
    auto& e = pvs[{mesh_, s, k}];
    if (!e.obj) {
        int nc = mesh[mesh_].nc;
        e.bad = k == 10 || k == 11;
        e.host = makePv(nc, uint64_t(s), int(k));
        for (auto& x : e.host) x = std::ldexp(x, unit[mesh_]);
        if (k == 10) e.host.push_back(1.0);
        if (k == 11) { if (e.host.empty()) e.bad = false; else e.host.pop_back(); }
        e.obj = mkClient<std::vector<double>>(e.host);
    }
    return e;
}
const FlowInputs::Fl& FlowInputs::fl(int mesh_, long s, long k, long nph)
{
    auto& e = fls[{mesh_, s, k, nph}];
    if (!e.obj) {
        const Mesh& m = mesh[mesh_];
        e.host = makeFlux(m, uint64_t(s), int(k % 10), int(nph));
        for (auto& x : e.host.v) x = std::ldexp(x, unit[mesh_]);
        int nconn = m.nconn();
        e.bad = k >= 10;
        if (k >= 10 && k < 20) nconn += 1;
        if (k >= 20) { if (nconn) nconn -= 1; else e.bad = false; }
        rt::Client c;
        using CV = FD::ConnectionValues;
        e.obj.reset(new CV(CV::NumConnections{size_t(nconn)}, CV::NumPhases{size_t(nph)}));
        for (int i = 0; i < nconn && i < m.nconn(); ++i) for (int ph = 0; ph < nph; ++ph)
            (*e.obj)(CV::ConnID{size_t(i)}, CV::PhaseID{size_t(ph)}) = e.host.v[size_t(i) * nph + ph];
    }
    return e;
}
const FlowInputs::In& FlowInputs::in(int mesh_, long s, long k)
{
    auto& e = ins[{mesh_, s, k}];
    if (!e.obj) {
        int nc = mesh[mesh_].nc;
        e.host = makeWells(nc, uint64_t(s), int(k % 10));
        for (auto& w : e.host) for (auto& x : w.second) x.second = std::ldexp(x.second, unit[mesh_]);
        if (rough) for (auto& w : e.host) for (auto& x : w.second) x.second *= 1.0 / 3.0 + 1e-3 * double(w.first.size());      // sums depend on their order
        e.key = mix(mix(uint64_t(s), uint64_t(k)), 1) | 1;
        e.bad = k >= 10;
        if (k >= 10) {
            Rng r(mix(uint64_t(s), 77));
            int bad = k < 20 ? nc + int(r.below(3)) : k < 30 ? -1 - int(r.below(3)) : nc + 100 + int(r.below(100000));
            auto i = e.host.begin();
            if (i == e.host.end()) e.host["W"][bad] = 0.5;
            else { std::advance(i, long(r.below(e.host.size()))); i->second[bad] = r.chance(500) ? 0.001953125 : -0.001953125; }
        }
        rt::Client c;
        e.obj.reset(new std::map<CellSetID, FD::CellSetValues>());
        std::vector<const Wells::value_type*> order;                       // the map is the same whatever the order of insertion
        for (auto& w : e.host) order.push_back(&w);
        if (perm) { Rng r3(mix(mix(uint64_t(s), 57), perm)); r3.shuffle(order); }
        for (auto* w : order) (*e.obj)[CellSetID(w->first)] = w->second;
    }
    return e;
}
const FlowInputs::St& FlowInputs::st(int mesh_, const In* in_, bool inj, long s, long k)
{
    auto key = std::make_tuple(mesh_, in_ ? in_->key : 0ul, inj, s, k);
    auto& e = sts[key];
    if (!e.obj) {
        Rng r(mix(mix(uint64_t(s), 55), inj)), r2(mix(mix(uint64_t(s), 56), perm));
        int nc = mesh[mesh_].nc;
        std::set<int> all;
        std::vector<std::string> ids, other;
        static const Wells none;
        const Wells& w = in_ ? in_->host : none;
        for (auto& x : w) {
            bool any = false;
            for (auto& q : x.second) if (inj ? q.second > 0 : q.second < 0) { any = true; all.insert(q.first); }
            (any ? ids : other).push_back(x.first);
        }
        e.expect = MUST_OK;
        std::vector<std::pair<std::string, std::vector<int>>> sets;
        for (auto& id : ids) {
            if (k == 1 && r.chance(500)) continue;
            std::vector<int> cells;
            for (auto& q : w.at(id)) if (inj ? q.second > 0 : q.second < 0) if (k != 5 && !(k == 1 && r.chance(200))) cells.push_back(q.first);
            if (r.chance(200) && !cells.empty()) cells.push_back(cells[0]);          // duplicate
            r2.shuffle(cells);
            sets.push_back({id, cells});
        }
        if (k == 2) sets.clear();
        if (k == 3) sets.push_back({"no such well", all.empty() ? std::vector<int>() : std::vector<int>{*all.begin()}});
        if (k == 4) {
            int c = -1;
            for (int t = 0; t < 4 * nc && c < 0; ++t) { int x = int(r.below(nc)); if (!all.count(x)) c = x; }
            if (c < 0) c = nc + 1;
            if (sets.empty()) { if (!ids.empty()) sets.push_back({ids[0], {c}}); }
            else sets[r.below(sets.size())].second.push_back(c);
        }
        if (k == 7 && !sets.empty()) sets.push_back({sets[r.below(sets.size())].first, {}});       // a well listed twice
        if (k == 6 && !other.empty()) sets.push_back({other[r.below(other.size())], {}});
        r2.shuffle(sets);
        for (auto& x : sets) {
            bool known = false;
            for (auto& id : ids) if (id == x.first) known = true;
            if (!known) e.expect = MUST_FAIL;
            for (int c : x.second) if (!all.count(c)) e.expect = MUST_FAIL;
            e.ids.push_back(x.first);
        }
        if (perm && e.ids.size() > 1) rt::countFault(rt::F_REORDER);
        rt::Client c;
        e.obj.reset(new std::vector<FD::CellSet>());
        for (auto& x : sets) {
            // Alternate between the two ways of filling a set.
            if (r2.chance(500)) e.obj->push_back(FD::CellSet(CellSetID(x.first), x.second));
            else { FD::CellSet cs{CellSetID(x.first)}; for (int cell : x.second) cs.insert(cell); e.obj->push_back(cs); }
        }
    }
    return e;
}

uint64_t FlowInputs::digest() const
{
    Hash h;
    for (auto& e : pvs) h.v(*e.second.obj);
    for (auto& e : fls) {
        auto& f = *e.second.obj;
        h.u(f.numConnections()).u(f.numPhases());
        for (size_t i = 0; i < f.numConnections(); ++i) for (size_t p = 0; p < f.numPhases(); ++p)
            h.d(static_cast<const FD::ConnectionValues&>(f)(FD::ConnectionValues::ConnID{i}, FD::ConnectionValues::PhaseID{p}));
    }
    for (auto& e : ins) for (auto& w : *e.second.obj) h.s(w.first.to_string()).m(w.second);
    for (auto& g : graph) if (g) { h.u(g->numCells()); for (size_t i = 0; i < g->numConnections(); ++i) h.u(g->connection(i).first).u(g->connection(i).second); }
    return h.h;
}

// ------------------------------------------------------------------ solutions
SolModel readSolution(const FD::Solution& s, World& w, const std::vector<std::string>& extra)
{
    SolModel m;
    std::vector<CellSetID> ids;
    w.sure("startPoints()", [&] { ids = s.startPoints(); });
    for (auto& i : ids) m.start.push_back(i.to_string());
    std::sort(m.start.begin(), m.start.end());
    w.sure("timeOfFlight()", [&] {
        const std::vector<double>& g = s.timeOfFlight();
        rt::noteRead(g.data(), g.size() * sizeof(double));
        rt::Scope h(rt::HOST);
        m.g.assign(g.data(), g.data() + g.size());
    });
    std::vector<std::string> all = m.start;
    for (auto& e : extra) if (std::find(all.begin(), all.end(), e) == all.end()) all.push_back(e);
    for (auto& e : all) {
        std::unique_ptr<CellSetID> id = mkClient<CellSetID>(e);
        FD::CellSetValues t, c;
        w.sure("timeOfFlight(id)", [&] { t = s.timeOfFlight(*id); });
        w.sure("concentration(id)", [&] { c = s.concentration(*id); });
        if (!t.empty()) m.t[e].insert(t.begin(), t.end());
        if (!c.empty()) m.c[e].insert(c.begin(), c.end());
    }
    return m;
}
uint64_t SolModel::hash() const
{
    Hash h;
    for (auto& x : start) h.s(x);
    h.v(g);
    for (auto& x : t) h.s(x.first).m(x.second);
    for (auto& x : c) h.s(x.first).m(x.second);
    return h.h;
}
static bool sameMap(const std::map<int, double>& a, const std::map<int, double>& b)
{
    if (a.size() != b.size()) return false;
    for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
        if (i->first != j->first || memcmp(&i->second, &j->second, 8) != 0) return false;
    return true;
}
std::string SolModel::diff(const SolModel& o) const
{
    char b[200];
    if (start != o.start) return "the list of start points differs";
    if (g.size() != o.g.size()) return "the global time-of-flight has another length";
    for (size_t i = 0; i < g.size(); ++i) if (memcmp(&g[i], &o.g[i], 8)) { snprintf(b, sizeof b, "global time-of-flight in cell %zu: %.17g, expected %.17g", i, g[i], o.g[i]); return b; }
    std::set<std::string> ids;
    for (auto* mm : {&t, &c, &o.t, &o.c}) for (auto& e : *mm) ids.insert(e.first);
    static const std::map<int, double> none;
    for (auto& id : ids) {
        auto get = [&](const std::map<std::string, std::map<int, double>>& m) -> const std::map<int, double>& { auto i = m.find(id); return i == m.end() ? none : i->second; };
        if (!sameMap(get(t), get(o.t))) return "time-of-flight of tracer '" + id + "' differs";
        if (!sameMap(get(c), get(o.c))) return "concentration of tracer '" + id + "' differs";
    }
    return "";
}

// ------------------------------------------------------------------ world
namespace {

struct Slot {
    Box<FD::Toolbox> tb;
    int mesh = 0;
    bool hasPv = false, hasFl = false, hasIn = false;
    Op pv, fl, in;
};
struct Res {
    Box<FD::Toolbox::Forward> f;
    Box<FD::Toolbox::Reverse> r;
    Box<FD::Solution> s;
    SolModel model;
    int mesh = 0;
    long pvS = 0, pvK = 0;
    Op in;
    bool hasIn = false;
    const FD::Solution& sol() const { return f ? f->fd : r ? r->fd : *s; }
    bool live() const { return f || r || s; }
};

struct ToolboxWorld : World {
    std::shared_ptr<FlowInputs> ptr;
    FlowInputs& inp;
    Plan plan;
    Slot slot[2];
    std::vector<std::unique_ptr<Res>> res;
    std::map<std::pair<size_t, size_t>, uint64_t> derived;
    bool refCheck, twinCheck, keepAll;
    int maxRes, clientMode;
    std::unique_ptr<std::vector<double>> varPv[2];
    std::unique_ptr<FD::ConnectionValues> varFl[2];
    std::unique_ptr<std::map<CellSetID, FD::CellSetValues>> varIn[2];
    std::unique_ptr<std::vector<FD::CellSet>> varSt[2];
    Pristine* pristine = nullptr;
    std::unique_ptr<Pristine> ownPristine;
    uint64_t inDig = 0;

    explicit ToolboxWorld(const Plan& p) : ptr(FlowInputs::shared ? FlowInputs::shared : std::make_shared<FlowInputs>(p, "")), inp(*ptr), plan(p)
    {
        refCheck = p.c("ref", 1);
        twinCheck = p.c("twin", 1);
        keepAll = p.c("keep", 0);
        maxRes = std::max(1, int(p.c("maxres", 6)));
        clientMode = int(p.c("cin", 0));
    }
    void startPristine()
    {
        ownPristine.reset(new Pristine);
        Plan p = plan;
        ownPristine->start([p](const std::vector<Op>& ops) {
            Plan q = p; q.cfg["pristine"] = 0; q.cfg["cin"] = 0;
            ToolboxWorld w(q);
            w.checks = false;
            return playOps(w, ops);
        });
        pristine = ownPristine.get();
    }

    // ---- inputs of an operation
    void prepare(const Op& o) override
    {
        int s = int(o.arg(0)) & 1;
        if (o.name == "pv") for (int m = 0; m < 2; ++m) inp.pv(m, o.arg(1), o.arg(2));
        else if (o.name == "fl") for (int m = 0; m < 2; ++m) inp.fl(m, o.arg(1), o.arg(2), o.arg(3));
        else if (o.name == "in") for (int m = 0; m < 2; ++m) inp.in(m, o.arg(1), o.arg(2));
        (void)s;
    }

    // How the client keeps what it hands over: objects that live on (0), a temporary that is gone after the call (1),
    // one variable that is given new contents before the call and overwritten after it (2).
    static void scramble(std::vector<double>& v) { for (auto& x : v) x = 12345.0; }
    static void scramble(FD::ConnectionValues& f)
    {
        for (size_t i = 0; i < f.numConnections(); ++i) for (size_t p = 0; p < f.numPhases(); ++p) f(FD::ConnectionValues::ConnID{i}, FD::ConnectionValues::PhaseID{p}) = 0.25 * double(i % 3) - 0.25;
    }
    static void scramble(std::map<CellSetID, FD::CellSetValues>& m) { for (auto& w : m) { for (auto& q : w.second) q.second = -q.second; w.second[0] += 0.5; } }
    static void scramble(std::vector<FD::CellSet>& v) { v.clear(); }
    template <class T, class F> Outcome give(const T& x, std::unique_ptr<T>& var, F&& call)
    {
        if (clientMode == 1) {
            std::unique_ptr<T> tmp = mkClient<T>(x);
            Outcome r = call(*tmp);
            rt::Client c;
            tmp.reset();
            return r;
        }
        if (clientMode == 2) {
            if (!var) var = mkClient<T>(x);
            else { rt::Client c; *var = x; }
            Outcome r = call(*var);
            rt::Client c;
            scramble(*var);
            return r;
        }
        return call(x);
    }

    bool ready(const Op& o, int k)
    {
        Slot& s = slot[k];
        if (s.tb) return true;
        const FD::ConnectivityGraph* g = inp.graph[s.mesh].get();
        std::unique_ptr<FD::ConnectivityGraph> tmp;
        if (clientMode) { tmp = mkClient<FD::ConnectivityGraph>(*g); g = tmp.get(); }
        Outcome r = s.tb.build(spec(o), [&](void* p) { new (p) FD::Toolbox(*g); });
        if (tmp) { rt::Client c; tmp.reset(); }
        noteOutcome(r);
        expect(MUST_OK, r, "Toolbox()");
        s.hasPv = s.hasFl = s.hasIn = false;
        return r.ok();
    }
    // Toolbox construction under the operation's own fault is the "new" operation; elsewhere it has to work.
    void ensure(int k)
    {
        if (slot[k].tb) return;
        Op o; o.name = "Toolbox()";
        Outcome keep = last;
        ready(o, k);
        last = keep;
    }

    uint64_t budgetSimple(int k) const { return 200000 + 4000ull * (inp.mesh[slot[k].mesh].nc + inp.mesh[slot[k].mesh].nconn() + 50); }

    void op(const Op& o) override
    {
        int k = int(o.arg(0)) & 1;
        Slot& s = slot[k];
        if (o.name == "new") {
            Op oo = o;
            s.tb.destroy();
            s.mesh = int(o.arg(1)) & 1;
            bool ok = ready(oo, k);
            if (!ok) { probe(Probe::FAILEDASSIGN); ensure(k); }
            rec(ok);
        }
        else if (o.name == "pv" || o.name == "fl" || o.name == "in") assign(o, k);
        else if (o.name == "inj" || o.name == "prod") diag(o, k);
        else if (o.name == "mvc") {
            ensure(k);
            Box<FD::Toolbox> nb;
            Outcome r = nb.build(spec(o), [&](void* p) { new (p) FD::Toolbox(std::move(*s.tb)); });
            noteOutcome(r);
            expect(MUST_OK, r, "Toolbox move");
            if (r.ok()) { s.tb = std::move(nb); probe(Probe::MOVED); rt::countFault(rt::F_MOVE); }
            rec(r.kind);
        }
        else if (o.name == "mva") {
            ensure(0); ensure(1);
            Slot& t = slot[1 - k];
            Outcome r = act(o, [&] { *t.tb = std::move(*s.tb); });
            expect(MUST_OK, r, "Toolbox move assignment");
            if (r.ok()) {
                t.mesh = s.mesh; t.hasPv = s.hasPv; t.hasFl = s.hasFl; t.hasIn = s.hasIn; t.pv = s.pv; t.fl = s.fl; t.in = s.in;
                s.tb.destroy();
                probe(Probe::MOVED); rt::countFault(rt::F_MOVE);
            }
            rec(r.kind);
        }
        else solOp(o);
        if (checks && keepAll && (curOp % 3 == 0)) recheckAll();
    }

    void assign(const Op& o, int k)
    {
        ensure(k);
        Slot& s = slot[k];
        Outcome r;
        bool bad;
        if (o.name == "pv") {
            auto& x = inp.pv(s.mesh, o.arg(1), o.arg(2));
            bad = x.bad;
            r = give(*x.obj, varPv[k], [&](const std::vector<double>& v) { return act(o, [&] { s.tb->assignPoreVolume(v); }, budgetSimple(k)); });
            if (r.ok()) { s.hasPv = true; s.pv = o; }
        }
        else if (o.name == "fl") {
            auto& x = inp.fl(s.mesh, o.arg(1), o.arg(2), o.arg(3));
            bad = x.bad;
            r = give(*x.obj, varFl[k], [&](const FD::ConnectionValues& v) { return act(o, [&] { s.tb->assignConnectionFlux(v); }, budgetSimple(k)); });
            if (r.ok()) { s.hasFl = true; s.fl = o; }
        }
        else {
            auto& x = inp.in(s.mesh, o.arg(1), o.arg(2));
            bad = x.bad;
            r = give(*x.obj, varIn[k], [&](const std::map<CellSetID, FD::CellSetValues>& v) { return act(o, [&] { s.tb->assignInflowFlux(v); }, budgetSimple(k)); });
            if (r.ok()) { s.hasIn = true; s.in = o; }
        }
        if (r.fired && !r.ok()) probe(Probe::FAILEDASSIGN);
        expect(bad ? MUST_FAIL : MUST_OK, r, "assignment '" + o.name + "'");
        rec(r.kind);
    }

    void diag(const Op& o, int k)
    {
        ensure(k);
        Slot& s = slot[k];
        bool inj = o.name == "inj";
        const Mesh& mesh = inp.mesh[s.mesh];
        const FlowInputs::In* in = s.hasIn ? &inp.in(s.mesh, s.in.arg(1), s.in.arg(2)) : nullptr;
        auto& st = inp.st(s.mesh, in, inj, o.arg(1), o.arg(2));
        Expect e = st.expect;
        if (!s.hasPv || !s.hasFl) e = MUST_FAIL;
        else if (e != MUST_FAIL && (mesh.nconn() == 0 || mesh.nc == 0)) e = ANY;

        // Reference solutions (also decide whether the case can be simulated at all).
        std::vector<RefSol> ref;
        uint64_t budget = 400000;
        if (e != MUST_FAIL && s.hasPv && s.hasFl) {
            Digraph g = flowGraph(mesh, inp.fl(s.mesh, s.fl.arg(1), s.fl.arg(2), s.fl.arg(3)).host, !inj);
            auto& pv = inp.pv(s.mesh, s.pv.arg(1), s.pv.arg(2)).host;
            std::vector<double> src(mesh.nc, 0.0);
            std::map<int, double> starts;
            if (in) for (auto& w : in->host) for (auto& q : w.second) if (inj ? q.second > 0 : q.second < 0) src[q.first] += std::fabs(q.second);
            for (int c = 0; c < mesh.nc; ++c) if (src[c] > 0) starts[c] = src[c];
            ref.push_back(solveRef(g, pv, src, starts, false));
            for (auto& id : st.ids) {
                std::map<int, double> own;
                for (auto& q : in->host.at(id)) if (inj ? q.second > 0 : q.second < 0) own[q.first] = std::fabs(q.second);
                ref.push_back(solveRef(g, pv, src, own, true));
            }
            double work = 0;
            for (auto& x : ref) {
                if (x.slow) { probe(Probe::SKIPPED); rec(0x5711); return; }
                work += x.work + mesh.nc;
                if (x.cyclic) probe(Probe::CYCLIC);
                if (x.capped) probe(Probe::CAPPED);
                if (x.closed) probe(Probe::CLOSED);
            }
            budget += uint64_t(600 * work) + 3000ull * (mesh.nc + mesh.nconn() * (1 + s.fl.arg(3)));
        }
        std::unique_ptr<Res> r(new Res);
        r->mesh = s.mesh;
        if (s.hasPv) { r->pvS = s.pv.arg(1); r->pvK = s.pv.arg(2); }
        r->hasIn = s.hasIn; r->in = s.in;
        Outcome out = give(*st.obj, varSt[k], [&](const std::vector<FD::CellSet>& v) { return runDiag(spec(o, budget), *s.tb, inj, v, *r); });
        noteOutcome(out);
        workRatio(out.steps, budget);
        if (out.fired && !out.ok()) probe(Probe::FAILEDRUN);
        expect(e, out, inj ? "computeInjectionDiagnostics" : "computeProductionDiagnostics");
        if (!out.ok()) { rec(100 + out.kind); return; }
        r->model = readSolution(r->sol(), *this, {});
        rec(r->model.hash());
        if (checks) {
            if (refCheck && !ref.empty()) compareRef(r->model, st.ids, ref, mesh.nc);
            if (twinCheck) compareTwin(o, s, inj, *st.obj, r->model);
        }
        if (keepAll || plan.c("dq") || int(res.size()) < 2) {
            if (int(res.size()) >= maxRes) { size_t v = o.arg(1) % res.size(); res[v] = std::move(r); derived.clear(); }
            else res.push_back(std::move(r));
        }
    }
    static Outcome runDiag(const Spec& sp, FD::Toolbox& tb, bool inj, const std::vector<FD::CellSet>& st, Res& r)
    {
        return inj ? r.f.build(sp, [&](void* p) { new (p) FD::Toolbox::Forward(tb.computeInjectionDiagnostics(st)); })
                   : r.r.build(sp, [&](void* p) { new (p) FD::Toolbox::Reverse(tb.computeProductionDiagnostics(st)); });
    }
    static void workRatio(uint64_t steps, uint64_t budget)
    {
        if (!rt::st || !budget) return;
        uint64_t q = steps * 1000 / budget;
        if (q > rt::st->maxWorkRatio) rt::st->maxWorkRatio = q;
    }

    void compareRef(const SolModel& m, const std::vector<std::string>& ids, const std::vector<RefSol>& ref, int nc)
    {
        char b[300];
        probe(Probe::REFCHK);
        std::set<std::string> want(ids.begin(), ids.end()), got(m.start.begin(), m.start.end());
        if (want != got || m.start.size() != want.size()) rt::fail("wrong-tracers", "the solution does not hold exactly the requested tracers");
        if (int(m.g.size()) != nc) rt::fail("wrong-size", "global time-of-flight does not have one value per cell");
        if (ref[0].usable) for (int c = 0; c < nc; ++c)
            if (!(std::fabs(m.g[c] - ref[0].tof[c]) <= ref[0].tolTof[c])) {
                snprintf(b, sizeof b, "global time-of-flight in cell %d is %.12g, the upwind equations give %.12g (tolerance %.3g)", c, m.g[c], ref[0].tof[c], ref[0].tolTof[c]);
                rt::fail("wrong-time-of-flight", b);
            }
        for (size_t i = 0; i < ids.size(); ++i) {
            const RefSol& q = ref[i + 1];
            static const std::map<int, double> none;
            auto ti = m.t.find(ids[i]), ci = m.c.find(ids[i]);
            const auto& t = ti == m.t.end() ? none : ti->second;
            const auto& c = ci == m.c.end() ? none : ci->second;
            for (int cell = 0; cell < nc; ++cell) {
                bool has = t.count(cell), hasC = c.count(cell);
                if (has != bool(q.reach[cell]) || hasC != bool(q.reach[cell])) {
                    snprintf(b, sizeof b, "tracer '%s': cell %d is %s by the tracer but %s in its fields", ids[i].c_str(), cell, q.reach[cell] ? "reached" : "not reached", has ? "present" : "absent");
                    rt::fail("wrong-tracer-cells", b);
                }
                if (!has) continue;
                double tv = t.at(cell), cv = c.at(cell);
                if (!(cv > 0 && cv <= 1 + 1e-9)) { snprintf(b, sizeof b, "tracer '%s' in cell %d is %.17g, outside (0,1]", ids[i].c_str(), cell, cv); rt::fail("tracer-range", b); }
                if (!(tv >= 0 && tv <= kMaxTof)) { snprintf(b, sizeof b, "time-of-flight of '%s' in cell %d is %.17g", ids[i].c_str(), cell, tv); rt::fail("tof-range", b); }
                if (!q.usable) continue;
                if (!(std::fabs(cv - q.conc[cell]) <= q.tolConc[cell])) {
                    snprintf(b, sizeof b, "tracer '%s' in cell %d is %.12g, the upwind equations give %.12g", ids[i].c_str(), cell, cv, q.conc[cell]);
                    rt::fail("wrong-tracer", b);
                }
                if (!(std::fabs(tv - q.tof[cell]) <= q.tolTof[cell])) {
                    snprintf(b, sizeof b, "time-of-flight of '%s' in cell %d is %.12g, the upwind equations give %.12g (tolerance %.3g)", ids[i].c_str(), cell, tv, q.tof[cell], q.tolTof[cell]);
                    rt::fail("wrong-time-of-flight", b);
                }
            }
            if (!t.empty() && (t.rbegin()->first >= nc || t.begin()->first < 0)) rt::fail("wrong-tracer-cells", "tracer fields hold cells outside the model");
        }
    }
    void compareTwin(const Op& o, Slot& s, bool inj, const std::vector<FD::CellSet>& st, const SolModel& m)
    {
        probe(Probe::TWIN);
        Box<FD::Toolbox> tb;
        Spec sp; sp.op = "twin";
        const FD::ConnectivityGraph& g = *inp.graph[s.mesh];
        if (!tb.build(sp, [&](void* p) { new (p) FD::Toolbox(g); }).ok()) rt::fail("unexpected-error", "twin construction failed");
        auto& pv = inp.pv(s.mesh, s.pv.arg(1), s.pv.arg(2));
        auto& fl = inp.fl(s.mesh, s.fl.arg(1), s.fl.arg(2), s.fl.arg(3));
        sure("twin assignPoreVolume", [&] { tb->assignPoreVolume(*pv.obj); });
        sure("twin assignConnectionFlux", [&] { tb->assignConnectionFlux(*fl.obj); });
        if (s.hasIn) { auto& in = inp.in(s.mesh, s.in.arg(1), s.in.arg(2)); sure("twin assignInflowFlux", [&] { tb->assignInflowFlux(*in.obj); }); }
        Res t;
        Outcome out = runDiag(sp, *tb, inj, st, t);
        if (!out.ok()) rt::fail("history-dependence", "a fresh toolbox with the same inputs fails where the used one succeeds");
        SolModel tm = readSolution(t.sol(), *this, {});
        std::string d = m.diff(tm);
        if (!d.empty()) rt::fail("history-dependence", "the result differs from that of a fresh toolbox with the same inputs: " + d);
        if (pristine) {
            std::vector<Op> ops;
            Op nw; nw.name = "new"; nw.a = {0, s.mesh};
            ops.push_back(nw);
            for (const Op* q : {&s.pv, &s.fl, &s.in}) {
                if (q == &s.in && !s.hasIn) continue;
                Op c = *q; c.a[0] = 0; c.f = Fault(); c.thr = 0;
                ops.push_back(c);
            }
            Op c = o; c.a[0] = 0; c.f = Fault();
            ops.push_back(c);
            auto v = pristine->ask(ops);
            if (v.empty() || v.back() != m.hash()) rt::fail("history-dependence", "the result differs from that of a fresh toolbox in a fresh process");
        }
    }

    // ---- solutions
    void recheck(Res& r, const char* when)
    {
        std::vector<std::string> extra{"no such well"};
        for (auto& x : r.model.t) extra.push_back(x.first);
        for (auto& x : r.model.c) extra.push_back(x.first);
        for (int i = 0; i < 10; ++i) extra.push_back(wellName(i));
        SolModel m = readSolution(r.sol(), *this, extra);
        SolModel again = readSolution(r.sol(), *this, {});
        std::string d = m.diff(r.model);
        if (!d.empty()) rt::fail("solution-changed", std::string("a returned solution changed (") + when + "): " + d);
        if (again.start != r.model.start) rt::fail("solution-changed", "queries changed the list of start points");
    }
    void recheckAll()
    {
        // All global fields held at once: each stays what it was while the others are looked at.
        std::vector<const std::vector<double>*> held;
        std::vector<Res*> of;
        for (auto& r : res) if (r->live()) {
            const std::vector<double>* g = nullptr;
            sure("timeOfFlight()", [&] { g = &r->sol().timeOfFlight(); });
            held.push_back(g); of.push_back(r.get());
        }
        for (auto& r : res) if (r->live()) recheck(*r, "later operations");
        for (size_t i = 0; i < held.size(); ++i) {
            auto& g = *held[i];
            rt::noteRead(g.data(), g.size() * sizeof(double));
            if (g.size() != of[i]->model.g.size() || memcmp(g.data(), of[i]->model.g.data(), g.size() * sizeof(double))) rt::fail("solution-changed", "the global time-of-flight of a solution changed while another solution was read");
        }
    }

    void solOp(const Op& o)
    {
        if (o.name == "dq" && o.arg(1) % 8 >= 5) { derivedQuantity(o); return; }      // on data of the client's own
        if (res.empty()) { rec(0); return; }
        size_t i = size_t(o.arg(0)) % res.size();
        Res& r = *res[i];
        if (o.name == "squery") {
            if (checks) recheck(r, "query");
            rec(r.model.hash());
        }
        else if (o.name == "scopy") {
            std::unique_ptr<Res> n(new Res);
            Outcome out;
            if (r.f && o.arg(1) % 2) out = n->f.build(spec(o), [&](void* p) { new (p) FD::Toolbox::Forward(*r.f); });
            else if (r.r && o.arg(1) % 2) out = n->r.build(spec(o), [&](void* p) { new (p) FD::Toolbox::Reverse(*r.r); });
            else out = n->s.build(spec(o), [&](void* p) { new (p) FD::Solution(r.sol()); });
            noteOutcome(out);
            expect(MUST_OK, out, "copying a solution");
            if (out.ok()) {
                n->model = r.model; n->mesh = r.mesh; n->pvS = r.pvS; n->pvK = r.pvK; n->in = r.in; n->hasIn = r.hasIn;
                if (checks) recheck(*n, "copy");
                probe(Probe::COPIED);
                if (int(res.size()) < maxRes) res.push_back(std::move(n));
                else if (o.arg(1) % 3) { res[i] = std::move(n); derived.clear(); }        // keep the copy, destroy the original
            }
            rec(out.kind);
        }
        else if (o.name == "smove") {
            if (!r.s) { rec(0); return; }
            Box<FD::Solution> n;
            Outcome out = n.build(spec(o), [&](void* p) { new (p) FD::Solution(std::move(*r.s)); });
            noteOutcome(out);
            expect(MUST_OK, out, "moving a solution");
            if (out.ok()) { r.s = std::move(n); if (checks) recheck(r, "move"); probe(Probe::MOVED); rt::countFault(rt::F_MOVE); }
            rec(out.kind);
        }
        else if (o.name == "sdel") {
            res.erase(res.begin() + long(i));
            derived.clear();
            rt::countFault(rt::F_DESTROY);
            rec(1);
        }
        else if (o.name == "sassign") {
            if (!r.s) { rec(0); return; }
            Rng q(mix(uint64_t(o.arg(1)), 9));
            std::string id = wellName(q.below(10));
            auto cid = mkClient<CellSetID>(id);
            std::map<int, double> v;
            for (int k = 0, n = q.range(0, 5); k < n; ++k) v[int(q.below(50))] = q.unit();
            Outcome out;
            int what = int(o.arg(2)) % 3;
            if (what == 0) {
                auto x = mkClient<FD::Solution::TimeOfFlight>(); { rt::Client c; x->data = v; }
                out = act(o, [&] { r.s->assign(*cid, std::move(*x)); });
                if (out.ok()) { r.model.t[id] = v; }
            }
            else if (what == 1) {
                auto x = mkClient<FD::Solution::TracerConcentration>(); { rt::Client c; x->data = v; }
                out = act(o, [&] { r.s->assign(*cid, std::move(*x)); });
                if (out.ok()) {
                    r.model.c[id] = v;
                    if (std::find(r.model.start.begin(), r.model.start.end(), id) == r.model.start.end()) {
                        r.model.start.push_back(id);
                        std::sort(r.model.start.begin(), r.model.start.end());
                    }
                }
            }
            else {
                std::vector<double> g(q.below(8));
                for (auto& x : g) x = q.unit();
                auto x = mkClient<std::vector<double>>(g);
                out = act(o, [&] { r.s->assignGlobalToF(std::move(*x)); });
                if (out.ok()) r.model.g = g;
            }
            derived.clear();
            expect(MUST_OK, out, "modifying a solution");
            rec(out.kind);
        }
        else if (o.name == "derive") derive(o);
        else if (o.name == "dq") derivedQuantity(o);
        else rt::fail("harness", "unknown operation " + o.name);
    }

    void derive(const Op& o)
    {
        size_t a = res.size(), b = res.size();
        for (size_t i = 0; i < res.size(); ++i) { size_t j = (i + size_t(o.arg(0))) % res.size(); if (res[j]->f && a == res.size()) a = j; if (res[j]->r && b == res.size()) b = j; }
        if (a == res.size() || b == res.size()) { rec(0); return; }
        Res &f = *res[a], &r = *res[b];
        if (f.mesh != r.mesh || f.model.g.size() != r.model.g.size()) { rec(0); return; }
        auto& pv = *inp.pv(f.mesh, f.pvS, f.pvK).obj;
        if (pv.size() != f.model.g.size()) { rec(0); return; }
        uint64_t h = 0;
        bool wellsOk = f.hasIn && !f.model.start.empty() && !r.model.start.empty();
        auto i1 = mkClient<CellSetID>(wellsOk ? f.model.start[size_t(o.arg(1)) % f.model.start.size()] : "none");
        auto p1 = mkClient<CellSetID>(wellsOk ? r.model.start[size_t(o.arg(1)) % r.model.start.size()] : "none");
        const std::map<CellSetID, FD::CellSetValues>* in = f.hasIn ? inp.in(f.mesh, f.in.arg(1), f.in.arg(2)).obj.get() : nullptr;
        uint64_t budget = 2000000 + 15000ull * pv.size();
        FD::Graph g1, g2;
        double lor = 0, vol = 0;
        std::pair<double, double> fl(0, 0);
        bool fluxFound = in && in->count(*i1) && in->count(*p1);
        Outcome out = act(o, [&] {
            g1 = FD::flowCapacityStorageCapacityCurve(*f.f, *r.r, pv, o.arg(2) % 3 == 0 ? 0.3 : 1.0);
            g2 = FD::sweepEfficiency(g1);
            lor = FD::lorenzCoefficient(g1);
            vol = FD::injectorProducerPairVolume(*f.f, *r.r, pv, *i1, *p1);
            if (fluxFound) fl = FD::injectorProducerPairFlux(*f.f, *r.r, *i1, *p1, *in);
        }, budget);
        expect(MUST_OK, out, "derived quantities");
        if (!out.ok()) { rec(out.kind); return; }
        Hash hh;
        hh.v(g1.first).v(g1.second).v(g2.first).v(g2.second).d(lor).d(vol).d(fl.first).d(fl.second);
        h = hh.h;
        auto key = std::make_pair(a * 1000 + b, size_t(o.arg(1)) * 8 + size_t(o.arg(2)) % 3);
        if (checks) {
            auto it = derived.find(key);
            if (it == derived.end()) derived[key] = h;
            else if (it->second != h) rt::fail("solution-changed", "derived quantities of the same solutions changed");
            if (g1.first.size() != pv.size() + 1 || g1.second.size() != pv.size() + 1) rt::fail("wrong-size", "curve has wrong length");
        }
        rec(h);
    }

    // ---- derived quantities against their definitions
    // Capacity curve: cells sorted by total travel time; the points inside a group of equal times may come in any order.
    static void checkCurve(const FD::Graph& g, const std::vector<double>& ti, const std::vector<double>& tp, const std::vector<double>& pv, double frac)
    {
        char b[240];
        size_t n = pv.size();
        if (!n) return;
        if (g.first.size() != n + 1 || g.second.size() != n + 1) rt::fail("wrong-curve", "the capacity curve does not have one point per cell plus the origin");
        long double total = 0;
        for (double x : pv) total += x;
        std::vector<std::pair<long double, long double>> c;
        for (size_t i = 0; i < n; ++i) {
            long double lim = (long double)frac * total;
            if (std::fabs(double(pv[i] - lim)) <= 1e-12 * double(lim)) { if (pv[i] != total || frac != 1.0) return; }
            if (frac != 1.0 && pv[i] > lim) { c.push_back({1e100L, 0}); continue; }
            long double t = (long double)ti[i] + tp[i];
            if (!(t > 0) || !(t < 1e99)) return;
            c.push_back({t, pv[i]});
        }
        std::sort(c.begin(), c.end());
        long double sp = 0, sf = 0;
        for (auto& x : c) { sp += x.second; sf += x.second / x.first; }
        if (!(sp > 0) || !(sf > 0)) return;
        if (!(std::fabs(g.first[0]) <= 1e-12 && std::fabs(g.second[0]) <= 1e-12)) rt::fail("wrong-curve", "the capacity curve does not start in the origin");
        long double p = 0, f = 0;
        for (size_t i = 0; i < n;) {
            size_t j = i;
            std::vector<double> want, got;
            while (j < n && c[j].first - c[i].first <= 1e-11L * c[i].first) {
                p += c[j].second; f += c[j].second / c[j].first;
                want.push_back(double(c[j].second / sp));
                got.push_back(g.first[j + 1] - g.first[j]);
                ++j;
            }
            if (!(std::fabs(double(g.first[j] - p / sp)) <= 1e-9 && std::fabs(double(g.second[j] - f / sf)) <= 1e-9)) {
                snprintf(b, sizeof b, "point %zu of the capacity curve is (%.12g, %.12g), by definition (%.12Lg, %.12Lg)", j, g.first[j], g.second[j], p / sp, f / sf);
                rt::fail("wrong-curve", b);
            }
            std::sort(want.begin(), want.end()); std::sort(got.begin(), got.end());
            for (size_t k = 0; k < want.size(); ++k) if (!(std::fabs(want[k] - got[k]) <= 1e-9)) rt::fail("wrong-curve", "steps of the capacity curve are not the pore volumes of its cells");
            i = j;
        }
    }
    static void checkLorenz(double v, const FD::Graph& g)
    {
        if (g.first.size() < 2) return;
        long double s = 0, m = 1;
        for (size_t i = 0; i + 1 < g.first.size(); ++i) {
            long double q = ((long double)g.second[i] + g.second[i + 1]) * ((long double)g.first[i + 1] - g.first[i]);
            s += q; m += std::fabs(double(q));
        }
        if (!(m < 1e30)) return;
        if (!(std::fabs(double(v - (s - 1))) <= 1e-9 * double(m))) { char b[160]; snprintf(b, sizeof b, "the Lorenz coefficient is %.12g, by definition %.12Lg", v, s - 1); rt::fail("wrong-lorenz", b); }
    }
    static void checkSweep(const FD::Graph& e, const FD::Graph& g)
    {
        if (g.first.empty()) return;
        for (size_t i = 0; i < g.first.size(); ++i) if (!(std::fabs(g.first[i]) < 1e30) || !(std::fabs(g.second[i]) < 1e30)) return;
        std::vector<long double> t{0}, v{0}, tol{1e-12L};
        for (size_t i = 1; i < g.first.size(); ++i) {
            if (g.second[i] == g.second[i - 1]) continue;
            long double q = ((long double)g.first[i] - g.first[i - 1]) / ((long double)g.second[i] - g.second[i - 1]);
            long double eps = (std::fabs(g.first[i]) + std::fabs(g.second[i])) * 1e-15L;
            t.push_back(q); v.push_back(g.first[i] + (1.0L - g.second[i]) * q);
            tol.push_back(1e-9L * (1 + std::fabs(double(q))) * (1 + std::fabs(1 - g.second[i])) + eps + 1e-9L * std::fabs(g.first[i]));
        }
        if (e.first.size() != t.size() || e.second.size() != t.size()) rt::fail("wrong-sweep", "the sweep efficiency curve has the wrong number of points");
        for (size_t i = 0; i < t.size(); ++i) if (!(std::fabs(double(e.first[i] - t[i])) <= double(tol[i])) || !(std::fabs(double(e.second[i] - v[i])) <= double(tol[i]))) {
            char b[240];
            snprintf(b, sizeof b, "point %zu of the sweep efficiency curve is (%.12g, %.12g), by definition (%.12Lg, %.12Lg)", i, e.first[i], e.second[i], t[i], v[i]);
            rt::fail("wrong-sweep", b);
        }
    }
    static const std::map<int, double>& fieldOf(const SolModel& m, const std::string& id)
    {
        static const std::map<int, double> none;
        auto i = m.c.find(id);
        return i == m.c.end() ? none : i->second;
    }
    static bool near(double v, long double want, long double mag) { return std::fabs(double(v - want)) <= 1e-9 * double(mag) + 1e-300; }

    void derivedQuantity(const Op& o)
    {
        int what = int(o.arg(1)) % 8;
        Rng q(mix(uint64_t(o.arg(2)), 88));
        static const double fracs[] = {1.0, 1.0, 0.5, 0.3, 0.1, 0.0625};
        double frac = fracs[q.below(6)];
        uint64_t budget = 1000000 + 6000ull * uint64_t(plan.c("dqn", 3000));
        Hash h;
        char b[240];
        if (what >= 5) {                                    // data of the client's own
            int n = plan.c("dqn") ? int(plan.c("dqn")) - int(q.below(3)) : q.chance(200) ? q.range(0, 2) : q.chance(20) ? q.range(100, 3000) : q.range(1, 40);
            auto vec = [&](int len, double lo, double hi) {
                std::vector<double> v(len > 0 ? size_t(len) : 0);
                bool coarse = q.chance(400);
                for (auto& x : v) { x = lo + (hi - lo) * q.unit(); if (coarse) x = std::round(x * 4) / 4; }
                return v;
            };
            int odd = q.chance(150) ? q.range(1, 2) : 0;
            if (what == 5) {
                auto ti = vec(n + (odd == 1), 0.25, 50), tp = vec(n - (odd == 2 && n > 0), 0.25, 50), pv = vec(n, 0.25, 9);
                for (auto& x : pv) { x = std::round(x * 16) / 16; if (q.chance(100)) x = 0; }
                if (q.chance(250)) { int e = q.range(-60, 60); for (auto& x : pv) x = std::ldexp(x, e); }       // any units
                if (q.chance(250)) { int e = q.range(-60, 60); for (auto& x : ti) x = std::ldexp(x, e); for (auto& x : tp) x = std::ldexp(x, e); }
                bool bad = ti.size() != pv.size() || tp.size() != pv.size();
                auto a = mkClient<std::vector<double>>(ti), c = mkClient<std::vector<double>>(tp), d = mkClient<std::vector<double>>(pv);
                FD::Graph g;
                Outcome out = act(o, [&] { g = FD::flowCapacityStorageCapacityCurve(*a, *c, *d, frac); }, budget);
                workRatio(out.steps, budget);
                expect(bad ? MUST_FAIL : n ? MUST_OK : ANY, out, "flowCapacityStorageCapacityCurve()");
                if (!out.ok()) { rec(out.kind); return; }
                if (checks && refCheck) { checkCurve(g, ti, tp, pv, frac); probe(Probe::DERIVED); }
                rec(h.v(g.first).v(g.second).h);
                return;
            }
            FD::Graph in;
            {
                auto x = vec(n, 0.0625, 1), y = vec(n + (odd ? (odd == 1 ? 1 : n > 1 ? -1 : 1) : 0), 0.0625, 2);
                double s = 0;
                int fine = q.chance(200) ? q.range(20, 50) : 0;          // some steps far smaller than the others
                double back = q.chance(80) ? -1 : 1;                      // not even increasing
                auto step = [&](double e, int still) { return q.chance(still) ? 0 : fine && q.chance(300) ? std::ldexp(e, -fine) : q.chance(200) ? back * e : e; };
                for (auto& e : x) { s += step(e, 150); e = s; }
                s = 0;
                for (auto& e : y) { s += step(e, 250); e = s; }
                if (q.chance(700) && !x.empty() && !y.empty()) { for (auto& e : x) e /= x.back() > 0 ? x.back() : 1; double l = y.back() > 0 ? y.back() : 1; for (auto& e : y) e /= l; }
                rt::Client c;
                in.first = x; in.second = y;
            }
            bool bad = in.first.size() != in.second.size();
            Expect e = bad ? MUST_FAIL : in.first.size() >= 2 ? MUST_OK : ANY;
            if (what == 6) {
                double l = 0;
                Outcome out = act(o, [&] { l = FD::lorenzCoefficient(in); }, budget);
                workRatio(out.steps, budget);
                expect(e, out, "lorenzCoefficient()");
                if (!out.ok()) { rec(out.kind); return; }
                if (checks && refCheck) { checkLorenz(l, in); probe(Probe::DERIVED); }
                rec(h.d(l).h);
            }
            else {
                FD::Graph g;
                Outcome out = act(o, [&] { g = FD::sweepEfficiency(in); }, budget);
                workRatio(out.steps, budget);
                expect(e, out, "sweepEfficiency()");
                if (!out.ok()) { rec(out.kind); return; }
                if (checks && refCheck) { checkSweep(g, in); probe(Probe::DERIVED); }
                rec(h.v(g.first).v(g.second).h);
            }
            return;
        }
        size_t a = res.size(), c = res.size();
        for (size_t i = 0; i < res.size(); ++i) { size_t j = (i + size_t(o.arg(0))) % res.size(); if (res[j]->f && a == res.size()) a = j; if (res[j]->r && c == res.size()) c = j; }
        if (a == res.size() || c == res.size()) { rec(0); return; }
        Res &f = *res[a], &r = *res[c];
        auto& pv = *inp.pv(f.mesh, f.pvS, f.pvK).obj;
        const auto& host = inp.pv(f.mesh, f.pvS, f.pvK).host;
        budget += 3000ull * (pv.size() + f.model.g.size() + r.model.g.size());
        if (what <= 1) {
            bool bad = pv.size() != f.model.g.size() || pv.size() != r.model.g.size();
            FD::Graph g;
            Outcome out = act(o, [&] { g = FD::flowCapacityStorageCapacityCurve(*f.f, *r.r, pv, frac); }, budget);
            workRatio(out.steps, budget);
            expect(bad ? MUST_FAIL : pv.empty() ? ANY : MUST_OK, out, "flowCapacityStorageCapacityCurve()");
            if (!out.ok()) { rec(out.kind); return; }
            if (checks && refCheck) { checkCurve(g, f.model.g, r.model.g, host, frac); probe(Probe::DERIVED); }
            h.v(g.first).v(g.second);
            if (what == 1) {
                // The whole chain.
                double l = 0;
                FD::Graph e;
                sure("lorenzCoefficient()", [&] { l = FD::lorenzCoefficient(g); }, budget);
                sure("sweepEfficiency()", [&] { e = FD::sweepEfficiency(g); }, budget);
                if (checks && refCheck) { checkLorenz(l, g); checkSweep(e, g); }
                h.d(l).v(e.first).v(e.second);
            }
            rec(h.h);
            return;
        }
        // Well pairs.
        auto idOf = [&](const SolModel& m) {
            if (m.start.empty() || q.chance(100)) return q.chance(500) ? wellName(q.below(10)) : std::string("no such well");
            return m.start[q.below(m.start.size())];
        };
        std::string i1 = idOf(f.model), p1 = idOf(r.model);
        auto ii = mkClient<CellSetID>(i1), pp = mkClient<CellSetID>(p1);
        const auto &ci = fieldOf(f.model, i1), &cp = fieldOf(r.model, p1);
        if (what == 2) {
            // Pore volumes that do not cover the pair's cells are refused; other lengths may be.
            int last = -1;
            for (auto& x : ci) if (cp.count(x.first)) last = x.first;
            size_t full = std::max(f.model.g.size(), r.model.g.size()), len = pv.size();
            if (q.chance(150) && last >= 0) len = q.chance(300) ? size_t(last) : q.below(uint64_t(last) + 1);
            std::vector<double> part(host.begin(), host.begin() + long(std::min(len, host.size())));
            auto pvx = mkClient<std::vector<double>>(part);
            len = part.size();
            Expect want = last >= int(len) ? MUST_FAIL : len == full && f.model.g.size() == r.model.g.size() ? MUST_OK : ANY;
            double v = 0;
            Outcome out = act(o, [&] { v = FD::injectorProducerPairVolume(*f.f, *r.r, *pvx, *ii, *pp); }, budget);
            workRatio(out.steps, budget);
            expect(want, out, "injectorProducerPairVolume()");
            if (!out.ok()) { rec(out.kind); return; }
            if (checks && refCheck) {
                long double s = 0;
                for (auto& x : ci) { auto y = cp.find(x.first); if (y != cp.end()) s += (long double)host[x.first] * x.second * y->second; }
                probe(Probe::DERIVED);
                if (!near(v, s, s)) { snprintf(b, sizeof b, "the volume of pair '%s'/'%s' is %.12g, by definition %.12Lg", i1.c_str(), p1.c_str(), v, s); rt::fail("wrong-pair-volume", b); }
            }
            rec(h.d(v).h);
            return;
        }
        const Res& src = q.chance(800) ? f : r;
        static const std::map<CellSetID, FD::CellSetValues> noWells;
        const std::map<CellSetID, FD::CellSetValues>& in = src.hasIn ? *inp.in(src.mesh, src.in.arg(1), src.in.arg(2)).obj : noWells;
        static const Wells noHost;
        const Wells& wells = src.hasIn ? inp.in(src.mesh, src.in.arg(1), src.in.arg(2)).host : noHost;
        bool known = wells.count(i1) && wells.count(p1);
        std::pair<double, double> v(0, 0);
        Outcome out = act(o, [&] { v = FD::injectorProducerPairFlux(*f.f, *r.r, *ii, *pp, in); }, budget);
        workRatio(out.steps, budget);
        expect(known ? MUST_OK : MUST_FAIL, out, "injectorProducerPairFlux()");
        if (!out.ok()) { rec(out.kind); return; }
        if (checks && refCheck) {
            long double s1 = 0, s2 = 0;
            for (auto& x : wells.at(i1)) if (x.second > 0) { auto y = cp.find(x.first); if (y != cp.end()) s1 += (long double)x.second * y->second; }
            for (auto& x : wells.at(p1)) if (x.second < 0) { auto y = ci.find(x.first); if (y != ci.end()) s2 += (long double)x.second * y->second; }
            probe(Probe::DERIVED);
            if (!near(v.first, s1, s1) || !near(v.second, s2, -s2)) { snprintf(b, sizeof b, "the flux of pair '%s'/'%s' is (%.12g, %.12g), by definition (%.12Lg, %.12Lg)", i1.c_str(), p1.c_str(), v.first, v.second, s1, s2); rt::fail("wrong-pair-flux", b); }
        }
        rec(h.d(v.first).d(v.second).h);
    }

    void finish() override
    {
        if (checks) recheckAll();
        for (auto& s : slot) s.tb.destroy();
        if (checks) { recheckAll(); }
        while (!res.empty()) {
            // Destroy results one by one; the others have to stay intact.
            res.erase(res.begin());
            if (checks && keepAll && res.size() <= 2) recheckAll();
        }
    }
};

} // namespace

std::unique_ptr<World> makeToolboxWorld(const Plan& p, const char*)
{
    std::unique_ptr<ToolboxWorld> w(new ToolboxWorld(p));
    if (p.c("pristine") && !probing) w->startPristine();
    return w;
}
