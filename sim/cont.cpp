// Input containers and random vectors.
#include "worlds.hpp"
#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/utility/numeric/RandomVector.hpp>
#include <algorithm>
#include <cstring>

namespace FD = Opm::FlowDiagnostics;
using CV = FD::ConnectionValues;

namespace {

struct ContainerWorld : World {
    struct CS { Box<FD::CellSet> o; std::string id; std::set<int> cells; };
    struct CVs { Box<CV> o; size_t nc = 0, np = 0; std::vector<double> v; };
    struct CG { Box<FD::ConnectivityGraph> o; int nc = 0; std::vector<int> nb; };
    CS cs[3];
    CVs cv[3];
    CG cg[3];
    explicit ContainerWorld(const Plan&) {}

    uint64_t check(CS& c, const char* when)
    {
        if (!c.o) return 0;
        std::string id;
        std::vector<int> cells;
        sure("CellSet::id", [&] { const FD::CellSetID& i = c.o->id(); id = i.to_string(); });
        std::unique_ptr<FD::CellSet::const_iterator> b, e;
        sure("CellSet::begin", [&] {
            auto i = c.o->begin(), end = c.o->end();
            while (i != end) { int v = *i; rt::noteRead(&*i, sizeof(int)); { rt::Scope h(rt::HOST); cells.push_back(v); if (cells.size() > c.cells.size() + 1000) break; } ++i; }
        });
        std::sort(cells.begin(), cells.end());
        if (checks) {
            if (id != c.id) rt::fail("wrong-contents", std::string("a cell set lost its identity (") + when + ")");
            if (cells != std::vector<int>(c.cells.begin(), c.cells.end())) rt::fail("wrong-contents", std::string("a cell set does not hold exactly the inserted cells (") + when + ")");
        }
        return Hash().s(id).v(cells).h;
    }
    uint64_t check(CVs& c, const char* when)
    {
        if (!c.o) return 0;
        size_t nc = 0, np = 0;
        sure("numConnections", [&] { nc = c.o->numConnections(); np = c.o->numPhases(); });
        if (checks && (nc != c.nc || np != c.np)) rt::fail("wrong-contents", std::string("a value table has another size than it was given (") + when + ")");
        Hash h;
        h.u(nc).u(np);
        const CV& k = *c.o;
        size_t huge = nc * np > 5000 ? nc * np / 700 : 0;     // large tables: what was written, and a sample
        for (size_t i = 0; i < nc; ++i) for (size_t p = 0; p < np; ++p) {
            double d = 0;
            if (huge && c.v[i * np + p] == 0 && (i * np + p) % huge) continue;
            sure("ConnectionValues()", [&] { d = k(CV::ConnID{i}, CV::PhaseID{p}); });
            if (checks && memcmp(&d, &c.v[i * np + p], 8)) rt::fail("wrong-contents", std::string("a value table does not hold the value written last (") + when + ")");
            h.d(d);
        }
        return h.h;
    }
    uint64_t check(CG& c, const char* when)
    {
        if (!c.o) return 0;
        size_t nc = 0, n = 0;
        sure("numCells", [&] { nc = c.o->numCells(); n = c.o->numConnections(); });
        if (checks && (nc != size_t(c.nc) || n != c.nb.size() / 2)) rt::fail("wrong-contents", std::string("a connectivity graph has another size than it was given (") + when + ")");
        Hash h;
        h.u(nc);
        for (size_t i = 0; i < n; ++i) {
            if (n > 2000 && i > 20 && i + 20 < n && i % (n / 400)) continue;        // large graphs: a sample
            FD::ConnectivityGraph::CellPair p{0, 0};
            sure("connection", [&] { p = c.o->connection(i); });
            if (checks && (p.first != c.nb[2 * i] || p.second != c.nb[2 * i + 1])) rt::fail("wrong-contents", std::string("a connectivity graph does not hold the given connection (") + when + ")");
            h.u(uint64_t(p.first)).u(uint64_t(p.second));
        }
        return h.h;
    }
    uint64_t checkAll(const char* when)
    {
        uint64_t h = 0;
        for (auto& c : cs) h = h * 31 + check(c, when);
        for (auto& c : cv) h = h * 31 + check(c, when);
        for (auto& c : cg) h = h * 31 + check(c, when);
        // Identities: equal exactly if neither comes before the other.
        for (auto& a : cs) for (auto& b : cs) if (checks && a.o && b.o) {
            bool ab = false, ba = false;
            sure("CellSetID::operator<", [&] { ab = a.o->id() < b.o->id(); ba = b.o->id() < a.o->id(); });
            if ((ab && ba) || (ab || ba) != (a.id != b.id)) rt::fail("wrong-contents", std::string("identities of cell sets are confused (") + when + ")");
        }
        return h;
    }

    template <class T, class M> bool transfer(const Op& o, T (&s)[3], M&& copyModel)
    {
        // names ending in copy / asg / move / masg
        int k = int(o.arg(0)) % 3, t = int(o.arg(1)) % 3;
        std::string how = o.name.substr(2);
        if ((k == t && how != "asg") || !s[k].o) { rec(0); return true; }
        using Obj = typename std::remove_reference<decltype(*s[0].o)>::type;
        bool mv = how == "move" || how == "masg";
        Outcome r;
        if (how == "copy" || how == "move") {
            Box<Obj> nb;
            r = nb.build(spec(o), [&](void* p) { if (mv) new (p) Obj(std::move(*s[k].o)); else new (p) Obj(*s[k].o); });
            noteOutcome(r);
            if (r.ok()) s[t].o = std::move(nb);
        }
        else if (how == "asg" || how == "masg") {
            if (!s[t].o) { rec(0); return true; }
            r = act(o, [&] { if (mv) *s[t].o = std::move(*s[k].o); else *s[t].o = *s[k].o; });
        }
        else return false;
        expect(MUST_OK, r, how);
        if (r.ok()) { copyModel(s[t], s[k]); if (mv) { s[k].o.destroy(); probe(Probe::MOVED); rt::countFault(rt::F_MOVE); } else probe(Probe::COPIED); }
        rec(uint64_t(r.kind) ^ check(s[t], r.ok() ? "after copy or move" : "target of a failed copy") ^ check(s[k], "source of a copy or move"));
        return true;
    }

    void op(const Op& o) override
    {
        int k = int(o.arg(0)) % 3;
        std::string fam = o.name.substr(0, 2), what = o.name.substr(2);
        if (fam == "cs") {
            if (what == "new") {
                Rng r(mix(uint64_t(o.arg(1)), 61));
                std::string name = wellName(r.below(10));
                auto id = mkClient<FD::CellSetID>(name);
                std::vector<int> v;
                bool many = r.chance(20);
                for (int i = 0, n = many ? r.range(800, 3000) : r.range(0, 12); i < n; ++i) v.push_back(many ? int(r.below(5000)) - 500 : r.chance(30) ? (r.chance(500) ? 2147483647 : -2147483647 - 1) : int(r.below(20)) - (r.chance(50) ? 100 : 0));
                auto cells = mkClient<std::vector<int>>(v);
                bool withCells = o.arg(2) % 2;
                Box<FD::CellSet> nb;
                Outcome q = nb.build(spec(o), [&](void* p) { if (withCells) new (p) FD::CellSet(*id, *cells); else new (p) FD::CellSet(*id); });
                noteOutcome(q);
                expect(MUST_OK, q, "CellSet()");
                if (q.ok()) { cs[k].o = std::move(nb); cs[k].id = name; cs[k].cells.clear(); if (withCells) cs[k].cells.insert(v.begin(), v.end()); }
                rec(uint64_t(q.kind) ^ check(cs[k], "construction"));
            }
            else if (what == "ins") {
                if (!cs[k].o) { rec(0); return; }
                int c = int(o.arg(1));
                Outcome q = act(o, [&] { cs[k].o->insert(c); });
                expect(MUST_OK, q, "insert");
                if (q.ok()) cs[k].cells.insert(c);
                rec(uint64_t(q.kind) ^ check(cs[k], q.ok() ? "insertion" : "failed insertion"));
            }
            else if (what == "insn") {
                if (!cs[k].o) { rec(0); return; }
                uint64_t kinds = 0, seen = 0;
                Fault f = spec(o).f;
                for (int i = 0; i < int(o.arg(2)); ++i) {
                    int c = int(o.arg(1)) + i * 3;
                    Spec s = spec(o); s.f = Fault();
                    if (f.kind && f.n > seen) { s.f = f; s.f.n = f.n - seen; }
                    Outcome q = rt::call(s, [&] { cs[k].o->insert(c); });
                    noteOutcome(q);
                    seen += q.allocs;
                    expect(MUST_OK, q, "insert");
                    if (q.ok()) cs[k].cells.insert(c);
                    kinds = kinds * 7 + uint64_t(q.kind);
                }
                rec(kinds ^ check(cs[k], "insertions"));
            }
            else if (!transfer(o, cs, [](CS& a, CS& b) { a.id = b.id; a.cells = b.cells; })) rt::fail("harness", "unknown operation " + o.name);
        }
        else if (fam == "cv") {
            if (what == "new") {
                size_t nc = size_t(o.arg(1)), np = size_t(o.arg(2));
                Box<CV> nb;
                Outcome q = nb.build(spec(o), [&](void* p) { new (p) CV(CV::NumConnections{nc}, CV::NumPhases{np}); });
                noteOutcome(q);
                expect(MUST_OK, q, "ConnectionValues()");
                if (q.ok()) { cv[k].o = std::move(nb); cv[k].nc = nc; cv[k].np = np; cv[k].v.assign(nc * np, 0.0); }
                rec(uint64_t(q.kind) ^ check(cv[k], "construction"));
            }
            else if (what == "set") {
                if (!cv[k].o) { rec(0); return; }
                size_t c = size_t(o.arg(1)), p = size_t(o.arg(2));
                if (o.arg(4) && cv[k].nc > 8) c = size_t(o.arg(4)) % cv[k].nc;
                bool in = c < cv[k].nc && p < cv[k].np;
                double val = double(o.arg(3)) / 7.0;
                Outcome q = act(o, [&] { (*cv[k].o)(CV::ConnID{c}, CV::PhaseID{p}) = val; });
                expect(in ? MUST_OK : MUST_FAIL, q, "writing a value");
                if (q.ok() && in) cv[k].v[c * cv[k].np + p] = val;
                rec(uint64_t(q.kind) ^ check(cv[k], "write"));
            }
            else if (what == "get") {
                if (!cv[k].o) { rec(0); return; }
                size_t c = size_t(o.arg(1)), p = size_t(o.arg(2));
                if (o.arg(3) && cv[k].nc > 8) c = size_t(o.arg(3)) % cv[k].nc;
                bool in = c < cv[k].nc && p < cv[k].np;
                double d = 0;
                const CV& kk = *cv[k].o;
                Outcome q = act(o, [&] { d = kk(CV::ConnID{c}, CV::PhaseID{p}); });
                expect(in ? MUST_OK : MUST_FAIL, q, "reading a value");
                if (checks && in && q.ok() && memcmp(&d, &cv[k].v[c * cv[k].np + p], 8)) rt::fail("wrong-contents", "a value table does not hold the value written last");
                rec(Hash().u(uint64_t(q.kind)).d(d).h);
            }
            else if (!transfer(o, cv, [](CVs& a, CVs& b) { a.nc = b.nc; a.np = b.np; a.v = b.v; })) rt::fail("harness", "unknown operation " + o.name);
        }
        else if (fam == "cg") {
            if (what == "new") {
                Rng r(mix(uint64_t(o.arg(1)), 67));
                int kind = int(o.arg(2));
                int nc = r.chance(100) ? r.range(13, 100000) : r.chance(150) ? r.range(13, 300) : r.range(1, 12);
                std::vector<int> nb;
                for (int i = 0, m = r.chance(6) ? r.range(20000, 140000) : r.chance(100) ? r.range(16, 400) : r.range(kind >= 2 ? 1 : 0, 15); i < m; ++i) { nb.push_back(int(r.below(uint64_t(nc)))); nb.push_back(int(r.below(uint64_t(nc)))); }
                bool bad = false;
                if (kind == 1) { nb.push_back(int(r.below(uint64_t(nc)))); bad = true; }
                size_t spot = r.chance(250) ? nb.size() - 1 : r.chance(150) ? 0 : r.below(nb.size() + nb.empty());
                if (kind == 2) { nb[spot] = r.chance(100) ? 2147483647 : nc + int(r.below(3)); bad = true; }
                if (kind == 3) { nb[spot] = r.chance(100) ? -2147483647 - 1 : r.chance(100) ? -nc : -1 - int(r.below(3)); bad = true; }
                Box<FD::ConnectivityGraph> b;
                auto in = mkClient<std::vector<int>>(nb);
                Outcome q = b.build(spec(o), [&](void* p) { new (p) FD::ConnectivityGraph(nc, *in); });
                noteOutcome(q);
                expect(bad ? MUST_FAIL : MUST_OK, q, "ConnectivityGraph()");
                if (q.ok()) { cg[k].o = std::move(b); cg[k].nc = nc; cg[k].nb = nb; }
                rec(uint64_t(q.kind) ^ check(cg[k], "construction"));
            }
            else if (!transfer(o, cg, [](CG& a, CG& b) { a.nc = b.nc; a.nb = b.nb; })) rt::fail("harness", "unknown operation " + o.name);
        }
        else if (o.name == "call") rec(checkAll("later operations"));
        else rt::fail("harness", "unknown operation " + o.name);
        if (checks && curOp % 5 == 4) checkAll("later operations");
    }
    void finish() override
    {
        if (checks) checkAll("at the end");
        for (auto& c : cs) c.o.destroy();
        for (auto& c : cv) c.o.destroy();
        for (auto& c : cg) c.o.destroy();
    }
};

struct RandomWorld : World {
    struct R { Box<Opm::RandomVector> o; uint64_t lastHash[2] = {0, 0}; double lastFirst = 1e300; std::vector<Op> hist; Trace out; };
    std::vector<R> rv;
    struct Closed { std::vector<Op> hist; Trace out; };
    std::vector<Closed> closed;            // complete histories of single objects
    explicit RandomWorld(const Plan& p) { rv.resize(size_t(p.c("rvobjs", 3))); }

    void close(R& r) { if (!r.hist.empty()) closed.push_back({r.hist, r.out}); r.hist.clear(); r.out = Trace(); r.lastHash[0] = r.lastHash[1] = 0; r.lastFirst = 1e300; r.o.destroy(); }
    bool make(R& r, const Op& o)
    {
        close(r);
        Outcome q = r.o.build(spec(o), [&](void* p) { new (p) Opm::RandomVector(); });
        noteOutcome(q);
        expect(MUST_OK, q, "RandomVector()");
        return q.ok();
    }
    void op(const Op& o) override
    {
        R& r = rv[size_t(o.arg(0)) % rv.size()];
        if (o.name == "rvnew") { bool ok = make(r, o); rec(ok); return; }
        if (!r.o) { Op n; n.name = "RandomVector()"; make(r, n); }
        size_t n = size_t(o.arg(1));
        uint64_t h = 0;
        Outcome q;
        char b[160];
        if (o.name == "rvnor") {
            Opm::RandomVector::Sample s;
            double mean = double(o.arg(2)) / 4.0, dev = 0.25 * double(1 + o.arg(3));
            bool dflt = o.arg(2) == 0 && o.arg(3) == 3;
            q = act(o, [&] { s = dflt ? r.o->normal(n) : r.o->normal(n, mean, dev); }, 400000 + 4000 * n);
            expect(MUST_OK, q, "normal");
            if (q.ok()) {
                h = Hash().v(s).h;
                if (checks) {
                    if (s.size() != n) rt::fail("wrong-size", "a sample does not have the requested length");
                    for (double d : s) if (!(d > mean - 60 * dev && d < mean + 60 * dev)) { snprintf(b, sizeof b, "sample %g is not from the requested distribution", d); rt::fail("wrong-sample", b); }
                    if (n >= 500) {
                        double sum = 0, sq = 0;
                        for (double d : s) { sum += (d - mean) / dev; sq += (d - mean) / dev * ((d - mean) / dev); }
                        sum /= double(n); sq /= double(n);
                        // Ten standard errors and more.
                        if (sum < -0.5 || sum > 0.5 || sq < 0.35 || sq > 1.9) { snprintf(b, sizeof b, "%zu samples have mean %+.3g and variance %.3g in units of the requested deviation", n, sum, sq); rt::fail("wrong-sample", b); }
                    }
                    if (n) {
                        double z = (s[0] - mean) / dev, d = z - r.lastFirst;
                        if (d > -1e-11 && d < 1e-11) rt::fail("repeated-stream", "a request begins with the sample the previous one began with");
                        r.lastFirst = z;
                    }
                    // Standardised, so that repeated streams show also under another mean and deviation.
                    uint64_t z = 1469598103934665603ull;
                    for (size_t i = 0; i < s.size() && i < 4; ++i) { float f = float((s[i] - mean) / dev); f = float(long(f * 1000)); z = rt::fnv(&f, 4, z); }
                    if (n >= 4) { if (z == r.lastHash[0]) rt::fail("repeated-stream", "a request repeats the samples of the previous one"); r.lastHash[0] = z; }
                }
            }
        }
        else if (o.name == "rvidx") {
            std::vector<int> s;
            int mx = int(o.arg(2));
            q = act(o, [&] { s = r.o->index(n, mx); }, 400000 + 4000 * n);
            expect(MUST_OK, q, "index");
            if (q.ok()) {
                h = Hash().v(s).h;
                if (checks) {
                    if (s.size() != n) rt::fail("wrong-size", "a sample does not have the requested length");
                    // (1 - 1/4)^500 is far below any chance of ever being seen.
                    if (n >= 500 && mx <= 3 && (!std::count(s.begin(), s.end(), 0) || !std::count(s.begin(), s.end(), mx))) rt::fail("wrong-sample", "the ends of the range are never drawn");
                    if (n >= 500 && mx > 3 && (*std::min_element(s.begin(), s.end()) > mx / 4 + 1 || *std::max_element(s.begin(), s.end()) < mx - mx / 4 - 1)) rt::fail("wrong-sample", "part of the range is never drawn");
                    for (int d : s) if (d < 0 || d > mx) { snprintf(b, sizeof b, "index %d outside 0..%d", d, mx); rt::fail("wrong-sample", b); }
                    if (n >= 8 && mx >= 1000) { uint64_t z = Hash().u(uint64_t(mx)).v(s).h; if (z == r.lastHash[1]) rt::fail("repeated-stream", "a request repeats the samples of the previous one"); r.lastHash[1] = z; }
                }
            }
        }
        else rt::fail("harness", "unknown operation " + o.name);
        h ^= uint64_t(q.kind) << 56;
        rec(h);
        Op c = o; c.a[0] = 0;
        if (q.fired) r.out.fires.push_back(uint64_t(r.out.dig.size()) << 8 | uint64_t(q.kind));
        r.hist.push_back(c); r.out.dig.push_back(h);
    }
    void finish() override { for (auto& r : rv) close(r); }
};

} // namespace

std::unique_ptr<World> makeContainerWorld(const Plan& p, const char*) { return std::unique_ptr<World>(new ContainerWorld(p)); }
std::unique_ptr<World> makeRandomWorld(const Plan& p, const char*) { return std::unique_ptr<World>(new RandomWorld(p)); }

// Histories of single random vectors, for the isolation check.
std::vector<std::pair<std::vector<Op>, Trace>> randomHistories(World& w)
{
    std::vector<std::pair<std::vector<Op>, Trace>> v;
    for (auto& c : static_cast<RandomWorld&>(w).closed) v.push_back({c.hist, c.out});
    return v;
}
