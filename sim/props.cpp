// The workload and the deciding check of each property.
#include "toolbox.hpp"
#include "growth.hpp"
#include <algorithm>
#include <cstring>

struct ReaderObjects;
std::shared_ptr<ReaderObjects> makeReaderObjects(const Plan&);
std::unique_ptr<World> makeReaderWorld(std::shared_ptr<ReaderObjects>);
void genReaders(Plan&, Rng&, int n, int flags, int thr);

static rt::Env envOf(const Plan& p)
{
    rt::Env e;
    e.fill = int(p.c("efill", 2)); e.reuse = int(p.c("ereuse", 0)); e.pad = int(p.c("epad", 0)); e.seed = uint64_t(p.c("eseed", 1));
    return e;
}
static std::vector<Op> threadOps(const Plan& p, int t, std::vector<int>* idx = nullptr)
{
    std::vector<Op> v;
    for (size_t i = 0; i < p.ops.size(); ++i) if (p.ops[i].thr == t) { v.push_back(p.ops[i]); if (idx) idx->push_back(int(i)); }
    return v;
}
static void noteCase(World& w) { Hash h; h.v(w.dig); if (rt::st && !probing) rt::setInsert(rt::st->cases, &rt::st->ncases, h.h); }

// ------------------------------------------------------------------ plain histories
static void runHistory(const Plan& p)
{
    rt::setEnv(envOf(p));
    auto w = makeWorld(int(p.c("wk")), p);
    if (p.c("paint", -1) >= 0) w->paint = int(p.c("paint"));
    playOps(*w, p.ops);
    noteCase(*w);
}
static void genToolboxHistory(Plan& p, Rng& r, bool deep, int flags, int twin, int ref, int keep)
{
    p.cfg["wk"] = W_TOOLBOX;
    p.cfg["twin"] = twin; p.cfg["ref"] = ref; p.cfg["keep"] = keep;
    p.cfg["maxres"] = keep ? r.range(2, 7) : 2;
    genCfg(W_TOOLBOX, p, r, deep ? 2 : 1);
    genOps(W_TOOLBOX, p, r, deep ? r.range(8, 60) : r.range(5, 26), flags);
}
// A large model with large recirculating regions.
static void bigMesh(Plan& p, Rng& r, const std::string& m)
{
    p.cfg[m + "k"] = r.chance(300) ? 4 : r.chance(400) ? 3 : r.chance(500) ? 0 : 5;
    p.cfg[m + "a"] = r.range(14, 30); p.cfg[m + "b"] = r.range(10, 24);
}
static void genBigHistory(Plan& p, Rng& r)
{
    p.cfg["wk"] = W_TOOLBOX;
    p.cfg["twin"] = 1; p.cfg["ref"] = 1; p.cfg["keep"] = 0; p.cfg["maxres"] = 2;
    genCfg(W_TOOLBOX, p, r, 1);
    bigMesh(p, r, "m1");
    long s = long(r.below(1000000));
    auto fl = [&] { p.add("fl", {0, s + long(r.below(3)), r.chance(400) ? 7 : r.chance(500) ? 1 : 4, 1 + long(r.below(3))}); };
    auto in = [&] { p.add("in", {0, s + long(r.below(3)), r.chance(700) ? 6 : 0}); };
    auto pv = [&] { p.add("pv", {0, s + long(r.below(3)), r.chance(700) ? 0 : r.range(1, 2)}); };
    p.add("new", {0, 0}); pv(); fl(); in();
    for (int i = r.range(1, 4); i > 0; --i) {
        p.add(r.chance(500) ? "inj" : "prod", {0, s + long(r.below(3)), r.chance(300) ? 1 : 0});
        if (r.chance(400)) fl();
        if (r.chance(200)) in();
        if (r.chance(200)) pv();
    }
    p.add("inj", {0, s, 0});
}
static void genHugeHistory(Plan& p, Rng& r)          // more than 65535 connections or cells
{
    p.cfg["wk"] = W_TOOLBOX;
    p.cfg["twin"] = 1; p.cfg["ref"] = 1; p.cfg["keep"] = 0; p.cfg["maxres"] = 1;
    genCfg(W_TOOLBOX, p, r, 1);
    p.cfg["m1k"] = r.chance(700) ? 0 : 1;
    p.cfg["m1a"] = r.range(185, 270); p.cfg["m1b"] = r.range(185, 270);
    long s = long(r.below(1000000));
    p.add("new", {0, 0});
    p.add("fl", {0, s, 0, 1 + long(r.below(3))}); p.add("pv", {0, s, 0}); p.add("in", {0, s, 6});
    p.add(r.chance(500) ? "inj" : "prod", {0, s, 0});
}
static void genC01(Plan& p, Rng& r, bool deep) { if (r.chance(1)) { genHugeHistory(p, r); return; } if (r.chance(deep ? 100 : 40)) { genBigHistory(p, r); return; } genToolboxHistory(p, r, deep, 1, 1, 1, 0); if (r.chance(250)) p.cfg["pristine"] = 1; }
static void genC02(Plan& p, Rng& r, bool deep) { genToolboxHistory(p, r, deep, 3, 1, r.chance(200), 0); if (r.chance(100)) p.cfg["pristine"] = 1; }
static void genC13(Plan& p, Rng& r, bool deep) { genToolboxHistory(p, r, deep, r.chance(600) ? 3 : 1, 0, 0, 1); }
static void genC24(Plan& p, Rng& r, bool deep)
{
    p.cfg["dq"] = 1;
    int flags = r.chance(600) ? 3 : 1;
    genToolboxHistory(p, r, deep, flags, 0, 1, r.chance(200));
    p.cfg["maxres"] = r.range(2, 6);
    for (int k = r.range(2, 10); k > 0; --k) p.add("dq", {long(r.below(8)), long(r.below(5)), long(r.below(1u << 24))});
}
static void genC16(Plan& p, Rng& r, bool deep)
{
    p.cfg["wk"] = W_SOLVER;
    genCfg(W_SOLVER, p, r, deep ? 2 : 1);
    if (r.chance(40)) { bigMesh(p, r, "m1"); p.cfg["m1fk"] = r.chance(500) ? 7 : 4; p.cfg["m1wk"] = 6; genOps(W_SOLVER, p, r, r.range(2, 5), 1); return; }
    if (r.chance(200)) p.cfg["pristine"] = 1;
    genOps(W_SOLVER, p, r, deep ? r.range(6, 50) : r.range(4, 20), r.chance(700) ? 3 : 1);
}
// Very large graphs, beyond 15- and 16-bit counts.
static void hugeGraph(Plan& p, Rng& r)
{
    long g = long(r.below(1000000)), n = r.range(20000, 90000), k = r.chance(500) ? 9 : r.range(0, 8);
    if (k == 7) k = 9;
    if (r.chance(500)) p.add("tar", {g, k, n}); else p.add("rch", {g, k, n, 0, long(r.below(1000))});
    if (r.chance(700)) p.add("rev", {0});
    if (r.chance(300)) p.add("rch", {g + 1, 0, r.range(10, 100), 0, long(r.below(1000))});
    p.add("tchk");
}
static void hugeConn(Plan& p, Rng& r)
{
    bool wide = r.chance(500);
    p.cfg["rows"] = wide ? r.chance(500) ? r.range(1, 40) : r.range(60000, 90000) : r.range(20000, 90000);
    for (int k = r.range(1, 2); k > 0; --k) {
        p.add("adds", {0, long(r.below(1u << 24)), r.range(20000, 90000), (r.chance(150) ? 1 : 0) | (wide ? 8 : 0)});
        p.add("cmp", {0, r.chance(500) ? -2 : 0});
        if (r.chance(300)) { p.add("adds", {0, long(r.below(1u << 24)), 20, 0}); p.add("cmp", {0, -2}); }
    }
}
static void genC05(Plan& p, Rng& r, bool deep)
{
    p.cfg["wk"] = W_TARJAN;
    genCfg(W_TARJAN, p, r, 1);
    if (r.chance(2)) { hugeGraph(p, r); return; }
    genOps(W_TARJAN, p, r, deep ? r.range(6, 60) : r.range(4, 26), r.chance(600) ? 2 : 0, 0, deep || r.chance(300) ? 1 : 0);
}
static void genC06(Plan& p, Rng& r, bool deep)
{
    p.cfg["wk"] = W_TARJAN;
    genCfg(W_TARJAN, p, r, 1);
    if (r.chance(2)) { hugeGraph(p, r); return; }
    for (int k = r.range(1, deep ? 8 : 4); k > 0; --k) {
        genOps(W_TARJAN, p, r, r.range(1, 4), 0, 0, deep || r.chance(250) ? 1 : 0);
        for (int m = r.range(1, 8); m > 0; --m) {
            p.add("rev", {r.range(0, 5)});
            if (r.chance(600)) p.ops.back().f = randomFault(r);
            if (r.chance(150)) p.add("tchk");
        }
    }
}
static void genC07(Plan& p, Rng& r, bool deep)
{
    p.cfg["wk"] = W_CONN;
    genCfg(W_CONN, p, r, 1);
    if (r.chance(1)) { hugeConn(p, r); return; }
    if (r.chance(300)) p.cfg["wsc"] = r.chance(500) ? r.range(-40, 60) : r.range(-900, 900);
    genOps(W_CONN, p, r, deep ? r.range(6, 80) : r.range(4, 36), 1);
}
static void genC08(Plan& p, Rng& r, bool deep)
{
    p.cfg["wk"] = W_CONN;
    genCfg(W_CONN, p, r, 1);
    if (r.chance(200)) p.cfg["wsc"] = r.range(-900, 900);
    genOps(W_CONN, p, r, deep ? r.range(6, 60) : r.range(4, 26), 3);
}
static void genC09(Plan& p, Rng& r, bool deep)
{
    p.cfg["wk"] = W_CONN;
    genCfg(W_CONN, p, r, 1);
    p.cfg["odd"] = r.chance(700);
    bool far = r.chance(2);                               // numbers of five and six digits
    if (far) p.cfg["rows"] = r.range(10000, 150000);
    genOps(W_CONN, p, r, far ? 1 : deep ? r.range(1, 8) : r.range(1, 4), 8 | (r.chance(300) ? 2 : 0));
}
static void genC15(Plan& p, Rng& r, bool deep)
{
    p.cfg["wk"] = W_CONT;
    genCfg(W_CONT, p, r, 1);
    genOps(W_CONT, p, r, deep ? r.range(10, 120) : r.range(8, 50), r.chance(700) ? 3 : 1);
}

// ------------------------------------------------------------------ C03: every allocation of an operation made to fail
static void genC03(Plan& p, Rng& r, bool deep)
{
    static const int kinds[] = {W_TOOLBOX, W_TOOLBOX, W_TOOLBOX, W_SOLVER, W_SOLVER, W_TARJAN, W_CONN, W_CONN, W_CONT, W_RANDOM};
    int kind = kinds[r.below(10)];
    p.cfg["wk"] = kind;
    p.cfg["all"] = 1;
    p.cfg["trials"] = deep ? 120 : 40;
    p.cfg["twin"] = 0; p.cfg["ref"] = 0; p.cfg["keep"] = kind == W_TOOLBOX && r.chance(400); p.cfg["maxres"] = 3;
    genCfg(kind, p, r, 0);
    genOps(kind, p, r, r.range(2, 8), kind == W_CONN && r.chance(300) ? 8 : 0, 0, 0);
    size_t n = p.ops.size();
    size_t keep = n / 2 + 1 + r.below(n - n / 2);
    if (keep < n) p.ops.resize(keep);
}
static uint64_t playTarget(const Plan& p, const Fault& f, Outcome& out, uint64_t* allocs)
{
    auto w = makeWorld(int(p.c("wk")), p);
    size_t n = p.ops.size();
    w->faults = true;
    for (size_t i = 0; i + 1 < n; ++i) { Op o = p.ops[i]; o.f = Fault(); w->step(o, int(i)); }
    Op o = p.ops[n - 1];
    o.f = f;
    rt::res->allocOf[n - 1] = 0;
    w->step(o, int(n - 1));
    out = w->last;
    if (allocs) *allocs = rt::res->allocOf[n - 1];
    uint64_t d = w->dig.empty() ? 0 : w->dig.back();
    w->checks = false;
    w->finish();
    return d;
}
static void runC03(const Plan& p)
{
    rt::setEnv(envOf(p));
    if (p.ops.empty()) return;
    FlowInputs::shared.reset();
    if (p.c("wk") == W_TOOLBOX) FlowInputs::shared = std::make_shared<FlowInputs>(p, "");
    Outcome out;
    uint64_t A = 0;
    uint64_t D0 = playTarget(p, Fault(), out, &A);
    std::vector<Fault> trials;
    if (p.ops.back().name == "dump") return;
    if (p.c("all")) {
        uint64_t lim = uint64_t(p.c("trials", 40));
        Rng r(mix(p.seed, 303));
        auto add = [&](int kind, uint64_t n, uint64_t m) { Fault f; f.kind = kind; f.n = n; f.m = m; trials.push_back(f); };
        for (uint64_t i = 1; i <= A; ++i) {
            if (A > lim && r.below(A) >= lim) continue;
            add(rt::F_ONE, i, 0);
            if (r.chance(300)) add(rt::F_FROM, i, 0);
            if (r.chance(150)) add(rt::F_BURST, i, 2 + r.below(3));
        }
        for (int k = 0; k < 3 && A; ++k) add(rt::F_BIG, 1 + r.below(A), 16u << r.below(7));
    }
    else if (p.ops.back().f.kind) trials.push_back(p.ops.back().f);
    const std::string name = p.ops.back().name;
    for (auto& f : trials) {
        rt::res->trialKind = f.kind; rt::res->trialN = f.n; rt::res->trialM = f.m;
        uint64_t live[4] = {rt::liveLib(), 0, 0, 0};
        for (int k = 1; k <= 3; ++k) {
            uint64_t D = playTarget(p, f, out, nullptr);
            probe(Probe::FAULTTRIAL);
            if (rt::st) rt::setInsert(rt::st->cases, &rt::st->ncases, mix(mix(D, D0), mix(f.kind, f.n)));
            char b[200];
            if (out.fired && D == D0) probe(Probe::TOLERATED);
            // 'adds'/'csinsn' report each inner call separately; their digest legitimately differs.
            if (out.ok() && D != D0 && name != "adds" && name != "csinsn" && name != "tar" && name != "rch" && name != "ws" && name != "rev") {
                snprintf(b, sizeof b, "'%s' reported success although allocation %llu of %llu failed, but its result differs from the fault-free one", name.c_str(), (unsigned long long)f.n, (unsigned long long)A);
                rt::fail("partial-result", b);
            }
            if ((name == "tar" || name == "rch") && D != D0 && D != 0) rt::fail("partial-result", "a component result obtained under a failing allocation differs from the fault-free one");
            live[k] = rt::liveLib();
            if (live[k] <= live[k - 1]) break;
            if (k == 3) {
                snprintf(b, sizeof b, "every repetition of '%s' with allocation %llu failing leaves %llu more block(s) behind", name.c_str(), (unsigned long long)f.n, (unsigned long long)(live[3] - live[2]));
                rt::fail("leak", b);
            }
        }
    }
    // Fault-free repetition does not leak either.
    rt::res->trialKind = 0;
    uint64_t live[4] = {rt::liveLib(), 0, 0, 0};
    for (int k = 1; k <= 3; ++k) {
        playTarget(p, Fault(), out, nullptr);
        live[k] = rt::liveLib();
        if (live[k] <= live[k - 1]) break;
        if (k == 3) rt::fail("leak", "every fault-free repetition of '" + name + "' leaves blocks behind");
    }
    probe(Probe::LEAKTRIAL);
    FlowInputs::shared.reset();
}

// ------------------------------------------------------------------ C04: bounded work, recovery
static void genC04(Plan& p, Rng& r, bool deep)
{
    if (r.chance(200)) {
        p.cfg["mode"] = 5;
        genCfg(W_CONN, p, r, 1);
        for (int i = r.range(1, 2); i > 0; --i) p.add("grow", {long(r.below(4)), r.range(900, deep ? 8000 : 2400), long(r.below(1000)), long(r.below(24)), long(r.below(3)), long(r.below(3))});
        return;
    }
    int mode = r.chance(700) ? 0 : r.range(1, 4);
    p.cfg["twin"] = 0; p.cfg["ref"] = 0; p.cfg["maxres"] = 2;
    long big = deep ? 60000 : 12000;
    if (mode == 0) {
        static const int kinds[] = {W_TOOLBOX, W_TOOLBOX, W_TOOLBOX, W_SOLVER, W_SOLVER, W_TARJAN, W_CONN, W_CONT};
        int kind = kinds[r.below(8)];
        p.cfg["wk"] = kind;
        genCfg(kind, p, r, deep ? 2 : 1);
        genOps(kind, p, r, r.range(4, 16), 1, 0, 0);
        for (auto& o : p.ops) if (r.chance(400)) o.f = randomFault(r);
    }
    else if (mode == 1) {
        p.cfg["wk"] = W_TARJAN;
        genCfg(W_TARJAN, p, r, 1);
        long s = long(r.below(100000));
        for (int i = r.range(1, 3); i > 0; --i) {
            static const int gk[] = {0, 1, 2, 3, 4, 5, 6, 8};
            long n = big / 8 + long(r.below(uint64_t(big))), kk = gk[r.below(8)];
            if (r.chance(500)) p.add("tar", {s, kk, n}); else p.add("rch", {s, kk, n, 0, long(r.below(1000))});
            p.add("rev", {0});
        }
    }
    else if (mode == 2) {
        p.cfg["wk"] = W_CONN;
        genCfg(W_CONN, p, r, 1);
        p.cfg["rows"] = big / 16 + long(r.below(uint64_t(big / 4)));
        for (int i = r.range(1, 2); i > 0; --i) { p.add("adds", {0, long(r.below(100000)), big / 8 + long(r.below(uint64_t(r.chance(300) ? 4 * big : big / 2))), r.range(0, 3) | (r.chance(200) ? 8 : 0)}); p.add("cmp", {0, -2}); }
    }
    else if (mode == 3) {
        p.cfg["wk"] = W_TOOLBOX;
        genCfg(W_TOOLBOX, p, r, 1);
        p.cfg["m1k"] = r.chance(400) ? 1 : r.chance(500) ? 0 : 4;
        p.cfg["m1a"] = 10 + long(r.below(uint64_t(big / 400))); p.cfg["m1b"] = 20 + long(r.below(40));
        long s = long(r.below(100000));
        bool wide = r.chance(300);                         // large enough for anything quadratic to stand out
        if (wide) { p.cfg["m1k"] = r.chance(700) ? 0 : 1; p.cfg["m1a"] = r.range(60, 130); p.cfg["m1b"] = r.range(60, 130); }
        long wells = r.chance(wide ? 600 : 300) ? 8 : r.chance(300) ? 6 : 0;
        if (r.chance(250)) {                               // the solver alone
            p.cfg["wk"] = W_SOLVER;
            genCfg(W_SOLVER, p, r, 1);
            if (wide) { p.cfg["m1k"] = r.chance(700) ? 0 : 1; p.cfg["m1a"] = r.range(60, 130); p.cfg["m1b"] = r.range(60, 130); }
            p.cfg["m1fk"] = wide || r.chance(600) ? 0 : 1; p.cfg["m1wk"] = wells;
            p.add("snew", {0}); p.add("sglob", {0}); p.add("sloc", {0, s, 0}); p.add("sloc", {0, s + 1, 0});
            p.cfg["mode"] = mode;
            return;
        }
        p.cfg["dq"] = 1; p.cfg["dqn"] = r.range(big / 4, big);
        p.add("new", {0, 0}); p.add("pv", {0, s, r.range(0, 2)}); p.add("fl", {0, s, wide || r.chance(600) ? 0 : r.chance(500) ? 1 : 3, r.range(1, 3)}); p.add("in", {0, s, wells});
        p.add("inj", {0, s, 0}); p.add("prod", {0, s, 0});
        for (int i = r.range(1, 3); i > 0; --i) p.add("dq", {long(r.below(8)), long(r.below(8)), long(r.below(1u << 24))});
    }
    else {
        p.cfg["wk"] = W_CONT;
        genCfg(W_CONT, p, r, 1);
        p.add("csnew", {0, 1, 0}); p.add("csinsn", {0, 5, big / 4}); p.add("cscopy", {0, 1});
        p.add("cvnew", {0, big / 8, 3}); p.add("cvcopy", {0, 1});
    }
    p.cfg["mode"] = mode;
}
static bool retriable(const std::string& n) { return n != "adds" && n != "csinsn" && n[0] != 'r' && n != "mva" && n != "amassign"; }
static void runC04(const Plan& p)
{
    rt::setEnv(envOf(p));
    FlowInputs::shared.reset();
    if (p.c("mode") == 5) {
        probe(Probe::GROWTH);
        for (size_t i = 0; i < p.ops.size(); ++i) { rt::res->curOp = int(i); growthOp(p.ops[i]); }
        return;
    }
    if (p.c("wk") == W_TOOLBOX) FlowInputs::shared = std::make_shared<FlowInputs>(p, "");
    auto w = makeWorld(int(p.c("wk")), p);
    std::unique_ptr<World> shadow;
    if (p.c("mode") == 0) { shadow = makeWorld(int(p.c("wk")), p); shadow->faults = false; }
    else probe(Probe::BIGMODEL);
    for (size_t i = 0; i < p.ops.size(); ++i) {
        Op o = p.ops[i];
        if (!shadow) { w->step(o, int(i)); continue; }
        Op clean = o; clean.f = Fault();
        shadow->step(clean, -1);
        uint64_t want = shadow->dig.empty() ? 0 : shadow->dig.back();
        if (!retriable(o.name)) { w->step(clean, int(i)); continue; }
        w->last = Outcome();
        w->step(o, int(i));
        bool failed = w->last.fired && (!w->last.ok() || w->dig.back() != want);
        if (failed && o.name == "rev" && w->last.ok() && w->dig.back() == want) failed = false;
        if (failed) {
            probe(Probe::RECOVERED);
            w->last = Outcome();
            w->step(clean, int(i));
            if (w->dig.back() != want) rt::fail("no-recovery", "'" + o.name + "', repeated after memory was available again, does not give its fault-free result");
        }
        else if (o.f.kind == 0 && !w->dig.empty() && w->dig.back() != want) rt::fail("no-recovery", "'" + o.name + "' after recovered memory failures does not give its fault-free result");
    }
    w->finish();
    if (shadow) shadow->finish();
    noteCase(*w);
    FlowInputs::shared.reset();
}

// ------------------------------------------------------------------ schedules
static void genSchedule(Plan& p, Rng& r, int nthr, bool deep)
{
    // Steps as parts per million of the concurrent phase until resolved.
    int style = r.range(0, 4);
    std::vector<uint64_t> at;
    int n = 0;
    switch (style) {
    case 0: n = r.range(1, 4); break;
    case 1: n = r.range(5, 30); break;
    case 2: n = r.range(30, deep ? 800 : 250); break;
    case 3: { n = r.range(4, 60); uint64_t c = r.below(1000000), w = 1 + r.below(50000); for (int i = 0; i < n; ++i) at.push_back((c + r.below(w)) % 1000000); n = 0; break; }   // cluster
    default: { n = r.range(10, deep ? 600 : 200); uint64_t q = 1000000 / uint64_t(n); for (int i = 0; i < n; ++i) at.push_back(q * uint64_t(i) + r.below(q + 1)); n = 0; break; }         // round robin
    }
    for (int i = 0; i < n; ++i) at.push_back(r.below(1000000));
    std::sort(at.begin(), at.end());
    int k = 0;
    int starved = r.chance(200) ? int(r.below(uint64_t(nthr))) : -1;
    if (starved >= 0) rt::countFault(rt::F_STARVE);
    for (auto s : at) {
        int to = style == 4 ? (++k) % nthr : int(r.below(uint64_t(nthr)));
        if (to == starved && nthr > 1) to = (to + 1) % nthr;
        p.sw.push_back({s, to});
    }
    p.cfg["first"] = starved >= 0 && nthr > 1 ? (starved + 1) % nthr : long(r.below(uint64_t(nthr)));
}

// ------------------------------------------------------------------ C10
static void genC10(Plan& p, Rng& r, bool deep)
{
    int n = r.chance(600) ? 2 : r.range(3, 4);
    p.cfg["nthr"] = n;
    p.cfg["twin"] = 0; p.cfg["ref"] = r.chance(200); p.cfg["maxres"] = 3; p.cfg["keep"] = 0; p.cfg["share"] = r.chance(600);
    static const int kinds[] = {W_TOOLBOX, W_TOOLBOX, W_SOLVER, W_SOLVER, W_TARJAN, W_TARJAN, W_CONN, W_RANDOM, W_CONT};
    int same = r.chance(600) ? kinds[r.below(9)] : -1;
    genCfg(W_TOOLBOX, p, r, 0); genCfg(W_CONN, p, r, 0); genCfg(W_RANDOM, p, r, 0);
    bool faults = r.chance(500);
    for (int t = 0; t < n; ++t) {
        int kind = same >= 0 ? same : kinds[r.below(9)];
        p.cfg["w" + std::to_string(t)] = kind;
        size_t from = p.ops.size();
        int fl = faults ? 3 : 1;
        if (kind == W_CONN && r.chance(300)) fl |= 8;
        if (t && same >= 0 && r.chance(400)) {                 // all threads do the same at the same time
            auto v = threadOps(p, 0);
            for (auto o : v) { o.thr = t; p.ops.push_back(o); }
        }
        else genOps(kind, p, r, kind == W_TOOLBOX ? r.range(2, 6) : r.range(2, 10), fl, t, 0);
        if (p.ops.size() > from + 40) p.ops.resize(from + 40);
    }
    genSchedule(p, r, n, deep);
}
static void compareThreads(const std::vector<std::unique_ptr<World>>& w, const std::vector<std::vector<uint64_t>>& solo, const std::vector<Cmp>& cmp)
{
    for (size_t t = 0; t < w.size(); ++t) {
        long i = firstDifference(unpack(pack(*w[t])), unpack(solo[t]), cmp[t]);
        if (i < 0) continue;
        char b[160];
        snprintf(b, sizeof b, "result %ld of thread %zu differs from what the thread gets when running alone", i, t);
        rt::fail("interference", b);
    }
}
static void runC10(const Plan& p)
{
    rt::setEnv(envOf(p));
    int n = int(p.c("nthr", 2));
    std::vector<std::vector<uint64_t>> solo(n);
    auto share = [&] { FlowInputs::shared.reset(); if (p.c("share")) FlowInputs::shared = std::make_shared<FlowInputs>(p, ""); };
    if (!probing) for (int t = 0; t < n; ++t) solo[t] = subRun([&] {
        share();
        auto w = makeWorld(int(p.c("w" + std::to_string(t))), p);
        playOps(*w, threadOps(p, t));
        return pack(*w);
    }, "thread running alone");
    share();
    std::vector<std::unique_ptr<World>> w;
    std::vector<std::function<void()>> fns;
    std::vector<std::vector<Op>> ops(n);
    std::vector<std::vector<int>> idx(n);
    for (int t = 0; t < n; ++t) {
        w.push_back(makeWorld(int(p.c("w" + std::to_string(t))), p));
        ops[t] = threadOps(p, t, &idx[t]);
    }
    for (int t = 0; t < n; ++t) fns.push_back([&, t] {
        for (size_t i = 0; i < ops[t].size(); ++i) { w[t]->step(ops[t][i], idx[t][i]); if (ops[t][i].f.kind && !probing) probe(Probe::CONCFAULT); }
        w[t]->finish();
    });
    rt::runThreads(fns, p.sw, int(p.c("first")));
    if (!probing) {
        std::vector<Cmp> cmp;
        for (int t = 0; t < n; ++t) cmp.push_back(p.c("w" + std::to_string(t)) == W_RANDOM ? Cmp::RANDOM : Cmp::HISTORY);
        compareThreads(w, solo, cmp);
    }
    for (auto& x : w) noteCase(*x);
    w.clear();
    FlowInputs::shared.reset();
}

// ------------------------------------------------------------------ C11
static void genC11(Plan& p, Rng& r, bool deep)
{
    int n = r.chance(500) ? 2 : r.range(3, 4);
    p.cfg["nthr"] = n;
    genCfg(W_TOOLBOX, p, r, 0); genCfg(W_CONN, p, r, 0);
    p.cfg["rseed"] = long(r.below(1u << 24));
    p.cfg["fk"] = r.chance(400) ? 0 : r.chance(500) ? 1 : 3;
    bool faults = r.chance(300);
    for (int t = 0; t < n; ++t) {
        if (t && r.chance(400)) { auto v = threadOps(p, 0); for (auto o : v) { o.thr = t; p.ops.push_back(o); } }
        else genReaders(p, r, r.range(2, deep ? 20 : 9), faults ? 2 : 0, t);
    }
    genSchedule(p, r, n, deep);
}
static void runC11(const Plan& p)
{
    rt::setEnv(envOf(p));
    int n = int(p.c("nthr", 2));
    FlowInputs::shared.reset();
    if (!FlowInputs(p, "").mesh[0].nconn()) return;
    auto objs = makeReaderObjects(p);
    std::vector<std::vector<Op>> ops(n);
    std::vector<std::vector<int>> idx(n);
    for (int t = 0; t < n; ++t) ops[t] = threadOps(p, t, &idx[t]);
    Op all; all.name = "qeverything";
    std::vector<std::vector<uint64_t>> solo(n + 1);
    if (!probing) {
        for (int t = 0; t <= n; ++t) solo[t] = subRun([&] {
            auto w = makeReaderWorld(objs);
            if (t < n) playOps(*w, ops[t]); else w->step(all, -1);
            return pack(*w);
        }, "single-threaded queries");
    }
    std::vector<std::unique_ptr<World>> w;
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < n; ++t) w.push_back(makeReaderWorld(objs));
    for (int t = 0; t < n; ++t) fns.push_back([&, t] {
        for (size_t i = 0; i < ops[t].size(); ++i) { w[t]->step(ops[t][i], idx[t][i]); probe(Probe::SHAREDREAD); }
        w[t]->finish();
    });
    rt::runThreads(fns, p.sw, int(p.c("first")));
    if (!probing) {
        for (auto& x : w) noteCase(*x);
        w.push_back(makeReaderWorld(objs));
        w.back()->step(all, -1);
        compareThreads(w, solo, std::vector<Cmp>(w.size(), Cmp::STATELESS));
    }
    w.clear();
}

// ------------------------------------------------------------------ C12
static void genC12(Plan& p, Rng& r, bool deep)
{
    static const int kinds[] = {W_TOOLBOX, W_TOOLBOX, W_TOOLBOX, W_TOOLBOX, W_SOLVER, W_SOLVER, W_TARJAN, W_CONN, W_CONT, W_RANDOM};
    int kind = kinds[r.below(10)];
    p.cfg["wk"] = kind;
    p.cfg["twin"] = 0; p.cfg["ref"] = 0; p.cfg["keep"] = kind == W_TOOLBOX && r.chance(400); p.cfg["maxres"] = 3;
    genCfg(kind, p, r, deep ? 2 : 1);
    p.cfg["variants"] = deep ? 10 : 6;
    p.cfg["vseed"] = long(r.below(1u << 24));
    genOps(kind, p, r, r.range(3, deep ? 30 : 14), (r.chance(500) ? 1 : 0) | (kind == W_CONN && r.chance(300) ? 8 : 0), 0, r.chance(200));
    for (auto& o : p.ops) if (o.name == "dump") o.a[2] = 0;
    if (kind == W_TOOLBOX && r.chance(600)) {
        p.cfg["rough"] = 1;
        for (auto& o : p.ops) if (o.name == "in" && o.a[2] < 10 && r.chance(300)) o.a[2] = 6;
    }
}
static void runC12(const Plan& p)
{
    Rng r(mix(uint64_t(p.c("vseed")), 5));
    std::vector<uint64_t> first;
    long only = p.c("only", -1);
    for (long v = 0; v < p.c("variants", 6); ++v) {
        rt::Env e;
        e.fill = v < 7 ? int(v) : r.range(0, 6); e.reuse = r.range(0, 2); e.pad = r.chance(400) ? 0 : r.range(1, 9); e.seed = r.next() & 0xffffff;
        int paint = r.range(0, 5);
        long perm = v ? long(1 + r.below(1u << 20)) : 0;
        if (v && only >= 0 && v != only) continue;
        std::vector<uint64_t> d = subRun([&] {
            rt::setEnv(e);
            Plan q = p;
            q.cfg["perm"] = perm;
            if (rt::res) rt::res->trialKind = int(v);
            auto w = makeWorld(int(p.c("wk")), q);
            w->checks = false;
            w->paint = paint;
            auto x = playOps(*w, p.ops);
            if (v == 0) noteCase(*w);
            return x;
        }, "memory environment");
        probe(Probe::ENVVAR);
        if (perm && p.c("wk") == W_TOOLBOX) probe(Probe::REORDER);
        if (v == 0) { first = d; continue; }
        rt::res->trialKind = int(v);
        for (size_t i = 0; i < d.size() || i < first.size(); ++i) if (i >= d.size() || i >= first.size() || d[i] != first[i]) {
            char b[200];
            snprintf(b, sizeof b, "result %zu of the sequence differs when only memory contents, heap layout, clock and the listing order of start sets change (environment %ld)", i, v);
            rt::fail("environment-dependence", b);
        }
    }
}

// ------------------------------------------------------------------ C14
static void genC14(Plan& p, Rng& r, bool deep)
{
    int n = r.range(1, 3);
    p.cfg["nthr"] = n;
    genCfg(W_RANDOM, p, r, 1);
    bool faults = r.chance(300);
    for (int t = 0; t < n; ++t) genOps(W_RANDOM, p, r, r.range(3, deep ? 40 : 16), faults ? 2 : 0, t);
    if (n > 1) genSchedule(p, r, n, deep);
}
static void runC14(const Plan& p)
{
    rt::setEnv(envOf(p));
    int n = int(p.c("nthr", 1));
    Pristine pr;
    Plan one = p;
    one.cfg["rvobjs"] = 1;
    auto fresh = [one](const std::vector<Op>& ops) { auto w = makeWorld(W_RANDOM, one); playOps(*w, ops); return pack(*w); };
    if (!probing) pr.start(fresh);
    std::vector<std::unique_ptr<World>> w;
    std::vector<std::function<void()>> fns;
    for (int t = 0; t < n; ++t) w.push_back(makeWorld(W_RANDOM, p));
    for (int t = 0; t < n; ++t) fns.push_back([&, t] {
        std::vector<int> idx;
        auto ops = threadOps(p, t, &idx);
        for (size_t i = 0; i < ops.size(); ++i) w[t]->step(ops[i], idx[i]);
        w[t]->finish();
    });
    if (n > 1) rt::runThreads(fns, p.sw, int(p.c("first"))); else fns[0]();
    if (probing) return;
    for (auto& x : w) {
        noteCase(*x);
        for (auto& h : randomHistories(*x)) {
            auto a = fresh(h.first);
            probe(Probe::TWIN);
            if (firstDifference(unpack(a), h.second, Cmp::RANDOM) >= 0) rt::fail("not-reproducible", "another random vector given the same requests produces other samples");
            auto b = pr.ask(h.first);
            if (firstDifference(unpack(b), h.second, Cmp::RANDOM) >= 0) rt::fail("not-reproducible", "a random vector in another process given the same requests produces other samples");
        }
    }
}

// ------------------------------------------------------------------
const std::vector<Property>& properties()
{
    static const std::vector<Property> v = {
        {"C01", genC01, runHistory, false},
        {"C02", genC02, runHistory, true},
        {"C03", genC03, runC03, false},
        {"C04", genC04, runC04, true},
        {"C05", genC05, runHistory, true},
        {"C06", genC06, runHistory, true},
        {"C07", genC07, runHistory, false},
        {"C08", genC08, runHistory, true},
        {"C09", genC09, runHistory, true},
        {"C10", genC10, runC10, true},
        {"C11", genC11, runC11, true},
        {"C12", genC12, runC12, false},
        {"C13", genC13, runHistory, true},
        {"C14", genC14, runC14, true},
        {"C15", genC15, runHistory, true},
        {"C16", genC16, runHistory, true},
        {"C24", genC24, runHistory, true},
    };
    return v;
}
const Property* findProperty(const std::string& id)
{
    for (auto& p : properties()) if (id == p.id) return &p;
    return nullptr;
}
