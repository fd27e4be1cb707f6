// Random operations of each world.
#include "worlds.hpp"

static int pick(Rng& r, std::initializer_list<int> weights)
{
    int t = 0;
    for (int w : weights) t += w;
    int x = int(r.below(uint64_t(t))), k = 0;
    for (int w : weights) { if (x < w) return k; x -= w; ++k; }
    return 0;
}

void genCfg(int kind, Plan& p, Rng& r, int size)
{
    p.cfg["efill"] = r.range(0, 6);
    p.cfg["ereuse"] = r.range(0, 2);
    p.cfg["epad"] = r.chance(500) ? 0 : r.range(1, 4);
    p.cfg["eseed"] = long(r.below(1u << 20));
    if (kind == W_TOOLBOX) p.cfg["cin"] = pick(r, {40, 30, 30});
    if (kind == W_TOOLBOX || kind == W_SOLVER) {
        for (const char* m : {"m1", "m2"}) {
            std::string s = m;
            p.cfg[s + "k"] = r.range(0, 6);
            int a = r.range(1, 6), b = r.range(1, 4);
            if (size >= 1 && r.chance(80)) { a = r.range(6, 12); b = r.range(4, 9); }
            if (size >= 1 && r.chance(12)) { a = r.range(14, 24); b = r.range(12, 24); }
            if (size >= 2 && r.chance(150)) { a = r.range(8, 20); b = r.range(6, 15); }
            p.cfg[s + "a"] = a; p.cfg[s + "b"] = b;
            p.cfg[s + "s"] = long(r.below(1000));
            p.cfg[s + "fs"] = long(r.below(100000)); p.cfg[s + "fk"] = pick(r, {20, 35, 8, 10, 15, 2, 10, 8, 8});
            p.cfg[s + "ws"] = long(r.below(100000)); p.cfg[s + "wk"] = r.range(0, 8);
            p.cfg[s + "ps"] = long(r.below(100000)); p.cfg[s + "pk"] = r.range(0, 2);
            p.cfg[s + "rev"] = r.range(0, 1);
            static const int units[] = {-70, -40, -20, 20, 40};
            p.cfg[s + "u"] = r.chance(700) ? 0 : units[r.below(5)];      // other units of volume and rate
        }
    }
    if (kind == W_CONN) p.cfg["rows"] = size >= 1 && r.chance(30) ? r.range(200, 4000) : r.chance(100) ? r.range(12, 60) : r.range(1, 9);
    if (kind == W_RANDOM) p.cfg["rvobjs"] = r.range(1, 3);
}

static long phases(Rng& r) { return r.chance(20) ? 0 : r.chance(60) ? r.range(4, 7) : r.range(1, 3); }
static void genToolbox(Plan& p, Rng& r, int n, int flags, int thr)
{
    long base = long(r.below(1000000));
    bool keep = p.c("keep"), dq = p.c("dq");
    long slots = r.chance(350) ? 2 : 1;
    auto sd = [&](int k) { return base + 10 * k + long(r.below(3)); };
    // Often the new input is the previous one with a small change (or none).
    std::vector<long> prev[2][3];
    auto vary = [&](long s, int what, std::vector<long> a) {
        std::vector<long>& q = prev[s][what];
        if (!q.empty() && r.chance(400)) { a = q; a[1] = (a[1] & 0xffffff) + (r.chance(850) ? (1 + long(r.below(200))) << 24 : 0); }
        q = a;
        return a;
    };
    bool first[2] = {true, true};
    for (int i = 0; i < n; ++i) {
        long s = long(r.below(uint64_t(slots)));
        if (first[s]) {
            first[s] = false;
            if (r.chance(700)) p.add("new", {s, r.range(0, 1)}, thr);
            std::vector<int> w{0, 1, 2};
            r.shuffle(w);
            for (int x : w) {
                if (r.chance(60)) continue;
                if (x == 0) p.add("pv", vary(s, 0, {s, sd(1), pick(r, {60, 20, 20})}), thr);
                if (x == 1) p.add("fl", vary(s, 1, {s, sd(2), pick(r, {25, 30, 8, 10, 12, 3, 12, 8, 8}), phases(r)}), thr);
                if (x == 2) p.add("in", vary(s, 2, {s, sd(3), pick(r, {50, 10, 15, 8, 7, 10, 6, 8, 4})}), thr);
            }
            continue;
        }
        bool bad = (flags & 1) && r.chance(200);
        int k = pick(r, {12, 16, 16, 22, 22, 3, 2, 1, dq ? 60 : keep ? 25 : 4});
        size_t at = p.ops.size();
        switch (k) {
        case 0: if (bad) p.add("pv", {s, sd(1), r.range(10, 11)}, thr); else p.add("pv", vary(s, 0, {s, sd(1), pick(r, {60, 20, 20})}), thr); break;
        case 1: {
            std::vector<long> a = vary(s, 1, {s, sd(2), pick(r, {25, 30, 8, 10, 12, 3, 12, 8, 8}), phases(r)});
            if (bad) a[2] += r.chance(500) ? 10 : 20;
            p.add("fl", a, thr);
            break;
        }
        case 2: {
            std::vector<long> a = vary(s, 2, {s, sd(3), pick(r, {50, 10, 15, 8, 7, 10, 6, 8, 4})});
            if (bad) a[2] += 10 * r.range(1, 3);
            p.add("in", a, thr);
            break;
        }
        case 3: case 4: p.add(k == 3 ? "inj" : "prod", {s, sd(4), bad ? (r.chance(400) ? 3 : r.chance(600) ? 4 : 6) : pick(r, {60, 25, 5, 0, 0, 6, 0, 6})}, thr); break;
        case 5: p.add("mvc", {s}, thr); break;
        case 6: if (slots == 2) p.add("mva", {s}, thr); break;
        case 7: p.add("new", {s, r.range(0, 1)}, thr); first[s] = true; break;
        default:
            switch (dq ? pick(r, {3, 6, 3, 3, 2, 3, 80}) : pick(r, {25, 25, 10, 10, 10, 20, 20})) {
            case 0: p.add("squery", {long(r.below(8))}, thr); break;
            case 1: p.add("scopy", {long(r.below(8)), long(r.below(6))}, thr); break;
            case 2: p.add("smove", {long(r.below(8))}, thr); break;
            case 3: p.add("sdel", {long(r.below(8))}, thr); break;
            case 4: p.add("sassign", {long(r.below(8)), long(r.below(1000)), r.range(0, 2)}, thr); break;
            case 6: p.add("dq", {long(r.below(8)), long(r.below(8)), long(r.below(1u << 24))}, thr); break;
            default: p.add("derive", {long(r.below(8)), long(r.below(4)), long(r.below(6))}, thr); break;
            }
        }
        if ((flags & 2) && p.ops.size() > at && r.chance(450)) {
            // The same operation attempted several times, failing at different points.
            Op o = p.ops.back();
            p.ops.back().f = randomFault(r);
            for (int t = r.range(0, 2); t > 0; --t) { o.f = randomFault(r); p.ops.push_back(o); }
            if (r.chance(350)) { o.f = rt::Fault(); p.ops.push_back(o); }
            if (r.chance(500)) p.add(r.chance(500) ? "inj" : "prod", {s, sd(4), 0}, thr);
        }
        else if (bad && r.chance(500)) p.add(r.chance(500) ? "inj" : "prod", {s, sd(4), 0}, thr);
    }
    // Always end with runs that show the state.
    for (long s = 0; s < slots; ++s) { p.add("inj", {s, sd(4), 0}, thr); p.add("prod", {s, sd(4), 0}, thr); }
}

static void genSolver(Plan& p, Rng& r, int n, int flags, int thr)
{
    for (int i = 0; i < n; ++i) {
        long k = r.chance(800) ? 0 : 1;
        switch (pick(r, {5, 35, 60})) {
        case 0: p.add("snew", {k}, thr); break;
        case 1: p.add("sglob", {k}, thr); break;
        default: p.add("sloc", {k, long(r.below(8)), (flags & 1) && r.chance(250) ? (r.chance(450) ? 5 : r.chance(700) ? 4 : 3) : r.chance(60) ? 2 : 0}, thr); break;
        }
        if ((flags & 2) && r.chance(350)) p.ops.back().f = randomFault(r);
    }
}

static long tarjanSize(Rng& r, int size)
{
    int k = pick(r, {55, 25, 12, size >= 1 ? 8 : 0});
    return k == 0 ? r.range(0, 12) : k == 1 ? r.range(0, 60) : k == 2 ? r.range(50, 300) : r.range(1000, 1500);
}
static void genTarjan(Plan& p, Rng& r, int n, int flags, int thr, int size)
{
    long base = long(r.below(1000000));
    bool bigWs = r.chance(500);
    if (bigWs) for (long s = 0; s < 3; ++s) if (r.chance(600)) p.add("ws", {s, tarjanSize(r, size) + r.range(0, 40), 0}, thr);
    for (int i = 0; i < n; ++i) {
        switch (pick(r, {6, 22, 40, 18, 5, 4})) {
        case 0: p.add("ws", {r.range(0, 2), tarjanSize(r, size), 0}, thr); break;
        case 1: p.add("tar", {base + long(r.below(4)), pick(r, {30, 8, 12, 12, 14, 4, 6, 6, 8}), tarjanSize(r, size)}, thr); break;
        case 2: p.add("rch", {base + long(r.below(4)), pick(r, {30, 8, 12, 12, 14, 4, 6, 6, 8}), tarjanSize(r, size), r.range(0, 2), long(r.below(1000))}, thr); break;
        case 3: p.add("rev", {r.range(0, 5)}, thr); break;
        case 4: p.add("dres", {r.range(0, 5)}, thr); break;
        default: p.add("tchk", {}, thr); break;
        }
        if ((flags & 2) && r.chance(350)) p.ops.back().f = randomFault(r);
    }
}

static void genConn(Plan& p, Rng& r, int n, int flags, int thr)
{
    long rows = p.c("rows", 6);
    int style = r.chance(150) ? 1 : 0;                  // unweighted histories
    long slots = r.chance(500) ? 1 : 3;
    for (int i = 0; i < n; ++i) {
        long s = long(r.below(uint64_t(slots)));
        int st = style ^ (r.chance(60) ? 1 : 0);
        bool bad = (flags & 1) && r.chance(150);
        switch (pick(r, {18, 30, 34, 3, 3, 3, 3, 2, 4})) {
        case 0: p.add("add", {s, long(r.below(uint64_t(rows))), long(r.below(uint64_t(rows + 2))), st & 1 ? 0 : 1 + long(r.below(1u << 24))}, thr); break;
        case 1: p.add("adds", {s, long(r.below(1u << 24)), rows >= 200 && r.chance(300) ? r.range(100, 1500) : r.chance(100) ? r.range(20, 70) : r.range(1, 12), (st & 1) | (r.chance(200) ? 2 : 0) | (bad ? 5 : 0)}, thr); break;
        case 2: p.add("cmp", {s, bad ? -1 - (r.chance(300) ? r.range(2, 3) : 0) : r.chance(500) ? -2 : r.range(0, 3)}, thr); break;
        case 3: p.add("acopy", {s, r.range(0, 2)}, thr); break;
        case 4: p.add("amove", {s, r.range(0, 2)}, thr); break;
        case 5: p.add("aassign", {s, r.range(0, 2)}, thr); break;
        case 6: p.add("amassign", {s, r.range(0, 2)}, thr); break;
        case 7: p.add("anew", {s}, thr); break;
        default: p.add("achk", {0}, thr); break;
        }
        if ((flags & 2) && r.chance(400)) {
            Op o = p.ops.back();
            p.ops.back().f = randomFault(r);
            if (o.name == "cmp") for (int t = r.range(0, 2); t > 0; --t) { o.f = randomFault(r); p.ops.push_back(o); }
            if (o.name == "cmp" && r.chance(500)) { o.f = rt::Fault(); p.ops.push_back(o); }
        }
    }
    if (!(flags & 4)) for (long s = 0; s < slots; ++s) p.add("cmp", {s, -2}, thr);
}

static void genDump(Plan& p, Rng& r, int n, int flags, int thr)
{
    for (int i = 0; i < n; ++i) {
        long s = long(r.below(2));
        for (int k = r.range(1, 3); k > 0; --k) p.add("adds", {s, long(r.below(1u << 24)), r.range(1, 12), r.chance(200) ? 2 : 0}, thr);
        p.add("cmp", {s, r.chance(500) ? -2 : r.range(0, 3)}, thr);
        for (int k = r.range(1, 5); k > 0; --k) {
            int sink = r.chance(300) ? 0 : r.range(1, 3);
            p.add("dump", {s, long(r.below(1u << 24)), sink, r.chance(150) ? (r.chance(500) ? 0 : 999) : long(r.below(1050)), r.range(0, 3), r.chance(600) ? 0 : r.range(1, 40)}, thr);
            if ((flags & 2) && r.chance(150)) p.ops.back().f = randomFault(r);
        }
    }
}

static void genCont(Plan& p, Rng& r, int n, int flags, int thr)
{
    for (int i = 0; i < n; ++i) {
        long k = r.range(0, 2), t = r.range(0, 2);
        bool bad = (flags & 1) && r.chance(250);
        static const char* xf[] = {"copy", "asg", "move", "masg"};
        std::string x = xf[pick(r, {30, 35, 15, 20})];
        switch (pick(r, {8, 14, 6, 12, 10, 16, 8, 12, 12, 10, 3})) {
        case 0: p.add("csnew", {k, long(r.below(1u << 24)), r.range(0, 1)}, thr); break;
        case 1: p.add("csins", {k, long(r.below(30)) - (r.chance(100) ? 40 : 0)}, thr); break;
        case 2: p.add("csinsn", {k, long(r.below(20)), r.chance(50) ? r.chance(60) ? r.range(1000, 2000) : r.range(50, 500) : r.range(1, 15)}, thr); break;
        case 3: p.add("cs" + x, {k, t}, thr); break;
        case 4: p.add("cvnew", {k, r.chance(2) ? r.range(20000, 140000) : r.chance(60) ? r.range(9, 400) : r.range(0, 8), r.chance(60) ? r.range(4, 9) : r.range(0, 3)}, thr); break;
        case 5: p.add("cvset", {k, bad ? r.range(6, 12) : r.range(0, 7), bad && r.chance(400) ? r.range(2, 4) : r.range(0, 2), r.range(-1000, 1000), bad || r.chance(400) ? 0 : long(r.below(1u << 24))}, thr); break;
        case 6: p.add("cvget", {k, bad ? r.range(6, 12) : r.range(0, 7), r.range(0, bad ? 4 : 2), bad || r.chance(400) ? 0 : long(r.below(1u << 24))}, thr); break;
        case 7: p.add("cv" + x, {k, t}, thr); break;
        case 8: p.add("cgnew", {k, long(r.below(1u << 24)), bad ? r.range(1, 3) : 0}, thr); break;
        case 9: p.add("cg" + x, {k, t}, thr); break;
        default: p.add("call", {}, thr); break;
        }
        if ((flags & 2) && r.chance(350)) p.ops.back().f = randomFault(r);
    }
}

static void genRandom(Plan& p, Rng& r, int n, int flags, int thr)
{
    long objs = p.c("rvobjs", 3);
    std::vector<Op> pool;                                // same requests to several objects
    for (int i = 0; i < n; ++i) {
        long k = long(r.below(uint64_t(objs)));
        int len = r.chance(8) ? r.range(1000, 6000) : r.chance(100) ? r.range(100, 700) : r.range(0, 24);
        switch (pick(r, {6, 40, 40, 20})) {
        case 0: p.add("rvnew", {k}, thr); break;
        case 1: { bool d = r.chance(300); p.add("rvnor", {k, len, d ? 0 : r.range(-8, 8), d ? 3 : r.range(0, 7)}, thr); break; }
        case 2: p.add("rvidx", {k, len, r.chance(300) ? r.range(0, 3) : r.chance(100) ? 2147483647 : r.range(4, 100000)}, thr); break;
        default: if (!pool.empty()) { Op o = pool[r.below(pool.size())]; o.a[0] = k; o.f = rt::Fault(); p.ops.push_back(o); } else p.add("rvnor", {k, len, 0, 3}, thr); break;
        }
        if (p.ops.back().name != "rvnew") pool.push_back(p.ops.back());
        if ((flags & 2) && r.chance(150)) p.ops.back().f = randomFault(r);
    }
}

void genOps(int kind, Plan& p, Rng& r, int n, int flags, int thr, int size)
{
    switch (kind) {
    case W_TOOLBOX: genToolbox(p, r, n, flags, thr); break;
    case W_SOLVER: genSolver(p, r, n, flags, thr); break;
    case W_TARJAN: genTarjan(p, r, n, flags, thr, size); break;
    case W_CONN: if (flags & 8) genDump(p, r, n, flags, thr); else genConn(p, r, n, flags, thr); break;
    case W_CONT: genCont(p, r, n, flags, thr); break;
    default: genRandom(p, r, n, flags, thr); break;
    }
    if (p.ops.size() > size_t(rt::kMaxOps) - 8) p.ops.resize(size_t(rt::kMaxOps) - 8);
}
