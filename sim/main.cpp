// Driver: seeded search over simulated executions, minimisation, replay, statistics.
#include "worlds.hpp"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iostream>
#include <locale>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

using rt::RunResult;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

struct Report { bool violated = false; std::string cls, detail; uint64_t hash = 0; };

struct Shared {                                   // between the workers of a search
    volatile long lowest;                         // lowest violating run index
    volatile long next[64];
    volatile long errors;
    char err[400];
    volatile long odd;                            // reports that did not repeat
    char oddText[400];
};
static Shared* sh;

static RunResult* newResult()
{
    void* p = mmap(nullptr, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return static_cast<RunResult*>(p);
}

// One execution in a process of its own.
static int wallLimit = 120;
static Report execute(const Property& pr, const Plan& p, bool probe)
{
    memset(rt::res, 0, sizeof *rt::res);
    fflush(nullptr);
    pid_t c = fork();
    if (c < 0) { perror("fork"); _exit(3); }
    if (c == 0) {
        setpgid(0, 0);
        alarm(unsigned(wallLimit));
        rt::childInit();
        probing = probe;
        gWorkLimit = double(p.c("wlim", 150000));
        try {
            pr.run(p);
            rt::res->hash = rt::logHash();
            rt::res->done = 1;
        }
        catch (rt::Violation& e) {
            snprintf(rt::res->cls, sizeof rt::res->cls, "%s", e.cls.c_str());
            snprintf(rt::res->detail, sizeof rt::res->detail, "%s", e.detail.c_str());
            rt::res->violated = 1; rt::res->hash = rt::logHash(); rt::res->done = 1;
        }
        catch (std::exception& e) {
            snprintf(rt::res->cls, sizeof rt::res->cls, "harness-exception");
            snprintf(rt::res->detail, sizeof rt::res->detail, "%s", e.what());
            rt::res->violated = 1; rt::res->done = 1;
        }
        _exit(rt::res->violated ? 42 : 0);
    }
    int stt = 0;
    while (waitpid(c, &stt, 0) < 0 && errno == EINTR) {}
    bool late = WIFSIGNALED(stt) && WTERMSIG(stt) == SIGALRM;
    if (late) kill(-c, SIGKILL);
    Report r;
    r.hash = rt::res->hash;
    if (rt::res->violated) { r.violated = true; r.cls = rt::res->cls; r.detail = rt::res->detail; }
    else if (late) { r.violated = true; r.cls = "wall-time"; r.detail = "the execution did not end within the wall-clock limit"; }
    else if (!rt::res->done) { r.violated = true; r.cls = "process-died"; r.detail = "the simulated process ended abnormally (status " + std::to_string(stt) + ")"; }
    __atomic_fetch_add(&rt::st->execs, 1, __ATOMIC_RELAXED);
    return r;
}

static bool simProblem(const std::string& cls) { return cls.compare(0, 4, "sim-") == 0 || cls == "harness" || cls == "wall-time"; }

static void resolve(Plan& p)
{
    for (size_t i = 0; i < p.ops.size(); ++i) {
        auto& f = p.ops[i].f;
        if (!f.kind) continue;
        uint64_t n = i < size_t(rt::kMaxOps) ? rt::res->allocOf[i] : 0;
        if (!n) { f = rt::Fault(); continue; }
        f.n = 1 + f.n * n / 1000;
    }
    uint64_t s = rt::res->phaseSteps;
    for (auto& w : p.sw) w.step = 1 + uint64_t(double(w.step) * 1e-6 * double(s));
    p.resolved = true;
}

// Generate and execute run number i. On a violation p holds the plan that shows it.
static Report oneRun(const Property& pr, uint64_t seed, long i, bool deep, Plan& p)
{
    uint64_t s = mix(mix(seed, rt::fnv(pr.id, strlen(pr.id))), uint64_t(i));
    p = Plan();
    p.prop = pr.id;
    p.seed = s;
    Rng r(s);
    pr.gen(p, r, deep);
    p.cfg["wlim"] = i % (deep ? 5 : 20) == 3 ? 1500000 : 150000;
    if (pr.needsProbe) {
        Plan q = p;
        for (auto& o : q.ops) o.f = rt::Fault();
        q.sw.clear();
        q.resolved = true;
        Report a = execute(pr, q, true);
        if (a.violated) { p = q; p.cfg["probe"] = 1; return a; }
        resolve(p);
    }
    else p.resolved = true;
    __atomic_fetch_add(&rt::st->runs, 1, __ATOMIC_RELAXED);
    return execute(pr, p, false);
}
static Report again(const Property& pr, const Plan& p) { return execute(pr, p, p.c("probe") != 0); }

// ------------------------------------------------------------------ minimisation
static Plan minimise(const Property& pr, Plan p, const std::string& cls, double seconds)
{
    double end = now() + seconds;
    int tries = 0;
    auto bad = [&](const Plan& q) {
        if (now() > end || tries > 3000) return false;
        ++tries;
        Report r = again(pr, q);
        return r.violated && r.cls == cls;
    };
    if (p.c("all")) {                                          // the one failing trial of an enumeration
        Report r = again(pr, p);
        (void)r;
        Plan q = p;
        q.cfg["all"] = 0;
        q.ops.back().f = rt::Fault();
        q.ops.back().f.kind = rt::res->trialKind; q.ops.back().f.n = rt::res->trialN; q.ops.back().f.m = rt::res->trialM;
        if (bad(q)) p = q;
    }
    if (p.cfg.count("variants")) {
        again(pr, p);
        Plan q = p;
        q.cfg["only"] = rt::res->trialKind;
        if (bad(q)) p = q;
    }
    bool changed = true;
    bool target = p.cfg.count("all");                          // last operation is the target
    while (changed && now() < end) {
        changed = false;
        // operations
        for (size_t len = std::max<size_t>(1, p.ops.size() / 2); len >= 1; len /= 2) {
            for (size_t at = 0; at + len <= p.ops.size() - (target && !p.ops.empty() ? 1 : 0);) {
                Plan q = p;
                q.ops.erase(q.ops.begin() + long(at), q.ops.begin() + long(at + len));
                if (bad(q)) { p = q; changed = true; } else at += len;
            }
            if (len == 1) break;
        }
        // switches
        for (size_t len = std::max<size_t>(1, p.sw.size() / 2); len >= 1 && !p.sw.empty(); len /= 2) {
            for (size_t at = 0; at + len <= p.sw.size();) {
                Plan q = p;
                q.sw.erase(q.sw.begin() + long(at), q.sw.begin() + long(at + len));
                if (bad(q)) { p = q; changed = true; } else at += len;
            }
            if (len == 1) break;
        }
        // faults
        for (size_t i = 0; i < p.ops.size(); ++i) {
            if (!p.ops[i].f.kind) continue;
            Plan q = p;
            q.ops[i].f = rt::Fault();
            if (bad(q)) { p = q; changed = true; continue; }
            if (p.ops[i].f.kind != rt::F_ONE) { q = p; q.ops[i].f.kind = rt::F_ONE; q.ops[i].f.m = 0; if (bad(q)) { p = q; changed = true; } }
        }
        // configuration and arguments towards small values
        for (auto& c : std::map<std::string, long>(p.cfg)) {
            static const std::set<std::string> fixed{"wk", "wlim", "all", "nthr", "w0", "w1", "w2", "w3", "probe", "mode", "vseed", "only", "variants", "twin", "ref", "keep", "share", "dq"};
            if (fixed.count(c.first)) continue;
            for (long v : {0l, 1l, c.second / 2, c.second - 1}) {
                if (v < 0 || v >= c.second) continue;
                Plan q = p;
                q.cfg[c.first] = v;
                if (bad(q)) { p = q; changed = true; break; }
            }
        }
        for (size_t i = 0; i < p.ops.size(); ++i) for (size_t k = 0; k < p.ops[i].a.size(); ++k) {
            long a = p.ops[i].a[k];
            for (long v : {0l, 1l, a / 2, a - 1}) {
                if (v < 0 || v >= a) continue;
                Plan q = p;
                q.ops[i].a[k] = v;
                if (bad(q)) { p = q; changed = true; break; }
            }
        }
    }
    return p;
}

// ------------------------------------------------------------------ output
static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static void writeStats(const std::string& path, const Property& pr, uint64_t seed, double wall, long lowest, const std::vector<std::string>& samples, long detOk)
{
    std::ofstream o(path);
    rt::Stats& s = *rt::st;
    uint64_t e = 0;
    for (size_t i = 0; i < rt::kEdgeMax; ++i) e += s.edge[i];
    o << "{\n \"property\": " << jstr(pr.id) << ", \"seed\": " << seed << ", \"wall\": " << wall << ",\n";
    o << " \"runs\": " << s.runs << ", \"executions\": " << s.execs << ", \"library_calls\": " << s.libCalls << ", \"steps\": " << s.steps << ", \"allocations\": " << s.allocs
      << ",\n \"failed_calls\": " << s.failedCalls << ", \"thread_switches\": " << s.switches << ", \"distinct_interleavings\": " << s.nscheds << ", \"distinct_fault_sites\": " << s.nsites
      << ",\n \"distinct_histories\": " << s.ncases << ", \"edges_covered\": " << e << ", \"edges_total\": " << rt::edgeTotal << ", \"max_budget_used_permille\": " << s.maxWorkRatio
      << ",\n \"determinism_reruns_identical\": " << detOk << ", \"lowest_violation\": " << lowest << ",\n \"faults\": {";
    bool first = true;
    for (int i = 1; i < rt::kMaxFaultKind; ++i) if (s.faultFired[i]) { o << (first ? "" : ", ") << jstr(rt::faultName(i)) << ": " << s.faultFired[i]; first = false; }
    o << "},\n \"probes\": {";
    first = true;
    for (int i = 0; i < rt::kMaxProbe; ++i) if (s.probe[i]) { o << (first ? "" : ", ") << jstr(probeName(i)) << ": " << s.probe[i]; first = false; }
    o << "},\n \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i) o << (i ? ", " : "") << jstr(samples[i]);
    o << "]\n}\n";
}

static void warmUp()
{
    // Lazily created process-wide state of the C++ runtime (locales, stream tables, exception machinery).
    std::ostringstream os;
    os << 1.5 << ' ' << 3 << std::endl;
    try { throw std::runtime_error("x"); } catch (std::exception&) {}
    try { throw std::bad_alloc(); } catch (std::exception&) {}
    (void)std::locale();
}

static int usage() { fprintf(stderr, "usage: sim search PROP --seed N --seconds S [--runs N] [--workers N] [--deep] [--stats FILE] [--replay FILE]\n       sim replay FILE [-v]\n       sim show PROP SEED INDEX\n"); return 3; }

int main(int argc, char** argv)
{
    if (!getenv("SIM_NOASLR")) {
        int cur = personality(0xffffffff);
        if (cur != -1 && !(cur & ADDR_NO_RANDOMIZE) && personality(unsigned(cur) | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    signal(SIGPIPE, SIG_IGN);
    rt::init();
    warmUp();
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (argc < 3) return usage();
    std::string cmd = argv[1];
    if (cmd == "replay") {
        std::ifstream in(argv[2]);
        std::stringstream ss;
        ss << in.rdbuf();
        Plan p;
        if (!in || !fromText(ss.str(), p)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
        const Property* pr = findProperty(p.prop);
        if (!pr) return 3;
        rt::res = newResult();
        std::string want;
        { std::istringstream l(ss.str()); std::string line; while (std::getline(l, line)) if (line.compare(0, 9, "# class: ") == 0) want = line.substr(9); }
        Report a = again(*pr, p), b = again(*pr, p);
        printf("%s: %s\n", a.violated ? a.cls.c_str() : "no violation", a.detail.c_str());
        if (a.violated != b.violated || a.cls != b.cls) { printf("NOT DETERMINISTIC\n"); return 2; }
        printf("history hash %016llx%s\n", (unsigned long long)a.hash, a.hash == b.hash ? " (identical on repetition)" : " (differs on repetition)");
        if (!want.empty() && a.violated && a.cls != want) { printf("another class than recorded (%s)\n", want.c_str()); }
        return a.violated ? 1 : 0;
    }
    const Property* pr = findProperty(argv[2]);
    if (!pr) { fprintf(stderr, "unknown property %s\n", argv[2]); return 3; }
    if (cmd == "show") {
        rt::res = newResult();
        Plan p;
        Report r = oneRun(*pr, argc > 3 ? strtoull(argv[3], nullptr, 10) : 1, argc > 4 ? atol(argv[4]) : 0, argc > 5, p);
        printf("%s# %s %s\n# hash %016llx\n", toText(p).c_str(), r.violated ? r.cls.c_str() : "ok", r.detail.c_str(), (unsigned long long)r.hash);
        return r.violated;
    }
    if (cmd != "search") return usage();
    uint64_t seed = 1;
    double seconds = 20;
    long maxRuns = 1l << 40;
    int workers = 8;
    bool deep = false;
    std::string statsPath, replayPath = "violation.replay";
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? argv[++i] : (char*)"0"; };
        if (a == "--seed") seed = strtoull(val(), nullptr, 10);
        else if (a == "--seconds") seconds = atof(val());
        else if (a == "--runs") maxRuns = atol(val());
        else if (a == "--workers") workers = std::min(64, std::max(1, atoi(val())));
        else if (a == "--deep") deep = true;
        else if (a == "--stats") statsPath = val();
        else if (a == "--replay") replayPath = val();
        else return usage();
    }
    double t0 = now();
    sh->lowest = maxRuns;
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; ++w) {
        pid_t c = fork();
        if (c == 0) {
            setpgid(0, 0);
            rt::res = newResult();
            long detOk = 0;
            for (long i = w, k = 0; i < sh->lowest && now() - t0 < seconds; i += workers, ++k) {
                Plan p;
                Report r = oneRun(*pr, seed, i, deep, p);
                if (r.violated) {
                    if (simProblem(r.cls)) {
                        if (!__atomic_fetch_add(&sh->errors, 1, __ATOMIC_SEQ_CST)) snprintf(sh->err, sizeof sh->err, "run %ld: %s: %s", i, r.cls.c_str(), r.detail.c_str());
                        break;
                    }
                    Report b = again(*pr, p), c = again(*pr, p);
                    if (!b.violated || !c.violated || b.cls != r.cls || c.cls != r.cls) {      // counts only if it repeats
                        if (!__atomic_fetch_add(&sh->odd, 1, __ATOMIC_SEQ_CST)) snprintf(sh->oddText, sizeof sh->oddText, "run %ld: %s: %s", i, r.cls.c_str(), r.detail.c_str());
                        continue;
                    }
                    long cur = sh->lowest;
                    while (i < cur && !__atomic_compare_exchange_n(&sh->lowest, &cur, i, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST)) {}
                    break;
                }
                if (k % 64 == 5) {                            // the same plan once more has to give the same history
                    Report b = again(*pr, p);
                    if (b.violated || b.hash != r.hash) {
                        if (!__atomic_fetch_add(&sh->errors, 1, __ATOMIC_SEQ_CST)) snprintf(sh->err, sizeof sh->err, "run %ld is not deterministic (%s)", i, b.violated ? b.cls.c_str() : "other history");
                        break;
                    }
                    ++detOk;
                }
            }
            sh->next[w] = detOk;
            _exit(0);
        }
        pids.push_back(c);
    }
    for (pid_t c : pids) { int stt; while (waitpid(c, &stt, 0) < 0 && errno == EINTR) {} }
    rt::res = newResult();
    long det = 0;
    for (int w = 0; w < workers; ++w) det += sh->next[w];
    long low = sh->lowest < maxRuns ? sh->lowest : -1;
    std::vector<std::string> samples;
    for (long i = 0; i < 5; ++i) {
        Plan p;
        p.prop = pr->id; p.seed = mix(mix(seed, rt::fnv(pr->id, strlen(pr->id))), uint64_t(i));
        Rng r(p.seed);
        pr->gen(p, r, deep);
        std::string t;
        for (auto& o : p.ops) {
            t += (t.empty() ? "" : "; ") + (o.thr ? std::to_string(o.thr) + ":" : std::string()) + o.name;
            for (long a : o.a) t += " " + std::to_string(a);
            if (o.f.kind) t += std::string(" !") + rt::faultName(o.f.kind);
            if (t.size() > 400) { t += " ..."; break; }
        }
        samples.push_back("run " + std::to_string(i) + ": " + t);
    }
    double wall = now() - t0;
    if (!statsPath.empty()) writeStats(statsPath, *pr, seed, wall, low, samples, det);
    printf("%s: %llu runs, %llu executions, %llu steps in %.1f s; %llu distinct histories, %llu interleavings, %llu fault sites; budget used %.1f %%; %ld determinism re-runs identical\n", pr->id,
           (unsigned long long)rt::st->runs, (unsigned long long)rt::st->execs, (unsigned long long)rt::st->steps, wall, (unsigned long long)rt::st->ncases,
           (unsigned long long)rt::st->nscheds, (unsigned long long)rt::st->nsites, double(rt::st->maxWorkRatio) / 10.0, det);
    if (low >= 0) {
        Plan p;
        Report r = oneRun(*pr, seed, low, deep, p);
        Report b = again(*pr, p), c = again(*pr, p);
        if (!r.violated || !b.violated || !c.violated || b.cls != r.cls || c.cls != r.cls) {
            fprintf(stderr, "run %ld reported %s but does not repeat it\n", low, r.cls.c_str());
            return 2;
        }
        printf("run %ld violates: %s: %s\n", low, r.cls.c_str(), r.detail.c_str());
        Plan m = minimise(*pr, p, r.cls, 25);
        Report f = again(*pr, m);
        if (!f.violated || f.cls != r.cls) { m = p; f = again(*pr, m); }
        std::ofstream o(replayPath);
        o << "# property " << pr->id << " violated\n# class: " << f.cls << "\n# detail: " << f.detail << "\n# search seed " << seed << ", run " << low << "\n# history hash " << std::hex << f.hash << std::dec << "\n" << toText(m);
        o.close();
        printf("minimised to %zu operations, %zu switches: %s: %s\n", m.ops.size(), m.sw.size(), f.cls.c_str(), f.detail.c_str());
        return 1;
    }
    if (sh->odd) fprintf(stderr, "%ld reports did not repeat, first: %s\n", long(sh->odd), sh->oddText);
    if (sh->errors) { fprintf(stderr, "simulation problem: %s\n", sh->err); return 2; }
    return 0;
}
