#include "plan.hpp"
#include <cstring>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

bool probing = false;

std::string toText(const Plan& p)
{
    std::ostringstream o;
    o << "property " << p.prop << "\nseed " << p.seed << "\nresolved " << int(p.resolved) << "\n";
    for (auto& c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
    for (auto& op : p.ops) {
        o << "op " << op.thr << " " << op.name;
        for (long a : op.a) o << " " << a;
        if (op.f.kind) o << " ! " << rt::faultName(op.f.kind) << " " << op.f.n << " " << op.f.m;
        o << "\n";
    }
    for (auto& s : p.sw) o << "switch " << s.step << " " << s.to << "\n";
    return o.str();
}

bool fromText(const std::string& t, Plan& p)
{
    std::istringstream in(t);
    std::string line;
    p = Plan();
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string k;
        l >> k;
        if (k == "property") l >> p.prop;
        else if (k == "seed") l >> p.seed;
        else if (k == "resolved") { int r; l >> r; p.resolved = r; }
        else if (k == "cfg") { std::string n; long v; l >> n >> v; p.cfg[n] = v; }
        else if (k == "switch") { rt::Switch s; l >> s.step >> s.to; p.sw.push_back(s); }
        else if (k == "op") {
            Op o;
            l >> o.thr >> o.name;
            std::string w;
            while (l >> w) {
                if (w == "!") {
                    std::string fn;
                    l >> fn >> o.f.n >> o.f.m;
                    for (int i = 0; i < rt::kMaxFaultKind; ++i) if (fn == rt::faultName(i)) { o.f.kind = i; break; }
                }
                else o.a.push_back(std::stol(w));
            }
            p.ops.push_back(o);
        }
        else return false;
    }
    return !p.prop.empty();
}

rt::Fault randomFault(Rng& r)
{
    rt::Fault f;
    int k = r.range(0, 9);
    f.kind = k < 5 ? rt::F_ONE : k < 7 ? rt::F_FROM : k < 9 ? rt::F_BURST : rt::F_BIG;
    f.n = r.below(1000);
    f.m = f.kind == rt::F_BURST ? r.range(1, 4) : f.kind == rt::F_BIG ? (16u << r.range(0, 6)) : 0;
    return f;
}

std::vector<uint64_t> subRun(const std::function<std::vector<uint64_t>()>& fn, const char* what)
{
    struct Page { uint64_t n; int state; char cls[96]; char detail[1600]; uint64_t v[32768]; };
    Page* pg = static_cast<Page*>(mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (pg == MAP_FAILED) rt::violateNow("sim-resources", "mmap failed");
    fflush(nullptr);
    pid_t c = fork();
    if (c < 0) rt::violateNow("sim-resources", "fork failed");
    if (c == 0) {
        try {
            auto v = fn();
            pg->n = v.size() < 32768 ? v.size() : 32768;
            memcpy(pg->v, v.data(), pg->n * 8);
            pg->state = 1;
        }
        catch (rt::Violation& e) {
            snprintf(rt::res->cls, sizeof rt::res->cls, "%s", e.cls.c_str());
            snprintf(rt::res->detail, sizeof rt::res->detail, "%s", e.detail.c_str());
            rt::res->violated = 1;
            _exit(42);
        }
        catch (std::exception& e) {
            snprintf(rt::res->cls, sizeof rt::res->cls, "harness-exception");
            snprintf(rt::res->detail, sizeof rt::res->detail, "%s", e.what());
            rt::res->violated = 1;
            _exit(42);
        }
        _exit(0);
    }
    int stt = 0;
    while (waitpid(c, &stt, 0) < 0) {}
    if (pg->state != 1) {
        if (rt::res->violated) {
            std::string cls = rt::res->cls, d = rt::res->detail;
            munmap(pg, sizeof(Page));
            rt::fail(cls, d + " [" + what + "]");
        }
        munmap(pg, sizeof(Page));
        rt::fail("sim-subrun", std::string("sub-run ended abnormally: ") + what);
    }
    std::vector<uint64_t> v(pg->v, pg->v + pg->n);
    munmap(pg, sizeof(Page));
    return v;
}
