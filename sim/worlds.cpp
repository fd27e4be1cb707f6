#include "worlds.hpp"
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>

static const char* kProbeNames[] = {
    "recirculating_flow", "time_of_flight_ceiling_hit", "closed_loop_without_inflow", "call_rejected", "compared_with_fresh_twin",
    "compared_with_reference_solution", "compared_with_pristine_process", "workspace_reused_for_smaller_graph", "component_of_1024_or_more_vertices",
    "null_result_on_memory_failure", "reversal_failed", "sink_failed_inside_dump", "duplicate_connections", "mixed_weighted_unweighted",
    "compress_too_small", "empty_rows", "operation_skipped_too_slow", "retry_after_memory_failure_succeeded", "diagnostics_failed_for_memory",
    "assignment_failed_for_memory", "object_moved", "leak_trial", "fault_trial", "failure_tolerated_with_same_result", "fault_while_other_threads_run",
    "shared_object_read_concurrently", "object_reused_after_failure", "memory_environment_varied", "start_order_permuted", "failure_in_second_half_of_operation",
    "failure_in_graph_build", "object_copied", "large_model", "negative_source_rejected", "crossflow_well", "cell_shared_by_wells", "derived_quantity_compared_with_definition", "growth_measured"};
const char* probeName(int k) { return k < int(sizeof kProbeNames / sizeof *kProbeNames) ? kProbeNames[k] : "?"; }
void probe(int k) { if (rt::st && !probing) __atomic_fetch_add(&rt::st->probe[k], 1, __ATOMIC_RELAXED); }

Spec World::spec(const Op& o, uint64_t budget)
{
    Spec s;
    s.op = o.name.c_str();
    s.budget = budget;
    // libstdc++'s formatted output swallows allocation failures (it sets badbit on whichever stream is in use), so none are injected into text output.
    if (faults && !probing && o.name != "dump" && o.name != "qdump") s.f = o.f;
    return s;
}
void World::noteOutcome(const Outcome& r)
{
    last = r;
    if (r.fired) fires.push_back(uint64_t(dig.size()) << 8 | uint64_t(r.kind));
    if (rt::res && curOp >= 0 && curOp < rt::kMaxOps) rt::res->allocOf[curOp] += r.allocs;
    if (rt::st && !r.ok() && !r.fired) __atomic_fetch_add(&rt::st->rejectedCalls, 1, __ATOMIC_RELAXED);
    if (r.fired) {
        if (r.allocs > 6) probe(Probe::LATEFAIL);
    }
}
void World::expect(Expect e, const Outcome& r, const std::string& what)
{
    if (r.kind == rt::OTHER) rt::fail("foreign-exception", what + " threw something that is not a std::exception");
    if (!checks) return;
    if (e == MUST_OK && !r.ok() && !r.fired) rt::fail("valid-call-rejected", what + " failed with " + rt::outName(r.kind) + " although its arguments are valid and memory was available");
    if (e == MUST_FAIL && r.ok()) rt::fail("bad-input-accepted", what + " succeeded although its arguments are inconsistent with the model");
    if (e == MUST_FAIL) { probe(Probe::REJECTED); rt::countFault(rt::F_BADARG); }
}

void Pristine::start(Fn fn)
{
    int a[2], b[2];
    if (pipe(a) || pipe(b)) rt::violateNow("sim-resources", "pipe failed");
    pid = fork();
    if (pid < 0) rt::violateNow("sim-resources", "fork failed");
    if (pid == 0) {
        close(a[1]); close(b[0]);
        for (;;) {
            uint32_t n;
            ssize_t k = read(a[0], &n, 4);
            if (k != 4) _exit(0);
            std::string t(n, 0);
            for (size_t got = 0; got < n;) { k = read(a[0], &t[got], n - got); if (k <= 0) _exit(0); got += size_t(k); }
            pid_t c = fork();
            if (c == 0) {
                std::vector<uint64_t> v;
                try {
                    Plan p;
                    fromText(t, p);
                    v = fn(p.ops);
                    v.insert(v.begin(), 1);
                }
                catch (rt::Violation& e) {
                    snprintf(rt::res->cls, sizeof rt::res->cls, "%s", e.cls.c_str());
                    snprintf(rt::res->detail, sizeof rt::res->detail, "%s", e.detail.c_str());
                    v.assign(1, 0);
                }
                uint32_t m = uint32_t(v.size());
                if (write(b[1], &m, 4) != 4 || write(b[1], v.data(), m * 8) != ssize_t(m * 8)) _exit(1);
                _exit(0);
            }
            int stt;
            waitpid(c, &stt, 0);
            if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { uint32_t m = 1; uint64_t z = 0; if (write(b[1], &m, 4) != 4 || write(b[1], &z, 8) != 8) _exit(1); }
        }
    }
    close(a[0]); close(b[1]);
    wr = a[1]; rd = b[0];
}
std::vector<uint64_t> Pristine::ask(const std::vector<Op>& ops)
{
    Plan p; p.prop = "x"; p.ops = ops;
    std::string t = toText(p);
    uint32_t n = uint32_t(t.size());
    if (write(wr, &n, 4) != 4 || write(wr, t.data(), n) != ssize_t(n)) rt::fail("sim-resources", "pristine process gone");
    uint32_t m = 0;
    if (read(rd, &m, 4) != 4) rt::fail("sim-resources", "pristine process gone");
    std::vector<uint64_t> v(m);
    for (size_t got = 0; got < m * 8;) { ssize_t k = read(rd, reinterpret_cast<char*>(v.data()) + got, m * 8 - got); if (k <= 0) rt::fail("sim-resources", "pristine process gone"); got += size_t(k); }
    if (v.empty() || v[0] == 0) rt::fail(rt::res->cls[0] ? rt::res->cls : "crash", std::string(rt::res->detail) + " [in a pristine process]");
    v.erase(v.begin());
    probe(Probe::PRISTINE);
    return v;
}
Pristine::~Pristine()
{
    if (wr >= 0) close(wr);
    if (rd >= 0) close(rd);
    if (pid > 0) { int stt; waitpid(pid, &stt, 0); }
}

std::unique_ptr<World> makeWorld(int kind, const Plan& p)
{
    switch (kind) {
    case W_TOOLBOX: return makeToolboxWorld(p);
    case W_SOLVER: return makeSolverWorld(p);
    case W_TARJAN: return makeTarjanWorld(p);
    case W_CONN: return makeConnWorld(p);
    case W_CONT: return makeContainerWorld(p);
    default: return makeRandomWorld(p);
    }
}
