// Strong components: workspaces, results and reversals.
#include "worlds.hpp"
#include <opm/utility/graph/tarjan.h>
#include <algorithm>
#include <cstring>

namespace {

struct Csr {
    int n = 0;
    std::vector<std::vector<int>> adj;
    std::unique_ptr<std::vector<size_t>> ia;
    std::unique_ptr<std::vector<int>> ja;
    std::vector<int> comp;
    int ncomp = 0;
    long edges = 0;
};

Csr makeCsr(long s, long kind, long n)
{
    Csr g;
    Rng r(mix(mix(uint64_t(s), 71), uint64_t(kind)));
    g.n = int(n);
    g.adj.resize(n);
    auto E = [&](long a, long b) { if (a >= 0 && a < n && b >= 0 && b < n) g.adj[a].push_back(int(b)); };
    if (n > 0) switch (kind) {
    default:
    case 0: for (long k = 0, m = long(r.below(3 * n + 1)); k < m; ++k) E(long(r.below(n)), long(r.below(n))); break;   // random, self loops and duplicates
    case 1: for (long i = 0; i + 1 < n; ++i) E(i, i + 1); break;                                                      // chain
    case 2: for (long i = 0; i < n; ++i) E(i, (i + 1) % n); break;                                                    // one cycle
    case 3: for (long k = 0, m = 2 * n; k < m; ++k) { long a = long(r.below(n)), b = long(r.below(n)); if (a != b) E(std::min(a, b), std::max(a, b)); } break;    // DAG
    case 4: {                                                                                                         // blocks of cycles linked forward
        for (long i = 0; i < n;) {
            long len = 1 + long(r.below(6));
            len = std::min(len, n - i);
            for (long k = 0; k < len; ++k) E(i + k, i + (k + 1) % len);
            if (i + len < n && r.chance(700)) E(i + long(r.below(len)), i + len + long(r.below(n - i - len)));
            i += len;
        }
        break;
    }
    case 5: break;                                                                                                    // no edges
    case 6: for (long i = n; i-- > 1;) E(i, i - 1); if (n > 2) E(0, n / 2); break;                                    // backwards chain with a long cycle
    case 7: for (long i = 0; i < n; ++i) for (long j = 0; j < n && n <= 40; ++j) if (r.chance(400)) E(i, j); break;   // dense
    case 8: {                                                                                                         // one large component and a random remainder
        long c = n * 3 / 4;
        for (long i = 0; i < c; ++i) E(i, (i + 1) % c);
        for (long k = 0; k < n; ++k) E(long(r.below(n)), c + long(r.below(std::max(1l, n - c))));
        break;
    }
    case 9: for (long i = 1; i < n; ++i) { E(0, i); if (r.chance(300)) E(i, r.chance(500) ? 0 : long(r.below(n))); } break;    // hub with very many neighbours
    }
    if (r.chance(600) && n > 1) {                                    // renumber
        std::vector<int> p(n);
        for (long i = 0; i < n; ++i) p[i] = int(i);
        r.shuffle(p);
        std::vector<std::vector<int>> a(n);
        for (long i = 0; i < n; ++i) for (int j : g.adj[i]) a[p[i]].push_back(p[j]);
        g.adj.swap(a);
    }
    for (auto& v : g.adj) { r.shuffle(v); g.edges += long(v.size()); }
    std::vector<size_t> ia(1, 0);
    std::vector<int> ja;
    for (auto& v : g.adj) { ja.insert(ja.end(), v.begin(), v.end()); ia.push_back(ja.size()); }
    g.ia = mkClient<std::vector<size_t>>(ia);
    g.ja = mkClient<std::vector<int>>(ja);
    g.comp = sccIds(g.adj, g.ncomp);
    return g;
}

struct Ws { TarjanWorkSpace* p = nullptr; int n = 0; };
struct Rs {
    TarjanSCCResult* p = nullptr;
    std::vector<std::vector<int>> comps;
    std::vector<TarjanComponent> views;       // handed out
};

struct TarjanWorld : World {
    Plan plan;
    std::map<std::tuple<long, long, long>, Csr> graphs;
    Ws ws[3];
    std::vector<Rs> res;

    explicit TarjanWorld(const Plan& p) : plan(p) {}

    Csr& graph(const Op& o)
    {
        auto key = std::make_tuple(o.arg(0), o.arg(1), o.arg(2));
        auto i = graphs.find(key);
        if (i == graphs.end()) i = graphs.emplace(key, makeCsr(o.arg(0), o.arg(1), o.arg(2))).first;
        return i->second;
    }
    void prepare(const Op& o) override { if (o.name == "tar" || o.name == "rch") graph(o); }

    std::vector<std::vector<int>> read(TarjanSCCResult* p, std::vector<TarjanComponent>* views)
    {
        std::vector<std::vector<int>> c;
        size_t n = 0;
        sure("tarjan_get_numcomponents", [&] { n = tarjan_get_numcomponents(p); });
        if (n > 10000000) rt::fail("wrong-components", "absurd number of components");
        if (views) views->clear();
        for (size_t i = 0; i < n; ++i) {
            TarjanComponent t;
            sure("tarjan_get_strongcomponent", [&] { t = tarjan_get_strongcomponent(p, i); });
            if (t.size > 10000000) rt::fail("wrong-components", "absurd component size");
            rt::noteRead(t.vertex, t.size * sizeof(int));
            c.emplace_back(t.vertex, t.vertex + t.size);
            if (views) views->push_back(t);
        }
        return c;
    }
    static uint64_t hash(const std::vector<std::vector<int>>& c) { Hash h; for (auto& x : c) h.v(x); return h.u(c.size()).h; }

    void checkNew(const Csr& g, const std::vector<std::vector<int>>& c, const std::vector<char>& want)
    {
        char b[200];
        std::vector<int> pos(g.n, -1);
        int k = 0;
        for (auto& x : c) {
            if (x.empty()) rt::fail("wrong-components", "an empty component was returned");
            for (int v : x) {
                if (v < 0 || v >= g.n) { snprintf(b, sizeof b, "vertex %d does not exist", v); rt::fail("wrong-components", b); }
                if (pos[v] >= 0) { snprintf(b, sizeof b, "vertex %d is returned twice", v); rt::fail("wrong-components", b); }
                pos[v] = k;
                if (!want[v]) { snprintf(b, sizeof b, "vertex %d is not reachable from the start points", v); rt::fail("wrong-components", b); }
                if (g.comp[v] != g.comp[x[0]]) { snprintf(b, sizeof b, "vertices %d and %d are not strongly connected", v, x[0]); rt::fail("wrong-components", b); }
            }
            ++k;
        }
        std::vector<int> at(g.ncomp, -1);
        for (int v = 0; v < g.n; ++v) {
            if (!want[v]) continue;
            if (pos[v] < 0) { snprintf(b, sizeof b, "vertex %d is missing", v); rt::fail("wrong-components", b); }
            if (at[g.comp[v]] >= 0 && at[g.comp[v]] != pos[v]) { snprintf(b, sizeof b, "the component of vertex %d is split", v); rt::fail("wrong-components", b); }
            at[g.comp[v]] = pos[v];
        }
        for (int v = 0; v < g.n; ++v) if (want[v]) for (int w : g.adj[v])
            if (pos[w] > pos[v]) { snprintf(b, sizeof b, "the component of %d comes before that of its successor %d", v, w); rt::fail("wrong-order", b); }
    }
    uint64_t budget(const Csr& g, int wsN) const { return 100000 + 400ull * uint64_t(g.n + g.edges) + 100ull * uint64_t(wsN); }
    static void ratio(uint64_t s, uint64_t b) { uint64_t q = s * 1000 / b; if (rt::st && q > rt::st->maxWorkRatio) rt::st->maxWorkRatio = q; }

    void keep(TarjanSCCResult* p, std::vector<std::vector<int>> c)
    {
        Rs r;
        r.p = p;
        r.comps = std::move(c);
        if (res.size() >= 6) { drop(res[0]); res.erase(res.begin()); }
        res.push_back(std::move(r));
    }
    void drop(Rs& r) { if (r.p) { TarjanSCCResult* p = r.p; r.p = nullptr; sure("destroy_tarjan_sccresult", [&] { destroy_tarjan_sccresult(p); }); } }
    void recheck(Rs& r, const char* when)
    {
        std::vector<std::vector<int>> c = read(r.p, nullptr);
        if (c != r.comps) rt::fail("result-changed", std::string("a component result changed (") + when + ")");
    }

    void op(const Op& o) override
    {
        if (o.name == "ws") {
            Ws& w = ws[o.arg(0) % 3];
            if (w.p) { TarjanWorkSpace* p = w.p; w.p = nullptr; sure("destroy_tarjan_workspace", [&] { destroy_tarjan_workspace(p); }); rt::countFault(rt::F_DESTROY); }
            w.n = int(o.arg(1));
            if (w.n > 0 || o.arg(2) == 0) {
                TarjanWorkSpace* p = nullptr;
                Outcome r = act(o, [&] { p = create_tarjan_workspace(size_t(w.n)); });
                if (!r.ok()) rt::fail("foreign-exception", "C interface threw");
                if (!p && !r.fired) rt::fail("valid-call-rejected", "create_tarjan_workspace returned NULL although memory was available");
                w.p = p;
                rec(p != nullptr);
            }
            if (checks) for (auto& x : res) recheck(x, "workspace destroyed");
        }
        else if (o.name == "tar" || o.name == "rch") {
            bool local = o.name == "rch";
            Csr& g = graph(o);
            TarjanSCCResult* p = nullptr;
            std::vector<char> want(g.n, 1);
            Outcome r;
            uint64_t bud;
            if (local) {
                Ws& w = ws[o.arg(3) % 3];
                if (!w.p || w.n < g.n) {                 // (re)create a workspace that is large enough
                    if (w.p) { TarjanWorkSpace* q = w.p; w.p = nullptr; sure("destroy_tarjan_workspace", [&] { destroy_tarjan_workspace(q); }); }
                    w.n = g.n + int(o.arg(4) % 5);
                    sure("create_tarjan_workspace", [&] { w.p = create_tarjan_workspace(size_t(w.n)); });
                    if (!w.p) rt::fail("valid-call-rejected", "create_tarjan_workspace returned NULL although memory was available");
                }
                else if (w.n > g.n) probe(Probe::STATICWS);
                Rng q(mix(uint64_t(o.arg(4)), 17));
                std::vector<int> st;
                if (g.n) for (int i = 0, m = q.chance(80) ? q.range(0, 3 * g.n) : q.chance(200) ? q.range(5, 30) : q.range(0, std::min(g.n, 4)); i < m; ++i) st.push_back(int(q.below(g.n)));
                if (!st.empty() && q.chance(300)) st.push_back(st[0]);
                if (q.chance(150)) std::sort(st.begin(), st.end());
                std::fill(want.begin(), want.end(), 0);
                std::vector<int> todo;
                for (int v : st) if (!want[v]) { want[v] = 1; todo.push_back(v); }
                while (!todo.empty()) { int u = todo.back(); todo.pop_back(); for (int v : g.adj[u]) if (!want[v]) { want[v] = 1; todo.push_back(v); } }
                auto cst = mkClient<std::vector<int>>(st);
                bud = budget(g, w.n);
                r = act(o, [&] { p = tarjan_reachable_sccs(size_t(g.n), g.ia->data(), g.ja->data(), cst->size(), cst->data(), w.p); }, bud);
            }
            else {
                bud = budget(g, g.n);
                r = act(o, [&] { p = tarjan(size_t(g.n), g.ia->data(), g.ja->data()); }, bud);
            }
            ratio(r.steps, bud);
            if (!r.ok()) rt::fail("foreign-exception", "C interface threw");
            if (!p) {
                if (!r.fired) rt::fail("valid-call-rejected", "the component search returned NULL although memory was available");
                probe(Probe::NULLRES);
                rec(0);
            }
            else {
                auto c = read(p, nullptr);
                rec(hash(c));
                if (checks) checkNew(g, c, want);
                for (auto& x : c) if (x.size() >= 1024) { probe(Probe::BIGSCC); break; }
                keep(p, std::move(c));
            }
        }
        else if (o.name == "rev") {
            if (res.empty()) { rec(0); return; }
            Rs& x = res[size_t(o.arg(0)) % res.size()];
            auto before = read(x.p, &x.views);
            if (checks && before != x.comps) rt::fail("result-changed", "a component result changed before its reversal");
            int ok = -1;
            uint64_t nv = 0;
            for (auto& c : x.comps) nv += c.size() + 1;
            Outcome r = act(o, [&] { ok = tarjan_reverse_sccresult(x.p); }, 100000 + 400 * nv);
            if (!r.ok()) rt::fail("foreign-exception", "C interface threw");
            if (ok) std::reverse(x.comps.begin(), x.comps.end());
            else {
                if (!r.fired) rt::fail("valid-call-rejected", "reversal failed although memory was available");
                probe(Probe::REVFAIL);
            }
            if (checks) {
                auto after = read(x.p, nullptr);
                if (after != x.comps) rt::fail(ok ? "wrong-reversal" : "failed-reversal-changed-result",
                                               ok ? "after a successful reversal the components are not in the opposite order with unchanged contents"
                                                  : "a failed reversal changed the result");
                if (!ok) {                              // component views handed out before still have to be good
                    if (x.views.size() != x.comps.size()) rt::fail("harness", "views");
                    for (size_t i = 0; i < x.views.size(); ++i) {
                        rt::noteRead(x.views[i].vertex, x.views[i].size * sizeof(int));
                        if (!std::equal(x.comps[i].begin(), x.comps[i].end(), x.views[i].vertex)) rt::fail("failed-reversal-changed-result", "a failed reversal changed component views handed out before");
                    }
                }
            }
            rec(hash(x.comps) * 2 + (ok != 0));
        }
        else if (o.name == "dres") {
            if (!res.empty()) { size_t i = size_t(o.arg(0)) % res.size(); drop(res[i]); res.erase(res.begin() + long(i)); rt::countFault(rt::F_DESTROY); }
            rec(1);
        }
        else if (o.name == "tchk") { for (auto& x : res) recheck(x, "later operations"); rec(res.size()); }
        else rt::fail("harness", "unknown operation " + o.name);
        if (checks && curOp % 4 == 3) for (auto& x : res) recheck(x, "later operations");
    }
    void finish() override
    {
        for (auto& w : ws) if (w.p) { TarjanWorkSpace* p = w.p; w.p = nullptr; sure("destroy_tarjan_workspace", [&] { destroy_tarjan_workspace(p); }); }
        for (auto& x : res) if (checks) recheck(x, "all workspaces destroyed");
        for (auto& x : res) drop(x);
        res.clear();
    }
};

} // namespace

std::unique_ptr<World> makeTarjanWorld(const Plan& p, const char*) { return std::unique_ptr<World>(new TarjanWorld(p)); }
