#include "model.hpp"
#include <algorithm>
#include <cmath>
#include <queue>

static double q36(double x) { return std::round(x * 68719476736.0) / 68719476736.0; }   // multiples of 2^-36

Mesh makeMesh(int kind, int a, int b, uint64_t seed)
{
    Mesh m;
    Rng r(mix(seed, 101));
    if (a < 1) a = 1;
    if (b < 1) b = 1;
    auto con = [&](int i, int j) { if (i != j) { m.nb.push_back(i); m.nb.push_back(j); } };
    switch (kind) {
    default:
    case 0: case 3: {                                   // 2-D grid, 3: with duplicate and reversed connections
        m.nc = a * b;
        for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) {
            if (i + 1 < a) con(j * a + i, j * a + i + 1);
            if (j + 1 < b) con(j * a + i, (j + 1) * a + i);
        }
        if (kind == 3) {
            int n = m.nconn();
            for (int k = 0; k < n / 2 + 1 && n; ++k) {
                int c = int(r.below(n));
                int x = m.nb[2 * c], y = m.nb[2 * c + 1];
                if (r.chance(500)) con(x, y); else con(y, x);
            }
        }
        break;
    }
    case 1: m.nc = a * b; for (int i = 0; i + 1 < m.nc; ++i) con(i, i + 1); break;           // chain
    case 2: {                                                                                 // random graph
        m.nc = a + b;
        int nco = m.nc + int(r.below(2 * m.nc + 1));
        for (int k = 0; k < nco; ++k) con(int(r.below(m.nc)), int(r.below(m.nc)));
        break;
    }
    case 4: m.nc = std::max(2, a * b); for (int i = 0; i < m.nc; ++i) con(i, (i + 1) % m.nc); break;    // ring
    case 5: {                                                                                 // 3-D grid, two layers
        m.nc = 2 * a * b;
        for (int k = 0; k < 2; ++k) for (int j = 0; j < b; ++j) for (int i = 0; i < a; ++i) {
            int c = (k * b + j) * a + i;
            if (i + 1 < a) con(c, c + 1);
            if (j + 1 < b) con(c, c + a);
            if (k == 0) con(c, c + a * b);
        }
        break;
    }
    case 6: {                                                                                 // disconnected blocks
        m.nc = a * b + 2;
        for (int k = 0; k < b; ++k) for (int i = 0; i + 1 < a; ++i) con(k * a + i, k * a + i + 1);
        break;
    }
    }
    if (m.nb.empty() && m.nc >= 2) con(0, 1);
    // Connections of a cell with itself: they transport nothing.
    if (seed % 11 == 5) for (int k = r.range(1, 3); k > 0; --k) { int c = int(r.below(m.nc)); m.nb.push_back(c); m.nb.push_back(c); }
    // Shuffle numbering, connection order and orientation.
    if (seed % 3) {
        std::vector<int> perm(m.nc);
        for (int i = 0; i < m.nc; ++i) perm[i] = i;
        r.shuffle(perm);
        for (auto& c : m.nb) c = perm[c];
    }
    if (seed % 2) {
        int n = m.nconn();
        for (int k = n; k > 1; --k) {
            int j = int(r.below(k));
            std::swap(m.nb[2 * (k - 1)], m.nb[2 * j]); std::swap(m.nb[2 * (k - 1) + 1], m.nb[2 * j + 1]);
        }
        for (int k = 0; k < n; ++k) if (r.chance(500)) std::swap(m.nb[2 * k], m.nb[2 * k + 1]);
    }
    return m;
}

double Flux::total(int c) const
{
    double t = 0;
    for (int p = 0; p < nph; ++p) t += v[size_t(c) * nph + p];
    return t;
}

static Flux makeFlux0(const Mesh& m, uint64_t seed, int kind, int nph)
{
    Rng r(mix(seed, 202));
    Flux f;
    f.nconn = m.nconn();
    f.nph = nph;
    f.v.assign(size_t(f.nconn) * nph, 0.0);
    std::vector<double> q(f.nconn, 0.0), p(m.nc);
    double scale = std::pow(2.0, r.range(-12, -6));
    for (int i = 0; i < m.nc; ++i) p[i] = r.unit() + (r.chance(300) ? double(i) / std::max(1, m.nc) * 3 : 0.0);
    bool loops = kind == 1 || kind == 2 || kind == 4, pot = kind != 2;
    if (pot) for (int c = 0; c < f.nconn; ++c) q[c] = scale * (p[m.nb[2 * c]] - p[m.nb[2 * c + 1]]) * (0.25 + r.unit());
    if (kind == 7) for (auto& x : q) x = (r.chance(500) ? 1 : -1) * scale * (0.25 + r.unit());      // any direction: large strong components
    for (int c = 0; c < f.nconn; ++c) if (m.nb[2 * c] == m.nb[2 * c + 1]) q[c] = 2 * scale * (r.unit() - 0.5);
    if (kind == 4) for (auto& x : q) x *= 0.02 + 0.1 * r.unit();        // weak through-flow, strong loops
    if (loops && f.nconn) {
        std::vector<std::vector<std::pair<int, int>>> adj(m.nc);
        for (int c = 0; c < f.nconn; ++c) { adj[m.nb[2 * c]].push_back({m.nb[2 * c + 1], c}); adj[m.nb[2 * c + 1]].push_back({m.nb[2 * c], c}); }
        int nl = kind == 2 ? r.range(1, 3) : r.range(1, 4);
        for (int l = 0; l < nl; ++l) {
            int c0 = int(r.below(f.nconn)), from = m.nb[2 * c0 + 1], to = m.nb[2 * c0];
            std::vector<int> prev(m.nc, -1), pc(m.nc, -1);
            std::queue<int> todo;
            todo.push(from); prev[from] = from;
            while (!todo.empty() && prev[to] < 0) {
                int u = todo.front(); todo.pop();
                for (auto& e : adj[u]) if (e.second != c0 && prev[e.first] < 0) { prev[e.first] = u; pc[e.first] = e.second; todo.push(e.first); }
            }
            if (prev[to] < 0) continue;
            double s = scale * (kind == 4 ? 0.5 + r.unit() : 0.1 + 1.5 * r.unit());
            if (r.chance(500)) s = -s;
            q[c0] += s;
            for (int v = to; v != from; v = prev[v]) q[pc[v]] += (m.nb[2 * pc[v]] == prev[v] ? s : -s);
        }
    }
    if (kind == 3 || r.chance(250)) for (auto& x : q) if (r.chance(250)) x = 0.0;
    if (kind == 5) for (auto& x : q) x = 0.0;
    if (kind == 6) for (auto& x : q) if (r.chance(700)) x *= 1.0 / 1048576.0;      // slow regions: time-of-flight ceiling
    for (int c = 0; c < f.nconn; ++c) {
        double x = q36(q[c]);
        if (nph == 0) continue;
        double rest = x;
        for (int ph = 0; ph + 1 < nph; ++ph) {
            double part = q36(r.chance(300) ? scale * (r.unit() - 0.5) * 2 : rest * r.unit());
            if (x == 0.0 && r.chance(400)) part = 0.0;
            f.v[size_t(c) * nph + ph] = part;
            rest -= part;
        }
        f.v[size_t(c) * nph + nph - 1] = rest;
        if (kind == 8 && r.chance(300)) {                // a trickle, in one phase
            for (int ph = 0; ph < nph; ++ph) f.v[size_t(c) * nph + ph] = 0.0;
            f.v[size_t(c) * nph + r.range(0, nph - 1)] = std::ldexp(x < 0 ? -1.0 : 1.0, -r.range(40, 70));
        }
    }
    return f;
}

// The part of a seed above 24 bits selects a small change to the data of the lower part.
Flux makeFlux(const Mesh& m, uint64_t seed, int kind, int nph)
{
    Flux f = makeFlux0(m, seed & 0xffffff, kind, nph);
    uint64_t var = seed >> 24;
    if (!var || !f.nconn || !nph) return f;
    Rng r(mix(seed, 505));
    auto at = [&](int c, int ph) -> double& { return f.v[size_t(c) * nph + ph]; };
    auto change = [&](double x) { int k = r.range(0, 3); return q36(k == 0 ? -x : k == 1 ? x * 0.5 : k == 2 ? x * 2 : x + 0.0009765625); };
    int c = int(r.below(f.nconn)), d = int(r.below(f.nconn)), ph = r.range(0, nph - 1);
    switch (r.range(0, 6)) {
    case 0: at(c, ph) = change(at(c, ph)); break;                                       // one value
    case 1: { double x = r.chance(500) ? -1.0 : 2.0; for (int i = 0; i < f.nconn; ++i) at(i, ph) *= x; break; }   // one phase
    case 2: for (int p = 0; p < nph; ++p) std::swap(at(c, p), at(d, p)); break;         // same values in other places
    case 3: for (auto& x : f.v) x = -x; break;                                          // reversed flow
    case 4: { double x = q36(at(c, ph) * 0.5); at(c, ph) -= x; at(d, ph) += x; break; } // same sum
    case 5: at(c, ph) = 0.0; break;
    default: at(f.nconn - 1, nph - 1) = change(at(f.nconn - 1, nph - 1)); break;        // last value
    }
    return f;
}

static std::vector<double> makePv0(int nc, uint64_t seed, int kind)
{
    Rng r(mix(seed, 303));
    std::vector<double> pv(nc);
    double base = std::pow(2.0, r.range(3, 14));
    for (auto& x : pv) {
        x = std::round(base * (0.5 + 4 * r.unit()) * 16.0) / 16.0;
        if (kind == 1 && r.chance(150)) x = 0.0;
        if (kind == 2 && r.chance(200)) x *= 1048576.0;
    }
    return pv;
}

std::vector<double> makePv(int nc, uint64_t seed, int kind)
{
    std::vector<double> pv = makePv0(nc, seed & 0xffffff, kind);
    if (!(seed >> 24) || nc < 1) return pv;
    Rng r(mix(seed, 606));
    int a = int(r.below(nc)), b = int(r.below(nc));
    switch (r.range(0, 4)) {
    case 0: pv[a] *= 2; break;
    case 1: std::swap(pv[a], pv[b]); break;
    case 2: pv[a] += 16; if (pv[b] >= 16) pv[b] -= 16; break;
    case 3: pv[a] = 0; break;
    default: pv[nc - 1] += 1; break;
    }
    return pv;
}

std::string wellName(uint64_t k)
{
    static const std::string n[] = {"I1", "P1", "I2", "P-2", "well with a rather long name, beyond the small string buffer 1",
                                    "well with a rather long name, beyond the small string buffer 2", std::string("I1\0b", 4), "", std::string("I1\0a", 4), "I10"};
    return n[k % 10];
}

static Wells makeWells0(int nc, uint64_t seed, int kind)
{
    Rng r(mix(seed, 404));
    Wells w;
    if (nc < 1) return w;
    double scale = std::pow(2.0, r.range(-11, -6));
    int nw = kind == 1 ? 1 : kind == 6 ? r.range(6, 10) : r.range(2, kind == 8 ? 3 : 6);
    std::vector<int> names{0, 1, 2, 3, 4, 5, 6, 7, 8, 9};
    r.shuffle(names);
    int shared = int(r.below(nc));
    for (int k = 0; k < nw; ++k) {
        bool tiny = kind == 7 && k < 2;                              // rates far below those of the flow field
        bool inj = k % 2 == 0;
        if (kind == 3) inj = true;
        if (kind == 4) inj = false;
        auto& v = w[wellName(names[k])];
        int n = kind == 8 ? std::max(1, int(nc * r.unit())) : std::min(nc, kind == 6 ? r.range(1, 14) : r.chance(500) ? 1 : r.range(1, 4));
        for (int i = 0; i < n; ++i) {
            int cell = kind != 8 && r.chance(150) ? shared : int(r.below(nc));              // kind 8: wells along much of the model
            double q = q36(tiny ? double(1 + r.below(8)) / 68719476736.0 : scale * (0.1 + r.unit()));
            bool cross = kind == 2 && r.chance(400);
            if (r.chance(50)) q = 0.0;
            v[cell] = (inj != cross) ? q : -q;
        }
        if (kind == 5 && r.chance(300)) v.clear();
    }
    return w;
}

Wells makeWells(int nc, uint64_t seed, int kind)
{
    Wells w = makeWells0(nc, seed & 0xffffff, kind);
    if (!(seed >> 24) || w.empty() || nc < 1) return w;
    Rng r(mix(seed, 707));
    auto some = [&] { auto i = w.begin(); std::advance(i, long(r.below(w.size()))); return i; };
    auto i = some(), j = some();
    auto cell = [&](std::map<int, double>& m) -> double& { if (m.empty()) return m[int(r.below(nc))]; auto q = m.begin(); std::advance(q, long(r.below(m.size()))); return q->second; };
    switch (r.range(0, 7)) {
    case 0: { double& q = cell(i->second); q = q36(q * 2); break; }
    case 1: { double& q = cell(i->second); q = -q; break; }
    case 2: if (i != j) { auto m = i->second; i->second = j->second; j->second = m; } break;     // wells exchange their cells
    case 3: w.erase(i); break;
    case 4: i->second[int(r.below(nc))] = (r.chance(500) ? 1 : -1) * 0.00390625; break;
    case 5: { std::string n = wellName(r.below(10)); if (!w.count(n)) { w[n] = i->second; w.erase(i); } break; } // renamed
    case 6: if (!i->second.empty()) { auto q = i->second.begin(); double x = q->second; i->second.erase(q); i->second[int(r.below(nc))] = x; } break;
    default: { std::map<int, double>& a = i->second; if (!a.empty() && i != j) { auto q = *a.begin(); a.erase(a.begin()); double& t = j->second[q.first]; t = q36(t + q.second); } break; } // same total, other well
    }
    return w;
}

Digraph flowGraph(const Mesh& m, const Flux& f, bool reverse)
{
    Digraph g(m.nc);
    for (int c = 0; c < f.nconn; ++c) {
        double q = f.total(c);
        int i = m.nb[2 * c], j = m.nb[2 * c + 1];
        if (q < 0) { std::swap(i, j); q = -q; }
        if (q == 0 || i == j) continue;
        if (reverse) std::swap(i, j);
        g.add(i, j, q);
    }
    return g;
}

std::vector<int> sccIds(const std::vector<std::vector<int>>& adj, int& ncomp)
{
    // Kosaraju, iterative. Component ids: a component's id is larger than those of all components it can reach.
    int n = int(adj.size());
    std::vector<std::vector<int>> rev(n);
    for (int u = 0; u < n; ++u) for (int v : adj[u]) rev[v].push_back(u);
    std::vector<char> seen(n, 0);
    std::vector<int> order;
    std::vector<std::pair<int, size_t>> stk;
    for (int s = 0; s < n; ++s) {
        if (seen[s]) continue;
        seen[s] = 1; stk.push_back({s, 0});
        while (!stk.empty()) {
            int u = stk.back().first;
            if (stk.back().second < rev[u].size()) {
                int v = rev[u][stk.back().second++];
                if (!seen[v]) { seen[v] = 1; stk.push_back({v, 0}); }
            }
            else { order.push_back(u); stk.pop_back(); }
        }
    }
    // order: finishing order on the reversed graph; the last finisher is a source of the reversed graph (a sink of adj).
    std::vector<int> id(n, -1), todo;
    ncomp = 0;
    for (int k = n - 1; k >= 0; --k) {
        int s = order[k];
        if (id[s] >= 0) continue;
        todo.assign(1, s); id[s] = ncomp;
        while (!todo.empty()) {
            int u = todo.back(); todo.pop_back();
            for (int v : adj[u]) if (id[v] < 0) { id[v] = ncomp; todo.push_back(v); }
        }
        ++ncomp;
    }
    return id;
}

std::vector<char> reachable(const Digraph& g, const std::vector<int>& start)
{
    std::vector<char> r(g.n, 0);
    std::vector<int> todo;
    for (int s : start) if (s >= 0 && s < g.n && !r[s]) { r[s] = 1; todo.push_back(s); }
    while (!todo.empty()) {
        int u = todo.back(); todo.pop_back();
        for (auto& e : g.out[u]) if (!r[e.first]) { r[e.first] = 1; todo.push_back(e.first); }
    }
    return r;
}

static bool denseSolve(std::vector<std::vector<long double>>& A, std::vector<long double>& b)
{
    int n = int(b.size());
    for (int k = 0; k < n; ++k) {
        int p = k;
        for (int i = k + 1; i < n; ++i) if (fabsl(A[i][k]) > fabsl(A[p][k])) p = i;
        if (A[p][k] == 0) return false;
        std::swap(A[p], A[k]); std::swap(b[p], b[k]);
        for (int i = k + 1; i < n; ++i) {
            long double f = A[i][k] / A[k][k];
            if (f == 0) continue;
            for (int j = k; j < n; ++j) A[i][j] -= f * A[k][j];
            b[i] -= f * b[k];
        }
    }
    for (int i = n - 1; i >= 0; --i) {
        for (int j = i + 1; j < n; ++j) b[i] -= A[i][j] * b[j];
        b[i] /= A[i][i];
    }
    return true;
}

double gWorkLimit = 300000;
RefSol solveRef(const Digraph& g, const std::vector<double>& pv, const std::vector<double>& source, const std::map<int, double>& start, bool local)
{
    RefSol s;
    int n = g.n;
    std::vector<int> st;
    for (auto& x : start) st.push_back(x.first);
    s.reach = reachable(g, st);
    std::vector<char> sub(n, 1);
    if (local) sub = s.reach;
    std::vector<std::vector<int>> adj(n);
    std::vector<double> total(n, 0.0);
    for (int u = 0; u < n; ++u) {
        for (auto& e : g.out[u]) adj[u].push_back(e.first);
        for (auto& e : g.in[u]) total[u] += e.second;
        total[u] += source[u];
        if (pv[u] > 0 && total[u] > 0 && std::fabs(total[u] * kMaxTof / pv[u] - 1.0) < 1e-9) s.usable = false;
    }
    int nc = 0;
    auto id = sccIds(adj, nc);
    std::vector<std::vector<int>> comp(nc);
    for (int u = 0; u < n; ++u) comp[id[u]].push_back(u);

    // Iteration counts of a Gauss-Seidel sweep with the library's stopping rule (for budgets and tolerances).
    std::vector<double> gc(n, 0.0), gt(n, 0.0);
    auto cellGs = [&](int u) {
        double c = 0, t = 0;
        for (auto& e : g.in[u]) { c += gc[e.first] * e.second; t += gt[e.first] * gc[e.first] * e.second; }
        auto p = start.find(u);
        if (p != start.end()) c += p->second;
        gc[u] = total[u] > 0 ? c / total[u] : 0.0;
        gt[u] = gc[u] > 0 ? (pv[u] * gc[u] + t) / (total[u] * gc[u]) : kMaxTof;
        if (total[u] < pv[u] / kMaxTof) gt[u] = kMaxTof;
    };
    std::vector<long double> c(n, 0), m(n, 0);
    double maxTof = 0;
    for (int k = nc - 1; k >= 0; --k) {
        auto& cc = comp[k];
        if (!sub[cc[0]]) continue;
        double sz = 0;
        for (int u : cc) sz += 1.0 + g.in[u].size() + g.out[u].size();
        int it = 1;
        if (cc.size() > 1) {
            s.cyclic = true;
            // Simultaneous (Jacobi) sweeps: an upper bound for successive sweeps in any order of the cells.
            double dt = 1, dc = 1;
            std::vector<double> nc1(cc.size()), nt1(cc.size());
            it = 0;
            while (dt > kMaxTof / 1e12 || dc > 1e-9) {
                dt = dc = 0;
                if (++it > 20000 || it * sz > gWorkLimit) { s.slow = true; break; }
                for (size_t i = 0; i < cc.size(); ++i) {
                    int u = cc[i];
                    double t0 = gt[u], c0 = gc[u];
                    cellGs(u);
                    nt1[i] = gt[u]; nc1[i] = gc[u];
                    gt[u] = t0; gc[u] = c0;
                    dt = std::max(dt, std::fabs(nt1[i] - t0));
                    double big = std::max(c0, nc1[i]);          // relative: a trickle into a strong loop settles slowly although each change is tiny
                    dc = std::max(dc, (c0 == 0) != (nc1[i] == 0) ? 1.0 : big > 0 ? std::fabs(nc1[i] - c0) / big : 0.0);
                }
                for (size_t i = 0; i < cc.size(); ++i) { gt[cc[i]] = nt1[i]; gc[cc[i]] = nc1[i]; }
            }
        }
        else cellGs(cc[0]);
        s.iters = std::max(s.iters, it);
        s.work += sz * it;
        if (s.slow) return s;
        bool inflow = false;
        for (int u : cc) {
            if (source[u] > 0) inflow = true;
            for (auto& e : g.in[u]) if (id[e.first] != k) inflow = true;
        }
        if (cc.size() > 1 && !inflow) s.closed = true;
        // A trickle in a strongly recirculating region: values there are not determined beyond rounding.
        if (cc.size() > 1) {
            double least = HUGE_VAL, most = 0;
            for (int u : cc) {
                most = std::max(most, total[u]);
                if (source[u] > 0) least = std::min(least, source[u]);
                for (auto& e : g.in[u]) least = std::min(least, e.second);
            }
            if (least < most * 0x1p-33) s.usable = false;
        }
        bool anyReach = s.reach[cc[0]];
        if (!anyReach) continue;                            // c = 0 everywhere in the component
        int q = int(cc.size());
        std::map<int, int> pos;
        for (int i = 0; i < q; ++i) pos[cc[i]] = i;
        if (q > 220) {
            // Too large to eliminate: sweep on in extended precision, from the iterated solution, until nothing moves.
            for (int u : cc) { c[u] = gc[u]; m[u] = total[u] < pv[u] / kMaxTof ? kMaxTof * (long double)gc[u] : (long double)gc[u] * gt[u]; }
            bool still = false;
            for (int n2 = 0; n2 < 40000 && !still && n2 * sz < 20 * gWorkLimit; ++n2) {
                still = true;
                for (int i = q - 1; i >= 0; --i) {
                    int u = cc[i];
                    long double cu = 0, mu = 0;
                    auto p = start.find(u);
                    if (p != start.end()) cu += p->second;
                    for (auto& e : g.in[u]) { cu += c[e.first] * e.second; mu += m[e.first] * e.second; }
                    cu /= total[u];
                    if (total[u] < pv[u] / kMaxTof) { mu = (long double)kMaxTof * cu; s.capped = true; }
                    else mu = (mu + (long double)pv[u] * cu) / total[u];
                    if (fabsl(cu - c[u]) > 1e-14L * cu || fabsl(mu - m[u]) > 1e-14L * mu) still = false;
                    c[u] = cu; m[u] = mu;
                }
            }
            if (!still) s.usable = false;
            for (int u : cc) if (c[u] > 0) maxTof = std::max(maxTof, double(m[u] / c[u]));
            continue;
        }
        std::vector<std::vector<long double>> A(q, std::vector<long double>(q, 0)), B;
        std::vector<long double> b(q, 0), d(q, 0);
        for (int i = 0; i < q; ++i) {
            int u = cc[i];
            A[i][i] += total[u];
            auto p = start.find(u);
            if (p != start.end()) b[i] += p->second;
            for (auto& e : g.in[u]) {
                auto z = pos.find(e.first);
                if (z != pos.end()) A[i][z->second] -= e.second;
                else b[i] += c[e.first] * e.second;
            }
        }
        B = A;
        if (!denseSolve(A, b)) { s.slow = true; return s; }
        for (int i = 0; i < q; ++i) c[cc[i]] = b[i];
        for (int i = 0; i < q; ++i) {
            int u = cc[i];
            if (total[u] < pv[u] / kMaxTof) {
                std::fill(B[i].begin(), B[i].end(), 0.0L);
                B[i][i] = 1; d[i] = (long double)kMaxTof * c[u];
                s.capped = true;
                continue;
            }
            d[i] = (long double)pv[u] * c[u];
            for (auto& e : g.in[u]) if (pos.find(e.first) == pos.end()) d[i] += m[e.first] * e.second;
        }
        if (!denseSolve(B, d)) { s.slow = true; return s; }
        for (int i = 0; i < q; ++i) {
            m[cc[i]] = d[i];
            if (c[cc[i]] > 0) maxTof = std::max(maxTof, double(d[i] / c[cc[i]]));
        }
    }
    s.tof.assign(n, kMaxTof); s.conc.assign(n, 0.0); s.tolTof.assign(n, 0.0); s.tolConc.assign(n, 0.0);
    double N = s.cyclic ? 20.0 + s.iters : 0.0;
    for (int u = 0; u < n; ++u) {
        if (!sub[u]) continue;
        s.conc[u] = double(c[u]);
        if (c[u] > 0) {
            double t = double(m[u] / c[u]);
            if (t >= kMaxTof) { t = kMaxTof; s.capped = true; }
            s.tof[u] = t;
            s.tolConc[u] = 1e-9 * double(c[u]) + 1e-9 * N;
            s.tolTof[u] = 1e-9 * t + 6.4e-3 * N + maxTof * 1e-9 * N / double(c[u]) * (s.cyclic ? 1 : 0) + 1e-6;
            if (c[u] < 1e-200) s.usable = false;
        }
        else if (s.reach[u]) {                              // lost in the rounding of the elimination
            s.conc[u] = 0;
            s.tolConc[u] = std::fabs(double(c[u])) + 1e-9 * N;
            s.tolTof[u] = 2 * kMaxTof;
        }
    }
    return s;
}
