// Workload data and reference models (host code, shares nothing with the library).
#pragma once
#include "plan.hpp"
#include <map>
#include <string>
#include <vector>

struct Mesh { int nc = 0; std::vector<int> nb; int nconn() const { return int(nb.size() / 2); } };
Mesh makeMesh(int kind, int a, int b, uint64_t seed);

// All generated fluxes, rates and pore volumes are dyadic rationals of limited magnitude, so sums of fluxes are
// exact in double precision whatever the order of summation.
struct Flux { int nconn = 0, nph = 0; std::vector<double> v; double total(int c) const; };
Flux makeFlux(const Mesh&, uint64_t seed, int kind, int nph);
std::vector<double> makePv(int nc, uint64_t seed, int kind);

using Wells = std::map<std::string, std::map<int, double>>;
Wells makeWells(int nc, uint64_t seed, int kind);
std::string wellName(uint64_t k);

struct Edge { int from, to; double w; };
struct Digraph {
    int n = 0;
    std::vector<std::map<int, double>> out, in;     // summed weights
    explicit Digraph(int n_ = 0) : n(n_), out(n_), in(n_) {}
    void add(int i, int j, double w) { out[i][j] += w; in[j][i] += w; }
};
Digraph flowGraph(const Mesh&, const Flux&, bool reverse);

std::vector<int> sccIds(const std::vector<std::vector<int>>& adj, int& ncomp);   // ids in reverse topological order
std::vector<char> reachable(const Digraph&, const std::vector<int>& start);

struct RefSol {
    bool slow = false;                // converges too slowly to be simulated: the operation is left out
    bool usable = true;               // false: outside what the reference decides (near a threshold, large component)
    std::vector<double> tof, conc, tolTof, tolConc;
    std::vector<char> reach;
    double work = 0;                  // upper estimate of cell visits x (1 + neighbours)
    int iters = 0;
    bool cyclic = false, capped = false, closed = false;
};
// source: inflow by all wells; start: cells with the tracer's own inflow.
extern double gWorkLimit;          // recirculation that takes more work than this is not simulated
RefSol solveRef(const Digraph& g, const std::vector<double>& pv, const std::vector<double>& source, const std::map<int, double>& start, bool local);
constexpr double kMaxTof = 200.0 * 365.0 * 24.0 * 60.0 * 60.0;
