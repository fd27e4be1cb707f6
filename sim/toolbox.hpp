#pragma once
#include "worlds.hpp"
#include <opm/flowdiagnostics/CellSet.hpp>
#include <opm/flowdiagnostics/CellSetValues.hpp>
#include <opm/flowdiagnostics/ConnectionValues.hpp>
#include <opm/flowdiagnostics/ConnectivityGraph.hpp>
#include <opm/flowdiagnostics/Solution.hpp>
#include <tuple>

// Inputs by (seed, kind): a host description for the model and the object handed to the library.
struct FlowInputs {
    struct Pv { bool bad = false; std::vector<double> host; std::unique_ptr<std::vector<double>> obj; };
    struct Fl { bool bad = false; Flux host; std::unique_ptr<Opm::FlowDiagnostics::ConnectionValues> obj; };
    struct In { bool bad = false; unsigned long key = 0; Wells host; std::unique_ptr<std::map<Opm::FlowDiagnostics::CellSetID, Opm::FlowDiagnostics::CellSetValues>> obj; };
    struct St { Expect expect = MUST_OK; std::vector<std::string> ids; std::unique_ptr<std::vector<Opm::FlowDiagnostics::CellSet>> obj; };

    Mesh mesh[2];
    int unit[2] = {0, 0};
    std::unique_ptr<Opm::FlowDiagnostics::ConnectivityGraph> graph[2];
    std::map<std::tuple<int, long, long>, Pv> pvs;
    std::map<std::tuple<int, long, long, long>, Fl> fls;
    std::map<std::tuple<int, long, long>, In> ins;
    std::map<std::tuple<int, unsigned long, bool, long, long>, St> sts;

    bool rough = false;             // well rates whose sums are inexact
    uint64_t perm = 0;              // only changes the order in which start sets and their cells are listed
    FlowInputs(const Plan&, const std::string& pre);
    static std::shared_ptr<FlowInputs> shared;     // when set, all toolbox worlds use these
    const Pv& pv(int mesh, long s, long k);
    const Fl& fl(int mesh, long s, long k, long nph);
    const In& in(int mesh, long s, long k);
    const St& st(int mesh, const In*, bool inj, long s, long k);
    uint64_t digest() const;
};

struct SolModel {
    std::vector<std::string> start;
    std::vector<double> g;
    std::map<std::string, std::map<int, double>> t, c;
    uint64_t hash() const;
    std::string diff(const SolModel& expected) const;
};
SolModel readSolution(const Opm::FlowDiagnostics::Solution&, World&, const std::vector<std::string>& extra);
