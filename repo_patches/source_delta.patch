From 4f6d8614bb4e17fc3f78128f80e5ae19dc752b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 01/12] fix: report failed component searches in
 TracerTofSolver as bad_alloc

tarjan(), create_tarjan_workspace() and tarjan_reachable_sccs() return
NULL when memory runs out; the result was used unchecked.
---
 opm/flowdiagnostics/TracerTofSolver.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opm/flowdiagnostics/TracerTofSolver.cpp b/opm/flowdiagnostics/TracerTofSolver.cpp
index e787d7f..cd26d35 100644
--- a/opm/flowdiagnostics/TracerTofSolver.cpp
+++ b/opm/flowdiagnostics/TracerTofSolver.cpp
@@ -29,6 +29,7 @@
 #include <cmath>
 #include <limits>
 #include <memory>
+#include <new>
 #include <stdexcept>
 
 namespace Opm
@@ -213,6 +214,9 @@ namespace FlowDiagnostics
         struct Deleter { void operator()(TarjanSCCResult* x) { destroy_tarjan_sccresult(x); } };
         std::unique_ptr<TarjanSCCResult, Deleter>
             result(tarjan(num_cells, g_.startPointers().data(), g_.neighbourhood().data()));
+        if (!result) {
+            throw std::bad_alloc();
+        }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
@@ -254,9 +258,15 @@ namespace FlowDiagnostics
         {
             struct WorkspaceDeleter { void operator()(TarjanWorkSpace* x) { destroy_tarjan_workspace(x); } };
             std::unique_ptr<TarjanWorkSpace, WorkspaceDeleter> ws(create_tarjan_workspace(num_cells));
+            if (!ws) {
+                throw std::bad_alloc();
+            }
             result.reset(tarjan_reachable_sccs(num_cells, g_.startPointers().data(), g_.neighbourhood().data(),
                                                startcells.size(), startcells.data(), ws.get()));
         }
+        if (!result) {
+            throw std::bad_alloc();
+        }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
-- 
2.43.0


From 1d22a202d6a4c07ee9e9dd0b186b54436c384362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 02/12] fix: reset local source term when starting a tracer/tof
 solve

A solve that threw after setting up its local source terms left them in
place, and they entered every later solve of the same solver object.
---
 opm/flowdiagnostics/TracerTofSolver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/flowdiagnostics/TracerTofSolver.cpp b/opm/flowdiagnostics/TracerTofSolver.cpp
index cd26d35..7cfeada 100644
--- a/opm/flowdiagnostics/TracerTofSolver.cpp
+++ b/opm/flowdiagnostics/TracerTofSolver.cpp
@@ -171,6 +171,8 @@ namespace FlowDiagnostics
         tof_.resize(num_cells, 0.0);
         tracer_.clear();
         tracer_.resize(num_cells, 0.0);
+        // A previous solve may have failed before cleaning up.
+        std::fill(local_source_term_.begin(), local_source_term_.end(), 0.0);
         num_multicell_ = 0;
         max_size_multicell_ = 0;
         max_iter_multicell_ = 0;
-- 
2.43.0


From 7c5ca9ff55fc35280f508b133e9e60d097faee05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 03/12] fix: leave Toolbox unchanged if assignInflowFlux() runs
 out of memory

---
 opm/flowdiagnostics/Toolbox.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 8cc2745..17b3993 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -113,22 +113,28 @@ Toolbox::Impl::assignConnectionFlux(const ConnectionValues& flux)
 void
 Toolbox::Impl::assignInflowFlux(const std::map<CellSetID, CellSetValues>& inflow_flux)
 {
-    only_inflow_flux_.clear();
-    only_outflow_flux_.clear();
-    inj_flux_by_id_.clear();
-    prod_flux_by_id_.clear();
+    // Build new tables on the side to leave the object untouched on failure.
+    CellSetValues only_inflow_flux;
+    CellSetValues only_outflow_flux;
+    std::map<CellSetID, CellSetValues> inj_flux_by_id;
+    std::map<CellSetID, CellSetValues> prod_flux_by_id;
     for (const auto& inflow_set : inflow_flux) {
         const CellSetID& id = inflow_set.first;
         for (const auto& data : inflow_set.second) {
             if (data.second > 0.0) {
-                only_inflow_flux_[data.first] += data.second;
-                inj_flux_by_id_[id].insert(data);
+                only_inflow_flux[data.first] += data.second;
+                inj_flux_by_id[id].insert(data);
             } else if (data.second < 0.0) {
-                only_outflow_flux_[data.first] += -data.second;
-                prod_flux_by_id_[id].insert(std::make_pair(data.first, -data.second));
+                only_outflow_flux[data.first] += -data.second;
+                prod_flux_by_id[id].insert(std::make_pair(data.first, -data.second));
             }
         }
     }
+
+    only_inflow_flux_.swap(only_inflow_flux);
+    only_outflow_flux_.swap(only_outflow_flux);
+    inj_flux_by_id_.swap(inj_flux_by_id);
+    prod_flux_by_id_.swap(prod_flux_by_id);
 }
 
 Toolbox::Forward
-- 
2.43.0


From 51bb8c2ed01a55ac8dbc899c82619c096aee4218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 04/12] fix: refuse inflow fluxes in cells that do not exist

Such cells were accepted and overran the dense source term array in the
next diagnostics run.
---
 opm/flowdiagnostics/Toolbox.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 17b3993..3384007 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -121,6 +121,13 @@ Toolbox::Impl::assignInflowFlux(const std::map<CellSetID, CellSetValues>& inflow
     for (const auto& inflow_set : inflow_flux) {
         const CellSetID& id = inflow_set.first;
         for (const auto& data : inflow_set.second) {
+            if ((data.first < 0) ||
+                (static_cast<ConnectivityGraph::SizeType>(data.first) >= g_.numCells()))
+            {
+                throw std::logic_error("Inflow flux given for cell "
+                                       "outside of model");
+            }
+
             if (data.second > 0.0) {
                 only_inflow_flux[data.first] += data.second;
                 inj_flux_by_id[id].insert(data);
-- 
2.43.0


From b08ac3dacab53e35c1f3024c7c78751e517350b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 05/12] fix: refuse negative cell indices in ConnectivityGraph

---
 opm/flowdiagnostics/ConnectivityGraph.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opm/flowdiagnostics/ConnectivityGraph.cpp b/opm/flowdiagnostics/ConnectivityGraph.cpp
index 255f23f..0a0885c 100644
--- a/opm/flowdiagnostics/ConnectivityGraph.cpp
+++ b/opm/flowdiagnostics/ConnectivityGraph.cpp
@@ -45,9 +45,12 @@ ConnectivityGraph::ConnectivityGraph(const int        num_cells,
     }
 
     if ((! connCells_.empty()) &&
-        (*std::max_element(connCells_.begin(),
-                           connCells_.end())
-         >= num_cells))
+        ((*std::max_element(connCells_.begin(),
+                            connCells_.end())
+          >= num_cells) ||
+         (*std::min_element(connCells_.begin(),
+                            connCells_.end())
+          < 0)))
     {
         throw std::logic_error("Cell indices must be in range");
     }
-- 
2.43.0


From 0ff43686469ac876f02e4f1a135cfd3fd85f9b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 06/12] fix: make copy assignment of the input containers all
 or nothing

Running out of memory in the implicit copy assignment left e.g. a
ConnectionValues object with the new sizes but the old, shorter table, so
that the range checks let accesses outside the table through.
---
 opm/flowdiagnostics/CellSet.cpp           | 6 ++++++
 opm/flowdiagnostics/CellSet.hpp           | 6 ++++++
 opm/flowdiagnostics/ConnectionValues.cpp  | 6 ++++++
 opm/flowdiagnostics/ConnectionValues.hpp  | 6 ++++++
 opm/flowdiagnostics/ConnectivityGraph.cpp | 6 ++++++
 opm/flowdiagnostics/ConnectivityGraph.hpp | 6 ++++++
 6 files changed, 36 insertions(+)

diff --git a/opm/flowdiagnostics/CellSet.cpp b/opm/flowdiagnostics/CellSet.cpp
index 2848834..3462143 100644
--- a/opm/flowdiagnostics/CellSet.cpp
+++ b/opm/flowdiagnostics/CellSet.cpp
@@ -64,6 +64,12 @@ CellSet::CellSet(CellSetID id, const std::vector<int>& cells)
 {
 }
 
+CellSet&
+CellSet::operator=(const CellSet& rhs)
+{
+    return *this = CellSet(rhs);
+}
+
 const CellSetID&
 CellSet::id() const
 {
diff --git a/opm/flowdiagnostics/CellSet.hpp b/opm/flowdiagnostics/CellSet.hpp
index fcbe37b..9dedebf 100644
--- a/opm/flowdiagnostics/CellSet.hpp
+++ b/opm/flowdiagnostics/CellSet.hpp
@@ -63,6 +63,12 @@ namespace FlowDiagnostics
         /// Construct non-empty cell set.
         CellSet(CellSetID id, const std::vector<int>& cells);
 
+        // Copying, moving.  Assignment has no effect if it throws.
+        CellSet(const CellSet&) = default;
+        CellSet(CellSet&&) = default;
+        CellSet& operator=(const CellSet& rhs);
+        CellSet& operator=(CellSet&&) = default;
+
         const CellSetID& id() const;
 
         void insert(const int cell);
diff --git a/opm/flowdiagnostics/ConnectionValues.cpp b/opm/flowdiagnostics/ConnectionValues.cpp
index 3a08a6f..6e4f9ed 100644
--- a/opm/flowdiagnostics/ConnectionValues.cpp
+++ b/opm/flowdiagnostics/ConnectionValues.cpp
@@ -41,6 +41,12 @@ ConnectionValues(const NumConnections& nconn,
     , data_  (nconn_.total * nphase_.total, 0.0)
 {}
 
+ConnectionValues&
+ConnectionValues::operator=(const ConnectionValues& rhs)
+{
+    return *this = ConnectionValues(rhs);
+}
+
 std::vector<double>::size_type
 ConnectionValues::numConnections() const
 {
diff --git a/opm/flowdiagnostics/ConnectionValues.hpp b/opm/flowdiagnostics/ConnectionValues.hpp
index ae4d3a6..dfe8fa5 100644
--- a/opm/flowdiagnostics/ConnectionValues.hpp
+++ b/opm/flowdiagnostics/ConnectionValues.hpp
@@ -56,6 +56,12 @@ namespace FlowDiagnostics
         ConnectionValues(const NumConnections& nconn,
                          const NumPhases&      nphase);
 
+        // Copying, moving.  Assignment has no effect if it throws.
+        ConnectionValues(const ConnectionValues&) = default;
+        ConnectionValues(ConnectionValues&&) = default;
+        ConnectionValues& operator=(const ConnectionValues& rhs);
+        ConnectionValues& operator=(ConnectionValues&&) = default;
+
         std::vector<double>::size_type numConnections() const;
         std::size_t                    numPhases()      const;
 
diff --git a/opm/flowdiagnostics/ConnectivityGraph.cpp b/opm/flowdiagnostics/ConnectivityGraph.cpp
index 0a0885c..c440275 100644
--- a/opm/flowdiagnostics/ConnectivityGraph.cpp
+++ b/opm/flowdiagnostics/ConnectivityGraph.cpp
@@ -56,6 +56,12 @@ ConnectivityGraph::ConnectivityGraph(const int        num_cells,
     }
 }
 
+ConnectivityGraph&
+ConnectivityGraph::operator=(const ConnectivityGraph& rhs)
+{
+    return *this = ConnectivityGraph(rhs);
+}
+
 ConnectivityGraph::SizeType
 ConnectivityGraph::numCells() const
 {
diff --git a/opm/flowdiagnostics/ConnectivityGraph.hpp b/opm/flowdiagnostics/ConnectivityGraph.hpp
index 06abfb7..8474385 100644
--- a/opm/flowdiagnostics/ConnectivityGraph.hpp
+++ b/opm/flowdiagnostics/ConnectivityGraph.hpp
@@ -39,6 +39,12 @@ namespace FlowDiagnostics
         ConnectivityGraph(const int        num_cells,
                           std::vector<int> connection_to_cell);
 
+        // Copying, moving.  Assignment has no effect if it throws.
+        ConnectivityGraph(const ConnectivityGraph&) = default;
+        ConnectivityGraph(ConnectivityGraph&&) = default;
+        ConnectivityGraph& operator=(const ConnectivityGraph& rhs);
+        ConnectivityGraph& operator=(ConnectivityGraph&&) = default;
+
         struct CellPair
         {
             int first;
-- 
2.43.0


From c2018865487779c9aa2e633b3b0d88fcf35f198e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 07/12] fix: reset row and column maxima when clearing the
 connection list

A later, smaller graph built with the same object otherwise inherited the
size of the previous graph.
---
 opm/utility/graph/AssembledConnections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 6747b21..4c6bbae 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -63,6 +63,9 @@ Opm::AssembledConnections::Connections::clear()
     WeightVector().swap(v_);
     EntityVector().swap(j_);
     EntityVector().swap(i_);
+
+    max_i_ = -1;
+    max_j_ = -1;
 }
 
 bool
-- 
2.43.0


From a151dad92603d800237cef502a380dcf744874b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 08/12] fix: drop connection weights of previous graph when new
 one has none

---
 opm/utility/graph/AssembledConnections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 4c6bbae..29f511f 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -152,6 +152,9 @@ CSR::create(const Connections& conns, const Offset numrows)
     if (conns.isWeighted()) {
         this->accumulateConnWeights(conns.v());
     }
+    else {
+        this->sa_.clear();
+    }
 
     const auto nRows = this->ia().size() - 1;
     if (nRows < numrows) {
-- 
2.43.0


From 6270cdb35df575699c23632861c9cc9a54029a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 09/12] fix: keep connection list and graph intact if memory
 runs out

A connection that could be added only in part made the list invalid for
good, and a failed compress() left a broken graph behind.
---
 opm/utility/graph/AssembledConnections.cpp | 24 ++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 29f511f..1385181 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -42,7 +42,14 @@ Opm::AssembledConnections::
 Connections::add(const int i, const int j)
 {
     i_.push_back(i);
-    j_.push_back(j);
+
+    try {
+        j_.push_back(j);
+    }
+    catch (...) {
+        i_.pop_back();
+        throw;
+    }
 
     max_i_ = std::max(max_i_, i_.back());
     max_j_ = std::max(max_j_, j_.back());
@@ -52,9 +59,15 @@ void
 Opm::AssembledConnections::
 Connections::add(const int i, const int j, const double v)
 {
-    this->add(i, j);
-
     v_.push_back(v);
+
+    try {
+        this->add(i, j);
+    }
+    catch (...) {
+        v_.pop_back();
+        throw;
+    }
 }
 
 void
@@ -425,8 +438,11 @@ Opm::AssembledConnections::compress(const std::size_t numRows)
                                "connection list");
     }
 
-    csr_.create(conns_, numRows);
+    // Note: Current graph must survive if we fail to build the new one.
+    auto csr = CSR{};
+    csr.create(conns_, numRows);
 
+    csr_ = std::move(csr);
     conns_.clear();
 }
 
-- 
2.43.0


From bb4d16607f1965bced3ecbbc47460d2e67c32693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:58 +0000
Subject: [PATCH 10/12] fix: write connections in scientific notation and
 restore stream format

On a stream set to fixed notation the weights came out in hexadecimal,
and the scientific flag stayed set afterwards.
---
 opm/utility/graph/AssembledConnections.cpp | 28 ++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 1385181..dd8f567 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -488,9 +488,27 @@ Opm::AssembledConnections::cellNeighbourhood(const int cell) const
 std::ostream&
 Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 {
-    // Set output stream format, store original settings.
-    const auto oprec = os.precision(16);
-    const auto oflags = os.setf(std::ios_base::scientific);
+    // Set output stream format, restore original settings on exit.
+    struct FormatGuard
+    {
+        explicit FormatGuard(std::ostream& s)
+            : os(s), prec(s.precision()), flags(s.flags())
+        {}
+
+        ~FormatGuard()
+        {
+            os.precision(prec);
+            os.flags(flags);
+        }
+
+        std::ostream&                 os;
+        const std::streamsize         prec;
+        const std::ios_base::fmtflags flags;
+    };
+
+    const FormatGuard restore(os);
+    os.precision(16);
+    os.setf(std::ios_base::scientific, std::ios_base::floatfield);
 
     // Write connections cell-by-cell.
     const int num_cells = ac.numRows();
@@ -501,9 +519,5 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
         }
     }
 
-    // Restore original stream settings.
-    os.precision(oprec);
-    os.setf(oflags);
-
     return os;
 }
-- 
2.43.0


From 8a5844e1c69b7e60fc0ef375691372a2acd4df43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:56 +0000
Subject: [PATCH 11/12] fix: refuse pore volumes that do not cover the cells of
 a well pair

injectorProducerPairVolume() read past the end of a pore-volume vector
shorter than the solutions it was used with.
---
 opm/flowdiagnostics/DerivedQuantities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/flowdiagnostics/DerivedQuantities.cpp b/opm/flowdiagnostics/DerivedQuantities.cpp
index b99cf87..1ef1d42 100644
--- a/opm/flowdiagnostics/DerivedQuantities.cpp
+++ b/opm/flowdiagnostics/DerivedQuantities.cpp
@@ -213,6 +213,10 @@ namespace FlowDiagnostics
             const int cell = inj_data.first;
             const auto prod_data = prod_tracer.find(cell);
             if (prod_data != prod_tracer.end()) {
+                if (cell < 0 || static_cast<std::size_t>(cell) >= pore_volume.size()) {
+                    throw std::runtime_error("injectorProducerPairVolume(): "
+                                             "Pore volumes inconsistent with input solutions.");
+                }
                 volume += pore_volume[cell] * inj_data.second * prod_data->second;
             }
         }
-- 
2.43.0


From cf68d8b5b43e567375b75f4a27cfdc13120d7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:39 +0000
Subject: [PATCH 12/12] fix: ignore the flux of a cell to itself in tracer and
 time-of-flight solver

A connection of a cell with itself counted as inflow of that cell but,
outside of larger strong components, carried nothing, so that the tracer
and time-of-flight of the cell came out too small.
---
 opm/flowdiagnostics/TracerTofSolver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/flowdiagnostics/TracerTofSolver.cpp b/opm/flowdiagnostics/TracerTofSolver.cpp
index 7cfeada..d24a46e 100644
--- a/opm/flowdiagnostics/TracerTofSolver.cpp
+++ b/opm/flowdiagnostics/TracerTofSolver.cpp
@@ -62,6 +62,9 @@ namespace FlowDiagnostics
             for (int cell = 0; cell < num_cells; ++cell) {
                 const auto nb = graph.cellNeighbourhood(cell);
                 for (const auto& conn : nb) {
+                    if (conn.neighbour == cell) {
+                        continue; // Flux from a cell to itself transports nothing.
+                    }
                     influx[conn.neighbour] += conn.weight;
                     outflux[cell] += conn.weight;
                 }
@@ -356,6 +359,9 @@ namespace FlowDiagnostics
         for (const auto& conn : g_reverse_.cellNeighbourhood(cell)) {
             const int upwind_cell = conn.neighbour;
             const double flux = conn.weight;
+            if (upwind_cell == cell) {
+                continue; // Not part of influx_ either.
+            }
             upwind_tof_contrib += tof_[upwind_cell] * tracer_[upwind_cell] * flux;
             upwind_tracer_contrib += tracer_[upwind_cell] * flux;
         }
-- 
2.43.0

