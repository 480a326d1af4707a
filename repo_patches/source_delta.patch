From 485d5f330b0bc6663c1d5ae965deb76cc3dd5ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:01 +0000
Subject: [PATCH 01/10] fix: forget largest row/column index when clearing
 connections

AssembledConnections::compress() empties the list of pending connections,
but the recorded maximum indices survived.  A later, smaller graph built
in the same object was then rejected or got too many rows.
---
 opm/utility/graph/AssembledConnections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 6747b21..4c6bbae 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -63,6 +63,9 @@ Opm::AssembledConnections::Connections::clear()
     WeightVector().swap(v_);
     EntityVector().swap(j_);
     EntityVector().swap(i_);
+
+    max_i_ = -1;
+    max_j_ = -1;
 }
 
 bool
-- 
2.43.0


From 1b115e341b60c18de147677436c386e7a6ee7778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:01 +0000
Subject: [PATCH 02/10] fix: drop connection weights of previous graph when new
 one is unweighted

Compressing an unweighted or empty set of connections after a weighted
one kept the weights of the old graph.
---
 opm/utility/graph/AssembledConnections.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 4c6bbae..29f511f 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -152,6 +152,9 @@ CSR::create(const Connections& conns, const Offset numrows)
     if (conns.isWeighted()) {
         this->accumulateConnWeights(conns.v());
     }
+    else {
+        this->sa_.clear();
+    }
 
     const auto nRows = this->ia().size() - 1;
     if (nRows < numrows) {
-- 
2.43.0


From a01d620e021555bde083a5e5af975f61c47ef2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:01 +0000
Subject: [PATCH 03/10] fix: set and restore the floating-point format when
 printing connections

setf(scientific) without mask adds to the stream's float format (a fixed
stream printed hexadecimal floats), and setf(oflags) cannot clear bits,
so the stream was left in a different format.
---
 opm/utility/graph/AssembledConnections.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 29f511f..9c875a4 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -474,7 +474,8 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 {
     // Set output stream format, store original settings.
     const auto oprec = os.precision(16);
-    const auto oflags = os.setf(std::ios_base::scientific);
+    const auto oflags = os.setf(std::ios_base::scientific,
+                                std::ios_base::floatfield);
 
     // Write connections cell-by-cell.
     const int num_cells = ac.numRows();
@@ -487,7 +488,7 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 
     // Restore original stream settings.
     os.precision(oprec);
-    os.setf(oflags);
+    os.flags(oflags);
 
     return os;
 }
-- 
2.43.0


From 5e1e387e4effdf62eed9921c27996d0d9c6d4426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:01 +0000
Subject: [PATCH 04/10] fix: reject negative cell indices in ConnectivityGraph

Only the upper bound was checked; a negative index caused out-of-bounds
access when assembling connections.
---
 opm/flowdiagnostics/ConnectivityGraph.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opm/flowdiagnostics/ConnectivityGraph.cpp b/opm/flowdiagnostics/ConnectivityGraph.cpp
index 255f23f..0a0885c 100644
--- a/opm/flowdiagnostics/ConnectivityGraph.cpp
+++ b/opm/flowdiagnostics/ConnectivityGraph.cpp
@@ -45,9 +45,12 @@ ConnectivityGraph::ConnectivityGraph(const int        num_cells,
     }
 
     if ((! connCells_.empty()) &&
-        (*std::max_element(connCells_.begin(),
-                           connCells_.end())
-         >= num_cells))
+        ((*std::max_element(connCells_.begin(),
+                            connCells_.end())
+          >= num_cells) ||
+         (*std::min_element(connCells_.begin(),
+                            connCells_.end())
+          < 0)))
     {
         throw std::logic_error("Cell indices must be in range");
     }
-- 
2.43.0


From 7aa6da0793d511c73a40428dae240adb0bfc1adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:01 +0000
Subject: [PATCH 05/10] fix: reject inflow flux in cells outside the graph

Such cells led to out-of-bounds writes in the tracer/tof solver.
---
 opm/flowdiagnostics/Toolbox.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 8cc2745..6ac03c6 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -113,6 +113,16 @@ Toolbox::Impl::assignConnectionFlux(const ConnectionValues& flux)
 void
 Toolbox::Impl::assignInflowFlux(const std::map<CellSetID, CellSetValues>& inflow_flux)
 {
+    const int num_cells = g_.numCells();
+    for (const auto& inflow_set : inflow_flux) {
+        for (const auto& data : inflow_set.second) {
+            if ((data.first < 0) || (data.first >= num_cells)) {
+                throw std::logic_error("Inflow flux given for cell "
+                                       "outside connectivity graph");
+            }
+        }
+    }
+
     only_inflow_flux_.clear();
     only_outflow_flux_.clear();
     inj_flux_by_id_.clear();
-- 
2.43.0


From be91fd2102101cb5776b678f44d1e77c1876af79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:01 +0000
Subject: [PATCH 06/10] fix: report memory exhaustion in topological ordering
 as exception

The tarjan functions return NULL when they cannot allocate memory; the
solver dereferenced that result.
---
 opm/flowdiagnostics/TracerTofSolver.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opm/flowdiagnostics/TracerTofSolver.cpp b/opm/flowdiagnostics/TracerTofSolver.cpp
index e787d7f..6a1ff7d 100644
--- a/opm/flowdiagnostics/TracerTofSolver.cpp
+++ b/opm/flowdiagnostics/TracerTofSolver.cpp
@@ -213,6 +213,9 @@ namespace FlowDiagnostics
         struct Deleter { void operator()(TarjanSCCResult* x) { destroy_tarjan_sccresult(x); } };
         std::unique_ptr<TarjanSCCResult, Deleter>
             result(tarjan(num_cells, g_.startPointers().data(), g_.neighbourhood().data()));
+        if (!result) {
+            throw std::runtime_error("Failed to compute topological ordering in TracerTofSolver::computeOrdering()");
+        }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
@@ -254,8 +257,13 @@ namespace FlowDiagnostics
         {
             struct WorkspaceDeleter { void operator()(TarjanWorkSpace* x) { destroy_tarjan_workspace(x); } };
             std::unique_ptr<TarjanWorkSpace, WorkspaceDeleter> ws(create_tarjan_workspace(num_cells));
-            result.reset(tarjan_reachable_sccs(num_cells, g_.startPointers().data(), g_.neighbourhood().data(),
-                                               startcells.size(), startcells.data(), ws.get()));
+            if (ws) {
+                result.reset(tarjan_reachable_sccs(num_cells, g_.startPointers().data(), g_.neighbourhood().data(),
+                                                   startcells.size(), startcells.data(), ws.get()));
+            }
+        }
+        if (!result) {
+            throw std::runtime_error("Failed to compute topological ordering in TracerTofSolver::computeLocalOrdering()");
         }
 
         // Must reverse ordering, since Tarjan computes reverse ordering.
-- 
2.43.0


From 7566adbb7576a21ecb1ac7f3bf29fa0f9a751c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:04 +0000
Subject: [PATCH 07/10] fix: do not abort or spoil a computation when a tracer
 is very dilute

Repeated dilution (e.g. uniform oblique flow through a few hundred cells)
makes tracer values underflow.  This ended the whole computation in
std::logic_error, or, for values close to underflow, gave infinite or
undefined time-of-flight through division by an underflowed product.
---
 opm/flowdiagnostics/TracerTofSolver.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/opm/flowdiagnostics/TracerTofSolver.cpp b/opm/flowdiagnostics/TracerTofSolver.cpp
index 6a1ff7d..f34ac11 100644
--- a/opm/flowdiagnostics/TracerTofSolver.cpp
+++ b/opm/flowdiagnostics/TracerTofSolver.cpp
@@ -146,12 +146,13 @@ namespace FlowDiagnostics
         const int num_elements = component_starts_.back();
         for (int element = 0; element < num_elements; ++element) {
             const int cell = sequence_[element];
-            local_tof[cell] = tof_[cell];
-            local_tracer[cell] = tracer_[cell];
-            // Verify that tracer values are greater than zero
+            // Skip cells in which repeated dilution makes the
+            // tracer value underflow to zero.
             if (tracer_[cell] <= 0.0) {
-                throw std::logic_error("Tracer is zero in non-isolated cell.");
+                continue;
             }
+            local_tof[cell] = tof_[cell];
+            local_tracer[cell] = tracer_[cell];
         }
         return LocalSolution{ std::move(local_tof), std::move(local_tracer) };
     }
@@ -380,8 +381,10 @@ namespace FlowDiagnostics
 
         // Compute time-of-flight.
         if (tracer_[cell] > 0.0) {
-            tof_[cell] = (pv_[cell]*tracer_[cell] + upwind_tof_contrib)
-                       / (total_influx * tracer_[cell]);
+            // Note: upwind_tracer_contrib == total_influx * tracer_[cell],
+            // but does not underflow when the tracer is very dilute.
+            tof_[cell] = pv_[cell] / total_influx
+                       + upwind_tof_contrib / upwind_tracer_contrib;
         } else {
             tof_[cell] = max_tof_;
         }
-- 
2.43.0


From 4aef3bfe9679f3a7d1be49c651300651d073066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:59 +0000
Subject: [PATCH 08/10] fix: accept fluxes of a graph without connections

Toolbox took an assigned flux field without any connection for a missing
one, and so refused to compute diagnostics of graphs (for instance a
single cell) that have no connections.
---
 opm/flowdiagnostics/Toolbox.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 6ac03c6..71951e0 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -66,6 +66,7 @@ private:
 
     std::vector<double> pvol_;
     ConnectionValues    flux_;
+    bool                flux_assigned_ = false;
     std::map<CellSetID, CellSetValues> inj_flux_by_id_;
     std::map<CellSetID, CellSetValues> prod_flux_by_id_;
     CellSetValues       only_inflow_flux_;
@@ -107,6 +108,7 @@ Toolbox::Impl::assignConnectionFlux(const ConnectionValues& flux)
     }
 
     flux_ = flux;
+    flux_assigned_ = true;
     conn_built_ = false;
 }
 
@@ -145,7 +147,7 @@ Toolbox::Forward
 Toolbox::Impl::injDiag(const std::vector<CellSet>& start_sets)
 {
     // Check that we have specified pore volume and fluxes.
-    if (pvol_.empty() || flux_.numConnections() == 0) {
+    if (pvol_.empty() || !flux_assigned_) {
         throw std::logic_error("Must set pore volumes and fluxes before calling diagnostics.");
     }
 
@@ -185,7 +187,7 @@ Toolbox::Reverse
 Toolbox::Impl::prodDiag(const std::vector<CellSet>& start_sets)
 {
     // Check that we have specified pore volume and fluxes.
-    if (pvol_.empty() || flux_.numConnections() == 0) {
+    if (pvol_.empty() || !flux_assigned_) {
         throw std::logic_error("Must set pore volumes and fluxes before calling diagnostics.");
     }
 
-- 
2.43.0


From 36932054edb4cb80d539f69bfbe0b3fca067a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 09/10] fix: keep previous fluxes when memory runs out in
 assignConnectionFlux()

Memberwise copy assignment of ConnectionValues updates the dimensions
before it copies the values.  If the latter runs out of memory, the
toolbox is left with dimensions that do not match its values, and a
subsequent computation reads out of bounds.
---
 opm/flowdiagnostics/Toolbox.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 71951e0..5358376 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -107,7 +107,8 @@ Toolbox::Impl::assignConnectionFlux(const ConnectionValues& flux)
                                "flux field");
     }
 
-    flux_ = flux;
+    // Copy first: 'flux_' must not be left half assigned if the copy fails.
+    flux_ = ConnectionValues(flux);
     flux_assigned_ = true;
     conn_built_ = false;
 }
-- 
2.43.0


From 2c56b05e3dc5f8999e3de3842b86011552aedb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 10/10] fix: keep previous inflow when memory runs out in
 assignInflowFlux()

The current values were cleared before the new ones were collected, so
that memory exhaustion left the toolbox with parts of the new values.
---
 opm/flowdiagnostics/Toolbox.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/opm/flowdiagnostics/Toolbox.cpp b/opm/flowdiagnostics/Toolbox.cpp
index 5358376..6fb84c8 100644
--- a/opm/flowdiagnostics/Toolbox.cpp
+++ b/opm/flowdiagnostics/Toolbox.cpp
@@ -126,22 +126,27 @@ Toolbox::Impl::assignInflowFlux(const std::map<CellSetID, CellSetValues>& inflow
         }
     }
 
-    only_inflow_flux_.clear();
-    only_outflow_flux_.clear();
-    inj_flux_by_id_.clear();
-    prod_flux_by_id_.clear();
+    // Collect new values completely before replacing the current ones, so
+    // that those stay in force if memory runs out.
+    CellSetValues only_inflow, only_outflow;
+    std::map<CellSetID, CellSetValues> inj_by_id, prod_by_id;
     for (const auto& inflow_set : inflow_flux) {
         const CellSetID& id = inflow_set.first;
         for (const auto& data : inflow_set.second) {
             if (data.second > 0.0) {
-                only_inflow_flux_[data.first] += data.second;
-                inj_flux_by_id_[id].insert(data);
+                only_inflow[data.first] += data.second;
+                inj_by_id[id].insert(data);
             } else if (data.second < 0.0) {
-                only_outflow_flux_[data.first] += -data.second;
-                prod_flux_by_id_[id].insert(std::make_pair(data.first, -data.second));
+                only_outflow[data.first] += -data.second;
+                prod_by_id[id].insert(std::make_pair(data.first, -data.second));
             }
         }
     }
+
+    only_inflow_flux_.swap(only_inflow);
+    only_outflow_flux_.swap(only_outflow);
+    inj_flux_by_id_.swap(inj_by_id);
+    prod_flux_by_id_.swap(prod_by_id);
 }
 
 Toolbox::Forward
-- 
2.43.0

