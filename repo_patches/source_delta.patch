From fbbcffaf5e5c06bb1032eeccfe18f56f34e4c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 01/23] fix: regenerate the GKP indices of a CVLayer on every
 noise application

The GKP indices of the previous call were counted as used, so that every
second call left no GKP indices and the GKP states without noise.
---
 flamingpy/noise/cv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 1103b05..0bba8af 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -307,7 +307,9 @@ class CVLayer:
         """Associate all indices not in self.states with GKP states."""
         used_inds = np.empty(0, dtype=int)
         for psi in self.states:
-            used_inds = np.concatenate([used_inds, self.states[psi]])
+            # The GKP indices of an earlier call must not count as used.
+            if psi != "GKP":
+                used_inds = np.concatenate([used_inds, self.states[psi]])
         remaining_inds = list(set(range(self._N)) - set(used_inds))
         self.states["GKP"] = np.array(remaining_inds, dtype=int)
 
-- 
2.43.0


From c2e8fe36c840e22b1aca153f54d8d22d5e8af42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 02/23] fix: do not modify the states dictionary supplied to
 CVLayer

---
 flamingpy/noise/cv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 0bba8af..3c09cd4 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -92,7 +92,8 @@ class CVLayer:
         # Set some noise model parameters.
         self.delta = delta
         self.p_swap = kwargs.get("p_swap")
-        self.states = supplied_states or {"p": np.empty(0, dtype=int)}
+        # Copied, because the dictionary is modified by populate_states.
+        self.states = dict(supplied_states or {"p": np.empty(0, dtype=int)})
         self._sampling_order = kwargs.get("sampling_order") or "initial"
         self._translator = kwargs.get("translator") or GKP_binner
 
-- 
2.43.0


From a2829e9e965dea7bfed186ee0c4b2dccc95517a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:00 +0000
Subject: [PATCH 03/23] fix: use the bs_network supplied to CVMacroLayer

---
 flamingpy/noise/cv.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 3c09cd4..8f42dbd 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -377,8 +377,7 @@ class CVMacroLayer(CVLayer):
         # Instantiate the CVLayer parent class with the right noise model.
         super().__init__(macro_graph, delta=delta, sampling_order="two-step", **kwargs)
         self.reduced_graph = code.graph
-        if bs_network is None:
-            self.bs_network = splitter_symp()
+        self.bs_network = splitter_symp() if bs_network is None else bs_network
 
     def apply_noise(self, rng=default_rng()):
         """Reduce the macronode code lattice to the canonical code lattice.
-- 
2.43.0


From 1b2383df3eaf87f4401469a56452094ac03d128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 04/23] fix: accept lists of indices in the states argument of
 CVLayer

The documented form {'state': []} failed in the sampling of the
covariances, which adds to the indices as to an array.
---
 flamingpy/noise/cv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 8f42dbd..0bf5823 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -93,7 +93,9 @@ class CVLayer:
         self.delta = delta
         self.p_swap = kwargs.get("p_swap")
         # Copied, because the dictionary is modified by populate_states.
-        self.states = dict(supplied_states or {"p": np.empty(0, dtype=int)})
+        self.states = {
+            psi: np.array(inds, dtype=int) for psi, inds in (supplied_states or {"p": []}).items()
+        }
         self._sampling_order = kwargs.get("sampling_order") or "initial"
         self._translator = kwargs.get("translator") or GKP_binner
 
-- 
2.43.0


From 3cec1769713fc87011a410dac507b6a68dbcc0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 05/23] fix: two-step sampling of a CVLayer

The means of all quadratures were paired with the covariances of the
measured ones, and perfect qubits were only found in index arrays.
---
 flamingpy/noise/cv.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/flamingpy/noise/cv.py b/flamingpy/noise/cv.py
index 0bf5823..494aa34 100644
--- a/flamingpy/noise/cv.py
+++ b/flamingpy/noise/cv.py
@@ -190,6 +190,9 @@ class CVLayer:
         # Determine which means and covs to use for the probability distribution
         if updated_means is None:
             means = self._means_sampler(propagate=propagate, rng=rng)
+            # Two-step sampling only draws outcomes for the measured quadratures.
+            if self._sampling_order == "two-step":
+                means = means[:N][inds] if quad == "q" else means[N:][inds]
         else:
             if quad == "q":
                 means = updated_means[:N][inds]
@@ -298,11 +301,7 @@ class CVLayer:
             N_inds = len(inds)
             covs = np.full(N_inds, (self.delta / 2) ** 0.5, dtype=np.float32)
             if self._perfect_inds:
-                inds_to_0 = set(inds).intersection(self._perfect_inds)
-                ind_arr = np.empty(len(inds_to_0), dtype=np.int64)
-                for i, perfect_ind in enumerate(inds_to_0):
-                    ind_arr[i] = (inds == perfect_ind).nonzero()[0][0]
-                covs[ind_arr] = 0
+                covs[np.isin(inds, self._perfect_inds)] = 0
 
         return covs
 
-- 
2.43.0


From f1dc7fde588aae935283d3e95c03cff79027a630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 06/23] fix: adjacency matrix of an EGraph after remove_qubit

The indices have gaps after a removal, which raised a KeyError.
---
 flamingpy/codes/graphs/egraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index cd9b80e..dc694d9 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -168,7 +168,7 @@ class EGraph(nx.Graph):
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-        sorted_nodes = [self.to_points[i] for i in range(self.order())]
+        sorted_nodes = [self.to_points[i] for i in sorted(self.to_points)]
         # TODO: Reconsider data type for more intricate weights.
         if sparse:
             adj = nx.to_scipy_sparse_array(self, nodelist=sorted_nodes, dtype=np.int8)
-- 
2.43.0


From e768e42e32610a5f2b20cbe51c72ba4b5a3770d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 07/23] fix: return the adjacency matrix in the requested
 format

adj_generator(sparse=False) returned a stored sparse matrix, so that for
instance is_lc_equivalent failed after a sparse matrix was generated.
---
 flamingpy/codes/graphs/egraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index dc694d9..8e243c5 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -164,7 +164,8 @@ class EGraph(nx.Graph):
         self.index_generator(). This function demands that the indices
         match.
         """
-        if self.adj_mat is not None:
+        # The stored matrix is only reused if it has the requested format.
+        if self.adj_mat is not None and sparse != isinstance(self.adj_mat, np.ndarray):
             return self.adj_mat
         if self.to_points is None:
             self.index_generator()
-- 
2.43.0


From 1510d94a190f1e45c58dc0248dbe0783b624f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 08/23] fix: index qubits outside of the macronodes of a
 macronized EGraph

index_generator raised an IndexError if a qubit had been added without
adding it to a macronode.
---
 flamingpy/codes/graphs/egraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index 8e243c5..e2f39ad 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -149,6 +149,8 @@ class EGraph(nx.Graph):
             points = []
             for vertex in sorted_macro:
                 points += self.macro_to_micro[vertex]
+            # Qubits that are not part of any macronode come last.
+            points += sorted(set(self.nodes()) - set(points))
             ind_dict = {points[i]: i for i in range(N)}
         self.to_indices = ind_dict
         self.to_points = {index: point for point, index in ind_dict.items()}
-- 
2.43.0


From ee28faf84fc5c2656095571ee44ae94ccf443132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:52 +0000
Subject: [PATCH 09/23] fix: a rejected add_qubit leaves the EGraph unchanged

Invalid neighbors were only detected after the qubit had been added, and
unknown positions became qubits without an index. Adding a qubit failed
half way if all indexed qubits had been removed.
---
 flamingpy/codes/graphs/egraph.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/flamingpy/codes/graphs/egraph.py b/flamingpy/codes/graphs/egraph.py
index e2f39ad..a968147 100644
--- a/flamingpy/codes/graphs/egraph.py
+++ b/flamingpy/codes/graphs/egraph.py
@@ -269,13 +269,8 @@ class EGraph(nx.Graph):
                 "Cannot add a qubit to macronode because current EGraph is not macronized."
             )
 
-        # Add node
-        self.add_node(qubit)
-
-        # Update dictionaries when adding qubit
-        self._update_attributes_add_qubit(qubit, add_to_macronode)
-
-        # Update neighbors
+        # Find the neighbors before any change, so that a rejected call has no effect
+        neighborhood = []
         if neighbors is not None:
             if len(neighbors) != 0:
                 if isinstance(neighbors[0], int):
@@ -290,8 +285,18 @@ class EGraph(nx.Graph):
                         f" {type(neighbors[0])} was given. Type int can only be used when "
                         "macro is False."
                     )
+                for tup, _ in neighborhood:
+                    if tup not in self:
+                        raise ValueError(f"Could not add qubit because there is no node {tup}.")
 
-                self.add_edges_from(neighborhood)
+        # Add node
+        self.add_node(qubit)
+
+        # Update dictionaries when adding qubit
+        self._update_attributes_add_qubit(qubit, add_to_macronode)
+
+        # Update neighbors
+        self.add_edges_from(neighborhood)
 
         self.adj_mat = None
 
@@ -309,7 +314,7 @@ class EGraph(nx.Graph):
 
         # Update dictionaries
         if self.to_indices is not None:
-            new_index = max(self.to_points) + 1
+            new_index = max(self.to_points, default=-1) + 1
             self.to_points[new_index] = qubit
             self.to_indices[qubit] = new_index
 
-- 
2.43.0


From 984229727bb67d383de7df916c6aca509b043575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 10/23] fix: give every MPI rank its own stream of random
 numbers

int_time is read from the clock of each process, so that the sum with
the rank can be the same for two ranks.
---
 flamingpy/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index 30852a0..99c62e4 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -93,7 +93,7 @@ def ec_monte_carlo(
     successes = np.zeros(1)
     local_successes = np.zeros(1)
 
-    rng = np.random.default_rng(mpi_rank + int_time)
+    rng = np.random.default_rng([int_time, mpi_rank])
 
     for i in range(trials):
         if i % mpi_size == mpi_rank:
-- 
2.43.0


From 6c1ea5de7433da12abd9bcba9a7cd001a19a06f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 11/23] fix: run ec_monte_carlo without a communicator if
 mpi4py is installed

---
 flamingpy/simulations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index 99c62e4..c5fde54 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -106,7 +106,7 @@ def ec_monte_carlo(
             )
             local_successes[0] += result
 
-    if "MPI" in globals():
+    if world_comm is not None:
         world_comm.Reduce(local_successes, successes, op=MPI.SUM, root=0)
     else:
         successes[0] = local_successes[0]
-- 
2.43.0


From a94f319def8443292dd3ad7ea09f12945b0caf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 12/23] fix: quote the values in the rows of the simulation
 results

Tuples failed after all the trials had run, and lists were spread over
several columns.
---
 flamingpy/simulations.py | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index c5fde54..94dc6e9 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -16,6 +16,7 @@
 # pylint: disable=wrong-import-position,consider-using-with,unused-import
 
 import argparse
+import csv
 import sys
 import warnings
 import logging
@@ -168,30 +169,26 @@ def run_ec_simulation(
         # Open the file for appending if it already exists.
         except FileExistsError:
             file = open(file_name, "a", newline="", encoding="utf8")
-            # writer = csv.writer(file)
-        file.write("%s," % (code.__name__))
+        # Values may contain commas and quotes, so leave the quoting to a writer.
+        writer = csv.writer(file, lineterminator="\n")
+        row = [code.__name__]
         for value in code_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (noise.__name__))
+            row.append(str(value))
+        row.append(noise.__name__)
         for value in noise_args.values():
-            file.write("%s," % (value))
-        file.write("%s," % (decoder))
-        for key, value in decoder_args.items():
-            if key == "weight_opts":
-                file.write('"%s",' % (value))
-            else:
-                file.write("%s," % (value))
+            row.append(str(value))
+        row.append(decoder)
+        for value in decoder_args.values():
+            row.append(str(value))
         current_time = datetime.now().time().strftime("%H:%M:%S")
-        file.write(
-            "%i,%i,%s,%f,%i\n"
-            % (
-                errors,
-                trials,
-                current_time,
-                (simulation_stop_time - simulation_start_time),
-                mpi_size,
-            )
-        )
+        row += [
+            errors,
+            trials,
+            current_time,
+            "%f" % (simulation_stop_time - simulation_start_time),
+            mpi_size,
+        ]
+        writer.writerow(row)
         file.close()
 
 
-- 
2.43.0


From 5c1863fc510afd5e7ef46e1aa2165793000cd211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 13/23] fix: let jobs share a results file, also if one is
 interrupted

Two jobs that created the file at the same time overwrote each other's
rows, and an interrupted write left a file without a header or spoiled
the row of the next job.
---
 flamingpy/simulations.py | 57 ++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index 94dc6e9..f693c7a 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -17,6 +17,7 @@
 
 import argparse
 import csv
+import io
 import sys
 import warnings
 import logging
@@ -25,6 +26,12 @@ from ast import literal_eval as l_eval
 from datetime import datetime
 from time import perf_counter
 
+try:
+    import fcntl
+except ImportError:  # pragma: no cover
+    # Not available on Windows, where the results file is not locked.
+    fcntl = None
+
 int_time = int(str(datetime.now().timestamp()).replace(".", ""))
 logging.info("the following seed was used for random number generation: %i", int_time)
 
@@ -117,6 +124,14 @@ def ec_monte_carlo(
     return errors
 
 
+def _csv_line(values):
+    """Return the line of a CSV file with the given values."""
+    buffer = io.StringIO()
+    # Values may contain commas and quotes, so leave the quoting to a writer.
+    csv.writer(buffer, lineterminator="\n").writerow(values)
+    return buffer.getvalue()
+
+
 def run_ec_simulation(
     trials, code, code_args, noise, noise_args, decoder, decoder_args, fname=None
 ):
@@ -153,24 +168,8 @@ def run_ec_simulation(
         # Store results in the provided file-path or by default in
         # a .sims_data directory in the file simulations_results.csv.
         file_name = fname or "./flamingpy/.sims_data/sims_results.csv"
-        # Create a CSV file if it doesn't already exist.
-        try:
-            file = open(file_name, "x", newline="", encoding="utf8")
-            file.write("code,")
-            for key in code_args:
-                file.write("%s," % (key))
-            file.write("noise,")
-            for key in noise_args:
-                file.write("%s," % (key))
-            file.write("decoder,")
-            for key in decoder_args:
-                file.write("%s," % (key))
-            file.write("errors,trials,current_time,simulation_time,mpi_size\n")
-        # Open the file for appending if it already exists.
-        except FileExistsError:
-            file = open(file_name, "a", newline="", encoding="utf8")
-        # Values may contain commas and quotes, so leave the quoting to a writer.
-        writer = csv.writer(file, lineterminator="\n")
+        header = ["code", *code_args, "noise", *noise_args, "decoder", *decoder_args]
+        header += ["errors", "trials", "current_time", "simulation_time", "mpi_size"]
         row = [code.__name__]
         for value in code_args.values():
             row.append(str(value))
@@ -188,8 +187,26 @@ def run_ec_simulation(
             "%f" % (simulation_stop_time - simulation_start_time),
             mpi_size,
         ]
-        writer.writerow(row)
-        file.close()
+        header_line = _csv_line(header).encode("utf8")
+        row_line = _csv_line(row).encode("utf8")
+        # Create a CSV file if it doesn't already exist, otherwise append to it.
+        with open(file_name, "a+b") as file:
+            # Jobs that share the file write to it one after another.
+            if fcntl is not None:
+                fcntl.flock(file, fcntl.LOCK_EX)
+            file.seek(0)
+            contents = file.read()
+            if header_line.startswith(contents):
+                # The file is new, or a job was interrupted while writing the header.
+                file.truncate(0)
+                file.write(header_line + row_line)
+            else:
+                # A job may have been interrupted while writing its row.
+                if contents.count(b'"') % 2:
+                    file.write(b'"\n')
+                elif not contents.endswith(b"\n"):
+                    file.write(b"\n")
+                file.write(row_line)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From e81de20c49c74bbabddc6588974fe63aa1770829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 14/23] fix: give every simulation of a process its own random
 numbers

Repeated calls of ec_monte_carlo in one process, as in a parameter sweep,
all drew the same noise.
---
 flamingpy/simulations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/flamingpy/simulations.py b/flamingpy/simulations.py
index f693c7a..3254c5e 100644
--- a/flamingpy/simulations.py
+++ b/flamingpy/simulations.py
@@ -24,6 +24,7 @@ import logging
 from ast import literal_eval as l_eval
 
 from datetime import datetime
+from itertools import count
 from time import perf_counter
 
 try:
@@ -34,6 +35,8 @@ except ImportError:  # pragma: no cover
 
 int_time = int(str(datetime.now().timestamp()).replace(".", ""))
 logging.info("the following seed was used for random number generation: %i", int_time)
+# Numbers the simulations of this process, each of which has its own stream.
+simulation_numbers = count()
 
 try:
     import mpi4py.rc
@@ -101,7 +104,7 @@ def ec_monte_carlo(
     successes = np.zeros(1)
     local_successes = np.zeros(1)
 
-    rng = np.random.default_rng([int_time, mpi_rank])
+    rng = np.random.default_rng([int_time, mpi_rank, next(simulation_numbers)])
 
     for i in range(trials):
         if i % mpi_size == mpi_rank:
-- 
2.43.0


From bba56a8acee2e59dda9f19af85d7172a36702331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:42 +0000
Subject: [PATCH 15/23] fix: do not grow Union-Find clusters that are erased up
 to the boundary

---
 flamingpy/decoders/unionfind/algos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index 11e568c..d934789 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -125,7 +125,8 @@ def initialize_cluster_trees(stabilizer_graph):
                     ),
                 ),
             )
-        if cluster_root.parity:
+        # Clusters connected to the boundary can be corrected without growing.
+        if cluster_root.parity and not cluster_root.boundary:
             odd_clusters += [cluster_root]
         cluster_trees += [cluster_root]
 
-- 
2.43.0


From 09dfa3542863080680ed686fec54d9a52484447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:20 +0000
Subject: [PATCH 16/23] fix: reject unknown methods of weight assignment

---
 flamingpy/decoders/decoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/decoders/decoder.py b/flamingpy/decoders/decoder.py
index 37f8ec2..9989f88 100644
--- a/flamingpy/decoders/decoder.py
+++ b/flamingpy/decoders/decoder.py
@@ -114,6 +114,8 @@ def assign_weights(code, decoder, **kwargs):
         else:
             for node in qubit_coords:
                 G.nodes[node]["weight"] = 1
+    else:
+        raise ValueError("Invalid weight assignment method; options are 'uniform' and 'blueprint'.")
     # Also assign the weights to the stabilizer graph edges.
     for ec in code.ec:
         getattr(code, f"{ec}_stab_graph").assign_weights(code)
-- 
2.43.0


From 7663474fa964bf786ea92402082e34d4dc8ee3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 17/23] fix: drawing a stabilizer graph leaves the graph of the
 code intact

---
 flamingpy/utils/viz.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index b685e12..c5e3dbf 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -728,11 +728,13 @@ def draw_dec_graph(graph, label_edges=False, node_labels=None, title=""):
     if not isinstance(graph.graph, nx.Graph):
         raise ValueError("The graph must be implemented with the networkx backend.")
 
-    # Remove 'low' and 'high' nodes, which are not important for visualization.
+    # Leave out 'low' and 'high' nodes, which are not important for visualization
+    # (in a copy, since the decoders still need them).
     if graph.__class__.__name__ == "NxStabilizerGraph":
-        graph.graph.remove_nodes_from({"low", "high"})
-
-    graph = graph.graph
+        graph = graph.graph.copy()
+        graph.remove_nodes_from({"low", "high"})
+    else:
+        graph = graph.graph
     layout = nx.circular_layout(graph)
 
     fig, ax = plt.subplots()
-- 
2.43.0


From 29ff02fcc3000f7f42009fb2f320a2710b23b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:25 +0000
Subject: [PATCH 18/23] fix: make the union-find decoder independent of
 rustworkx's arbitrary set order

---
 flamingpy/decoders/unionfind/algos.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index d934789..b375dc0 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -103,8 +103,10 @@ def initialize_cluster_trees(stabilizer_graph):
 
     erasure_graph_nodes = erasure_graph.nodes()
     odd_clusters = []
-    for component in rx.connected_components(erasure_graph):
-        # Assign a random vertex in the erasure component to be the root
+    for component in map(sorted, rx.connected_components(erasure_graph)):
+        # The components are sets in an arbitrary order, which differs from one
+        # call to the next: sort them for the decoding to be reproducible.
+        # Assign an arbitrary vertex in the erasure component to be the root
         root_stabilizer = erasure_graph_nodes[component.pop()]
         cluster_root = Root(
             node_dict[root_stabilizer],
@@ -211,7 +213,7 @@ def obtain_spanning_forest(stabilizer_graph, support):
     for tree in rx.connected_components(spanning_forest):
         nb_odd_nodes = 0
         boundary_node = None
-        for node_index in tree:
+        for node_index in sorted(tree):
             node = spanning_forest_nodes[node_index]
             if isinstance(node, tuple):
                 boundary_node = node_index
-- 
2.43.0


From 197faddc0bd3add4e07a65883b9d287c7eaf957b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:43 +0000
Subject: [PATCH 19/23] fix: peel long branches of the union-find forest
 without recursion

---
 flamingpy/decoders/unionfind/algos.py | 31 ++++++++++++---------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/flamingpy/decoders/unionfind/algos.py b/flamingpy/decoders/unionfind/algos.py
index b375dc0..53e581c 100644
--- a/flamingpy/decoders/unionfind/algos.py
+++ b/flamingpy/decoders/unionfind/algos.py
@@ -271,23 +271,20 @@ def trim_forest(spanning_forest, leaf, parity_dict, recovery):
     Returns:
         NoneType
     """
-    edges = list(spanning_forest.out_edges(leaf))
-    if edges:
-        edge = edges[0]
-    else:
-        return
-    edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
-    spanning_forest.remove_edge(edge[0], edge[1])
-    if edge[0] == leaf:
-        new_leaf = edge[1]
-    else:
-        new_leaf = edge[0]
-    if parity_dict[leaf] == 1:
-        recovery.add(edge_qubit_index)
-        parity_dict[leaf] = 0
-        parity_dict[new_leaf] ^= 1
-    if spanning_forest.degree(new_leaf) == 1:
-        trim_forest(spanning_forest, new_leaf, parity_dict, recovery)
+    # Follow the branch of the leaf in a loop, as it may be longer than Python's recursion limit.
+    while spanning_forest.degree(leaf) == 1:
+        edge = list(spanning_forest.out_edges(leaf))[0]
+        edge_qubit_index = spanning_forest.get_edge_data(edge[0], edge[1])["common_vertex"]
+        spanning_forest.remove_edge(edge[0], edge[1])
+        if edge[0] == leaf:
+            new_leaf = edge[1]
+        else:
+            new_leaf = edge[0]
+        if parity_dict[leaf] == 1:
+            recovery.add(edge_qubit_index)
+            parity_dict[leaf] = 0
+            parity_dict[new_leaf] ^= 1
+        leaf = new_leaf
 
 
 def peeling(spanning_forest, parity_dict):
-- 
2.43.0


From c495e0d2d2f86ba171efd2e6b922fbb4556f3925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:13 +0000
Subject: [PATCH 20/23] fix: drawing a recovery leaves numpy's global random
 generator alone

---
 flamingpy/utils/viz.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flamingpy/utils/viz.py b/flamingpy/utils/viz.py
index c5e3dbf..9272f52 100644
--- a/flamingpy/utils/viz.py
+++ b/flamingpy/utils/viz.py
@@ -1010,6 +1010,8 @@ def add_recovery_drawing(ax, **kwargs):
     G_match = kwargs.get("matching_graph")
     if matching:
         virtual_points = G_match.virtual_points
+        # The colours must not be drawn from the global random generator.
+        color_rng = np.random.default_rng(0)
         for pair in matching:
             if pair not in it.product(virtual_points, virtual_points):
                 xlist, ylist, zlist = [], [], []
@@ -1028,7 +1030,7 @@ def add_recovery_drawing(ax, **kwargs):
                     ylist,
                     zlist,
                     "o-",
-                    c=np.random.rand(3),
+                    c=color_rng.random(3),
                     linewidth=plot_params.get("lines.linewidth", None) * 0.9,
                 )
 
-- 
2.43.0


From b5f7a8d2a0fbbf13651c4082400fe1dd8b853ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:51 +0000
Subject: [PATCH 21/23] fix: IidNoise rejects NaN as error probability

---
 flamingpy/noise/iid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flamingpy/noise/iid.py b/flamingpy/noise/iid.py
index 7db8652..a03b7b9 100644
--- a/flamingpy/noise/iid.py
+++ b/flamingpy/noise/iid.py
@@ -28,7 +28,8 @@ class IidNoise:
     def __init__(self, code, error_probability):
         self.egraph = code.graph
 
-        if error_probability < 0.0 or error_probability > 1.0:
+        # Written such that it also rejects NaN.
+        if not 0.0 <= error_probability <= 1.0:
             raise ValueError("Probability is not between 0 and 1.")
 
         self.error_probability = error_probability
-- 
2.43.0


From 8cb6ea3500fade2c0347d442d7f3a263ba8c1623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:47 +0000
Subject: [PATCH 22/23] fix: RHG_graph accepts the boundaries as a list or
 tuple, as documented

---
 flamingpy/codes/surface_code.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/flamingpy/codes/surface_code.py b/flamingpy/codes/surface_code.py
index 0750d83..b25eacb 100644
--- a/flamingpy/codes/surface_code.py
+++ b/flamingpy/codes/surface_code.py
@@ -167,6 +167,8 @@ def RHG_graph(
     # Dealing with boundaries.
     if isinstance(boundaries, str):
         boundaries = str_to_bound(boundaries)
+    # The boundaries may be given as any sequence.
+    boundaries = np.asarray(boundaries)
 
     # Locations of all primal vertices.
     max_dict = {"primal": 1, "dual": 0, "periodic": 0}
-- 
2.43.0


From 6be4d5ff8e96ad87d23c6d8be1a7d82387923cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:47 +0000
Subject: [PATCH 23/23] fix: lemon matching rounded weights to single precision

---
 flamingpy/cpp/lemonpy.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/flamingpy/cpp/lemonpy.cpp b/flamingpy/cpp/lemonpy.cpp
index 0af41eb..ac85c43 100644
--- a/flamingpy/cpp/lemonpy.cpp
+++ b/flamingpy/cpp/lemonpy.cpp
@@ -7,10 +7,10 @@
 #include <vector>
 
 typedef lemon::ListGraph Graph;
-typedef Graph::EdgeMap<float> Weights;
+typedef Graph::EdgeMap<double> Weights;
 typedef lemon::MaxWeightedPerfectMatching<Graph,Weights> MWPM;
 
-std::vector<int> mwpm(const std::vector<float> & adjacency, int num_nodes)
+std::vector<int> mwpm(const std::vector<double> & adjacency, int num_nodes)
 {
   Graph g;
   Weights w(g);
@@ -47,17 +47,17 @@ std::vector<int> mwpm(const std::vector<float> & adjacency, int num_nodes)
 namespace py = pybind11;
 
 // wrap C++ function with NumPy array IO
-py::array py_mwpm(py::array_t<float, py::array::c_style | py::array::forcecast> array)
+py::array py_mwpm(py::array_t<double, py::array::c_style | py::array::forcecast> array)
 {
   // check input dimensions
   if ( array.ndim()     != 2 )
     throw std::runtime_error("Input should be 2-D NumPy array");
 
   // allocate std::vector (to pass to the C++ function)
-  std::vector<float> pos(array.size());
+  std::vector<double> pos(array.size());
 
   // copy py::array -> std::vector
-  std::memcpy(pos.data(),array.data(),array.size()*sizeof(float));
+  std::memcpy(pos.data(),array.data(),array.size()*sizeof(double));
 
   // call pure C++ function
   std::vector<int> result = mwpm(pos, array.shape()[0]);
-- 
2.43.0

