From 0c99caeb5a4b739a6f26817fbbde333a7ab0479a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:23 +0000
Subject: [PATCH 01/30] fix: SplitterFromImages with an integer first index
 (slicing tuple without step)

---
 src/fluidimage/topologies/splitters.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/topologies/splitters.py b/src/fluidimage/topologies/splitters.py
index c46bac8..a37ed6c 100644
--- a/src/fluidimage/topologies/splitters.py
+++ b/src/fluidimage/topologies/splitters.py
@@ -250,8 +250,9 @@ class SplitterFromImages(SplitterCompleteAware):
         else:
             self.num_expected_results = len(self.serie)
             slicing_tuples = self.serie.get_slicing_tuples()
-            s0 = slicing_tuples[0]
-            self.ranges = split_range(s0[0], s0[1], s0[2], self.num_processes)
+            # no step in the tuple when the index is given as an integer
+            start, stop, step = (*slicing_tuples[0], 1)[:3]
+            self.ranges = split_range(start, stop, step, self.num_processes)
 
             if len(slicing_tuples) == 1:
                 self.slicing_str_post = ""
-- 
2.43.0


From 4c76f8ca02726f1f6e2f47708e3b3a3e60c69ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 02/30] fix: origin of the correlation map for windows with
 sizes of different parities (scipy.signal)

---
 src/fluidimage/calcul/correl.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index a006ba0..6f8fa92 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -464,21 +464,16 @@ class CorrelScipySignal(CorrelBase):
         if self.mode not in modes:
             raise ValueError("mode should be in " + modes)
 
-        if self.mode == "same":
-            ny, nx = self.im0_shape
-            if nx % 2 == 0:
-                ind0x = nx // 2 - 1
-            else:
-                ind0x = nx // 2
-            if ny % 2 == 0:
-                ind0y = ny // 2 - 1
-            else:
-                ind0y = ny // 2
+        ny0, nx0 = self.im0_shape
+        ny1, nx1 = self.im1_shape
 
-        else:
-            ny, nx = np.array(self.im0_shape) - np.array(self.im1_shape)
-            ind0x = nx // 2
-            ind0y = ny // 2
+        # the centers of the 2 windows are the pixels of indices n // 2
+        ind0y = ny0 // 2 - ny1 // 2
+        ind0x = nx0 // 2 - nx1 // 2
+
+        if self.mode == "same":
+            ind0y += (ny1 - 1) // 2
+            ind0x += (nx1 - 1) // 2
 
         self.iy0, self.ix0 = (ind0y, ind0x)
 
-- 
2.43.0


From f30d1a0bbe84e45a0525c3e4de824e30d601859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 03/30] fix: no read outside of the first image in correl_numpy
 with odd sizes

---
 src/fluidimage/calcul/correl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index 6f8fa92..1def9b3 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -334,7 +334,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy, xix] = tmp / (nxmax * nymax)
         for xix in range(disp_max):
             dispx = xix + 1
-            nxmax = nx1 - max(nx0 // 2 + nx1 // 2 + dispx - nx0, 0)
+            nxmax = nx1 - max(nx0 // 2 - nx1 // 2 + nx1 + dispx - nx0, 0)
             nx1dep = 0
             nx0dep = nx0 // 2 - nx1 // 2 + dispx
             tmp = zero
@@ -347,7 +347,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy, xix + disp_max + 1] = tmp / (nxmax * nymax)
     for xiy in range(disp_max):
         dispy = xiy + 1
-        nymax = ny1 - max(ny0 // 2 + ny1 // 2 + dispy - ny0, 0)
+        nymax = ny1 - max(ny0 // 2 - ny1 // 2 + ny1 + dispy - ny0, 0)
         ny1dep = 0
         ny0dep = ny0 // 2 - ny1 // 2 + dispy
         for xix in range(disp_max + 1):
@@ -365,7 +365,7 @@ def correl_numpy(im0: A2df32, im1: A2df32, disp_max: int):
             correl[xiy + disp_max + 1, xix] = tmp / (nxmax * nymax)
         for xix in range(disp_max):
             dispx = xix + 1
-            nxmax = nx1 - max(nx0 // 2 + nx1 // 2 + dispx - nx0, 0)
+            nxmax = nx1 - max(nx0 // 2 - nx1 // 2 + nx1 + dispx - nx0, 0)
             nx1dep = 0
             nx0dep = nx0 // 2 - nx1 // 2 + dispx
             tmp = zero
-- 
2.43.0


From 4921ccb127580960e17d0236d68ca247df50da92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 04/30] fix: CorrelPythran and CorrelPyCuda with a given
 displacement_max

---
 src/fluidimage/calcul/correl.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index 1def9b3..c8aaff5 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -398,6 +398,8 @@ class CorrelPythran(CorrelBase):
                     // 2
                     - 1
                 )
+        else:
+            displacement_max = int(self.displacement_max)
         if displacement_max <= 0:
             raise ValueError(
                 "displacement_max <= 0 : problem with images shapes?"
@@ -433,6 +435,8 @@ class CorrelPyCuda(CorrelBase):
                     // 2
                     - 1
                 )
+        else:
+            displacement_max = int(self.displacement_max)
         if displacement_max <= 0:
             raise ValueError(
                 "displacement_max <= 0 : problem with images shapes?"
-- 
2.43.0


From a1595d9755568b47e884004c16d44a0a338eb37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 05/30] fix: error message for an unknown mode of
 CorrelScipySignal

---
 src/fluidimage/calcul/correl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index c8aaff5..7a8eb56 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -466,7 +466,7 @@ class CorrelScipySignal(CorrelBase):
 
         modes = ["valid", "same"]
         if self.mode not in modes:
-            raise ValueError("mode should be in " + modes)
+            raise ValueError(f"mode should be in {modes}")
 
         ny0, nx0 = self.im0_shape
         ny1, nx1 = self.im1_shape
-- 
2.43.0


From 16227c129b839ac2f153181425cc0c06e9b0c4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 06/30] fix: mask the neighbourhood of a correlation peak close
 to the first row or column

---
 src/fluidimage/calcul/correl.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index 7a8eb56..c1dec99 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -223,6 +223,14 @@ class CorrelBase(ABC):
             correl, norm, self.start_stop_for_search0, self.start_stop_for_search1
         )
 
+    def _remove_peak(self, correl, ix, iy):
+        """Mask the neighbourhood of a peak"""
+        radius = self.particle_radius
+        correl[
+            max(0, iy - radius) : iy + radius + 1,
+            max(0, ix - radius) : ix + radius + 1,
+        ] = np.nan
+
     def compute_displacements_from_correl(self, correl, norm=1.0):
         """Compute the displacement from a correlation."""
 
@@ -231,10 +239,7 @@ class CorrelBase(ABC):
         except PIVError as piv_error:
             ix, iy, correl_max = piv_error.results
             # second chance to find a better peak...
-            correl[
-                iy - self.particle_radius : iy + self.particle_radius + 1,
-                ix - self.particle_radius : ix + self.particle_radius + 1,
-            ] = np.nan
+            self._remove_peak(correl, ix, iy)
             try:
                 ix2, iy2, correl_max2 = self._compute_indices_max(correl, norm)
             except PIVError as _piv_error:
@@ -253,10 +258,7 @@ class CorrelBase(ABC):
             correl = correl.copy()
             other_peaks = []
             for _ in range(0, self.nb_peaks_to_search - 1):
-                correl[
-                    iy - self.particle_radius : iy + self.particle_radius + 1,
-                    ix - self.particle_radius : ix + self.particle_radius + 1,
-                ] = np.nan
+                self._remove_peak(correl, ix, iy)
                 try:
                     ix, iy, correl_max_other = self._compute_indices_max(
                         correl, norm
-- 
2.43.0


From 1740a31a9fdd1b7c0b1b7ab9d3dfb5e324fdf2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 07/30] fix: a correlation map without valid values is a
 PIVError and not an AssertionError

---
 src/fluidimage/calcul/correl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/calcul/correl.py b/src/fluidimage/calcul/correl.py
index c1dec99..ed16def 100644
--- a/src/fluidimage/calcul/correl.py
+++ b/src/fluidimage/calcul/correl.py
@@ -105,7 +105,8 @@ def nan_indices_max(
             correl_max = value
             break
 
-    assert not np.isnan(correl_max)
+    if np.isnan(correl_max):
+        return 0, 0, "No valid value in the correlation map."
 
     i0_max = 0
     i1_max = 0
-- 
2.43.0


From cc4fed874ffa0596b2bc10d6f5321226115d882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 08/30] fix: compare the squared norm of a secondary peak with
 the squared displacement_max

---
 src/fluidimage/works/piv/fix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index 8867d64..476b3b3 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -189,7 +189,7 @@ Parameters indicating how are detected and processed false vectors.
 
                 if (
                     self.params_fix.displacement_max
-                    and dx**2 + dy**2 > self.params_fix.displacement_max
+                    and dx**2 + dy**2 > self.params_fix.displacement_max**2
                 ):
                     continue
 
-- 
2.43.0


From fa66692215db6b8a2ddbc967d135413cd88b1e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 09/30] fix: keep the values of the rejected vectors without
 threshold_diff_neighbour

---
 src/fluidimage/works/piv/fix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index 476b3b3..c91360d 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -129,8 +129,8 @@ Parameters indicating how are detected and processed false vectors.
                     ivec
                 ] += f" (diff = {sqrt(differences2[ivec]):.2f})"
 
-            piv_results.deltaxs_wrong = deltaxs_wrong
-            piv_results.deltays_wrong = deltays_wrong
+        piv_results.deltaxs_wrong = deltaxs_wrong
+        piv_results.deltays_wrong = deltays_wrong
 
         if self.piv_work.params.piv0.nb_peaks_to_search < 2:
             return piv_results
-- 
2.43.0


From 39834126a9770e7e7f65a6f3a4aabc21d267415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:21 +0000
Subject: [PATCH 10/30] fix: secondary peaks without threshold_diff_neighbour
 (differences2 was undefined)

---
 src/fluidimage/works/piv/fix.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/works/piv/fix.py b/src/fluidimage/works/piv/fix.py
index c91360d..796e48d 100644
--- a/src/fluidimage/works/piv/fix.py
+++ b/src/fluidimage/works/piv/fix.py
@@ -102,8 +102,10 @@ Parameters indicating how are detected and processed false vectors.
                 inds = (delta2s > displacement_max2).nonzero()[0]
             put_to_nan(inds, "delta2 < displacement_max2")
 
-        if self.params_fix.threshold_diff_neighbour is not None:
-            threshold = self.params_fix.threshold_diff_neighbour
+        threshold = self.params_fix.threshold_diff_neighbour
+        search_secondary_peaks = self.piv_work.params.piv0.nb_peaks_to_search >= 2
+
+        if threshold is not None or search_secondary_peaks:
             ixvecs = self.piv_work.ixvecs
             iyvecs = self.piv_work.iyvecs
 
@@ -119,6 +121,7 @@ Parameters indicating how are detected and processed false vectors.
             diff_y = dys_neighbors - deltays
             differences2 = diff_x**2 + diff_y**2
 
+        if threshold is not None:
             with np.errstate(invalid="ignore"):
                 inds = (differences2 > threshold**2).nonzero()[0]
 
@@ -132,7 +135,7 @@ Parameters indicating how are detected and processed false vectors.
         piv_results.deltaxs_wrong = deltaxs_wrong
         piv_results.deltays_wrong = deltays_wrong
 
-        if self.piv_work.params.piv0.nb_peaks_to_search < 2:
+        if not search_secondary_peaks:
             return piv_results
 
         # condition check 2nd peak
-- 
2.43.0


From 9eb6d2c63b617e04085a543dd7cbf206512a2cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 11/30] fix: prepare_path_dir_result with a Path (new_dir
 appends a number to a string)

---
 src/fluidimage/topologies/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index 5e23548..dfc4223 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -60,7 +60,7 @@ def prepare_path_dir_result(
     path_dir_input = str(path_dir_input)
 
     if path_saving is not None:
-        path_dir_result = path_saving
+        path_dir_result = str(path_saving)
     else:
         path_dir_result = path_dir_input + "." + postfix_saving
 
-- 
2.43.0


From 72f179e705c8b9db3954367bdfee572e9efe9d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 12/30] fix: an answer in upper case was accepted and then
 ignored (mode 'ask' returned)

---
 src/fluidimage/topologies/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fluidimage/topologies/base.py b/src/fluidimage/topologies/base.py
index dfc4223..879fcfc 100644
--- a/src/fluidimage/topologies/base.py
+++ b/src/fluidimage/topologies/base.py
@@ -82,6 +82,7 @@ def prepare_path_dir_result(
                     "Please type your answer again...\n"
                 )
 
+            answer = answer.lower()
             if answer == "s":
                 print("Stopped by the user.")
                 sys.exit()
-- 
2.43.0


From 44a9b2b7c3307db344d67e82e68ed1fe1bdc6379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:08 +0000
Subject: [PATCH 13/30] fix: job directory when the first name is taken (log_
 instead of job_: existing job directory or lock file elsewhere)

---
 src/fluidimage/executors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 02d84a2..80b74b2 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -93,7 +93,7 @@ class ExecutorBase(ABC):
             while path_job_data.exists():
                 index += 1
                 unique_postfix = unique_postfix0 + str(index)
-                path_job_data = self.path_dir_result / f"log_{unique_postfix}"
+                path_job_data = self.path_dir_result / f"job_{unique_postfix}"
 
         self._unique_postfix = unique_postfix
         self.path_job_data = path_job_data
-- 
2.43.0


From 95fe2d20defb88abf712d01eab39c5fcdf4f8929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 14/30] fix: results logged while the results are extended by
 another thread are all named

---
 src/fluidimage/executors/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/base.py b/src/fluidimage/executors/base.py
index 80b74b2..dfe5a7d 100644
--- a/src/fluidimage/executors/base.py
+++ b/src/fluidimage/executors/base.py
@@ -393,7 +393,7 @@ class ExecutorBase(ABC):
     def _save_results_names(self):
 
         new_results = self.topology.results[self._len_saved_results :]
-        self._len_saved_results = len(self.topology.results)
+        self._len_saved_results += len(new_results)
 
         with open(self._path_num_results, "w", encoding="utf-8") as file:
             file.write(f"{self._len_saved_results}\n")
-- 
2.43.0


From 029bd4b8d2e12d3f8e1151eb5716b6256c48181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 15/30] fix: sequential executor: no results log if there is
 nothing to compute

---
 src/fluidimage/executors/exec_sequential.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/executors/exec_sequential.py b/src/fluidimage/executors/exec_sequential.py
index d036b58..8e63e0e 100644
--- a/src/fluidimage/executors/exec_sequential.py
+++ b/src/fluidimage/executors/exec_sequential.py
@@ -21,7 +21,8 @@ class ExecutorSequential(ExecutorBase):
         self.exec_one_shot_works()
         self._run_works()
         self._finalize_compute()
-        if hasattr(self.topology, "results"):
+        # no job directory (and no results log) if there is nothing to compute
+        if hasattr(self.topology, "results") and self.num_expected_results != 0:
             self._save_results_names()
 
     def _run_works(self):
-- 
2.43.0


From c2a6b2b5541536dde787ae4c21bc04fe1bc08d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 16/30] fix: executor with servers: account for a taken item
 before its job is sent

---
 src/fluidimage/executors/exec_async_servers.py | 3 +++
 src/fluidimage/executors/servers.py            | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/executors/exec_async_servers.py b/src/fluidimage/executors/exec_async_servers.py
index a5cbb78..94ba4ad 100644
--- a/src/fluidimage/executors/exec_async_servers.py
+++ b/src/fluidimage/executors/exec_async_servers.py
@@ -197,6 +197,9 @@ class ExecutorAsyncServers(ExecutorAsync):
             worker.is_available = True
             return
 
+        # from now on (no item in the queues), the executor must not stop
+        worker.take_item()
+
         def run_process():
             # create a communication channel
             parent_conn, child_conn = worker.new_pipe()
diff --git a/src/fluidimage/executors/servers.py b/src/fluidimage/executors/servers.py
index 637cc13..84dd353 100644
--- a/src/fluidimage/executors/servers.py
+++ b/src/fluidimage/executors/servers.py
@@ -86,6 +86,11 @@ class Worker:
         self.is_available = True
         self.is_unoccupied = True
 
+    def take_item(self):
+        """Account for an item, before its job is sent (from another thread)"""
+        self.is_unoccupied = False
+        self.nb_items_to_process += 1
+
     def well_done_thanks(self):
         self.nb_items_to_process -= 1
         if self.nb_items_to_process == 0:
@@ -97,8 +102,6 @@ class Worker:
 
 class WorkerMultiprocessing(Worker):
     def send_job(self, obj):
-        self.is_unoccupied = False
-        self.nb_items_to_process += 1
         self.send(obj)
 
     def send(self, obj):
-- 
2.43.0


From ab8956f9db630bad94a2ea6072f6d98f1daa619e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 17/30] fix: name of the PIV result of a series with three
 indices

---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 34658f7..217d6fd 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -50,7 +50,7 @@ def get_name_piv(serie, prefix="piv"):
                 str_index += sep + last
 
         if idim > 1:
-            str_indices += serie.get_index_separators[idim - 1]
+            str_indices += serie.get_index_separators()[idim - 1]
         str_indices += str_index
 
     name = prefix + "_" + str_indices + ".h5"
-- 
2.43.0


From 1c401ef8c430952f1083b766cfc7969d6a1b8000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 18/30] fix: a preprocessed subset is saved under its own
 names, even if there are several subsets

---
 src/fluidimage/topologies/preproc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fluidimage/topologies/preproc.py b/src/fluidimage/topologies/preproc.py
index 4aabad2..8934d63 100644
--- a/src/fluidimage/topologies/preproc.py
+++ b/src/fluidimage/topologies/preproc.py
@@ -306,7 +306,11 @@ Parameters describing image saving after preprocessing.
                 serie = copy.copy(self.series.get_serie_from_index(key))
 
                 array_subset = ArraySubset(
-                    names=names, arrays=arrays, serie=serie
+                    names=names,
+                    arrays=arrays,
+                    serie=serie,
+                    ind_serie=key,
+                    nb_series=self.series.nb_series,
                 )
                 output_queue[key] = array_subset
                 del queue_subsets_of_names[key]
-- 
2.43.0


From 70963b2f9e93ea86995e22b0589084279fa5601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:50 +0000
Subject: [PATCH 19/30] fix: an interrupted saving of a preprocessed subset is
 completed

---
 src/fluidimage/data_objects/preproc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/data_objects/preproc.py b/src/fluidimage/data_objects/preproc.py
index a4cf94f..68813b7 100644
--- a/src/fluidimage/data_objects/preproc.py
+++ b/src/fluidimage/data_objects/preproc.py
@@ -61,16 +61,16 @@ def get_ind_middle(serie):
 
 
 def get_name_preproc(serie, name_files, ind_serie, nb_series, out_format):
-    ind_middle_start, ind_middle_end = get_ind_middle(serie)
+    _, ind_middle_end = get_ind_middle(serie)
 
     if ind_serie == 0 and nb_series == 1:
         s = -1
     elif ind_serie == 0:
-        s = ind_middle_start
+        s = ind_middle_end - 1
     elif ind_serie == nb_series - 1:
         s = -1
     else:
-        s = ind_middle_start
+        s = ind_middle_end - 1
 
     if out_format == "img":
         return name_files[s]
-- 
2.43.0


From 61d5c57c5270fdb4d1f9fe6c13493318c75f4769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 20/30] fix: square extraction of a field with more lines than
 columns

---
 src/fluidimage/postproc/vector_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/postproc/vector_field.py b/src/fluidimage/postproc/vector_field.py
index 3ada5a3..ba483c0 100644
--- a/src/fluidimage/postproc/vector_field.py
+++ b/src/fluidimage/postproc/vector_field.py
@@ -530,7 +530,7 @@ class VectorFieldOnGrid:
             start1 = cut
             stop1 = cut + n
             start0 = (n0 - n) // 2
-            stop0 = start1 + n
+            stop0 = start0 + n
 
         return self.extract(start0, stop0, start1, stop1)
 
-- 
2.43.0


From f754079415ad689fd9e0dcd8c948190c06310055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:06 +0000
Subject: [PATCH 21/30] fix: a temporal window given as an integer spans more
 than one image, or as a list of two sizes

---
 src/fluidimage/works/preproc/_toolbox_py.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index 9cf3132..5b68435 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -176,8 +176,9 @@ def _calcul_windowshape(arr_shape, window_shape):
         raise ValueError("window_shape must be a tuple or a list.")
 
     elif len(window_shape) == 2:
-        window_shape = (nb_imgs,) + window_shape
-    elif window_shape[0] <= 1:
+        window_shape = (nb_imgs,) + tuple(window_shape)
+
+    if window_shape[0] <= 1:
         raise ValueError(
             "Cannot perform temporal filtering, try spatial filtering."
         )
-- 
2.43.0


From 9bb26876290f20d51b06700c94fc00d98264e1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 22/30] fix: integer weights of the sliding and temporal
 filters with images of unsigned integers

---
 src/fluidimage/works/preproc/_toolbox_py.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fluidimage/works/preproc/_toolbox_py.py b/src/fluidimage/works/preproc/_toolbox_py.py
index 5b68435..7f3dc13 100644
--- a/src/fluidimage/works/preproc/_toolbox_py.py
+++ b/src/fluidimage/works/preproc/_toolbox_py.py
@@ -84,7 +84,7 @@ def sliding_median(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.median_filter(
+    img_out = img - float(weight) * ndi.median_filter(
         img, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -119,7 +119,7 @@ def sliding_percentile(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.percentile_filter(
+    img_out = img - float(weight) * ndi.percentile_filter(
         img, percentile, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -148,7 +148,7 @@ def sliding_minima(
         Mode of handling array borders.
 
     """
-    img_out = img - weight * ndi.minimum_filter(
+    img_out = img - float(weight) * ndi.minimum_filter(
         img, size=window_size, mode=boundary_condition
     )
     img_out[img_out < 0] = 0
@@ -205,7 +205,7 @@ def temporal_median(img=None, weight=1.0, window_shape=None):
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
 
-    img_out = img - weight * ndi.median_filter(img, size=window_shape)
+    img_out = img - float(weight) * ndi.median_filter(img, size=window_shape)
     return img_out
 
 
@@ -231,7 +231,7 @@ def temporal_percentile(img=None, percentile=10.0, weight=1.0, window_shape=None
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
 
-    img_out = img - weight * ndi.percentile_filter(
+    img_out = img - float(weight) * ndi.percentile_filter(
         img, percentile, size=window_shape
     )
     return img_out
@@ -253,7 +253,7 @@ def temporal_minima(img=None, weight=1.0, window_shape=None):
 
     """
     window_shape = _calcul_windowshape(img.shape, window_shape)
-    img_out = img - weight * ndi.minimum_filter(img, size=window_shape)
+    img_out = img - float(weight) * ndi.minimum_filter(img, size=window_shape)
     return img_out
 
 
-- 
2.43.0


From f444388265642c5160b5e3d0b2a9e0bc08c29d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:20 +0000
Subject: [PATCH 23/30] fix: first index in the subset of a UVmat series over
 the second index

---
 src/fluidimage/uvmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/uvmat.py b/src/fluidimage/uvmat.py
index 42608b2..ae26dd6 100644
--- a/src/fluidimage/uvmat.py
+++ b/src/fluidimage/uvmat.py
@@ -110,7 +110,7 @@ class ActionBase(ABC):
         elif pair_mode == "series(Dj)":
             if ir.first_i != ir.last_i:
                 raise NotImplementedError("ir.first_i != ir.last_i")
-            str_subset = "{ir.first_i},i:i+2:1"
+            str_subset = f"{ir.first_i},i:i+2:1"
         else:
             raise NotImplementedError(f"{pair_indices.list_pair_mode = }")
 
-- 
2.43.0


From c763a3a418e0fcb36d33fc8470e8fcd996b31097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 24/30] fix: vertical positions in the light result of a pass
 which is not the last one

---
 src/fluidimage/data_objects/piv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 217d6fd..6a2415d 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -725,7 +725,7 @@ class MultipassPIVResults(DataObject):
             deltaxs = piv.deltaxs_approx
             deltays = piv.deltays_approx
             ixvec = piv.ixvecs_approx
-            iyvec = piv.ixvecs_approx
+            iyvec = piv.iyvecs_approx
 
         if hasattr(self, "file_name"):
             file_name = self.file_name
-- 
2.43.0


From 265e43a3771cc67566456251ca0484fb22228a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:44 +0000
Subject: [PATCH 25/30] fix: order of the subdomains when the spline weights
 are loaded from a file

---
 src/fluidimage/data_objects/piv.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fluidimage/data_objects/piv.py b/src/fluidimage/data_objects/piv.py
index 6a2415d..3af542a 100644
--- a/src/fluidimage/data_objects/piv.py
+++ b/src/fluidimage/data_objects/piv.py
@@ -499,12 +499,12 @@ class HeavyPIVResults(DataObject):
         if "deltaxs_tps" in g_piv.keys():
             g = g_piv["deltaxs_tps"]
             self.deltaxs_tps = []
-            for arr in g.keys():
-                self.deltaxs_tps.append(g[arr][...])
+            for i in range(len(g)):
+                self.deltaxs_tps.append(g[f"subdom{i}"][...])
             g = g_piv["deltays_tps"]
             self.deltays_tps = []
-            for arr in g.keys():
-                self.deltays_tps.append(g[arr][...])
+            for i in range(len(g)):
+                self.deltays_tps.append(g[f"subdom{i}"][...])
 
     def get_grid_pixel(self, index_pass):
         """Recompute 1d arrays containing the approximate positions of the vectors
-- 
2.43.0


From 39ef1db3f64b49d94ada901b2af3225c6eea6388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 26/30] fix: aspect ratio of the pixels applied to the vertical
 distance in the simple calibration

---
 src/fluidimage/calibration/calib2d_simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fluidimage/calibration/calib2d_simple.py b/src/fluidimage/calibration/calib2d_simple.py
index 2a5f718..48186c5 100644
--- a/src/fluidimage/calibration/calib2d_simple.py
+++ b/src/fluidimage/calibration/calib2d_simple.py
@@ -72,7 +72,7 @@ class Calibration2DSimple:
         self.aspect_ratio_pixel = aspect_ratio_pixel
 
         self.xphys1pixel = distance / np.sqrt(
-            delta_point[0] ** 2 + (aspect_ratio_pixel * delta_point[1]) ** 2
+            (aspect_ratio_pixel * delta_point[0]) ** 2 + delta_point[1] ** 2
         )
         self.yphys1pixel = aspect_ratio_pixel * self.xphys1pixel
 
-- 
2.43.0


From 66c55967cecd637453347878a7581dd4448ba7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 27/30] fix: Tsai calibration with more than 3 slices without
 angle

---
 src/fluidimage/calibration/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calibration/util.py b/src/fluidimage/calibration/util.py
index faae0b2..056fcd9 100644
--- a/src/fluidimage/calibration/util.py
+++ b/src/fluidimage/calibration/util.py
@@ -110,7 +110,7 @@ def make_params_calibration(path_file):
                     calib_uvmat["slice_angle"]
                 )
             else:
-                slice_angle = [0, 0, 0]
+                slice_angle = np.zeros([nb_slice, 3])
         else:
             for i in range(nb_slice):
                 zslice_coord[i][:] = get_number_from_string(
@@ -127,7 +127,7 @@ def make_params_calibration(path_file):
                         calib_uvmat["slice_angle_{}".format(i + 1)]
                     )
             else:
-                slice_angle = [0, 0, 0]
+                slice_angle = np.zeros([nb_slice, 3])
 
         params._set_child(
             "slices",
-- 
2.43.0


From 44dbe503eee49f7abb691e1d025a01fb07009f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 28/30] fix: Calibration.phys2pix does not modify its arguments

---
 src/fluidimage/calibration/calib_tsai.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fluidimage/calibration/calib_tsai.py b/src/fluidimage/calibration/calib_tsai.py
index b0a9f5e..ec7d359 100644
--- a/src/fluidimage/calibration/calib_tsai.py
+++ b/src/fluidimage/calibration/calib_tsai.py
@@ -166,9 +166,9 @@ class Calibration:
 
     def phys2pix(self, Xphys, Yphys, Zphys=0):
         params = copy.deepcopy(self.params)
-        Xphys *= 100  # m to cm
-        Yphys *= 100  # m to cm
-        Zphys *= 100  # m to cm
+        Xphys = Xphys * 100  # m to cm
+        Yphys = Yphys * 100  # m to cm
+        Zphys = Zphys * 100  # m to cm
 
         if hasattr(params, "f") is False:
             params.f = np.asarray([1, 1])
-- 
2.43.0


From 533c81e85e928aa369fe7f7d041d0e570343e1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 29/30] fix: Calibration.phys2pix with refraction and an array
 of vertical positions

---
 src/fluidimage/calibration/calib_tsai.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fluidimage/calibration/calib_tsai.py b/src/fluidimage/calibration/calib_tsai.py
index ec7d359..96d3129 100644
--- a/src/fluidimage/calibration/calib_tsai.py
+++ b/src/fluidimage/calibration/calib_tsai.py
@@ -182,8 +182,9 @@ class Calibration:
                 params, "refraction_index"
             ):
                 H = params.interface_coord[2]
-                if H > Zphys:
-                    Zphys = H - (H - Zphys) / params.refraction_index
+                Zphys = np.where(
+                    H > Zphys, H - (H - Zphys) / params.refraction_index, Zphys
+                )
             # corrected z (virtual object)
 
             # camera coordinates
-- 
2.43.0


From 66242f0be3996601db79c50bc053e96544bc61c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 30/30] fix: Calibration.pix2phys with an inclined plane,
 without refraction or seen through an interface

---
 src/fluidimage/calibration/calib_tsai.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/fluidimage/calibration/calib_tsai.py b/src/fluidimage/calibration/calib_tsai.py
index 96d3129..6b5ca8a 100644
--- a/src/fluidimage/calibration/calib_tsai.py
+++ b/src/fluidimage/calibration/calib_tsai.py
@@ -69,6 +69,7 @@ class Calibration:
             # horizontal plane z=cte
             Z0 = params.slices.zslice_coord[index_level][2]
         Z0virt = Z0
+        test_refraction = 0
         if hasattr(params, "interface_coord") and hasattr(
             params, "refraction_index"
         ):
@@ -110,16 +111,18 @@ class Calibration:
             if testangle:
                 a = -norm_plane[0] / norm_plane[2]
                 b = -norm_plane[1] / norm_plane[2]
+                # slopes of the virtual plane
+                avirt, bvirt = a, b
                 if test_refraction:
-                    a /= params.refraction_index
-                    b /= params.refraction_index
-
-                R[0] += a * R[2]
-                R[1] += b * R[2]
-                R[3] += a * R[5]
-                R[4] += b * R[5]
-                R[6] += a * R[8]
-                R[7] += b * R[8]
+                    avirt = a / params.refraction_index
+                    bvirt = b / params.refraction_index
+
+                R[0] += avirt * R[2]
+                R[1] += bvirt * R[2]
+                R[3] += avirt * R[5]
+                R[4] += bvirt * R[5]
+                R[6] += avirt * R[8]
+                R[7] += bvirt * R[8]
 
             Tx = params.T[0]
             Ty = params.T[1]
-- 
2.43.0

