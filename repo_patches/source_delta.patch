From 7edf73db2b5859c689fa44ed3bc964fd92c46b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 01/18] fix: check every row of the item's area, the last one
 included, when fitting it

_check_fitting skipped the last row, apart from its corners, so an item could
be placed over another item crossing that row (always possible for items of
length 1).
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 21e4d08..a22e495 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -92,7 +92,7 @@ class PointGenerationMixin:
         ):
             return False
 
-        for y in range(Yo, Yo + l - 1):
+        for y in range(Yo, Yo + l):
             if any(container_coords[y][Xo : Xo + w]):
                 return False
 
-- 
2.43.0


From 35493f57cd90a9deb805edeb0ec342e67fef2b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 02/18] fix: use the height of the items' stack for the strip
 packing utilization

The index of the highest used row was taken for the height, one less than it
is, so the utilization could surpass 1 and a solution with rows wasted could
count as better than a denser one.
---
 hyperpack/mixins.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index a22e495..3266f1a 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -529,9 +529,10 @@ class PointGenerationMixin:
         if strip_pack:
             height_of_solution = 1
 
-            for y in range(L - 1, 0, -1):
+            for y in range(L - 1, -1, -1):
                 if any(container_coords[y]):
-                    height_of_solution = y
+                    # rows are counted from 0
+                    height_of_solution = y + 1
                     break
 
             items_area = sum(
-- 
2.43.0


From 45b643879ee502c2bd6595f3dae2fd43085ba32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 03/18] fix: stop the searches when the maximum utilization is
 found

The optimum objective value was infinite, so the documented stopping criterion
could never be met. It is also met by the initial solution now.
---
 hyperpack/heuristics.py |  8 ++++----
 hyperpack/mixins.py     | 12 ++++++++++++
 hyperpack/processes.py  | 13 ++++++-------
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 48a9f94..c5c4bd4 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -468,6 +468,10 @@ class HyperPack(
         best_strategy = self.DEFAULT_POTENTIAL_POINTS_STRATEGY
 
         for strategy in strategies:
+            if self.global_check(best_obj_value, optimum_obj_value):
+                hyperLogger.debug("Terminating due to max objective value obtained")
+                break
+
             # set the construction heuristic's potential points strategy
             self._potential_points_strategy = strategy
 
@@ -480,10 +484,6 @@ class HyperPack(
                 best_strategy = [point for point in strategy]
                 hyperLogger.debug(f"\tNew best solution: {best_obj_value}\n")
 
-                if self.global_check(new_obj_val, optimum_obj_value):
-                    hyperLogger.debug("Terminating due to max objective value obtained")
-                    break
-
             if time.time() - self.start_time > self._max_time_in_seconds:
                 hyperLogger.debug("Terminating due to surpassed max time")
                 break
diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 3266f1a..039ac3c 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -1123,6 +1123,18 @@ class LocalSearchMixin(AbstractLocalSearch, DeepcopyMixin):
                 sum([u for u in containers_obj_vals[:-1]]) + 0.7 * containers_obj_vals[-1]
             )
 
+    def get_optimum_objective_val(self):
+        """
+        The objective value of fully utilized containers.
+
+        The utilizations are sums of floats, hence the tolerance.
+        """
+        if self._containers_num == 1:
+            optimum = 1
+        else:
+            optimum = (self._containers_num - 1) + 0.7
+        return optimum - 1e-9
+
     def get_init_solution(self):
         self.solve(debug=False)
         # deepcopying solution
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 9971e44..36e25fe 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -77,6 +77,12 @@ class HyperSearchProcess(Process):
             max_time_in_seconds = self.instance._max_time_in_seconds
 
             for strategy in self.strategies_chunk:
+                if is_global(best_obj_value, optimum_obj_value):
+                    hyperLogger.debug(
+                        f"Process {self.name} acquired MAX objective value"
+                    )
+                    break
+
                 # set the construction's heuristic potential points strategy
                 self.instance._potential_points_strategy = strategy
 
@@ -98,13 +104,6 @@ class HyperSearchProcess(Process):
                             f"New best solution: {new_obj_value}\n"
                         )
 
-                    global_optima = is_global(new_obj_value, optimum_obj_value)
-                    if global_optima:
-                        hyperLogger.debug(
-                            f"Process {self.name} acquired MAX objective value"
-                        )
-                        break
-
                 # check if any process has reached global optimum
                 global_optima = is_global(array_optimum, optimum_obj_value)
                 out_of_time = time() - start_time > max_time_in_seconds
-- 
2.43.0


From 61070a52932f91a2728b6b6de7e2d2b865435f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:16 +0000
Subject: [PATCH 04/18] fix: don't accept solutions missing items in the strip
 packing hypersearch

Between strategies only the utilization was compared, so the incomplete initial
solution of a later strategy could replace a complete one, although no
container_min_height was set.
---
 hyperpack/heuristics.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index c5c4bd4..2f7fc55 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -422,10 +422,8 @@ class HyperPack(
             )
 
     def _check_solution(self, new_obj_val, best_obj_value):
-        if new_obj_val > best_obj_value:
-            return True
-        else:
-            return False
+        # same acceptance conditions with the local search's nodes
+        return self.compare_node(new_obj_val, best_obj_value)
 
     def _get_array_optimum(self, array):
         """
-- 
2.43.0


From 5ef2bc3d649c8590221bc3783c69c586442debb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 05/18] fix: report the strategy of the initial solution when
 it remains the best

The initial solution of the single process hypersearch is found with the
instance's strategy, but the default one was always reported as best.
---
 hyperpack/heuristics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 2f7fc55..fa0031a 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -463,7 +463,8 @@ class HyperPack(
         retain_solution = self.get_init_solution()
         best_obj_value = self.calculate_obj_value()
         optimum_obj_value = self.get_optimum_objective_val()
-        best_strategy = self.DEFAULT_POTENTIAL_POINTS_STRATEGY
+        # the strategy the above solution was obtained with
+        best_strategy = self._potential_points_strategy
 
         for strategy in strategies:
             if self.global_check(best_obj_value, optimum_obj_value):
-- 
2.43.0


From e1752c4966ecb47bc2ad7c080a129c85b5a843c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 06/18] fix: solve for the instance's container_height in the
 hypersearch processes

The processes always started from the default height of the strip, ignoring
the one assigned to the instance.
---
 hyperpack/heuristics.py | 2 ++
 hyperpack/processes.py  | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index fa0031a..ecad497 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -500,6 +500,7 @@ class HyperPack(
         processes = []
         min_val = 0
         shared_Array = Array("d", [min_val] * len(strategies_chunks))
+        container_height = getattr(self, "container_height", None)
         container_min_height = getattr(self, "container_min_height", None)
         for i, strategies_chunk in enumerate(strategies_chunks):
             processes.append(
@@ -514,6 +515,7 @@ class HyperPack(
                     start_time=self.start_time,
                     shared_array=shared_Array,
                     throttle=throttle,
+                    container_height=container_height,
                     container_min_height=container_min_height,
                     _force_raise_error_index=_force_raise_error_index,
                 )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 36e25fe..fbf9975 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -31,6 +31,7 @@ class HyperSearchProcess(Process):
         throttle=True,
         *,
         strip_pack=False,
+        container_height=None,
         container_min_height=None,
         _force_raise_error_index=None,
     ):
@@ -55,6 +56,8 @@ class HyperSearchProcess(Process):
             params.update({"containers": containers})
 
         self.instance = HyperPack(**params)
+        if strip_pack and container_height is not None:
+            self.instance._container_height = container_height
         self.instance._container_min_height = container_min_height
         self.instance.start_time = start_time
         # it is the processe's name
-- 
2.43.0


From 362629ecc1fb7a4187d43316b2c877b23b601af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:18 +0000
Subject: [PATCH 07/18] fix: don't deadlock on the output of the hypersearch
 processes

Joining a process before consuming its queue never returns, if the solution is
bigger than the pipe's buffer. A process killed before delivering could hang
the search as well, it now counts as failed.
---
 hyperpack/heuristics.py | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index ecad497..e78899e 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -4,6 +4,7 @@ import sys
 import time
 from itertools import permutations
 from multiprocessing import Array, cpu_count, current_process
+from queue import Empty
 
 from . import constants
 from . import mixins
@@ -488,6 +489,19 @@ class HyperPack(
                 break
         return *retain_solution, best_strategy
 
+    def _get_process_output(self, process):
+        """
+        Returns what the process delivered, or ``None`` if it died without
+        delivering (e.g. killed by the operating system).
+        """
+        while True:
+            alive = process.is_alive()
+            try:
+                return process.queue.get(timeout=1)
+            except Empty:
+                if not alive:
+                    return None
+
     def _multi_process_hypersearch(
         self, strategies: tuple, throttle: bool, _force_raise_error_index
     ):
@@ -522,10 +536,16 @@ class HyperPack(
             )
         for p in processes:
             p.start()
+        # the outputs must be consumed before joining. A process doesn't
+        # exit before all of its queued data have been transferred
+        outputs = [self._get_process_output(p) for p in processes]
         for p in processes:
             p.join()
         # at this point the processes concluded operation
-        shared_list = list(shared_Array)
+        shared_list = [
+            -1 if output is None else value
+            for value, output in zip(shared_Array, outputs)
+        ]
 
         # check if all/some processes failed
         if max(shared_list) == -1:
@@ -539,7 +559,7 @@ class HyperPack(
         shared_list_optimum = self._get_array_optimum(shared_list)
         win_process_index = shared_list.index(shared_list_optimum)
         win_process = processes[win_process_index]
-        win_metrics = win_process.queue.get()
+        win_metrics = outputs[win_process_index]
 
         best_solution = self._deepcopy_solution(win_metrics[1])
         best_obj_val_per_container = self._copy_objective_val_per_container(
-- 
2.43.0


From d9e40303b74745d7800b7d17ddb5b6893e63c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:51 +0000
Subject: [PATCH 08/18] fix: compare the plotly and kaleido versions as numbers

Compared as strings, versions like plotly 5.9.0 were accepted and versions
like 5.100.0 rejected.
---
 hyperpack/mixins.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 039ac3c..38587a9 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -687,10 +687,18 @@ class SolutionFigureMixin:
     FIGURE_DEFAULT_FILE_NAME = "PlotlyGraph"
     ACCEPTED_IMAGE_EXPORT_FORMATS = ("pdf", "png", "jpeg", "webp", "svg")
     # settings constraints
-    PLOTLY_MIN_VER = ("5", "14", "0")
-    PLOTLY_MAX_VER = ("6", "0", "0")
-    KALEIDO_MIN_VER = ("0", "2", "1")
-    KALEIDO_MAX_VER = ("0", "3", "0")
+    PLOTLY_MIN_VER = (5, 14, 0)
+    PLOTLY_MAX_VER = (6, 0, 0)
+    KALEIDO_MIN_VER = (0, 2, 1)
+    KALEIDO_MAX_VER = (0, 3, 0)
+
+    @staticmethod
+    def _get_version_tuple(version) -> tuple:
+        """
+        The leading number of every one of the first three parts.
+        """
+        parts = [re.match(r"\d*", part).group() for part in version.split(".")[:3]]
+        return tuple(int(part or 0) for part in parts)
 
     def _check_plotly_kaleido_versions(self) -> None:
         self._plotly_installed = False
@@ -704,7 +712,7 @@ class SolutionFigureMixin:
             pass
         else:
             self._plotly_installed = True
-            plotly_ver = tuple([x for x in plotly.__version__.split(".")][:3])
+            plotly_ver = self._get_version_tuple(plotly.__version__)
             if plotly_ver >= self.PLOTLY_MIN_VER and plotly_ver < self.PLOTLY_MAX_VER:
                 self._plotly_ver_ok = True
 
@@ -714,7 +722,7 @@ class SolutionFigureMixin:
             pass
         else:
             self._kaleido_installed = True
-            kaleido_ver = tuple([x for x in kaleido.__version__.split(".")][:3])
+            kaleido_ver = self._get_version_tuple(kaleido.__version__)
             if kaleido_ver >= self.KALEIDO_MIN_VER and kaleido_ver < self.KALEIDO_MAX_VER:
                 self._kaleido_ver_ok = True
 
-- 
2.43.0


From afa8df7d994a689546b93f6bc4562d8472d2e5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:05 +0000
Subject: [PATCH 09/18] fix: accept only integers for workers_num

Any number over zero passed the validation. With a float the multi process
hypersearch doesn't use the workers asked for.
---
 hyperpack/heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index e78899e..e49aece 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -398,10 +398,7 @@ class HyperPack(
         # % ----------------------------------------------------------------------------
         workers_num = self._settings.get("workers_num")
         if workers_num is not None:
-            try:
-                if not workers_num > 0:
-                    raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
-            except Exception:
+            if not isinstance(workers_num, int) or workers_num < 1:
                 raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
             self._workers_num = workers_num
         else:
-- 
2.43.0


From 71eeddc3112b75c76a737dec360893440c46e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 10/18] fix: validate the items, containers and dimensions
 updated with |=

UserDict updates its data directly with this operator, bypassing the validation
and the reset of the solution.
---
 hyperpack/structures.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 3311975..087325a 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -121,6 +121,11 @@ class Dimensions(UserDict):
     def __delitem__(self, key: str):
         raise DimensionsError(DimensionsError.CANT_DELETE)
 
+    def __ior__(self, other):
+        # UserDict updates self.data directly
+        self.update(other)
+        return self
+
 
 class AbstractStructureSet(UserDict):
     """
@@ -182,6 +187,11 @@ class AbstractStructureSet(UserDict):
         del self.data[key]
         self.reset_instance_attrs()
 
+    def __ior__(self, other):
+        # UserDict updates self.data directly
+        self.update(other)
+        return self
+
     def get_dimensions(self, structure_id, dims):
         # The structure's dimension is an instance
         # of the Dimensions class
-- 
2.43.0


From 0438b3b18040e1387daf26265b2edfb13be9ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:58 +0000
Subject: [PATCH 11/18] fix: let Items and Containers without a problem
 instance be changed

Assigning, deleting or printing raised AttributeError for the missing instance.
---
 hyperpack/structures.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 087325a..f228897 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -105,7 +105,7 @@ class Dimensions(UserDict):
         """
         # only strip pack case
         if (
-            self.instance._strip_pack
+            getattr(self.instance, "_strip_pack", False)
             and self.proper_keys == {"W", "L"}
             and self.data != {}
         ):
@@ -172,7 +172,7 @@ class AbstractStructureSet(UserDict):
 
         Proper structure_id format enforced.
         """
-        if self.instance._strip_pack and isinstance(self, Containers):
+        if getattr(self.instance, "_strip_pack", False) and isinstance(self, Containers):
             raise ContainersError(ContainersError.STRIP_PACK_ONLY)
 
         self.data[structure_id] = self.get_dimensions(structure_id, new_dimensions)
@@ -185,7 +185,9 @@ class AbstractStructureSet(UserDict):
             raise self.ERROR_CLASS(self.ERROR_CLASS.CANT_DELETE_STRUCTURE)
 
         del self.data[key]
-        self.reset_instance_attrs()
+
+        if self.instance is not None:
+            self.reset_instance_attrs()
 
     def __ior__(self, other):
         # UserDict updates self.data directly
@@ -310,7 +312,7 @@ class Containers(AbstractStructureSet):
             width = self.data[structure_id][self.WIDTH]
             length = self.data[structure_id][self.LENGTH]
 
-            if self.instance._strip_pack:
+            if getattr(self.instance, "_strip_pack", False):
                 strings_list.append(f"  - id: {structure_id}\n    width: {width}\n")
             else:
                 strings_list.append(
-- 
2.43.0


From 51d8ed35711414087452b5824b2d17f0ba3d700a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 12/18] fix: log strip packing solutions without any item

The height of such a solution is 0, raising ZeroDivisionError.
---
 hyperpack/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 38587a9..82e0eb4 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -654,7 +654,9 @@ class SolutionLoggingMixin:
             total_items_area = sum(
                 [i[2] * i[3] for item_id, i in self.solution[cont_id].items()]
             )
-            log.append(f"\t[util%] : {total_items_area*100/(W*L):.4f}%")
+            # the height of an empty strip packing solution is 0
+            utilization = total_items_area * 100 / (W * L) if L else 0
+            log.append(f"\t[util%] : {utilization:.4f}%")
             if self._strip_pack:
                 solution = self.solution[cont_id]
                 # height of items stack in solution
-- 
2.43.0


From 9a9580267c998a52356b3f40ead186f439ba5f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:28 +0000
Subject: [PATCH 13/18] fix: draw figures with more items than the available
 colors

---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 82e0eb4..031d469 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -820,7 +820,7 @@ class SolutionFigureMixin:
         Method for returning a hexadecimal color for every item
         in the graph.
         """
-        return constants.ITEMS_COLORS[index]
+        return constants.ITEMS_COLORS[index % len(constants.ITEMS_COLORS)]
 
     def get_figure_dtick_value(self, dimension, scale=20):
         """
-- 
2.43.0


From adc4a1b1b56fdca7114cfac1c63417a5c4993342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 14/18] fix: generate items of the asked length, with positive
 dimensions

items_length was ignored for the length of the items and used for the deviation
of their width, which could result in zero or negative widths.
---
 hyperpack/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyperpack/utils.py b/hyperpack/utils.py
index 147ee7e..31616a7 100644
--- a/hyperpack/utils.py
+++ b/hyperpack/utils.py
@@ -51,16 +51,17 @@ def generate_problem_data(**kwargs):
     items_length = kwargs.get("items_length", DEFAULT_MEAN_ITEM_LENGTH)
     items_width = kwargs.get("items_width", DEFAULT_MEAN_ITEM_WIDTH)
 
-    deviation_w_val = max(round(items_length * 0.6), 1)
-    deviation_h_val = max(round(items_width * 0.6), 1)
+    deviation_w_val = max(round(items_width * 0.6), 1)
+    deviation_h_val = max(round(items_length * 0.6), 1)
 
+    # dimensions must be positive
     lower_w_val, upper_w_val = (
-        items_width - deviation_w_val,
+        max(items_width - deviation_w_val, 1),
         items_width + deviation_w_val,
     )
     lower_h_val, upper_h_val = (
-        items_width - deviation_h_val,
-        items_width + deviation_h_val,
+        max(items_length - deviation_h_val, 1),
+        items_length + deviation_h_val,
     )
     items = {}
     total_items_num = items_num * containers_num
-- 
2.43.0


From 78882c7017aeb3a0b56e0d22a9d631b766c01d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 15/18] fix: give precedence to the figure's show setting over
 create_figure's parameter

---
 hyperpack/mixins.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 031d469..bb1c6c9 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -865,7 +865,8 @@ class SolutionFigureMixin:
 
         figure_settings = self._settings.get("figure", {})
         export = figure_settings.get("export")
-        show = figure_settings.get("show") or show
+        # the setting has precedence over the parameter
+        show = figure_settings.get("show", show)
 
         if not show and export is None:
             hyperLogger.warning(FigureExportError.NO_FIGURE_OPERATION)
-- 
2.43.0


From e70ff9b41550547d93423c3f300cb7ae5188d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 16/18] fix: validate the figure's width and height for html
 exportation as well

---
 hyperpack/mixins.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index bb1c6c9..36e94f5 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -802,14 +802,14 @@ class SolutionFigureMixin:
                     if not self._kaleido_ver_ok:
                         raise SettingsError(SettingsError.FIGURE_EXPORT_KALEIDO_VERSION)
 
-                    export_width = export.get("width")
-                    if export_width is not None:
-                        if not isinstance(export_width, int) or export_width <= 0:
-                            raise SettingsError(SettingsError.FIGURE_EXPORT_WIDTH_VALUE)
-                    export_height = export.get("height")
-                    if export_height is not None:
-                        if not isinstance(export_height, int) or export_height <= 0:
-                            raise SettingsError(SettingsError.FIGURE_EXPORT_HEIGHT_VALUE)
+                export_width = export.get("width")
+                if export_width is not None:
+                    if not isinstance(export_width, int) or export_width <= 0:
+                        raise SettingsError(SettingsError.FIGURE_EXPORT_WIDTH_VALUE)
+                export_height = export.get("height")
+                if export_height is not None:
+                    if not isinstance(export_height, int) or export_height <= 0:
+                        raise SettingsError(SettingsError.FIGURE_EXPORT_HEIGHT_VALUE)
 
             show = figure_settings.get("show", False)
             if not isinstance(show, bool):
-- 
2.43.0


From f4328bc0c168c20b131969b36f517eaa4f432913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:52 +0000
Subject: [PATCH 17/18] fix: compare library versions of fewer than three
 numbers

---
 hyperpack/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 36e94f5..7298105 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -697,9 +697,11 @@ class SolutionFigureMixin:
     @staticmethod
     def _get_version_tuple(version) -> tuple:
         """
-        The leading number of every one of the first three parts.
+        The leading number of every one of the first three parts,
+        0 for the missing ones.
         """
         parts = [re.match(r"\d*", part).group() for part in version.split(".")[:3]]
+        parts += [""] * (3 - len(parts))
         return tuple(int(part or 0) for part in parts)
 
     def _check_plotly_kaleido_versions(self) -> None:
-- 
2.43.0


From c896d4a18857ff1bdffe58ab93214c68b67321b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:10 +0000
Subject: [PATCH 18/18] fix: let the structures be copied, without resetting
 the solution

---
 hyperpack/structures.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index f228897..24dc139 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -26,6 +26,7 @@ The above structure is inavoidable.
 """
 
 from collections import UserDict
+from copy import copy
 from typing import Union
 from .exceptions import ContainersError, DimensionsError, ItemsError
 
@@ -126,6 +127,10 @@ class Dimensions(UserDict):
         self.update(other)
         return self
 
+    def copy(self):
+        # UserDict sets the copy's keys one by one
+        return copy(self)
+
 
 class AbstractStructureSet(UserDict):
     """
@@ -194,6 +199,10 @@ class AbstractStructureSet(UserDict):
         self.update(other)
         return self
 
+    def copy(self):
+        # UserDict sets the copy's keys one by one
+        return copy(self)
+
     def get_dimensions(self, structure_id, dims):
         # The structure's dimension is an instance
         # of the Dimensions class
-- 
2.43.0

