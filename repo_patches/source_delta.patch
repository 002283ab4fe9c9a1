From 8c7d89e909e65ddaafe26a8c27b4767528c83848 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 01/11] fix: check every row of the item's area when testing if
 it fits

Only the corners of the topmost row were checked, so an item already placed
between the corners of that row was overlapped.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 21e4d08..a22e495 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -92,7 +92,7 @@ class PointGenerationMixin:
         ):
             return False
 
-        for y in range(Yo, Yo + l - 1):
+        for y in range(Yo, Yo + l):
             if any(container_coords[y][Xo : Xo + w]):
                 return False
 
-- 
2.43.0


From 09f50fbe403f63476a9fc582bccfe5a4eaa94644 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 02/11] fix: strip packing utilization used the last row's
 index as the height

The height of the stack was one less than the real one, so the utilization
was overestimated (even above 1), and heights 1 and 2 were equivalent.
---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index a22e495..9a9a0bf 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -531,7 +531,7 @@ class PointGenerationMixin:
 
             for y in range(L - 1, 0, -1):
                 if any(container_coords[y]):
-                    height_of_solution = y
+                    height_of_solution = y + 1
                     break
 
             items_area = sum(
-- 
2.43.0


From 499d617ea909dde9070a34ecc40cc781264ca48d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:45:30 +0000
Subject: [PATCH 03/11] fix: strip packing hypersearch accepted solutions
 missing items

The comparison between strategies ignored the 'all items in solution'
restriction which holds when container_min_height is None.
---
 hyperpack/heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 48a9f94..eaeaae6 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -422,10 +422,7 @@ class HyperPack(
             )
 
     def _check_solution(self, new_obj_val, best_obj_value):
-        if new_obj_val > best_obj_value:
-            return True
-        else:
-            return False
+        return self.compare_node(new_obj_val, best_obj_value)
 
     def _get_array_optimum(self, array):
         """
-- 
2.43.0


From 2808feec383f3cb3d5738281c5492ebeb2a92b67 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 04/11] fix: generate_problem_data could generate non positive
 item dimensions

Width and length parameters were mixed up in the items' limits, and the
lower limit could be zero or negative, which the problem then rejects.
---
 hyperpack/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperpack/utils.py b/hyperpack/utils.py
index 147ee7e..817feb6 100644
--- a/hyperpack/utils.py
+++ b/hyperpack/utils.py
@@ -51,16 +51,16 @@ def generate_problem_data(**kwargs):
     items_length = kwargs.get("items_length", DEFAULT_MEAN_ITEM_LENGTH)
     items_width = kwargs.get("items_width", DEFAULT_MEAN_ITEM_WIDTH)
 
-    deviation_w_val = max(round(items_length * 0.6), 1)
-    deviation_h_val = max(round(items_width * 0.6), 1)
+    deviation_w_val = max(round(items_width * 0.6), 1)
+    deviation_h_val = max(round(items_length * 0.6), 1)
 
     lower_w_val, upper_w_val = (
-        items_width - deviation_w_val,
+        max(items_width - deviation_w_val, 1),
         items_width + deviation_w_val,
     )
     lower_h_val, upper_h_val = (
-        items_width - deviation_h_val,
-        items_width + deviation_h_val,
+        max(items_length - deviation_h_val, 1),
+        items_length + deviation_h_val,
     )
     items = {}
     total_items_num = items_num * containers_num
-- 
2.43.0


From e2f62730e9f12e154bdb80ed62b57cf86f0b6a03 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 05/11] fix: '|=' on items, containers and dimensions skipped
 validation and reset

UserDict.__ior__ writes to the data directly, so invalid values (and changes
of a strip packing container) were accepted and a stale solution was kept.
---
 hyperpack/structures.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/hyperpack/structures.py b/hyperpack/structures.py
index 3311975..b1d6ec8 100644
--- a/hyperpack/structures.py
+++ b/hyperpack/structures.py
@@ -121,6 +121,14 @@ class Dimensions(UserDict):
     def __delitem__(self, key: str):
         raise DimensionsError(DimensionsError.CANT_DELETE)
 
+    def __ior__(self, other):
+        """
+        Same as ``update``. ``UserDict``'s implementation would
+        change the data without validation and resetting.
+        """
+        self.update(other)
+        return self
+
 
 class AbstractStructureSet(UserDict):
     """
@@ -182,6 +190,14 @@ class AbstractStructureSet(UserDict):
         del self.data[key]
         self.reset_instance_attrs()
 
+    def __ior__(self, other):
+        """
+        Same as ``update``. ``UserDict``'s implementation would
+        change the data without validation and resetting.
+        """
+        self.update(other)
+        return self
+
     def get_dimensions(self, structure_id, dims):
         # The structure's dimension is an instance
         # of the Dimensions class
-- 
2.43.0


From 9d108c5aa1ba950b299659c67dea3c31c3d64835 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 06/11] fix: log_solution raised ZeroDivisionError for an empty
 strip packing solution

---
 hyperpack/mixins.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 9a9a0bf..1307e4d 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -653,7 +653,9 @@ class SolutionLoggingMixin:
             total_items_area = sum(
                 [i[2] * i[3] for item_id, i in self.solution[cont_id].items()]
             )
-            log.append(f"\t[util%] : {total_items_area*100/(W*L):.4f}%")
+            # an empty strip packing solution has no height
+            utilization = total_items_area * 100 / (W * L) if L else 0
+            log.append(f"\t[util%] : {utilization:.4f}%")
             if self._strip_pack:
                 solution = self.solution[cont_id]
                 # height of items stack in solution
-- 
2.43.0


From 09052dc75a73601fa307b99958a746996de0705b Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 07/11] fix: create_figure raised IndexError for more items
 than available colors

---
 hyperpack/mixins.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 1307e4d..55f9cd6 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -811,7 +811,7 @@ class SolutionFigureMixin:
         Method for returning a hexadecimal color for every item
         in the graph.
         """
-        return constants.ITEMS_COLORS[index]
+        return constants.ITEMS_COLORS[index % len(constants.ITEMS_COLORS)]
 
     def get_figure_dtick_value(self, dimension, scale=20):
         """
-- 
2.43.0


From ab9c33e93a06f4dc6d7db55edb36ba6566cb9521 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 08/11] fix: plotly and kaleido versions were compared as
 strings

plotly 5.2.0 ... 5.9.0 passed as newer than 5.14.0.
---
 hyperpack/mixins.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/hyperpack/mixins.py b/hyperpack/mixins.py
index 55f9cd6..ff8cf31 100644
--- a/hyperpack/mixins.py
+++ b/hyperpack/mixins.py
@@ -693,6 +693,17 @@ class SolutionFigureMixin:
     KALEIDO_MIN_VER = ("0", "2", "1")
     KALEIDO_MAX_VER = ("0", "3", "0")
 
+    @staticmethod
+    def _numeric_version(version) -> tuple:
+        return tuple(int(re.match(r"\d*", x).group() or 0) for x in version[:3])
+
+    def _version_ok(self, version, min_version, max_version) -> bool:
+        return (
+            self._numeric_version(min_version)
+            <= self._numeric_version(version)
+            < self._numeric_version(max_version)
+        )
+
     def _check_plotly_kaleido_versions(self) -> None:
         self._plotly_installed = False
         self._plotly_ver_ok = False
@@ -705,9 +716,10 @@ class SolutionFigureMixin:
             pass
         else:
             self._plotly_installed = True
-            plotly_ver = tuple([x for x in plotly.__version__.split(".")][:3])
-            if plotly_ver >= self.PLOTLY_MIN_VER and plotly_ver < self.PLOTLY_MAX_VER:
-                self._plotly_ver_ok = True
+            plotly_ver = plotly.__version__.split(".")
+            self._plotly_ver_ok = self._version_ok(
+                plotly_ver, self.PLOTLY_MIN_VER, self.PLOTLY_MAX_VER
+            )
 
         try:
             import kaleido
@@ -715,9 +727,10 @@ class SolutionFigureMixin:
             pass
         else:
             self._kaleido_installed = True
-            kaleido_ver = tuple([x for x in kaleido.__version__.split(".")][:3])
-            if kaleido_ver >= self.KALEIDO_MIN_VER and kaleido_ver < self.KALEIDO_MAX_VER:
-                self._kaleido_ver_ok = True
+            kaleido_ver = kaleido.__version__.split(".")
+            self._kaleido_ver_ok = self._version_ok(
+                kaleido_ver, self.KALEIDO_MIN_VER, self.KALEIDO_MAX_VER
+            )
 
     def _validate_figure_settings(self) -> None:
         self._check_plotly_kaleido_versions()
-- 
2.43.0


From 7a66dc45e7b83e363577fd3881aa53d4eb06c13e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 09/11] fix: workers_num accepted positive numbers which are
 not integers

---
 hyperpack/heuristics.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index eaeaae6..4c7c601 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -397,10 +397,7 @@ class HyperPack(
         # % ----------------------------------------------------------------------------
         workers_num = self._settings.get("workers_num")
         if workers_num is not None:
-            try:
-                if not workers_num > 0:
-                    raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
-            except Exception:
+            if not isinstance(workers_num, int) or workers_num <= 0:
                 raise SettingsError(SettingsError.WORKERS_NUM_VALUE)
             self._workers_num = workers_num
         else:
-- 
2.43.0


From eba58d7500e30d1855257741a133592d0cfbbdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 10/11] fix: multiprocessing hypersearch ignored the
 container_height attribute

The workers always solved with the initial strip height, so the solution
could exceed the height set by the user.
---
 hyperpack/heuristics.py | 1 +
 hyperpack/processes.py  | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index 4c7c601..b69124c 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -510,6 +510,7 @@ class HyperPack(
                     shared_array=shared_Array,
                     throttle=throttle,
                     container_min_height=container_min_height,
+                    container_height=self._container_height,
                     _force_raise_error_index=_force_raise_error_index,
                 )
             )
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 9971e44..92515b8 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -32,6 +32,7 @@ class HyperSearchProcess(Process):
         *,
         strip_pack=False,
         container_min_height=None,
+        container_height=None,
         _force_raise_error_index=None,
     ):
         super().__init__()
@@ -56,6 +57,8 @@ class HyperSearchProcess(Process):
 
         self.instance = HyperPack(**params)
         self.instance._container_min_height = container_min_height
+        if container_height is not None:
+            self.instance._container_height = container_height
         self.instance.start_time = start_time
         # it is the processe's name
         self.name = name
-- 
2.43.0


From 6f4d2a3241d7d1964bf2f4a202aae7a282ab0e34 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 11/11] fix: multiprocessing hypersearch hanged for big
 solutions

The processes were joined before their queues were emptied, which deadlocks
when a solution doesn't fit in the queue's pipe.
---
 hyperpack/heuristics.py |  5 ++++-
 hyperpack/processes.py  | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/hyperpack/heuristics.py b/hyperpack/heuristics.py
index b69124c..5a888ba 100644
--- a/hyperpack/heuristics.py
+++ b/hyperpack/heuristics.py
@@ -516,6 +516,9 @@ class HyperPack(
             )
         for p in processes:
             p.start()
+        # results are collected before joining, cause a process
+        # can't terminate while its results wait in the queue
+        processes_metrics = [p.get_metrics() for p in processes]
         for p in processes:
             p.join()
         # at this point the processes concluded operation
@@ -533,7 +536,7 @@ class HyperPack(
         shared_list_optimum = self._get_array_optimum(shared_list)
         win_process_index = shared_list.index(shared_list_optimum)
         win_process = processes[win_process_index]
-        win_metrics = win_process.queue.get()
+        win_metrics = processes_metrics[win_process_index]
 
         best_solution = self._deepcopy_solution(win_metrics[1])
         best_obj_val_per_container = self._copy_objective_val_per_container(
diff --git a/hyperpack/processes.py b/hyperpack/processes.py
index 92515b8..aaaae4d 100644
--- a/hyperpack/processes.py
+++ b/hyperpack/processes.py
@@ -1,5 +1,6 @@
 from time import time
 from multiprocessing import Process, Queue
+from queue import Empty
 from .exceptions import MultiProcessError
 from .loggers import hyperLogger
 from copy import deepcopy
@@ -132,3 +133,17 @@ class HyperSearchProcess(Process):
             )
             self.shared_array[self.index] = -1
             self.queue.put((-1, {}, {}, None))
+
+    def get_metrics(self):
+        """
+        Waits for the results of the process. A process that terminated
+        without delivering results is considered failed.
+        """
+        while True:
+            alive = self.is_alive()
+            try:
+                return self.queue.get(timeout=0.1)
+            except Empty:
+                if not alive:
+                    self.shared_array[self.index] = -1
+                    return (-1, {}, {}, None)
-- 
2.43.0

