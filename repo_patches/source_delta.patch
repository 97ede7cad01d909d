From c340a65512db2c4f9787497adfeae3c4abc23ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 01/54] fix: PriorityQueue.peek returns the element that
 pop_min would return

---
 prosimos/simulation_queues_ds.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_queues_ds.py b/prosimos/simulation_queues_ds.py
index 50aca39..d6acc79 100644
--- a/prosimos/simulation_queues_ds.py
+++ b/prosimos/simulation_queues_ds.py
@@ -49,10 +49,11 @@ class PriorityQueue:
 
     def peek(self):
         """Return the lowest priority task (without removing it from the queue)"""
-        for heap_item in self.pq:
-            priority, _, task = heap_item
+        while self.pq:
+            priority, _, task = self.pq[0]
             if task is not self.REMOVED:
                 return task, priority
+            heappop(self.pq)
 
         return None, None
 
-- 
2.43.0


From e1d12be2cb3cf44fa95b202565ab8f4d1ab7e924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 02/54] fix: an open upper bound ('inf') of a branch condition
 has no limit

---
 prosimos/branch_condition_rules.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prosimos/branch_condition_rules.py b/prosimos/branch_condition_rules.py
index efc1c0f..6c01cab 100644
--- a/prosimos/branch_condition_rules.py
+++ b/prosimos/branch_condition_rules.py
@@ -1,4 +1,3 @@
-import sys
 from typing import List, Tuple
 
 
@@ -25,7 +24,7 @@ class BranchConditionRule:
     def _parse_value(self, value):
         if self.condition == "in":
             min_boundary = float(value[0])
-            max_boundary = sys.maxsize if value[1] == "inf" else float(value[1])
+            max_boundary = float("inf") if value[1] == "inf" else float(value[1])
             return min_boundary, max_boundary
         else:
             return value
-- 
2.43.0


From a1b18a538c785697a2772169fa5ddf07c5997b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 03/54] fix: an open upper bound ('inf') of a prioritisation
 rule has no limit

---
 prosimos/prioritisation_rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/prioritisation_rules.py b/prosimos/prioritisation_rules.py
index 48d7fd6..d4538d2 100644
--- a/prosimos/prioritisation_rules.py
+++ b/prosimos/prioritisation_rules.py
@@ -25,7 +25,7 @@ class PrioritisationRule:
     def _parse_value(self, value):
         if self.condition == "in":
             min_boundary = float(value[0])
-            max_boundary = sys.maxsize if value[1] == "inf" else float(value[1])
+            max_boundary = float("inf") if value[1] == "inf" else float(value[1])
 
             return min_boundary, max_boundary
         else:
-- 
2.43.0


From 15bbb56cfb8c01f2347f0e9eb47b74fd075a7e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 04/54] fix: conditions that are true together on flows of
 probability 0 no longer divide by zero

---
 prosimos/outgoing_flow_selector.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prosimos/outgoing_flow_selector.py b/prosimos/outgoing_flow_selector.py
index 21f9f89..962a50b 100644
--- a/prosimos/outgoing_flow_selector.py
+++ b/prosimos/outgoing_flow_selector.py
@@ -110,6 +110,9 @@ class OutgoingFlowSelector:
     @staticmethod
     def _scale_to_one(values):
         total = sum(values)
+        if total == 0:
+            # all candidates have probability 0, so they are equally likely
+            return [1 / len(values) for _ in values]
         return [value / total for value in values]
 
     @staticmethod
-- 
2.43.0


From 0c7aab336bc145f5b4e5995111fc6f652f986645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:22 +0000
Subject: [PATCH 05/54] fix: a size rule with '>' or '>=' fires when enough
 items are waiting

get_firing_batch_size kept the initial sys.maxsize as batch size, because it
satisfies '>' and '>=', and then discarded it as larger than the queue.
---
 prosimos/batch_processing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 4de0143..4a4e42a 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -718,7 +718,9 @@ class AndFiringRule():
                 # initial_batch_size = batch_size
                 # if previously batch_size satisfy the size rule - return it
                 # if not - return the one we've just calculated with the size rule limitations
-                batch_size = batch_size if rule_operator(batch_size, value2) else batch_size_rule
+                # (sys.maxsize means that no previous rule has determined a size)
+                batch_size = batch_size if batch_size != sys.maxsize and rule_operator(batch_size, value2) \
+                    else batch_size_rule
                 
                 if batch_size > current_batch_size or \
                     enabled_time > initial_curr_enabled_at:
-- 
2.43.0


From fe732dd59249cb2bafec7dc7df6b6aed78eb7400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 06/54] fix: items that can no longer form a batch are executed
 at the end of the simulation

---
 prosimos/batch_processing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 4a4e42a..b819d87 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -838,8 +838,11 @@ class AndFiringRule():
 
 
     def is_invalid_end(self, curr_batch_size, first_wt, last_wt):
-        is_invalid = False
-        
+        # no new item will arrive, so too few items for a batch will never become enough
+        is_invalid = not self.is_batch_size_enough_for_exec(curr_batch_size)
+        if is_invalid:
+            return is_invalid
+
         for simple_rule in self.rules:
             is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt)
 
-- 
2.43.0


From e82c44959d49e13e6d2145c41b3889c530f62f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:50 +0000
Subject: [PATCH 07/54] fix: a parallel batch starts when all of its items are
 enabled

---
 prosimos/simulation_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 9b1a905..136a616 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -529,7 +529,9 @@ class SimBPMEnv:
 
             r_id, r_avail_at = self.pop_and_allocate_resource(c_event.task_id, num_tasks_in_batch)
 
-            r_avail_at = max(r_avail_at, enabled_batch, start_time_from_rule_seconds)
+            # the whole batch starts together, so not before any of its items is enabled
+            last_enabled_at = max(enabled_time.seconds_from_start for _, enabled_time in batch_item)
+            r_avail_at = max(r_avail_at, enabled_batch, start_time_from_rule_seconds, last_enabled_at)
             avail_datetime = self._datetime_from(r_avail_at)
             is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
             if not is_working:
-- 
2.43.0


From 8caa6ca32d4868641ff7dc414435c43e7325a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:20 +0000
Subject: [PATCH 08/54] fix: a batch with a ready_wt rule is executed when the
 last case has been enabled

At the end of the simulation no time was planned for items whose waiting time
had not yet reached the rule, so their cases were never completed.
---
 prosimos/batch_processing.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index b819d87..cb5c186 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -569,6 +569,14 @@ class AndFiringRule():
             return None
         else:
             _, en_time = wt_res
+            if en_time == None and rule_type == RULE_TYPE.READY_WT:
+                # the waiting time has not been reached yet and no new item will reset it,
+                # so the batch will be enabled in the future
+                low_boundary, high_boundary = self.ready_wt_boundaries
+                last_item = draft_element["enabled_datetimes"][-1]
+                en_time = _get_enabled_time_for_wt_rule(last_item, operator.ge, low_boundary) \
+                    if draft_element["size"] > 1 \
+                    else _get_enabled_time_for_wt_rule(last_item, operator.gt, high_boundary)
             return en_time
 
     def is_size_one(self):
-- 
2.43.0


From effcc136148cff65892bcfc8f53a698d3d0e4365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:17 +0000
Subject: [PATCH 09/54] fix: a batch consists of the items removed from the
 waiting list

BatchInfoForExecution kept all waiting cases while _clear_batch removed the first
ones only: with a different order by priority cases were executed twice or never.
---
 prosimos/control_flow_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index ea509f9..ba46bd2 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -20,7 +20,9 @@ seconds_per_unit = {"s": 1, "m": 60, "h": 3600, "d": 86400, "w": 604800}
 
 class BatchInfoForExecution:
     def __init__(self, all_case_ids, task_batch_info, curr_task_id, batch_spec, start_time_from_rule):
-        self.case_ids = all_case_ids[curr_task_id].copy()
+        # only the items this batch consists of, the rest waits for the next batch (see _clear_batch)
+        num_items = sum(batch_size for batch_size in batch_spec if batch_size != None)
+        self.case_ids = dict(list(all_case_ids[curr_task_id].items())[:num_items])
         self.task_batch_info = task_batch_info[curr_task_id]
         self.batch_spec = batch_spec
         self.start_time_from_rule = start_time_from_rule
-- 
2.43.0


From a3c1483b2753feb5c253e7449e9cda98117f9f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:16 +0000
Subject: [PATCH 10/54] fix: firing rules see the items of a batch in the order
 they were enabled

---
 prosimos/control_flow_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index ba46bd2..f6aac54 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -984,6 +984,11 @@ class BPMNGraph:
             return
 
         self.batch_waiting_processes[task_id][case_id] = enabled_time
+        # tasks are not completed in the order they are executed, while the firing rules
+        # are evaluated on the items in the order they were enabled
+        self.batch_waiting_processes[task_id] = dict(
+            sorted(self.batch_waiting_processes[task_id].items(), key=lambda item: item[1].datetime)
+        )
 
         if task_id in self.batch_count:
             self.batch_count[task_id] += 1
-- 
2.43.0


From 640e3fe5cd962e7e90928867d6f3bfc851c8debe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 11/54] fix: a single item with a large_wt rule is executed
 when no other item arrives

---
 prosimos/batch_processing.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index cb5c186..ecba693 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -569,14 +569,20 @@ class AndFiringRule():
             return None
         else:
             _, en_time = wt_res
-            if en_time == None and rule_type == RULE_TYPE.READY_WT:
-                # the waiting time has not been reached yet and no new item will reset it,
+            if en_time == None:
+                # the waiting time has not been reached yet and no new item will arrive,
                 # so the batch will be enabled in the future
-                low_boundary, high_boundary = self.ready_wt_boundaries
-                last_item = draft_element["enabled_datetimes"][-1]
-                en_time = _get_enabled_time_for_wt_rule(last_item, operator.ge, low_boundary) \
-                    if draft_element["size"] > 1 \
-                    else _get_enabled_time_for_wt_rule(last_item, operator.gt, high_boundary)
+                enabled_datetimes = draft_element["enabled_datetimes"]
+                if rule_type == RULE_TYPE.LARGE_WT:
+                    low_boundary, high_boundary = self.large_wt_boundaries
+                    compared_item = enabled_datetimes[0]
+                else:
+                    low_boundary, high_boundary = self.ready_wt_boundaries
+                    compared_item = enabled_datetimes[-1]
+
+                en_time = _get_enabled_time_for_wt_rule(compared_item, operator.ge, low_boundary) \
+                    if len(enabled_datetimes) > 1 \
+                    else _get_enabled_time_for_wt_rule(compared_item, operator.gt, high_boundary)
             return en_time
 
     def is_size_one(self):
-- 
2.43.0


From 84f61669bcb7d9608c53d4f6f35e196af3e6497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 12/54] fix: the items of a parallel batch share one duration

Every item sampled its own one, and the resource became available when the last
item in the list was completed while others were still in execution.
---
 prosimos/execution_info.py    | 6 ++++--
 prosimos/simulation_engine.py | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/prosimos/execution_info.py b/prosimos/execution_info.py
index 498a5fd..f7f6d07 100644
--- a/prosimos/execution_info.py
+++ b/prosimos/execution_info.py
@@ -25,7 +25,8 @@ class ProcessInfo:
 
 class TaskEvent:
     def __init__(self, p_case, task_id, resource_id, resource_available_at=None, 
-        enabled_at=None, enabled_datetime=None, bpm_env=None, num_tasks_in_batch=0, batch_id=None):
+        enabled_at=None, enabled_datetime=None, bpm_env=None, num_tasks_in_batch=0, batch_id=None,
+        ideal_duration=None):
         self.p_case = p_case  # ID of the current trace, i.e., index of the trace in log_info list
         self.task_id = task_id  # Name of the task related to the current event
         self.type = BPMN.TASK # showing whether it's task or event
@@ -49,7 +50,8 @@ class TaskEvent:
             self.started_datetime = bpm_env.simulation_datetime_from(self.started_at)
 
             # Ideal duration from the distribution-function if allocate resource doesn't rest
-            self.ideal_duration = bpm_env.sim_setup.ideal_task_duration(task_id, resource_id, num_tasks_in_batch)
+            self.ideal_duration = ideal_duration if ideal_duration is not None \
+                else bpm_env.sim_setup.ideal_task_duration(task_id, resource_id, num_tasks_in_batch)
             # Actual duration adding the resource resting-time according to their calendar
             self.real_duration = bpm_env.sim_setup.real_task_duration(self.ideal_duration, self.resource_id,
                                                                       self.started_datetime, self.worked_intervals)
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 136a616..18a2e89 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -537,6 +537,9 @@ class SimBPMEnv:
             if not is_working:
                 r_avail_at = r_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
 
+            # the items are executed simultaneously, so they share one duration
+            batch_duration = self.sim_setup.ideal_task_duration(task_id, r_id, num_tasks_in_batch)
+
             for case_id, enabled_time in batch_item:
                 p_case = case_id
                 enabled_at = enabled_time.seconds_from_start
@@ -551,7 +554,8 @@ class SimBPMEnv:
                     enabled_datetime,
                     self,
                     num_tasks_in_batch,
-                    c_event.batch_info_exec.batch_id
+                    c_event.batch_info_exec.batch_id,
+                    batch_duration,
                 )
 
                 (
-- 
2.43.0


From 76f1051771a1506f0c81f217717e91530140d4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 13/54] fix: the end-of-simulation check of a ready_wt rule
 uses the boundaries of its AND rule

FiringSubRule has no ready_wt_boundaries, so the check raised an AttributeError.
---
 prosimos/batch_processing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index ecba693..ae8be98 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -329,7 +329,7 @@ class FiringSubRule():
             return 0, None
 
 
-    def is_invalid_end(self, curr_batch_size, last_wt):
+    def is_invalid_end(self, curr_batch_size, last_wt, ready_wt_boundaries=None):
         is_invalid = False
 
         if RULE_TYPE(self.variable1) == RULE_TYPE.SIZE:
@@ -343,7 +343,7 @@ class FiringSubRule():
             # if we surpass the upper limit of waiting_time,
             # this will not be changed in the future cause we will not receive a new item
             # and thus ready_wt value will not be reset
-            _, high_boundary = self.ready_wt_boundaries
+            _, high_boundary = ready_wt_boundaries
             is_invalid = last_wt > high_boundary
 
         return is_invalid
@@ -858,7 +858,7 @@ class AndFiringRule():
             return is_invalid
 
         for simple_rule in self.rules:
-            is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt)
+            is_invalid = simple_rule.is_invalid_end(curr_batch_size, last_wt, self.ready_wt_boundaries)
 
             if is_invalid:
                 break
-- 
2.43.0


From 4cc92c6e2672c7ec9a5b9e4e1fb0165485dd9e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:02 +0000
Subject: [PATCH 14/54] fix: waiting times of batch items are not truncated to
 one day

---
 prosimos/batch_processing.py     | 11 +++++++----
 prosimos/control_flow_manager.py |  8 +++++---
 prosimos/simulation_engine.py    |  2 +-
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index ae8be98..fc4beb5 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -123,7 +123,7 @@ class FiringSubRule():
             curr_enabled_datetime = element["curr_enabled_at"]
             op = _get_operator_symbols_ge(self.operator)
 
-            ready_wt_sec = (curr_enabled_datetime - last_enabled_datetime).seconds
+            ready_wt_sec = (curr_enabled_datetime - last_enabled_datetime).total_seconds()
             is_rule_true = op(ready_wt_sec, self.value2)
            
             if is_rule_true == False:
@@ -466,7 +466,7 @@ class AndFiringRule():
                 # happens when no new cases will arrive 
                 return en_time_index, _get_enabled_time_for_wt_rule(prev_item, operator.gt, high_boundary)
 
-            diff = (item - prev_item).seconds
+            diff = (item - prev_item).total_seconds()
             is_batch_enabled_low = diff < low_boundary
 
             if is_batch_enabled_low:
@@ -508,14 +508,17 @@ class AndFiringRule():
         prev_item = first_item
         list_len = len(enabled_dt_with_curr_enabled)
         for en_time_index, item in enumerate(enabled_dt_with_curr_enabled[1:], 1):
-            diff = (item - first_item).seconds
+            diff = (item - first_item).total_seconds()
             is_batch_enabled_low = diff > low_boundary
             
             if not is_batch_enabled_low:
                 if en_time_index == list_len - 1:
                     # last item of the evaluation
                     # this will enable the batch in the future
-                    result = en_time_index, _get_enabled_time_for_wt_rule(first_item, operator.ge, low_boundary)
+                    # (one item waits for the second one till the high boundary is reached)
+                    result = (en_time_index, _get_enabled_time_for_wt_rule(first_item, operator.ge, low_boundary)) \
+                        if en_time_index > 1 \
+                        else (en_time_index, _get_enabled_time_for_wt_rule(first_item, operator.gt, high_boundary))
                     break
 
                 prev_item = item
diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index f6aac54..2801e1d 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -474,9 +474,11 @@ class BPMNGraph:
         task_batch_info = self.batch_info.get(task_id, None)
         firing_rules: List[AndFiringRule] = task_batch_info.firing_rules
         enabled_times = list(self.batch_waiting_processes[task_id].items())
+        # items are enabled when the previous task is completed,
+        # which might be after the last executed task was enabled
         batch_enabled_time = firing_rules.get_enabled_time(
             enabled_times,
-            last_task_enabled_time,
+            max(last_task_enabled_time, enabled_times[-1][1], key=lambda item: item.datetime),
         )
 
         if batch_enabled_time != None:
@@ -1070,9 +1072,9 @@ class BPMNGraph:
         all_keys = list(waiting_tasks.keys())
 
         first_key = all_keys[0]
-        first_wt = (current_point_of_time.datetime - waiting_tasks[first_key].datetime).seconds
+        first_wt = (current_point_of_time.datetime - waiting_tasks[first_key].datetime).total_seconds()
 
         last_key = all_keys[-1]
-        last_wt = (current_point_of_time.datetime - waiting_tasks[last_key].datetime).seconds
+        last_wt = (current_point_of_time.datetime - waiting_tasks[last_key].datetime).total_seconds()
 
         return self.batch_info[task_id].firing_rules.is_invalid_end(num_tasks_wait_batch, first_wt, last_wt)
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 18a2e89..d50e30f 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -612,7 +612,7 @@ class SimBPMEnv:
 
     def simulation_at_from_datetime(self, datetime):
         td = datetime - self.sim_setup.start_datetime
-        return td.seconds
+        return td.total_seconds()
 
     def get_utilization_for(self, resource_id):
         if self.sim_resources[resource_id].available_time == 0:
-- 
2.43.0


From 01c9318d1bd1aece1d865e6811aee33eb6bd8942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:07 +0000
Subject: [PATCH 15/54] fix: items enabled on the day of a week_day rule are
 not planned before they are enabled

---
 prosimos/batch_processing.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index fc4beb5..74dab6e 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -142,7 +142,7 @@ class FiringSubRule():
     def _get_min_enabled_time_week_day(self, last_task_start_time: CustomDatetimeAndSeconds) -> tuple([int, datetime]):
         if self._is_current_date_enabled(last_task_start_time.datetime):
             # if current day satisfies the rule - return it
-            nearest_abs_day = last_task_start_time.datetime
+            return last_task_start_time.datetime
         else:
             # find the nearest day of the week (specified in the rule) in the future
             nearest_abs_day = get_nearest_abs_day(self.value2.upper(), last_task_start_time.datetime)
@@ -820,6 +820,9 @@ class AndFiringRule():
                         en_time.time(),
                         en_time.tzinfo
                     )
+                    if en_time < last_task_enabled_time.datetime:
+                        # the hour has already passed on that day, wait for the next week
+                        en_time = en_time + timedelta(days=7)
                 expected_enabled_time.append(en_time)
             elif subrule.variable1 == "large_wt":
                 # was calculated previously
-- 
2.43.0


From ddc33c843413b011c35735d02b24c3b7703439f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:57 +0000
Subject: [PATCH 16/54] fix: items whose firing rule can no longer be satisfied
 are executed at the end of the simulation

---
 prosimos/control_flow_manager.py | 32 +++++++++++++++++++-------------
 prosimos/simulation_engine.py    | 30 ++++++++++++++++++++----------
 prosimos/simulation_setup.py     |  3 +++
 3 files changed, 42 insertions(+), 23 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 2801e1d..9914c8a 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -1041,22 +1041,28 @@ class BPMNGraph:
                 # if the rule become invlaid, we execute everything we have
                 # invalid = the one that cannot be satisfied in the future anymore
                 # this method is being called only in case it is the end of all simulated cases
-                waiting_tasks_len = len(waiting_tasks)
-                batch_spec = [waiting_tasks_len]
-
-                # in case last executed task was the one that triggers batch exec
-                # we need to take the enabled_time of the last task in this batch
-                # as start_time for the whole batch
-                last_added_key = list(waiting_tasks.keys())[-1]
-                last_task_in_batch_start = waiting_tasks[last_added_key].datetime
-                start_time_from_rule = max(current_point_of_time.datetime, last_task_in_batch_start)
-                enabled_task_batch[task_id] = self.create_batch_info_and_clear_from_queue(
-                    task_id, batch_spec, start_time_from_rule
-                )
-                continue
+                enabled_task_batch[task_id] = self._get_batch_of_all_waiting(task_id, waiting_tasks, current_point_of_time)
 
         return enabled_task_batch
 
+    def get_waiting_batches(self, current_point_of_time):
+        """ All items that are waiting, one batch per task. Being used only in case it is the end of all simulated cases """
+        return {
+            task_id: self._get_batch_of_all_waiting(task_id, waiting_tasks, current_point_of_time)
+            for (task_id, waiting_tasks) in self.batch_waiting_processes.items() if len(waiting_tasks) > 0
+        }
+
+    def _get_batch_of_all_waiting(self, task_id, waiting_tasks, current_point_of_time):
+        batch_spec = [len(waiting_tasks)]
+
+        # in case last executed task was the one that triggers batch exec
+        # we need to take the enabled_time of the last task in this batch
+        # as start_time for the whole batch
+        last_added_key = list(waiting_tasks.keys())[-1]
+        last_task_in_batch_start = waiting_tasks[last_added_key].datetime
+        start_time_from_rule = max(current_point_of_time.datetime, last_task_in_batch_start)
+        return self.create_batch_info_and_clear_from_queue(task_id, batch_spec, start_time_from_rule)
+
     def create_batch_info_and_clear_from_queue(self, task_id: str, batch_spec, start_time_from_rule):
         batch_info = BatchInfoForExecution(
             self.batch_waiting_processes,
diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index d50e30f..de2f02d 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -420,16 +420,26 @@ class SimBPMEnv:
                             enabled_batch_task_ids[key] = item
 
             if enabled_batch_task_ids is not None:
-                for batch_task_id, batch_info in enabled_batch_task_ids.items():
-                    c_event = EnabledEvent(
-                        case_id,
-                        self.all_process_states[case_id],
-                        batch_task_id,
-                        self.simulation_at_from_datetime(batch_info.start_time_from_rule),
-                        batch_info.start_time_from_rule,
-                        batch_info,
-                    )
-                    self.calc_priority_and_append_to_queue(c_event, False)
+                self._append_batches_to_queue(case_id, enabled_batch_task_ids)
+
+        if self.events_queue.peek() is None:
+            # none of the rules is satisfied at the time it was expected to be and no new item will arrive,
+            # so we execute everything we have
+            for batch_task_id, batch_info in self.sim_setup.get_waiting_batches(last_task_enabled_time).items():
+                case_id = next(iter(batch_info.case_ids))
+                self._append_batches_to_queue(case_id, {batch_task_id: batch_info})
+
+    def _append_batches_to_queue(self, case_id, enabled_batch_task_ids):
+        for batch_task_id, batch_info in enabled_batch_task_ids.items():
+            c_event = EnabledEvent(
+                case_id,
+                self.all_process_states[case_id],
+                batch_task_id,
+                self.simulation_at_from_datetime(batch_info.start_time_from_rule),
+                batch_info.start_time_from_rule,
+                batch_info,
+            )
+            self.calc_priority_and_append_to_queue(c_event, False)
 
     def _get_chunk(self, batch_spec, curr_index, all_case_ids):
         """Return only the part of the all_case_ids that will be executed as a batch"""
diff --git a/prosimos/simulation_setup.py b/prosimos/simulation_setup.py
index 824be34..e2ec56f 100644
--- a/prosimos/simulation_setup.py
+++ b/prosimos/simulation_setup.py
@@ -100,6 +100,9 @@ class SimDiffSetup:
     def get_invalid_batches_if_any(self, current_point_of_time):
         return self.bpmn_graph.get_invalid_batches_if_any(current_point_of_time)
 
+    def get_waiting_batches(self, current_point_of_time):
+        return self.bpmn_graph.get_waiting_batches(current_point_of_time)
+
     def is_any_unexecuted_batch(self, last_task_enabled_time):
         return self.bpmn_graph.is_any_unexecuted_batch(last_task_enabled_time)
 
-- 
2.43.0


From 88b0b523f02f7b58520f87db2165e8e1dd042d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:25 +0000
Subject: [PATCH 17/54] fix: a simulation that executes at most one event
 before its batches does not fail or lose cases

---
 prosimos/simulation_engine.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index de2f02d..d956e28 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -660,7 +660,14 @@ def execute_full_process(bpm_env: SimBPMEnv, fixed_starting_times=None):
 
     # print("Generation of all cases: %s" %
     #       str(datetime.timedelta(seconds=(datetime.datetime.now() - s_t).total_seconds())))
+    # (all cases might be waiting for the batch execution already)
+    last_event_datetime = CustomDatetimeAndSeconds(0, bpm_env.sim_setup.start_datetime)
+    if bpm_env.events_queue.peek() is None:
+        bpm_env.execute_if_any_unexecuted_batch(last_event_datetime)
+
     current_event = bpm_env.events_queue.pop_next_event()
+    if current_event is not None:
+        last_event_datetime = CustomDatetimeAndSeconds(current_event.enabled_at, current_event.enabled_datetime)
     executed_cases = set()
 
     while current_event is not None:
-- 
2.43.0


From 4f4fe249d2df13c3084ea5671d0e001786675115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:55 +0000
Subject: [PATCH 18/54] fix: a batch whose rule was satisfied in the past
 starts at that time

---
 prosimos/batch_processing.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 74dab6e..534c2f9 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -616,6 +616,8 @@ class AndFiringRule():
                 and the item in array refers to num of tasks to be executed in this i-batch)
         """
         is_true_result = True
+        # start time of the batch that should have been executed previously, if any
+        past_start_time = None
 
         for rule in self.rules:
             is_true_result = is_true_result and rule.is_true(element)
@@ -631,12 +633,13 @@ class AndFiringRule():
                 "is_triggered_by_batch": False,
                 "is_only_one_batch_return": False
             }
-            batch_size_res, _ = self.get_firing_batch_size(draft_element["size"], draft_element)
+            batch_size_res, past_start_time = self.get_firing_batch_size(draft_element["size"], draft_element)
             is_true_result = self.is_batch_size_enough_for_exec(batch_size_res)
 
         if is_true_result:
             num_tasks_in_queue = element["size"]
-            num_tasks_in_batch, start_time_from_rule = self.get_firing_batch_size(num_tasks_in_queue, element)
+            num_tasks_in_batch, start_time_from_rule = self.get_firing_batch_size(num_tasks_in_queue, element) \
+                if past_start_time is None else (batch_size_res, past_start_time)
 
             if not self.is_batch_size_enough_for_exec(num_tasks_in_batch):
                 print("WARNING: Getting batch size for the execution returned to be 0. Verify provided rules.")
-- 
2.43.0


From 25e099954e2ada684f31f9adb34add303c4e297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:07 +0000
Subject: [PATCH 19/54] fix: a sequential batch starts when its rule fired,
 also when that is noticed later

---
 prosimos/simulation_engine.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index d956e28..c755d4f 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -484,12 +484,10 @@ class SimBPMEnv:
                 task_id = c_event.task_id
                 enabled_at = enabled_time.seconds_from_start
                 enabled_datetime = enabled_time.datetime
-                enabled_batch = c_event.enabled_at
 
                 r_avail_at = max(
                     enabled_at,
                     r_avail_at,
-                    enabled_batch,
                     completed_at,
                     start_time_from_rule_seconds,
                 )
-- 
2.43.0


From 8c5ef0a9322047b56282c6e6b9830904162b5d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:46 +0000
Subject: [PATCH 20/54] fix: a duration coefficient applies starting from the
 batch size it is defined for

---
 prosimos/batch_processing.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 534c2f9..e9cb7af 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -1063,15 +1063,13 @@ class BatchConfigPerTask():
         curr_coef = self.duration_distribution.get(num_tasks_in_batch, None)
 
         if curr_coef is None:
-            # find the nearest and lowest key in case of not matching
-            min_distance = sys.maxsize
+            # find the nearest lower key in case of not matching:
+            # a coefficient is used starting from the batch size it is defined for
+            min_key = self.sorted_duration_distribution[0]
             for item in self.sorted_duration_distribution:
-                curr_distance = abs(num_tasks_in_batch - item)
-                if curr_distance < min_distance:
-                    min_distance = curr_distance
-                    min_key = item
-                else:
+                if item > num_tasks_in_batch:
                     break
+                min_key = item
             
             # assign the nearest coeff as the current one
             curr_coef = self.duration_distribution[min_key]
-- 
2.43.0


From c125943798e6212d603bc6be85422bb0d802d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:44 +0000
Subject: [PATCH 21/54] fix: the time covered by a list of intervals counts
 nested intervals once

---
 prosimos/simulation_stats_calculator.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index d170562..cab7b1f 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -342,14 +342,15 @@ def sum_interval_union(interval_list):
         return 0
     interval_list = sorted(interval_list, key=lambda interval: interval.start)
     t_duration = interval_list[0].duration
-    for i in range(1, len(interval_list)):
-        i_interval = interval_list[i - 1].intersection(interval_list[i])
-        for j in range(i - 2, -1, -1):
-            intersection = interval_list[j].intersection(i_interval)
-            if intersection is None:
-                break
-            i_interval = intersection
-        t_duration += interval_list[i].duration - i_interval.duration if i_interval else interval_list[i].duration
+    last_end = interval_list[0].end
+    for interval in interval_list[1:]:
+        if interval.end <= last_end:
+            continue  # fully covered by the previous intervals
+        if interval.start >= last_end:
+            t_duration += interval.duration
+        else:
+            t_duration += (interval.end - last_end).total_seconds()
+        last_end = interval.end
     return round(t_duration, 6)
 
 
-- 
2.43.0


From 91f2a825526c1fae3f57db29ceeef11a781199aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:26 +0000
Subject: [PATCH 22/54] fix: idle time of an activity that continues after the
 first working interval of the day

---
 prosimos/simulation_stats_calculator.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index cab7b1f..cccf5bb 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -91,8 +91,8 @@ class LogInfo:
                     for interval in event_info.worked_intervals:
                         real_work_intervals.append(interval)
                 else:
-                    r_calendar.remove_idle_times(event_info.started_datetime, event_info.completed_datetime,
-                                                 real_work_intervals)
+                    real_work_intervals += find_working_intervals(r_calendar, event_info.started_datetime,
+                                                                  event_info.completed_datetime)
             processing_intervals.append(Interval(event_info.started_datetime, event_info.completed_datetime))
             waiting_intervals.append(Interval(event_info.enabled_datetime, event_info.started_datetime))
 
@@ -337,6 +337,20 @@ def print_event_state(state, e_step, bpm_env, resource_id, to_print):
                                                     to_print, bpm_env.simpy_env.now))
 
 
+def find_working_intervals(r_calendar, from_date, to_date):
+    """Parts of the period [from_date, to_date] which are working time according to the (weekly) calendar"""
+    working_intervals = list()
+    c_day = from_date.replace(hour=0, minute=0, second=0, microsecond=0)
+    while c_day <= to_date:
+        for interval in r_calendar.work_intervals[c_day.weekday()]:
+            start = max(from_date, c_day + (interval.start - r_calendar.new_day))
+            end = min(to_date, c_day + (interval.end - r_calendar.new_day))
+            if start < end:
+                working_intervals.append(Interval(start, end))
+        c_day += datetime.timedelta(days=1)
+    return working_intervals
+
+
 def sum_interval_union(interval_list):
     if interval_list is None or len(interval_list) == 0:
         return 0
-- 
2.43.0


From 639168f1f0a47017c76b455f8956ece58ac93bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:42 +0000
Subject: [PATCH 23/54] fix: probabilities of a global attribute may sum to 1
 up to rounding

---
 prosimos/global_attributes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prosimos/global_attributes.py b/prosimos/global_attributes.py
index 13e1dbc..722dc22 100644
--- a/prosimos/global_attributes.py
+++ b/prosimos/global_attributes.py
@@ -52,10 +52,12 @@ class GlobalAttribute:
             return self.value.generate_sample(1)[0]
 
     def validate(self):
+        epsilon = 1e-6
+
         if self.global_attr_type == GLOBAL_ATTR_TYPE.DISCRETE:
             actual_sum_probabilities = reduce(lambda acc, item: acc + item, self.value["probabilities"], 0)
 
-            if actual_sum_probabilities != 1:
+            if not (1 - epsilon <= actual_sum_probabilities <= 1 + epsilon):
                 raise InvalidGlobalAttributeException(
                     f"Global attribute ${self.name}: probabilities' sum should be equal to 1")
 
-- 
2.43.0


From ae87eb8326c0b4d111b0fafa915bfc8aa4aa9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:42 +0000
Subject: [PATCH 24/54] fix: chained comparisons in expressions evaluate all
 their parts

---
 prosimos/event_attributes.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prosimos/event_attributes.py b/prosimos/event_attributes.py
index 4a3dc2e..a421557 100644
--- a/prosimos/event_attributes.py
+++ b/prosimos/event_attributes.py
@@ -114,7 +114,14 @@ def eval_expr(expr, vars_dict):
             elif isinstance(node, ast.Str):
                 return node.s
             elif isinstance(node, ast.Compare):
-                return operators[type(node.ops[0])](_eval(node.left), _eval(node.comparators[0]))
+                left = _eval(node.left)
+                for operator, comparator in zip(node.ops, node.comparators):
+                    right = _eval(comparator)
+                    result = operators[type(operator)](left, right)
+                    if not result:
+                        break
+                    left = right
+                return result
             elif isinstance(node, ast.BoolOp):
                 if type(node.op) is ast.And:
                     return all(_eval(value) for value in node.values)
-- 
2.43.0


From cbdcb44909648227525ec7931a7bbd286582ef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:42 +0000
Subject: [PATCH 25/54] fix: event attributes are also updated by activities
 executed in a batch

---
 prosimos/simulation_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index c755d4f..f489d18 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -587,6 +587,7 @@ class SimBPMEnv:
 
         self.resource_queue.update_resource_availability(r_id, r_next_available)
 
+        self.update_attributes(full_evt)
         self.log_writer.add_csv_row(self.get_csv_row_data(full_evt))
 
         completed_at = full_evt.completed_at
-- 
2.43.0


From 93d559a2dcb5162269dc3f5df42be1d9d53d9498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:52 +0000
Subject: [PATCH 26/54] fix: inclusive join fires once, when no awaited token
 can arrive anymore

---
 prosimos/control_flow_manager.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 9914c8a..8d2a99d 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -335,6 +335,10 @@ class BPMNGraph:
         visited_at = {e_id: self._check_and_update_enabling_time(case_id, e_id, completed_datetime_prev_event)}
         while current < len(to_execute):
             e_info: ElementInfo = self.element_info[to_execute[current]]
+            if self._is_or_join(e_info) and not self.is_enabled(e_info.id, p_state):
+                # enqueued before all the tokens it has to wait for were in place (or already executed with them)
+                current += 1
+                continue
             last_enabled = visited_at[e_info.id]
             if e_info.type == BPMN.END_EVENT and e_info.event_type == EVENT_TYPE.TERMINATE:
                 """ Terminate End Event detected"""
@@ -364,10 +368,27 @@ class BPMNGraph:
             for f_arc in f_arcs:
                 self._find_next(f_arc, case_id, p_state, enabled_tasks, to_execute, last_enabled, visited_at)
             current += 1
+            if current == len(to_execute):
+                self._find_released_or_join(case_id, p_state, to_execute, completed_datetime_prev_event, visited_at)
         if len(enabled_tasks) > 1:
             random.shuffle(enabled_tasks)
         return enabled_tasks, visited_at
 
+    @staticmethod
+    def _is_or_join(e_info):
+        return e_info.type is BPMN.INCLUSIVE_GATEWAY and e_info.is_join() and not e_info.is_split()
+
+    def _find_released_or_join(self, case_id, p_state, to_execute, enabled_time: CustomDatetimeAndSeconds, visited_at):
+        """
+        An inclusive join with waiting tokens is also enabled by the removal of the last token that could still arrive
+        (i.e., that token followed a path which does not reach the join anymore)
+        """
+        for e_id in self.or_join_pred:
+            if self._is_or_join(self.element_info[e_id]) and self.is_enabled(e_id, p_state):
+                visited_at[e_id] = self._check_and_update_enabling_time(case_id, e_id, enabled_time)
+                to_execute.append(e_id)
+                return
+
     def get_all_attributes(self, case_id):
         if self.all_attributes is None:
             return {}
-- 
2.43.0


From f443958096bed361142caf3184b2a3977deb8fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 27/54] fix: each intermediate event is recorded in an object
 of its own

---
 prosimos/execution_info.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/prosimos/execution_info.py b/prosimos/execution_info.py
index f7f6d07..3ab2b0c 100644
--- a/prosimos/execution_info.py
+++ b/prosimos/execution_info.py
@@ -79,24 +79,26 @@ class TaskEvent:
 
     @classmethod
     def create_event_entity(cls, c_event: EnabledEvent, ended_at, ended_datetime):
-        cls.p_case = c_event.p_case  # ID of the current trace, i.e., index of the trace in log_info list
-        cls.task_id = c_event.task_id  # Name of the task related to the current event
-        cls.type = BPMN.INTERMEDIATE_EVENT
-        cls.enabled_at = c_event.enabled_at
-        cls.enabled_datetime = c_event.enabled_datetime
-        cls.started_at = c_event.enabled_at
-        cls.started_datetime = c_event.enabled_datetime
-        cls.completed_at = ended_at
-        cls.completed_datetime = ended_datetime
-        cls.idle_time = 0.0
-        cls.waiting_time = 0.0
-        cls.idle_cycle_time = 0.0
-        cls.idle_processing_time = 0.0
-        cls.cycle_time = 0.0
-        cls.processing_time = 0.0
-        cls.batch_id = c_event.batch_info_exec.batch_id if c_event.batch_info_exec is not None else None
-
-        return cls
+        event = cls.__new__(cls)
+        event.p_case = c_event.p_case  # ID of the current trace, i.e., index of the trace in log_info list
+        event.task_id = c_event.task_id  # Name of the task related to the current event
+        event.type = BPMN.INTERMEDIATE_EVENT
+        event.enabled_at = c_event.enabled_at
+        event.enabled_datetime = c_event.enabled_datetime
+        event.started_at = c_event.enabled_at
+        event.started_datetime = c_event.enabled_datetime
+        event.completed_at = ended_at
+        event.completed_datetime = ended_datetime
+        event.worked_intervals = []
+        event.idle_time = 0.0
+        event.waiting_time = 0.0
+        event.idle_cycle_time = 0.0
+        event.idle_processing_time = 0.0
+        event.cycle_time = 0.0
+        event.processing_time = 0.0
+        event.batch_id = c_event.batch_info_exec.batch_id if c_event.batch_info_exec is not None else None
+
+        return event
 
     def update_enabling_times(self, enabled_at):
         # what's the use case ?
-- 
2.43.0


From 9e0693f8967b758c27f75196e4c81ebba3e14704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 28/54] fix: the event chosen by an event-based gateway takes
 the duration it was chosen for

---
 prosimos/simulation_engine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index f489d18..a94c2ff 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -597,9 +597,10 @@ class SimBPMEnv:
 
     def execute_event(self, c_event):
         # Handle event types separately (they don't need assigned resource)
-        event_duration_seconds = None
-        event_element = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
-        [event_duration_seconds] = self.sim_setup.bpmn_graph.event_duration(event_element.id)
+        event_duration_seconds = c_event.duration_sec
+        if event_duration_seconds is None:
+            event_element = self.sim_setup.bpmn_graph.element_info[c_event.task_id]
+            [event_duration_seconds] = self.sim_setup.bpmn_graph.event_duration(event_element.id)
 
         completed_at = c_event.enabled_at + event_duration_seconds
         completed_datetime = c_event.enabled_datetime + timedelta(seconds=event_duration_seconds)
-- 
2.43.0


From 34879153706f489c56bcaa1dd51e0dbb37d89d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:59 +0000
Subject: [PATCH 29/54] fix: completing an activity after its case was
 terminated is not an error

---
 prosimos/control_flow_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index 8d2a99d..fb124fe 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -328,7 +328,7 @@ class BPMNGraph:
                                           which equals to enabled time for current event
         """
         if not self.is_enabled(e_id, p_state):
-            return []
+            return [], {}
         enabled_tasks = list()
         to_execute = [e_id]
         current = 0
-- 
2.43.0


From 8510fe2af5da6900d0812bba8420e77eb167f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:28 +0000
Subject: [PATCH 30/54] fix: alternative paths that meet at an intermediate
 event do not block the case

---
 prosimos/simulation_properties_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index b24fae3..8b3361b 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -458,7 +458,7 @@ def parse_simulation_model(bpmn_path):
         split_gateways = dict()
         for t_id in elements_map:
             e_info = elements_map[t_id]["info"]
-            if e_info.type is BPMN.TASK:
+            if e_info.type in (BPMN.TASK, BPMN.INTERMEDIATE_EVENT):
                 if elements_map[t_id]["in"] > 1:
                     _add_fake_gateway(
                         bpmn_graph,
-- 
2.43.0


From 3a7b74c74a7402ed2f8287f2cd92787172aeb225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:54 +0000
Subject: [PATCH 31/54] fix: log and statistics are also written when the
 arrival times are given

---
 prosimos/simulation_engine.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index a94c2ff..dd36c5c 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -760,9 +760,7 @@ def run_simulation(
 def run_simpy_simulation(diffsim_info, stat_fwriter, log_fwriter, fixed_starting_times=None):
     bpm_env = SimBPMEnv(diffsim_info, stat_fwriter, log_fwriter)
     execute_full_process(bpm_env, fixed_starting_times)
-    if fixed_starting_times is not None:
-        return bpm_env
-    if log_fwriter is None and stat_fwriter is None:
+    if fixed_starting_times is None and log_fwriter is None and stat_fwriter is None:
         return bpm_env.log_info.compute_process_kpi(bpm_env), bpm_env.log_info
     if log_fwriter:
         bpm_env.log_writer.force_write()
@@ -771,7 +769,7 @@ def run_simpy_simulation(diffsim_info, stat_fwriter, log_fwriter, fixed_starting
 
     warning_logger.add_warnings(bpm_env.sim_setup.bpmn_graph.simulation_execution_stats.find_issues())
 
-    return None
+    return bpm_env if fixed_starting_times is not None else None
 
 
 def verify_miliseconds(array):
-- 
2.43.0


From fbc6b62e6a048cb5d15c730e03fcc64a39626e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 32/54] fix: without an arrival calendar, cases arrive in the
 working hours of the first activities

---
 prosimos/simulation_setup.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/prosimos/simulation_setup.py b/prosimos/simulation_setup.py
index e2ec56f..87ca50c 100644
--- a/prosimos/simulation_setup.py
+++ b/prosimos/simulation_setup.py
@@ -107,18 +107,33 @@ class SimDiffSetup:
         return self.bpmn_graph.is_any_unexecuted_batch(last_task_enabled_time)
 
     def find_arrival_calendar(self):
-        # TODO: make sure this 0 as p_case does not break anything
-        enabled_tasks = self.update_process_state(0, self.bpmn_graph.starting_event, self.initial_state(), None)
+        """Union of the calendars of the resources performing the tasks that a case might start with"""
         starter_resources = set()
         arrival_calendar = RCalendar("arrival_calendar")
-        for task_id in enabled_tasks:
-            for r_id in self.task_resource[task_id]:
+        for task_id in self._find_starting_tasks():
+            for r_id in self.task_resource.get(task_id, []):
                 if r_id in starter_resources:
                     continue
                 arrival_calendar.combine_calendar(self.calendars_map[self.resources_map[r_id].calendar_id])
                 starter_resources.add(r_id)
         return arrival_calendar
 
+    def _find_starting_tasks(self):
+        starting_tasks = list()
+        visited = {self.bpmn_graph.starting_event}
+        pending = [self.bpmn_graph.starting_event]
+        while pending:
+            e_info: ElementInfo = self.bpmn_graph.element_info[pending.pop()]
+            if e_info.type is BPMN.TASK:
+                starting_tasks.append(e_info.id)
+                continue
+            for flow_id in e_info.outgoing_flows:
+                next_id = self.bpmn_graph.flow_arcs[flow_id][1]
+                if next_id not in visited:
+                    visited.add(next_id)
+                    pending.append(next_id)
+        return starting_tasks
+
     def ideal_task_duration(self, task_id, resource_id, num_tasks_in_batch):
         # calculate duration based on defined distribution for the resource allocation
         [duration] = self.task_resource[task_id][resource_id].generate_sample(1)
-- 
2.43.0


From 03f1a21dafaccfec066b759930659681c25353c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 33/54] fix: sampling from a histogram whose CDF ends slightly
 below 1 does not fail

---
 prosimos/histogram_distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prosimos/histogram_distribution.py b/prosimos/histogram_distribution.py
index f996e2c..cfb69da 100644
--- a/prosimos/histogram_distribution.py
+++ b/prosimos/histogram_distribution.py
@@ -15,5 +15,6 @@ class HistogramDistribution:
 
   def generate_value(self):
     value = np.random.rand(1)[0]
-    value_bin = np.searchsorted(self.cdf, value)
+    # the last value of the CDF might be slightly less than 1 because of rounding
+    value_bin = min(np.searchsorted(self.cdf, value), len(self.bin_midpoints) - 1)
     return self.bin_midpoints[value_bin]
-- 
2.43.0


From eb4fa514aeb900a5ecf129beac7e8619de4c181f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 34/54] fix: periods of probabilistic calendars may continue
 over the end of the week

---
 prosimos/simulation_properties_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index 8b3361b..9bac68a 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -222,8 +222,9 @@ def convert_to_fuzzy_time_periods(time_period):
 
     time_periods = []
 
-    for day in range(from_day, to_day + 1):
-        week_day = list(int_week_days.keys())[list(int_week_days.values()).index(day)]
+    # the period might continue over the end of the week, e.g., from SUNDAY to MONDAY
+    for day in range(from_day, from_day + (to_day - from_day) % 7 + 1):
+        week_day = list(int_week_days.keys())[list(int_week_days.values()).index(day % 7)]
         time_period = {
             "weekDay": week_day,
             "beginTime": time_period["beginTime"],
-- 
2.43.0


From 4a68af60fe96de7c10aaa134849c13bd94326d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 35/54] fix: replayed activities are enabled by the last of
 their predecessors to complete

---
 prosimos/control_flow_manager.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index fb124fe..d278a96 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -552,10 +552,12 @@ class BPMNGraph:
         p_state = ProcessState(self)
         fired_tasks = list()
         fired_or_splits = set()
+        # the trace is not necessarily sorted by starting times
+        started_at = min(ev_info.started_at for ev_info in self._c_trace) if self._c_trace is not None else None
         for flow_id in self.element_info[self.starting_event].outgoing_flows:
-            p_state.flow_date[flow_id] = self._c_trace[0].started_at if self._c_trace is not None else None
+            p_state.flow_date[flow_id] = started_at
             p_state.add_token(flow_id)
-        self.update_flow_dates(self.element_info[self.starting_event], p_state, self._c_trace[0].started_at)
+        self.update_flow_dates(self.element_info[self.starting_event], p_state, started_at)
         pending_tasks = dict()
         for current_index in range(len(task_sequence)):
             # print(task_sequence[current_index])
@@ -814,7 +816,9 @@ class BPMNGraph:
             e_info = suc_queue.popleft()
             for out_flow in e_info.outgoing_flows:
                 next_info = self._get_successor(out_flow)
-                p_state.flow_date[out_flow] = last_date
+                # a join is enabled by the predecessor completed last, which is not always the last one in the trace
+                if p_state.flow_date.get(out_flow) is None or p_state.flow_date[out_flow] < last_date:
+                    p_state.flow_date[out_flow] = last_date
                 if next_info.is_gateway() and next_info.id not in visited_elements:
                     suc_queue.append(next_info)
                     visited_elements.add(next_info.id)
-- 
2.43.0


From f1da57cbed5925efa6c6b69016f095fbd4957119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 36/54] fix: processing times are normalized by the longest
 processing time

---
 bpdfr_discovery/log_comparison_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_comparison_metrics.py b/bpdfr_discovery/log_comparison_metrics.py
index 0d271a8..6d79d5b 100644
--- a/bpdfr_discovery/log_comparison_metrics.py
+++ b/bpdfr_discovery/log_comparison_metrics.py
@@ -55,7 +55,7 @@ def compute_enabling_processing_times(trace_info, bpmn_graph, max_waiting, max_p
             fix_enablement_from_incorrect_models(i, enabling_times, trace_info.event_list)
         ev_info.update_enabling_times(enabling_times[i])
         max_waiting[ev_info.task_id] = max(max_waiting[ev_info.task_id], ev_info.waiting_time)
-        max_processing[ev_info.task_id] = max(max_processing[ev_info.task_id], ev_info.waiting_time)
+        max_processing[ev_info.task_id] = max(max_processing[ev_info.task_id], ev_info.processing_time)
 
 
 def fix_enablement_from_incorrect_models(from_i: int, task_enablement: list, trace: list):
-- 
2.43.0


From 27f11a293ac4addad992b8c05c1b4e53776e4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 37/54] fix: count the fraction of a second within a fuzzy
 calendar granule

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 1269d0a..2c7fb82 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -28,7 +28,7 @@ class WeeklyFuzzyCalendar:
     def duration_from_interval_start(self, current_date: datetime):
         current_minute = current_date.hour * 60 + current_date.minute
         start_minute = self.interval_index(current_date) * self.granule_size
-        return (current_minute - start_minute) * 60 + current_date.second
+        return (current_minute - start_minute) * 60 + current_date.second + current_date.microsecond / 1000000
 
     def duration_to_interval_end(self, current_date: datetime):
         return self.granule_size * 60 - self.duration_from_interval_start(current_date)
-- 
2.43.0


From 483db15d7fa0b849f165ea362d750d45fa872041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 38/54] fix: wait until the end of an unavailable first granule
 in fuzzy calendars

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 2c7fb82..02cea90 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -120,12 +120,15 @@ class FuzzyModel:
 
         avail_info, size_seconds, week_day, i = self._extract_date_info(current_date)
 
-        real_duration = min(avail_info.duration_to_interval_end(current_date), ideal_duration)
+        real_duration = avail_info.duration_to_interval_end(current_date)
         if self.is_available(week_day, i):
+            real_duration = min(real_duration, ideal_duration)
             to_date = it_date + timedelta(seconds=real_duration)
             worked_intervals.append(Interval(it_date, to_date))
             it_date = to_date
             ideal_duration -= real_duration
+        else:
+            it_date += timedelta(seconds=real_duration)
         i += 1
         while ideal_duration > 0:
             if i >= avail_info.i_count:
-- 
2.43.0


From 498f27559841020a66769ef8d1a542119426472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 39/54] fix: do not count a fuzzy granule twice in the expected
 availability

---
 prosimos/fuzzy_engine/fuzzy_calendar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prosimos/fuzzy_engine/fuzzy_calendar.py b/prosimos/fuzzy_engine/fuzzy_calendar.py
index 02cea90..a61f033 100644
--- a/prosimos/fuzzy_engine/fuzzy_calendar.py
+++ b/prosimos/fuzzy_engine/fuzzy_calendar.py
@@ -159,6 +159,10 @@ class FuzzyModel:
         last_duration = fuzzy_c.duration_from_interval_start(to_date)
         first_duration = fuzzy_c.duration_to_interval_end(from_date)
 
+        if from_date + timedelta(seconds=first_duration) > to_date:
+            # both instants are in the same granule
+            return fuzzy_c.probability_intervals[week_day][i] * (to_date - from_date).total_seconds()
+
         duration = fuzzy_c.probability_intervals[week_day][i] * first_duration
         duration += fuzzy_c.probability_intervals[to_date.weekday()][fuzzy_c.interval_index(to_date)] * last_duration
 
-- 
2.43.0


From be74c40b87add0c20c7bb91fda97bbedf1a900cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 40/54] fix: compute the fuzzy availability of every resource,
 ignoring events

---
 prosimos/simulation_stats_calculator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index cccf5bb..2e7a070 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -268,12 +268,13 @@ def compute_resorce_availability(bpm_env):
 
 def compute_fuzzy_availability(bpm_env):
     trace_list = bpm_env.log_info.trace_list
-    r_working_intervals = dict()
+    r_working_intervals = {r_id: [] for r_id in bpm_env.sim_setup.resources_map}
     # Grouping the timeintervals each resource was working on the allocated tasks
     for trace in trace_list:
         for ev in trace.event_list:
-            if ev.resource_id not in r_working_intervals:
-                r_working_intervals[ev.resource_id] = []
+            if ev.type is not BPMN.TASK:
+                # intermediate events are not performed by any resource
+                continue
             for interval in ev.worked_intervals:
                 r_working_intervals[ev.resource_id].append(interval)
 
-- 
2.43.0


From 6f2ffc52ff63b4f1777d0b730e9c5801a8bb7853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 41/54] fix: count the tasks of multitasking resources
 (KeyError)

---
 prosimos/multitasking/multitasking_struct.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prosimos/multitasking/multitasking_struct.py b/prosimos/multitasking/multitasking_struct.py
index 97e3e03..6034357 100644
--- a/prosimos/multitasking/multitasking_struct.py
+++ b/prosimos/multitasking/multitasking_struct.py
@@ -54,8 +54,9 @@ class MultiTaskDS:
                 self.active_datetimes[r_id] = completed_at
             else:
                 self.active_datetimes[r_id] = max(self.active_datetimes[r_id], completed_at)
-            self.executed_tasks[r_id][t_id] += 1
-            self.total_tasks[t_id] += 1
+            executed_tasks = self.executed_tasks.setdefault(r_id, dict())
+            executed_tasks[t_id] = executed_tasks.get(t_id, 0) + 1
+            self.total_tasks[t_id] = self.total_tasks.get(t_id, 0) + 1
 
     def release_tasks_from(self, r_id: str, completed_at: datetime):
         if r_id in self.allocated_tasks and self.active_datetimes[r_id] is not None:
-- 
2.43.0


From 7ff7772a62847c19467cb4123354de098bb87479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 42/54] fix: use the probability of one more parallel task when
 a multitasking resource takes one more

---
 prosimos/multitasking/multitasking_struct.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prosimos/multitasking/multitasking_struct.py b/prosimos/multitasking/multitasking_struct.py
index 6034357..c19bdd3 100644
--- a/prosimos/multitasking/multitasking_struct.py
+++ b/prosimos/multitasking/multitasking_struct.py
@@ -68,15 +68,15 @@ class MultiTaskDS:
     def can_get_new_tasks(self, r_id: str, at_datetime: datetime):
         if r_id in self.allocated_tasks and self.allocated_tasks[r_id] > 0:
             if self.mt_type is MultiType.GLOBAL:
-                if self.allocated_tasks[r_id] >= len(self.res_multitask_info[r_id]):
+                if self.allocated_tasks[r_id] + 1 >= len(self.res_multitask_info[r_id]):
                     return False
-                return random.random() <= self.res_multitask_info[r_id][self.allocated_tasks[r_id]]
+                return random.random() < self.res_multitask_info[r_id][self.allocated_tasks[r_id] + 1]
             else:
                 wd = at_datetime.weekday()
                 gr = self.interval_index(at_datetime)
-                if self.allocated_tasks[r_id] >= len(self.res_multitask_info[r_id][wd][gr]):
+                if self.allocated_tasks[r_id] + 1 >= len(self.res_multitask_info[r_id][wd][gr]):
                     return False
-                return random.random() <= self.res_multitask_info[r_id][wd][gr][self.allocated_tasks[r_id]]
+                return random.random() < self.res_multitask_info[r_id][wd][gr][self.allocated_tasks[r_id] + 1]
         return True
 
     def register_resource(self, r_id: str):
-- 
2.43.0


From 384d0e3abc523013df6d1dd6f2c0628f714adb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 43/54] fix: no multitasking for resources without multitasking
 parameters

---
 prosimos/multitasking/multitasking_struct.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prosimos/multitasking/multitasking_struct.py b/prosimos/multitasking/multitasking_struct.py
index c19bdd3..58d04f4 100644
--- a/prosimos/multitasking/multitasking_struct.py
+++ b/prosimos/multitasking/multitasking_struct.py
@@ -66,7 +66,10 @@ class MultiTaskDS:
         return completed_at
 
     def can_get_new_tasks(self, r_id: str, at_datetime: datetime):
-        if r_id in self.allocated_tasks and self.allocated_tasks[r_id] > 0:
+        if r_id not in self.allocated_tasks:
+            # no multitasking was configured for the resource
+            return False
+        if self.allocated_tasks[r_id] > 0:
             if self.mt_type is MultiType.GLOBAL:
                 if self.allocated_tasks[r_id] + 1 >= len(self.res_multitask_info[r_id]):
                     return False
-- 
2.43.0


From 39179328e315af307d0b5c15cd72738e6c9c0986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 44/54] fix: a fully occupied multitasking resource is
 available after completing its tasks

---
 prosimos/simulation_engine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index dd36c5c..b1daa0f 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -311,6 +311,8 @@ class SimBPMEnv:
         r_next_avail = r_init_avail
         if not self.sim_setup.multitask_info.can_get_new_tasks(r_id, completed_dt):
             last_time = self.sim_setup.multitask_info.release_tasks_from(r_id, completed_dt)
+            # no more simultaneous tasks: the resource is available once all of them are completed
+            r_next_avail = self.simulation_at_from_datetime(last_time)
             r_next_avail += self.sim_setup.next_resting_time(r_id, last_time)
 
         self.resource_queue.update_resource_availability(r_id, r_next_avail)
-- 
2.43.0


From 013a1c7dfd0ed8a290e798a2c706dd445e00d841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 45/54] fix: multitasking resources start tasks after they are
 enabled, in working time

---
 prosimos/simulation_engine.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index b1daa0f..d37a561 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -296,12 +296,11 @@ class SimBPMEnv:
         #
         # r_id, r_avail_at = best_r, best_avail
         # self.sim_resources[r_id].allocated_tasks += 1
-        if c_event.enabled_at > r_avail_at:
-            next_avail_at = c_event.enabled_at
-            avail_datetime = self._datetime_from(next_avail_at)
-            is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
-            if not is_working:
-                r_avail_at = r_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
+        r_avail_at = max(c_event.enabled_at, r_avail_at)
+        avail_datetime = self._datetime_from(r_avail_at)
+        is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
+        if not is_working:
+            r_avail_at = r_avail_at + self.sim_setup.next_resting_time(r_id, avail_datetime)
 
         return r_id, r_avail_at
 
-- 
2.43.0


From 3778159278ebfa0413b398a200d3a4d8363b33ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 46/54] fix: do not choose an occupied multitasking resource
 while others are available

---
 prosimos/simulation_engine.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index d37a561..5cbea4a 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -262,6 +262,10 @@ class SimBPMEnv:
         while r_avail_at is not None and r_avail_at <= c_event.enabled_at:
             r_id, r_avail_at = self.resource_queue.pop_resource_for(c_event.task_id)
             if r_id is not None:
+                if r_avail_at > c_event.enabled_at:
+                    # still occupied, unlike the candidates found before
+                    self.resource_queue.update_resource_availability(r_id, r_avail_at)
+                    break
                 candidates.append([r_id, r_avail_at])
 
         if len(candidates) > 1:
@@ -270,7 +274,7 @@ class SimBPMEnv:
             for j in range(0, len(candidates)):
                 if j != i:
                     self.resource_queue.update_resource_availability(candidates[j][0], candidates[j][1])
-        elif r_id is None and len(candidates) == 1:
+        else:
             [r_id, r_avail_at] = candidates[0]
 
         # best_r, best_avail = r_id, r_avail_at
-- 
2.43.0


From e17d1844e2ea41ffd6dac60b9f856dd4838ab4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:30 +0000
Subject: [PATCH 47/54] fix: count the tasks allocated to multitasking
 resources

---
 prosimos/simulation_engine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index 5cbea4a..f7e8bc9 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -299,7 +299,7 @@ class SimBPMEnv:
         #         self.resource_queue.update_resource_availability(candidates[j][0], candidates[j][1])
         #
         # r_id, r_avail_at = best_r, best_avail
-        # self.sim_resources[r_id].allocated_tasks += 1
+        self.sim_resources[r_id].allocated_tasks += 1
         r_avail_at = max(c_event.enabled_at, r_avail_at)
         avail_datetime = self._datetime_from(r_avail_at)
         is_working, _ = self.sim_setup.get_resource_calendar(r_id).is_working_datetime(avail_datetime)
-- 
2.43.0


From 4a0edaa0bf4f842edd036389f94a0bb33a161ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 48/54] fix: start each simulation without the warnings of
 earlier ones

---
 prosimos/simulation_engine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prosimos/simulation_engine.py b/prosimos/simulation_engine.py
index f7e8bc9..980e7a1 100644
--- a/prosimos/simulation_engine.py
+++ b/prosimos/simulation_engine.py
@@ -714,6 +714,7 @@ def run_simulation(
     is_event_added_to_log=False,
     fixed_arrival_times=None,
 ):
+    warning_logger.clear_warnings()
     diffsim_info = SimDiffSetup(bpmn_path, json_path, is_event_added_to_log, total_cases)
 
     if not diffsim_info:
-- 
2.43.0


From aa6517374af1280cbeedd2b218aff242aeb9c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:20 +0000
Subject: [PATCH 49/54] fix: report missing gateway conditions only for
 gateways with conditions

---
 prosimos/simulation_properties_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_properties_parser.py b/prosimos/simulation_properties_parser.py
index 9bac68a..2b9dd95 100644
--- a/prosimos/simulation_properties_parser.py
+++ b/prosimos/simulation_properties_parser.py
@@ -358,7 +358,7 @@ def parse_gateway_conditions(gateway_json, branch_rules):
             gateway_conditions[g_id] = GatewayConditionChoice(out_arc, gateway_rules)
 
         if len(missing_conditions) > 0 and \
-                len(missing_conditions) != g_info["probabilities"] and \
+                len(missing_conditions) != len(g_info["probabilities"]) and \
                 1 < len(g_info["probabilities"]) != len(gateway_rules):
             warning_logger.add_warning(f"Gateway {g_id} is using conditions, but some are missing. Flows without conditions: {', '.join(missing_conditions)}")
 
-- 
2.43.0


From 08cd3df0ddd7c02e3958da589a599e5cf4aeb854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:10 +0000
Subject: [PATCH 50/54] fix: write the discovered arrival calendar in the
 format the simulator reads

---
 bpdfr_discovery/log_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bpdfr_discovery/log_parser.py b/bpdfr_discovery/log_parser.py
index 17eaf91..164feac 100644
--- a/bpdfr_discovery/log_parser.py
+++ b/bpdfr_discovery/log_parser.py
@@ -469,7 +469,7 @@ def preprocess_xes_log(
     # # (2) Discovering Arrival Time Calendar
     arrival_calendar = discover_arrival_calendar(initial_events, 60, 0.1, 1.0)
     # arrival_calendar = discover_arrival_calendar(initial_events, minutes_x_granule, min_confidence, min_support)
-    json_arrival_calendar = arrival_calendar.to_dict()
+    json_arrival_calendar = arrival_calendar.intervals_to_json()
 
     # # (3) Discovering Arrival Time Distribution
     arrival_time_dist = discover_arrival_time_distribution(initial_events, arrival_calendar, use_observed_arrival_times)
-- 
2.43.0


From d5c9bc442d705f12c5aeb73f4dfa9e230ac4e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 51/54] fix: fire a week_day and daily_hour batch on the day of
 the rule

---
 prosimos/batch_processing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index e9cb7af..6fc23ac 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -275,7 +275,8 @@ class FiringSubRule():
                         
                     follow_rule.append(en_time)
                     if len(follow_rule) == 2:
-                        final_enabled_time = en_time
+                        # the items that were enabled on a previous day wait for the date given by the week_day rule
+                        final_enabled_time = max(en_time, start_day) if only_one_date else en_time
                         break
                 else:
                     # do not satisfy the condition
@@ -708,6 +709,8 @@ class AndFiringRule():
         batch_size, enabled_time = self.get_firing_batch_size_ready_and_large(element, batch_size, enabled_time)
 
         is_time_forced = False
+        # the date given by the week_day rule is kept for every daily_hour rule
+        is_date_forced = False
 
         for subrule in self.rules:
             curr_size = 0
@@ -757,8 +760,10 @@ class AndFiringRule():
                     batch_size = 0
                     break
                 is_time_forced = True
+                is_date_forced = True
             elif subrule.variable1 == "daily_hour":
                 only_one_date = False
+                is_time_forced = is_time_forced or is_date_forced
                 if is_time_forced:
                     element["curr_enabled_at"] = enabled_time
                     only_one_date = True
-- 
2.43.0


From 63248e645bf0de4e4298c38c5addfc120ceb4bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:31 +0000
Subject: [PATCH 52/54] fix: fire the batch of the next day not before the
 hours of the rule

---
 prosimos/batch_processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/batch_processing.py b/prosimos/batch_processing.py
index 6fc23ac..b9402c1 100644
--- a/prosimos/batch_processing.py
+++ b/prosimos/batch_processing.py
@@ -285,7 +285,7 @@ class FiringSubRule():
                     if op in [operator.lt, operator.le]:
                         final_enabled_time = datetime.combine(
                             prev_day_to_oldest_rule_time.date() + timedelta(days=1),
-                            time(0, 0, 0),
+                            start_time,
                             prev_day_to_oldest_rule_time.tzinfo)
                     elif op in [operator.gt, operator.ge, operator.eq]:
                         final_enabled_time = prev_day_to_oldest_rule_time
-- 
2.43.0


From 6d1c1a57639ea6b50ed0db6a9943c9a68d37f3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:04 +0000
Subject: [PATCH 53/54] fix: when a log is replayed, nested inclusive joins are
 fired from the inside out

---
 prosimos/control_flow_manager.py | 33 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/prosimos/control_flow_manager.py b/prosimos/control_flow_manager.py
index d278a96..15b9560 100644
--- a/prosimos/control_flow_manager.py
+++ b/prosimos/control_flow_manager.py
@@ -825,23 +825,22 @@ class BPMNGraph:
 
     def try_firing_or_join(self, enabled_pred, p_state, or_firing, path_decisions, f_arcs_frequency):
         fired = set()
-        or_firing_list = list()
-        for or_join_id in or_firing:
-            or_firing_list.append(or_join_id)
-        for or_join_id in or_firing_list:
-            if self.is_enabled(or_join_id, p_state) or not enabled_pred:
-                fired.add(or_join_id)
-                e_info = self.element_info[or_join_id]
-                self._update_next(e_info.outgoing_flows[0], enabled_pred, p_state, or_firing, path_decisions,
-                                  f_arcs_frequency)
-                for in_flow in e_info.incoming_flows:
-                    p_state.remove_token(in_flow)
-                if enabled_pred:
-                    break
-                if len(or_firing_list) != len(or_firing):
-                    for e_id in or_firing:
-                        if e_id not in or_firing_list:
-                            or_firing_list.append(e_id)
+        while True:
+            pending = [or_id for or_id in or_firing if or_id not in fired]
+            candidates = [or_id for or_id in pending if self.is_enabled(or_id, p_state) or not enabled_pred]
+            if not candidates:
+                break
+            # an inner join must be fired before the joins it leads to
+            or_join_id = min(candidates, key=lambda or_id: sum(
+                1 for other_id in pending if self.or_join_pred[or_id][0] & self.nodes_bitset[other_id] != 0))
+            fired.add(or_join_id)
+            e_info = self.element_info[or_join_id]
+            self._update_next(e_info.outgoing_flows[0], enabled_pred, p_state, or_firing, path_decisions,
+                              f_arcs_frequency)
+            for in_flow in e_info.incoming_flows:
+                p_state.remove_token(in_flow)
+            if enabled_pred:
+                break
         for or_id in fired:
             del or_firing[or_id]
 
-- 
2.43.0


From 559ad9e9ec7c580b024990abaa2472e4bf770e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:59 +0000
Subject: [PATCH 54/54] fix: count the time after nested work intervals of a
 resource once in its fuzzy availability

---
 prosimos/simulation_stats_calculator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prosimos/simulation_stats_calculator.py b/prosimos/simulation_stats_calculator.py
index 2e7a070..093497a 100644
--- a/prosimos/simulation_stats_calculator.py
+++ b/prosimos/simulation_stats_calculator.py
@@ -300,7 +300,6 @@ def compute_fuzzy_availability(bpm_env):
 
         available_time = f_calendar.estimate_available_time(started_at, r_working_intervals[r_id][0].start)
         available_time += r_working_intervals[r_id][0].duration
-        available_time += f_calendar.estimate_available_time(r_working_intervals[r_id][i_len - 1].end, completed_at)
 
         last_date = r_working_intervals[r_id][0].end
         for i in range(1, i_len):
@@ -317,6 +316,7 @@ def compute_fuzzy_availability(bpm_env):
                 worked_time += c_interval.duration
                 available_time += c_interval.duration
             last_date = c_interval.end
+        available_time += f_calendar.estimate_available_time(last_date, completed_at)
         cumulative_worked_time[r_id] = worked_time
         cumulative_available_time[r_id] = available_time
         bpm_env.sim_resources[r_id].available_time = available_time
-- 
2.43.0

