From c8c4fb0e7e2b793c3c87522beab3418615974b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 01/54] fix: MomentumTimeline searches and books the time slot
 for the user-fixed duration, keeping lags

---
 sampo/scheduler/timeline/momentum_timeline.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index ae64168..da58415 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -1,4 +1,5 @@
 from collections import deque
+from dataclasses import replace
 from typing import Optional, Union
 
 from sortedcontainers import SortedList
@@ -112,9 +113,15 @@ class MomentumTimeline(Timeline):
 
         exec_time: Time = Time(0)
         exec_times: dict[GraphNode, tuple[Time, Time]] = {}  # node: (lag, exec_time)
+        # the time given by specification replaces estimations, but not the lags required by other parents
+        assigned_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time) \
+            if spec.assigned_time is not None else None
         for chain_node in inseparable_chain:
-            node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
-                work_estimator.estimate_time(chain_node.work_unit, worker_team)
+            if assigned_times is not None:
+                node_exec_time: Time = assigned_times[chain_node][1]
+            else:
+                node_exec_time: Time = Time(0) if len(chain_node.work_unit.worker_reqs) == 0 else \
+                    work_estimator.estimate_time(chain_node.work_unit, worker_team)
 
             lag_req = nodes_max_parent_times[chain_node] - max_parent_time - exec_time
             lag = lag_req if lag_req > 0 else 0
@@ -399,11 +406,12 @@ class MomentumTimeline(Timeline):
                  assigned_parent_time: Time = Time(0),
                  work_estimator: WorkTimeEstimator = DefaultWorkEstimator()):
         inseparable_chain = node.get_inseparable_chain_with_self()
+        if assigned_time is not None:
+            # time slot should be searched for the time that will be actually scheduled
+            spec = replace(spec, assigned_time=assigned_time)
         start_time, _, exec_times = \
             self.find_min_start_time_with_additional(node, workers, node2swork, spec, assigned_start_time,
                                                      assigned_parent_time, work_estimator)
-        if assigned_time is not None:
-            exec_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, assigned_time)
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
         self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-- 
2.43.0


From e676ef957d21ecb416b58b23ed6919442952c5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 02/54] fix: MomentumTimeline reserves the worker kinds of a
 resource-independent work exclusively

---
 sampo/scheduler/timeline/momentum_timeline.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index da58415..a49ecdb 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -374,14 +374,17 @@ class MomentumTimeline(Timeline):
             start_idx = state.bisect_right(start)
             end_idx = state.bisect_left((end, -1, EventType.INITIAL))
             available_workers_count = state[start_idx - 1].available_workers_count
+            # resource-independent work doesn't share its types of resources with anyone,
+            # so it occupies all the workers that are free at its start
+            count = max(w.count, available_workers_count) if spec.is_independent else w.count
             # updating all events in between the start and the end of our current task
             for event in state[start_idx: end_idx]:
-                assert event.available_workers_count >= w.count
-                event.available_workers_count -= w.count
+                assert event.available_workers_count >= count
+                event.available_workers_count -= count
 
-            assert available_workers_count >= w.count
+            assert available_workers_count >= count
 
-            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - w.count))
+            state.add(ScheduleEvent(task_index, EventType.START, start, None, available_workers_count - count))
 
             # move the index on time when resources of the work will be freed
             end_idx = state.bisect_right(end) - 1
@@ -391,7 +394,7 @@ class MomentumTimeline(Timeline):
                 end_count = state[end_idx].available_workers_count
             else:
                 # time when resources will be freed is not in timeline
-                end_count = state[end_idx].available_workers_count + w.count
+                end_count = state[end_idx].available_workers_count + count
 
             state.add(ScheduleEvent(task_index, EventType.END, end, None, end_count))
 
-- 
2.43.0


From ff5415b45883b8fcda824383a399692970d8d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 03/54] fix: JustInTimeTimeline checks precedence, materials
 and zones of resource-independent works too

---
 .../timeline/just_in_time_timeline.py         | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 7115b87..d6c95b5 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -142,6 +142,14 @@ class JustInTimeTimeline(Timeline):
                                    node2swork: dict[GraphNode, ScheduledWork],
                                    start_time: Time,
                                    exec_time: Time) -> bool:
+        # checking edges
+        chain = set(node.get_inseparable_chain_with_self())
+        for dep_node in chain:
+            if any(p not in chain and p not in node2swork for p in dep_node.parents):
+                return False
+        if node.min_start_time(node2swork) > start_time:
+            return False
+
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
@@ -149,16 +157,7 @@ class JustInTimeTimeline(Timeline):
                 last_cpkt_time, _ = worker_timeline[0]
                 if last_cpkt_time > start_time:
                     return False
-            return True
         else:
-            # checking edges
-            chain = set(node.get_inseparable_chain_with_self())
-            for dep_node in chain:
-                if any(p not in chain and p not in node2swork for p in dep_node.parents):
-                    return False
-            if node.min_start_time(node2swork) > start_time:
-                return False
-
             max_agent_time = Time(0)
             for worker in worker_team:
                 needed_count = worker.count
@@ -177,13 +176,13 @@ class JustInTimeTimeline(Timeline):
             if not max_agent_time <= start_time:
                 return False
 
-            if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
-                                                                      node.work_unit.need_materials()):
-                return False
-            if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
-                return False
+        if not self._material_timeline.can_schedule_at_the_moment(node, start_time,
+                                                                  node.work_unit.need_materials()):
+            return False
+        if not self.zone_timeline.can_schedule_at_the_moment(node.work_unit.zone_reqs, start_time, exec_time):
+            return False
 
-            return True
+        return True
 
     def update_timeline(self,
                         finish_time: Time,
-- 
2.43.0


From 00abc6d749f9b7717aa657f21e3f8168c484e3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 04/54] fix: MomentumTimeline.can_schedule_at_the_moment reads
 its own timeline for resource-independent works

---
 sampo/scheduler/timeline/momentum_timeline.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index a49ecdb..54b6f39 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -310,9 +310,8 @@ class MomentumTimeline(Timeline):
         if spec.is_independent:
             # squash all the timeline to the last point
             for worker in worker_team:
-                worker_timeline = self._timeline[(worker.contractor_id, worker.name)]
-                last_cpkt_time, _ = worker_timeline[0]
-                if last_cpkt_time >= start_time:
+                last_cpkt_time = self._timeline[worker.contractor_id][worker.name][-1].time
+                if last_cpkt_time > start_time:
                     return False
             return True
         else:
-- 
2.43.0


From 8f2ca75d2cc0240b440e90efeb9382112e165a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:37 +0000
Subject: [PATCH 05/54] fix: JustInTimeTimeline proposes start and finish times
 that account for parents and the user-fixed duration

---
 .../timeline/just_in_time_timeline.py         | 43 ++++++++++---------
 1 file changed, 23 insertions(+), 20 deletions(-)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index d6c95b5..73a3455 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -65,26 +65,29 @@ class JustInTimeTimeline(Timeline):
             return max_zone_time, max_zone_time, None
         # define the max end time of all parent tasks
         max_parent_time = max(node.min_start_time(node2swork), assigned_parent_time)
-        # define the max agents time when all needed workers are off from previous tasks
-        max_agent_time = Time(0)
-        cur_start_time = max_agent_time
+        # the work can't be started before its parents are done
+        cur_start_time = max_parent_time
 
         inseparable_chain = node.get_inseparable_chain_with_self()
-
-        new_finish_time = cur_start_time
-        for dep_node in inseparable_chain:
-            # set start time as finish time of original work
-            # set finish time as finish time + working time of current node with identical resources
-            # (the same as in original work)
-            # set the same workers on it
-            # TODO Decide where this should be
-            dep_parent_time = dep_node.min_start_time(node2swork)
-
-            dep_st = max(new_finish_time, dep_parent_time)
-            working_time = work_estimator.estimate_time(dep_node.work_unit, worker_team)
-            new_finish_time = dep_st + working_time
-
-        exec_time = new_finish_time - cur_start_time
+        assigned_times = get_exec_times_from_assigned_time_for_chain(inseparable_chain, spec.assigned_time) \
+            if spec.assigned_time is not None else None
+
+        def get_exec_time(start_time: Time) -> Time:
+            new_finish_time = start_time
+            for dep_node in inseparable_chain:
+                # set start time as finish time of original work
+                # set finish time as finish time + working time of current node with identical resources
+                # (the same as in original work)
+                # set the same workers on it
+                # TODO Decide where this should be
+                dep_parent_time = dep_node.min_start_time(node2swork)
+
+                dep_st = max(new_finish_time, dep_parent_time)
+                working_time = assigned_times[dep_node][1] if assigned_times is not None else \
+                    work_estimator.estimate_time(dep_node.work_unit, worker_team)
+                new_finish_time = dep_st + working_time
+
+            return new_finish_time - start_time
 
         found_earliest_time = False
         while not found_earliest_time:
@@ -98,7 +101,7 @@ class JustInTimeTimeline(Timeline):
                 continue
 
             zone_time = self.zone_timeline.find_min_start_time(node.work_unit.zone_reqs, cur_start_time,
-                                                               exec_time)
+                                                               get_exec_time(cur_start_time))
             if zone_time > cur_start_time:
                 cur_start_time = zone_time
             else:
@@ -106,7 +109,7 @@ class JustInTimeTimeline(Timeline):
 
         c_st = cur_start_time
 
-        c_ft = c_st + exec_time
+        c_ft = c_st + get_exec_time(c_st)
         return c_st, c_ft, None
 
     def _find_min_start_time(self, worker_team: list[Worker], _max_agent_time: Time, spec: WorkSpec):
-- 
2.43.0


From aef3b106763c3ffaca28f4d6808d7097736bf16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:19 +0000
Subject: [PATCH 06/54] fix: a team bigger than the contractor owns is reported
 as infinite start instead of being counted twice

---
 sampo/scheduler/timeline/just_in_time_timeline.py | 6 ++++++
 sampo/scheduler/timeline/momentum_timeline.py     | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/sampo/scheduler/timeline/just_in_time_timeline.py b/sampo/scheduler/timeline/just_in_time_timeline.py
index 73a3455..de16562 100644
--- a/sampo/scheduler/timeline/just_in_time_timeline.py
+++ b/sampo/scheduler/timeline/just_in_time_timeline.py
@@ -128,6 +128,9 @@ class JustInTimeTimeline(Timeline):
                 # traverse list while not enough resources and grab it
                 ind = len(offer_stack) - 1
                 while needed_count > 0:
+                    if ind < 0:
+                        # the contractor hasn't enough workers at all
+                        return Time.inf()
                     offer_time, offer_count = offer_stack[ind]
                     max_agent_time = max(max_agent_time, offer_time)
 
@@ -168,6 +171,9 @@ class JustInTimeTimeline(Timeline):
                 # traverse list while not enough resources and grab it
                 ind = len(offer_stack) - 1
                 while needed_count > 0:
+                    if ind < 0:
+                        # the contractor hasn't enough workers at all
+                        return False
                     offer_time, offer_count = offer_stack[ind]
                     max_agent_time = max(max_agent_time, offer_time)
 
diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 54b6f39..050c709 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -165,6 +165,10 @@ class MomentumTimeline(Timeline):
 
             st = cur_start_time
 
+        if st.is_inf():
+            # the contractor hasn't enough workers at all
+            return st, st, exec_times
+
         self._validate(st + exec_time, exec_time, worker_team)
         return st, st + exec_time, exec_times
 
-- 
2.43.0


From a453331f021df3066bbd810c221d5282ed366b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 07/54] fix: resource optimizers accept a partial worker
 specification and keep the specified counts

---
 sampo/scheduler/resource/average_req.py        | 2 +-
 sampo/scheduler/resource/coordinate_descent.py | 8 +++++++-
 sampo/scheduler/resource/full_scan.py          | 7 ++++++-
 sampo/utilities/base_opt.py                    | 2 +-
 4 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/resource/average_req.py b/sampo/scheduler/resource/average_req.py
index bd71886..2cb1c94 100644
--- a/sampo/scheduler/resource/average_req.py
+++ b/sampo/scheduler/resource/average_req.py
@@ -37,7 +37,7 @@ class AverageReqResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        if optimize_array:
+        if optimize_array is not None:
             for worker, up, down, optimize in zip(worker_team, up_border, down_border, optimize_array):
                 if optimize:
                     worker.count = max(0, down) + int((up - down) / self.k)
diff --git a/sampo/scheduler/resource/coordinate_descent.py b/sampo/scheduler/resource/coordinate_descent.py
index c884c94..31d1221 100644
--- a/sampo/scheduler/resource/coordinate_descent.py
+++ b/sampo/scheduler/resource/coordinate_descent.py
@@ -35,6 +35,12 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on the worker team
         """
 
+        if optimize_array is not None:
+            # positions that shouldn't be optimized keep their current counts while searching
+            fixed_counts = np.array([worker.count for worker in worker_team])
+            down_border = np.where(optimize_array, down_border, fixed_counts)
+            up_border = np.where(optimize_array, up_border, fixed_counts)
+
         def fitness(worker_count: np.ndarray):
             """
             Function that counts finish time with a current set of resources.
@@ -50,7 +56,7 @@ class CoordinateDescentResourceOptimizer(ResourceOptimizer):
                                                self.one_dimension_optimizer,
                                                fitness,
                                                optimize_array)
-        if optimize_array:
+        if optimize_array is not None:
             for i, worker in enumerate(worker_team):
                 if optimize_array[i]:
                     worker.count = count_worker_team[i]
diff --git a/sampo/scheduler/resource/full_scan.py b/sampo/scheduler/resource/full_scan.py
index 291ea24..2f5dc87 100644
--- a/sampo/scheduler/resource/full_scan.py
+++ b/sampo/scheduler/resource/full_scan.py
@@ -35,7 +35,12 @@ class FullScanResourceOptimizer(ResourceOptimizer):
         :param get_finish_time: optimization function that should give execution time based on worker team
         """
 
-        # TODO Handle optimize_array
+        if optimize_array is not None:
+            # positions that shouldn't be optimized keep their current counts while searching
+            fixed_counts = np.array([worker.count for worker in worker_team])
+            down_border = np.where(optimize_array, down_border, fixed_counts)
+            up_border = np.where(optimize_array, up_border, fixed_counts)
+
         def fitness(worker_count: np.ndarray):
             """
             Function that counts finish time with a current set of resources
diff --git a/sampo/utilities/base_opt.py b/sampo/utilities/base_opt.py
index 484353f..aec86f9 100644
--- a/sampo/utilities/base_opt.py
+++ b/sampo/utilities/base_opt.py
@@ -46,7 +46,7 @@ def coordinate_descent(down: np.ndarray, up: np.ndarray,
                        optimize_array: Optional[np.ndarray]) -> np.ndarray:
     cur = down.copy()
     for i in range(down.size):
-        if optimize_array and not optimize_array[i]:
+        if optimize_array is not None and not optimize_array[i]:
             continue
 
         def part(x) -> Time:
-- 
2.43.0


From 446cd627ad72d564df008769b9f386b1bcfcd6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:05 +0000
Subject: [PATCH 08/54] fix: genetic contractor borders are indexed by worker
 name, not by position in the contractor

---
 sampo/scheduler/genetic/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index abd6406..11904cb 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -50,8 +50,8 @@ def prepare_optimized_data_structures(wg: WorkGraph,
 
     contractor_borders = np.zeros((len(contractor2index), len(worker_name2index)), dtype=int)
     for ind, contractor in enumerate(contractors):
-        for ind_worker, worker in enumerate(contractor.workers.values()):
-            contractor_borders[ind, ind_worker] = worker.count
+        for worker in contractor.workers.values():
+            contractor_borders[ind, worker_name2index[worker.name]] = worker.count
 
     nodes, node_id2parent_ids, node_id2child_ids = get_head_nodes_with_connections_mappings(wg)
     node_indices = list(range(len(nodes)))
-- 
2.43.0


From b1bfbabd6f3e41efee3ccc1ca8cff74609a5ef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 09/54] fix: genetic decoding checks capacity for the team
 fixed by the specification, and mutation keeps fixed counts

---
 sampo/scheduler/genetic/converter.py | 5 ++---
 sampo/scheduler/genetic/utils.py     | 7 +++++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 4cea529..41e7113 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -174,6 +174,8 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
                                          .copy().with_count(worker_count)
                                          for worker_index, worker_count in enumerate(cur_resources)
                                          if worker_count > 0]
+        # apply worker spec
+        Scheduler.optimize_resources_using_spec(cur_node.work_unit, cur_worker_team, cur_work_spec)
         if cur_work_spec.assigned_time is not None:
             cur_exec_time = cur_work_spec.assigned_time
         else:
@@ -194,9 +196,6 @@ def parallel_schedule_generation_scheme(chromosome: ChromosomeType,
         idx, (work_idx, node, worker_team, contractor, exec_time, work_spec) = args
 
         if timeline.can_schedule_at_the_moment(node, worker_team, work_spec, node2swork, start_time, exec_time):
-            # apply worker spec
-            Scheduler.optimize_resources_using_spec(node.work_unit, worker_team, work_spec)
-
             st = start_time
             if idx == 0:  # we are scheduling the work `start of the project`
                 st = assigned_parent_time  # this work should always have st = 0, so we just re-assign it
diff --git a/sampo/scheduler/genetic/utils.py b/sampo/scheduler/genetic/utils.py
index 11904cb..f798eb1 100644
--- a/sampo/scheduler/genetic/utils.py
+++ b/sampo/scheduler/genetic/utils.py
@@ -68,10 +68,13 @@ def prepare_optimized_data_structures(wg: WorkGraph,
     resources_border = np.zeros((2, len(worker_pool), len(index2node)))
     contractors_available = np.zeros((len(index2node), len(contractor2index)))
     for work_index, node in index2node.items():
+        assigned_workers = spec.get_work_spec(node.id).assigned_workers
         for req in node.work_unit.worker_reqs:
             worker_index = worker_name2index[req.kind]
-            resources_border[0, worker_index, work_index] = req.min_count
-            resources_border[1, worker_index, work_index] = req.max_count
+            # amounts fixed by the specification shouldn't be mutated
+            assigned_count = assigned_workers.get(req.kind, 0)
+            resources_border[0, worker_index, work_index] = assigned_count or req.min_count
+            resources_border[1, worker_index, work_index] = assigned_count or req.max_count
 
         contractors_spec = spec.get_work_spec(node.id).contractors or map(attrgetter('id'), contractors)
         for contractor in contractors_spec:
-- 
2.43.0


From 2f0a3df9685dd2990221fdc15657ad070b3fda3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 10/54] fix: resources_sum filters and sums workers by name
 (model_name does not exist)

---
 sampo/utilities/resource_usage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/utilities/resource_usage.py b/sampo/utilities/resource_usage.py
index faab513..05c13e4 100644
--- a/sampo/utilities/resource_usage.py
+++ b/sampo/utilities/resource_usage.py
@@ -47,7 +47,7 @@ def resources_sum(schedule: Schedule, resources_names: Iterable[str] | None = No
     resources_names = set(resources_names) if not is_none else {}
 
     res_sum = sum([sum([worker.count * work.duration.value for worker in work.workers
-                        if worker.model_name in resources_names or is_none], start=0)
+                        if worker.name in resources_names or is_none], start=0)
                    for work in schedule.works])
 
     return res_sum
-- 
2.43.0


From 623a38e26b4f026695a36270a0cff66f9bda64ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 11/54] fix: copies of workers and materials keep their price,
 so schedule costs use the contractor prices

---
 sampo/schemas/resources.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sampo/schemas/resources.py b/sampo/schemas/resources.py
index ce96871..7708204 100644
--- a/sampo/schemas/resources.py
+++ b/sampo/schemas/resources.py
@@ -81,7 +81,8 @@ class Worker(Resource):
                       name=self.name,
                       count=self.count,
                       contractor_id=self.contractor_id,
-                      productivity=self.productivity)
+                      productivity=self.productivity,
+                      cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Worker':
         """
@@ -155,7 +156,8 @@ class Material(Resource):
     def copy(self) -> 'Material':
         return Material(id=self.id,
                         name=self.name,
-                        count=self.count)
+                        count=self.count,
+                        cost_one_unit=self.cost_one_unit)
 
     def with_count(self, count: int) -> 'Material':
         self.count = count
-- 
2.43.0


From 7299a9564aba3ba7c605fcee6fda591259fec54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:10 +0000
Subject: [PATCH 12/54] fix: LinkedList iterates over all elements and keeps
 its tail after removals

---
 sampo/utilities/linked_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sampo/utilities/linked_list.py b/sampo/utilities/linked_list.py
index 9819f77..5370ab7 100644
--- a/sampo/utilities/linked_list.py
+++ b/sampo/utilities/linked_list.py
@@ -17,7 +17,7 @@ class Iterator(Generic[T]):
         self._prev = None
 
     def __iter__(self):
-        while self._node.next is not None:
+        while self._node is not None:
             yield self._node
             self.__next__()
 
@@ -45,6 +45,8 @@ class Iterator(Generic[T]):
         node = self._node
         next = node.next
         self._prev.next = next
+        if next is None:
+            self._lst._tail = self._prev
         self._node = next
         self._lst._len -= 1
         return node.value
-- 
2.43.0


From fffd7d0d1aa40ca1b86059d52b338cb5e5cd3088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 13/54] fix: a zone stays booked until its work ends and
 switching after the last work takes its time

---
 sampo/scheduler/timeline/zone_timeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 50cf0f9..d2ee31b 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -193,7 +193,8 @@ class ZoneTimeline:
                 #                                                                   required_status):
                 #     # print('Problem!')
                 #     current_start_time = max(parent_time, state[-1].time + 1)
-                current_start_time = max(parent_time, state[-1].time + 1)
+                change_cost = self._config.time_costs[state[-1].available_workers_count, required_status]
+                current_start_time = max(parent_time, state[-1].time + max(1, change_cost))
                 break
 
             current_start_time = state[current_start_idx].time
@@ -259,7 +260,7 @@ class ZoneTimeline:
                 else 0
 
             state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, zone.status))
-            state.add(ScheduleEvent(index, EventType.END, start_time - change_cost + exec_time, None, zone.status))
+            state.add(ScheduleEvent(index, EventType.END, start_time + exec_time, None, zone.status))
 
             if start_status != zone.status and zone.status != 0:
                 # if we need to change status, record it
-- 
2.43.0


From a483d04f629804e371e7e660b7e3abb44141cc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 14/54] fix: a work that requires no zone status does not reset
 the status of the zone

---
 sampo/scheduler/timeline/zone_timeline.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index d2ee31b..2b2df3d 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -248,6 +248,9 @@ class ZoneTimeline:
         sworks = []
 
         for zone in zones:
+            if zone.status == 0:
+                # no particular status is required, so the zone stays as it is
+                continue
             state = self._timeline[zone.name]
             start_idx = state.bisect_right(start_time)
             start_status = state[start_idx - 1].available_workers_count
-- 
2.43.0


From 04c31ca62cd350b6af3bca5d0e09ba4df2c3a7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:48 +0000
Subject: [PATCH 15/54] fix: finishing zone statuses are applied instead of
 failing on the zone names

---
 sampo/scheduler/timeline/zone_timeline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 2b2df3d..06ec4aa 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -281,7 +281,7 @@ class ZoneTimeline:
         for zone in zones:
             state = self._timeline[zone.name]
             latest_time = state[-1].time + 1
-            latest_status = state[-1].available_workers_time
+            latest_status = state[-1].available_workers_count
             change_cost = self._config.time_costs[latest_status, zone.status] \
                 if not self._config.statuses.match_status(latest_status, zone.status) \
                 else 0
@@ -295,12 +295,12 @@ class ZoneTimeline:
                 sworks.append(ZoneTransition(name=zone.name,
                                              from_status=latest_status,
                                              to_status=zone.status,
-                                             start_time=latest_time - change_cost,
-                                             end_time=latest_time))
+                                             start_time=latest_time,
+                                             end_time=finish_time))
 
             global_finish_time = max(global_finish_time, finish_time)
 
         return global_finish_time, sworks
 
     def finish_statuses(self) -> tuple[Time, list[ZoneTransition]]:
-        return self.append_statuses([Zone(*v) for v in self._config.end_statuses])
+        return self.append_statuses([Zone(*v) for v in self._config.end_statuses.items()])
-- 
2.43.0


From 5587374ca0950cc0939726cf03821454870c700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 16/54] fix: a zone is not usable by other statuses or works
 while it is being switched

---
 sampo/scheduler/timeline/zone_timeline.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 06ec4aa..604740d 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -10,6 +10,8 @@ from sampo.utilities.collections_util import build_index
 
 
 class ZoneTimeline:
+    # mark of the interval where the status is being switched, it matches no required status
+    _SWITCHING = -1
 
     def __init__(self, config: ZoneConfiguration):
         def event_cmp(event: ScheduleEvent | Time | tuple[Time, int, int]) -> tuple[Time, int, int]:
@@ -262,7 +264,11 @@ class ZoneTimeline:
                 if not self._config.statuses.match_status(start_status, zone.status) \
                 else 0
 
-            state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, zone.status))
+            if change_cost > 0:
+                # nothing that requires a status can be done in the zone while it is being switched
+                state.add(ScheduleEvent(index, EventType.START, start_time - change_cost, None, self._SWITCHING))
+                state.add(ScheduleEvent(index, EventType.END, start_time + exec_time, None, zone.status))
+            state.add(ScheduleEvent(index, EventType.START, start_time, None, zone.status))
             state.add(ScheduleEvent(index, EventType.END, start_time + exec_time, None, zone.status))
 
             if start_status != zone.status and zone.status != 0:
-- 
2.43.0


From 036f607b6f878573faae2c7a0871769af7620a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:18 +0000
Subject: [PATCH 17/54] fix: vehicles of material deliveries are booked, and
 roads are passed when the vehicles are free

---
 .../timeline/hybrid_supply_timeline.py        | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 60be8b5..63ebb8f 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -219,18 +219,23 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                 vehicle_count_need = self._get_necessary_vehicles_amount(depot, materials)
                 selected_vehicles = depot.vehicles[:vehicle_count_need]
 
-                # get information about route: start time, deliveries,
-                # time of vehicles routing to platform and back separately
-                route_start_time, deliveries, exec_ahead_time, exec_return_time = \
-                    self._get_route_with_additional(depot.node, platform, selected_vehicles, depot_mat_start_time)
-
-                # get the minimum start time that all required vehicles are available
-                depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
-                                                                          vehicle_count_need,
-                                                                          route_start_time,
-                                                                          exec_return_time + exec_ahead_time)
-
-                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries
+                while True:
+                    # get information about route: start time, deliveries,
+                    # time of vehicles routing to platform and back separately
+                    route_start_time, deliveries, exec_ahead_time, exec_return_time = \
+                        self._get_route_with_additional(depot.node, platform, selected_vehicles, depot_mat_start_time)
+
+                    # get the minimum start time that all required vehicles are available
+                    depot_vehicle_start_time = self._find_earliest_start_time(self._timeline[depot.id]['vehicles'],
+                                                                              vehicle_count_need,
+                                                                              route_start_time,
+                                                                              exec_return_time + exec_ahead_time)
+                    if depot_vehicle_start_time == depot_mat_start_time:
+                        break
+                    # vehicles are free only later, so the roads should be passed later too
+                    depot_mat_start_time = depot_vehicle_start_time
+
+                yield depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries, selected_vehicles
 
         delivery = MaterialDelivery(node.id)
 
@@ -264,7 +269,8 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
             start_delivery_time += 1
 
             # iterate over depots and find the earliest time when the depot could supply resources
-            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries in get_finish_time(start_delivery_time):
+            for depot_vehicle_start_time, exec_ahead_time, exec_return_time, depot, deliveries, vehicles \
+                    in get_finish_time(start_delivery_time):
                 # choose the current depot if only it could supply resources earlier than the previous one
                 if finish_delivery_time > deadline and depot_vehicle_start_time + exec_ahead_time < finish_delivery_time \
                         or finish_delivery_time < deadline:
@@ -272,6 +278,7 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                     min_depot_time = depot_vehicle_start_time
                     finish_delivery_time = depot_vehicle_start_time + exec_ahead_time
                     selected_depot = depot
+                    selected_vehicles = vehicles
 
                     road_deliveries = deliveries
 
-- 
2.43.0


From 4e7332c19b46b402c2ffb7957335193edc062f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 18/54] fix: platform stocks account for undelivered materials
 and never run out through earlier bookings

---
 sampo/scheduler/timeline/hybrid_supply_timeline.py | 9 +++++++--
 sampo/scheduler/timeline/platform_timeline.py      | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 63ebb8f..1b1816d 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -185,6 +185,9 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
         if not materials or node.work_unit.is_service_unit:
             return MaterialDelivery(node.id), deadline
 
+        # materials can't be taken before the moments when they are already taken by the other works
+        deadline, _ = self._platform_timeline.find_min_material_time_with_additional(node, deadline, materials)
+
         # if the platform could allocate resources, then delivery is not needed and we return start time
         if self._platform_timeline.can_provide_resources(node, deadline, materials):
             return MaterialDelivery(node.id), deadline
@@ -302,8 +305,10 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                 update_timeline_info[road_id].append(res_info)
 
         # update the platform timeline
-        node_mat_req = {mat.name: mat.count for mat in node.work_unit.need_materials()}
-        update_mat_req_info = [(mat.name, node_mat_req[mat.name] - mat.count, finish_delivery_time) for mat in materials]
+        # (the work also takes the materials that were not delivered, because the platform had enough of them)
+        delivered = {mat.name: mat.count for mat in materials}
+        update_mat_req_info = [(mat.name, mat.count - delivered.get(mat.name, 0), finish_delivery_time)
+                               for mat in node.work_unit.need_materials()]
         self._platform_timeline.update_timeline(platform.id, update_mat_req_info)
 
         # update the supply timeline
diff --git a/sampo/scheduler/timeline/platform_timeline.py b/sampo/scheduler/timeline/platform_timeline.py
index 8a94fa8..29a5582 100644
--- a/sampo/scheduler/timeline/platform_timeline.py
+++ b/sampo/scheduler/timeline/platform_timeline.py
@@ -62,7 +62,7 @@ class PlatformTimeline:
             start = platform_state[mat.name].bisect_right(start_time)
             finish = len(platform_state[mat.name])
 
-            if finish - start > 1:
+            if finish - start > 0:
                 return False
 
         return True
-- 
2.43.0


From 1f970fe72e739a2dfa39c023f78707555a4d7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 19/54] fix: the inseparable chain of a node is not looked up
 by node id in a cache shared by all graphs

---
 sampo/schemas/graph.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 771a474..64b9b5d 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -1,7 +1,7 @@
 from collections import deque
 from dataclasses import dataclass, field
 from enum import Enum
-from functools import cached_property, cache
+from functools import cached_property
 from random import Random
 from typing import Optional
 
@@ -129,14 +129,12 @@ class GraphNode(JSONSerializable['GraphNode']):
         self.__dict__.pop('parents_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def invalidate_children_cache(self):
         self.__dict__.pop('children', None)
         self.__dict__.pop('children_set', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
-        self.get_inseparable_chain.cache_clear()
 
     def is_inseparable_parent(self) -> bool:
         return self.inseparable_son is not None
@@ -241,7 +239,6 @@ class GraphNode(JSONSerializable['GraphNode']):
     def id(self) -> str:
         return self.work_unit.id
 
-    @cache
     def get_inseparable_chain(self) -> Optional[list['GraphNode']]:
         """
         Gets an ordered list of whole chain of nodes, connected with edges of type INSEPARABLE_FINISH_START =
-- 
2.43.0


From 56696690205756ceb318e5c4c5f822882605f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 20/54] fix: MomentumTimeline.schedule returns the finish time,
 as serial decoding expects

---
 sampo/scheduler/timeline/momentum_timeline.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sampo/scheduler/timeline/momentum_timeline.py b/sampo/scheduler/timeline/momentum_timeline.py
index 050c709..e40b766 100644
--- a/sampo/scheduler/timeline/momentum_timeline.py
+++ b/sampo/scheduler/timeline/momentum_timeline.py
@@ -410,7 +410,7 @@ class MomentumTimeline(Timeline):
                  assigned_start_time: Optional[Time] = None,
                  assigned_time: Optional[Time] = None,
                  assigned_parent_time: Time = Time(0),
-                 work_estimator: WorkTimeEstimator = DefaultWorkEstimator()):
+                 work_estimator: WorkTimeEstimator = DefaultWorkEstimator()) -> Time:
         inseparable_chain = node.get_inseparable_chain_with_self()
         if assigned_time is not None:
             # time slot should be searched for the time that will be actually scheduled
@@ -420,8 +420,8 @@ class MomentumTimeline(Timeline):
                                                      assigned_parent_time, work_estimator)
 
         # TODO Decide how to deal with exec_times(maybe we should remove using pre-computed exec_times)
-        self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
-                                         workers, contractor, start_time, exec_times)
+        return self._schedule_with_inseparables(node, node2swork, inseparable_chain, spec,
+                                                workers, contractor, start_time, exec_times)
 
     def _schedule_with_inseparables(self,
                                     node: GraphNode,
@@ -432,7 +432,7 @@ class MomentumTimeline(Timeline):
                                     contractor: Contractor,
                                     start_time: Time,
                                     exec_times: dict[GraphNode, tuple[Time, Time]],
-                                    work_estimator: WorkTimeEstimator = DefaultWorkEstimator()):
+                                    work_estimator: WorkTimeEstimator = DefaultWorkEstimator()) -> Time:
         # 6. create a schedule entry for the task
         # nodes_start_times = {ins_node: ins_node.min_start_time(node2swork) for ins_node in inseparable_chain}
 
@@ -466,6 +466,7 @@ class MomentumTimeline(Timeline):
         zones = [zone_req.to_zone() for zone_req in node.work_unit.zone_reqs]
         node2swork[node].zones_pre = self.zone_timeline.update_timeline(len(node2swork), zones, start_time,
                                                                         curr_time - start_time)
+        return curr_time
 
     def _validate(self,
                   finish_time: Time,
-- 
2.43.0


From e5351d88205188e8ed61fd510c054754b985d798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 21/54] fix: deleting a work removes its whole inseparable
 chain with all its links

---
 sampo/structurator/delete_graph_node.py | 28 +++++++++----------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/sampo/structurator/delete_graph_node.py b/sampo/structurator/delete_graph_node.py
index a13d85a..245664a 100644
--- a/sampo/structurator/delete_graph_node.py
+++ b/sampo/structurator/delete_graph_node.py
@@ -16,16 +16,10 @@ def delete_graph_node(original_wg: WorkGraph, remove_gn_id: str, change_id: bool
 
     copied_remove_gn = copied_nodes[old_to_new_ids[remove_gn_id]]
 
-    inseparable_chain = copied_remove_gn.get_inseparable_chain()
-    if inseparable_chain is not None:
-        copied_remove_gn = inseparable_chain[len(inseparable_chain) - 1]
-        parent_to_delete = copied_remove_gn.inseparable_parent
-        while parent_to_delete is not None:
-            copied_remove_gn = parent_to_delete
-            parent_to_delete = copied_remove_gn.inseparable_parent
-            _node_deletion(copied_remove_gn, copied_nodes)
-    else:
-        _node_deletion(copied_remove_gn, copied_nodes)
+    while copied_remove_gn.inseparable_parent is not None:
+        copied_remove_gn = copied_remove_gn.inseparable_parent
+    for node in copied_remove_gn.get_inseparable_chain_with_self():
+        _node_deletion(node, copied_nodes)
 
     start, finish = new_start_finish(original_wg, copied_nodes, old_to_new_ids)
 
@@ -36,15 +30,13 @@ def _node_deletion(remove_gn: GraphNode, nodes: dict[str, GraphNode]):
     parents = remove_gn.parents
     children = remove_gn.children
 
-    for parent in parents:
-        for edge in parent.edges_from:
-            if edge.finish.id == remove_gn.id:
-                parent.edges_from.remove(edge)
+    for parent in {edge.start for edge in remove_gn.edges_to}:
+        parent.edges_from[:] = [edge for edge in parent.edges_from if edge.finish.id != remove_gn.id]
+        parent.invalidate_children_cache()
 
-    for child in children:
-        for edge in child.edges_to:
-            if edge.start.id == remove_gn.id:
-                child.edges_to.remove(edge)
+    for child in {edge.finish for edge in remove_gn.edges_from}:
+        child.edges_to[:] = [edge for edge in child.edges_to if edge.start.id != remove_gn.id]
+        child.invalidate_parents_cache()
 
     nodes.pop(remove_gn.id)
 
-- 
2.43.0


From 3b43448f818138b5a111fa2a0e0b2b821ae4a4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 22/54] fix: graph insertion passes change_id to the copy of
 the slave graph as intended

---
 sampo/structurator/graph_insertion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/graph_insertion.py b/sampo/structurator/graph_insertion.py
index cc05c6b..9112956 100644
--- a/sampo/structurator/graph_insertion.py
+++ b/sampo/structurator/graph_insertion.py
@@ -16,7 +16,8 @@ def graph_in_graph_insertion(master_wg: WorkGraph, master_start: GraphNode, mast
     :return: new union WorkGraph
     """
     master_nodes, master_old_to_new_ids = prepare_work_graph_copy(master_wg, change_id=change_id)
-    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish], change_id)
+    slave_nodes, slave_old_to_new = prepare_work_graph_copy(slave_wg, [slave_wg.start, slave_wg.finish],
+                                                           change_id=change_id)
 
     # add parent links from slave_wg's nodes to master_start node from slave_wg's nodes
     master_start = master_nodes[master_old_to_new_ids[master_start.id]]
-- 
2.43.0


From c3a4b766a84247c13452a0fedfdac2c426aeddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 23/54] fix: copies of works keep description, priority and
 display name and do not share the model name

---
 sampo/structurator/prepare_wg_copy.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 66706cf..5f0910f 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -21,14 +21,17 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
         new_id = node.work_unit.id
     wu = node.work_unit
     new_wu = WorkUnit(id=new_id,
-                      model_name=wu.model_name,
+                      model_name=deepcopy(wu.model_name),
                       worker_reqs=deepcopy(wu.worker_reqs),
                       material_reqs=deepcopy(wu.material_reqs),
                       equipment_reqs=deepcopy(wu.equipment_reqs),
                       object_reqs=deepcopy(wu.object_reqs),
                       zone_reqs=deepcopy(wu.zone_reqs),
+                      description=wu.description,
                       group=wu.group,
-                      is_service_unit=wu.is_service_unit, volume=wu.volume)
+                      priority=wu.priority,
+                      is_service_unit=wu.is_service_unit, volume=wu.volume,
+                      display_name=wu.display_name)
     return GraphNode(new_wu, []), (wu.id, new_id)
 
 
-- 
2.43.0


From 7bbad7d92dafd654d87a4ec0e3063d2e8f58d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 24/54] fix: an inserted work given by plain nodes is linked
 without a negative lag

---
 sampo/structurator/insert_wu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/structurator/insert_wu.py b/sampo/structurator/insert_wu.py
index e904a3d..3b837d5 100644
--- a/sampo/structurator/insert_wu.py
+++ b/sampo/structurator/insert_wu.py
@@ -43,7 +43,7 @@ def _new_edges(copied_nodes: dict[str, GraphNode], original_old_to_new_ids: dict
 def _reduce_to_tuple_type(edges: list[GraphNode] or list[tuple[GraphNode, float, EdgeType]]) \
         -> list[tuple[GraphNode, float, EdgeType]]:
     if isinstance(edges[0], GraphNode):
-        return [(edge, -1, EdgeType.FinishStart) for edge in edges]
+        return [(edge, 0, EdgeType.FinishStart) for edge in edges]
     else:
         return edges
 
-- 
2.43.0


From d7fc588836268f76dadcb2d0dcfeef490b8efd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 25/54] fix: restructuring does not rename the works of the
 original graph

---
 sampo/structurator/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 444cc66..25af317 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -184,7 +184,8 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         # update id attribute with current stage node id
         wu_attrs['id'] = stage_node_id
         # update name attribute with current index of stage
-        wu_attrs['model_name']['granular_name'] = f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'
+        wu_attrs['model_name'] = {**wu.model_name,
+                                  'granular_name': f'{wu.model_name["granular_name"]}{STAGE_SEP}{stage_i}'}
         # update volume attribute with passed proportion
         wu_attrs['volume'] = wu.volume * volume_proportion
         # remove because it's unused field from Identifiable
-- 
2.43.0


From 482ba866ebe031f55b6f5ee3a2c6badb9d95ffc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 26/54] fix: copied and unpickled works keep their description

---
 sampo/schemas/works.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 8af0bf0..0ec23d9 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -153,6 +153,7 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         self.model_name = new_work_unit.model_name
         self.is_service_unit = new_work_unit.is_service_unit
         self.volume = new_work_unit.volume
+        self.description = new_work_unit.description
         self.group = new_work_unit.group
         self.display_name = new_work_unit.display_name
         self.priority = new_work_unit.priority
-- 
2.43.0


From 80918bc40e5a77375b74e3d65c29665d2663da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:05 +0000
Subject: [PATCH 27/54] fix: a zone cannot begin to be switched before the
 beginning of time

---
 sampo/scheduler/timeline/zone_timeline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/timeline/zone_timeline.py b/sampo/scheduler/timeline/zone_timeline.py
index 604740d..b54d3e6 100644
--- a/sampo/scheduler/timeline/zone_timeline.py
+++ b/sampo/scheduler/timeline/zone_timeline.py
@@ -232,7 +232,7 @@ class ZoneTimeline:
                 # starting status don't match, trying to change status
                 change_cost = self._config.time_costs[start_status, zone.required_status]
                 new_start_idx = state.bisect_right(start_time - change_cost)
-                if new_start_idx != start_idx:
+                if new_start_idx != start_idx or start_time < change_cost:
                     # we have incompatible status inside our interval, break
                     return False
 
-- 
2.43.0


From 5862fc6cbd70c7246d6dd19a71502ef5abb08e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 28/54] fix: the validator rejects a team that lacks a required
 worker kind

---
 sampo/utilities/validation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sampo/utilities/validation.py b/sampo/utilities/validation.py
index 9eba876..bc7076a 100644
--- a/sampo/utilities/validation.py
+++ b/sampo/utilities/validation.py
@@ -177,3 +177,6 @@ def _check_all_workers_correspond_to_worker_reqs(wg: WorkGraph, schedule: Schedu
         for worker in swork.workers:
             req = worker2req[worker.name]
             assert req.min_count <= worker.count <= req.max_count
+        absent_kinds = set(worker2req) - {worker.name for worker in swork.workers}
+        assert all(worker2req[kind].min_count == 0 for kind in absent_kinds), \
+            f'Work {swork.id} has no workers of required kinds: {absent_kinds}'
-- 
2.43.0


From fcdcd3a1deee0d17d9b84263dd1c5d56c1d5bade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 29/54] fix: parallel roads between two land nodes are routed
 over the shortest available one

---
 sampo/schemas/landscape.py       | 8 ++++++--
 sampo/schemas/landscape_graph.py | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/sampo/schemas/landscape.py b/sampo/schemas/landscape.py
index ca362e4..047e922 100644
--- a/sampo/schemas/landscape.py
+++ b/sampo/schemas/landscape.py
@@ -195,7 +195,11 @@ class LandscapeConfiguration:
             fr = path_mx[to_ind][fr]
         path.append(to_ind)
 
-        return [self.road_mx[path[v]][path[v + 1]] for v in range(len(path) - 1)]
+        # several roads may connect the same nodes, and the shortest of them may be unavailable
+        return [min((road for road in self.lg.nodes[start].roads
+                     if self._node2ind[road.finish] == finish and road.id in roads_available_set),
+                    key=lambda road: road.weight).id
+                for start, finish in zip(path, path[1:])]
 
     @cached_property
     def holders(self) -> list[ResourceHolder]:
@@ -249,7 +253,7 @@ class LandscapeConfiguration:
                 elif dist_mx[v][u] != np.inf:
                     path_mx[v][u] = v
                     for road in self.lg.nodes[v].roads:
-                        if self.lg.node2ind[road.finish] == u:
+                        if self.lg.node2ind[road.finish] == u and road.weight == dist_mx[v][u]:
                             road_mx[v][u] = road.id
                 else:
                     path_mx[v][u] = -1
diff --git a/sampo/schemas/landscape_graph.py b/sampo/schemas/landscape_graph.py
index 828be0e..28fa920 100644
--- a/sampo/schemas/landscape_graph.py
+++ b/sampo/schemas/landscape_graph.py
@@ -140,6 +140,7 @@ class LandGraph:
         for v, i in node2ind.items():
             for child in v.roads:
                 c_i = node2ind[child.finish]
-                adj_mtrx[i, c_i] = child.weight
+                # there may be several roads between the nodes
+                adj_mtrx[i, c_i] = min(adj_mtrx[i, c_i], child.weight)
 
         return adj_mtrx, node2ind, id2ind
-- 
2.43.0


From d25cb07cfef55e84ee052f1fbd38e5b1ff241a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:53 +0000
Subject: [PATCH 30/54] fix: priority correction accounts for chains, which are
 scheduled with the priority of their head

---
 sampo/utilities/priority.py | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/sampo/utilities/priority.py b/sampo/utilities/priority.py
index cd23be6..a218d37 100644
--- a/sampo/utilities/priority.py
+++ b/sampo/utilities/priority.py
@@ -16,16 +16,24 @@ def update_priority(node, priority_value, visited=None):
 
 def check_and_correct_priorities(wg: WorkGraph, verbose: bool = True):
     # check priorities
-    for node in wg.nodes:
-        # if node.is_inseparable_son():
-        #     continue
-        for parent_node in node.parents:
-            if node.work_unit.priority < parent_node.work_unit.priority:
-                if verbose:
-                    SAMPO.logger.warn(f'Priority of node {node.work_unit.display_name} '
-                                      f'is less than node {parent_node.work_unit.name} '
-                                      f'conflicting with edges, applying auto-correction')
-                update_priority(parent_node, node.work_unit.priority)
+    changed = True
+    while changed:
+        changed = False
+        for node in wg.nodes:
+            # a chain is scheduled as one unit with the priority of its head
+            if node.is_inseparable_son():
+                chain_priority = node.inseparable_parent.work_unit.priority
+                if chain_priority < node.work_unit.priority:
+                    node.work_unit.priority = chain_priority
+                    changed = True
+            for parent_node in node.parents:
+                if node.work_unit.priority < parent_node.work_unit.priority:
+                    if verbose:
+                        SAMPO.logger.warn(f'Priority of node {node.work_unit.display_name} '
+                                          f'is less than node {parent_node.work_unit.name} '
+                                          f'conflicting with edges, applying auto-correction')
+                    update_priority(parent_node, node.work_unit.priority)
+                    changed = True
 
 
 def extract_priority_groups_from_nodes(nodes: list[GraphNode]) -> dict[int, list[GraphNode]]:
-- 
2.43.0


From 546a40078f816ffad478beb5606037d7799f145f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 31/54] fix: adjacency weights no longer overflow or vanish
 (16-bit matrix)

---
 sampo/schemas/graph.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 64b9b5d..da07715 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -6,7 +6,6 @@ from random import Random
 from typing import Optional
 
 import dill
-import numpy as np
 import pandas as pd
 from scipy.sparse import dok_matrix
 
@@ -474,12 +473,12 @@ class WorkGraph(JSONSerializable['WorkGraph']):
             v: i for i, v in enumerate(ordered_nodes)
         }
         id2node: dict[str, GraphNode] = {node.id: node for node in node2ind.keys()}
-        adj_mx = dok_matrix((len(node2ind), len(node2ind)), dtype=np.short)
+        adj_mx = dok_matrix((len(node2ind), len(node2ind)), dtype=float)
         weight = 0
         for v, i in node2ind.items():
             for child in v.children:
                 c_i = node2ind[child]
-                weight = max((w_req.volume for w_req in v.work_unit.worker_reqs), default=0.000001)
+                weight = max((int(w_req.volume) for w_req in v.work_unit.worker_reqs), default=0.000001)
                 adj_mx[i, c_i] = weight
 
         return ordered_nodes, adj_mx, id2node
-- 
2.43.0


From a060776bf6db44f2e3872e5ae81adec81d4c9b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 32/54] fix: the cached start-start neighbours of a work are
 refreshed when links are added

---
 sampo/schemas/graph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index da07715..1b39550 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -126,6 +126,7 @@ class GraphNode(JSONSerializable['GraphNode']):
     def invalidate_parents_cache(self):
         self.__dict__.pop('parents', None)
         self.__dict__.pop('parents_set', None)
+        self.__dict__.pop('neighbors', None)
         self.__dict__.pop('inseparable_parent', None)
         self.__dict__.pop('inseparable_son', None)
 
-- 
2.43.0


From f06ffa00cd585966898a41b7095b3d4b4b4f260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:17 +0000
Subject: [PATCH 33/54] fix: graph insertion keeps kinds and lags of the links
 to the start and finish of the inserted graph

---
 sampo/structurator/graph_insertion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/structurator/graph_insertion.py b/sampo/structurator/graph_insertion.py
index 9112956..db43e39 100644
--- a/sampo/structurator/graph_insertion.py
+++ b/sampo/structurator/graph_insertion.py
@@ -22,11 +22,11 @@ def graph_in_graph_insertion(master_wg: WorkGraph, master_start: GraphNode, mast
     # add parent links from slave_wg's nodes to master_start node from slave_wg's nodes
     master_start = master_nodes[master_old_to_new_ids[master_start.id]]
     for edge in slave_wg.start.edges_from:
-        slave_nodes[slave_old_to_new[edge.finish.id]].add_parents([master_start])
+        slave_nodes[slave_old_to_new[edge.finish.id]].add_parents([(master_start, edge.lag, edge.type)])
 
     # add parent links from master_finish to slave_wg's nodes
     master_finish = master_nodes[master_old_to_new_ids[master_finish.id]]
-    master_finish.add_parents([slave_nodes[slave_old_to_new[edge.start.id]]
+    master_finish.add_parents([(slave_nodes[slave_old_to_new[edge.start.id]], edge.lag, edge.type)
                                for edge in slave_wg.finish.edges_to])
 
     start, finish = new_start_finish(master_wg, master_nodes, master_old_to_new_ids)
-- 
2.43.0


From f7ce7c5d9393ff538b4df12c5851359b40df55e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 34/54] fix: the first work of a graph with simplified ids gets
 its number, not a random id

---
 sampo/structurator/prepare_wg_copy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/structurator/prepare_wg_copy.py b/sampo/structurator/prepare_wg_copy.py
index 5f0910f..e875079 100644
--- a/sampo/structurator/prepare_wg_copy.py
+++ b/sampo/structurator/prepare_wg_copy.py
@@ -15,7 +15,7 @@ def copy_graph_node(node: GraphNode, new_id: int | str | None = None,
     :return: copy of GraphNode and pair(old node id, new node id)
     """
     if change_id:
-        new_id = new_id or uuid_str()
+        new_id = uuid_str() if new_id is None else new_id
         new_id = str(new_id) if isinstance(new_id, int) else new_id
     else:
         new_id = node.work_unit.id
-- 
2.43.0


From c3f786ea411034909eecfe517f6375e6ee5e5ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:56 +0000
Subject: [PATCH 35/54] fix: restructuring accepts several links between the
 same two works

---
 sampo/structurator/base.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index 25af317..e8723b1 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -23,7 +23,7 @@ def make_new_node_id(work_unit_id: str, ind: int) -> str:
 
 
 def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, GraphNode],
-                              restructuring_edges2new_nodes_id: dict[tuple[str, str], str],
+                              restructuring_edges2new_nodes_id: dict[tuple[str, str, int], str],
                               use_lag_edge_optimization: bool):
     """
     Restores parent edges for transformed node
@@ -31,7 +31,7 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
     :param origin_node: GraphNode - The original unconverted node
     :param id2new_nodes: GraphNodeDict - Dictionary with restructured new nodes id
         where the restructured nodes are written
-    :param restructuring_edges2new_nodes_id: dict[tuple[str, str], str] - Dictionary for matching edges in the original
+    :param restructuring_edges2new_nodes_id: dict[tuple[str, str, int], str] - Dictionary for matching edges in the original
         work graph and IDs of new nodes that logically match those edges
     :param use_lag_edge_optimization: bool - if true - considers lags amount in edges,
         otherwise considers lags equal to zero and LagFinishStart edges as FinishStart edges
@@ -86,21 +86,21 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
             match edge.type:
                 case EdgeType.StartStart:
                     # get id of corresponding created stage node of original parent node
-                    new_parent_node_id = restructuring_edges2new_nodes_id.pop((edge.start.id, edge.finish.id))
+                    new_parent_node_id = restructuring_edges2new_nodes_id.pop((edge.start.id, edge.finish.id, id(edge)))
                     # get parent's stage node by received id and add edge between it and first stage of current node
                     parents_first_stage.append((id2new_nodes[new_parent_node_id], indent, EdgeType.FinishStart))
                 case EdgeType.FinishFinish:
                     # get id of corresponding stage of current node and get the stage node itself
-                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id.pop((edge.finish.id, edge.start.id))]
+                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id.pop((edge.finish.id, edge.start.id, id(edge)))]
                     # add edge between parent's created last stage node and received stage node
                     stage_node.add_parents([(id2new_nodes[edge.start.id], indent, EdgeType.FinishStart)])
                 case EdgeType.LagFinishStart:
                     # get id of corresponding created stage node of original parent node
-                    new_parent_node_id = restructuring_edges2new_nodes_id.pop((edge.start.id, edge.finish.id))
+                    new_parent_node_id = restructuring_edges2new_nodes_id.pop((edge.start.id, edge.finish.id, id(edge)))
                     # get parent's stage node by received id and add edge between it and first stage of current node
                     parents_first_stage.append((id2new_nodes[new_parent_node_id], indent, EdgeType.FinishStart))
                     # get id of corresponding stage of current node and get the stage node itself
-                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id.pop((edge.finish.id, edge.start.id))]
+                    stage_node = id2new_nodes[restructuring_edges2new_nodes_id.pop((edge.finish.id, edge.start.id, id(edge)))]
                     # add edge between parent's created last stage node and received stage node
                     stage_node.add_parents([(id2new_nodes[edge.start.id], indent, EdgeType.FinishStart)])
 
@@ -112,7 +112,7 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
 
 def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tuple[GraphEdge, bool]],
                            id2new_nodes: dict[str, GraphNode],
-                           restructuring_edges2new_nodes_id: dict[tuple[str, str], str],
+                           restructuring_edges2new_nodes_id: dict[tuple[str, str, int], str],
                            use_lag_edge_optimization: bool):
     """
     Splits the node into stages according to the lags in the restructuring edges.
@@ -124,7 +124,7 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
     :param origin_node: GraphNode - Node to be divided into stages
     :param id2new_nodes: GraphNodeDict - Dictionary with restructured new nodes id where the restructured nodes will
         be written
-    :param restructuring_edges2new_nodes_id: dict[tuple[str, str], str] - Dictionary for matching edges in the original
+    :param restructuring_edges2new_nodes_id: dict[tuple[str, str, int], str] - Dictionary for matching edges in the original
         work graph and IDs of new nodes that logically match those edges
     :param use_lag_edge_optimization: bool - if true - considers lags amount in edges,
         otherwise considers lags equal to zero and LagFinishStart edges as FinishStart edges
@@ -196,7 +196,7 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
         # make new graph node for new stage with created work unit and with passed edge to previous stage node
         return GraphNode(new_wu, edge_with_prev_stage_node)
 
-    def match_prev_edges_with_stage_nodes_id(restructuring_edges2new_nodes_id: dict[tuple[str, str], str]):
+    def match_prev_edges_with_stage_nodes_id(restructuring_edges2new_nodes_id: dict[tuple[str, str, int], str]):
         """
         Matches the original edges, along which a previous stage node has been created,
         and IDs of the previous and current stage nodes.
@@ -208,7 +208,7 @@ def split_node_into_stages(origin_node: GraphNode, restructuring_edges: list[tup
             start, finish = prev_edge.start.id, prev_edge.finish.id
             if prev_is_edge_to_node:
                 start, finish = finish, start
-            restructuring_edges2new_nodes_id[(start, finish)] = \
+            restructuring_edges2new_nodes_id[(start, finish, id(prev_edge))] = \
                 prev_stage_node_id if not prev_is_edge_to_node else stage_node_id
 
     wu = origin_node.work_unit
@@ -354,10 +354,11 @@ def graph_restructuring(wg: WorkGraph, use_lag_edge_optimization: Optional[bool]
     # mapper of IDs of new nodes and the new nodes themselves that represent the restructured graph
     id2new_nodes: dict[str, GraphNode] = dict()
     # mapper of original edges and IDs of new nodes that should be connected.
-    # edge is specified by two IDs of the nodes that this edge connects.
+    # edge is specified by two IDs of the nodes that this edge connects and by the edge itself,
+    # since two nodes can be connected by several edges.
     # the order of the node IDs determines (based on the first ID) on which side of the edge the new node ID is written.
     # used only if the use_lag_edge_optimization is True, since otherwise the connection is trivial
-    restructuring_edges2new_nodes_id: dict[tuple[str, str], str] = dict()
+    restructuring_edges2new_nodes_id: dict[tuple[str, str, int], str] = dict()
     # iterate over each node,
     # keeping all the edges that need to be removed and which will break the node into stages,
     # creating a new node (possibly with stage nodes) that will be in the final restructured graph,
-- 
2.43.0


From 07f6ef6d73dfdefc49954c950c169a4dfdad442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:16 +0000
Subject: [PATCH 36/54] fix: restructuring an already restructured graph does
 not mistake its stages for new ones

---
 sampo/structurator/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sampo/structurator/base.py b/sampo/structurator/base.py
index e8723b1..a25ad89 100644
--- a/sampo/structurator/base.py
+++ b/sampo/structurator/base.py
@@ -41,8 +41,8 @@ def fill_parents_to_new_nodes(origin_node: GraphNode, id2new_nodes: dict[str, Gr
     last_stage_id = origin_node.id
     # make first stage id
     first_stage_id = make_new_node_id(origin_node.id, 0)
-    # if first stage id not in id2new_nodes then there are no stages, so then first stage id is equal to last stage id
-    first_stage_id = first_stage_id if first_stage_id in id2new_nodes else last_stage_id
+    # if last stage has no previous stage then there are no stages, so then first stage id is equal to last stage id
+    first_stage_id = first_stage_id if id2new_nodes[last_stage_id].edges_to else last_stage_id
 
     # basic time lag of FinishStart or InseparableFinishStart edges
     indent = 0
-- 
2.43.0


From d74bdb796861e92beb18981ebd9cc92281977c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 37/54] fix: reading an object does not damage the
 representation it is read from

---
 sampo/schemas/graph.py        | 9 +++++----
 sampo/schemas/schedule.py     | 4 ++--
 sampo/schemas/serializable.py | 8 +++-----
 3 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 1b39550..89f0342 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -93,10 +93,11 @@ class GraphNode(JSONSerializable['GraphNode']):
 
     @classmethod
     def _deserialize(cls, representation: T) -> dict:
-        representation['work_unit'] = WorkUnit._deserialize(representation['work_unit'])
-        representation['parent_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']]
-        # representation['child_edges'] = [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
-        return representation
+        return {
+            'work_unit': WorkUnit._deserialize(representation['work_unit']),
+            'parent_edges': [(e[0], e[1], EdgeType(e[2])) for e in representation['parent_edges']],
+            # 'child_edges': [(e[0], e[1], EdgeType(e[2])) for e in representation['child_edges']]
+        }
 
     def update_work_unit(self, work_unit: WorkUnit) -> None:
         self._work_unit = work_unit
diff --git a/sampo/schemas/schedule.py b/sampo/schemas/schedule.py
index de53fbf..1fc1836 100644
--- a/sampo/schemas/schedule.py
+++ b/sampo/schemas/schedule.py
@@ -101,8 +101,8 @@ class Schedule(JSONSerializable['Schedule']):
     @classmethod
     def _deserialize(cls, dict_representation: T) -> 'Schedule':
         # Method described in base class
-        dict_representation['works'] = [ScheduledWork._deserialize(sw) for sw in dict_representation['works']]
-        return Schedule.from_scheduled_works(**dict_representation)
+        works = [ScheduledWork._deserialize(sw) for sw in dict_representation['works']]
+        return Schedule.from_scheduled_works(**{**dict_representation, 'works': works})
 
     @lru_cache
     def merged_stages_datetime_df(self, offset: Union[datetime, str]) -> DataFrame:
diff --git a/sampo/schemas/serializable.py b/sampo/schemas/serializable.py
index d158127..5a2af1c 100644
--- a/sampo/schemas/serializable.py
+++ b/sampo/schemas/serializable.py
@@ -403,10 +403,8 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
                                                                                           CUSTOM_TYPE_DESERIALIZER)]
                                                for attr in [getattr(cls, name) for name in dir(cls)]
                                                if hasattr(attr, CUSTOM_TYPE_DESERIALIZER)]))
-        type_hints = {}
-        if TYPE_HINTS in dict_representation:
-            type_hints = dict_representation[TYPE_HINTS]
-            del dict_representation[TYPE_HINTS]
+        # the representation is left as it is, so that it can be read again
+        type_hints = dict_representation.get(TYPE_HINTS, {})
 
         def deserialize_field(name, value):
             """
@@ -430,7 +428,7 @@ class AutoJSONSerializable(JSONSerializable[AJS], ABC):
         fields = dict({f: None for f in cls.ignored_fields},
                       **{k: deserialize_field(k, v)
                          for k, v in dict_representation.items()
-                         if k not in cls.ignored_fields})
+                         if k != TYPE_HINTS and k not in cls.ignored_fields})
 
         self = cls.__new__(cls)
         try:
-- 
2.43.0


From c717c5cb16668307541a91293d864c04120814b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 38/54] fix: copied and unpickled works keep their name

---
 sampo/schemas/works.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 0ec23d9..8e3a7a8 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -150,6 +150,7 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         self.material_reqs = new_work_unit.material_reqs
         self.zone_reqs = new_work_unit.zone_reqs
         self.id = new_work_unit.id
+        self.name = new_work_unit.name
         self.model_name = new_work_unit.model_name
         self.is_service_unit = new_work_unit.is_service_unit
         self.volume = new_work_unit.volume
-- 
2.43.0


From ad772bc01ed4e523dc94d4b29c6771803cddc5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:32 +0000
Subject: [PATCH 39/54] fix: works with equipment and object requirements can
 be written as JSON

---
 sampo/schemas/works.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/sampo/schemas/works.py b/sampo/schemas/works.py
index 8e3a7a8..7f59b86 100644
--- a/sampo/schemas/works.py
+++ b/sampo/schemas/works.py
@@ -82,6 +82,8 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         return [req.material() for req in self.material_reqs]
 
     @custom_serializer('worker_reqs')
+    @custom_serializer('equipment_reqs')
+    @custom_serializer('object_reqs')
     @custom_serializer('zone_reqs')
     @custom_serializer('material_reqs')
     def serialize_serializable_list(self, value) -> list:
@@ -116,6 +118,28 @@ class WorkUnit(AutoJSONSerializable['WorkUnit'], Identifiable):
         """
         return [WorkerReq._deserialize(wr) for wr in value]
 
+    @classmethod
+    @custom_serializer('equipment_reqs', deserializer=True)
+    def equipment_reqs_deserializer(cls, value) -> list[EquipmentReq]:
+        """
+        Get list of equipment requirements
+
+        :param value: serialized list of equipment requirements
+        :return: list of equipment requirements
+        """
+        return [EquipmentReq._deserialize(er) for er in value]
+
+    @classmethod
+    @custom_serializer('object_reqs', deserializer=True)
+    def object_reqs_deserializer(cls, value) -> list[ConstructionObjectReq]:
+        """
+        Get list of construction object requirements
+
+        :param value: serialized list of construction object requirements
+        :return: list of construction object requirements
+        """
+        return [ConstructionObjectReq._deserialize(cr) for cr in value]
+
     @classmethod
     @custom_serializer('zone_reqs', deserializer=True)
     def zone_reqs_deserializer(cls, value) -> list[ZoneReq]:
-- 
2.43.0


From 68e91367a51f97f36aa6bafbd4636b4fe70e3b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:20 +0000
Subject: [PATCH 40/54] fix: copied and unpickled graphs keep their links

---
 sampo/schemas/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sampo/schemas/graph.py b/sampo/schemas/graph.py
index 89f0342..434e8a6 100644
--- a/sampo/schemas/graph.py
+++ b/sampo/schemas/graph.py
@@ -436,6 +436,8 @@ class WorkGraph(JSONSerializable['WorkGraph']):
         deserialized = self._deserialize(state)
         object.__setattr__(self, 'start', deserialized.start)
         object.__setattr__(self, 'finish', deserialized.finish)
+        # the works belong to this graph now, the temporary one must not unlink them when it is deleted
+        object.__setattr__(deserialized, 'nodes', [])
         self.__post_init__()
 
     def __del__(self):
-- 
2.43.0


From 930408adfa0cf3ee54d8f04b27b6d6360999973a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 41/54] fix: a link imported without a lag has no lag

---
 sampo/userinput/parser/general_build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 23fb7bc..a14d239 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -191,7 +191,7 @@ def preprocess_graph_df(frame: pd.DataFrame,
                                                           none_elem=EdgeType.FinishStart)
     if 'lags' not in frame.columns:
         frame['lags'] = [NONE_ELEM] * len(frame)
-    frame['lags'] = fix_df_column_with_arrays(frame['lags'], float)
+    frame['lags'] = fix_df_column_with_arrays(frame['lags'], float, none_elem=0.0)
     for col in ['predecessor_ids', 'connection_types', 'lags', 'counts']:
         frame[col] = frame[col].astype(object)
 
-- 
2.43.0


From 3857c99cdbf119f17183788587e886dcc27ca54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 42/54] fix: imported links to works with ids such as '001' are
 kept

---
 sampo/userinput/parser/general_build.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index a14d239..2444db3 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -185,7 +185,11 @@ def preprocess_graph_df(frame: pd.DataFrame,
         frame['min_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['min_req']]
         frame['max_req'] = [literal_eval(x) if isinstance(x, str) else x for x in frame['max_req']]
 
-    frame['predecessor_ids'] = fix_df_column_with_arrays(frame['predecessor_ids'], cast=normalize_if_number)
+    activity_ids = set(frame['activity_id'])
+    # ids of known works (e.g. '001') are already written as they should be
+    frame['predecessor_ids'] = fix_df_column_with_arrays(frame['predecessor_ids'],
+                                                         cast=lambda s: s if s in activity_ids
+                                                         else normalize_if_number(s))
     frame['connection_types'] = fix_df_column_with_arrays(frame['connection_types'],
                                                           cast=EdgeType,
                                                           none_elem=EdgeType.FinishStart)
-- 
2.43.0


From d586478f2beacf7e2066c6dd719fe4f2db1e2ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 43/54] fix: lists in imported tables may have spaces after the
 commas

---
 sampo/userinput/parser/general_build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index 2444db3..e5eb7ea 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -150,7 +150,7 @@ def fix_df_column_with_arrays(column: pd.Series, cast: Callable[[str], Any] | No
                               none_elem: Any | None = NONE_ELEM) -> pd.Series:
     new_column = column.copy().astype(str).apply(
         lambda elems: [cast(elem) if elem != '' and elem != str(math.nan) else none_elem for elem in
-                       elems.split(',')] if (elems != str(math.nan) and elems.split(',') != '') else [none_elem])
+                       map(str.strip, elems.split(','))] if (elems != str(math.nan) and elems.split(',') != '') else [none_elem])
     return new_column
 
 
-- 
2.43.0


From 7b0f6550e8407779c70887eff3a750d13f619b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:27 +0000
Subject: [PATCH 44/54] fix: links to several predecessors are imported without
 columns of kinds and lags

---
 sampo/userinput/parser/general_build.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/userinput/parser/general_build.py b/sampo/userinput/parser/general_build.py
index e5eb7ea..ddc7b89 100644
--- a/sampo/userinput/parser/general_build.py
+++ b/sampo/userinput/parser/general_build.py
@@ -196,6 +196,10 @@ def preprocess_graph_df(frame: pd.DataFrame,
     if 'lags' not in frame.columns:
         frame['lags'] = [NONE_ELEM] * len(frame)
     frame['lags'] = fix_df_column_with_arrays(frame['lags'], float, none_elem=0.0)
+    # optional columns may say nothing about links to several predecessors
+    for col, none_elem in [('connection_types', EdgeType.FinishStart), ('lags', 0.0)]:
+        frame[col] = [elems + [none_elem] * (len(pred_ids) - len(elems))
+                      for elems, pred_ids in zip(frame[col], frame['predecessor_ids'])]
     for col in ['predecessor_ids', 'connection_types', 'lags', 'counts']:
         frame[col] = frame[col].astype(object)
 
-- 
2.43.0


From fe7fd89c756b541967af0538e178271dc802a47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 45/54] fix: synthetic block graphs can be generated (names of
 graph types)

---
 sampo/scheduler/multi_agency/block_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/scheduler/multi_agency/block_generator.py b/sampo/scheduler/multi_agency/block_generator.py
index 6038225..8efda21 100644
--- a/sampo/scheduler/multi_agency/block_generator.py
+++ b/sampo/scheduler/multi_agency/block_generator.py
@@ -93,7 +93,7 @@ def generate_blocks(graph_type: SyntheticBlockGraphType, n_blocks: int, type_pro
             bg.add_edge(global_start, node)
             bg.add_edge(node, global_end)
 
-    logger(f'{graph_type.name} ' + ' '.join([str(mode.model_name) for i, mode in enumerate(modes)
+    logger(f'{graph_type.name} ' + ' '.join([str(mode.name) for i, mode in enumerate(modes)
                                              if nodes[i].vertex_count != EMPTY_GRAPH_VERTEX_COUNT]))
     return bg
 
-- 
2.43.0


From 6108a9d95f4eda3e8828371bc8c7c7019d0d5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 46/54] fix: the resource search for a deadline keeps the given
 specification

---
 sampo/scheduler/resources_in_time/average_binary_search.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sampo/scheduler/resources_in_time/average_binary_search.py b/sampo/scheduler/resources_in_time/average_binary_search.py
index eb0df9f..aae376d 100644
--- a/sampo/scheduler/resources_in_time/average_binary_search.py
+++ b/sampo/scheduler/resources_in_time/average_binary_search.py
@@ -48,8 +48,6 @@ class AverageBinarySearchResourceOptimizingScheduler:
             return result
 
         copied_spec = deepcopy(spec)
-        # FIXME Investigate why `spec` given to this method can be saved from previous call and remove this
-        copied_spec._work2spec.clear()
 
         k_min = 1
         k_max = 10000
@@ -65,6 +63,9 @@ class AverageBinarySearchResourceOptimizingScheduler:
             # we can keep the deadline if pass minimum resources,
             # so let's go preventing the works going in parallel
             for node in wg.nodes:
+                if copied_spec.get_work_spec(node.id).is_independent:
+                    # the user has already requested it
+                    continue
                 copied_spec.get_work_spec(node.id).is_independent = True
                 new_time = fitness(k_max, copied_spec)
                 if new_time > deadline:
-- 
2.43.0


From 38e2bca15416daa98952c1fd8a4da1d35e7d757e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:24 +0000
Subject: [PATCH 47/54] fix: the pipeline accepts contractors that lack some
 kinds of workers

---
 sampo/pipeline/default.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 79c1c80..3ad610a 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -34,7 +34,7 @@ def contractors_can_perform_work_graph(contractors: list[Contractor], wg: WorkGr
         for contractor in contractors:
             offers = contractor.workers
             for req in reqs:
-                if req.min_count > offers[req.kind].count:
+                if req.kind not in offers or req.min_count > offers[req.kind].count:
                     is_at_least_one_contractor_can_perform = False
                     break
             if is_at_least_one_contractor_can_perform:
-- 
2.43.0


From 73e032ea57d5b47767eb70f49a36f7c002583f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:55 +0000
Subject: [PATCH 48/54] fix: schedules do not depend on the hash seed of
 strings

---
 sampo/scheduler/genetic/converter.py  | 6 +++---
 sampo/scheduler/lft/prioritization.py | 2 +-
 sampo/scheduler/topological/base.py   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sampo/scheduler/genetic/converter.py b/sampo/scheduler/genetic/converter.py
index 41e7113..a004e5f 100644
--- a/sampo/scheduler/genetic/converter.py
+++ b/sampo/scheduler/genetic/converter.py
@@ -74,10 +74,10 @@ def convert_schedule_to_chromosome(work_id2index: dict[str, int],
                 resource_chromosome[index, res_index] = res_count
                 resource_chromosome[index, -1] = contractor2index[res_contractor]
         else:
-            contractor_list = spec[node_id].contractors
+            contractor_list = sorted(spec[node_id].contractors)
             if not contractor_list:
-                contractor_list = contractor2index.keys()
-            random_contractor = list(contractor_list)[0]
+                contractor_list = list(contractor2index.keys())
+            random_contractor = contractor_list[0]
             resource_chromosome[index, -1] = contractor2index[random_contractor]
 
     resource_border_chromosome = np.copy(contractor_borders)
diff --git a/sampo/scheduler/lft/prioritization.py b/sampo/scheduler/lft/prioritization.py
index c36d256..5a6e9a8 100644
--- a/sampo/scheduler/lft/prioritization.py
+++ b/sampo/scheduler/lft/prioritization.py
@@ -86,7 +86,7 @@ def lft_randomized_prioritization_core(head_nodes: list[GraphNode],
     candidates = {head_nodes[0].id}
 
     while candidates:
-        eligibles = [node_id for node_id in candidates if is_eligible(node_id)]
+        eligibles = [node_id for node_id in sorted(candidates) if is_eligible(node_id)]
         min_group_priority = min(node_id2group_priority[node_id] for node_id in eligibles)
         eligibles = [node_id for node_id in eligibles if node_id2group_priority[node_id] == min_group_priority]
 
diff --git a/sampo/scheduler/topological/base.py b/sampo/scheduler/topological/base.py
index da31daa..f2fd8bc 100644
--- a/sampo/scheduler/topological/base.py
+++ b/sampo/scheduler/topological/base.py
@@ -36,7 +36,7 @@ class TopologicalScheduler(GenericScheduler):
         :param nodes: list of nodes
         :return: list of shuffled indices
         """
-        return list(nodes)
+        return sorted(nodes)
 
     # noinspection PyMethodMayBeStatic
     def _topological_sort(self,
@@ -132,7 +132,7 @@ class RandomizedTopologicalScheduler(TopologicalScheduler):
         :param nodes: list of nodes
         :return: list of shuffled indices
         """
-        nds = list(nodes)
+        nds = sorted(nodes)
         indices = np.arange(len(nds))
         self._random_state.shuffle(indices)
         return [nds[ind] for ind in indices]
-- 
2.43.0


From db4dc9edec8b0cc0cdb97201b9f91d7b79eb46a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 49/54] fix: passing a road without length takes no vehicles
 for good

---
 sampo/scheduler/timeline/hybrid_supply_timeline.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sampo/scheduler/timeline/hybrid_supply_timeline.py b/sampo/scheduler/timeline/hybrid_supply_timeline.py
index 1b1816d..da0b609 100644
--- a/sampo/scheduler/timeline/hybrid_supply_timeline.py
+++ b/sampo/scheduler/timeline/hybrid_supply_timeline.py
@@ -415,6 +415,10 @@ class HybridSupplyTimeline(BaseSupplyTimeline):
                 self._task_index += 1
 
                 res_name, res_count, start_time, end_time = res_info
+                if start_time == end_time:
+                    # roads without length are passed at once, so nothing is taken
+                    continue
+
                 res_state = res_holder_state[res_name]
                 start_idx = res_state.bisect_right(start_time)
 
-- 
2.43.0


From 6f9304d1ed4d78439dcf71a310f49f421d312775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 50/54] fix: routes may lead over roads without length

---
 sampo/schemas/landscape.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sampo/schemas/landscape.py b/sampo/schemas/landscape.py
index 047e922..9fed0cb 100644
--- a/sampo/schemas/landscape.py
+++ b/sampo/schemas/landscape.py
@@ -261,8 +261,7 @@ class LandscapeConfiguration:
         for i in range(self.lg.vertex_count):
             for u in range(self.lg.vertex_count):
                 for v in range(self.lg.vertex_count):
-                    if (dist_mx[u][i] != np.inf and dist_mx[u][i] != 0
-                            and dist_mx[i][v] != np.inf and dist_mx[i][v] != 0
+                    if (dist_mx[u][i] != np.inf and dist_mx[i][v] != np.inf
                             and dist_mx[u][i] + dist_mx[i][v] < dist_mx[u][v]):
                         dist_mx[u][v] = dist_mx[u][i] + dist_mx[i][v]
                         path_mx[u][v] = path_mx[i][v]
-- 
2.43.0


From 50ebc758bd299d71eff0d2df43c75c5b6ccd26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:21 +0000
Subject: [PATCH 51/54] fix: parallelizing local optimizer returns the
 recalculated schedule of a consistent order

It scheduled works from the finish of the project to its start, threw the recalculated times away, read an attribute that
workers don't have, and could give a team more workers than the requirement, the contractor or the specification allows.
Several schedule optimizers of one pipeline can be applied one after another.
---
 sampo/pipeline/default.py                   |  4 +-
 sampo/scheduler/utils/local_optimization.py | 60 +++++++++++++--------
 2 files changed, 41 insertions(+), 23 deletions(-)

diff --git a/sampo/pipeline/default.py b/sampo/pipeline/default.py
index 3ad610a..0c3b57e 100644
--- a/sampo/pipeline/default.py
+++ b/sampo/pipeline/default.py
@@ -323,7 +323,9 @@ class DefaultSchedulePipeline(SchedulePipeline):
     def finish(self) -> list[ScheduledProject]:
         scheduled_projects = []
         for scheduled_works, node_order in zip(self._scheduled_works, self._input._node_orders):
-            processed_sworks = self._local_optimize_stack.apply(scheduled_works, node_order)
+            processed_sworks = scheduled_works
+            for optimize, args in self._local_optimize_stack.stack:
+                processed_sworks = optimize(processed_sworks, node_order, *args)
             schedule = Schedule.from_scheduled_works(processed_sworks.values(), self._wg)
             scheduled_projects.append(ScheduledProject(self._input._wg, self._wg, self._input._contractors, schedule))
         return scheduled_projects
diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 194e5fd..51b5f36 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -153,7 +153,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         super().__init__(timeline_type)
 
     def recalc_schedule(self,
-                        node_order: Iterable[GraphNode],
+                        node_order: list[GraphNode],
                         contractors: list[Contractor],
                         landscape_config: LandscapeConfiguration,
                         spec: ScheduleSpec,
@@ -166,7 +166,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         This will be useful to call after `parallelize_local_sequence` method
         or other methods that can change the appointed set of workers.
 
-        :param node_order: scheduled works to process
+        :param node_order: scheduled works to process, from the start of the project to its finish
         :param contractors:
         :param landscape_config:
         :param spec:
@@ -179,18 +179,26 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
         timeline = self._timeline_type(worker_pool, landscape_config)
         node2swork_new: dict[GraphNode, ScheduledWork] = {}
 
-        id2contractor = build_index(contractors, attrgetter('name'))
+        id2contractor = build_index(contractors, attrgetter('id'))
 
         for index, node in enumerate(node_order):
             node_schedule = node2swork[node]
             work_spec = spec.get_work_spec(node.id)
-            # st = timeline.find_min_start_time(node, node_schedule.workers, node2swork_new)
-            # ft = st + node_schedule.get_actual_duration(work_estimator)
+            finalizing_zones = None
+
+            start_time = timeline.find_min_start_time(node, node_schedule.workers, node2swork_new, work_spec,
+                                                      assigned_parent_time, work_estimator)
+
+            if index == len(node_order) - 1:  # we are scheduling the work `end of the project`
+                finish_time, finalizing_zones = timeline.zone_timeline.finish_statuses()
+                start_time = max(start_time, finish_time)
+
             timeline.schedule(node, node2swork_new, node_schedule.workers,
-                              id2contractor[node_schedule.contractor], work_spec, None, work_spec.assigned_time,
-                              assigned_parent_time, work_estimator)
-            # node_schedule.start_end_time = (st, ft)
-            node2swork_new[node] = node_schedule
+                              id2contractor[node_schedule.contractor_id], work_spec, start_time,
+                              work_spec.assigned_time, assigned_parent_time, work_estimator)
+
+            if finalizing_zones is not None:
+                node2swork_new[node].zones_pre = finalizing_zones
 
         return node2swork_new
 
@@ -233,7 +241,7 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
             my_workers: dict[str, Worker] = build_index(my_schedule.workers, attrgetter('name'))
             my_schedule_reqs: dict[str, WorkerReq] = build_index(node.work_unit.worker_reqs, attrgetter('kind'))
 
-            new_my_workers = {}
+            my_spec_workers = spec.get_work_spec(node.id).assigned_workers
 
             # now accepted_candidates is a list of nodes that can(according to dependencies) run in parallel
             for candidate in accepted_candidates:
@@ -242,21 +250,29 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                 candidate_schedule_reqs: dict[str, WorkerReq] = build_index(candidate.work_unit.worker_reqs,
                                                                             attrgetter('kind'))
 
+                candidate_spec_workers = spec.get_work_spec(candidate.id).assigned_workers
+
+                new_my_workers: dict[str, int] = {}
                 new_candidate_workers: dict[str, int] = {}
 
                 satisfy = True
 
                 for candidate_worker in candidate_schedule.workers:
-                    my_worker = my_workers.get(candidate_worker.model_name, None)
-                    if my_worker is None:  # these two works are not compete for this worker
+                    kind = candidate_worker.name
+                    my_worker = my_workers.get(kind, None)
+                    if my_worker is None or my_worker.contractor_id != candidate_worker.contractor_id:
+                        # these two works are not compete for this worker
+                        continue
+                    if kind in my_spec_workers or kind in candidate_spec_workers:  # specified teams must not be changed
                         continue
 
-                    need_me = my_workers[candidate_worker.model_name].count
+                    available = worker_pool[kind][my_worker.contractor_id].count
+                    need_me = my_worker.count
                     need_candidate = candidate_worker.count
 
                     total = need_me + need_candidate
-                    my_req = my_schedule_reqs[candidate_worker.model_name]
-                    candidate_req = candidate_schedule_reqs[candidate_worker.model_name]
+                    my_req = my_schedule_reqs[kind]
+                    candidate_req = candidate_schedule_reqs[kind]
                     needed_min = my_req.min_count + candidate_req.min_count
 
                     if needed_min > total:  # these two works can't run in parallel
@@ -267,29 +283,29 @@ class ParallelizeScheduleLocalOptimizer(ScheduleLocalOptimizer):
                     my_worker_count = my_req.min_count
                     total -= needed_min
 
-                    add_me = min(my_req.max_count, total // 2)
-                    add_candidate = min(candidate_req.max_count, total - add_me)
+                    add_me = min(min(my_req.max_count, available) - my_worker_count, total // 2)
+                    add_candidate = min(min(candidate_req.max_count, available) - candidate_worker_count, total - add_me)
 
                     my_worker_count += add_me
                     candidate_worker_count += add_candidate
 
-                    new_my_workers[candidate_worker.model_name] = my_worker_count
-                    new_candidate_workers[candidate_worker.model_name] = candidate_worker_count
+                    new_my_workers[kind] = my_worker_count
+                    new_candidate_workers[kind] = candidate_worker_count
 
                 if satisfy:  # replacement found, apply changes and leave candidates bruteforce
                     print(f'Found! {candidate.work_unit.name} {node.work_unit.name}')
                     for worker in my_schedule.workers:
-                        worker_count = new_my_workers.get(worker.model_name, None)
+                        worker_count = new_my_workers.get(worker.name, None)
                         if worker_count is not None:
                             worker.count = worker_count
                     for worker in candidate_schedule.workers:
-                        worker_count = new_candidate_workers.get(worker.model_name, None)
+                        worker_count = new_candidate_workers.get(worker.name, None)
                         if worker_count is not None:
                             worker.count = worker_count
                     # candidate_schedule.start_time = my_schedule.start_time
                     break
 
-        return self.recalc_schedule(reversed(node_order), contractors, landscape_config, spec, scheduled_works,
+        return self.recalc_schedule(node_order, contractors, landscape_config, spec, scheduled_works,
                                     worker_pool, assigned_parent_time, work_estimator)
 
 
-- 
2.43.0


From b4ed4013e7524fd66095c39344b7a9b7dd1d28d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:20 +0000
Subject: [PATCH 52/54] fix: order optimizer keeps predecessors before
 successors when it exchanges works

The node order goes from the start of the project to its finish, the rule for candidates expected the opposite direction:
over a whole order it exchanged the start and the finish, over a part of it it never exchanged anything.
---
 sampo/scheduler/utils/local_optimization.py | 23 +++++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/sampo/scheduler/utils/local_optimization.py b/sampo/scheduler/utils/local_optimization.py
index 51b5f36..b45c327 100644
--- a/sampo/scheduler/utils/local_optimization.py
+++ b/sampo/scheduler/utils/local_optimization.py
@@ -74,19 +74,24 @@ def get_swap_candidates(node: GraphNode,
     :param node2ind: a dict from node to its index
     :param processed: a set of nodes that should not be swapped yet
     """
-    cur_children: set[GraphNode] = node.children_set
+    # order holds heads of inseparable chains only, whereas relations can be attached to any work of a chain
+    work2ind: dict[GraphNode, int] = {work: ind for head, ind in node2ind.items()
+                                      for work in head.get_inseparable_chain_with_self()}
+    # predecessors go before successors, so the node can be moved back only up to its last predecessor
+    last_parent_ind = max((work2ind[parent] for work in node.get_inseparable_chain_with_self()
+                           for parent in work.parents if work2ind.get(parent, node_index) != node_index), default=-1)
 
     def is_candidate_accepted(candidate: GraphNode) -> bool:
-        if candidate in cur_children or candidate in processed:
+        if candidate in processed:
             return False
         candidate_ind = node2ind[candidate]
-        for child in cur_children:
-            if node2ind.get(child, 0) >= candidate_ind:  # we have a child between us and candidate
-                return False
-        candidate_parents = candidate.parents
-        for parent in candidate_parents:
-            if node2ind.get(parent, 0) <= node_index:  # candidate has a parent between us and candidate
-                return False
+        if last_parent_ind >= candidate_ind:  # node has a parent between us and candidate
+            return False
+        for work in candidate.get_inseparable_chain_with_self():
+            for child in work.children:
+                # candidate has a child between us and candidate
+                if candidate_ind < work2ind.get(child, -1) <= node_index:
+                    return False
         return True
 
     return [candidate for candidate in candidates if is_candidate_accepted(candidate)]
-- 
2.43.0


From 1452eba3f50842b2c443ebe5ef2bb142bde0093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:40 +0000
Subject: [PATCH 53/54] fix: multiprocessing backend keeps the order of works
 and the specification of the first population

Node orders go from the start of the project to its finish, the reversed order made chromosomes that schedule works before
their predecessors; random individuals ignored the specification.
---
 sampo/backend/multiproc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sampo/backend/multiproc.py b/sampo/backend/multiproc.py
index 691ecd1..cdf67b2 100644
--- a/sampo/backend/multiproc.py
+++ b/sampo/backend/multiproc.py
@@ -161,7 +161,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
         def mapper(key: str):
             def randomized_init():
                 schedule, _, _, order = RandomizedTopologicalScheduler(g_work_estimator, int(g_rand.random() * 1000000)) \
-                    .schedule_with_cache(g_wg, g_contractors, landscape=g_landscape)[0]
+                    .schedule_with_cache(g_wg, g_contractors, g_spec, landscape=g_landscape)[0]
                 return schedule, order, g_spec
 
             def init_k_schedule(scheduler_class, k) -> tuple[Schedule | None, list[GraphNode] | None, ScheduleSpec | None]:
@@ -170,7 +170,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                                                                   resource_optimizer=AverageReqResourceOptimizer(k))
                                                   .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                        landscape=g_landscape))[0]
-                    return schedule, node_order[::-1], g_spec
+                    return schedule, node_order, g_spec
                 except NoSufficientContractorError:
                     return None, None, None
 
@@ -180,7 +180,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         schedule, _, _, node_order = (scheduler_class(work_estimator=g_work_estimator)
                                                       .schedule_with_cache(g_wg, g_contractors, g_spec,
                                                                            landscape=g_landscape))[0]
-                        return schedule, node_order[::-1], g_spec
+                        return schedule, node_order, g_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
@@ -190,7 +190,7 @@ class MultiprocessingComputationalBackend(DefaultComputationalBackend):
                         (schedule, _, _, node_order), modified_spec = AverageBinarySearchResourceOptimizingScheduler(
                             scheduler_class(work_estimator=g_work_estimator)
                         ).schedule_with_cache(g_wg, g_contractors, g_deadline, g_spec, landscape=g_landscape)
-                        return schedule, node_order[::-1], modified_spec
+                        return schedule, node_order, modified_spec
                     except NoSufficientContractorError:
                         return None, None, None
 
-- 
2.43.0


From 069ea639c2c17534ad1f02f349cc499ddd5ccfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:15 +0000
Subject: [PATCH 54/54] fix: decreasing a key of the priority queue keeps the
 element once

The element was searched by its new key, so it was not found and the queue got it twice.
---
 sampo/utilities/priority_queue.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sampo/utilities/priority_queue.py b/sampo/utilities/priority_queue.py
index b503ca4..bed7324 100644
--- a/sampo/utilities/priority_queue.py
+++ b/sampo/utilities/priority_queue.py
@@ -27,7 +27,12 @@ class PriorityQueue(Generic[T]):
         self._h.add((self._key_getter(new), new))
 
     def decrease_key(self, value: T):
-        self.replace(value, value)
+        # the element is kept under the key that it had before, so it can't be found by its new key
+        for index, (_, queued) in enumerate(self._h):
+            if queued is value or queued == value:
+                del self._h[index]
+                break
+        self.add(value)
 
     def __len__(self) -> int:
         return len(self._h)
-- 
2.43.0

