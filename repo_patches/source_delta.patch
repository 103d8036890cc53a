From f83ee1e866f8496e5f3a0ef8185eebee87db5e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:20 +0000
Subject: [PATCH 01/41] fix: do not order damage instances by uncomparable
 fields

Instances with the same time, skill and modifier (a DoT ticking on two
targets, one of them debuffed) made the heap compare StatusEffects and raise
TypeError; the list is sorted by time alone anyway.
---
 .../simulator/timeline_builders/damage_builder.py           | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 60fc805..87004e9 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 
 from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
 from ama_xiv_combat_sim.simulator.timeline_builders.snapshot_and_application_events import (
@@ -117,8 +116,7 @@ class DamageBuilder:
                         )
 
                     if skill.get_damage_spec(skill_modifier_to_use) is not None:
-                        heapq.heappush(
-                            q,
+                        q.append(
                             (
                                 application_time,
                                 skill,
@@ -126,7 +124,7 @@ class DamageBuilder:
                                 tuple(snapshot_status_use),
                                 event_id,
                                 target
-                            ),
+                            )
                         )
             else:
                 if snapshot_status[0] is True:
-- 
2.43.0


From c8003c1e955f8e921faf877e8c54e032e7dfad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:51 +0000
Subject: [PATCH 02/41] fix: process timed skills in time order without
 comparing skills

Two same-named skills of different jobs at the same time (e.g. LB 3,
Swiftcast) raised TypeError, and get_no_auto_periods popped from a list that
was never heapified, so skills added out of order gave wrong periods.
---
 .../timeline_builders/rotation_builder.py     | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index a5b614d..b0cbcc7 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -1,5 +1,4 @@
 import copy
-import heapq
 import math
 
 from ama_xiv_combat_sim.simulator.calcs.damage_class import DamageClass
@@ -469,6 +468,13 @@ class RotationBuilder:
                 targets,
             )
 
+    def __get_sorted_q_timed(self):
+        # Skills themselves are not comparable in general, so only their names are
+        # used to order skills used at the same time.
+        q = copy.deepcopy(self._q_timed)
+        q.sort(key=lambda x: (x[0], x[1].name))
+        return q
+
     def __process_q_timed(self):
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
         job_resource_tracker = JobResourceTracker(
@@ -478,10 +484,8 @@ class RotationBuilder:
             self._skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
 
-        q = copy.deepcopy(self._q_timed)
-        q.sort(key=lambda x: x[0])
-        while len(q) > 0:
-            (curr_t, skill, skill_modifier, job_class, targets) = heapq.heappop(q)
+        q = self.__get_sorted_q_timed()
+        for curr_t, skill, skill_modifier, job_class, targets in q:
             self.__q_button_press_timing.append(
                 [
                     curr_t,
@@ -838,7 +842,7 @@ class RotationBuilder:
         ), job_resource_tracker.compile_job_resources(curr_t, skill)
 
     def get_no_auto_periods(self):
-        q = copy.deepcopy(self._q_timed)
+        q = self.__get_sorted_q_timed()
         cast_periods = []
         se_tracker = StatusEffectTracker(self.__status_effect_priority)
         c_tracker = ChannelingTracker()
@@ -849,8 +853,7 @@ class RotationBuilder:
             self._skill_library.get_all_combo_breakers(self.__stats.job_class)
         )
 
-        while len(q) > 0:
-            (t, skill, skill_modifier, _, _) = heapq.heappop(q)
+        for t, skill, skill_modifier, _, _ in q:
             se_tracker.expire_status_effects(t)
             c_tracker.process_channeling(t, skill, skill_modifier)
             curr_buffs_and_skill_modifier = se_tracker.compile_buffs(t, skill)
-- 
2.43.0


From 34113eb11f91188704759d83420d42a85285bb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:20 +0000
Subject: [PATCH 03/41] fix: do not rescale the caller's downtime_windows dict

Building a second RotationBuilder with the same dict put its windows 1000
times too late.
---
 .../simulator/timeline_builders/rotation_builder.py         | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index b0cbcc7..7fac34a 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -96,10 +96,12 @@ class RotationBuilder:
                 downtime_windows
             )
         else:
-            for target, downtime_windows_use in downtime_windows.items():
-                downtime_windows[target] = RotationBuilder.__do_init_downtime_windows(
+            downtime_windows = {
+                target: RotationBuilder.__do_init_downtime_windows(
                     downtime_windows_use
                 )
+                for target, downtime_windows_use in downtime_windows.items()
+            }
         return downtime_windows
 
     def __process_downtime_windows(self):
-- 
2.43.0


From 32bab6b8db6b52f51dcf22a7e9b04cc238fd5adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:05 +0000
Subject: [PATCH 04/41] fix: rebuild the timeline from scratch on every
 get_skill_timing call

DoT applications and main-target timestamps of earlier builds were kept, and
downtime windows given as a tuple were only expanded for the targets known at
the first build, so adding skills after a build gave a different timeline than
adding them before it.
---
 .../timeline_builders/rotation_builder.py     | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 7fac34a..21f0429 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -72,7 +72,6 @@ class RotationBuilder:
             downtime_windows
         )
         self.__default_target = default_target
-        self.__all_targets = set()
 
     @staticmethod
     def __do_init_downtime_windows(downtime_windows):
@@ -104,12 +103,10 @@ class RotationBuilder:
             }
         return downtime_windows
 
-    def __process_downtime_windows(self):
+    def __get_downtime_windows(self, target):
         if isinstance(self.__downtime_windows, tuple):
-            res = {}
-            for k in self.__all_targets:
-                res[k] = self.__downtime_windows
-            self.__downtime_windows = res
+            return self.__downtime_windows
+        return self.__downtime_windows.get(target, tuple())
 
     def get_button_press_timing(self):
         res = copy.deepcopy(self.__q_button_press_timing)
@@ -128,10 +125,7 @@ class RotationBuilder:
         assert isinstance(
             targets, str
         ), "'targets' must be specified as a comma-separate string. Perhaps you made it a tuple? Got: {targets}"
-        all_targets = tuple(x.strip() for x in targets.split(","))
-        for target in all_targets:
-            self.__all_targets.add(target)
-        return all_targets
+        return tuple(x.strip() for x in targets.split(","))
 
     @staticmethod
     def _print_q(q):
@@ -701,7 +695,7 @@ class RotationBuilder:
         return res
 
     def __filter_by_downtime_range_and_damage_class(self, t, target, damage_class):
-        for r in self.__downtime_windows.get(target, tuple()):
+        for r in self.__get_downtime_windows(target):
             # None indicates filtering all damage types
             is_filtered_damage_type = (r[2] is None) or (r[2] == damage_class)
             if (r[0] <= t < r[1]) and is_filtered_damage_type:
@@ -764,9 +758,9 @@ class RotationBuilder:
         # Each downtime range is the semi-open interval [start_time, end_time). In other
         # words, boss cannot be hit at start_time, but can be hit immediately at end_time.
         # Windows are assumed to be non-overlapping.
-        self.__process_downtime_windows()
-
         self._q_snapshot_and_applications = SnapshotAndApplicationEvents()
+        self._q_dot_skills = {}
+        self.__timestamps_and_main_target = []
         self.__q_button_press_timing.clear()
         self.__process_q_sequence()
         self.__process_q_timed()
@@ -901,7 +895,7 @@ class RotationBuilder:
 
     # This is only called during a downtime window.
     def forward_to_next_non_downtime_time(self, snapshot_time, auto_target):
-        for r in self.__downtime_windows.get(auto_target, tuple()):
+        for r in self.__get_downtime_windows(auto_target):
             if r[0] <= snapshot_time < r[1] and (
                 r[2] is None or r[2] == DamageClass.AUTO
             ):
-- 
2.43.0


From 06f13dbf0e3cb87c853883033868613e6e0a2bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:17 +0000
Subject: [PATCH 05/41] fix: start every get_damage_instances call with fresh
 trackers

Reusing a DamageBuilder carried the status effects, job resources and combos of
the previous timeline over into the next one.
---
 .../simulator/timeline_builders/damage_builder.py          | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 87004e9..5c1673f 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -23,9 +23,12 @@ class DamageBuilder:
         self.__status_effect_priority = skill_library.get_status_effect_priority(
             stats.job_class
         )
+        self.__init_trackers()
+
+    def __init_trackers(self):
         self.se = StatusEffectTracker(self.__status_effect_priority)
         self.job_resource_tracker = JobResourceTracker(
-            self.__skill_library.get_all_resource_settings(stats.job_class)
+            self.__skill_library.get_all_resource_settings(self.__stats.job_class)
         )
         self.combo_tracker = ComboTracker(
             self.__skill_library.get_all_combo_breakers(self.__stats.job_class)
@@ -40,6 +43,8 @@ class DamageBuilder:
     def get_damage_instances(
         self, q_snapshot_and_applications: SnapshotAndApplicationEvents
     ):
+        # do not let buffs, resources, or combos of a previous timeline leak into this one
+        self.__init_trackers()
         q = []  # (current_time, skill, skill_modifier, (buffs, debuffs), job_resources)
         while not q_snapshot_and_applications.is_empty():
             [
-- 
2.43.0


From 49d3358042e69fbb7f994a448b4c4f83680bfb9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:53 +0000
Subject: [PATCH 06/41] fix: allow simulating a rotation without damage
 instances

The expected damage of an empty timeline raised AxisError.
---
 ama_xiv_combat_sim/simulator/damage_simulator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index b066f37..aec0d72 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -203,6 +203,8 @@ class DamageSimulator:
         
         #damage_ranges[i]: (string to identify crit/dh status, low damage, high damage, probability)
         damage_ranges = self.__damage_tracker.get_damage_ranges_and_probabilities()
+        if len(damage_ranges) == 0:
+            return [], []
 
         all_probs = np.asarray(
             list(get_all_probs(damage_ranges[i]) for i in range(0, len(damage_ranges)))
-- 
2.43.0


From 5c4c7f31b45e6bd66e877e91b684a946d2f5e4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:05 +0000
Subject: [PATCH 07/41] fix: do not crash on autos when no skill deals damage

---
 .../simulator/timeline_builders/rotation_builder.py    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 21f0429..64849c8 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -925,6 +925,11 @@ class RotationBuilder:
                 res.append(seq[i])
             return res
 
+        first_damage_time = self._q_snapshot_and_applications.get_first_damage_time()
+        if first_damage_time is None:
+            # the fight never starts, so there is nothing to auto-attack.
+            return
+
         timestamps_and_main_target = copy.deepcopy(self.__timestamps_and_main_target)
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
@@ -942,9 +947,8 @@ class RotationBuilder:
         if last_event_time is None:
             last_event_time = self._q_snapshot_and_applications.get_last_event_time()
 
-        snapshot_time = (
-            self._q_snapshot_and_applications.get_first_damage_time()
-        )  # autos do not have cast times, so snapshot time should be immediate
+        # autos do not have cast times, so snapshot time should be immediate
+        snapshot_time = first_damage_time
         application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
         auto_target_ind = 0
-- 
2.43.0


From 1fcd3719b0d5d3fb79af932585a06e36804e604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:32 +0000
Subject: [PATCH 08/41] fix: compute example rotation stats at the rotation's
 level

Stats defaults to level 90, so level 100 example rotations mixed level 100
skills with level 90 constants.
---
 ama_xiv_combat_sim/example_rotations/specific_rotations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ama_xiv_combat_sim/example_rotations/specific_rotations.py b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
index 6de4cf3..01e6894 100644
--- a/ama_xiv_combat_sim/example_rotations/specific_rotations.py
+++ b/ama_xiv_combat_sim/example_rotations/specific_rotations.py
@@ -62,6 +62,7 @@ class SpecificRotations:
             ),
             job_class=job_class,
             version=self.version,
+            level=self.level,
         )
         return stats
 
-- 
2.43.0


From 1a1c2d3b975d60cb580a82a2035623d80356e0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:44 +0000
Subject: [PATCH 09/41] fix: add a party skill with a modifier once, not twice

---
 ama_xiv_combat_sim/example_rotations/example_rotation_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
index ddc847c..c80cd54 100644
--- a/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
+++ b/ama_xiv_combat_sim/example_rotations/example_rotation_utils.py
@@ -26,7 +26,8 @@ class ExampleRotationUtils:
                 rb.add(
                     t, skill_name, skill_modifier=skill_modifier, job_class=job_class
                 )
-            rb.add(t, skill_name, job_class=job_class)
+            else:
+                rb.add(t, skill_name, job_class=job_class)
 
         for sk in skills:
             rb.add_next(sk)
-- 
2.43.0


From a836b07da92ec79dd6fed087a393c3a9f6f2bbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:56 +0000
Subject: [PATCH 10/41] fix: find the LB damage among several conditions

The conditions of a skill are an unordered set, and the LB damage was only found
if it happened to come first (eg, not always for an LB on several targets).
---
 ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
index acfb42e..4f7e8f0 100644
--- a/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
+++ b/ama_xiv_combat_sim/kill_time_estimator/kill_time_estimator.py
@@ -32,7 +32,8 @@ class KillTimeEstimator():
   def process_damage_for_lb_usage(damage_matrix, per_skill_damage):
     for i in range(0, len(per_skill_damage)):
       if 'LB' in per_skill_damage[i].skill_name:
-        condition = ",".join(per_skill_damage[i].skill_modifier_condition)
+        # put the LB damage first; other conditions (eg, "Target 2") may be present too.
+        condition = ",".join(sorted(per_skill_damage[i].skill_modifier_condition, key=lambda x: not x.startswith((SimConsts.LB_MEAN_DAMAGE, SimConsts.LB_EXACT_DAMAGE))))
         damage_matrix[i,:] = KillTimeEstimator.get_lb_damage(condition, damage_matrix.shape[1])
     return damage_matrix
 
-- 
2.43.0


From 92c11e79d5779f7a68d74c1691979e281b640fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:06 +0000
Subject: [PATCH 11/41] fix: expire job resources that were last gained at time
 0

---
 ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index a47145d..9ae9a05 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -80,7 +80,7 @@ class JobResourceTracker:
                 total_resource = max(0, total_resource)
 
             if (
-                last_refresh_time
+                last_refresh_time is not None
                 and last_refresh_time + job_resource_config.expiry_from_last_gain
                 < curr_t
             ):
-- 
2.43.0


From 977535f4dfc89173b063d550c1ac430a6f07b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:18 +0000
Subject: [PATCH 12/41] fix: ignore trailing dots when the last event is at
 time 0

---
 .../simulator/timeline_builders/rotation_builder.py             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 64849c8..6b3b228 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -385,7 +385,7 @@ class RotationBuilder:
                     for application_time in range(
                         dot_start_time, dot_end_time, GameConsts.DOT_TICK_INTERVAL
                     ):
-                        if (last_event_time) and (application_time > last_event_time):
+                        if (last_event_time is not None) and (application_time > last_event_time):
                             continue
                         priority = Utils.transform_time_to_prio(
                             parent_snapshot_time
-- 
2.43.0


From a88d56fc4e3780016265798c484a9a7bebc1ffac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:29 +0000
Subject: [PATCH 13/41] fix: apply the aoe dropoff to the 10th target too

---
 ama_xiv_combat_sim/simulator/skills/skill.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index bd8aa12..9bd31c1 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -58,7 +58,7 @@ class Skill:
             damage_spec = {SimConsts.DEFAULT_CONDITION: damage_spec}
         keys = tuple(damage_spec.keys())
         for key in keys:
-            for target_num in range(2, 10):  # max of 10 targets
+            for target_num in range(2, 11):  # max of 10 targets
                 if len(key) > 0:
                     new_key = f"{key}, Target {target_num}"
                 else:
-- 
2.43.0


From d9d9e33524c20759cf2c0b4783461cd795781c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 14/41] fix: look for status effects in every follow up skill

Only the first follow up of a tuple was considered, so a skill whose buff or
debuff comes from a later follow up was flagged as having none.
---
 ama_xiv_combat_sim/simulator/skills/skill.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/skill.py b/ama_xiv_combat_sim/simulator/skills/skill.py
index 9bd31c1..ac379c5 100644
--- a/ama_xiv_combat_sim/simulator/skills/skill.py
+++ b/ama_xiv_combat_sim/simulator/skills/skill.py
@@ -106,7 +106,7 @@ class Skill:
                 for follow_up in self.follow_up_skills:
                     if getattr(follow_up.skill, spec_to_use) is not None:
                         res = True
-                    break
+                        break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
@@ -144,7 +144,7 @@ class Skill:
                                 break
                     elif sp is not None and sp.is_party_effect:
                         res = True
-                    break
+                        break
             elif isinstance(self.follow_up_skills, dict):
                 for _, follow_ups in self.follow_up_skills.items():
                     for follow_up in follow_ups:
-- 
2.43.0


From 3c3044e7bc6ddbab2fe1a7fd0152887914f08665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:13 +0000
Subject: [PATCH 15/41] fix: process the hits on later targets in time order

The staggered hits of a multi-target skill kept the priority of the first hit,
so they were processed too early, expiring status effects that other events
before them should still have seen.
---
 .../simulator/timeline_builders/damage_builder.py           | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
index 5c1673f..8999bb2 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/damage_builder.py
@@ -198,8 +198,12 @@ class DamageBuilder:
                         skill_modifier_to_use.add_to_condition(
                             skill_modifier_from_debuffs
                         )
+                    # later targets are hit later, and must be processed then
                     q_snapshot_and_applications.add(
-                        new_priority,
+                        new_priority
+                        + Utils.transform_time_to_prio(
+                            application_time - event_times.secondary
+                        ),
                         application_time,
                         None,
                         skill,
-- 
2.43.0


From a9baf2bbfdcdf41206b2f716201e9fb3ab1371f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:25 +0000
Subject: [PATCH 16/41] fix: respect downtime windows for the staggered hits on
 later targets

The hit on the n-th target lands later than the one on the first target, but
the downtime windows were checked against the time of the first hit.
---
 .../simulator/timeline_builders/rotation_builder.py        | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 6b3b228..5ef171b 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -726,9 +726,14 @@ class RotationBuilder:
             all_valid_targets = []
             for target in targets:
                 skill_damage_spec = skill.get_damage_spec(skill_modifier)
+                # targets after the first one are hit with some delay
+                target_application_time = (
+                    application_time
+                    + len(all_valid_targets) * GameConsts.MULTI_TARGET_DELAY_PER_TARGET
+                )
                 if skill_damage_spec is not None and (
                     self.__filter_by_downtime_range_and_damage_class(
-                        application_time, target, skill_damage_spec.damage_class
+                        target_application_time, target, skill_damage_spec.damage_class
                     )
                     or self.__filter_by_downtime_range_and_damage_class(
                         snapshot_time, target, skill_damage_spec.damage_class
-- 
2.43.0


From e2e1662bcb1a02b7418b2ba25725da7cd66528d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:44 +0000
Subject: [PATCH 17/41] fix: default to the level cap of the skill library's
 version

create_skill_library(), as used in the README, asked for level 100 skills in
6.55, where they do not exist, and crashed.
---
 ama_xiv_combat_sim/simulator/skills/create_skill_library.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/skills/create_skill_library.py b/ama_xiv_combat_sim/simulator/skills/create_skill_library.py
index 920f973..c224dff 100644
--- a/ama_xiv_combat_sim/simulator/skills/create_skill_library.py
+++ b/ama_xiv_combat_sim/simulator/skills/create_skill_library.py
@@ -19,7 +19,10 @@ import ama_xiv_combat_sim.simulator.game_data.generic_skills.add_generic_skills_
 from ama_xiv_combat_sim.simulator.skills.skill_library import SkillLibrary
 
 
-def create_skill_library(version="6.55", level=100):
+def create_skill_library(version="6.55", level=None):
+    if level is None:
+        # the level cap of the given version
+        level = 100 if version >= "7.0" else 90
     skill_library = SkillLibrary(version, level)
     skill_library = add_tank_skills_to_skill_library(skill_library)
     skill_library = add_healer_skills_to_skill_library(skill_library)
-- 
2.43.0


From d97556b50591f8168b03938d83cc3dec67c86082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:04 +0000
Subject: [PATCH 18/41] fix: use the auto's own skill to find the haste
 applying to it

The loop over earlier speed effects rebound the skill, so the allow and deny
lists were checked against the last haste skill instead of the auto, and
conditional haste effects were resolved without their conditions.
---
 .../simulator/timeline_builders/rotation_builder.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 5ef171b..610b477 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -814,12 +814,12 @@ class RotationBuilder:
                 if event_times.secondary is not None
                 else event_times.primary
             )
-            res.append((application_time, skill))
+            res.append((application_time, skill, skill_modifier))
         res.sort(key=lambda x: x[0])
         return res
 
     def __get_applicable_status_effects(
-        self, speed_status_effects_timeline, curr_t, skill, skill_modifier, targets
+        self, speed_status_effects_timeline, curr_t, skill, targets
     ):
         applicable_status_effect_events = list(
             filter(lambda x: x[0] <= curr_t, speed_status_effects_timeline)
@@ -829,10 +829,12 @@ class RotationBuilder:
             self._skill_library.get_all_resource_settings(self.__stats.job_class)
         )
 
-        for t, skill in applicable_status_effect_events:
+        for t, speed_skill, speed_skill_modifier in applicable_status_effect_events:
             se_tracker.expire_status_effects(t)
-            se_tracker.add_to_status_effects(t, skill, skill_modifier, targets)
-            job_resource_tracker.add_resource(t, skill, skill_modifier)
+            se_tracker.add_to_status_effects(
+                t, speed_skill, speed_skill_modifier, targets
+            )
+            job_resource_tracker.add_resource(t, speed_skill, speed_skill_modifier)
 
         se_tracker.expire_status_effects(curr_t)
         curr_buffs_and_skill_modifier = se_tracker.compile_buffs(curr_t, skill)
@@ -984,7 +986,6 @@ class RotationBuilder:
                 speed_status_effects_timeline,
                 snapshot_time,
                 auto_skill,
-                SkillModifier(),
                 targets=(self.__default_target,),
             )
 
-- 
2.43.0


From d1830a1c8b11d3dd52c76d7e0bcc3dbb29c311ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:27 +0000
Subject: [PATCH 19/41] fix: end the haste of autos when its status effect is
 removed

Skills that remove status effects (eg, Death) were not considered when computing
the delay between autos.
---
 .../simulator/timeline_builders/rotation_builder.py            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 610b477..8c6c0b9 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -800,6 +800,9 @@ class RotationBuilder:
                 buff_spec.auto_attack_delay_reduction > 0
                 or buff_spec.haste_time_reduction > 0
                 or buff_spec.flat_cast_time_reduction > 0
+                # these end speed effects
+                or buff_spec.clear_all_status_effects
+                or len(buff_spec.expires_status_effects) > 0
             )
             debuff_spec_has_speed = debuff_spec is not None and (
                 debuff_spec.auto_attack_delay_reduction > 0
-- 
2.43.0


From 4cfeccfa663ee1f68280f79819834412f04ec66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:27 +0000
Subject: [PATCH 20/41] fix: do not lose a millisecond converting
 speed-adjusted times

int(1000 * 2.03) is 2029, which then truncates to a 2.02 s GCD.
---
 ama_xiv_combat_sim/simulator/calcs/stat_fns.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
index fa12894..94ee5b3 100644
--- a/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
+++ b/ama_xiv_combat_sim/simulator/calcs/stat_fns.py
@@ -11,8 +11,7 @@ class StatFns:
 
         tmp = np.ceil(speed_const * (level_sub - speed_stat) / level_div)
         tmp2 = t_ms * (1000 + tmp) / 10000
-        tmp3 = np.floor(tmp2) / 100
-        return int(1000 * tmp3)
+        return 10 * int(np.floor(tmp2))
 
     @staticmethod
     def get_crit_stats(crit_stat, version, level=90):
-- 
2.43.0


From 233a8de20240e967d8c5200dc5a69f45015221d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:26 +0000
Subject: [PATCH 21/41] fix: resume autos after downtime at the right time

Downtime windows are relative to the first damage instance unless a fight start
time is given, but autos were moved out of them as if they were relative to the
first skill, delaying or losing autos outside of the windows.
---
 .../simulator/timeline_builders/rotation_builder.py  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 8c6c0b9..5426a32 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -912,8 +912,11 @@ class RotationBuilder:
                 return r[1]
         return snapshot_time
 
-    def __get_next_auto_time(self, t, no_auto_periods, auto_target):        
-        t = self.forward_to_next_non_downtime_time(t, auto_target)
+    # fight_offset is the time at which the fight starts; downtime windows are relative to it.
+    def __get_next_auto_time(self, t, no_auto_periods, auto_target, fight_offset):
+        t = fight_offset + self.forward_to_next_non_downtime_time(
+            t - fight_offset, auto_target
+        )
         intersecting_no_auto_periods = list(
             filter(lambda x: (x[0] <= t) and (x[1] >= t), no_auto_periods)
         )
@@ -1005,7 +1008,10 @@ class RotationBuilder:
             )
             no_auto_periods = self.get_no_auto_periods()
             snapshot_time = self.__get_next_auto_time(
-                snapshot_time, no_auto_periods, auto_target
+                snapshot_time,
+                no_auto_periods,
+                auto_target,
+                first_damage_time if self.__fight_start_time is None else 0,
             )
             application_time = snapshot_time + auto_skill.timing_spec.application_delay
 
-- 
2.43.0


From 46f8993b312400163baeb2fa772816cbd902a83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:20:45 +0000
Subject: [PATCH 22/41] fix: cap crit and direct hit rates at 100%

---
 .../simulator/calcs/compute_damage_utils.py            | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py b/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
index 1bbe510..99bdfe3 100644
--- a/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
+++ b/ama_xiv_combat_sim/simulator/calcs/compute_damage_utils.py
@@ -118,10 +118,11 @@ class ComputeDamageUtils:
         elif forced_no_dh:
             dh_rate = 0
         else:
-            dh_rate = (
+            dh_rate = min(
                 stats.processed_stats.dh_rate
                 + status_effects[0].dh_rate_add
-                + status_effects[1].dh_rate_add
+                + status_effects[1].dh_rate_add,
+                1,
             )
 
         crit_bonus = stats.processed_stats.crit_bonus
@@ -130,10 +131,11 @@ class ComputeDamageUtils:
         elif forced_no_crit:
             crit_rate = 0
         else:
-            crit_rate = (
+            crit_rate = min(
                 stats.processed_stats.crit_rate
                 + status_effects[0].crit_rate_add
-                + status_effects[1].crit_rate_add
+                + status_effects[1].crit_rate_add,
+                1,
             )
 
         return (dh_rate, crit_rate, crit_bonus)
-- 
2.43.0


From 78395379180d58edf0acbc622ead646251f098b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:46 +0000
Subject: [PATCH 23/41] fix: do not lose a millisecond converting the time of a
 skill use

int(1000 * 2.01) is 2009, so a skill used at 2.01 s was used at 2.009 s.
---
 .../simulator/timeline_builders/rotation_builder.py           | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 5426a32..51707e8 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -170,7 +170,9 @@ class RotationBuilder:
         skill = self._skill_library.get_skill(skill_name, job_class)
         if skill_modifier is None:
             skill_modifier = self.get_default_skill_modifier(skill, job_class)            
-        self._q_timed.append((int(1000 * t), skill, skill_modifier, job_class, targets))
+        self._q_timed.append(
+            (int(round(1000 * t)), skill, skill_modifier, job_class, targets)
+        )
 
     @staticmethod
     def __follow_up_is_dot(follow_up_skill):
-- 
2.43.0


From 91afba3f739d742fd93bf25a924d150653aaa0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:19 +0000
Subject: [PATCH 24/41] fix: convert downtimes, weapon delay and dot offset to
 ms without float error

1000 * 4.03 is 4030.0000000000005, so a downtime window ending at 4.03 s also
removed a hit at 4.03 s, and int(1000 * 2.01) is 2009.
---
 .../simulator/timeline_builders/rotation_builder.py    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 51707e8..8bc04fe 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -80,8 +80,8 @@ class RotationBuilder:
         # convert to ms
         for i, downtime_window in enumerate(downtime_windows):
             downtime_window = list(downtime_window)
-            downtime_window[0] *= 1000
-            downtime_window[1] *= 1000
+            downtime_window[0] = round(1000 * downtime_window[0])
+            downtime_window[1] = round(1000 * downtime_window[1])
             if len(downtime_window) < 3:
                 downtime_window.append(None)
 
@@ -372,7 +372,9 @@ class RotationBuilder:
                     else:
                         shave_off = (
                             _dot_start_time
-                            - 1000 * self.__snap_dots_to_server_tick_starting_at
+                            - round(
+                                1000 * self.__snap_dots_to_server_tick_starting_at
+                            )
                         ) % GameConsts.DOT_TICK_INTERVAL
                         if (
                             shave_off <= 1e-6
@@ -949,7 +951,7 @@ class RotationBuilder:
         timestamps_and_main_target.sort(key=lambda x: x[0])
         timestamps_and_main_target = shorten_sequence(timestamps_and_main_target)
                 
-        weapon_delay = int(1000 * self.__stats.weapon_delay)  # convert to ms
+        weapon_delay = round(1000 * self.__stats.weapon_delay)  # convert to ms
 
         if self._skill_library.has_skill("Shot", self.__stats.job_class):
             auto_skill = self._skill_library.get_skill("Shot", self.__stats.job_class)
-- 
2.43.0


From 31f624b14e1baea13415b3fa70fd5ee667b53c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:24 +0000
Subject: [PATCH 25/41] fix: do not lose 10 ms to float error when truncating
 hasted times

2500 * (0.96 * 0.85) is 2039.9999999999998, which truncated to 2030 instead of 2040.
---
 ama_xiv_combat_sim/simulator/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/utils.py b/ama_xiv_combat_sim/simulator/utils.py
index 4a7139b..1e095a2 100644
--- a/ama_xiv_combat_sim/simulator/utils.py
+++ b/ama_xiv_combat_sim/simulator/utils.py
@@ -34,7 +34,8 @@ class Utils:
     @staticmethod
     def truncate_to_digit(x, digit_to_round_to):
         modifier = math.pow(10, digit_to_round_to - 1)
-        return int(modifier * np.floor(x / modifier))
+        # allow some tolerance for floating point precision
+        return int(modifier * np.floor(x / modifier + 1e-9))
 
     @staticmethod
     def canonicalize_condition(condition):
-- 
2.43.0


From 913bf6224893070dd6a9157266a687e7173872ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:07 +0000
Subject: [PATCH 26/41] fix: count the damage snapshotted exactly at the
 timestamp

1000 * (1001 / 1000) is 1000.9999999999999, so the total at the last snapshot could
miss the last snapshot itself.
---
 .../rotation_analysis/rotation_analysis_utils.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
index 062ab08..09af1a0 100644
--- a/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
+++ b/ama_xiv_combat_sim/rotation_analysis/rotation_analysis_utils.py
@@ -11,7 +11,8 @@ class RotationAnalysisUtils:
 
     @staticmethod
     def get_all_damage_snapshots_before_timestamp(per_skill_damage, timestamp_in_s):
-        timestamp = 1000 * timestamp_in_s
+        # round to not miss snapshots at the timestamp due to float error
+        timestamp = round(1000 * timestamp_in_s, 3)
         res = 0
         for sk in per_skill_damage:
             if sk.snapshot_time <= timestamp:
-- 
2.43.0


From d53ac0a7c985165dcf6113f665ad88d8bce789eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:18 +0000
Subject: [PATCH 27/41] fix: simulate fights with more than 5000 damage
 instances

---
 .../simulator/damage_simulator.py             |  2 +-
 .../simulator/trackers/damage_tracker.py      | 26 +++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index aec0d72..957b141 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -37,7 +37,7 @@ class DamageSimulator:
         # defensively sort
         self.__dmg_instances.sort(key=lambda x: x[0])
         self.__stats = stats
-        self.__damage_tracker = DamageTracker()
+        self.__damage_tracker = DamageTracker(len(self.__dmg_instances))
         start_time = time.time()
         self.__damage_matrix = None
 
diff --git a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
index 8ce6891..508b9f6 100644
--- a/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/damage_tracker.py
@@ -4,23 +4,23 @@ from ama_xiv_combat_sim.simulator.game_data.game_consts import GameConsts
 
 
 class DamageTracker:
-    def __init__(self):
-        self.base_damage = np.zeros((5000, 1))
-        self.crit_rate = np.zeros((5000, 1))
-        self.crit_bonus = np.zeros((5000, 1))
-        self.dh_rate = np.zeros((5000, 1))
-        self.trait_damage_mult = np.zeros((5000, 1))
-        self.damage_mult = np.ones((5000, 1))
-        self.time = np.zeros(5000)
-        self.potency = np.zeros(5000)
-        self.skill_modifier_condition = [""] * 5000
-        self.status_effects = [""] * 5000
-        self.damage_classes = [""] * 5000
+    def __init__(self, max_damage_instances=5000):
+        self.base_damage = np.zeros((max_damage_instances, 1))
+        self.crit_rate = np.zeros((max_damage_instances, 1))
+        self.crit_bonus = np.zeros((max_damage_instances, 1))
+        self.dh_rate = np.zeros((max_damage_instances, 1))
+        self.trait_damage_mult = np.zeros((max_damage_instances, 1))
+        self.damage_mult = np.ones((max_damage_instances, 1))
+        self.time = np.zeros(max_damage_instances)
+        self.potency = np.zeros(max_damage_instances)
+        self.skill_modifier_condition = [""] * max_damage_instances
+        self.status_effects = [""] * max_damage_instances
+        self.damage_classes = [""] * max_damage_instances
         self.it = 0
         self.is_finalized = False
 
         # for debugging
-        self.base_damage = np.zeros((5000, 1))
+        self.base_damage = np.zeros((max_damage_instances, 1))
 
     def add_damage(
         self,
-- 
2.43.0


From cb4fbfd0f6a46fa544ff591429bcf184fb6c80a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:09 +0000
Subject: [PATCH 28/41] fix: use the version's potency of DRG Starcross

---
 .../simulator/game_data/class_skills/melee/drg.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/drg.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/drg.py
index 2fdafea..97137d3 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/drg.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/drg.py
@@ -766,7 +766,7 @@ class DrgSkills(GenericJobClass):
         return Skill(
             name=name,
             is_GCD=False,
-            damage_spec=DamageSpec(potency=700),
+            damage_spec=DamageSpec(potency=self._skill_data.get_potency(name)),
             timing_spec=TimingSpec(
                 base_cast_time=0, animation_lock=600, application_delay=980
             ),
-- 
2.43.0


From 0e1b9852f6664a4703a2e76f9ff42ae4fd32935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:19 +0000
Subject: [PATCH 29/41] fix: combo Enchanted Moulinet Trois from Enchanted
 Moulinet Deux

---
 .../simulator/game_data/class_skills/caster/rdm.py            | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/rdm.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/rdm.py
index 7d355fc..5146d5d 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/rdm.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/rdm.py
@@ -840,7 +840,9 @@ class RdmSkills(GenericJobClass):
         return Skill(
             name=name,
             is_GCD=True,
-            combo_spec=(ComboSpec(combo_group=1, combo_actions=("Enchanted Deux",)),),
+            combo_spec=(
+                ComboSpec(combo_group=1, combo_actions=("Enchanted Moulinet Deux",)),
+            ),
             damage_spec=DamageSpec(potency=self._skill_data.get_potency(name)),
             timing_spec=TimingSpec(
                 base_cast_time=0,
-- 
2.43.0


From d4cf82757b658177e3fa5b5d7961e0c6c8e1a1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:34 +0000
Subject: [PATCH 30/41] fix: keep the Astral Fire and Umbral Ice of a Sharpcast
 Fire

---
 .../simulator/game_data/class_skills/caster/blm.py              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm.py
index 8e7b212..fe040d3 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm.py
@@ -475,7 +475,7 @@ class BlmSkills(GenericJobClass):
                 assembled_str = (
                     "Sharpcast"
                     if k == SimConsts.DEFAULT_CONDITION
-                    else "{k}, Sharpcast"
+                    else f"{k}, Sharpcast"
                 )
                 fire_damage_spec[assembled_str] = fire_damage_spec[k]
                 fire_timing_spec[assembled_str] = fire_timing_spec[k]
-- 
2.43.0


From d29360844b289b34f93ce08bff747a89a1405fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:01 +0000
Subject: [PATCH 31/41] fix: let other jobs use Radiant Finale as a buff

---
 .../simulator/game_data/class_skills/ranged/brd.py               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py
index 990b32f..b8618ec 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/brd.py
@@ -1101,6 +1101,7 @@ class BrdSkills(GenericJobClass):
                 if self._level >= 100
                 else tuple()
             ),
+            off_class_default_condition="Buff Only",
         )
 
     @GenericJobClass.is_a_skill
-- 
2.43.0


From 4db33b5685a9d35b15c14d78319bb50a7ad417f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:09 +0000
Subject: [PATCH 32/41] fix: a dancer's Finishing Move only buffs the other
 jobs

---
 .../simulator/game_data/class_skills/ranged/dnc.py   | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/dnc.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/dnc.py
index 9cfc8e6..3540e39 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/dnc.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/ranged/dnc.py
@@ -716,11 +716,15 @@ class DncSkills(GenericJobClass):
                 gcd_base_recast_time=1500,
                 affected_by_speed_stat=False,
             ),
-            follow_up_skills=(
-                finishing_move_damage_follow_up,
-                self.__get_standard_finish2_follow_up(),
-            ),
+            follow_up_skills={
+                SimConsts.DEFAULT_CONDITION: (
+                    finishing_move_damage_follow_up,
+                    self.__get_standard_finish2_follow_up(),
+                ),
+                "Buff Only": (self.__get_standard_finish2_follow_up(),),
+            },
             has_aoe=True,
+            off_class_default_condition="Buff Only",
         )
 
     @GenericJobClass.is_a_skill
-- 
2.43.0


From f5f3acd7a0115e3ada3d08d5b3eb4a3bd45451d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:55 +0000
Subject: [PATCH 33/41] fix: a death also breaks the combos seen while laying
 out the rotation

---
 .../game_data/generic_skills/add_generic_skills_to_library.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/game_data/generic_skills/add_generic_skills_to_library.py b/ama_xiv_combat_sim/simulator/game_data/generic_skills/add_generic_skills_to_library.py
index 562ff1d..a5d35d5 100644
--- a/ama_xiv_combat_sim/simulator/game_data/generic_skills/add_generic_skills_to_library.py
+++ b/ama_xiv_combat_sim/simulator/game_data/generic_skills/add_generic_skills_to_library.py
@@ -50,6 +50,7 @@ def __get_death():
     res = Skill(
         name=name,
         is_GCD=False,
+        combo_spec=(ComboSpec(break_all_combos_only=True),),
         timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, application_delay=0),
         follow_up_skills=(
             clear_all_status_effects_followup,
@@ -75,6 +76,7 @@ def __get_weakness():
     res = Skill(
         name=name,
         is_GCD=False,
+        combo_spec=(ComboSpec(break_all_combos_only=True),),
         timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, application_delay=0),
         follow_up_skills=(
             clear_all_status_effects_followup,
@@ -103,6 +105,7 @@ def __get_brink():
     res = Skill(
         name=name,
         is_GCD=False,
+        combo_spec=(ComboSpec(break_all_combos_only=True),),
         timing_spec=TimingSpec(base_cast_time=0, animation_lock=0, application_delay=0),
         follow_up_skills=(
             clear_all_status_effects_followup,
-- 
2.43.0


From 7e705a1c28814851f55181a5243c5682ba574114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:46 +0000
Subject: [PATCH 34/41] fix: a hit that always deals the same damage does not
 turn the variance into nan

---
 ama_xiv_combat_sim/simulator/damage_simulator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/damage_simulator.py b/ama_xiv_combat_sim/simulator/damage_simulator.py
index 957b141..2f99ba2 100644
--- a/ama_xiv_combat_sim/simulator/damage_simulator.py
+++ b/ama_xiv_combat_sim/simulator/damage_simulator.py
@@ -221,7 +221,8 @@ class DamageSimulator:
         # See: law of total variance, variance of a uniform
         unexplained_variances = np.sum(all_probs * np.power(all_diffs, 2), axis=1)/12
         explained_variances = np.sum(all_probs*np.power(all_means, 2), axis=1) - np.power(np.sum(all_probs*all_means,axis=1), 2)
-        variances = unexplained_variances + explained_variances
+        # rounding can leave the variance of a hit that is always the same just below 0
+        variances = np.maximum(unexplained_variances + explained_variances, 0)
     
         return list(expected_damage), list(variances)
 
-- 
2.43.0


From 384bab82ac6eba2704d571b7610494a0938259b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:19 +0000
Subject: [PATCH 35/41] fix: a gain on an empty job gauge starts its expiry
 anew

---
 .../simulator/trackers/job_resource_tracker.py       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
index 9ae9a05..3fec548 100644
--- a/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
+++ b/ama_xiv_combat_sim/simulator/trackers/job_resource_tracker.py
@@ -61,15 +61,17 @@ class JobResourceTracker:
                 job_resource_name
             ]:
 
-                if last_refresh_time is None:
-                    last_refresh_time = start_time
-
                 if (
-                    last_refresh_time + job_resource_config.expiry_from_last_gain
+                    last_refresh_time is not None
+                    and last_refresh_time + job_resource_config.expiry_from_last_gain
                     < start_time
                 ):
                     total_resource = 0
-                if resource_spec.refreshes_duration_of_last_gained:
+                # A gain on an empty gauge always starts the expiry anew.
+                if (
+                    total_resource == 0
+                    or resource_spec.refreshes_duration_of_last_gained
+                ):
                     last_refresh_time = start_time
 
                 if curr_t < start_time or curr_t > end_time:
-- 
2.43.0


From e5cfdddb1a057eb23d18bfd3aa7e57e819332975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:09 +0000
Subject: [PATCH 36/41] fix: let damage over time effects of the same name
 override each other

The thunder spells of BLM and the two Eukrasian dots of SGE share a name for that purpose, but
follow ups that differ in anything else were kept side by side.
---
 .../timeline_builders/rotation_builder.py     | 45 ++++++++++++-------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
index 8bc04fe..60689a2 100644
--- a/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
+++ b/ama_xiv_combat_sim/simulator/timeline_builders/rotation_builder.py
@@ -218,14 +218,17 @@ class RotationBuilder:
         for target in targets:
             if target not in self._q_dot_skills:
                 self._q_dot_skills[target] = {}
-            if follow_up_dot_skill not in self._q_dot_skills[target]:
-                self._q_dot_skills[target][follow_up_dot_skill] = []
+            # dots of the same name override each other
+            dot_name = follow_up_dot_skill.skill.name
+            if dot_name not in self._q_dot_skills[target]:
+                self._q_dot_skills[target][dot_name] = []
 
-            self._q_dot_skills[target][follow_up_dot_skill].append(
+            self._q_dot_skills[target][dot_name].append(
                 (
                     parent_snapshot_time,
                     parent_application_time,
                     priority_modifier,
+                    follow_up_dot_skill,
                 )
             )
 
@@ -306,13 +309,14 @@ class RotationBuilder:
                     targets,
                 )
 
-    def __get_base_dot_timings(self, target, follow_up_dot_skill):
+    def __get_base_dot_timings(self, target, dot_name):
         app_times = []
-        dot_times = self._q_dot_skills[target][follow_up_dot_skill]
+        dot_times = self._q_dot_skills[target][dot_name]
         for (
             parent_snapshot_time,
             parent_application_time,
             priority_modifier,
+            follow_up_dot_skill,
         ) in dot_times:
             dot_max_end_time = (
                 parent_application_time + follow_up_dot_skill.dot_duration
@@ -324,6 +328,7 @@ class RotationBuilder:
                     dot_max_end_time,
                     parent_snapshot_time,
                     priority_modifier,
+                    follow_up_dot_skill,
                 )
             )
         return sorted(app_times, key=lambda x: x[0])
@@ -331,9 +336,13 @@ class RotationBuilder:
     def __get_consolidated_dot_timing(self, base_dot_times):
         consolidated_dots = []
         for i in range(0, len(base_dot_times)):
-            curr_start_time, curr_end_time, parent_snapshot_time, priority_modifier = (
-                base_dot_times[i]
-            )
+            (
+                curr_start_time,
+                curr_end_time,
+                parent_snapshot_time,
+                priority_modifier,
+                follow_up_dot_skill,
+            ) = base_dot_times[i]
             if i == len(base_dot_times) - 1:
                 possible_end_time = math.inf
             else:
@@ -342,21 +351,24 @@ class RotationBuilder:
                 possible_end_time = base_dot_times[i + 1][0]
             end_time = min(curr_end_time, possible_end_time)
             consolidated_dots.append(
-                (curr_start_time, end_time, parent_snapshot_time, priority_modifier)
+                (
+                    curr_start_time,
+                    end_time,
+                    parent_snapshot_time,
+                    priority_modifier,
+                    follow_up_dot_skill,
+                )
             )
         return consolidated_dots
 
     def __process_all_dots(self, last_event_time):
         # target_num
-        for target, all_follow_up_dot_skills in self._q_dot_skills.items():
-            for follow_up_dot_skill in all_follow_up_dot_skills:
-                base_dot_times = self.__get_base_dot_timings(
-                    target, follow_up_dot_skill
-                )
+        for target, all_dots in self._q_dot_skills.items():
+            for dot_name in all_dots:
+                base_dot_times = self.__get_base_dot_timings(target, dot_name)
                 consolidated_dot_times = self.__get_consolidated_dot_timing(
                     base_dot_times
                 )
-                dot_skill = follow_up_dot_skill.skill
 
                 # We use the priority modifier to ensure dot skills 1) are processed after their parent, and
                 # 2) a dot tick will be processed after the early dot ticks, even if they snapshot at different times.
@@ -366,6 +378,7 @@ class RotationBuilder:
                     dot_end_time,
                     parent_snapshot_time,
                     priority_modifier,
+                    follow_up_dot_skill,
                 ) in consolidated_dot_times:
                     if self.__snap_dots_to_server_tick_starting_at is None:
                         dot_start_time = _dot_start_time
@@ -402,7 +415,7 @@ class RotationBuilder:
                             priority,
                             parent_snapshot_time,
                             application_time,
-                            dot_skill,
+                            follow_up_dot_skill.skill,
                             SkillModifier(),
                             snapshot_status,
                             targets=(target,),
-- 
2.43.0


From ad45951f67b5d5962d171822655408e51a7e1185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:15 +0000
Subject: [PATCH 37/41] fix: do not swap the potencies of Snap Punch under
 Coeurl's Fury with and without its positional

---
 .../simulator/game_data/class_skills/melee/mnk_data.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/mnk_data.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/mnk_data.py
index 32b3da1..c1c929d 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/mnk_data.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/mnk_data.py
@@ -79,8 +79,8 @@ ALL_DATA = {
         90: {
             "potency": {"6.55": 310, "7.0": 360, "7.01": 330},
             "potency_no_pos": {"6.55": 250, "7.0": 300, "7.01": 270},        
-            "potency_fury": {"7.0": 400, "7.01": 420},
-            "potency_fury_no_pos": {"7.0": 460, "7.01": 480}},
+            "potency_fury": {"7.0": 460, "7.01": 480},
+            "potency_fury_no_pos": {"7.0": 400, "7.01": 420}},
     },
     "Twin Snakes": {
         90: {"potency": {"6.55": 280, "7.0": 380, "7.01": 420}},
-- 
2.43.0


From 74dc9f017edb7fa799b1948f51aa585b7d4cd723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:57 +0000
Subject: [PATCH 38/41] fix: let the Swiftcast of AST, SCH and SGE apply to
 their own spells

---
 .../simulator/game_data/class_skills/healer/ast.py              | 2 +-
 .../simulator/game_data/class_skills/healer/sch.py              | 2 +-
 .../simulator/game_data/class_skills/healer/sge.py              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/ast.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/ast.py
index 0255e81..6f5a3a7 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/ast.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/ast.py
@@ -214,7 +214,7 @@ class AstSkills(GenericJobClass):
                 flat_cast_time_reduction=math.inf,
                 duration=10 * 1000,
                 num_uses=1,
-                skill_allowlist=("Glare III", "Holy III"),
+                skill_allowlist=("Fall Malefic", "Gravity II"),
             ),
         )
 
diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sch.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sch.py
index e317d21..59825be 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sch.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sch.py
@@ -170,7 +170,7 @@ class SchSkills(GenericJobClass):
                 flat_cast_time_reduction=math.inf,
                 duration=10 * 1000,
                 num_uses=1,
-                skill_allowlist=("Glare III", "Holy III"),
+                skill_allowlist=("Broil IV",),
             ),
         )
 
diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py
index 6272938..01100cf 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/healer/sge.py
@@ -222,6 +222,6 @@ class SgeSkills(GenericJobClass):
                 flat_cast_time_reduction=math.inf,
                 duration=10 * 1000,
                 num_uses=1,
-                skill_allowlist=("Glare III", "Holy III"),
+                skill_allowlist=("Dosis III", "Pneuma"),
             ),
         )
-- 
2.43.0


From f79aad195f5c0c756603f16ececd1735009dcd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:58 +0000
Subject: [PATCH 39/41] fix: give the VPR Thresh skills their bonus under the
 venom that covers them

---
 .../simulator/game_data/class_skills/melee/vpr.py           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
index f012067..112ab21 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/melee/vpr.py
@@ -958,11 +958,11 @@ class VprSkills(GenericJobClass):
                     twinfang_thresh_damage_follow_up,
                     self.__get_fellskins_venom_follow_up(),
                 ),
-                "Fellskin's Venom": (
+                "Fellhunter's Venom": (
                     twinfang_thresh_venom_follow_up,
                     self.__get_fellskins_venom_follow_up(),
                 ),
-                "No Combo, Fellskin's Venom": (twinfang_thresh_venom_follow_up,),
+                "No Combo, Fellhunter's Venom": (twinfang_thresh_venom_follow_up,),
                 "No Combo": (twinfang_thresh_damage_follow_up,),
             },
             has_aoe=True,
@@ -979,7 +979,7 @@ class VprSkills(GenericJobClass):
                 SimConsts.DEFAULT_CONDITION: DamageSpec(
                     potency=self._skill_data.get_potency(name)
                 ),
-                "Fellhunter's Venom": DamageSpec(
+                "Fellskin's Venom": DamageSpec(
                     potency=self._skill_data.get_skill_data(name, "potency_venom")
                 ),
             },
-- 
2.43.0


From e8264828f632d96e9cc4cc3d8f5c317b0ea7b27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:06 +0000
Subject: [PATCH 40/41] fix: let BLM Firestarter apply to Fire III at level 90
 too

---
 .../simulator/game_data/class_skills/caster/blm_data.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm_data.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm_data.py
index 4178f6e..fd6aaf6 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm_data.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm_data.py
@@ -106,7 +106,7 @@ ALL_DATA = {
     "High Thunder II": {100: {"potency": {"7.0": 100}}},
     "Flare Star": {100: {"potency": {"7.0": 400}}},
     "Firestarter": {
-        90: {"allowlist": {"6.55": ("Fire",)}},
+        90: {"allowlist": {"6.55": ("Fire III",)}},
         100: {"allowlist": {"7.0": ("Fire III",)}},
     },
     "Astral Fire": {
-- 
2.43.0


From 78b3c540c66f20188ccf82b2336464fd03b5f364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:15 +0000
Subject: [PATCH 41/41] fix: let BLM Freeze see Astral Fire and Umbral Ice

---
 .../simulator/game_data/class_skills/caster/blm_data.py       | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm_data.py b/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm_data.py
index fd6aaf6..a38ec76 100644
--- a/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm_data.py
+++ b/ama_xiv_combat_sim/simulator/game_data/class_skills/caster/blm_data.py
@@ -120,6 +120,7 @@ ALL_DATA = {
                     "Fire IV",
                     "Blizzard IV",
                     "Blizzard III",
+                    "Freeze",
                     "Flare",
                     "Despair",
                     "High Fire II",
@@ -138,6 +139,7 @@ ALL_DATA = {
                     "Fire IV",
                     "Blizzard IV",
                     "Blizzard III",
+                    "Freeze",
                     "Flare",
                     "Despair",
                     "High Fire II",
@@ -160,6 +162,7 @@ ALL_DATA = {
                     "Fire IV",
                     "Blizzard IV",
                     "Blizzard III",
+                    "Freeze",
                     "Flare",
                     "Despair",
                     "High Fire II",
@@ -178,6 +181,7 @@ ALL_DATA = {
                     "Fire IV",
                     "Blizzard IV",
                     "Blizzard III",
+                    "Freeze",
                     "Flare",
                     "Despair",
                     "High Fire II",
-- 
2.43.0

