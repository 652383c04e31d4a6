From ea2bf2ba1e8c1f3991dd1ce9c0d4b3b37e3afec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:56 +0000
Subject: [PATCH 01/77] fix: MemoryFallback forgets the running child once it
 returned a result

---
 ros_bt_py/ros_bt_py/nodes/fallback.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 9366cff..f504448 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -287,6 +287,7 @@ class MemoryFallback(FlowControl):
                 if state == BTNodeState.RUNNING:
                     self.last_running_child = index
                 elif state == BTNodeState.SUCCEEDED:
+                    self.last_running_child = 0
                     # untick all children after the one that triggered this
                     # condition
                     for untick_child in self.children[index + 1 :]:
@@ -297,6 +298,7 @@ class MemoryFallback(FlowControl):
                                 pass
                 return Ok(state)
         # If all children failed, we too fail
+        self.last_running_child = 0
         return Ok(BTNodeState.FAILED)
 
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 9d75bf25ca72b78920bd1129f68eccca4feed58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:19 +0000
Subject: [PATCH 02/77] fix: switch nodes stop a running child when no child
 matches the selection

---
 ros_bt_py/ros_bt_py/nodes/fallback.py        | 3 ++-
 ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index f504448..4307d8a 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -63,7 +63,8 @@ class NameSwitch(FlowControl):
                 name = n
         if name not in self.child_map:
             self.logwarn("Ticking without children. Is this really what you want?")
-            return Ok(BTNodeState.FAILED)
+            # Stop the previously selected child, which might still be running
+            return self._do_untick().map(lambda _: BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
         if self.state in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
index 888ea4a..0996d99 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
@@ -123,13 +123,14 @@ class EnumSwitch(FlowControl):
             e_name = self.pchild_dict[case]
         else:
             self.logwarn("Input did not match possible children.")
-            return Ok(BTNodeState.FAILED)
+            # Stop the previously selected child, which might still be running
+            return self._do_untick().map(lambda _: BTNodeState.FAILED)
 
         if e_name not in self.child_map:
             self.logwarn(
                 "Ticking without matching child. Is this really what you want?"
             )
-            return Ok(BTNodeState.FAILED)
+            return self._do_untick().map(lambda _: BTNodeState.FAILED)
 
         # If we've previously succeeded or failed, reset all children
         if self.state in [BTNodeState.SUCCEEDED, BTNodeState.FAILED]:
-- 
2.43.0


From 176590107d5e5f3e86aee5ad5870bdfee09ece90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 03/77] fix: shut down the children of a node even if its own
 shutdown fails

---
 ros_bt_py/ros_bt_py/node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 04179e1..80722fd 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -681,7 +681,9 @@ class Node(abc.ABC):
                     action_name="shutdown()",
                 ):
                     case Err(e):
-                        return Err(e)
+                        # Still shut down the children, report the original error
+                        if error is None:
+                            error = e
                     case Ok(None):
                         pass
 
-- 
2.43.0


From dea663eb4156dfff09da5c5d1d8d92a6f3de33e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 04/77] fix: parallel nodes can calculate their utility before
 setup

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 8c528ec..4b5cdf8 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -161,10 +161,15 @@ class Parallel(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-        if len(self.children) < self._needed_successes:
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                needed_successes = i
+        if len(self.children) < needed_successes:
             return Err(
                 BehaviorTreeException(
-                    f"Option value needed_successes ({self._needed_successes}) "
+                    f"Option value needed_successes ({needed_successes}) "
                     " cannot be larger than "
                     f"the number of children ({len(self.children)})"
                 )
@@ -209,7 +214,7 @@ class Parallel(FlowControl):
         if not bounds.can_execute:
             return Ok(bounds)
 
-        success_threshold = self._needed_successes
+        success_threshold = needed_successes
 
         best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
             :success_threshold
@@ -395,10 +400,20 @@ class ParallelFailureTolerance(FlowControl):
         return Ok(BTNodeState.IDLE)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-        if len(self.children) < self._needed_successes:
+        match self.inputs.get_value_as("needed_successes", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                needed_successes = i
+        match self.inputs.get_value_as("tolerate_failures", int):
+            case Err(e):
+                return Err(e)
+            case Ok(i):
+                tolerate_failures = i
+        if len(self.children) < needed_successes:
             return Err(
                 BehaviorTreeException(
-                    f"Option value needed_successes ({self._needed_successes})"
+                    f"Option value needed_successes ({needed_successes})"
                     " cannot be larger than "
                     f"the number of children ({len(self.children)})"
                 )
@@ -442,7 +457,7 @@ class ParallelFailureTolerance(FlowControl):
         if not bounds.can_execute:
             return Ok(bounds)
 
-        success_threshold = self._needed_successes
+        success_threshold = needed_successes
 
         best_success_group = sorted(child_bounds, key=lambda b: b.lower_bound_success)[
             :success_threshold
-- 
2.43.0


From 16419afa561dcde47f9eef2a38cf1f8e597426bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 05/77] fix: ParallelFailureTolerance utility uses its failure
 tolerance

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index 4b5cdf8..bc2e75e 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -484,13 +484,13 @@ class ParallelFailureTolerance(FlowControl):
         # Now we do the same for the failures - the only difference
         # here is that failure_threshold is
         #
-        # 1 + (num_children - success_threshold)
+        # 1 + tolerate_failures
         #
-        # because of the semantics of Parallel explained in the class
-        # docstring
+        # because of the semantics of ParallelFailureTolerance explained
+        # in the class docstring
 
-        # The minimum number of child failures for an overall Parallel failure
-        failure_threshold = 1 + (len(self.children) - success_threshold)
+        # The minimum number of child failures for an overall failure
+        failure_threshold = 1 + tolerate_failures
 
         best_failure_group = sorted(child_bounds, key=lambda b: b.lower_bound_failure)[
             :failure_threshold
-- 
2.43.0


From 9d56cd0f62666c780ca65bd5527633e8eb5d1d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 06/77] fix: parallel utility has no upper bound if any child
 has none

---
 ros_bt_py/ros_bt_py/nodes/parallel.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/parallel.py b/ros_bt_py/ros_bt_py/nodes/parallel.py
index bc2e75e..98ef5e3 100644
--- a/ros_bt_py/ros_bt_py/nodes/parallel.py
+++ b/ros_bt_py/ros_bt_py/nodes/parallel.py
@@ -230,8 +230,9 @@ class Parallel(FlowControl):
         worst_success_group = sorted(
             child_bounds, reverse=True, key=lambda b: b.upper_bound_success
         )[:success_threshold]
+        # A child without an upper bound could be part of the most expensive group
         bounds.has_upper_bound_success = all(
-            (b.has_upper_bound_success for b in worst_success_group)
+            (b.has_upper_bound_success for b in child_bounds)
         )
         if bounds.has_upper_bound_success:
             bounds.upper_bound_success = math.fsum(
@@ -263,8 +264,9 @@ class Parallel(FlowControl):
         worst_failure_group = sorted(
             child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
         )[:failure_threshold]
+        # A child without an upper bound could be part of the most expensive group
         bounds.has_upper_bound_failure = all(
-            (b.has_upper_bound_failure for b in worst_failure_group)
+            (b.has_upper_bound_failure for b in child_bounds)
         )
         if bounds.has_upper_bound_failure:
             bounds.upper_bound_failure = math.fsum(
@@ -473,8 +475,9 @@ class ParallelFailureTolerance(FlowControl):
         worst_success_group = sorted(
             child_bounds, reverse=True, key=lambda b: b.upper_bound_success
         )[:success_threshold]
+        # A child without an upper bound could be part of the most expensive group
         bounds.has_upper_bound_success = all(
-            (b.has_upper_bound_success for b in worst_success_group)
+            (b.has_upper_bound_success for b in child_bounds)
         )
         if bounds.has_upper_bound_success:
             bounds.upper_bound_success = math.fsum(
@@ -506,8 +509,9 @@ class ParallelFailureTolerance(FlowControl):
         worst_failure_group = sorted(
             child_bounds, reverse=True, key=lambda b: b.upper_bound_failure
         )[:failure_threshold]
+        # A child without an upper bound could be part of the most expensive group
         bounds.has_upper_bound_failure = all(
-            (b.has_upper_bound_failure for b in worst_failure_group)
+            (b.has_upper_bound_failure for b in child_bounds)
         )
         if bounds.has_upper_bound_failure:
             bounds.upper_bound_failure = math.fsum(
-- 
2.43.0


From 8284fe12ca7a64ccc57526b955d954ebc26587be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:54 +0000
Subject: [PATCH 07/77] fix: switch nodes bound their utility by their cheapest
 and most expensive child

---
 ros_bt_py/ros_bt_py/nodes/fallback.py        | 45 +++++++++++++++++++-
 ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py |  6 ++-
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/fallback.py b/ros_bt_py/ros_bt_py/nodes/fallback.py
index 4307d8a..9c2a779 100644
--- a/ros_bt_py/ros_bt_py/nodes/fallback.py
+++ b/ros_bt_py/ros_bt_py/nodes/fallback.py
@@ -107,7 +107,7 @@ class NameSwitch(FlowControl):
         return Ok(BTNodeState.SHUTDOWN)
 
     def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
-        return calculate_utility_fallback(self.children)
+        return calculate_utility_switch(self.children)
 
 
 @define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
@@ -441,3 +441,46 @@ def calculate_utility_fallback(
             (b.has_upper_bound_success for b in success_bounds)
         )
     return Ok(bounds)
+
+
+def calculate_utility_switch(
+    children,
+) -> Result[UtilityBounds, BehaviorTreeException]:
+    """Shared Utility aggregation for NameSwitch and EnumSwitch."""
+    bounds = UtilityBounds(
+        can_execute=True,
+        has_lower_bound_success=True,
+        has_upper_bound_success=True,
+        has_lower_bound_failure=True,
+        has_upper_bound_failure=True,
+    )
+    child_bounds: list[UtilityBounds] = []
+    for child in children:
+        match child.calculate_utility():
+            case Err(e):
+                return Err(e)
+            case Ok(b):
+                # Same simplification as for the fallback: If any child
+                # cannot execute, there is no utility estimate.
+                if not b.can_execute:
+                    return Ok(UtilityBounds(can_execute=False))
+                child_bounds.append(b)
+
+    # Exactly one child is executed, so the bounds are those of the
+    # cheapest and of the most expensive child.
+    # The lower bound for failure is 0, because the node also fails
+    # without executing anything if no child matches the selection.
+    if child_bounds:
+        bounds.has_lower_bound_success = all(
+            (b.has_lower_bound_success for b in child_bounds)
+        )
+        bounds.lower_bound_success = min((b.lower_bound_success for b in child_bounds))
+        bounds.has_upper_bound_success = all(
+            (b.has_upper_bound_success for b in child_bounds)
+        )
+        bounds.upper_bound_success = max((b.upper_bound_success for b in child_bounds))
+        bounds.has_upper_bound_failure = all(
+            (b.has_upper_bound_failure for b in child_bounds)
+        )
+        bounds.upper_bound_failure = max((b.upper_bound_failure for b in child_bounds))
+    return Ok(bounds)
diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
index 0996d99..48d2a09 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum_switch.py
@@ -40,9 +40,10 @@ from ros_bt_py.node import FlowControl, define_bt_node
 from ros_bt_py.node_config import NodeConfig
 
 from ros_bt_py.helpers import BTNodeState
+from ros_bt_py.nodes.fallback import calculate_utility_switch
 from ros_bt_py.ros_helpers import get_message_constant_fields
 
-from ros_bt_py_interfaces.msg import NodeState
+from ros_bt_py_interfaces.msg import NodeState, UtilityBounds
 
 
 @define_bt_node(
@@ -171,3 +172,6 @@ class EnumSwitch(FlowControl):
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
         return Ok(BTNodeState.SHUTDOWN)
+
+    def _do_calculate_utility(self) -> Result[UtilityBounds, BehaviorTreeException]:
+        return calculate_utility_switch(self.children)
-- 
2.43.0


From 84b2e45992ac96d2e69fa3a4d63fc07aefb37a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 08/77] fix: numeric types reject NaN, which is within no
 limits

---
 ros_bt_py/ros_bt_py/data_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 5b6e54a..71ea0a5 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -514,9 +514,10 @@ class NumericContainer(BuiltinContainer[NUM]):
 
     @typechecked
     def set_value(self, value: NUM) -> Result[None, str]:
-        if value < self.min_value:
+        # Negated comparisons, so that NaN is rejected as well
+        if not value >= self.min_value:
             return Err(f"Given value {value} is smaller than minimum {self.min_value}")
-        if value > self.max_value:
+        if not value <= self.max_value:
             return Err(f"Given value {value} is larger than maximum {self.max_value}")
         return super().set_value(value)
 
-- 
2.43.0


From aa8852e0cbecd0093c2cd2d5a6da1f3c743282f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 09/77] fix: adjust the default of numeric types to any limits

---
 ros_bt_py/ros_bt_py/data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 71ea0a5..d8ec000 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -511,6 +511,8 @@ class NumericContainer(BuiltinContainer[NUM]):
                 self._value = self.min_value
             if self.max_value < 0:
                 self._value = self.max_value
+            # The class default of a type doesn't have to be 0
+            self._value = min(max(self._value, self.min_value), self.max_value)
 
     @typechecked
     def set_value(self, value: NUM) -> Result[None, str]:
-- 
2.43.0


From 370346014680b1a04688391baaad85e8c4ccb26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:06 +0000
Subject: [PATCH 10/77] fix: setting an unchanged value keeps a pending update
 flag

---
 ros_bt_py/ros_bt_py/data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index d8ec000..6f8e9b1 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -263,8 +263,10 @@ class DataContainer(Generic[ANY], abc.ABC):
         #   returing an iterable of bools rather than a single bool
         if isinstance(has_changed, Iterable):
             has_changed = any(has_changed)
-        self._updated = has_changed
         if has_changed:
+            # Don't clear the flag for an unchanged value,
+            #   since there might be an earlier change that wasn't processed yet
+            self._updated = True
             self._value = deepcopy(value)
         return Ok(None)
 
-- 
2.43.0


From 7fd443e1c4805794b7df0237adaa0e4eb15e3846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 11/77] fix: serialize nested list and dict types from the
 outside in

---
 ros_bt_py/ros_bt_py/data_types.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 6f8e9b1..a204321 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -820,10 +820,11 @@ class IterableContainer(BuiltinContainer[ITER]):
         inner_type_msg.allow_dynamic = type_msg.allow_dynamic
         inner_type_msg.allow_static = type_msg.allow_static
         inner_type_msg.is_static = type_msg.is_static
-        inner_type_msg.value_type_identifier.append(inner_type_msg.type_identifier)
+        # The outermost type comes first, `_dict_from_msg` reads from front to back
+        inner_type_msg.value_type_identifier.insert(0, inner_type_msg.type_identifier)
         inner_type_msg.type_identifier = type_msg.type_identifier
-        inner_type_msg.iterable_max_length.append(self.max_length)
-        inner_type_msg.iterable_strict_length.append(self.strict_length)  # type: ignore
+        inner_type_msg.iterable_max_length.insert(0, self.max_length)
+        inner_type_msg.iterable_strict_length.insert(0, self.strict_length)  # type: ignore
         return inner_type_msg
 
     @abc.abstractmethod
-- 
2.43.0


From b6483f62d7d3aedc052e80bc6e3f642388dd3e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 12/77] fix: access rights of element types don't affect
 compatibility

---
 ros_bt_py/ros_bt_py/data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index a204321..cbf5196 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -759,8 +759,10 @@ class IterableContainer(BuiltinContainer[ITER]):
         if element_type is not None:
             self._element_type = element_type
 
-        # Force element_type to accept dynamic values
+        # Force element_type to accept dynamic values,
+        #   its own static/dynamic attributes are ignored
         self._element_type.allow_dynamic = True
+        self._element_type.allow_static = True
         self._element_type.is_static = False
 
         if max_length is not None:
-- 
2.43.0


From 04b222c5e2423ae8c555519c8b9723868ab12b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 13/77] fix: report messages with malformed type constraints as
 error

---
 ros_bt_py/ros_bt_py/data_types.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index cbf5196..480c75a 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -179,11 +179,16 @@ class DataContainer(Generic[ANY], abc.ABC):
             raise NotImplementedError("Called on abstract base class")
         if msg.type_identifier != cls.type_identifier:
             return Err("Wrong type identifier")
-        match cls._dict_from_msg(msg):
-            case Err(e):
-                return Err(e)
-            case Ok(d):
-                obj = cls(**d)
+        # Messages with malformed constraints raise exceptions
+        #   either while parsing them or in the constructor
+        try:
+            match cls._dict_from_msg(msg):
+                case Err(e):
+                    return Err(e)
+                case Ok(d):
+                    obj = cls(**d)
+        except (LookupError, RuntimeError, TypeError, ValueError) as e:
+            return Err(f"Message {msg} doesn't describe a valid type: {e}")
         return Ok(obj)
 
     @abc.abstractmethod
-- 
2.43.0


From 9a716ea5702d83a54ae62fd3de54b2eb25a6b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 14/77] fix: dict types can serialize values that aren't
 strings

---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 480c75a..9772f55 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -912,8 +912,8 @@ class DictType(IterableContainer[dict[str, Any]]):
         return super().set_value(cleaned_keys)
 
     @typechecked
-    def _serialize_value(self, value: dict[str, Any]) -> dict[str, str]:
-        serialized_dict: dict[str, str] = {}
+    def _serialize_value(self, value: dict[str, Any]) -> dict[str, Any]:
+        serialized_dict: dict[str, Any] = {}
         for key, item in value.items():
             serialized_dict[key] = self._element_type._serialize_value(item)
         return serialized_dict
-- 
2.43.0


From 4277c88c6cfcd9df8dec5393da2f0f09943fe20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 15/77] fix: number sequences of ROS messages can be stored and
 serialized

---
 ros_bt_py/ros_bt_py/data_types.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 9772f55..268a146 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -44,6 +44,7 @@ from typing import (
     TypeGuard,
     TypeVar,
 )
+import numpy as np
 from typeguard import typechecked
 
 from ros_bt_py.helpers import INT_LIMITS, FLOAT_LIMITS, INT_FLOAT_MAX
@@ -859,9 +860,10 @@ class ListType(IterableContainer[list[Any]]):
     _value = []
 
     @typechecked
-    def set_value(self, value: list | array.array) -> Result[None, str]:
-        if isinstance(value, array.array):
-            value = list(value)
+    def set_value(self, value: list | array.array | np.ndarray) -> Result[None, str]:
+        # Number sequences of ROS messages are stored as arrays
+        if isinstance(value, (array.array, np.ndarray)):
+            value = value.tolist()
         for item in value:
             match self._element_type.set_value(item):
                 case Err(e):
@@ -871,7 +873,12 @@ class ListType(IterableContainer[list[Any]]):
         return super().set_value(value)
 
     @typechecked
-    def _serialize_value(self, value: list[Any]) -> list[Any]:
+    def _serialize_value(
+        self, value: list[Any] | array.array | np.ndarray
+    ) -> list[Any]:
+        # Number sequences of ROS messages are stored as arrays
+        if isinstance(value, (array.array, np.ndarray)):
+            value = value.tolist()
         serialized_list = []
         for item in value:
             serialized_list.append(self._element_type._serialize_value(item))
-- 
2.43.0


From 6367a6b42c92dd579836c7af7556d2d5f51ef639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:20 +0000
Subject: [PATCH 16/77] fix: report text that can't be deserialized as error

---
 ros_bt_py/ros_bt_py/data_types.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 268a146..8b39cf6 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -354,9 +354,17 @@ class DataContainer(Generic[ANY], abc.ABC):
         First pass the given serialized value to :obj:`json.loads`,
         then to the :obj:`self._deserialize_value` helper function,
         and finally to :obj:`self.set_value`.
+
+        Text that isn't valid JSON or encodes something this container can't hold
+        is reported as an :obj:`Err`.
         """
-        value = json.loads(ser_value)
-        return self._deserialize_value(value).and_then(lambda val: self.set_value(val))
+        try:
+            value = json.loads(ser_value)
+            return self._deserialize_value(value).and_then(
+                lambda val: self.set_value(val)
+            )
+        except Exception as ex:
+            return Err(f"Failed to deserialize value {ser_value}: {ex}")
 
     @typechecked
     def _deserialize_value(self, value: Any) -> Result[ANY, str]:
-- 
2.43.0


From 8d2611bf14914767a7b5e00da6993361c46c85ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 17/77] fix: a string type is compatible with types that allow
 fewer values

---
 ros_bt_py/ros_bt_py/data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 8b39cf6..356c65e 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -670,8 +670,8 @@ class StringContainer(BuiltinContainer[STRING]):
         if self.valid_values is not None:
             if other.valid_values is None:
                 return False
-            for val in self.valid_values:
-                if val not in other.valid_values:
+            for val in other.valid_values:
+                if val not in self.valid_values:
                     return False
         return True
 
-- 
2.43.0


From 6adc577b2d13ff1adb7d98b58ff40112f9c6590e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:27 +0000
Subject: [PATCH 18/77] fix: report wirings from unknown nodes as error

---
 ros_bt_py/ros_bt_py/data_flow_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/data_flow_manager.py b/ros_bt_py/ros_bt_py/data_flow_manager.py
index 0a51e17..3dab57c 100644
--- a/ros_bt_py/ros_bt_py/data_flow_manager.py
+++ b/ros_bt_py/ros_bt_py/data_flow_manager.py
@@ -102,6 +102,8 @@ class DataFlowManager:
                 case Ok(u):
                     target_id = u
             target_key = wiring.target.data_key
+            if source_id not in self.connections:
+                return Err(f"Source node id {source_id} is not available")
             self.connections[source_id].append(
                 Connection(
                     source_key=source_key,
-- 
2.43.0


From 0995eb6288387677d9b118ef3d86a711f9961bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 19/77] fix: remove a node from the tree again if it can't be
 added to its parent

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 35b67db..61df950 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -138,6 +138,14 @@ class TreeEditManager(TreeExecManager):
         :param ros_bt_py_msgs.srv.AddNodeAtIndexRequest request:
             A request describing the node to add.
         """
+        match ros_to_uuid(request.parent_node_id):
+            case Err(e):
+                response.success = False
+                response.error_message = e
+                return response
+            case Ok(p_id):
+                parent_node_id = p_id
+
         node_msg = request.node
         node_msg.node_id = uuid_to_ros(uuid.uuid4())
         match self.instantiate_node_from_msg(
@@ -154,14 +162,6 @@ class TreeEditManager(TreeExecManager):
         response.success = True
         response.node_id = node_msg.node_id
 
-        match ros_to_uuid(request.parent_node_id):
-            case Err(e):
-                response.success = False
-                response.error_message = e
-                return response
-            case Ok(p_id):
-                parent_node_id = p_id
-
         # Add node as child of the named parent, if any
         if parent_node_id != uuid.UUID(int=0):
             if parent_node_id not in self.nodes:
@@ -185,6 +185,14 @@ class TreeEditManager(TreeExecManager):
                 case Err(e):
                     response.success = False
                     response.error_message = str(e)
+                    # Remove node from tree
+                    self.remove_node(
+                        request=RemoveNode.Request(
+                            node_id=uuid_to_ros(instance.node_id),
+                            remove_children=False,
+                        ),
+                        response=RemoveNode.Response(),
+                    )
                     return response
                 case Ok(_):
                     pass
-- 
2.43.0


From 3ba9eea1b017dcc731b011c0a1f65f384832fc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 20/77] fix: add the requested children to an added node

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 61df950..b140057 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -199,16 +199,18 @@ class TreeEditManager(TreeExecManager):
 
         # Add children from msg to node
         missing_children = []
+        child_ids: list[uuid.UUID] = []
         for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                match instance.add_child(self.nodes[child_id]):
-                    case Err(e):
-                        self.get_logger().warn(f"Could not add child: {str(e)}")
-                        missing_children.append(child_id)
-                    case Ok(_):
-                        pass
-            else:
+            child = ros_to_uuid(child_id).map(self.nodes.get).unwrap_or(None)
+            if child is None or child.parent is not None:
                 missing_children.append(child_id)
+                continue
+            match instance.add_child(child):
+                case Err(e):
+                    self.get_logger().warn(f"Could not add child: {str(e)}")
+                    missing_children.append(child_id)
+                case Ok(_):
+                    child_ids.append(child.node_id)
         if missing_children:
             response.success = False
             response.error_message = (
@@ -222,6 +224,7 @@ class TreeEditManager(TreeExecManager):
                 ),
                 response=RemoveNode.Response(),
             )
+            return response
 
         nodes_in_cycles = self.find_nodes_in_cycles()
         if nodes_in_cycles:
@@ -254,9 +257,7 @@ class TreeEditManager(TreeExecManager):
             self._children[parent_node_id].append(instance.node_id)
         if instance.node_id not in self._children:
             self._children[instance.node_id] = []
-        for child_id in request.node.child_ids:
-            if child_id in self.nodes:
-                self._children[instance.node_id].append(child_id)
+        self._children[instance.node_id].extend(child_ids)
 
         return response
 
-- 
2.43.0


From 5aa77ae52d5fc7c6a21e316505270316890708a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 21/77] fix: don't morph a node into one that doesn't support
 its children

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index b140057..9497481 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -393,6 +393,21 @@ class TreeEditManager(TreeExecManager):
             case Ok(n):
                 new_node = n
 
+        # The old node stays part of the tree until it is replaced below
+        self.nodes[node_id] = old_node
+
+        if (
+            new_node.node_config.max_children is not None
+            and len(old_node.children) > new_node.node_config.max_children
+        ):
+            response.success = False
+            response.error_message = (
+                f"Cannot morph node {old_node.name}: It has {len(old_node.children)} "
+                f"children, but {new_node.name} only supports "
+                f"{new_node.node_config.max_children}."
+            )
+            return response
+
         # First unwire all data connection to the existing node
         wire_request = WireNodeData.Request(
             wirings=[
-- 
2.43.0


From 0fe59422516721cb76135d615d81c35020844d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 22/77] fix: don't move a node into itself

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 9497481..89d3104 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -743,6 +743,10 @@ class TreeEditManager(TreeExecManager):
                 continue
             descendants.add(descendant_id)
             pending.extend(self._children.get(descendant_id, []))
+        if new_parent.node_id == node_id:
+            response.success = False
+            response.error_message = f"Cannot move node {node.name} into itself!"
+            return response
         if new_parent.node_id in descendants:
             response.success = False
             response.error_message = (
-- 
2.43.0


From fa7069d20d06b2c824895360c9224170704bd05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 23/77] fix: replace nodes by their descendants and refuse to
 replace them by their ancestors

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 36 ++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 89d3104..b340291 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -826,9 +826,29 @@ class TreeEditManager(TreeExecManager):
         old_node = self.nodes[old_node_id]
         new_node = self.nodes[new_node_id]
 
+        if old_node_id == new_node_id:
+            # Nothing to replace
+            response.success = True
+            return response
+
+        ancestor = old_node.parent
+        while ancestor is not None:
+            if ancestor.node_id == new_node_id:
+                response.success = False
+                response.error_message = (
+                    f"Cannot replace node {old_node.name} with {new_node.name}, "
+                    f"because it is a descendant of {new_node.name}!"
+                )
+                return response
+            ancestor = ancestor.parent
+
+        transferred_children = [
+            child for child in old_node.children if child.node_id != new_node_id
+        ]
         if (
             new_node.node_config.max_children is not None
-            and len(old_node.children) > new_node.node_config.max_children
+            and len(new_node.children) + len(transferred_children)
+            > new_node.node_config.max_children
         ):
             response.success = False
             response.error_message = (
@@ -887,6 +907,18 @@ class TreeEditManager(TreeExecManager):
                         old_node_child_index -= 1
                     break
 
+        # Detach the new node, which may be anywhere below the old one
+        if new_node.parent is not None:
+            match new_node.parent.remove_child(new_node.node_id):
+                case Err(e):
+                    response.success = False
+                    response.error_message = (
+                        f"Could not detach node {new_node.name}: {str(e)}"
+                    )
+                    return response
+                case Ok(_):
+                    pass
+
         # Move the children from old to new
         for child_id in [child.node_id for child in old_node.children]:
             match old_node.remove_child(child_id):
@@ -898,8 +930,6 @@ class TreeEditManager(TreeExecManager):
                     return response
                 case Ok(n):
                     child = n
-            if child_id == new_node.node_id:
-                continue
             match new_node.add_child(child):
                 case Err(e):
                     response.success = False
-- 
2.43.0


From b446f6b894b14cedfa6473a90ec0558825338ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 24/77] fix: unwiring the same data twice in one request
 doesn't raise

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index b340291..6fe4501 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -1037,7 +1037,9 @@ class TreeEditManager(TreeExecManager):
             successful_unwirings.append(wiring)
 
         for wiring in successful_unwirings:
-            self.wirings.remove(wiring)
+            # The same wiring may have been requested more than once
+            if wiring in self.wirings:
+                self.wirings.remove(wiring)
         response.success = True
         return response
 
-- 
2.43.0


From 9d6aeb14c5b0f2a1968cf6c8118fbb498d2200cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 25/77] fix: reloading a tree keeps its name and wirings

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 609a4fb..97a4b3d 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -26,6 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+from copy import deepcopy
 from importlib import metadata
 import os
 import uuid
@@ -787,7 +788,8 @@ class TreeExecManager:
         """Reload the currently loaded tree."""
         load_response = LoadTree.Response()
         load_response = self.load_tree(
-            request=LoadTree.Request(tree=self.structure_to_msg()),
+            # Loading clears our own message, so it needs to work on a copy
+            request=LoadTree.Request(tree=deepcopy(self.structure_to_msg())),
             response=load_response,
         )
 
-- 
2.43.0


From b15a5e60aa64d8c9918b4128fbd797eb9b453758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:42 +0000
Subject: [PATCH 26/77] fix: report unknown children when loading a tree as
 error

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 97a4b3d..71b624a 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -876,6 +876,12 @@ class TreeExecManager:
                         return response
                     case Ok(u):
                         child_id = u
+                if child_id not in self.nodes:
+                    response.success = False
+                    response.error_message = (
+                        f"Child {child_id} of node {node_id} does not exist"
+                    )
+                    return response
                 match self.nodes[node_id].add_child(self.nodes[child_id]):
                     case Err(e):
                         response.success = False
-- 
2.43.0


From 552d1d34370d6c163416c97fcf18177121cad52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:46 +0000
Subject: [PATCH 27/77] fix: looking for cycles ends for nodes below a cycle

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 6fe4501..6e6d3d3 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -85,6 +85,9 @@ class TreeEditManager(TreeExecManager):
                 if current_node.node_id == starting_id:
                     nodes_in_cycles.extend(cycle_candidates)
                     break
+                if current_node.node_id in cycle_candidates[:-1]:
+                    # The starting node is not part of the cycle above it.
+                    break
                 if current_node.node_id in safe_node_ids:
                     # We've already checked for cycles from the parent node, no
                     # need to do that again.
@@ -217,6 +220,8 @@ class TreeEditManager(TreeExecManager):
                 f"Children for node {instance.name} are not or could not be added"
                 f"in tree: {str(missing_children)}"
             )
+            for child_id in child_ids:
+                instance.remove_child(child_id)
             # Remove node from tree to restore state before insertion attempt
             self.remove_node(
                 request=RemoveNode.Request(
-- 
2.43.0


From 62f7fa07a353d540c465ac84cc25d7146b0e3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:27 +0000
Subject: [PATCH 28/77] fix: stopping a tree that waits for a tick leaves it
 idle

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 71b624a..f114d66 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1296,11 +1296,14 @@ class TreeExecManager:
                     root.untick()
                     state = root.state
                     if state in [BTNodeState.IDLE, BTNodeState.PAUSED]:
+                        self.state = TreeState.IDLE
                         response.tree_state = TreeState.IDLE
                         response.success = True
                     else:
+                        self.state = TreeState.ERROR
                         response.tree_state = TreeState.ERROR
                         response.success = False
+                        self.publish_state()
                         self.get_logger().error(
                             f"Root node ({str(root)}) state after unticking is neither "
                             f"IDLE nor PAUSED, but {state}"
-- 
2.43.0


From 1b927446e9271b90fd7e4c801c9cbb68fe821394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 29/77] fix: exceptions raised while ticking leave the tree in
 error

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index f114d66..526c171 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -623,7 +623,10 @@ class TreeExecManager:
 
     def tick_report_exceptions(self) -> None:
         """Wrap :meth:`TreeManager.tick()` and catch *all* errors."""
-        tick_result = self.tick()
+        try:
+            tick_result = self.tick()
+        except Exception as ex:
+            tick_result = Err(BehaviorTreeException(f"{type(ex).__name__}: {ex}"))
 
         if tick_result.is_err():
             self.get_logger().error(
-- 
2.43.0


From 1715ebe641da102bfa80e896588229b1248880cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 30/77] fix: don't tick a tree with wirings that can't be
 initialized

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 526c171..f23b04a 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -678,7 +678,12 @@ class TreeExecManager:
         if root.state in (BTNodeState.UNINITIALIZED, BTNodeState.SHUTDOWN):
             # TODO This is a very ugly position to put this,
             #   we should restructure execution actions and commands.
-            self.data_flow_manager.initialize(self.nodes, self.wirings)
+            match self.data_flow_manager.initialize(self.nodes, self.wirings):
+                case Err(e):
+                    self.get_logger().error(f"Initializing the data flow failed: {e}")
+                    return Err(BehaviorTreeException(e))
+                case Ok(None):
+                    pass
             root.setup()
             if root.state is not BTNodeState.IDLE:
                 self.state = TreeState.ERROR
-- 
2.43.0


From 4222af80dc9171463a2e38325469b2fd835e2099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 31/77] fix: tick with the default frequency if an invalid one
 is requested

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index f23b04a..6988920 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -445,7 +445,7 @@ class TreeExecManager:
     @typechecked
     def tick_frequency_hz(self, frequency: float) -> None:
         with self._tree_lock:
-            if frequency == 0.0:
+            if not 0.0 < frequency < float("inf"):
                 self.get_logger().warn(
                     f"Tick frequency of {frequency} is invalid. Setting to 10.0"
                 )
-- 
2.43.0


From 535267861a4ee81afb09380271ecffa19e24654f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 32/77] fix: report the tick frequency in Hz and warn if ticks
 take too long

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 6988920..7c72bf5 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -730,14 +730,18 @@ class TreeExecManager:
             # We know that Time - Time = Duration
             tick_rate = self.tick_frequency_hz
 
-            if (1 / tick_rate) > (duration.nanoseconds * 1e9):
+            duration_sec = duration.nanoseconds / 1e9
+
+            if duration_sec > (1 / tick_rate):
                 self.get_logger().warn(
                     "Tick took longer than set period, cannot tick at "
                     f"{self.tick_frequency_hz:.2f} Hz"
                 )
 
             self.tick_sliding_window.pop(0)
-            self.tick_sliding_window.append(duration.nanoseconds * 1e9)
+            self.tick_sliding_window.append(
+                1 / max(duration_sec, 1 / tick_rate)
+            )
             tick_frequency_avg = sum(self.tick_sliding_window) / len(
                 self.tick_sliding_window
             )
-- 
2.43.0


From 7dd2d9abb3a2f9e0546d4f345375a16aaa953a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 33/77] fix: loading malformed tree files reports an error
 instead of hanging or raising

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 35 ++++++++++++++++--------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 7c72bf5..bf85839 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -43,7 +43,6 @@ import rclpy.node
 from rclpy.duration import Duration
 
 import yaml
-import yaml.scanner
 from typeguard import typechecked
 
 
@@ -172,7 +171,7 @@ def load_tree_from_file(
 ) -> MigrateTree.Response:
     """Load a tree file from disk."""
     tree = request.tree
-    while not tree.nodes:
+    if not tree.nodes:
         file_path = ""
         if not tree.path:
             response.success = False
@@ -187,9 +186,16 @@ def load_tree_from_file(
 
         elif tree.path.startswith("package://"):
             package_name = tree.path[len("package://") :].split("/", 1)[0]
-            package_path = ament_index_python.get_package_share_directory(
-                package_name=package_name
-            )
+            try:
+                package_path = ament_index_python.get_package_share_directory(
+                    package_name=package_name
+                )
+            except (ament_index_python.PackageNotFoundError, ValueError) as ex:
+                response.success = False
+                response.error_message = (
+                    f'Package in tree path "{tree.path}" not found: {str(ex)}'
+                )
+                return response
             file_path = (
                 package_path + tree.path[len("package://") + len(package_name) :]
             )
@@ -211,17 +217,24 @@ def load_tree_from_file(
             return response
 
         with tree_file:
-            tree_yaml = tree_file.read()
             try:
-                response = parse_tree_yaml(tree_yaml=tree_yaml)
-            except yaml.scanner.ScannerError as ex:
+                response = parse_tree_yaml(tree_yaml=tree_file.read())
+            # A file may hold anything, e.g. broken yaml or fields of the wrong type
+            except Exception as ex:
                 response.success = False
                 response.error_message = (
-                    f"Encountered a ScannerError while parsing the tree yaml: {str(ex)}"
+                    f"Encountered a {type(ex).__name__} while parsing "
+                    f"the tree file {file_path}: {str(ex)}"
                 )
                 return response
-            tree = response.tree
-            tree.path = request.tree.path
+        if not response.success:
+            return response
+        tree = response.tree
+        tree.path = request.tree.path
+        if not tree.nodes:
+            response.success = False
+            response.error_message = f"Tree file {file_path} contains no nodes"
+            return response
 
     response.success = True
     response.tree = tree
-- 
2.43.0


From 2003cf088367051729662eccf1756d1b97864eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 34/77] fix: don't save trees outside of the storage folder

---
 ros_bt_py/ros_bt_py/package_manager.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 18d22de..53cf9f8 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -157,6 +157,14 @@ class PackageManager(object):
             split_save_filepath = save_filepath.rstrip(os.sep)  # split trailing /
             path, filename = os.path.split(split_save_filepath)
 
+            storage_path = os.path.abspath(request.storage_path)
+            save_folder = os.path.dirname(save_filepath)
+            if os.path.commonpath([storage_path, save_folder]) != storage_path:
+                response.success = False
+                response.error_message = "File path is outside of the storage folder"
+                response.file_path = split_save_filepath
+                return response
+
             try:
                 os.makedirs(path)
             except OSError:
-- 
2.43.0


From 70b2829900ce720be3ae846c234517d8f1f8e315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 35/77] fix: a failed save keeps the existing tree file

---
 ros_bt_py/ros_bt_py/package_manager.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 53cf9f8..47e3377 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -29,6 +29,7 @@
 import json
 import os
 import inspect
+import uuid
 from importlib import metadata
 import ament_index_python
 from ament_index_python import PackageNotFoundError
@@ -199,10 +200,18 @@ class PackageManager(object):
             # Set path to blank, this value should not be persisted
             request.tree.path = ""
 
-            with open(split_save_filepath, "w") as save_file:
-                save_file.write(f"version: {metadata.version('ros_bt_py')}\n")
-                msg = rosidl_runtime_py.message_to_yaml(request.tree)
-                save_file.write(msg)
+            # Write to a temporary file first,
+            #   so that a failure does not damage an existing file
+            temp_filepath = f"{split_save_filepath}.{uuid.uuid4()}.tmp"
+            try:
+                with open(temp_filepath, "w") as save_file:
+                    save_file.write(f"version: {metadata.version('ros_bt_py')}\n")
+                    msg = rosidl_runtime_py.message_to_yaml(request.tree)
+                    save_file.write(msg)
+                os.replace(temp_filepath, split_save_filepath)
+            finally:
+                if os.path.exists(temp_filepath):
+                    os.remove(temp_filepath)
             response.file_path = split_save_filepath
             response.success = True
             return response
-- 
2.43.0


From a2f2b23c70c3090480f1c23ad9578c6911fb564c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:05 +0000
Subject: [PATCH 36/77] fix: ThrottleSuccess returns the result of its child

---
 ros_bt_py/ros_bt_py/ros_nodes/throttle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
index e1f5162..363b0db 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/throttle.py
@@ -140,9 +140,9 @@ class ThrottleSuccess(Decorator):
         ):
             for child in self.children:
                 result = child.tick()
-                if result == BTNodeState.RUNNING:
+                if result.is_err() or result.ok() == BTNodeState.RUNNING:
                     return result
-                if result == BTNodeState.SUCCEEDED:
+                if result.ok() == BTNodeState.SUCCEEDED:
                     self._last_success_tick = current_time
                     return result
         return Ok(BTNodeState.FAILED)
-- 
2.43.0


From a2324e24ad432d435d95935601686d3cd3e7e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 37/77] fix: action nodes have outputs for the feedback fields

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 015af54..c441332 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -510,7 +510,7 @@ class Action(ActionBase):
         for (
             field_name,
             field_type,
-        ) in self._result_type.get_fields_and_field_types().items():
+        ) in self._feedback_type.get_fields_and_field_types().items():
             combined_fields[f"feedback.{field_name}"] = field_type
         outputs = {}
         for field_name, field_type in combined_fields.items():
-- 
2.43.0


From 0c0f420d1ea56b754e42a0a6d44058ac135a118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 38/77] fix: send the goal again after an action node was
 interrupted

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index c441332..65b56b0 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -146,6 +146,7 @@ class ActionBase(Leaf):
 
         self._internal_state = ActionStates.IDLE
 
+        self._input_goal = None
         self._new_goal_request_future = None
         self._running_goal_handle = None
         self._running_goal_future = None
@@ -316,7 +317,9 @@ class ActionBase(Leaf):
             case Ok(b):
                 updated = b
         # If the current state is idle, this is the first tick after setup, reset or untick
-        if updated:
+        if updated or (
+            self._internal_state == ActionStates.IDLE and self._input_goal is None
+        ):
             match self.get_goal():
                 case Err(e):
                     return Err(e)
@@ -384,6 +387,7 @@ class ActionBase(Leaf):
                 return cancel_result
 
         self._last_goal_time = None
+        self._input_goal = None
         self._running_goal_future = None
         self._running_goal_handle = None
         self._cancel_goal_future = None
-- 
2.43.0


From 01ad4e99825d4f2ea5b97233f899f23c6d55cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 39/77] fix: an action node fails if its goal is rejected

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 65b56b0..9a878fc 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -289,8 +289,12 @@ class ActionBase(Leaf):
             self._running_goal_handle = self._new_goal_request_future.result()
             self._new_goal_request_future = None
 
-            if self._running_goal_handle is None:
-                self.logwarn("Action goal was rejeced by the server!")
+            if (
+                self._running_goal_handle is None
+                or not self._running_goal_handle.accepted
+            ):
+                self.logwarn("Action goal was rejected by the server!")
+                self._running_goal_handle = None
                 self._internal_state = ActionStates.FINISHED
                 return Ok(BTNodeState.FAILED)
 
-- 
2.43.0


From 222b92466cfade05f9a5d8ce7f378c308aeb9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 40/77] fix: an action node fails if its goal is aborted or
 canceled by the server

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 9a878fc..76645cb 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -33,6 +33,7 @@ from enum import Enum
 
 from ros_bt_py.vendor.result import Result, Ok, Err
 
+from action_msgs.msg import GoalStatus
 from rclpy.action.client import ActionClient
 from rclpy.callback_groups import ReentrantCallbackGroup
 from rclpy.time import Time
@@ -181,6 +182,14 @@ class ActionBase(Leaf):
             self._running_goal_handle = None
             self._running_goal_future = None
             self._internal_state = ActionStates.FINISHED
+            if result.status in [
+                GoalStatus.STATUS_ABORTED,
+                GoalStatus.STATUS_CANCELED,
+            ]:
+                self.logwarn("Action was aborted or canceled, publishing result!")
+                return self.set_result_outputs(result.result).map(
+                    lambda _: BTNodeState.FAILED
+                )
             self.loginfo("Action succeeded, publishing result!")
             return self.set_result_outputs(result.result)
 
-- 
2.43.0


From 17cd8e0639d44cab90b04c905b0fdbb30fbfe0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 41/77] fix: new inputs while an action goal waits for
 acceptance don't break the node

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 76645cb..b04d040 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -305,8 +305,15 @@ class ActionBase(Leaf):
                 self.logwarn("Action goal was rejected by the server!")
                 self._running_goal_handle = None
                 self._internal_state = ActionStates.FINISHED
+                if self._input_goal is not None:
+                    return Ok(BTNodeState.RUNNING)
                 return Ok(BTNodeState.FAILED)
 
+            if self._input_goal is not None:
+                # The inputs changed in the meantime, this goal is obsolete
+                self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
+                return Ok(BTNodeState.RUNNING)
+
             self._running_goal_start_time = self.ros_node.get_clock().now()
             self._running_goal_future = self._running_goal_handle.get_result_async()
 
@@ -341,6 +348,8 @@ class ActionBase(Leaf):
         if updated and self._internal_state not in [
             ActionStates.IDLE,
             ActionStates.FINISHED,
+            # Without a handle the goal can only be cancelled once it is accepted
+            ActionStates.WAITING_FOR_GOAL_ACCEPTANCE,
             ActionStates.WAITING_FOR_GOAL_CANCELLATION,
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
-- 
2.43.0


From 10b598ba0cb11036534e9964290fd5ae372ad3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:02 +0000
Subject: [PATCH 42/77] fix: interrupting an action node always cancels its
 goal

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 48 ++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index b04d040..c96afc1 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -36,6 +36,7 @@ from ros_bt_py.vendor.result import Result, Ok, Err
 from action_msgs.msg import GoalStatus
 from rclpy.action.client import ActionClient
 from rclpy.callback_groups import ReentrantCallbackGroup
+from rclpy.task import Future
 from rclpy.time import Time
 
 from ros_bt_py.data_types import (
@@ -62,6 +63,15 @@ class ActionStates(Enum):
     FINISHED = 5
 
 
+def _cancel_accepted_goal(goal_future: Future) -> None:
+    """Cancel a goal that has been accepted after it became obsolete."""
+    if goal_future.exception() is not None:
+        return
+    goal_handle = goal_future.result()
+    if goal_handle is not None and goal_handle.accepted:
+        goal_handle.cancel_goal_async()
+
+
 @define_bt_node(
     NodeConfig(
         inputs={
@@ -149,6 +159,7 @@ class ActionBase(Leaf):
 
         self._input_goal = None
         self._new_goal_request_future = None
+        self._obsolete_goal_futures = []
         self._running_goal_handle = None
         self._running_goal_future = None
         self._cancel_goal_future = None
@@ -395,18 +406,41 @@ class ActionBase(Leaf):
         if self._input_goal is None:
             return Ok(self.state)
         else:
-            if self._action_client is not None:
-                self._action_client.destroy()
-                self._action_client = None
-
+            self._destroy_action_client()
             self._internal_state = ActionStates.IDLE
             return Ok(BTNodeState.RUNNING)
 
+    def _destroy_action_client(self) -> None:
+        if self._action_client is None:
+            return
+        client = self._action_client
+        self._action_client = None
+        # The client is still needed to cancel goals that aren't accepted yet
+        pending = [f for f in self._obsolete_goal_futures if not f.done()]
+        self._obsolete_goal_futures = []
+        if not pending:
+            client.destroy()
+
+        def destroy_if_done(_: Future) -> None:
+            if all(f.done() for f in pending):
+                client.destroy()
+
+        for future in pending:
+            future.add_done_callback(destroy_if_done)
+
     def _do_untick(self) -> Result[BTNodeState, BehaviorTreeException]:
-        if self._internal_state == ActionStates.WAITING_FOR_ACTION_COMPLETE:
+        if self._internal_state in [
+            ActionStates.WAITING_FOR_ACTION_COMPLETE,
+            ActionStates.REQUEST_GOAL_CANCELLATION,
+        ]:
             cancel_result = self._do_tick_cancel_running_goal()
             if cancel_result.is_err():
                 return cancel_result
+        if self._new_goal_request_future is not None:
+            # The goal can only be cancelled once the server has accepted it
+            self._new_goal_request_future.add_done_callback(_cancel_accepted_goal)
+            self._obsolete_goal_futures.append(self._new_goal_request_future)
+            self._new_goal_request_future = None
 
         self._last_goal_time = None
         self._input_goal = None
@@ -424,9 +458,7 @@ class ActionBase(Leaf):
                 return Err(e)
             case Ok(_):
                 pass
-        if self._action_client is not None:
-            self._action_client.destroy()
-            self._action_client = None
+        self._destroy_action_client()
         return Ok(BTNodeState.IDLE)
 
     def _do_shutdown(self) -> Result[BTNodeState, BehaviorTreeException]:
-- 
2.43.0


From 640e85e5c4ccd3dd4a717ddae5d1b010bd15e04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 43/77] fix: an interrupted action node uses the new action
 name

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index c96afc1..5a47b49 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -165,6 +165,7 @@ class ActionBase(Leaf):
         self._cancel_goal_future = None
 
         self._action_client = None
+        self._client_action_name = None
 
         self._last_goal_time: Optional[Time] = None
 
@@ -365,12 +366,18 @@ class ActionBase(Leaf):
         ]:
             self._internal_state = ActionStates.REQUEST_GOAL_CANCELLATION
 
+        match self.inputs.get_value_as("action_name", str):
+            case Err(e):
+                return Err(e)
+            case Ok(s):
+                action_name = s
+        if (
+            self._internal_state == ActionStates.IDLE
+            and action_name != self._client_action_name
+        ):
+            self._destroy_action_client()
         if self._action_client is None:
-            match self.inputs.get_value_as("action_name", str):
-                case Err(e):
-                    return Err(e)
-                case Ok(s):
-                    action_name = s
+            self._client_action_name = action_name
             self._action_client = ActionClient(
                 node=self.ros_node,
                 action_type=self._action_type,
-- 
2.43.0


From c18ee13111ddd74893eb18c2eb40797ba77c07c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:36 +0000
Subject: [PATCH 44/77] fix: ignore feedback of goals an action node no longer
 executes

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index 5a47b49..e824518 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -171,10 +171,12 @@ class ActionBase(Leaf):
 
         return Ok(BTNodeState.IDLE)
 
-    def _feedback_cb(self, feedback) -> None:
+    def _feedback_cb(self, feedback, token) -> None:
         self.logdebug(f"Received feedback message: {feedback}")
         with self._lock:
-            self._feedback = feedback
+            # Feedback of previous goals may still arrive
+            if token is self._feedback_token:
+                self._feedback = feedback
 
     def _do_tick_wait_for_action_complete(
         self,
@@ -285,8 +287,12 @@ class ActionBase(Leaf):
         """Tick to request the execution of a new goal on the action server."""
         if self._action_client is None:
             return Err(BehaviorTreeException("No action client available"))
+        with self._lock:
+            self._feedback = None
+            self._feedback_token = token = object()
         self._new_goal_request_future = self._action_client.send_goal_async(
-            goal=self._input_goal, feedback_callback=self._feedback_cb
+            goal=self._input_goal,
+            feedback_callback=lambda feedback: self._feedback_cb(feedback, token),
         )
 
         self._input_goal = None
-- 
2.43.0


From fafff17883f41757995969335e471630f5fa6da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 45/77] fix: topic subscribers ignore messages of destroyed
 subscriptions

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 28 +++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index b179837..bffea59 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -86,11 +86,15 @@ class TopicSubscriber(Leaf):
             self.logerr(error_msg)
             return Err(BehaviorTreeException(error_msg))
         self._subscriber = None
+        self._subscription_token = None
         self._msg = None
         return Ok(BTNodeState.IDLE)
 
-    def _callback(self, msg):
+    def _callback(self, msg, token):
         with self._lock:
+            # Messages of a destroyed subscription may still arrive
+            if token is not self._subscription_token:
+                return
             self._msg = msg
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
@@ -147,10 +151,11 @@ class TopicSubscriber(Leaf):
                 case Ok((t, n)):
                     topic_type = t
                     topic_name = n
+            self._subscription_token = token = object()
             self._subscriber = self.ros_node.create_subscription(
                 msg_type=topic_type,
                 topic=topic_name,
-                callback=self._callback,
+                callback=lambda msg: self._callback(msg, token),
                 qos_profile=qos_profile,
             )
 
@@ -168,7 +173,9 @@ class TopicSubscriber(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        self._msg = None
+        with self._lock:
+            self._subscription_token = None
+            self._msg = None
         subscriber = getattr(self, "_subscriber", None)
         if subscriber is None:
             return Ok(BTNodeState.IDLE)
@@ -278,6 +285,7 @@ class TopicMemorySubscriber(Leaf):
             self.logerr(error_msg)
             return Err(BehaviorTreeException(error_msg))
         self._subscriber = None
+        self._subscription_token = None
         self._msg = None
         self._msg_timestamp: Optional[Time] = self.ros_node.get_clock().now()
         match self.inputs.get_value_as("memory_delay", float):
@@ -287,8 +295,11 @@ class TopicMemorySubscriber(Leaf):
                 self._memory_delay = f
         return Ok(BTNodeState.IDLE)
 
-    def _callback(self, msg):
+    def _callback(self, msg, token):
         with self._lock:
+            # Messages of a destroyed subscription may still arrive
+            if token is not self._subscription_token:
+                return
             self._msg = msg
             self._msg_timestamp = self.ros_node.get_clock().now()
 
@@ -346,10 +357,11 @@ class TopicMemorySubscriber(Leaf):
                 case Ok((t, n)):
                     topic_type = t
                     topic_name = n
+            self._subscription_token = token = object()
             self._subscriber = self.ros_node.create_subscription(
                 msg_type=topic_type,
                 topic=topic_name,
-                callback=self._callback,
+                callback=lambda msg: self._callback(msg, token),
                 qos_profile=qos_profile,
             )
 
@@ -370,8 +382,10 @@ class TopicMemorySubscriber(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        self._msg = None
-        self._msg_timestamp = None
+        with self._lock:
+            self._subscription_token = None
+            self._msg = None
+            self._msg_timestamp = None
         subscriber = getattr(self, "_subscriber", None)
         if subscriber is None:
             return Ok(BTNodeState.IDLE)
-- 
2.43.0


From f08ed1d28ff964d941eeaa206fb6264dd7436983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 46/77] fix: topic subscribers can execute if their topic is
 published

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index bffea59..6312695 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -52,6 +52,7 @@ from ros_bt_py.exceptions import BehaviorTreeException
 from ros_bt_py.helpers import BTNodeState
 from ros_bt_py.node import Leaf, define_bt_node
 from ros_bt_py.node_config import NodeConfig
+from ros_bt_py.ros_helpers import get_interface_name
 
 
 @define_bt_node(
@@ -235,7 +236,7 @@ class TopicSubscriber(Leaf):
 
         for endpoint in self.ros_node.get_publishers_info_by_topic(resolved_topic):
             if (
-                endpoint.topic_type == topic_type
+                endpoint.topic_type == get_interface_name(topic_type)
                 and endpoint.qos_profile == qos_profile
             ):
                 # if the topic we want exists, we can do our job, so
@@ -245,7 +246,7 @@ class TopicSubscriber(Leaf):
                         can_execute=True,
                         has_lower_bound_success=True,
                         has_upper_bound_success=True,
-                        has_lower_bound_failre=True,
+                        has_lower_bound_failure=True,
                         has_upper_bound_failure=True,
                     )
                 )
@@ -445,7 +446,7 @@ class TopicMemorySubscriber(Leaf):
 
         for endpoint in self.ros_node.get_publishers_info_by_topic(resolved_topic):
             if (
-                endpoint.topic_type == topic_type
+                endpoint.topic_type == get_interface_name(topic_type)
                 and endpoint.qos_profile == qos_profile
             ):
                 # if the topic we want exists, we can do our job, so
@@ -455,7 +456,7 @@ class TopicMemorySubscriber(Leaf):
                         can_execute=True,
                         has_lower_bound_success=True,
                         has_upper_bound_success=True,
-                        has_lower_bound_failre=True,
+                        has_lower_bound_failure=True,
                         has_upper_bound_failure=True,
                     )
                 )
-- 
2.43.0


From 94d6a167cae1da8be3aa1a0f0db40b699e758672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 47/77] fix: report unfitting output values of a node as an
 error

---
 ros_bt_py/ros_bt_py/node_config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node_config.py b/ros_bt_py/ros_bt_py/node_config.py
index 22c859d..0c0e71a 100644
--- a/ros_bt_py/ros_bt_py/node_config.py
+++ b/ros_bt_py/ros_bt_py/node_config.py
@@ -112,7 +112,12 @@ class NodeOutputMap(NodeDataMap):
                 return Err(e)
             case Ok(c):
                 container = c
-        match container.set_value(value):
+        try:
+            result = container.set_value(value)
+        except Exception as e:
+            # Raised by typeguard for values of the wrong type
+            result = Err(str(e))
+        match result:
             case Err(s):
                 return Err(
                     NodeConfigError(
-- 
2.43.0


From f78561003a595ce8212cf8ee6e9f4c35311a1322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 48/77] fix: make the Convert node usable

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index 3afb7e8..f961e3d 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -35,6 +35,8 @@ from typeguard import typechecked
 from ros_bt_py.vendor.result import Result, Ok, Err, do
 
 from ros_bt_py.data_types import (
+    GENERIC_TYPE_MAP,
+    IDENTIFIER_KEY,
     GenericType,
     ReferenceType,
     StringType,
@@ -70,6 +72,15 @@ def get_conversion(
         )
 
 
+@typechecked
+def get_builtin_type(type_value: dict) -> Result[type, BehaviorTreeException]:
+    """Return the builtin type that the value of a :obj:`GenericType` stands for."""
+    for builtin_type, template in GENERIC_TYPE_MAP.items():
+        if template[IDENTIFIER_KEY] == type_value.get(IDENTIFIER_KEY):
+            return Ok(builtin_type)
+    return Err(BehaviorTreeException(f"{type_value} doesn't describe a known type"))
+
+
 @define_bt_node(
     NodeConfig(
         inputs={
@@ -91,17 +102,17 @@ class Convert(Leaf):
 
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         match do(
-            Ok((i, o, c))
-            for i in self.inputs.get_value_as("input_type", type)
-            for o in self.inputs.get_value_as("output_type", type)
-            for c in self.inputs.get_value_as("clamp", bool)
+            Ok((i, o))
+            for i_dict in self.inputs.get_value_as("input_type", dict)
+            for o_dict in self.inputs.get_value_as("output_type", dict)
+            for i in get_builtin_type(i_dict)
+            for o in get_builtin_type(o_dict)
         ):
             case Err(e):
                 return Err(e)
-            case Ok((i, o, c)):
+            case Ok((i, o)):
                 self.in_type = i
                 self.out_type = o
-                self.clamp = c
 
         match get_conversion(self.in_type, self.out_type):
             case Err(e):
-- 
2.43.0


From 92487ee7db0f067ae375079ccb1eb0051c99fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 49/77] fix: report calculations without a result as an error

---
 ros_bt_py/ros_bt_py/nodes/maths.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/maths.py b/ros_bt_py/ros_bt_py/nodes/maths.py
index f961e3d..986e7d3 100644
--- a/ros_bt_py/ros_bt_py/nodes/maths.py
+++ b/ros_bt_py/ros_bt_py/nodes/maths.py
@@ -148,6 +148,18 @@ class Convert(Leaf):
         return Ok(BTNodeState.IDLE)
 
 
+def calculate(
+    operation: Callable[..., Any], *operands: Any
+) -> Result[Any, BehaviorTreeException]:
+    """Apply the operation, which might not have a result for the given operands."""
+    try:
+        return Ok(operation(*operands))
+    except (ArithmeticError, TypeError, ValueError) as e:
+        return Err(
+            BehaviorTreeException(f"Unable to calculate {operation}{operands}: {e}")
+        )
+
+
 BINARY_OPERATIONS = {
     "add": operator.add,
     "+": operator.add,
@@ -217,10 +229,11 @@ class Operation(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             do(
-                Ok(BINARY_OPERATIONS[s](a, b))
+                Ok(res)
                 for s in self.inputs.get_value_as("operator", str)
                 for a in self.inputs.get_value("a")
                 for b in self.inputs.get_value("b")
+                for res in calculate(BINARY_OPERATIONS[s], a, b)
             )
             .and_then(lambda val: self.outputs.set_value("result", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
@@ -317,9 +330,10 @@ class UnaryOperation(Leaf):
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         return (
             do(
-                Ok(UNARY_OPERATIONS[s](i))
+                Ok(res)
                 for s in self.inputs.get_value_as("operator", str)
                 for i in self.inputs.get_value("in")
+                for res in calculate(UNARY_OPERATIONS[s], i)
             )
             .and_then(lambda val: self.outputs.set_value("result", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
-- 
2.43.0


From 782779125eb01514ffd5fd15cb28c9a02644efe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 50/77] fix: make the SetAttr node usable

---
 ros_bt_py/ros_bt_py/nodes/setters.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/setters.py b/ros_bt_py/ros_bt_py/nodes/setters.py
index 28ef75c..066cc68 100644
--- a/ros_bt_py/ros_bt_py/nodes/setters.py
+++ b/ros_bt_py/ros_bt_py/nodes/setters.py
@@ -27,7 +27,7 @@
 # POSSIBILITY OF SUCH DAMAGE.
 
 
-from ros_bt_py.vendor.result import Result, Ok, do
+from ros_bt_py.vendor.result import Result, Ok, Err, do
 
 from ros_bt_py.data_types import (
     GenericType,
@@ -102,15 +102,20 @@ class SetAttr(Leaf):
 
     def _do_tick(self) -> Result[BTNodeState, BehaviorTreeException]:
         def set_and_return(obj, attr, val):
-            rsetattr(obj, attr, val)
-            return obj
+            try:
+                rsetattr(obj, attr, val)
+            except (AssertionError, AttributeError) as e:
+                # ROS messages use assertions to check the type of a field
+                return Err(BehaviorTreeException(f"Unable to set {attr}: {e}"))
+            return Ok(obj)
 
         return (
             do(
-                Ok(set_and_return(o, n, v))
+                Ok(new_o)
                 for o in self.inputs.get_value("object")
                 for n in self.inputs.get_value_as("attr_name", str)
-                for v in self.inputs.get_value("value")
+                for v in self.inputs.get_value("attr_value")
+                for new_o in set_and_return(o, n, v)
             )
             .and_then(lambda val: self.outputs.set_value("new_object", val))
             .map(lambda _: BTNodeState.SUCCEEDED)
-- 
2.43.0


From 8eaa4a9c920bfb76e9172d1c18261787ef9da170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 51/77] fix: get the format strings of FormatStringList as a
 list

---
 ros_bt_py/ros_bt_py/nodes/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index eff1a1e..43ba89b 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -192,7 +192,7 @@ class FormatStringList(Leaf):
             return (
                 do(
                     Ok([myformatter.format(s, **d) for s in s_l])
-                    for s_l in self.inputs.get_value_as("format_strings", list[str])
+                    for s_l in self.inputs.get_value_as("format_strings", list)
                     for d in self.inputs.get_value_as("dict", dict)
                 )
                 .and_then(lambda val: self.outputs.set_value("formatted_strings", val))
-- 
2.43.0


From e46abc796cd01bf89f02c78f626c01517b336aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 52/77] fix: apply the default conversions in format strings

---
 ros_bt_py/ros_bt_py/nodes/format.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/format.py b/ros_bt_py/ros_bt_py/nodes/format.py
index 43ba89b..f6f2b24 100644
--- a/ros_bt_py/ros_bt_py/nodes/format.py
+++ b/ros_bt_py/ros_bt_py/nodes/format.py
@@ -66,10 +66,7 @@ class ExtendedFormatter(Formatter):
             return str(value).capitalize()
 
         # Do the default conversion or raise error if no matching conversion found
-        super(ExtendedFormatter, self).convert_field(value, conversion)
-
-        # return for None case
-        return value
+        return super(ExtendedFormatter, self).convert_field(value, conversion)
 
 
 myformatter = ExtendedFormatter()
-- 
2.43.0


From 001dd5fd391121152b67b8eac2fcf188ac69f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 53/77] fix: check the type of the constants in EnumFields

---
 ros_bt_py/ros_bt_py/ros_nodes/enum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/enum.py b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
index 3e0fcfb..2cfe1c1 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/enum.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/enum.py
@@ -74,7 +74,7 @@ class EnumFields(Leaf):
         node_outputs = {}
         for field in self._constants:
             field_type = type(getattr(self._message_class, field))
-            if field not in GENERIC_TYPE_MAP.keys():
+            if field_type not in GENERIC_TYPE_MAP.keys():
                 return Err(NodeConfigError(f"Field {field} has an incompatible type"))
             match get_iotype_for_dict(GENERIC_TYPE_MAP[field_type]):
                 case Err(e):
-- 
2.43.0


From 7b9b5c44e61e091e9bb3608a216f0979fef68ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:47 +0000
Subject: [PATCH 54/77] fix: report all files that can't be loaded as a failure

---
 ros_bt_py/ros_bt_py/nodes/file.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/nodes/file.py b/ros_bt_py/ros_bt_py/nodes/file.py
index 6c1ecf4..c7aad18 100644
--- a/ros_bt_py/ros_bt_py/nodes/file.py
+++ b/ros_bt_py/ros_bt_py/nodes/file.py
@@ -62,9 +62,12 @@ def load_file(path):
         file_path = path[len("file://") :]
     elif path.startswith("package://"):
         package_name = path[len("package://") :].split("/", 1)[0]
-        package_path = ament_index_python.get_package_share_directory(
-            package_name=package_name
-        )
+        try:
+            package_path = ament_index_python.get_package_share_directory(
+                package_name=package_name
+            )
+        except (ament_index_python.PackageNotFoundError, ValueError) as ex:
+            raise LoadFileError(f"Error finding package {package_name}: {str(ex)}")
         file_path = package_path + path[len("package://") + len(package_name) :]
     else:
         raise LoadFileError(
@@ -73,13 +76,14 @@ def load_file(path):
         )
     try:
         data_file = open(file_path, "r")
-    except IOError as ex:
+    except (IOError, ValueError) as ex:
         error_msg = f"Error opening file {file_path}: {str(ex)}"
         raise LoadFileError(error_msg)
     with data_file:
         try:
             data = yaml.safe_load(data_file)
-        except yaml.YAMLError as ex:
+        except (yaml.YAMLError, ValueError, RecursionError) as ex:
+            # Broken encodings and impossible dates are reported as a `ValueError`
             raise LoadFileError(f"Yaml error in file {file_path}: {str(ex)}")
     return data
 
-- 
2.43.0


From 3bdc97c9157aaf7a5a0094c6e1284d0438c22069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 55/77] fix: publish the subtrees of the tree, not those of
 replaced or refused nodes

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index bf85839..5f0b586 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -117,6 +117,8 @@ def is_edit_service(func):
             with self._edit_lock:
                 return func(self, request, response, **kwds)
         finally:
+            with self._edit_lock:
+                self._update_subtrees()
             # TODO Find a way to check if we're the outermost level
             #   to reduce repeating publish calls
             self.publish_structure()
@@ -1379,6 +1381,27 @@ class TreeExecManager:
     # Service Handlers Done #
     #########################
 
+    @typechecked
+    def _update_subtrees(self) -> None:
+        """
+        Make the subtree manager hold exactly the subtrees of the nodes in the tree.
+
+        Subtrees register themselves as soon as they are instantiated, which may
+        be for a node that isn't added to the tree in the end.
+        """
+        registered = self.subtree_manager.nested_subtree_managers
+        for node_id, nested_manager in list(registered.items()):
+            node = self.nodes.get(node_id, None)
+            if getattr(node, "nested_subtree_manager", None) is not nested_manager:
+                self.subtree_manager.remove_subtree(node_id)
+        for node_id, node in self.nodes.items():
+            nested_manager = getattr(node, "nested_subtree_manager", None)
+            if nested_manager is not None and node_id not in registered:
+                self.subtree_manager.add_subtree_structure(
+                    node_id, node.manager.structure_to_msg()
+                )
+                self.subtree_manager.add_nested_manager(node_id, nested_manager)
+
     @typechecked
     def instantiate_node_from_msg(
         self,
-- 
2.43.0


From 7406a1fda837f9bd2a9aa86fb3740994f242b9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 56/77] fix: don't keep publishing the state of a replaced
 subtree

---
 ros_bt_py/ros_bt_py/ros_nodes/subtree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
index b22efdd..ee9b89b 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/subtree.py
@@ -127,6 +127,8 @@ class Subtree(Leaf):
                 pass
 
         if self.subtree_manager:
+            # Drop what a previous node with the same id has published
+            self.subtree_manager.remove_subtree(self.node_id)
             self.subtree_manager.add_subtree_structure(
                 self.node_id, self.manager.structure_to_msg()
             )
-- 
2.43.0


From 44c9f91a061f0e53dfc60982046f33d53dc6980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:42 +0000
Subject: [PATCH 57/77] fix: keep publishing subtrees after SETUP_AND_SHUTDOWN

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 5f0b586..97517ef 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1246,8 +1246,6 @@ class TreeExecManager:
                 self.get_logger().warn(response.error_message)
                 return response
 
-            if self.subtree_manager:
-                self.subtree_manager.clear_subtrees()
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 response.success = False
-- 
2.43.0


From ce5a8fdda130bad3ef7b2700ec8c9ca220b1c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 58/77] fix: add_node tells the id of the new node

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 6e6d3d3..7046523 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -124,6 +124,7 @@ class TreeEditManager(TreeExecManager):
         )
 
         response.success = internal_response.success
+        response.node_id = internal_response.node_id
         response.error_message = internal_response.error_message
         return response
 
-- 
2.43.0


From 71d171719c34a0d684352e1cc2db5de81c44b099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 59/77] fix: check and publish while holding the lock for edits

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 30 ++++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 97517ef..9beef24 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -106,22 +106,21 @@ def is_edit_service(func):
 
     @wraps(func)
     def service_handler(self: "TreeExecManager", request: Any, response: Any, **kwds):
-        if self.state != TreeState.EDITABLE:
-            response.success = False
-            response.error_message = (
-                f"Cannot edit tree in state {self.state}."
-                f"You need to shut down the tree to enable editing."
-            )
-            return response
-        try:
-            with self._edit_lock:
+        with self._edit_lock:
+            if self.state != TreeState.EDITABLE:
+                response.success = False
+                response.error_message = (
+                    f"Cannot edit tree in state {self.state}."
+                    f"You need to shut down the tree to enable editing."
+                )
+                return response
+            try:
                 return func(self, request, response, **kwds)
-        finally:
-            with self._edit_lock:
+            finally:
                 self._update_subtrees()
-            # TODO Find a way to check if we're the outermost level
-            #   to reduce repeating publish calls
-            self.publish_structure()
+                # TODO Find a way to check if we're the outermost level
+                #   to reduce repeating publish calls
+                self.publish_structure()
 
     return service_handler
 
@@ -969,7 +968,8 @@ class TreeExecManager:
         """
         if self.subtree_manager:
             self.subtree_manager.publish_subtrees = request.data
-            self.publish_structure()
+            with self._edit_lock:
+                self.publish_structure()
             response.success = True
         else:
             response.success = False
-- 
2.43.0


From 91f2cea034a080efc4a488bc3ab9fb73705f9c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 60/77] fix: execute commands one at a time and not during
 edits

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 55 +++++++++++++++---------
 1 file changed, 35 insertions(+), 20 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 9beef24..abe2e25 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1063,14 +1063,7 @@ class TreeExecManager:
             self.state = TreeState.TICKING
 
             self._tick_thread.start()
-            # Give the tick thread some time to finish
-            self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-            # If we're debugging or setting up (and ROS is not
-            # shutting down), keep sleepin until the thread
-            # finishes
-            while self._tick_thread.is_alive() and ok():
-                self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-            if self._tick_thread.is_alive():
+            if not self._wait_for_tick_thread():
                 response.success = False
                 response.error_message = (
                     "Tried to join tick thread after single tick, but failed!"
@@ -1189,7 +1182,7 @@ class TreeExecManager:
             return response
 
     @typechecked
-    def control_execution(  # noqa: C901
+    def control_execution(
         self,
         request: ControlTreeExecution.Request,
         response: ControlTreeExecution.Response,
@@ -1204,6 +1197,37 @@ class TreeExecManager:
         stop or reset the entire tree.
 
         """
+        with self._edit_lock:
+            return self._control_execution(request, response)
+
+    @typechecked
+    def _wait_for_tick_thread(self) -> bool:
+        """
+        Wait for the tick thread to finish, return whether it did.
+
+        Expects `_edit_lock` to be held, and releases it meanwhile,
+        for other commands to be able to e.g. stop the tree.
+        """
+        tick_thread = self._tick_thread
+        self._edit_lock.release()
+        try:
+            # Give the tick thread some time to finish, four times
+            # the allowed period should be plenty.
+            tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+            # If we're debugging or setting up (and ROS is not
+            # shutting down), keep sleeping until the thread finishes
+            while tick_thread.is_alive() and ok():
+                tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
+        finally:
+            self._edit_lock.acquire()
+        return not tick_thread.is_alive()
+
+    @typechecked
+    def _control_execution(  # noqa: C901
+        self,
+        request: ControlTreeExecution.Request,
+        response: ControlTreeExecution.Response,
+    ) -> ControlTreeExecution.Response:
         response.success = False
         if self._tick_thread is not None:
             is_idle = self.state == TreeState.IDLE
@@ -1265,19 +1289,10 @@ class TreeExecManager:
         ]:
             if tree_state == TreeState.TICKING:
                 self.state = TreeState.STOP_REQUESTED
-                # Four times the allowed period should be plenty of time to
-                # finish the current tick, if the tree has not stopped by then
+                # If the tree has not stopped after waiting
                 # we're in deep trouble.
                 if self._tick_thread.is_alive():
-                    # Give the tick thread some time to finish
-                    self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-
-                    # If we're debugging or setting up (and ROS is not
-                    # shutting down), keep sleeping until the thread
-                    # finishes
-                    while self._tick_thread.is_alive() and ok():
-                        self._tick_thread.join((1.0 / self.tick_frequency_hz) * 4.0)
-                    if self._tick_thread.is_alive():
+                    if not self._wait_for_tick_thread():
                         response.success = False
                         response.error_message = (
                             "Tried to join tick thread after requesting "
-- 
2.43.0


From 4fbd9fb061ae370cf17bde7ea1d352a477fa720d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 61/77] fix: don't start a tick thread again that has just
 ended

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index abe2e25..fe8673b 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1041,8 +1041,8 @@ class TreeExecManager:
             return response
 
         else:
-            if not self._tick_thread:
-                self._tick_thread = Thread(target=self.tick_report_exceptions)
+            # The current thread may have finished just now
+            self._tick_thread = Thread(target=self.tick_report_exceptions)
             find_root_result = self.find_root()
             if find_root_result.is_err():
                 response.success = False
@@ -1106,8 +1106,8 @@ class TreeExecManager:
             return response
 
         else:
-            if not self._tick_thread:
-                self._tick_thread = Thread(target=self.tick_report_exceptions)
+            # The current thread may have finished just now
+            self._tick_thread = Thread(target=self.tick_report_exceptions)
 
             find_root_result = self.find_root()
             if find_root_result.is_err():
-- 
2.43.0


From 2acf38493c8c6abb0d26b078bcd1b6160c0f59d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:30 +0000
Subject: [PATCH 62/77] fix: don't lose results or stop requests at the end of
 a tick

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 37 ++++++++++++++++++------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index fe8673b..39ca34c 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -1230,13 +1230,18 @@ class TreeExecManager:
     ) -> ControlTreeExecution.Response:
         response.success = False
         if self._tick_thread is not None:
-            is_idle = self.state == TreeState.IDLE
-            if is_idle and self._tick_thread.is_alive():
+            is_ending = self.state in [
+                TreeState.IDLE,
+                TreeState.WAITING_FOR_TICK,
+                TreeState.ERROR,
+            ]
+            if is_ending and self._tick_thread.is_alive():
                 self._tick_thread.join(0.5)
                 if self._tick_thread.is_alive():
                     response.success = False
                     response.error_message = (
-                        "Tried to join tick thread with Tree state IDLE, but failed!"
+                        f"Tried to join tick thread with Tree state {self.state}, "
+                        "but failed!"
                     )
                     self.publish_state()
                     return response
@@ -1287,8 +1292,11 @@ class TreeExecManager:
             ControlTreeExecution.Request.STOP,
             ControlTreeExecution.Request.SHUTDOWN,
         ]:
-            if tree_state == TreeState.TICKING:
-                self.state = TreeState.STOP_REQUESTED
+            if tree_state in [TreeState.TICKING, TreeState.STOP_REQUESTED]:
+                with self._tree_lock:
+                    # The tick thread may have come to an end by itself
+                    if self._tree_state.state == TreeState.TICKING:
+                        self._tree_state.state = TreeState.STOP_REQUESTED
                 # If the tree has not stopped after waiting
                 # we're in deep trouble.
                 if self._tick_thread.is_alive():
@@ -1300,10 +1308,21 @@ class TreeExecManager:
                         )
                         return response
 
+                if self._tick_thread.is_alive():
+                    # Started by another command while we were waiting
+                    response.success = False
+                    response.error_message = (
+                        "Successfully stopped ticking, but it was started again"
+                    )
+                    response.tree_state = self.state
+                    return response
+
                 state_after_joining = self.state
-                if state_after_joining == TreeState.IDLE:
-                    response.tree_state = TreeState.IDLE
+                if state_after_joining in [TreeState.IDLE, TreeState.EDITABLE]:
+                    response.tree_state = state_after_joining
                     response.success = True
+                elif state_after_joining == TreeState.WAITING_FOR_TICK:
+                    tree_state = TreeState.WAITING_FOR_TICK
 
                 elif state_after_joining == TreeState.ERROR:
                     response.error_message = (
@@ -1321,7 +1340,7 @@ class TreeExecManager:
                     self.get_logger().error(response.error_message)
                     return response
 
-            elif tree_state == TreeState.WAITING_FOR_TICK:
+            if tree_state == TreeState.WAITING_FOR_TICK:
                 find_root_result = self.find_root()
 
                 if find_root_result.is_err():
@@ -1355,7 +1374,7 @@ class TreeExecManager:
                     response.tree_state = TreeState.IDLE
                     response.success = True
 
-            else:
+            elif tree_state not in [TreeState.TICKING, TreeState.STOP_REQUESTED]:
                 self.get_logger().info(
                     "Received stop command, but tree was not running"
                 )
-- 
2.43.0


From 969accf07cb8e967a21470ad105e219e13429ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 63/77] fix: report the start of setup, untick, reset and
 shutdown

---
 ros_bt_py/ros_bt_py/debug_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ros_bt_py/ros_bt_py/debug_manager.py b/ros_bt_py/ros_bt_py/debug_manager.py
index 77cde21..9cca4a7 100644
--- a/ros_bt_py/ros_bt_py/debug_manager.py
+++ b/ros_bt_py/ros_bt_py/debug_manager.py
@@ -118,6 +118,7 @@ class DebugManager(object):
                 "stamp": self._ros_node.get_clock().now(),
                 "module": type(node_instance).__module__,
                 "node_class": type(node_instance).__name__,
+                "state": self.diagnostics_state[state][0],
                 "path": [],
             }
 
-- 
2.43.0


From c56d844c693aca5037065af880f6b8eb724597b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 64/77] fix: allow to collect diagnostics from the middle of a
 tick on

---
 ros_bt_py/ros_bt_py/debug_manager.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/debug_manager.py b/ros_bt_py/ros_bt_py/debug_manager.py
index 9cca4a7..51eabdf 100644
--- a/ros_bt_py/ros_bt_py/debug_manager.py
+++ b/ros_bt_py/ros_bt_py/debug_manager.py
@@ -135,7 +135,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # Collecting may have been switched on only meanwhile
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = self.diagnostics_state[state][1]
             diagnostics["stamp"] = self._ros_node.get_clock().now()
             if self.publish_node_diagnostics:
@@ -181,7 +182,8 @@ class DebugManager(object):
         # Contextmanager'ed code is executed here
         yield
 
-        if self._collect_node_diagnostics:
+        # Collecting may have been switched on only meanwhile
+        if self._collect_node_diagnostics and diagnostics:
             diagnostics["state"] = "POST_TICK"
             diagnostics["stamp"] = self._ros_node.get_clock().now()
 
-- 
2.43.0


From 942f2a29b54c35cd1321324fa79a2c21bc81fb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:33 +0000
Subject: [PATCH 65/77] fix: publish diagnostics under the name of the tree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 1 +
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 7046523..7ac190b 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -274,6 +274,7 @@ class TreeEditManager(TreeExecManager):
     ) -> ChangeTreeName.Response:
         """Change the name of the currently loaded tree."""
         self.name = request.name
+        self.set_diagnostics_name()
 
         response.success = True
 
diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 39ca34c..54239d4 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -502,6 +502,7 @@ class TreeExecManager:
             case Ok(r_id):
                 root = self.nodes.get(r_id)
         if root is not None:
+            self.diagnostic_status.name = root.name
             self.get_logger().warn(
                 "No tree name was found. Diagnostics data from the behavior tree will be"
                 f"published under the name of the root_node: {self.diagnostic_status.name}",
@@ -951,8 +952,7 @@ class TreeExecManager:
 
         response.success = True
         self.get_logger().info("Successfully loaded tree")
-        if self.publish_diagnostic is None:
-            self.set_diagnostics_name()
+        self.set_diagnostics_name()
         return response
 
     @typechecked
-- 
2.43.0


From d924f6360c548265f17dbe26b8a1849d9c5f97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:27 +0000
Subject: [PATCH 66/77] fix: don't take messages of packages like string_msgs
 for strings

---
 ros_bt_py/ros_bt_py/data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/data_types.py b/ros_bt_py/ros_bt_py/data_types.py
index 356c65e..155983b 100644
--- a/ros_bt_py/ros_bt_py/data_types.py
+++ b/ros_bt_py/ros_bt_py/data_types.py
@@ -1787,9 +1787,9 @@ def get_message_field_io_type(field_type: str) -> Result[DataContainer, str]:
     as given by the :obj:`get_fields_and_field_types()` function.
     """
     # Checks if the type matches a sequence definition and extracts the element-type and bounds
-    match_sequence = re.match(r"sequence<([\w\/<>]+)(?:, (\d+))?>", field_type)
+    match_sequence = re.fullmatch(r"sequence<([\w\/<>]+)(?:, (\d+))?>", field_type)
     # Checks if the type matches an array definition and extracts the element-type and bounds
-    match_array = re.match(r"([\w\/<>]*)\[(\d+)\]", field_type)
+    match_array = re.fullmatch(r"([\w\/<>]*)\[(\d+)\]", field_type)
     if match_sequence or match_array:
         if match_sequence:
             nested_type_str, max_len_str = match_sequence.groups()
@@ -1814,7 +1814,7 @@ def get_message_field_io_type(field_type: str) -> Result[DataContainer, str]:
             )
         )
 
-    match_string = re.match(r"w?string(?:<(\d+)>)?", field_type)
+    match_string = re.fullmatch(r"w?string(?:<(\d+)>)?", field_type)
     if match_string:
         max_len_str = match_string.group(1)
         if max_len_str is None:
-- 
2.43.0


From 44d87c1da80810ac578d8d001e22290f65c1de7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:38 +0000
Subject: [PATCH 67/77] fix: report the wirings of a subtree

---
 ros_bt_py/ros_bt_py/node.py              | 70 ++++++++++--------------
 ros_bt_py/ros_bt_py/tree_edit_manager.py |  2 +-
 2 files changed, 29 insertions(+), 43 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 80722fd..5558eac 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1080,6 +1080,7 @@ class Node(abc.ABC):
     @typechecked
     def get_subtree_msg(
         self,
+        wirings: Optional[list[Wiring]] = None,
     ) -> Result[
         Tuple[TreeStructure, list[Wiring], list[Wiring]], BehaviorTreeException
     ]:
@@ -1092,6 +1093,8 @@ class Node(abc.ABC):
         The subtree message will have public node data for every piece
         of node data that is wired to a node outside the subtree.
 
+        :param wirings: The wirings of the tree this node is part of.
+
         :returns:
 
         A tuple consisting of a :class:`ros_bt_py_msgs.msg.Tree`
@@ -1118,53 +1121,36 @@ class Node(abc.ABC):
             root_id=uuid_to_ros(self.node_id),
             nodes=[node.to_structure_msg() for node in self.get_children_recursive()],
         )
-        # This reassignment makes the typing happy,
+        # These reassignments make the typing happy,
         #   because they ensure that `.append` exists
         subtree.data_wirings = []
+        subtree.public_inputs = []
+        subtree.public_outputs = []
 
-        node_map: dict[uuid.UUID, NodeStructure] = {
-            # Since this is internal data, we assume ids to be safe
-            ros_to_uuid(node.node_id).unwrap(): node
-            for node in subtree.nodes
-        }
+        node_ids = {node.node_id for node in self.get_children_recursive()}
         incoming_connections: list[Wiring] = []
         outgoing_connections: list[Wiring] = []
-        for node in self.get_children_recursive():
-            for sub in node.subscriptions:
-                # Since this is internal data, we assume ids to be safe
-                source_node = node_map.get(ros_to_uuid(sub.source.node_id).unwrap())
-                target_node = node_map.get(ros_to_uuid(sub.target.node_id).unwrap())
-
-                # For subscriptions where source and target are in the subtree,
-                # add a wiring.
-                if source_node and target_node:
-                    subtree.data_wirings.append(
-                        Wiring(source=sub.source, target=sub.target)
-                    )
-                # In the other cases, add that datum to public_node_data
-                elif source_node:
-                    outgoing_connections.append(sub)
-                elif target_node:
-                    incoming_connections.append(sub)
-                else:
-                    return Err(
-                        BehaviorTreeException(
-                            "Subscription in subtree has source *AND* target "
-                            "outside of subtree!"
-                        )
-                    )
-
-            for wiring, _, _ in node.subscribers:
-                # Since this is internal data, we assume ids to be safe
-                if ros_to_uuid(wiring.target.node_id).unwrap() not in node_map:
-                    outgoing_connections.append(wiring)
-
-        subtree.public_inputs = [
-            connection.target for connection in incoming_connections
-        ]
-        subtree.public_outputs = [
-            connection.source for connection in outgoing_connections
-        ]
+        for wiring in wirings or []:
+            # Since this is internal data, we assume ids to be safe
+            source_inside = ros_to_uuid(wiring.source.node_id).unwrap() in node_ids
+            target_inside = ros_to_uuid(wiring.target.node_id).unwrap() in node_ids
+
+            # For wirings where source and target are in the subtree,
+            # add a wiring.
+            if source_inside and target_inside:
+                subtree.data_wirings.append(
+                    Wiring(source=wiring.source, target=wiring.target)
+                )
+            # In the other cases, add that datum to the public inputs or outputs,
+            # but only once, even if there are multiple wirings
+            elif source_inside:
+                outgoing_connections.append(wiring)
+                if wiring.source not in subtree.public_outputs:
+                    subtree.public_outputs.append(wiring.source)
+            elif target_inside:
+                incoming_connections.append(wiring)
+                if wiring.target not in subtree.public_inputs:
+                    subtree.public_inputs.append(wiring.target)
 
         return Ok((subtree, incoming_connections, outgoing_connections))
 
diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index 7ac190b..c5a8005 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -1067,7 +1067,7 @@ class TreeEditManager(TreeExecManager):
             response.error_message = f'Node "{request.root_id}" does not exist!'
             return response
 
-        match self.nodes[root_id].get_subtree_msg():
+        match self.nodes[root_id].get_subtree_msg(self.wirings):
             case Err(e):
                 response.error_message = (
                     f"Error retrieving subtree rooted at {request.root_id}: {str(e)}"
-- 
2.43.0


From e2c45d07917a37444abd9c8c1c052b3ad88ce35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:39 +0000
Subject: [PATCH 68/77] fix: generate subtrees of the current tree

---
 ros_bt_py/ros_bt_py/tree_edit_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/tree_edit_manager.py b/ros_bt_py/ros_bt_py/tree_edit_manager.py
index c5a8005..587d970 100644
--- a/ros_bt_py/ros_bt_py/tree_edit_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_edit_manager.py
@@ -1088,7 +1088,7 @@ class TreeEditManager(TreeExecManager):
         This also adds all relevant parents to the tree message, resulting in a tree that is
         executable and does not contain any orpahned nodes.
         """
-        whole_tree = deepcopy(self._tree_structure)
+        whole_tree = deepcopy(self.structure_to_msg())
 
         match self.find_root():
             case Err(e):
-- 
2.43.0


From ca4f5843d2ee4b6cdefa2f55e60baa1a1aa7eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:37 +0000
Subject: [PATCH 69/77] fix: number the items of every folder listing on their
 own

---
 ros_bt_py/ros_bt_py/package_manager.py | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 47e3377..2047260 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -26,6 +26,7 @@
 # ARISING IN ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
 # POSSIBILITY OF SUCH DAMAGE.
 
+import itertools
 import json
 import os
 import inspect
@@ -108,7 +109,6 @@ class PackageManager(object):
         publish_message_list_callback: Optional[rclpy.publisher.Publisher] = None,
         publish_packages_list_callback: Optional[rclpy.publisher.Publisher] = None,
     ):
-        self.item_id = 0
         self.tree_storage_directory_paths = []
         for path in tree_storage_directory_paths:
             self.tree_storage_directory_paths.append(
@@ -301,16 +301,12 @@ class PackageManager(object):
         ):
             self.packages_list_pub.publish(self.packages)
 
-    def get_id(self):
-        self.item_id += 1
-        return self.item_id
-
-    def reset_id(self):
-        self.item_id = 0
-
-    def path_to_dict(self, path, show_hidden=False, parent=0):
+    def path_to_dict(self, path, show_hidden=False, parent=0, item_ids=None):
         """Turn a path into a dictionary."""
-        d = {"name": os.path.basename(path), "item_id": self.get_id(), "parent": parent}
+        if item_ids is None:
+            # Not shared with other listings, they may be made at the same time
+            item_ids = itertools.count(1)
+        d = {"name": os.path.basename(path), "item_id": next(item_ids), "parent": parent}
         if os.path.isdir(path):
             try:
                 d["type"] = "directory"
@@ -319,6 +315,7 @@ class PackageManager(object):
                         os.path.join(path, f),
                         show_hidden=show_hidden,
                         parent=d["item_id"],
+                        item_ids=item_ids,
                     )
                     for f in os.listdir(path)
                     if (show_hidden or not f.startswith("."))
@@ -344,7 +341,6 @@ class PackageManager(object):
             package_path = ament_index_python.get_package_share_directory(
                 request.package
             )
-            self.reset_id()
             package_structure = self.path_to_dict(
                 path=package_path, show_hidden=request.show_hidden
             )
@@ -374,7 +370,6 @@ class PackageManager(object):
                 f"{self.tree_storage_directory_paths}!"
             )
             return response
-        self.reset_id()
         package_structure = self.path_to_dict(
             path=os.path.abspath(request.storage_folder),
             show_hidden=request.show_hidden,
-- 
2.43.0


From dcf9b775445de0db65f5ce529072e6b20711d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:37 +0000
Subject: [PATCH 70/77] fix: don't descend into links to parent folders when
 listing folders

---
 ros_bt_py/ros_bt_py/package_manager.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 2047260..217c51d 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -301,23 +301,29 @@ class PackageManager(object):
         ):
             self.packages_list_pub.publish(self.packages)
 
-    def path_to_dict(self, path, show_hidden=False, parent=0, item_ids=None):
+    def path_to_dict(
+        self, path, show_hidden=False, parent=0, item_ids=None, parent_paths=()
+    ):
         """Turn a path into a dictionary."""
         if item_ids is None:
             # Not shared with other listings, they may be made at the same time
             item_ids = itertools.count(1)
         d = {"name": os.path.basename(path), "item_id": next(item_ids), "parent": parent}
         if os.path.isdir(path):
+            real_path = os.path.realpath(path)
             try:
                 d["type"] = "directory"
+                # Links to a folder above would be followed forever
+                contents = [] if real_path in parent_paths else os.listdir(path)
                 d["children"] = [
                     self.path_to_dict(
                         os.path.join(path, f),
                         show_hidden=show_hidden,
                         parent=d["item_id"],
                         item_ids=item_ids,
+                        parent_paths=(*parent_paths, real_path),
                     )
-                    for f in os.listdir(path)
+                    for f in contents
                     if (show_hidden or not f.startswith("."))
                 ]
             except OSError:
-- 
2.43.0


From d53a7c26614fcef381a20bb90f65c6bcf9378814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:37 +0000
Subject: [PATCH 71/77] fix: list available nodes while others are being loaded

---
 ros_bt_py/ros_bt_py/package_manager.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ros_bt_py/ros_bt_py/package_manager.py b/ros_bt_py/ros_bt_py/package_manager.py
index 217c51d..26475b3 100644
--- a/ros_bt_py/ros_bt_py/package_manager.py
+++ b/ros_bt_py/ros_bt_py/package_manager.py
@@ -419,8 +419,9 @@ class PackageManager(object):
                 return response
 
         response.available_nodes = []
-        for module, nodes in Node.node_classes.items():
-            for class_name, node_class in nodes.items():
+        # Other services may load modules at the same time
+        for module, nodes in list(Node.node_classes.items()):
+            for class_name, node_class in list(nodes.items()):
                 if not node_class._node_config:
                     LOGGER.warning(
                         f"Node class: {node_class.__name__} does not have node config!"
-- 
2.43.0


From 59500f1ac9e60ebeb7e5fdd888151f23e200a991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:36 +0000
Subject: [PATCH 72/77] fix: report node modules that raise any exception when
 they are loaded

---
 ros_bt_py/ros_bt_py/node.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/node.py b/ros_bt_py/ros_bt_py/node.py
index 5558eac..47d1e28 100644
--- a/ros_bt_py/ros_bt_py/node.py
+++ b/ros_bt_py/ros_bt_py/node.py
@@ -1276,7 +1276,8 @@ def load_node_module(package_name: str) -> Optional[ModuleType]:
     """
     try:
         return importlib.import_module(package_name)
-    except (ImportError, ValueError) as exc:
+    except Exception as exc:
+        # The module can contain anything, e.g. syntax errors
         rclpy.logging.get_logger(package_name).error(
             f'Could not load node module "{package_name}": {repr(exc)}',
             throttle_duration_sec=30,
-- 
2.43.0


From b92c6ae5f388ab6ebdc9cc3c7e5463930b75523b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 73/77] fix: don't load trees with several nodes of the same id

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 54239d4..594d974 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -892,6 +892,11 @@ class TreeExecManager:
                 case Ok(n):
                     self.nodes[n.node_id] = n
 
+        if len(self.nodes) != len(tree.nodes):
+            response.success = False
+            response.error_message = "There are several nodes with the same id"
+            return response
+
         for node in tree.nodes:
             # We just parsed all ids before, so we know them to be safe
             node_id = ros_to_uuid(node.node_id).unwrap()
-- 
2.43.0


From eced245ae7d1f697f96b0d195f91098e20cb154b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:49 +0000
Subject: [PATCH 74/77] fix: don't load trees whose nodes have several parents
 or form cycles

---
 ros_bt_py/ros_bt_py/tree_exec_manager.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ros_bt_py/ros_bt_py/tree_exec_manager.py b/ros_bt_py/ros_bt_py/tree_exec_manager.py
index 594d974..48c338c 100644
--- a/ros_bt_py/ros_bt_py/tree_exec_manager.py
+++ b/ros_bt_py/ros_bt_py/tree_exec_manager.py
@@ -914,6 +914,19 @@ class TreeExecManager:
                         f"Child {child_id} of node {node_id} does not exist"
                     )
                     return response
+                if self.nodes[child_id].parent is not None:
+                    response.success = False
+                    response.error_message = (
+                        f"Node {child_id} is a child of several nodes"
+                    )
+                    return response
+                ancestor = self.nodes[node_id]
+                while ancestor is not None and ancestor.node_id != child_id:
+                    ancestor = ancestor.parent
+                if ancestor is not None:
+                    response.success = False
+                    response.error_message = f"Node {child_id} is its own descendant"
+                    return response
                 match self.nodes[node_id].add_child(self.nodes[child_id]):
                     case Err(e):
                         response.success = False
-- 
2.43.0


From 5813de1dd18ec3355e1886d9f7086af588ae2368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:45 +0000
Subject: [PATCH 75/77] fix: shut down an Action that has not been set up

---
 ros_bt_py/ros_bt_py/ros_nodes/action.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/action.py b/ros_bt_py/ros_bt_py/ros_nodes/action.py
index e824518..9c09b00 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/action.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/action.py
@@ -99,7 +99,8 @@ class ActionBase(Leaf):
     _action_type: type
     _action_client: Optional[ActionClient] = None
     _feedback = None
-    _internal_state: ActionStates
+    _internal_state: ActionStates = ActionStates.IDLE
+    _new_goal_request_future: Optional[Future] = None
 
     # Returns the action goal message that should be send to the server.
     @abc.abstractmethod
-- 
2.43.0


From b40ccfa71104c303332afd732ecff8d07e4bc321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:45 +0000
Subject: [PATCH 76/77] fix: shut down a WaitForService that has not been set
 up

---
 ros_bt_py/ros_bt_py/ros_nodes/service.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/service.py b/ros_bt_py/ros_bt_py/ros_nodes/service.py
index 4198e9e..4fa34ab 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/service.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/service.py
@@ -366,6 +366,8 @@ class Service(ServiceBase):
 class WaitForService(Leaf):
     """Wait for a service to be available, fails if this wait times out."""
 
+    _service_client: Optional[Client] = None
+
     def _do_setup(self) -> Result[BTNodeState, BehaviorTreeException]:
         if not self.has_ros_node:
             self.logerr("No ROS node reference available!")
@@ -382,7 +384,7 @@ class WaitForService(Leaf):
             case Ok(f):
                 self._wait_for_service_seconds = f
 
-        self._service_client: Optional[Client] = None
+        self._service_client = None
         self._last_service_call_time: Optional[Time] = None
         return Ok(BTNodeState.IDLE)
 
-- 
2.43.0


From a2c20832bad13094d78d16d2a7da4244b25f58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:45 +0000
Subject: [PATCH 77/77] fix: shut down a TopicPublisher that has not been set
 up

---
 ros_bt_py/ros_bt_py/ros_nodes/topic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ros_bt_py/ros_bt_py/ros_nodes/topic.py b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
index 6312695..abd30c9 100644
--- a/ros_bt_py/ros_bt_py/ros_nodes/topic.py
+++ b/ros_bt_py/ros_bt_py/ros_nodes/topic.py
@@ -567,7 +567,7 @@ class TopicPublisher(Leaf):
         return self._do_reset().map(lambda _: BTNodeState.SHUTDOWN)
 
     def _do_reset(self) -> Result[BTNodeState, BehaviorTreeException]:
-        if self._publisher is None:
+        if getattr(self, "_publisher", None) is None:
             return Ok(BTNodeState.IDLE)
         if not self.ros_node.destroy_publisher(self._publisher):
             error_msg = "Failed to destroy publisher"
-- 
2.43.0

