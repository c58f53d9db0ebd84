From 1cfa653c67f22ee242a74f9ca631e3ed1b13a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:29 +0000
Subject: [PATCH 01/19] fix: give ACTStates.error_mode a default so that
 builders can create states

ControllerBuilder.new_builder (and every other construction site) never passed
error_mode, so creating any controller raised TypeError.
---
 src/jax_act/core/states.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index bfcd207..99c523e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -171,7 +171,7 @@ class ACTStates:
     accumulators: Dict[str, PyTree]
     updates: Dict[str, Optional[PyTree]]
     depression_constant: float
-    error_mode: str
+    error_mode: Optional[str] = None
 
 # We define the functions to represent states as a pytree,
 # and then register the tree.
-- 
2.43.0


From 4bb037521c534d2e1cbdd5735555653fb56c562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:18 +0000
Subject: [PATCH 02/19] fix: ACTStates.replace no longer calls validators that
 do not exist

replace(depression_constant=...) and replace(error_mode=...) always raised
AttributeError.
---
 src/jax_act/core/states.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 99c523e..62a0e6e 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -143,15 +143,8 @@ class ACTStates:
         updates = self.updates if updates is None else updates
         defaults = self.defaults if defaults is None else defaults
 
-        if depression_constant is None:
-            depression_constant = self.depression_constant
-        else:
-            depression_constant = self.validate_depression_constant(depression_constant)
-        if error_mode is None:
-            error_mode = self.error_mode
-        else:
-            error_mode = self.validate_error_mode(error_mode)
-
+        depression_constant = self.depression_constant if depression_constant is None else depression_constant
+        error_mode = self.error_mode if error_mode is None else error_mode
 
         return ACTStates(epsilon,
                          iterations,
-- 
2.43.0


From 85c4b556a114f2cb0753baae2e362ceb6cb7b81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:20 +0000
Subject: [PATCH 03/19] fix: keep ACTStates.error_mode out of the pytree leaves

A state with a (string) error mode could not pass through jit, scan or
while_loop, since jax cannot trace a string leaf.
---
 src/jax_act/core/states.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index 62a0e6e..cd11314 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -175,6 +175,10 @@ class ACTStates:
 def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
     state = asdict(state)
 
+    # The error mode is a string, which jax cannot trace. It is
+    # carried as static data instead of as a leaf.
+    error_mode = state.pop("error_mode")
+
     aux_out = []
     values = []
     for key, value in state.items():
@@ -182,14 +186,16 @@ def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
 
         aux_out.append(aux)
         values.append(value)
+    aux_out.append(error_mode)
     return zip(state.keys(), values), aux_out
 
 def state_unflatten(aux_data: Any, flat_state: Any) -> ACTStates:
 
+    *tree_defs, error_mode = aux_data
     values = []
-    for value, tree_def in zip(flat_state, aux_data):
+    for value, tree_def in zip(flat_state, tree_defs):
         value = jax.tree_util.tree_unflatten(tree_def, value)
         values.append(value)
-    return ACTStates(*values)
+    return ACTStates(*values, error_mode=error_mode)
 
 jax.tree_util.register_pytree_with_keys(ACTStates, state_flatten, state_unflatten)
\ No newline at end of file
-- 
2.43.0


From 7c72ec2258a550d6ea8f559fbd656042c23c56b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:20 +0000
Subject: [PATCH 04/19] fix: reset_batches broadcasts against the leaf, not the
 whole accumulator

Resetting a controller holding any accumulator that is a pytree raised
AttributeError.
---
 src/jax_act/core/controller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 94a4456..bde8c1a 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -396,7 +396,7 @@ class ACT_Controller(Immutable):
                 #
                 # Then reset to defaults where appropriate and return.
                 broadcastable_selector = utils.setup_left_broadcast(unhalted_batch_selector,
-                                                                    accumulator)
+                                                                    accumulator_leaf)
                 broadcastable_selector = jnp.broadcast_to(broadcastable_selector, accumulator_leaf.shape)
                 return jax.lax.select(broadcastable_selector,
                                      accumulator_leaf,
-- 
2.43.0


From 825850c1ff4c44326cb5161f43f576a5954a6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:20 +0000
Subject: [PATCH 05/19] fix: ACTViewer.transform applies to the cached updates

It built the transformed updates from the defaults, so every masked or
transformed viewer showed the defaults in place of the pending updates.
---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5cfb5bb..5141c82 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -116,7 +116,7 @@ class ACTViewer(Immutable):
 
             updates = {name: jax.tree_util.tree_map(update_applier, value)
                         for name, value
-                        in self.defaults.items()}
+                        in self.updates.items()}
 
         except Exception as err:
             msg = "An issue occurred in using the provided function"
-- 
2.43.0


From 52cc54bfb9a9e37565fa4ec7bcface8dd91495a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:20 +0000
Subject: [PATCH 06/19] fix: mask_data zeroes masked entries that are infinite
 or nan

Multiplying by the mask leaves nan where the masked out element was inf or
nan, although masked out elements are documented to be filled with zeros.
---
 src/jax_act/core/viewer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index 5141c82..ea16802 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -155,7 +155,7 @@ class ACTViewer(Immutable):
 
         def update_function(tensor: jnp.ndarray)->jnp.ndarray:
             broadcastable_mask = utils.setup_left_broadcast(mask, tensor)
-            return broadcastable_mask*tensor
+            return jnp.where(broadcastable_mask, tensor, jnp.zeros_like(tensor))
 
         return self.transform(update_function)
 
-- 
2.43.0


From a33f45388bbfe805002b6a35de854adb71ea3b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:20 +0000
Subject: [PATCH 07/19] fix: check the returned controller for uncommitted
 updates

run_iteration validated the controller that went in, so a layer that cached
updates and never committed them was not reported.
---
 src/jax_act/layers/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/layers/core.py b/src/jax_act/layers/core.py
index 58aa6f7..896b93d 100644
--- a/src/jax_act/layers/core.py
+++ b/src/jax_act/layers/core.py
@@ -302,7 +302,7 @@ class ContractValidationWrapper:
             new_controller, _ = update
             self._validate_is_controller(new_controller, context_message)
             self._validate_is_novel_controller(controller, new_controller, context_message)
-            self._validate_all_act_updates_committed(controller, context_message)
+            self._validate_all_act_updates_committed(new_controller, context_message)
 
         self._execute_validation(validate)
         return update
-- 
2.43.0


From a7aa5147cc1db2bf9fbd527fa2e6702ff6cabd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:20 +0000
Subject: [PATCH 08/19] fix: the editor rejects replacements with missing
 leaves

None in place of a tensor (including in place of a whole accumulator) passed
validation in standard mode.
---
 src/jax_act/core/tensoreditor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 8a1741b..eb0086b 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -252,6 +252,17 @@ class TensorEditor(Immutable):
         original_leaves = jax.tree_util.tree_leaves(original)
         new_leaves = jax.tree_util.tree_leaves(new)
 
+        # The structure check ignores the contents of leaves, so a missing (None)
+        # leaf has to be caught here.
+        msg = f"""
+        The original had {len(original_leaves)} tensors.
+        However, the update has {len(new_leaves)} tensors
+
+        These do not match.
+        """
+        msg = utils.format_error_message(msg, info)
+        checkify.check(len(original_leaves) == len(new_leaves), msg)
+
         for i, (original_leaf, new_leaf) in enumerate(zip(original_leaves, new_leaves)):
             # Check if leaf has same shape
             msg = f"""
-- 
2.43.0


From 8516745106a98fa4c6db670b96391ab045110070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:20 +0000
Subject: [PATCH 09/19] fix: accumulate in the dtype of the accumulator

An accumulator of a narrower dtype than the probabilities, which the builder
allows, made every iterate_act fail with a dtype mismatch.
---
 src/jax_act/core/controller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index bde8c1a..c8dae19 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -222,6 +222,7 @@ class ACT_Controller(Immutable):
         # We will often need to unsqueeze on the last dimension to make this
         # happen. This section accomplishes this.
         halted_batches = self.halted_batches
+        halting_probabilities = halting_probabilities.astype(accumulator_value.dtype)
         halting_probabilities = utils.setup_left_broadcast(halting_probabilities, accumulator_value)
         halted_batches = utils.setup_left_broadcast(halted_batches, accumulator_value)
         halted_batches = jnp.broadcast_to(halted_batches, accumulator_value.shape)
-- 
2.43.0


From e5edb8d0fe2b551fbc362ba5a991c22c9a964000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:20 +0000
Subject: [PATCH 10/19] fix: are_pytrees_equal compares structure and shapes

Trees with different keys, or with tensors that merely broadcast against each
other, were reported equal; other mismatches raised instead of returning False.
---
 src/jax_act/core/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 8ab623c..66b79d9 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -297,11 +297,16 @@ def are_pytrees_equal(tree_one: PyTree, tree_two: PyTree, use_allclose: bool = T
      :return:
     """
 
+    if jax.tree_util.tree_structure(tree_one) != jax.tree_util.tree_structure(tree_two):
+        return False
+
     def are_leaves_equal(leaf_one: Any, leaf_two: Any)->bool:
         if type(leaf_one) != type(leaf_two):
             return False
         elif isinstance(leaf_one, (jnp.ndarray, np.ndarray)):
-            if use_allclose:
+            if leaf_one.shape != leaf_two.shape:
+                return False
+            elif use_allclose:
                 return jnp.allclose(leaf_one, leaf_two)
             else:
                 return jnp.all(leaf_one == leaf_two)
-- 
2.43.0


From bd3a0b6d0164c59551b67d5c5a5a9004f85d6000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:57 +0000
Subject: [PATCH 11/19] fix: a batch element with no probability left is halted

With an epsilon below the resolution of the probability dtype (the default
1e-4 under float16 or bfloat16, or 0.0, which the editor accepts) the halt
threshold rounds to 1.0. Elements then never halted, although their cumulative
probability reached one: the loop never completed, and the recorded residual
was overwritten with zero and the iteration count kept growing.
---
 src/jax_act/core/controller.py | 7 +++++--
 src/jax_act/core/viewer.py     | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index c8dae19..94e5c9c 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -117,7 +117,9 @@ class ACT_Controller(Immutable):
         return 1-self.state.epsilon
     @property
     def halted_batches(self)->jnp.ndarray:
-        return self.probabilities > self.halt_threshold
+        # When epsilon is below the resolution of the dtype, the threshold rounds
+        # to one and can never be exceeded. No probability left means halted.
+        return (self.probabilities > self.halt_threshold) | (self.probabilities >= 1.0)
 
     @property
     def is_completely_halted(self)->bool:
@@ -161,7 +163,8 @@ class ACT_Controller(Immutable):
         # something that is going to be halted, but are not
         # currently halted, will halt in this iteration.
 
-        will_be_halted = (halting_probabilities + self.probabilities) > self.halt_threshold
+        cumulative = halting_probabilities + self.probabilities
+        will_be_halted = (cumulative > self.halt_threshold) | (cumulative >= 1.0)
         newly_halting = will_be_halted & ~self.halted_batches
 
         # Master residuals are updated only the round that we
diff --git a/src/jax_act/core/viewer.py b/src/jax_act/core/viewer.py
index ea16802..074cc36 100644
--- a/src/jax_act/core/viewer.py
+++ b/src/jax_act/core/viewer.py
@@ -78,7 +78,8 @@ class ACTViewer(Immutable):
         return 1-self.state.epsilon
     @property
     def halted_batches(self)->jnp.ndarray:
-        return self.probabilities > self.halt_threshold
+        # See ACT_Controller.halted_batches
+        return (self.probabilities > self.halt_threshold) | (self.probabilities >= 1.0)
 
     #
     def transform(self,
-- 
2.43.0


From 7f9028e607a99d5fe0cdeffaf0ab7e49342fdb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:10 +0000
Subject: [PATCH 12/19] fix: the editor rejects nan probabilities and residuals

nan is not between zero and one, but passed validation in standard mode.
set_iterations and set_epsilon already reject it.
---
 src/jax_act/core/tensoreditor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index eb0086b..2a0eddb 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -182,14 +182,14 @@ class TensorEditor(Immutable):
         A tensor representing probabilities had elements less than zero
         """
         msg = utils.format_error_message(msg, info)
-        checkify.check(~jnp.any(tensor < 0), msg)
+        checkify.check(jnp.all(tensor >= 0), msg)
 
         # Check high
         msg = """
         A tensor representing probabilities had elements greater than one
         """
         msg = utils.format_error_message(msg, info)
-        checkify.check(~jnp.any(tensor > 1.0), msg)
+        checkify.check(jnp.all(tensor <= 1.0), msg)
     @staticmethod
     def _validate_is_natural_numbers(tensor: jnp.ndarray,
                                      context: str):
-- 
2.43.0


From 46dd035b92ba30bbd8880ef300cf9570725f1dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:25 +0000
Subject: [PATCH 13/19] fix: new_builder rejects a nan epsilon

---
 src/jax_act/core/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jax_act/core/builder.py b/src/jax_act/core/builder.py
index 440ebc3..28d71c3 100644
--- a/src/jax_act/core/builder.py
+++ b/src/jax_act/core/builder.py
@@ -430,7 +430,7 @@ class ControllerBuilder(Immutable):
             msg = "dtype of probabilities core must be floating"
             msg = utils.format_error_message(msg, context_error_message)
             raise ValueError(msg)
-        if (epsilon >= 1.0) or (epsilon <= 0.0):
+        if not (0.0 < epsilon < 1.0):
             msg = "epsilon insane: Not between 0 and 1"
             msg = utils.format_error_message(msg, context_error_message)
             raise ValueError(msg)
-- 
2.43.0


From a66ded446b61943599303a8dedcd59f5989d8583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:30 +0000
Subject: [PATCH 14/19] fix: ahead-of-time compiled functions of a controller
 can be called

---
 src/jax_act/core/states.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/states.py b/src/jax_act/core/states.py
index cd11314..70475d7 100644
--- a/src/jax_act/core/states.py
+++ b/src/jax_act/core/states.py
@@ -6,7 +6,7 @@ import textwrap
 
 import jax
 from enum import Enum
-from dataclasses import dataclass, asdict
+from dataclasses import dataclass, fields
 from typing import Dict, Optional, Any, Tuple, Callable, List
 from jax import numpy as jnp
 from jax.experimental import checkify
@@ -173,7 +173,9 @@ class ACTStates:
 # the keys from the state, and doing the reverse to put
 # everything back together.
 def state_flatten(state: ACTStates) -> Tuple[Any, Any]:
-    state = asdict(state)
+    # Not asdict: leaves which happen to be dataclasses, such as
+    # those jax uses to describe arguments, have to be kept as is.
+    state = {field.name : getattr(state, field.name) for field in fields(state)}
 
     # The error mode is a string, which jax cannot trace. It is
     # carried as static data instead of as a leaf.
-- 
2.43.0


From b808c8d8a916de7cfc9f7e71d40daf2d922f49f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:10 +0000
Subject: [PATCH 15/19] fix: an empty node of the first tree is filled from
 neither side, so try the other direction instead of failing an internal
 assertion

---
 src/jax_act/core/utils.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 66b79d9..d0d25a9 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -491,6 +491,15 @@ def _replicate_leaves(source_treedef: PyTreeDef,
         if _is_empty_collection(source_treedef):
             # Bugfix. Collections that are currently empty will be identified
             # as leaves, but not displaced during flatten. We skip those.
+            if _count_linked_leaves(target_treedef) > 0:
+                msg = """
+                Source tree was not broadcastable.
+
+                Source tree had an empty node, at a position where the
+                target tree had tensors. There is nothing to fill those with.
+                """
+                msg = format_error_message(msg, context_message)
+                raise RuntimeError(msg)
             return [], source_leaves_queue
 
         node_to_repeat = source_leaves_queue.pop(0)
-- 
2.43.0


From 1e0b50a7fae4df5ea28775bebd75ec74f9519598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:41 +0000
Subject: [PATCH 16/19] fix: refuse updates with another number of leaves under
 python -O too

merge_pytrees only asserted that the two trees have the same number of
leaves, so with assertions off surplus leaves of an update were dropped
silently and missing ones truncated the accumulator.
---
 src/jax_act/core/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index d0d25a9..0aac80d 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -256,7 +256,9 @@ def merge_pytrees(function: Callable[[Any,
     primary_leaves = jax.tree_util.tree_flatten(primary_tree)[0]
     auxilary_leaves = jax.tree_util.tree_flatten(auxilary_tree)[0]
 
-    assert len(primary_leaves) == len(auxilary_leaves)  # Just a quick sanity check.
+    if len(primary_leaves) != len(auxilary_leaves):
+        # Not an assertion, since those are skipped when python runs with -O
+        raise ValueError(f"Trees have different numbers of leaves: {len(primary_leaves)} and {len(auxilary_leaves)}")
 
     new_leaves = []
     for primary_leaf, aux_leaf in zip(primary_leaves, auxilary_leaves):
-- 
2.43.0


From 432da740700b3382929bfb2bb9431c9fa7468f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:49 +0000
Subject: [PATCH 17/19] fix: refuse targets of too few dimensions under python
 -O too

setup_left_broadcast only asserted it, so with assertions off masking a
viewer with a pending update of too few dimensions changed its shape
instead of being refused.
---
 src/jax_act/core/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jax_act/core/utils.py b/src/jax_act/core/utils.py
index 0aac80d..21648a7 100644
--- a/src/jax_act/core/utils.py
+++ b/src/jax_act/core/utils.py
@@ -219,7 +219,9 @@ def setup_left_broadcast(tensor: jnp.ndarray,
         # Scalars will always left broadcast just fine
         return tensor
 
-    assert len(tensor.shape) <= len(target.shape)
+    if len(tensor.shape) > len(target.shape):
+        # Not an assertion, since those are skipped when python runs with -O
+        raise AssertionError(f"Tensor of shape {tensor.shape} has more dimensions than target of shape {target.shape}")
     while len(tensor.shape) < len(target.shape):
         tensor = tensor[..., None]
     return tensor
-- 
2.43.0


From bee2ebcfb4c9c2b5fcf6e643f1125eda3ae974c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:26 +0000
Subject: [PATCH 18/19] fix: an element near the threshold was halting for some
 quantities and not for others once compiled

---
 src/jax_act/core/controller.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jax_act/core/controller.py b/src/jax_act/core/controller.py
index 94e5c9c..d159efe 100644
--- a/src/jax_act/core/controller.py
+++ b/src/jax_act/core/controller.py
@@ -156,6 +156,13 @@ class ACT_Controller(Immutable):
 
         halting_probabilities = self.depression_constant*halting_probabilities
 
+        # No more than one is ever needed to halt. The clamp also keeps compilers
+        # from contracting the product and the sum below into one fused operation
+        # in some of the places where the sum is needed but not in others, upon
+        # which these would disagree on whether an element is halting.
+
+        halting_probabilities = jnp.minimum(halting_probabilities, 1.0)
+
         # We need to know what batches are just now halting
         # to capture that information in the residuals, and
         # what tensors will be halting to properly trim
-- 
2.43.0


From 27b9890841f9c73976825a3cf5e55326cbbdc0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:21 +0000
Subject: [PATCH 19/19] fix: the editor refused an epsilon given as a NumPy
 number

checkify.check takes no NumPy booleans, so setting the epsilon to a
np.float64 - which is a float - was refused with a TypeError.
---
 src/jax_act/core/tensoreditor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jax_act/core/tensoreditor.py b/src/jax_act/core/tensoreditor.py
index 2a0eddb..0dae98a 100644
--- a/src/jax_act/core/tensoreditor.py
+++ b/src/jax_act/core/tensoreditor.py
@@ -380,12 +380,12 @@ class TensorEditor(Immutable):
             # Check epsilon too low
             msg = f"Epsilon was too low. Probabilities should be greater than or equal to zero, got {epsilon}"
             msg = utils.format_error_message(msg, context_message)
-            checkify.check(epsilon >= 0.0, msg)
+            checkify.check(jnp.asarray(epsilon >= 0.0), msg)
 
             # Check epsilon too high
             msg = f"Epsilon was too high. Probabilities should be greater than or equal to zero, got {epsilon}"
             msg = utils.format_error_message(msg, context_message)
-            checkify.check(epsilon <= 1.0, msg)
+            checkify.check(jnp.asarray(epsilon <= 1.0), msg)
 
         self._execute_validation(check_for_errors)
         state = self.state.replace(epsilon = epsilon)
-- 
2.43.0

