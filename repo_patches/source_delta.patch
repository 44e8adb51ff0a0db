From f7f1ad30ec604c9d155fd6345ae08bd2b978a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 01/36] fix: honour RunBefore/RunAfter restrictions given as
 generic aliases

---
 instancespace/stage_builder.py | 27 ++++++++++---------------
 instancespace/stage_runner.py  | 36 ++++++++++++++++++++++++++++++----
 2 files changed, 42 insertions(+), 21 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index adb8080..3b77302 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -2,7 +2,12 @@
 
 from typing import NamedTuple, Self, get_args
 
-from instancespace.stage_runner import StageRunner, StageScheduleElement, _StageArgument
+from instancespace.stage_runner import (
+    StageRunner,
+    StageScheduleElement,
+    _is_run_restriction,
+    _StageArgument,
+)
 from instancespace.stages.stage import RunAfter, RunBefore, StageClass
 
 
@@ -107,9 +112,7 @@ class StageBuilder:
         outputs = stage._outputs()  # noqa: SLF001
 
         for output_name, output_type in self._named_tuple_to_stage_arguments(outputs):
-            if isinstance(output_type, type) and (
-                issubclass(output_type, RunBefore) or issubclass(output_type, RunAfter)
-            ):
+            if _is_run_restriction(output_type, RunBefore, RunAfter):
                 raise TypeError(
                     f"Argument {output_name} is a {output_type}. "
                     + f"{output_type}s are only allowed as inputs.",
@@ -265,11 +268,7 @@ class StageBuilder:
         return {
             argument
             for argument in arguments
-            if not isinstance(argument.parameter_type, type)
-            or not (
-                issubclass(argument.parameter_type, RunBefore)
-                or issubclass(argument.parameter_type, RunAfter)
-            )
+            if not _is_run_restriction(argument.parameter_type, RunBefore, RunAfter)
         }
 
     def _get_mutating_stages(self) -> dict[StageClass, set[_StageArgument]]:
@@ -292,19 +291,13 @@ class StageBuilder:
 
         for stage in self._stages:
             for argument in self._stage_inputs[stage]:
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunBefore,
-                ):
+                if _is_run_restriction(argument.parameter_type, RunBefore):
                     before_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(stage, before_stage),
                     )
 
-                if isinstance(argument.parameter_type, type) and issubclass(
-                    argument.parameter_type,
-                    RunAfter,
-                ):
+                if _is_run_restriction(argument.parameter_type, RunAfter):
                     after_stage = get_args(argument.parameter_type)[0]
                     ordering_restrictions.add(
                         _BeforeAfterRestriction(after_stage, stage),
diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 32041b8..e9d789f 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -5,9 +5,9 @@ Is created by a StageBuilder.
 from copy import deepcopy
 from collections import defaultdict
 from collections.abc import Generator
-from typing import Any, NamedTuple
+from typing import Any, NamedTuple, get_origin
 
-from instancespace.stages.stage import OUT, Stage, StageClass
+from instancespace.stages.stage import OUT, RunAfter, RunBefore, Stage, StageClass
 
 StageScheduleElement = list[StageClass]
 
@@ -19,6 +19,18 @@ class _StageArgument(NamedTuple):
     parameter_type: type
 
 
+def _is_run_restriction(
+    argument_type: Any,  # noqa: ANN401
+    *restrictions: type,
+) -> bool:
+    """Check whether an argument type is one of the given ordering restrictions.
+
+    RunBefore[X] and RunAfter[X] are generic aliases, not types.
+    """
+    origin = get_origin(argument_type) or argument_type
+    return isinstance(origin, type) and issubclass(origin, restrictions)
+
+
 class StageRunningError(Exception):
     """An error during stage running."""
 
@@ -146,6 +158,12 @@ class StageRunner:
         raw_inputs = {}
 
         for input_name in input_arguments._fields:
+            input_type = input_arguments.__annotations__[input_name]
+            if _is_run_restriction(input_type, RunBefore, RunAfter):
+                # Only affects the running order, nothing is passed to the stage
+                raw_inputs[input_name] = None
+                continue
+
             # TODO: Some sort of type check on the inputs
             raw_inputs[input_name] = available_arguments[input_name]
 
@@ -243,11 +261,21 @@ class StageRunner:
 
         for schedule_element in stages:
             for stage in schedule_element:
-                if len(input_arguments[stage] - available_arguments) > 0:
+                required_arguments = {
+                    argument
+                    for argument in input_arguments[stage]
+                    if not _is_run_restriction(
+                        argument.parameter_type,
+                        RunBefore,
+                        RunAfter,
+                    )
+                }
+
+                if len(required_arguments - available_arguments) > 0:
                     raise StageRunningError(
                         "Stage order was not runnable. Not all inputs were available "
                         + "for a stage at the time of running. Missing inputs: "
-                        + f"{list(input_arguments[stage] - available_arguments)}",
+                        + f"{list(required_arguments - available_arguments)}",
                     )
 
             for stage in schedule_element:
-- 
2.43.0


From c01e910b32d9ca210662b4cf7bd4bd8682a8977e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:52 +0000
Subject: [PATCH 02/36] fix: do not add stage outputs to the caller's initial
 argument set when resolving

---
 instancespace/stage_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index 3b77302..6098159 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -161,7 +161,7 @@ class StageBuilder:
 
         stage_order: list[StageScheduleElement] = []
 
-        available_inputs: set[_StageArgument] = initial_input_annotations
+        available_inputs: set[_StageArgument] = initial_input_annotations.copy()
 
         previous_resolved_stages: set[StageClass] | None = None
 
-- 
2.43.0


From 185d7929daeb577d4eaf4c19118a36bcb05b634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:53 +0000
Subject: [PATCH 03/36] fix: resolve stages that have no outputs

---
 instancespace/stage_builder.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/instancespace/stage_builder.py b/instancespace/stage_builder.py
index 6098159..2a636d0 100644
--- a/instancespace/stage_builder.py
+++ b/instancespace/stage_builder.py
@@ -219,9 +219,8 @@ class StageBuilder:
 
             # Add outputs of stages that can run to the list of available inputs
             for stage in stages_can_run_post_mutating_check:
-                for argument in self._stage_outputs[stage]:
-                    available_inputs.add(argument)
-                    resolved_stages.add(stage)
+                available_inputs |= self._stage_outputs[stage]
+                resolved_stages.add(stage)
 
             stage_order.append(list(stages_can_run_post_mutating_check))
 
-- 
2.43.0


From 4f1cc8b2b5270a5fb7b0831eec22614dce00af3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 04/36] fix: give every schedule element its own snapshot so
 reruns do not see later outputs

---
 instancespace/stage_runner.py | 36 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index e9d789f..588d9d0 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -45,8 +45,8 @@ class AnnotatedStageOutput(NamedTuple):
 class StageRunner:
     """A runner to run a list of stages."""
 
-    # Data output from stages that can be used as input for future stages. Saved
-    # at every stage schedule so you can rerun stages.
+    # Data available to the stages before each schedule element is ran. Saved at every
+    # stage schedule so you can rerun stages.
     _schedule_output_data: list[dict[str, Any]]
 
     _available_arguments: dict[str, Any]
@@ -109,9 +109,7 @@ class StageRunner:
         ------
             Generator[AnnotatedStageOutput, None, dict[str, Any]]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._restart(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
@@ -175,10 +173,6 @@ class StageRunner:
         for output_name, output_value in outputs._asdict().items():
             self._available_arguments[output_name] = output_value
 
-        self._schedule_output_data[self._current_schedule_item] = (
-            self._available_arguments
-        )
-
         self._stages_ran[stage] = True
 
         self._progress_schedule()
@@ -214,9 +208,7 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._restart(additional_arguments)
 
         for schedule in self._stage_order:
             for stage in schedule:
@@ -235,9 +227,7 @@ class StageRunner:
         -------
             tuple[Any]: _description_
         """
-        self._rollback_to_schedule_index(0)
-
-        self._available_arguments = additional_arguments._asdict()
+        self._restart(additional_arguments)
 
         for schedule in self._stage_order:
             if stop_at_stage in schedule:
@@ -281,16 +271,20 @@ class StageRunner:
             for stage in schedule_element:
                 available_arguments |= output_arguments[stage]
 
+    def _restart(self, additional_arguments: NamedTuple) -> None:
+        self._schedule_output_data = [additional_arguments._asdict()]
+        self._rollback_to_schedule_index(0)
+
     def _rollback_to_schedule_index(
         self,
         index: int,
     ) -> None:
         self._current_schedule_item = index
-        self._available_arguments = self._schedule_output_data[index]
+        self._available_arguments = self._schedule_output_data[index].copy()
 
         self._schedule_output_data = self._schedule_output_data[: index + 1]
 
-        for schedule_element in self._stage_order[index + 1 :]:
+        for schedule_element in self._stage_order[index:]:
             for stage in schedule_element:
                 self._stages_ran[stage] = False
 
@@ -302,11 +296,5 @@ class StageRunner:
                 break
 
         if current_schedule_finished:
-            self._schedule_output_data[self._current_schedule_item] = (
-                self._available_arguments
-            )
-
             self._current_schedule_item += 1
-
-            if len(self._schedule_output_data) <= self._current_schedule_item:
-                self._schedule_output_data.append({})
+            self._schedule_output_data.append(self._available_arguments.copy())
-- 
2.43.0


From 125b9886477c777fd6d5612cb1ac5429f7668d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:10 +0000
Subject: [PATCH 05/36] fix: run_until_stage runs the specified stage as
 documented

---
 instancespace/stage_runner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stage_runner.py b/instancespace/stage_runner.py
index 588d9d0..b2ba4a8 100644
--- a/instancespace/stage_runner.py
+++ b/instancespace/stage_runner.py
@@ -230,12 +230,12 @@ class StageRunner:
         self._restart(additional_arguments)
 
         for schedule in self._stage_order:
-            if stop_at_stage in schedule:
-                break
-
             for stage in schedule:
                 self.run_stage(stage)
 
+            if stop_at_stage in schedule:
+                break
+
         return self._available_arguments
 
         # TODO: Work out what this should return. Maybe just the dict of outputs?
-- 
2.43.0


From d18bc4166230f9b4ecbdaf6e95c3cab21414638f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:21 +0000
Subject: [PATCH 06/36] fix: model reflects the latest complete run, including
 one made with run_iter

---
 instancespace/instance_space.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/instancespace/instance_space.py b/instancespace/instance_space.py
index 6c657de..3ec6a7d 100644
--- a/instancespace/instance_space.py
+++ b/instancespace/instance_space.py
@@ -236,6 +236,7 @@ class InstanceSpace:
             self.options,
         )
         self._final_output = self._runner.run_all(inputs)
+        self._model = None
 
         return self.model
 
@@ -254,7 +255,8 @@ class InstanceSpace:
             self.metadata,
             self.options,
         )
-        yield from self._runner.run_iter(inputs)
+        self._final_output = yield from self._runner.run_iter(inputs)
+        self._model = None
 
     def run_stage(
         self,
-- 
2.43.0


From c7a36d00e1cb45d548d5c14ff916ae2258c33265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:48 +0000
Subject: [PATCH 07/36] fix: instance labels follow the rows kept by PRELIM

---
 instancespace/stages/prelim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index d71f98f..855ecbd 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -118,8 +118,8 @@ class PrelimOutput(NamedTuple):
     beta : NDArray[np.bool_]
         Binary array indicating selected features based on certain criteria
           (True if selected).
-    instlabels : pd.Series | None
-        Labels for each instance in the dataset, if provided.
+    inst_labels : pd.Series
+        Labels for each instance kept in the dataset.
     data_dense : DataDense | None
         Dense data representation, if available, containing compressed or alternative
           feature representations.
@@ -149,7 +149,7 @@ class PrelimOutput(NamedTuple):
     p: NDArray[np.int_]
     num_good_algos: NDArray[np.double]
     beta: NDArray[np.bool_]
-    instlabels: pd.Series | None  # type: ignore[type-arg]
+    inst_labels: pd.Series  # type: ignore[type-arg]
     data_dense: DataDense | None
     s: pd.Series | None  # type: ignore[type-arg]
 
-- 
2.43.0


From d37aa6cff315d3db0504aac8be56104deaadee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:48 +0000
Subject: [PATCH 08/36] fix: PRELIM no longer overwrites zeros in the caller's
 performance matrix

---
 instancespace/stages/prelim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 855ecbd..1c87a78 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -608,6 +608,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         NDArray[np.double],  # PrelimOut.mu_y
     ]:
         y_raw = y.copy()
+        y = y.copy()
         nalgos = y.shape[1]
 
         print(
-- 
2.43.0


From 40d9f6e351b381d9823a22c71bf671a02b5e6d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:48 +0000
Subject: [PATCH 09/36] fix: PRELIM normalises the relative performance it
 computed

---
 instancespace/stages/prelim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 1c87a78..70994d3 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -700,6 +700,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         sigma_y = np.zeros(nalgos)
 
         if prelim_opts.norm:
+            self.y = y
             normalise_out = self._normalise()
             x = normalise_out.x
             min_x = normalise_out.min_x
-- 
2.43.0


From 11c40ab9d5d92699f52949693232e75b1ce49c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:48 +0000
Subject: [PATCH 10/36] fix: PRELIM ignores missing values in bounds and minima

---
 instancespace/stages/prelim.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 70994d3..239c110 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -445,9 +445,14 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             lo_bound: The lower bound for the feature values.
         """
         print("-> Removing extreme outliers from the feature values.")
-        med_val = np.median(self.x, axis=0)
+        med_val = np.nanmedian(self.x, axis=0)
 
-        iq_range = stats.iqr(self.x, axis=0, interpolation="midpoint")
+        iq_range = stats.iqr(
+            self.x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
 
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
@@ -535,7 +540,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
         nfeats = self.x.shape[1]
         nalgos = self.y.shape[1]
 
-        min_x = np.min(self.x, axis=0)
+        min_x = np.nanmin(self.x, axis=0)
         self.x = self.x - min_x + 1
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
@@ -550,7 +555,7 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             aux = stats.zscore(aux, ddof=1)
             self.x[~idx, i] = aux
 
-        min_y = float(np.min(self.y))
+        min_y = float(np.nanmin(self.y))
 
         self.y = (self.y - min_y) + np.finfo(float).eps
 
@@ -675,8 +680,13 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             p,
         )
 
-        med_val = np.median(x, axis=0)
-        iq_range = stats.iqr(x, axis=0, interpolation="midpoint")
+        med_val = np.nanmedian(x, axis=0)
+        iq_range = stats.iqr(
+            x,
+            axis=0,
+            interpolation="midpoint",
+            nan_policy="omit",
+        )
         hi_bound = med_val + 5 * iq_range
         lo_bound = med_val - 5 * iq_range
 
@@ -690,11 +700,11 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
 
         nfeats = x.shape[1]
         nalgos = y.shape[1]
-        min_x = np.min(x, axis=0)
+        min_x = np.nanmin(x, axis=0)
         lambda_x = np.zeros(nfeats)
         mu_x = np.zeros(nfeats)
         sigma_x = np.zeros(nfeats)
-        min_y = float(np.min(y))
+        min_y = float(np.nanmin(y))
         lambda_y = np.zeros(nalgos)
         mu_y = np.zeros(nalgos)
         sigma_y = np.zeros(nalgos)
-- 
2.43.0


From eda6849eebbb415a469930257d805b1e598358e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:48 +0000
Subject: [PATCH 11/36] fix: keep the last instance and ignore out of range
 positions in index files

---
 instancespace/stages/prelim.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/instancespace/stages/prelim.py b/instancespace/stages/prelim.py
index 239c110..47d2a29 100644
--- a/instancespace/stages/prelim.py
+++ b/instancespace/stages/prelim.py
@@ -815,11 +815,9 @@ class PrelimStage(Stage[PrelimInput, PrelimOutput]):
             subset_index = np.zeros(ninst, dtype=bool)
             aux = np.genfromtxt(selvars_opts.file_idx, delimiter=",", dtype=int)
             print("aux:", aux)
-            aux = aux[aux < ninst]
-
-            for i in range(len(aux)):
-                aux[i] = aux[i] - 1
-            subset_index[aux] = True
+            # the file holds 1-based instance positions
+            aux = aux[(aux >= 1) & (aux <= ninst)]
+            subset_index[aux - 1] = True
 
         elif bydensity:
             print(
-- 
2.43.0


From c785110681943e30c7ca8aa96678f64fc57b0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 12/36] fix: SIFTED density filter keeps the selected feature
 columns

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 852ae08..1902aca 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -670,7 +670,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             if data_dense.s is not None:
                 s = data_dense.s[subset_index]
             return SiftedOutput(
-                data_dense.x[subset_index][:selvars],
+                data_dense.x[subset_index][:, selvars],
                 data_dense.y[subset_index][:],
                 data_dense.y_bin[subset_index][:],
                 data_dense.x_raw[subset_index][:],
-- 
2.43.0


From ccac9705795702b4b19dd4eae8f27fbe63ee7850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 13/36] fix: SIFTED genetic search minimises the classification
 error

---
 instancespace/stages/sifted.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 1902aca..13f272c 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -854,7 +854,8 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             )
             y = max(y, -scores.mean())
 
-        return y
+        # pygad maximises the fitness
+        return -y
 
     def _find_best_combination(
         self,
-- 
2.43.0


From 2c37c50200aa5c25cb6f133e95bcffaf77f2c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 14/36] fix: SIFTED genetic search scores the features it
 selects

---
 instancespace/stages/sifted.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 13f272c..9c0d024 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -920,12 +920,13 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             ),
         )
 
-        ga_instance.selfx = self.x
+        # the rows of clust are the columns of x_aux
+        ga_instance.selfx = x_aux
         ga_instance.selfy = self.y
         ga_instance.selfy_bin = self.y_bin
         ga_instance.cv_partition = cv_partition
         ga_instance.clust = clust
-        ga_instance.selffeat_labels = self.feat_labels
+        ga_instance.selffeat_labels = self.feat_labels[selvars]
 
         ga_instance.run()
 
-- 
2.43.0


From 786106c24a4fb86c8f4f8517efcfcaba5acb097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 15/36] fix: SIFTED compares the absolute correlation of each
 ranked feature with rho

---
 instancespace/stages/sifted.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 9c0d024..6289a07 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -747,7 +747,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Sort the correlations in descending order
         row = np.argsort(-filtered_rho, axis=0)
-        # sorted_rho = np.take_along_axis(rho, row, axis=0)
+        sorted_rho = np.take_along_axis(filtered_rho, row, axis=0)
 
         nfeats = self.x.shape[1]
         selvars = np.zeros(nfeats, dtype=bool)
@@ -757,7 +757,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
 
         # Take any feature that has correlation at least equal to opts.rho
         for i in range(nfeats):
-            selvars[np.unique(row[i, rho[i, :] >= self.opts.rho])] = True
+            selvars[np.unique(row[i, sorted_rho[i, :] >= self.opts.rho])] = True
 
         # Get indices of selected features
         selvars = np.where(selvars)[0]
-- 
2.43.0


From 07383785d61e5520357af11d50f4ee618e83a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 16/36] fix: report the silhouette score of the suggested
 number of clusters

---
 instancespace/stages/sifted.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 6289a07..1646126 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -1002,7 +1002,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         if max_k_silhoulette not in (self.opts.k, max_clusters):
             print(
                 f"    Suggested k value {max_k_silhoulette} with silhoulette score of",
-                f"{silhouette_scores[max_k_silhoulette]:.4f}",
+                f"{silhouette_scores[max_k_silhoulette_index]:.4f}",
             )
 
         # matlab returning numOfObservation, inspected K value, criterion values,
-- 
2.43.0


From 4ad0c63412c8f09bb1f6c8c8cfdf7712e0e122c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 17/36] fix: SIFTED idx holds the indices of the selected
 features

---
 instancespace/stages/sifted.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 1646126..93143b2 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -167,7 +167,7 @@ class SiftedOutput(NamedTuple):
     selvars : NDArray[np.intc]
         Array of indices for selected features after the sifted stage.
     idx : NDArray[np.intc]
-        Array of indices for selected algorithms after the sifted stage.
+        Array of indices of the selected features in the columns of x_raw.
     rho : NDArray[np.double], optional
         Array of coefficients or weights for features after the sifted stage.
     pval : NDArray[np.double], optional
@@ -539,7 +539,6 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
         opts = self.opts
 
         nfeats = x.shape[1]
-        idx = np.arange(nfeats)
         rng = np.random.default_rng(seed=0)
 
         # Prepare for Filter
@@ -578,7 +577,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 list(feat_labels),
                 selvars,
-                idx,
+                selvars,
                 None,
                 None,
                 None,
@@ -615,7 +614,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -641,7 +640,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 None,
@@ -683,7 +682,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 s,
                 [feat_labels[i] for i in selvars],
                 selvars,
-                idx,
+                selvars,
                 rho,
                 pval,
                 silhouette_scores,
@@ -703,7 +702,7 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
             s,
             [feat_labels[i] for i in selvars],
             selvars,
-            idx,
+            selvars,
             rho,
             pval,
             silhouette_scores,
-- 
2.43.0


From c4b3068dbbc0867a57d7d5d3a1942e94dd488fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:52 +0000
Subject: [PATCH 18/36] fix: honour the option that turns feature selection off

---
 instancespace/stages/sifted.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/instancespace/stages/sifted.py b/instancespace/stages/sifted.py
index 93143b2..ae3dce0 100644
--- a/instancespace/stages/sifted.py
+++ b/instancespace/stages/sifted.py
@@ -557,11 +557,12 @@ class SiftedStage(Stage[SiftedInput, SiftedOutput]):
                 "-> There is only 1 feature. Stopping space construction.",
             )
 
-        if nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
-            print(
-                "-> There are 3 or less features to do selection.",
-                "Skipping feature selection.",
-            )
+        if not opts.flag or nfeats <= SiftedStage.MIN_FEAT_REQUIRED:
+            if opts.flag:
+                print(
+                    "-> There are 3 or less features to do selection.",
+                    "Skipping feature selection.",
+                )
             selvars = np.arange(nfeats)
             return SiftedOutput(
                 x,
-- 
2.43.0


From 6f556f9db307896b34c67bbcb68851cbc8d11425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 19/36] fix: PILOT accepts a pre-calculated solution

---
 instancespace/stages/pilot.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index 73503af..b4f39a9 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -226,7 +226,9 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
                     " -> PILOT is using a pre-calculated solution.",
                     _do_output,
                 )
+                # a pre-calculated solution is a single column
                 alpha = options.alpha
+                idx = 0
             else:
                 if options.x0 is not None:
                     PilotStage._pilot_print(
-- 
2.43.0


From 1b1c1ee1b6a8cc93517814ec2bb9310e35bf90a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 20/36] fix: PILOT keeps the loadings of the first algorithm

---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index b4f39a9..abcf5b7 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -267,7 +267,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_z = x @ out_a.T
             b = alpha[2 * n :, idx].reshape(m, 2)
             x_hat = out_z @ b.T
-            out_c = b[n + 1 : m, :].T
+            out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
             r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
-- 
2.43.0


From f926854cf5c4bdb7fbcc282be7ecd44c889a44f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:10 +0000
Subject: [PATCH 21/36] fix: PILOT reports R2 per feature and algorithm

---
 instancespace/stages/pilot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pilot.py b/instancespace/stages/pilot.py
index abcf5b7..9ab0691 100644
--- a/instancespace/stages/pilot.py
+++ b/instancespace/stages/pilot.py
@@ -270,7 +270,7 @@ class PilotStage(Stage[PilotInput, PilotOutput]):
             out_c = b[n:m, :].T
             out_b = b[:n, :]
             error = np.sum((x_bar - x_hat) ** 2)
-            r2 = np.diag(np.corrcoef(x_bar, x_hat) ** 2).astype(np.double)
+            r2 = np.diag(np.corrcoef(x_bar, x_hat, rowvar=False)[:m, m:]) ** 2
 
         if options.analytic:
             summary = pd.DataFrame(out_a)
-- 
2.43.0


From 7d4c5861ae709e3cd5589c0322d892a85152d759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:05 +0000
Subject: [PATCH 22/36] fix: PYTHIA records the mean and deviation it
 normalised with

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 1a80c62..7eae38a 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -646,9 +646,9 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         tuple[list[float], list[float], NDArray[np.double]]
         The mean, standard deviation and normalized feature coordinates.
         """
-        z = stats.zscore(z, ddof=1)
         mu = np.mean(z, axis=0)
         sigma = np.std(z, ddof=1, axis=0)
+        z = stats.zscore(z, ddof=1)
         return (mu, sigma, z)
 
     @staticmethod
-- 
2.43.0


From cb64c0ab98981d747d81f2ad517e5cd4b1f0e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:05 +0000
Subject: [PATCH 23/36] fix: PYTHIA summary does not swap accuracy and
 precision

---
 instancespace/stages/pythia.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 7eae38a..7efcdae 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -482,8 +482,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             y_best,
             selection0,
             selection1,
-            accuracy_record,
             precision_record,
+            accuracy_record,
             recall_record,
             box_consnt,
             k_scale,
-- 
2.43.0


From 7284f92565a22c73769f9af94da78d5b1bd6c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:44 +0000
Subject: [PATCH 24/36] fix: PYTHIA summary does not overwrite the caller's
 performance matrix

---
 instancespace/stages/pythia.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 7efcdae..4b3ee2c 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -817,7 +817,10 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         # This variable stores the performance of the selected algorithms
         y_svms = y.copy()
 
-        y[~sel0] = np.nan
+        # This variable stores the performance of the algorithms in selection0
+        y_sel = y.copy()
+
+        y_sel[~sel0] = np.nan
         y_full[~sel1] = np.nan
         y_svms[~y_hat] = np.nan
 
@@ -851,14 +854,14 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             "Avg_Perf_selected_instances": np.round(
                 np.append(
                     np.nanmean(y_svms, axis=0),
-                    np.array([np.nan, np.nanmean(y_full)]),
+                    np.array([np.nan, np.nanmean(y_sel)]),
                 ),
                 3,
             ),
             "Std_Perf_selected_instances": np.round(
                 np.append(
                     np.nanstd(y_svms, axis=0),
-                    np.array([np.nan, np.nanstd(y_full)]),
+                    np.array([np.nan, np.nanstd(y_sel)]),
                 ),
                 3,
             ),
-- 
2.43.0


From fc131708e4746543e1cf6a19884f6f9bc651cac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:44 +0000
Subject: [PATCH 25/36] fix: PYTHIA selection tells no algorithm apart from the
 first algorithm

---
 instancespace/stages/pythia.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/instancespace/stages/pythia.py b/instancespace/stages/pythia.py
index 4b3ee2c..a179ed0 100644
--- a/instancespace/stages/pythia.py
+++ b/instancespace/stages/pythia.py
@@ -144,7 +144,7 @@ class PythiaOutput(NamedTuple):
     recall : list[float]
         Recall scores for each algorithm
     selection0 : NDArray[np.int_]
-        The selected algorithm indices for each instance.
+        The selected algorithm index for each instance, or -1 if none is selected.
     selection1 : NDArray[np.int_]
         The backup selected algorithm indices for each instance.
     summary : pd.DataFrame
@@ -719,11 +719,12 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
             # Get the index of the maximum value in each row
             selection0 = np.argmax(weighted_yhat, axis=1)
         else:
-            best = y_hat
-            selection0 = y_hat.astype(np.int_)
+            best = y_hat[:, 0]
+            selection0 = np.zeros(y_hat.shape[0], dtype=np.int_)
 
         selection1 = np.copy(selection0)
-        selection0[best <= 0] = 0
+        # No algorithm is selected
+        selection0[best <= 0] = -1
         selection1[best <= 0] = default
         return (selection0, selection1)
 
@@ -802,8 +803,8 @@ class PythiaStage(Stage[PythiaInput, PythiaOutput]):
         print("  -> PYTHIA is preparing the summary table.")
 
         # Obtain the corresponding selection matrix for the two selections.
-        sel0 = selection0[:, np.newaxis] == np.arange(1, nalgos + 1)
-        sel1 = selection1[:, np.newaxis] == np.arange(1, nalgos + 1)
+        sel0 = selection0[:, np.newaxis] == np.arange(nalgos)
+        sel1 = selection1[:, np.newaxis] == np.arange(nalgos)
 
         # Compute the average performance of the selected algorithms
         avgperf = np.round(np.nanmean(y, axis=0), 3)
-- 
2.43.0


From 5a235872bf64744abce463c0eb8a886426218261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 26/36] fix: TRACE can refine a footprint after removing a
 contradiction

---
 instancespace/stages/trace.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index 4e0ae99..c9a8aa2 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -624,7 +624,7 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
                 )
                 test_polygon = test_polygon.difference(contradiction)
                 if num_tries < max_tries:
-                    test_polygon = self.tight(test_polygon, y_test)
+                    test_polygon = self.tight(test_polygon, y_test) or Polygon()
             elif purity_test > purity_base:
                 c_area = contradiction.area / base_polygon.area
                 print(
@@ -633,7 +633,7 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
                 )
                 base_polygon = base_polygon.difference(contradiction)
                 if num_tries < max_tries:
-                    base_polygon = self.tight(base_polygon, y_base)
+                    base_polygon = self.tight(base_polygon, y_base) or Polygon()
             else:
                 print(
                     "        -> Purity of the contradicting areas is equal for both "
@@ -685,17 +685,16 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         refined_polygons = []
 
         for i in range(n_polygons):
-            criteria = np.logical_and(splits[i].contains(MultiPoint(self.z)), y_bin)
-            polydata = self.z[criteria]
+            inside = np.array(
+                [splits[i].contains(point) for point in MultiPoint(self.z).geoms],
+                dtype=np.bool_,
+            )
+            polydata = np.unique(self.z[np.logical_and(inside, y_bin)], axis=0)
 
             if polydata.shape[0] < POLYGON_MIN_POINT_REQUIREMENT:
                 continue
 
-            temp_polygon = Polygon(polydata)
-
-            boundary = temp_polygon.boundary
-            filtered_polydata = polydata[boundary]
-            aux = self.fit_poly(filtered_polydata, y_bin)
+            aux = self.fit_poly(polydata, y_bin)
 
             if aux:
                 refined_polygons.append(aux)
-- 
2.43.0


From 9e95ceaa9913ab8f19460bb2975a965e3bba5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:47 +0000
Subject: [PATCH 27/36] fix: TRACE honours the parallel flag

---
 instancespace/stages/trace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instancespace/stages/trace.py b/instancespace/stages/trace.py
index c9a8aa2..956ae58 100644
--- a/instancespace/stages/trace.py
+++ b/instancespace/stages/trace.py
@@ -1003,7 +1003,11 @@ class TraceStage(Stage[TraceInputs, TraceOutputs]):
         # Determine the number of workers available for parallel processing
         good: list[Footprint] = [Footprint(None, 0, 0, 0, 0, 0) for _ in range(n_algos)]
         best: list[Footprint] = [Footprint(None, 0, 0, 0, 0, 0) for _ in range(n_algos)]
-        worker_count = min(self.parallel_opts.n_cores, multiprocessing.cpu_count())
+        worker_count = (
+            min(self.parallel_opts.n_cores, multiprocessing.cpu_count())
+            if self.parallel_opts.flag
+            else 1
+        )
         with ThreadPoolExecutor(max_workers=worker_count) as executor:
             futures = [
                 executor.submit(self.process_algorithm, i) for i in range(n_algos)
-- 
2.43.0


From c0fa05169f9a46059afb4352888e5fa2da294c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 28/36] fix: exporting to csv does not rename columns of the
 model's summaries

---
 instancespace/_serialisers.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 3c368b4..30b2db0 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -184,16 +184,14 @@ def save_instance_space_to_csv(
     )
 
     if pilot_out.summary is not None:
-        pilot_summary = pilot_out.summary
-        pilot_summary.rename(columns={0: "Row"}, inplace=True)
-        pilot_out.summary.to_csv(
+        pilot_summary = pilot_out.summary.rename(columns={0: "Row"})
+        pilot_summary.to_csv(
             output_directory / "projection_matrix.csv",
             index=False,
         )
 
-    pythia_summary = pythia_out.summary
-    pythia_summary.rename(columns={"Algorithms": "Row"}, inplace=True)
-    pythia_out.summary.to_csv(
+    pythia_summary = pythia_out.summary.rename(columns={"Algorithms": "Row"})
+    pythia_summary.to_csv(
         output_directory / "svm_table.csv",
         index=False,
     )
-- 
2.43.0


From e2814841aa4d4ff1de7d958adee85900b7c7bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 29/36] fix: normalise the performance shown in the graphs to
 the unit range

---
 instancespace/_serialisers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 30b2db0..47ebe12 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -279,10 +279,10 @@ def save_instance_space_graphs(
     x_aux = (data.x - np.min(data.x, axis=0)) / x_range
 
     y_raw_range = np.max(data.y_raw, axis=0) - np.min(data.y_raw, axis=0)
-    y_ind = data.y_raw - np.min(data.y_raw, axis=0) / y_raw_range
+    y_ind = (data.y_raw - np.min(data.y_raw, axis=0)) / y_raw_range
 
     y_glb = np.log10(data.y_raw + 1)
-    y_glb_range = np.max(y_glb, axis=0) - np.min(y_glb, axis=0)
+    y_glb_range = np.max(y_glb) - np.min(y_glb)
     y_glb = (y_glb - np.min(y_glb)) / y_glb_range
 
     if options.trace.use_sim:
-- 
2.43.0


From 0163c0fad0790ea6878db0107317e90ea67d1841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 30/36] fix: graphs are saved once and their figures closed

---
 instancespace/_serialisers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 47ebe12..485d9be 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -480,6 +480,8 @@ def _draw_sources(
 
     fig.savefig(output)
 
+    plt.close(fig)
+
 
 def _draw_scatter(
     z: NDArray[Any],
@@ -713,7 +715,6 @@ def _draw_binary_performance(
 
     except Exception:
         print("No binary performance has been calculated")
-    fig.savefig(output)
 
 
 def save_instance_space_output_mat(
-- 
2.43.0


From 351c6b7ec9634fd3cdf7bba4816f6afccd1a5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 31/36] fix: portfolio graphs draw every algorithm with its own
 label and footprint

---
 instancespace/_serialisers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/instancespace/_serialisers.py b/instancespace/_serialisers.py
index 485d9be..ab280ee 100644
--- a/instancespace/_serialisers.py
+++ b/instancespace/_serialisers.py
@@ -287,7 +287,8 @@ def save_instance_space_graphs(
 
     if options.trace.use_sim:
         y_foot = pythia.y_hat
-        p_foot = pythia.selection0
+        # selection0 counts algorithms from zero, the portfolio graphs from one
+        p_foot = pythia.selection0 + 1
     else:
         y_foot = data.y_bin
         p_foot = data.p
@@ -362,7 +363,7 @@ def save_instance_space_graphs(
 
     _draw_portfolio_selections(
         pilot.z,
-        pythia.selection0,
+        pythia.selection0 + 1,
         np.array(data.algo_labels),
         "Predicted best algorithm",
         output_directory / "distribution_svm_portfolio.png",
@@ -547,7 +548,7 @@ def _draw_portfolio_selections(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -597,7 +598,7 @@ def _draw_portfolio_footprint(
 
     norm = Normalize(lower_bound, upper_bound)
 
-    for i in range(num_algorithms):
+    for i in range(num_algorithms + 1):
         if not is_worthy[i]:
             continue
 
@@ -611,7 +612,8 @@ def _draw_portfolio_footprint(
             label="None" if i == 0 else algorithm_labels[i - 1].replace("_", " "),
         )
 
-        _draw_footprint(ax, best[i], cmap(norm(i)), 0.3)
+        if i > 0:
+            _draw_footprint(ax, best[i - 1], cmap(norm(i)), 0.3)
 
     ax.set_xlabel("z_{1}")
     ax.set_ylabel("z_{2}")
-- 
2.43.0


From ce2b7544dc7ef837571421b49547af2ca33ad41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:42 +0000
Subject: [PATCH 32/36] fix: a boundary that could not be computed can be
 exported

---
 instancespace/stages/cloister.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/instancespace/stages/cloister.py b/instancespace/stages/cloister.py
index b037358..a2634b9 100644
--- a/instancespace/stages/cloister.py
+++ b/instancespace/stages/cloister.py
@@ -279,11 +279,11 @@ class CloisterStage(Stage[CloisterInput, CloisterOutput]):
             hull = ConvexHull(points)
             return points[hull.vertices, :]
         except QhullError as qe:
-            logger.info("QhullError: Encountered geometrical degeneracy:", str(qe))
-            return np.array([])
+            logger.info("QhullError: Encountered geometrical degeneracy: %s", qe)
+            return np.empty((0, 2))
         except ValueError as ve:
-            logger.info("ValueError: Imcompatible value encountered:", str(ve))
-            return np.array([])
+            logger.info("ValueError: Imcompatible value encountered: %s", ve)
+            return np.empty((0, 2))
 
     @staticmethod
     def _generate_boundaries(
-- 
2.43.0


From 2c6471448c57e65a04e7b341f079a59c5e73f697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 33/36] fix: metadata with a single instance keeps its labels
 and sources as series

---
 instancespace/data/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index ddc87c9..b0f03ec 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -46,14 +46,14 @@ class Metadata:
         is_algo = var_labels.str.lower().str.startswith("algo_")
         is_source = var_labels.str.lower() == "source"
 
-        instance_labels = data.loc[:, is_name].squeeze()
+        instance_labels = data.loc[:, is_name].squeeze(axis=1)
 
         if pd.api.types.is_numeric_dtype(instance_labels):
             instance_labels = instance_labels.astype(str)
 
         source_column = None
         if is_source.any():
-            source_column = data.loc[:, is_source].squeeze()
+            source_column = data.loc[:, is_source].squeeze(axis=1)
 
         features_raw = data.loc[:, is_feat]
         algo_raw = data.loc[:, is_algo]
-- 
2.43.0


From d313205f73b814fb058e995eb0c3906524940af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 34/36] fix: metadata files that are not text are reported like
 other unreadable files

---
 instancespace/data/metadata.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instancespace/data/metadata.py b/instancespace/data/metadata.py
index b0f03ec..d12aaf1 100644
--- a/instancespace/data/metadata.py
+++ b/instancespace/data/metadata.py
@@ -108,7 +108,12 @@ def from_csv_file(file_path: Path | str) -> Metadata | None:
 
     try:
         csv_df = pd.read_csv(file_path)
-    except (FileNotFoundError, OSError, pd.errors.ParserError) as e:
+    except (
+        FileNotFoundError,
+        OSError,
+        pd.errors.ParserError,
+        UnicodeDecodeError,
+    ) as e:
         print(f"{file_path}: {e!s}")
         return None
     except pd.errors.EmptyDataError as err:
-- 
2.43.0


From b4397cdcfe1df3abe7ac5d1df5d9ccf596c3df62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 35/36] fix: InstanceSpaceOptions.default can be called without
 arguments as documented

---
 instancespace/data/options.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index 7926449..c68d3bf 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -535,18 +535,18 @@ class InstanceSpaceOptions:
 
     @staticmethod
     def default(
-        parallel: ParallelOptions | None,
-        perf: PerformanceOptions | None,
-        auto: AutoOptions | None,
-        bound: BoundOptions | None,
-        norm: NormOptions | None,
-        selvars: SelvarsOptions | None,
-        sifted: SiftedOptions | None,
-        pilot: PilotOptions | None,
-        cloister: CloisterOptions | None,
-        pythia: PythiaOptions | None,
-        trace: TraceOptions | None,
-        outputs: OutputOptions | None,
+        parallel: ParallelOptions | None = None,
+        perf: PerformanceOptions | None = None,
+        auto: AutoOptions | None = None,
+        bound: BoundOptions | None = None,
+        norm: NormOptions | None = None,
+        selvars: SelvarsOptions | None = None,
+        sifted: SiftedOptions | None = None,
+        pilot: PilotOptions | None = None,
+        cloister: CloisterOptions | None = None,
+        pythia: PythiaOptions | None = None,
+        trace: TraceOptions | None = None,
+        outputs: OutputOptions | None = None,
     ) -> InstanceSpaceOptions:
         """Instantiate with default values."""
         return InstanceSpaceOptions(
-- 
2.43.0


From 0319f603ffff43ee29a20330aa9b7da1749d21cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:38 +0000
Subject: [PATCH 36/36] fix: options that are not JSON objects are reported as
 invalid options

---
 instancespace/data/options.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instancespace/data/options.py b/instancespace/data/options.py
index c68d3bf..02c2144 100644
--- a/instancespace/data/options.py
+++ b/instancespace/data/options.py
@@ -419,6 +419,9 @@ class InstanceSpaceOptions:
             If the JSON file contains undefined sub options.
 
         """
+        if not isinstance(file_contents, dict):
+            raise ValueError("Options are not a JSON object.")
+
         # Validate if the top-level fields match those in the InstanceSpaceOptions class
         options_fields = {f.name for f in fields(InstanceSpaceOptions)}
         extra_fields = set(file_contents.keys()) - options_fields
@@ -429,6 +432,10 @@ class InstanceSpaceOptions:
                 f" {extra_fields}",
             )
 
+        for name, section in file_contents.items():
+            if not isinstance(section, dict):
+                raise ValueError(f"Options for '{name}' are not a JSON object.")
+
         # Initialize each part of InstanceSpaceOptions, using default values for missing
         # fields
         return InstanceSpaceOptions(
-- 
2.43.0

