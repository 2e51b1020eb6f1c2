From 434b4df077e0c6654e4c969eff85253f3d1f6569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 01/76] fix: keep serialized objects alive so that a reused id
 is not taken for an alias

---
 qtune/storage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/storage.py b/qtune/storage.py
index 783a523..d2f04d0 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -84,6 +84,9 @@ def _to_hdf5(hdf5_parent_group: h5py.Group, name, obj, serialized):
         hdf5_parent_group.create_dataset(name, data=serialized[id(obj)].ref)
         return
 
+    # the id is only unique while the object is alive -> temporary objects have to outlive the serialization
+    serialized.setdefault('#keep_alive', []).append(obj)
+
     if isinstance(obj, dict):
         hdf5_group = hdf5_parent_group.create_group(name)
         hdf5_group.attrs['#type'] = 'dict'
-- 
2.43.0


From 5f9333e68ec90df20479af8479181600a3e62314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 02/76] fix: decode strings that h5py >= 3 returns as bytes

---
 qtune/storage.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index d2f04d0..11d54a0 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -179,6 +179,16 @@ def to_hdf5(filename_or_handle: Union[str, h5py.Group], name: str, obj,
     _to_hdf5(root, name, obj, serialized)
 
 
+def _decode_strings(arr: np.ndarray) -> np.ndarray:
+    """Variable length strings are returned as bytes by h5py >= 3 and as str by older versions."""
+    if arr.dtype != 'O':
+        return arr
+    decoded = np.empty_like(arr)
+    for idx, entry in np.ndenumerate(arr):
+        decoded[idx] = entry.decode() if isinstance(entry, bytes) else entry
+    return decoded
+
+
 def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
     """
     Reloads a saved object.
@@ -250,12 +260,12 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
 
             if hdf5_obj.attrs['#type'] == 'Series':
                 idx = hdf5_obj.attrs['index']
-                result = pd.Series(data=np.asarray(hdf5_obj), index=idx)
+                result = pd.Series(data=_decode_strings(np.asarray(hdf5_obj)), index=idx)
                 deserialized[hdf5_obj.id] = result
                 return result
 
             if hdf5_obj.attrs['#type'] == 'str':
-                result = str(np.asarray(hdf5_obj))
+                result = str(_decode_strings(np.asarray(hdf5_obj)))
                 deserialized[hdf5_obj.id] = result
                 return result
 
-- 
2.43.0


From d1c8756baff1d682706ffdfd1f555520ff6fcecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 03/76] fix: do not dump debug data to D:\temp.txt when an
 object cannot be reloaded

---
 qtune/storage.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 11d54a0..0cc965f 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -222,9 +222,6 @@ def _from_hdf5(root: h5py.File, hdf5_obj: h5py.HLObject, deserialized=None):
             except ValueError:
                 import logging
                 logging.getLogger().error(hdf5_obj.name)
-                import pickle
-                with open(r'D:\temp.txt', 'wb') as f:
-                    pickle.dump(kwargs, f)
                 logging.getLogger().error(kwargs)
 
                 raise
-- 
2.43.0


From 1285421f3e79d36e748a8ef2664196ac3328f573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:37 +0000
Subject: [PATCH 04/76] fix: a failing write neither drops the queued writes
 nor blocks join forever

---
 qtune/storage.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index 0cc965f..cdd448a 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -316,8 +316,8 @@ def _writer_target(write_queue: Union[multiprocessing.JoinableQueue, queue.Queue
             try:
                 to_hdf5(file_name, name, obj, reserved=reserved)
             except:
+                # keep on writing: the tasks which are still queued must not get lost
                 logging.getLogger(logger).exception('Error while writing "%s"' % file_name)
-                raise
         finally:
             write_queue.task_done()
 
@@ -357,7 +357,6 @@ class AsynchronousHDF5Writer:
         """Stop writing and join thread."""
         if self._worker.is_alive():
             self._queue.put(None)
-            self._queue.join()
 
         elif self._queue.qsize():
             warnings.warn("Storage queue contains data but the writer worker is already dead.")
-- 
2.43.0


From 7021fe6ee09a624c5e6cedd52fd04c5bd239ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 05/76] fix: ParameterTuner.last_voltages is updated by the
 setter (and thereby by restart)

---
 qtune/parameter_tuner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index fb394b9..ad61bb9 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -107,7 +107,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
         if self.last_voltages is None or self.last_voltages.empty:
             self._last_voltage = new_voltages
         else:
-            index_intersection = self.last_voltages.index.intersection(new_voltages)
+            index_intersection = self.last_voltages.index.intersection(new_voltages.index)
+            # the series is possibly also stored in the lists of tuned or evaluatable voltages
+            self._last_voltage = self._last_voltage.copy()
             self._last_voltage[index_intersection] = new_voltages[index_intersection]
 
     @property
-- 
2.43.0


From e33f528aa895461d867f7ee3053f60dba2346b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 06/76] fix: GradientEstimator.current_position is updated by
 the setter (and thereby by restart)

---
 qtune/gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index a699a6a..a32c61e 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -44,7 +44,7 @@ class GradientEstimator(metaclass=HDF5Serializable):
 
     @current_position.setter
     def current_position(self, new_positions: pd.Series):
-        index_intersection = new_positions.index.intersection(self.current_position)
+        index_intersection = new_positions.index.intersection(self.current_position.index)
         self._current_position[index_intersection] = new_positions[index_intersection]
 
     def change_position(self, new_position: pd.Series):
-- 
2.43.0


From 9a52116f67419721c23b887611d8da66a133d4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 07/76] fix: forget the evaluation and the queued steps of the
 old configuration on restart and change_targets

---
 qtune/autotuner.py       | 2 ++
 qtune/parameter_tuner.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index cfed351..b0e6841 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -216,6 +216,7 @@ class Autotuner(metaclass=HDF5Serializable):
         for i, target_change in enumerate(target_changes):
             self.tuning_hierarchy[i].target = target_change
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
 
     def __getstate__(self):
@@ -294,6 +295,7 @@ class Autotuner(metaclass=HDF5Serializable):
         """ Reads new voltages and communicates them to the member classes. This function can be called when the
         experiment has been configured manually."""
         self._current_tuner_index = 0
+        self._current_tuner_status = False
         self._voltages_to_set = None
         current_voltages = self._experiment.read_gate_voltages()
         for par_tuner in self.tuning_hierarchy:
diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index ad61bb9..191f67f 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -278,6 +278,10 @@ class SubsetTuner(ParameterTuner):
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
 
+    def restart(self, new_voltages):
+        self._number_queued_steps = 0
+        super().restart(new_voltages)
+
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
-- 
2.43.0


From 26744e221bbe708c3903b578274e4964633fa0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 08/76] fix: SubsetTuner stopped evaluating if the suggestion
 was reached before all queued steps were done

---
 qtune/parameter_tuner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 191f67f..e7cb2a3 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -274,6 +274,9 @@ class SubsetTuner(ParameterTuner):
                 self._number_queued_steps = min(number_of_steps, self._maximal_step_number)
             self._number_queued_steps -= 1
             step *= self._maximal_step_size / np.linalg.norm(step)
+        else:
+            # the suggested position is reached with this step
+            self._number_queued_steps = 0
 
         rescaled_new_voltages = self._last_voltage + step
         return rescaled_new_voltages
-- 
2.43.0


From 6e313d41a08a08d8f75e34ab59d1ea3820690aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 09/76] fix: allow targets containing parameters that are not
 evaluated by the tuner (pandas >= 1.0)

---
 qtune/parameter_tuner.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index e7cb2a3..ab8f7d2 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -163,7 +163,8 @@ class ParameterTuner(metaclass=HDF5Serializable):
             parameter, variance = evaluator.evaluate()
             parameters.append(parameter)
             variances.append(variance)
-        return pd.concat(parameters)[self.parameters], pd.concat(variances)[self.parameters]
+        # parameters without a desired value do not need to be evaluated
+        return pd.concat(parameters).reindex(self.parameters), pd.concat(variances).reindex(self.parameters)
 
     def is_tuned(self, voltages: pd.Series) -> bool:
         """
-- 
2.43.0


From a0eb1f26d572a1f19e26a004f389d6b8c6dada88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 10/76] fix: NewtonSolver keeps parameters without a desired
 value instead of driving them to zero

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index f32e986..2715a58 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -229,7 +229,8 @@ class NewtonSolver(Solver):
         # our jacobian is sufficiently accurate
         # nan targets are replaced with the current values
 
-        required_diff = self.target.desired.add(-1 * self._current_values, fill_value=0).fillna(0)
+        desired = self.target.desired.fillna(self._current_values)
+        required_diff = desired.add(-1 * self._current_values, fill_value=0).fillna(0)
 
         jacobian = self.jacobian[self._current_position.index]
 
-- 
2.43.0


From 4e86cc9625d223845d776387ead00bafea40f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 11/76] fix: NewtonSolver passes the variance of the own
 parameter to each gradient estimator

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 2715a58..2f344f7 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -246,7 +246,8 @@ class NewtonSolver(Solver):
     def update_after_step(self, position: pd.Series, values: pd.Series, variances: pd.Series):
         for estimator, value, value_index, variance in zip(self._gradient_estimators,
                                                            values[self._current_values.index],
-                                                           self._current_values.index, variances):
+                                                           self._current_values.index,
+                                                           variances[self._current_values.index]):
             if not math.isnan(self.target.desired[value_index]):
                 estimator.update(position, value, variance, is_new_position=True)
         self._current_position = position[self._current_position.index]
-- 
2.43.0


From 8bda31db1be11dd27d7affdc8551f4783f2cb95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 12/76] fix: ForwardingSolver does not descale the values of
 its caller

---
 qtune/solver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index 2f344f7..0f9e7d1 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -544,6 +544,7 @@ class ForwardingSolver(Solver):
             position[position.index.intersection(self.current_position.index)]
         self._next_position[position.index.intersection(self._next_position.index)] = \
             position[position.index.intersection(self.current_position.index)]
+        values, variances = values.copy(), variances.copy()
         self.descale_values(values, variances)
         new_position_names = self._values_to_position[
             values.index.intersection(self._values_to_position.index)].dropna()
-- 
2.43.0


From f277ee6448d081e5a5475216b52d7766ff5d857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:05 +0000
Subject: [PATCH 13/76] fix: ForwardingSolver implements the Solver interface

---
 qtune/solver.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 0f9e7d1..7d69f54 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -529,7 +529,7 @@ class ForwardingSolver(Solver):
             next_position = next_position[self._current_position.index]
         self._next_position = next_position
 
-    def suggest_next_position(self, tuned_parameters) -> pd.Series:
+    def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         return self._next_position
 
     def update_after_step(self, position: pd.Series, values: pd.Series, variances: pd.Series):
@@ -550,8 +550,9 @@ class ForwardingSolver(Solver):
             values.index.intersection(self._values_to_position.index)].dropna()
         self._next_position[new_position_names] = values[new_position_names.index]
 
+    @property
     def state(self):
-        return pd.Series()
+        return pd.Series(dtype=float)
 
     def to_hdf5(self):
         return dict(target=self._target,
-- 
2.43.0


From 79908afc2db80fbc43d1cad550e31eb7bbd89b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 14/76] fix: NelderMeadSolver implements the Solver interface
 (target setter, tuned_parameters, state)

---
 qtune/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 7d69f54..12e1e4a 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -330,8 +330,8 @@ class NelderMeadSolver(Solver):
                    simplex=simplex)
 
     @property
-    def target(self):
-        return self._target
+    def state(self) -> pd.Series:
+        return pd.Series(dtype=float)
 
     @property
     def simplex(self) -> Deque[Tuple[pd.Series, pd.Series]]:
@@ -371,7 +371,7 @@ class NelderMeadSolver(Solver):
         self._simplex = self._get_sorted_simplex()
         self._simplex.pop()
 
-    def suggest_next_position(self) -> pd.Series:
+    def suggest_next_position(self, tuned_parameters=None) -> pd.Series:
         positions = self.get_positions()
         worst_position = positions[-1]
 
-- 
2.43.0


From 05f8496fedcb366a2fd8a64dfedda95f6d9f57a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 15/76] fix: NelderMeadSolver can be saved and reloaded (state
 name, default cost function)

---
 qtune/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 12e1e4a..104bd2c 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -286,7 +286,7 @@ class NelderMeadSolver(Solver):
                  current_values: pd.Series,
                  reflected_point: Optional[Tuple[pd.Series, pd.Series]] = None,
                  shrunk_points: Optional[Sequence[Tuple[pd.Series, pd.Series]]] = None,
-                 cost_function: Callable = lambda v: np.sum(v * v),
+                 cost_function: Optional[Callable] = None,
                  state='built_up'):
         """
 
@@ -346,7 +346,7 @@ class NelderMeadSolver(Solver):
         if self._cost_function:
             return self._cost_function(values)
         else:
-            np.sum(values * values)
+            return np.sum(values * values)
 
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
@@ -503,7 +503,7 @@ class NelderMeadSolver(Solver):
                     reflected_point=self._reflected_point,
                     shrunk_points=self._shrunk_points,
                     cost_function=self._cost_function,
-                    state=str(self._state))
+                    state=self._state.value)
 
 
 class ForwardingSolver(Solver):
-- 
2.43.0


From f84e34f64586f32c9a8d560848571847f16c95c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 16/76] fix: NelderMeadSolver starts a new iteration after an
 expansion or contraction

---
 qtune/solver.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index 104bd2c..d4102c9 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -451,6 +451,7 @@ class NelderMeadSolver(Solver):
                 self._insert_into_simplex(position, values)
             else:
                 self._insert_into_simplex(reflected_pos, reflected_val)
+            self._state = self.State.start_iteration
 
         elif self._state == self.State.contract_outside:
             reflected_pos, reflected_val = self._reflected_point
@@ -459,6 +460,7 @@ class NelderMeadSolver(Solver):
             contraction_cost = self.cost_function(values)
             if contraction_cost < reflection_cost:
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
             else:
                 self._state = self.State.shrink
@@ -469,6 +471,7 @@ class NelderMeadSolver(Solver):
             contraction_cost = self.cost_function(values)
             if contraction_cost < worst_cost:
                 self._insert_into_simplex(position, values)
+                self._state = self.State.start_iteration
 
             else:
                 self._state = self.State.shrink
-- 
2.43.0


From 656496aaf1c0b13af8817c7995ade577e9e01dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 17/76] fix: NelderMeadSolver replaces all points but the best
 one when it shrinks the simplex

---
 qtune/solver.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index d4102c9..d1686fb 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -480,9 +480,11 @@ class NelderMeadSolver(Solver):
             self._shrunk_points.append((position, values))
 
             if len(self._shrunk_points) == len(self._current_position):
-                for shrink_point in self._shrunk_points:
-                    self._insert_into_simplex(*shrink_point)
+                # all points except the best one are replaced
+                self._simplex = self._simplex[:1] + list(self._shrunk_points)
+                self._simplex = self._get_sorted_simplex()
                 self._shrunk_points = []
+                self._state = self.State.start_iteration
 
         else:
             # we just got a point without requesting it
-- 
2.43.0


From 4adc677d67f757e1ad7c513f32c5c2bec93aab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 18/76] fix: NelderMeadSolver reflects the worst point at the
 centroid of the other points

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index d1686fb..ce5c9c2 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -375,7 +375,8 @@ class NelderMeadSolver(Solver):
         positions = self.get_positions()
         worst_position = positions[-1]
 
-        m = pd.DataFrame(positions).mean(axis=0)
+        # centroid of all points except the worst one
+        m = pd.DataFrame(positions[:-1]).mean(axis=0)
         r = 2 * m - worst_position
         s = m + 2 * (m - worst_position)
         c = m + (r - m) / 2
-- 
2.43.0


From 2a9825232dd26b5206b8c6fbbff2244e23883642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:46 +0000
Subject: [PATCH 19/76] fix: NelderMeadSolver does not add the same position to
 the initial simplex twice

---
 qtune/solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/solver.py b/qtune/solver.py
index ce5c9c2..692b167 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -417,6 +417,8 @@ class NelderMeadSolver(Solver):
         values = values[self._current_values.index]
 
         if len(self.simplex) < len(self.current_position) + 1:
+            # a repeated evaluation updates the known point as the simplex would be degenerate otherwise
+            self._simplex = [point for point in self._simplex if not np.array_equal(point[0], position)]
             self.simplex.append((position, values))
 
             if len(self.simplex) == len(self.current_position) + 1:
-- 
2.43.0


From e43380c5382870d6a4ccf88dfa8aa2f16d6e6b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 20/76] fix: the position of the NelderMeadSolver can be set
 (queued steps, restart)

---
 qtune/solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index 692b167..e2415dd 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -88,6 +88,8 @@ class Solver(metaclass=HDF5Serializable):
     @current_position.setter
     def current_position(self, new_position: pd.Series):
         labels = self._current_position.index.intersection(new_position.index)
+        # the series might be shared, for example with the simplex of the NelderMeadSolver
+        self._current_position = self._current_position.copy()
         self._current_position[labels] = new_position[labels]
 
     @property
@@ -351,10 +353,6 @@ class NelderMeadSolver(Solver):
     def get_costs(self):
         return [self.cost_function(values) for _, values in self.simplex]
 
-    @property
-    def current_position(self) -> pd.Series:
-        return self._current_position
-
     @property
     def current_values(self) -> pd.Series:
         return self._current_values
-- 
2.43.0


From dd2ceb39170167583ddd87c8d4177b585bbfa151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 21/76] fix: SensingDotTuner saves its recovery state (tuned
 voltages, failed evaluation)

---
 qtune/parameter_tuner.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index ab8f7d2..860c15b 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -407,11 +407,10 @@ class SensingDotTuner(ParameterTuner):
         return pd.concat(parameters).sort_index(), pd.concat(variances).sort_index()
 
     def to_hdf5(self):
-        return dict(cheap_evaluators=self._cheap_evaluators,
+        parent_dict = super().to_hdf5()
+        del parent_dict['evaluators']
+        return dict(parent_dict,
+                    cheap_evaluators=self._cheap_evaluators,
                     expensive_evaluators=self._expensive_evaluators,
                     gates=self._tunable_gates,
-                    solver=self.solver,
-                    last_voltage=self._last_voltage,
-                    last_parameter_values=self._last_parameter_values,
-                    last_parameters_variances=self._last_parameters_variances,
                     cheap_evaluation_only=self.cheap_evaluation_only)
-- 
2.43.0


From c34918bb9c12941ce56891dd13a19b0bf100ae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 22/76] fix: tuners whose target contains a parameter without
 desired value can be reloaded

---
 qtune/parameter_tuner.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 860c15b..326dd50 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -71,7 +71,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
             # storage_path = r'D:\debug_%d.txt' % random.randint(0,10000)
             # with open(storage_path, 'wb') as file:
             #     file.write(data)
-            assert set(self.target.dropna(how='all').index).issubset(set(last_parameter_values.index))
+            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                            axis='columns').dropna().index
+            assert set(not_na_index).issubset(set(last_parameter_values.index))
             self._last_parameter_values = last_parameter_values
 
             # import os
@@ -82,7 +84,9 @@ class ParameterTuner(metaclass=HDF5Serializable):
                                             axis='columns').dropna().index
             self._last_parameters_variances = pd.Series(index=not_na_index)
         else:
-            assert set(self.target.index).issubset(set(last_parameters_variances.index))
+            not_na_index = self.target.drop([ind for ind in self.target.columns if self.target.isna().all()[ind]],
+                                            axis='columns').dropna().index
+            assert set(not_na_index).issubset(set(last_parameters_variances.index))
             self._last_parameters_variances = last_parameters_variances
 
         self._evaluators = tuple(evaluators)
-- 
2.43.0


From 8ccf65f2b044a1077757177d8b387cc9eb17c1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:19 +0000
Subject: [PATCH 23/76] fix: FiniteDifferencesGradientEstimator can be reloaded
 before the gradient is estimated

---
 qtune/gradient.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index a32c61e..6b00703 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -100,7 +100,7 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 raise TypeError('Epsilon has to be a pandas Series to determine the order of dimensions if '
                                 'current_position is not specified')
             else:
-                current_position = pd.Series(None, index=epsilon.index)
+                current_position = pd.Series(np.nan, index=epsilon.index)
 
         self._current_position = current_position
 
@@ -114,8 +114,8 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
         self._covariance = covariance
 
         if stored_measurements is not None:
-            for measurement in stored_measurements:
-                pd.testing.assert_index_equal(measurement.index, epsilon.index)
+            for measured_position, *_ in stored_measurements:
+                pd.testing.assert_index_equal(measured_position.index, self._current_position.index)
         self._stored_measurements = stored_measurements or []
 
         # only for debugging purposes
-- 
2.43.0


From 103e7fdade1ad3614fdc2c0e52e74bd73e9273f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 24/76] fix: SelfInitializingKalmanEstimator creates its kalman
 filter when the finite differences are complete

---
 qtune/gradient.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 6b00703..2a65869 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -380,8 +380,8 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
                  kalman_gradient_args: Optional[dict]=None):
         self._finite_difference_estimator = finite_difference_estimator
         self._kalman_estimator = kalman_estimator
-        self._kalman_arguments = kalman_arguments
-        self._kalman_gradient_arguments = kalman_gradient_args
+        self._kalman_arguments = kalman_arguments or dict()
+        self._kalman_gradient_arguments = kalman_gradient_args or dict()
 
     # TODO: This implementation is incomplete
     @classmethod
@@ -393,7 +393,7 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
         finite_differences_estimator = FiniteDifferencesGradientEstimator(current_position=current_position,
                                                                           epsilon=epsilon,
                                                                           symmetric=symmetric)
-        kalman_arguments = dict(maximum_covariance=maximum_covariance)
+        kalman_arguments = dict(maximum_covariance=maximum_covariance, epsilon=epsilon)
 
         return cls(finite_difference_estimator=finite_differences_estimator,
                    kalman_arguments=kalman_arguments)
@@ -446,7 +446,7 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
             kalman_gradient = KalmanGradient(n_pos_dim=initial_estimate.size,
                                              n_values=1,
                                              initial_gradient=initial_estimate,
-                                             initial_covariance_matrix=self.finite_difference_estimator.covariance()
+                                             initial_covariance_matrix=self.finite_difference_estimator.covariance(),
                                              **self._kalman_gradient_arguments)
             self._kalman_estimator = KalmanGradientEstimator(kalman_gradient=kalman_gradient,
                                                              current_position=position[initial_estimate.index],
-- 
2.43.0


From df18d9f476423c7fd811a8f8870aab1ce6738ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 25/76] fix: SelfInitializingKalmanEstimator forgets the old
 value on restart

---
 qtune/gradient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 2a65869..f6392e8 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -458,3 +458,8 @@ class SelfInitializingKalmanEstimator(GradientEstimator):
                     kalman_estimator=self._kalman_estimator,
                     kalman_arguments=self._kalman_arguments,
                     kalman_gradient_args=self._kalman_gradient_arguments)
+
+    def restart(self, new_position):
+        self._finite_difference_estimator.restart(new_position)
+        if self.kalman_estimator:
+            self.kalman_estimator.restart(new_position)
-- 
2.43.0


From 821a780f0d954971b5a4dfc91094e432546f0e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 26/76] fix: symmetric finite differences ignore an evaluation
 at the central point

---
 qtune/gradient.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index f6392e8..98957ca 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -189,6 +189,11 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 self._stored_measurements.append((position[self._current_position.index], value, variance))
 
         elif self._current_estimate is None:
+            if self._symmetric_calculation and np.array_equal(position.reindex(self._current_position.index),
+                                                              self._current_position):
+                # the central point is not part of the symmetric differences
+                return
+
             self._stored_measurements.append((position[self._current_position.index], value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
-- 
2.43.0


From fc337ffc0ea9ee496614a2f584b38c68eef467ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 27/76] fix: measurements required by a gradient estimator only
 move the gates of the solver

---
 qtune/solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/solver.py b/qtune/solver.py
index e2415dd..125b49f 100644
--- a/qtune/solver.py
+++ b/qtune/solver.py
@@ -223,7 +223,8 @@ class NewtonSolver(Solver):
                 suggestion = estimator.require_measurement(gates=self._current_position.index,
                                                            tuned_jacobian=tuned_jacobian)
                 if suggestion is not None and not suggestion.empty:
-                    return suggestion
+                    # the estimator possibly knows more gates and outdated voltages of these
+                    return suggestion[self._current_position.index]
 
         if self._current_position is None:
             raise RuntimeError('NewtonSolver: Position not initialized.')
-- 
2.43.0


From 40aa8fde961afff91384f817d811074f98dd0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 28/76] fix: evaluators save their sample rate, flank and
 transition width

---
 qtune/evaluator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 008e6d9..396b1dd 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -199,6 +199,7 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
     def to_hdf5(self):
         parent_dict = super().to_hdf5()
         return dict(parent_dict,
+                    sample_rate=self.sample_rate,
                     evaluation_arguments=self.evaluation_arguments)
 
 
@@ -574,7 +575,7 @@ class LeadTransition(Evaluator):
                     transition_positions=self.transition_positions,
                     shifting_gates=self._shifting_gates,
                     charge_diagram_width=self._charge_diagram_width,
-                    transition_width=.2e-3)
+                    transition_width=self.transition_width)
 
 
 class SensingDot1D(Evaluator):
@@ -594,7 +595,7 @@ class SensingDot1D(Evaluator):
                  optimal_signal=None,
                  optimal_position=None,
                  name='SensingDot1D',
-                 rising_flank=Optional[bool]):
+                 rising_flank: Optional[bool]=None):
         self._sweeping_gate = sweeping_gate
         self.current_signal = current_signal
         self.optimal_signal = optimal_signal
@@ -659,6 +660,7 @@ class SensingDot1D(Evaluator):
     def to_hdf5(self):
         return dict(super().to_hdf5(),
                     sweeping_gate=self._sweeping_gate,
+                    rising_flank=self._rising_flank,
                     current_signal=self.current_signal,
                     optimal_signal=self.optimal_signal,
                     optimal_position=self.optimal_position)
@@ -765,6 +767,7 @@ class SensingDot2D(Evaluator):
         return dict(super().to_hdf5(),
                     sweeping_gates=self._sweeping_gates,
                     scan_range=self._scan_range,
+                    rising_flank=self._rising_flank,
                     new_voltages=self._new_voltages)
 
 
-- 
2.43.0


From ba42a16cde1f6c341791e94eec5b0249677cae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 29/76] fix: SensingDot1D indexes the center of the scan with
 an integer

---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 396b1dd..f06c22e 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -653,7 +653,7 @@ class SensingDot1D(Evaluator):
             steepest_point = np.argmin(derivative_approximation[cutoff:-cutoff])
             self.optimal_signal = np.min(derivative_approximation)
         self.optimal_position = raw_x_data[steepest_point + cutoff]
-        self.current_signal = derivative_approximation[0.5 * self.measurements[0].options['N_points']]
+        self.current_signal = derivative_approximation[self.measurements[0].options['N_points'] // 2]
 
         return self.current_signal, self.optimal_signal, self.optimal_position
 
-- 
2.43.0


From 4d63891017cc670588cbf82162ac0b36e06b3b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 30/76] fix: LeadTransition restores the gate voltages if the
 measurement fails

---
 qtune/evaluator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index f06c22e..d2a904b 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -541,8 +541,10 @@ class LeadTransition(Evaluator):
         for measurement, shift_gate in zip(self.measurements, self._shifting_gates):
             shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])
             self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
-            raw_data.append(self.experiment.measure(measurement))
-            self.experiment.set_gate_voltages(current_gate_voltages)
+            try:
+                raw_data.append(self.experiment.measure(measurement))
+            finally:
+                self.experiment.set_gate_voltages(current_gate_voltages)
         transition_positions, error = self.process_raw_data(raw_data=raw_data)
 
         # TODO: this should be obsolete
-- 
2.43.0


From be9a3600ab8842c184e26529854b801b60e535b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:51 +0000
Subject: [PATCH 31/76] fix: detune_simulation passes an integer number of
 points to numpy

---
 qtune/basic_dqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 6ab8e3e..db1dca8 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -133,7 +133,7 @@ def detune_simulation(gate_voltages, measurement: Measurement, simulation_option
     right_gate = simulation_options["right_gate"]
     parameters = measurement.options.copy()
     parameters['file_name'] = "detune_scan_" + measurement.get_file_name()
-    parameters['N_points'] = float(parameters['N_points'])
+    parameters['N_points'] = int(parameters['N_points'])
     parameters['N_average'] = float(parameters['N_average'])
 
     x = np.linspace(parameters["center"] - parameters["range"], parameters["center"] + parameters["range"],
-- 
2.43.0


From 082b3dee76bd7abb10761193be4c0cfc7d9ecc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 32/76] fix: LeadTransition restores the gate voltages if the
 shift is only partially set

---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index d2a904b..a9273cb 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -540,8 +540,8 @@ class LeadTransition(Evaluator):
         raw_data = []
         for measurement, shift_gate in zip(self.measurements, self._shifting_gates):
             shift = pd.Series(-1. * self._charge_diagram_width, [shift_gate])
-            self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
             try:
+                self.experiment.set_gate_voltages(current_gate_voltages.add(shift, fill_value=0.))
                 raw_data.append(self.experiment.measure(measurement))
             finally:
                 self.experiment.set_gate_voltages(current_gate_voltages)
-- 
2.43.0


From 0faf248cda1878868891a7ae7467dd715e9cf541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 33/76] fix: History can handle gradient estimators without
 estimate

---
 qtune/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index c074e76..dfaa8d6 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -560,11 +560,11 @@ def extract_gradients_from_hierarchy(tuning_hierarchy) -> (Dict[str, pd.Series],
         if isinstance(tuner.solver, qtune.solver.NewtonSolver):
             for i, grad_est in enumerate(tuner.solver.gradient_estimators):
                 if grad_est.estimate() is None:
-                    gradients[tuner.solver.target.index[i]] = pd.Series
+                    gradients[tuner.solver.target.index[i]] = pd.Series(dtype=float)
                 else:
                     gradients[tuner.solver.target.index[i]] = grad_est.estimate()
                 if grad_est.covariance() is None:
-                    covariances[tuner.solver.target.index[i]] = pd.Series
+                    covariances[tuner.solver.target.index[i]] = pd.DataFrame(dtype=float)
                 else:
                     covariances[tuner.solver.target.index[i]] = grad_est.covariance()
     return gradients, covariances
-- 
2.43.0


From fd3de311d619205ec42399b20de01aa59954ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 34/76] fix: read_files returns the data it has read

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index dfaa8d6..2074a9b 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -116,7 +116,7 @@ def read_files(file_or_files, reserved=None):
 
                 data.append((entry, entry_data))
 
-    return data.sort(key=operator.itemgetter(0))
+    return sorted(data, key=operator.itemgetter(0))
 
 
 class History:
-- 
2.43.0


From 182c8125de20c32487fe11474ae2f1c5c1b4734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 35/76] fix: History returns the gradient entries of exactly
 the requested parameter

---
 qtune/history.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 2074a9b..24a29fa 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -209,8 +209,8 @@ class History:
         :param parameter_name: Parameter of the gradient of interest.
         :return: Gradient history.
         """
-        regex = re.compile(self._gradient_name.format(parameter_name=parameter_name,
-                                                      gate_name=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_name.format(parameter_name=re.escape(parameter_name),
+                                                            gate_name=r'([^#]+)') + '$')
         return self._data_frame.filter(regex=regex).rename(lambda name: regex.findall(name)[0], axis='columns')
 
     def get_gradient_covariances(self, parameter_name) -> pd.DataFrame:
@@ -219,13 +219,15 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: Gradient covariance history.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'([\w\s\d]+)',
-                                                                 gate_name_2=r'([\w\s\d]+)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'([^#]+)',
+                                                                       gate_name_2=r'([^#]+)') + '$')
         df = self._data_frame.filter(regex=regex)
         df = df[sorted(df.columns, key=regex.findall)]
+        if not df.empty:
+            df.columns = pd.MultiIndex.from_tuples([regex.search(name).groups() for name in df.columns])
 
-        return pd.DataFrame(df, columns=pd.MultiIndex.from_tuples(map(regex.findall, df.columns)))
+        return df
 
     def get_gradient_variances(self, parameter_name) -> pd.DataFrame:
         """
@@ -233,9 +235,9 @@ class History:
         :param parameter_name: Parameter of the gradient's covariance of interest.
         :return: History of the diagonal of the covariance matrix.
         """
-        regex = re.compile(self._gradient_covariance_name.format(parameter_name=parameter_name,
-                                                                 gate_name_1=r'(?P<gatename>[\w\s\d]+)',
-                                                                 gate_name_2=r'(?P=gatename)'))
+        regex = re.compile('^' + self._gradient_covariance_name.format(parameter_name=re.escape(parameter_name),
+                                                                       gate_name_1=r'(?P<gatename>[^#]+)',
+                                                                       gate_name_2=r'(?P=gatename)') + '$')
         return self._data_frame.filter(regex=regex).rename(columns=lambda name: regex.search(name).group('gatename'))
 
     def read_autotuner_to_data_frame(self, autotuner: qtune.autotuner.Autotuner, start: int = 0,
-- 
2.43.0


From 6d6621d49e19b95fd47b31cf5a4698d305acd589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 36/76] fix: History accepts new columns (first gradient,
 expensive evaluator) in an existing row

---
 qtune/history.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/history.py b/qtune/history.py
index 24a29fa..6421f4f 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -314,9 +314,12 @@ class History:
             self._paths_for_reload[-1] = path
             start = self._data_frame['tuner_index'].iloc[-1]
             new_information = self.read_autotuner_to_data_frame(autotuner, start=start, end=evaluated_tuner_index)
+            self._data_frame = self._data_frame.reindex(columns=self._data_frame.columns.union(new_information.columns))
             self._data_frame.loc[self._data_frame.index[-1], new_information.columns] = new_information.iloc[0]
             new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, start=start, end=evaluated_tuner_index)
             if not new_evaluator_data.empty:
+                self._evaluator_data = self._evaluator_data.reindex(
+                    columns=self._evaluator_data.columns.union(new_evaluator_data.columns))
                 self._evaluator_data.loc[self._evaluator_data.index[-1], new_evaluator_data.columns] = \
                     new_evaluator_data.iloc[0]
         else:
-- 
2.43.0


From f335a88d206829bc392ccb56287e7253f41a4971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 37/76] fix: History tracks a restarted tuning (same or new
 voltages) and integer voltages

---
 qtune/history.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 6421f4f..66bce49 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -253,7 +253,7 @@ class History:
             end = len(autotuner.tuning_hierarchy)
         elif end == 0:
             voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy)
-            return pd.DataFrame(dict(voltages), index=[0, ])
+            return pd.DataFrame(dict(voltages, tuner_index=autotuner.current_tuner_index), index=[0, ], dtype=float)
 
         if self._data_frame.empty:
             voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy)
@@ -295,7 +295,7 @@ class History:
         if path is None:
             path = autotuner.last_save_file
 
-        voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy).sort_index()
+        voltages = extract_voltages_from_hierarchy(autotuner.tuning_hierarchy).sort_index().astype(float)
         evaluated_tuner_index = autotuner.current_tuner_index
         if autotuner.voltages_to_set is not None or autotuner.current_tuner_status:
             evaluated_tuner_index += 1
@@ -313,6 +313,8 @@ class History:
             # stay in the row
             self._paths_for_reload[-1] = path
             start = self._data_frame['tuner_index'].iloc[-1]
+            # the tuning starts again at the bottom with the same voltages after a restart
+            start = max(0, min(start, evaluated_tuner_index - 1))
             new_information = self.read_autotuner_to_data_frame(autotuner, start=start, end=evaluated_tuner_index)
             self._data_frame = self._data_frame.reindex(columns=self._data_frame.columns.union(new_information.columns))
             self._data_frame.loc[self._data_frame.index[-1], new_information.columns] = new_information.iloc[0]
@@ -327,6 +329,9 @@ class History:
             new_information = self.read_autotuner_to_data_frame(autotuner, end=evaluated_tuner_index)
             self._data_frame = self._data_frame.append(new_information, ignore_index=True, sort=True)
             new_evaluator_data = read_evaluator_data_from_autotuner(autotuner, end=evaluated_tuner_index)
+            if new_evaluator_data.empty:
+                # nothing is evaluated at the new voltages so far
+                new_evaluator_data = pd.DataFrame(index=[0, ])
             self._evaluator_data = self._evaluator_data.append(new_evaluator_data, ignore_index=True, sort=True)
 
     def load_directory(self, path):
-- 
2.43.0


From 3b41794d4372f5adfb8ba0436b7ed8b1f2e89942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 38/76] fix: History skips the sub directories in which
 reloaded autotuners store their states

---
 qtune/history.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 66bce49..c237fb8 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -342,7 +342,8 @@ class History:
         """
         with qtune.storage.ParallelHDF5Reader(reserved={'experiment': self.experiment}, multiprocess=False) as reader:
             directory_content = [os.path.join(path, file)
-                                 for file in sorted(os.listdir(path))]
+                                 for file in sorted(os.listdir(path))
+                                 if os.path.isfile(os.path.join(path, file))]
             for file, loaded_data in zip(directory_content, reader.read_iter(directory_content)):
                 autotuner = loaded_data['autotuner']
                 self.append_autotuner(autotuner, file)
-- 
2.43.0


From e6e3973a35b3fe237d172c6c1157f83a6eb0a340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 39/76] fix: GUI logs to its logger instead of the logger's
 name

---
 qtune/gui.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 41ac735..71dc341 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -684,13 +684,13 @@ class GUI(QtWidgets.QMainWindow):
 
     def _join_worker(self):
         if self._thread.is_alive():
-            self._logger.info('Joining thread')
+            self.logger.info('Joining thread')
         self._stop = True
         self._thread.join()
 
     def restart_thread(self):
         self._join_worker()
-        self._logger.info('Restarting thread')
+        self.logger.info('Restarting thread')
         self._thread = Thread(target=self._work)
         self._continuous = False
         self._stepped = False
@@ -707,7 +707,7 @@ class GUI(QtWidgets.QMainWindow):
                     try:
 
                         if self.auto_tuner.is_tuning_complete():
-                            self._logger.info('Tuning completed')
+                            self.logger.info('Tuning completed')
                             self.pause()
                         else:
                             self.auto_tuner.iterate()
@@ -718,10 +718,10 @@ class GUI(QtWidgets.QMainWindow):
                             self._update_plots.emit()
 
                     except Exception:
-                        self._logger.exception('Error during auto tuner iteration: Pausing...')
+                        self.logger.exception('Error during auto tuner iteration: Pausing...')
                         self.pause()
                 else:
-                    self._logger.error('No Autotuner: Pausing...')
+                    self.logger.error('No Autotuner: Pausing...')
                     self.pause()
 
                 self._stepped = False
@@ -731,14 +731,14 @@ class GUI(QtWidgets.QMainWindow):
 
     def start(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
         elif self._continuous:
-            self._logger.info('Already started')
+            self.logger.info('Already started')
 
         else:
-            self._logger.info('Starting worker thread')
+            self.logger.info('Starting worker thread')
 
         self._continuous = True
         self._start_btn.setEnabled(False)
@@ -747,19 +747,19 @@ class GUI(QtWidgets.QMainWindow):
 
     def step(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread is dead. Restarting...')
+            self.logger.warning('Worker thread is dead. Restarting...')
             self.restart_thread()
 
-        self._logger.info('Order worker to do one step')
+        self.logger.info('Order worker to do one step')
         self._stepped = True
 
     def pause(self):
         if not self._thread.is_alive():
-            self._logger.warning('Worker thread already dead')
+            self.logger.warning('Worker thread already dead')
         elif self._continuous:
-            self._logger.info('Pausing worker thread')
+            self.logger.info('Pausing worker thread')
         elif not self._stepped:
-            self._logger.info('Already paused')
+            self.logger.info('Already paused')
 
         self._continuous = False
         self._stepped = False
-- 
2.43.0


From ea178ee7de899d099dbf5777d9da4ff5e731fa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:07 +0000
Subject: [PATCH 40/76] fix: the GUI worker stops on close during a continuous
 tuning

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 71dc341..25a7d46 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -702,7 +702,7 @@ class GUI(QtWidgets.QMainWindow):
             while not (self._stop or self._continuous or self._stepped):
                 time.sleep(0.05)
 
-            while self._continuous or self._stepped and not self._stop:
+            while (self._continuous or self._stepped) and not self._stop:
                 if self.auto_tuner:
                     try:
 
-- 
2.43.0


From a1101bf87fea2902048e505fda704487640df07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 41/76] fix: indices and slices of MATLAB views select the same
 elements as in python

---
 qtune/mat2py.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/mat2py.py b/qtune/mat2py.py
index 9124f58..6de5f88 100644
--- a/qtune/mat2py.py
+++ b/qtune/mat2py.py
@@ -73,7 +73,7 @@ def _set_field(eval_str, field, val_str):
 
 def _transform_int(py_idx):
     if py_idx < 0:
-        return 'end - %d' % abs(py_idx)
+        return 'end - %d' % (abs(py_idx) - 1)
     else:
         return str(py_idx + 1)
 
@@ -94,17 +94,17 @@ def _transform_slice(python_slice):
     
     if python_slice.start is None:
         start = '1' if step > 0 else 'end'
-    elif idx.start < 0:
-        start = '(end - %d)' % abs(python_slice.start)
+    elif python_slice.start < 0:
+        start = '(end - %d)' % (abs(python_slice.start) - 1)
     else:
-        start = str(python_slice.start + 1 if step > 0 else python_slice.start)
+        start = str(python_slice.start + 1)
     
     if python_slice.stop is None:
         stop = 'end' if step > 0 else '1'
     elif python_slice.stop < 0:
-        stop = '(end - %d)' % abs(python_slice.stop)
+        stop = '(end - %d)' % (abs(python_slice.stop) if step > 0 else abs(python_slice.stop) - 2)
     else:
-        stop = str(python_slice.stop if step > 0 else python_slice.stop + 1)
+        stop = str(python_slice.stop if step > 0 else python_slice.stop + 2)
     
     return '%s:%d:%s' % (start, step, stop)
 
-- 
2.43.0


From ae4d8723d45c04aa1f6355cb73e639e8d5ff1c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 42/76] fix: qtune.sm can be imported and converts numpy
 scalars (numpy >= 1.23)

---
 qtune/sm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index c7cfa07..b4cdf90 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -148,7 +148,7 @@ class SpecialMeasureMatlab:
 
             return self.engine.transpose(casted)
         elif isinstance(obj, np.generic):
-            return float(np.asscalar(obj))
+            return float(obj.item())
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
@@ -225,7 +225,7 @@ class LegacyDQDRefactored(BasicDQD):
 
 
 class MatlabEvaluator(Evaluator):
-    def __init__(self, experiment: qtune.sm.LegacyDQDRefactored, **kwargs):
+    def __init__(self, experiment: LegacyDQDRefactored, **kwargs):
         super().__init__(experiment, **kwargs)
 
     def evaluate(self):
-- 
2.43.0


From 5773215ab8b1ea88f04f5c99de91c7d12f321723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 43/76] fix: qtune.sm_tune_qqd does not use aliases removed
 from numpy

---
 qtune/sm_tune_qqd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 5f5329f..55c31b8 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -98,7 +98,7 @@ class SMTuneQQD(Experiment):
 
         return self.read_gate_voltages()  # set_qqd_gate_voltages
 
-    def tune(self, measurement_name, index: np.int, **kwargs) -> pd.Series:
+    def tune(self, measurement_name, index: int, **kwargs) -> pd.Series:
         # Tune wrapper using the MATLAB syntax
 
         # data ---  args        <<<< contains struct arrays!
@@ -120,9 +120,9 @@ class SMTuneQQD(Experiment):
             vals = list(options.values())
             name_value_pairs = [x for t in zip(keys, vals) for x in t]
 
-            data_view = tune_view(measurement_name, *([np.float(index)] + name_value_pairs))
+            data_view = tune_view(measurement_name, *([float(index)] + name_value_pairs))
         else:
-            data_view = tune_view(measurement_name, np.float(index))
+            data_view = tune_view(measurement_name, float(index))
 
         return pd.Series({'data': data_view})
 
-- 
2.43.0


From 0137326091379bf9f3705853d91245a65439244b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:34 +0000
Subject: [PATCH 44/76] fix: QQDResp accepts all positions by default

---
 qtune/sm_tune_qqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 55c31b8..f7673a6 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -466,7 +466,7 @@ class QQDResp(Evaluator):
         else:
             self._min_position = pd.Series(index=self.parameters, data=min_position)
         if max_position is None:
-            self._max_position = pd.Series(index=self.parameters, data=-np.inf)
+            self._max_position = pd.Series(index=self.parameters, data=np.inf)
         elif isinstance(max_position, pd.Series):
             self._max_position = max_position
         else:
-- 
2.43.0


From 431ba626465ab2f2d7cbccf7f341fdc4cd2d4be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 45/76] fix: finite differences ignore measurements that add no
 independent direction

---
 qtune/gradient.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index 98957ca..e2d2e3f 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -179,6 +179,16 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
 
             return self._requested_measurements[-1]
 
+    def _is_independent(self, position: pd.Series) -> bool:
+        """Checks if a measurement at this position adds a direction to the stored measurements."""
+        positions = [stored[self._current_position.index] for stored, *_ in self._stored_measurements]
+        positions.append(position[self._current_position.index])
+        if self._symmetric_calculation:
+            diffs = [v2 - v1 for v1, v2 in zip(positions[::2], positions[1::2])]
+        else:
+            diffs = [v - positions[0] for v in positions[1:]]
+        return len(diffs) == 0 or np.linalg.matrix_rank(np.stack(diffs).astype(float)) == len(diffs)
+
     def update(self, position: pd.Series, value: float, variance: float, is_new_position=False):
         position = position[self._current_position.index.intersection(position.index)]
 
@@ -194,6 +204,10 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 # the central point is not part of the symmetric differences
                 return
 
+            if not self._is_independent(position):
+                # for example a repeated measurement: the gradient can not be calculated with it
+                return
+
             self._stored_measurements.append((position[self._current_position.index], value, variance))
 
             positions, values, variances = zip(*self._stored_measurements)
-- 
2.43.0


From c72b454eab00222f3bd3f4f3292bd3065b6fde46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:15 +0000
Subject: [PATCH 46/76] fix: parameters without tolerance do not break the
 logging of a failed judgement

---
 qtune/autotuner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/autotuner.py b/qtune/autotuner.py
index b0e6841..9adce4f 100644
--- a/qtune/autotuner.py
+++ b/qtune/autotuner.py
@@ -282,8 +282,8 @@ class Autotuner(metaclass=HDF5Serializable):
                 if self.get_current_tuner().target["desired"].notna().all():
                     self.logger.info("The distance to their target is: ")
                     self.logger.info(self.get_current_tuner().target["desired"] -
-                                     self.get_current_tuner().last_parameters_and_variances[0]
-                                     [self.get_current_tuner().target.index])
+                                     self.get_current_tuner().last_parameters_and_variances[0].reindex(
+                                         self.get_current_tuner().target.index))
         else:
             self._voltages_to_set = self.get_current_tuner().get_next_voltages(tuned_parameters=self.tuned_parameters)
             self._current_tuner_status = False
-- 
2.43.0


From 3ef2766368802bab6a1982ba4e058ef34dba652c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 47/76] fix: incomplete finite differences never ask for a
 point that adds no direction, also after a restart

---
 qtune/gradient.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/qtune/gradient.py b/qtune/gradient.py
index e2d2e3f..f31d4ad 100644
--- a/qtune/gradient.py
+++ b/qtune/gradient.py
@@ -175,7 +175,12 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                 else:
                     raise RuntimeError("Congratulations! You encountered a bug!")
                 ov = get_orthogonal_vector(measured_point_diffs)
-                self._requested_measurements.append(self._current_position[gates] + ov * self._epsilon[gates])
+                step = ov * self._epsilon[gates]
+                diff = self._current_position[gates] + step - measured_points[0]
+                if np.linalg.matrix_rank(np.stack([*measured_point_diffs, diff]).astype(float)) < len(measured_points):
+                    # happens if the first point is not at the current position
+                    step = -step
+                self._requested_measurements.append(self._current_position[gates] + step)
 
             return self._requested_measurements[-1]
 
@@ -185,6 +190,9 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
         positions.append(position[self._current_position.index])
         if self._symmetric_calculation:
             diffs = [v2 - v1 for v1, v2 in zip(positions[::2], positions[1::2])]
+            if len(positions) % 2 == 1:
+                # the second point of the pair will be at the opposite side of the current position
+                diffs.append(positions[-1] - self._current_position)
         else:
             diffs = [v - positions[0] for v in positions[1:]]
         return len(diffs) == 0 or np.linalg.matrix_rank(np.stack(diffs).astype(float)) == len(diffs)
@@ -242,6 +250,12 @@ class FiniteDifferencesGradientEstimator(GradientEstimator):
                     symmetric=self._symmetric_calculation,
                     requested_measurements=self._requested_measurements)
 
+    def restart(self, new_position):
+        if self._current_estimate is None:
+            # the differences are not completed at another position
+            self._stored_measurements = []
+        super().restart(new_position)
+
 
 class KalmanGradientEstimator(GradientEstimator):
     def __init__(self,
-- 
2.43.0


From aa85ce404cb7135ce07a63039285e5e13d6e4f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 48/76] fix: evaluators return undefined values instead of
 raising if their data cannot be fitted

---
 qtune/evaluator.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index a9273cb..4bd7829 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -154,7 +154,12 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
         self._raw_y_data = []
         self._raw_x_data = []
         raw_data = self.experiment.measure(self.measurements[0])
-        self._fit_results, residual = self.process_raw_data(raw_data)
+        try:
+            self._fit_results, residual = self.process_raw_data(raw_data)
+        except (RuntimeError, ValueError, np.linalg.LinAlgError):
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            self._fit_results = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                              'offset'])
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
         error_t_rise = t_rise / 5.
@@ -257,7 +262,13 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
 
     def evaluate(self) -> (pd.Series, pd.Series):
         raw_data = self.experiment.measure(self.measurements[0])
-        fitresult, residual = self.process_raw_data(raw_data)
+        try:
+            fitresult, residual = self.process_raw_data(raw_data)
+        except (RuntimeError, ValueError, np.linalg.LinAlgError):
+            self.logger.error('The following evaluator could not fit its data: ' + str(self))
+            fitresult = pd.Series(data=np.nan, index=['height', 't_fall', 't_rise', 'begin_rise', 'begin_fall',
+                                                      'offset', 'slope', 'offset_linear', 'length_lin_fall', 'slope_1',
+                                                      'offset_linear_1', 'length_lin_rise'])
         self._fit_results = fitresult
         t_rise = self._fit_results['t_rise']
         t_fall = self._fit_results['t_fall']
@@ -389,7 +400,7 @@ class InterDotTCByLineScan(FittingEvaluator):
                                        n_points)
         try:
             fitresult, residual = self.process_raw_data((self._raw_x_data, self._raw_y_data))
-        except RuntimeError:
+        except (RuntimeError, ValueError, np.linalg.LinAlgError):
             self.logger.error('The following evaluator could not evaluate its data: ' + str(self))
             self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
             return pd.Series([np.nan], ["parameter_tunnel_coupling"]), pd.Series([np.nan],
@@ -469,7 +480,7 @@ class NewLoadTime(FittingEvaluator):
         data = self.experiment.measure(self.measurements[0])
         try:
             fitresult, residual = self.process_raw_data(data)
-        except RuntimeError:
+        except (RuntimeError, ValueError, np.linalg.LinAlgError):
             self.logger.error('The following evaluator could not fit its data:' + str(self))
             fitresult = pd.Series(data=np.nan, index=['offset', 'height', 'curvature'])
             residual = np.nan
-- 
2.43.0


From 9aa72cc8c486e951ffd0de8f4629ede761c0aa2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 49/76] fix: fitting evaluators label their results with the
 declared parameters

---
 qtune/evaluator.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 4bd7829..9f98d2c 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -164,8 +164,7 @@ class LeadTunnelTimePrefitVersion(FittingEvaluator):
         t_fall = self._fit_results['t_fall']
         error_t_rise = t_rise / 5.
         error_t_fall = t_fall / 5.
-        return pd.Series([t_rise, t_fall], ['parameter_time_rise', 'parameter_time_fall']), pd.Series(
-            [error_t_rise, error_t_fall], ['parameter_time_rise', 'parameter_time_fall'])
+        return pd.Series([t_rise, t_fall], self.parameters), pd.Series([error_t_rise, error_t_fall], self.parameters)
 
     def process_raw_data(self, raw_data=None):
         if raw_data is None:
@@ -274,8 +273,7 @@ class LeadTunnelTimeByLeadScan(FittingEvaluator):
         t_fall = self._fit_results['t_fall']
         error_t_rise = t_rise / 5.
         error_t_fall = t_fall / 5.
-        return pd.Series([t_rise, t_fall], ['parameter_time_rise', 'parameter_time_fall']), pd.Series(
-            [error_t_rise, error_t_fall], ['parameter_time_rise', 'parameter_time_fall'])
+        return pd.Series([t_rise, t_fall], self.parameters), pd.Series([error_t_rise, error_t_fall], self.parameters)
 
     def process_raw_data(self, raw_data=None):
         if raw_data is None:
@@ -391,8 +389,7 @@ class InterDotTCByLineScan(FittingEvaluator):
         elif len(ydata.shape) > 2:
             self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
             self.logger.error('The Evaluator' + str(self) + 'received measurement data of an invalid dimension.')
-            return pd.Series([np.nan], ["parameter_tunnel_coupling"]), pd.Series([np.nan],
-                                                                                 ["parameter_tunnel_coupling"])
+            return pd.Series([np.nan], self.parameters), pd.Series([np.nan], self.parameters)
         else:
             n_points = ydata.size
         self._raw_x_data = np.linspace(self.measurements[0].options['center'] - self.measurements[0].options['range'],
@@ -403,12 +400,10 @@ class InterDotTCByLineScan(FittingEvaluator):
         except (RuntimeError, ValueError, np.linalg.LinAlgError):
             self.logger.error('The following evaluator could not evaluate its data: ' + str(self))
             self._fit_results = pd.Series(data=np.nan, index=['offset', 'slope', 'height', 'position', 'width'])
-            return pd.Series([np.nan], ["parameter_tunnel_coupling"]), pd.Series([np.nan],
-                                                                                 ["parameter_tunnel_coupling"])
+            return pd.Series([np.nan], self.parameters), pd.Series([np.nan], self.parameters)
         self._fit_results = fitresult
         tc_in_mus = fitresult['width']
-        return pd.Series([tc_in_mus], ["parameter_tunnel_coupling"]), \
-            pd.Series([residual], ["parameter_tunnel_coupling"])
+        return pd.Series([tc_in_mus], self.parameters), pd.Series([residual], self.parameters)
 
     def process_raw_data(self, raw_data):
         x_data = raw_data[0]
@@ -487,8 +482,7 @@ class NewLoadTime(FittingEvaluator):
         self._fit_results = fitresult
         self._raw_y_data = data[0, :]
         self._raw_x_data = data[1, :]
-        return pd.Series([fitresult['curvature']], ['parameter_time_load']),\
-            pd.Series([residual], ["parameter_time_load"])
+        return pd.Series([fitresult['curvature']], self.parameters), pd.Series([residual], self.parameters)
 
     def process_raw_data(self, raw_data):
         x_data = raw_data[1, :]
-- 
2.43.0


From 7ce66d3285ab1a5895812548afc2cfb9f0e131b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 50/76] fix: LeadTransition evaluates each scan with its own
 options and the configured transition width

---
 qtune/evaluator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 9f98d2c..c82c6d0 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -562,15 +562,15 @@ class LeadTransition(Evaluator):
         error = pd.Series()
         self._raw_x_data = []
         self._raw_y_data = []
-        for data, gate in zip(raw_data, self._shifting_gates):
+        for data, gate, measurement in zip(raw_data, self._shifting_gates, self.measurements):
             if len(data.shape) == 2:
                 data = data.mean(0)
             transition_pos = \
-                qtune.util.new_find_lead_transition_index(data, int(.2e-3 / self.measurements[0].options["range"] *
-                                                          self.measurements[0].options["N_points"]))
-            x_data = np.linspace(start=self._measurements[0].options['center'] - self.measurements[0].options['range'],
-                                 stop=self._measurements[0].options['center'] + self.measurements[0].options['range'],
-                                 num=self.measurements[0].options['N_points'])
+                qtune.util.new_find_lead_transition_index(data, int(self.transition_width / measurement.options["range"] *
+                                                          measurement.options["N_points"]))
+            x_data = np.linspace(start=measurement.options['center'] - measurement.options['range'],
+                                 stop=measurement.options['center'] + measurement.options['range'],
+                                 num=measurement.options['N_points'])
             self._raw_x_data.append(x_data)
             self._raw_y_data.append(data)
             self.transition_positions["position_" + gate] = x_data[transition_pos]
-- 
2.43.0


From 7cc90f7687f39c1658a1ff1056a117f37155940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 51/76] fix: QQDMeasurement keeps its name and options

---
 qtune/sm_tune_qqd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index f7673a6..3858360 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -36,6 +36,7 @@ class QQDMeasurement(Measurement):
     """
 
     def __init__(self, name, **kwargs):
+        super().__init__(name, **kwargs)
         self.data = None
 
     def to_hdf5(self):
-- 
2.43.0


From 6392fbc2cec7ef76ae81a5408e03204a93cf4a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 52/76] fix: QQDResp applies position limits to the parameters
 they are given for

---
 qtune/sm_tune_qqd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/sm_tune_qqd.py b/qtune/sm_tune_qqd.py
index 3858360..75e2099 100644
--- a/qtune/sm_tune_qqd.py
+++ b/qtune/sm_tune_qqd.py
@@ -477,8 +477,8 @@ class QQDResp(Evaluator):
         self.logger.info(f'Evaluating {self.parameters}.')
         measurement_result = self.experiment.measure(self.measurements[0])
         positions, errors = self.process_raw_data(measurement_result)
-        for i in range(len(positions)):
-            if positions[i] < self._min_position.iloc[i] or positions[i] > self._max_position.iloc[i]:
+        for i, parameter in enumerate(self.parameters):
+            if positions[i] < self._min_position[parameter] or positions[i] > self._max_position[parameter]:
                 positions[i] = np.nan
         return pd.Series(data=positions, index=self.parameters), \
                pd.Series(data=errors, index=self.parameters)
-- 
2.43.0


From 4c2a0bd791226fff9f762379f3b53567d6c2a7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:54 +0000
Subject: [PATCH 53/76] fix: SensingDot1D uses the polynomial class that numpy
 provides

---
 qtune/evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index c82c6d0..0662ee5 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -650,7 +650,7 @@ class SensingDot1D(Evaluator):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
         coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
-        polynomial_approximation = np.polynomial.poly1d(coef[::-1])
+        polynomial_approximation = np.poly1d(coef[::-1])
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
-- 
2.43.0


From e934ba4522707afca3e3b18f7c8bafad3c1281aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 54/76] fix: SensingDot1D fits the signal equally well at all
 gate voltages

---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index 0662ee5..adc5e59 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -649,8 +649,8 @@ class SensingDot1D(Evaluator):
     def process_raw_data(self, raw_data):
         raw_x_data = np.squeeze(raw_data[0])
         raw_y_data = np.squeeze(raw_data[1])
-        coef = np.polynomial.polynomial.polyfit(raw_x_data, raw_y_data, deg=10)
-        polynomial_approximation = np.poly1d(coef[::-1])
+        # fits in a scaled window because the scan range is usually much smaller than the voltages
+        polynomial_approximation = np.polynomial.Polynomial.fit(raw_x_data, raw_y_data, deg=10)
         derivative_approximation = np.diff(polynomial_approximation(raw_x_data))
         cutoff = len(raw_x_data) // 16
         if self._rising_flank:
-- 
2.43.0


From 741cfc9685b7bfee8b597251cc589fc4b285594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 55/76] fix: the GUI appends the auto tuner that iterated to
 the history

---
 qtune/gui.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 25a7d46..4fcaf25 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -703,17 +703,19 @@ class GUI(QtWidgets.QMainWindow):
                 time.sleep(0.05)
 
             while (self._continuous or self._stepped) and not self._stop:
-                if self.auto_tuner:
+                # another auto tuner may be loaded during the iteration
+                auto_tuner = self.auto_tuner
+                if auto_tuner:
                     try:
 
-                        if self.auto_tuner.is_tuning_complete():
+                        if auto_tuner.is_tuning_complete():
                             self.logger.info('Tuning completed')
                             self.pause()
                         else:
-                            self.auto_tuner.iterate()
+                            auto_tuner.iterate()
 
                             if self.history:
-                                self.history.append_autotuner(self._auto_tuner)
+                                self.history.append_autotuner(auto_tuner)
 
                             self._update_plots.emit()
 
-- 
2.43.0


From 54a1c37f303f21a135cbf38854e413d103eb4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:19 +0000
Subject: [PATCH 56/76] fix: the GUI can be started with its buttons after its
 worker was restarted

---
 qtune/gui.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index 4fcaf25..16bf632 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -695,6 +695,9 @@ class GUI(QtWidgets.QMainWindow):
         self._continuous = False
         self._stepped = False
         self._stop = False
+        self._start_btn.setEnabled(True)
+        self._step_btn.setEnabled(True)
+        self._stop_btn.setEnabled(False)
         self._thread.start()
 
     def _work(self):
-- 
2.43.0


From 882d372d33350547f676c1222e414841ca0a2c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:46 +0000
Subject: [PATCH 57/76] fix: the reload window shows the tune run it reloads

---
 qtune/gui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/gui.py b/qtune/gui.py
index 16bf632..5c73b3e 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -407,7 +407,7 @@ class ReloadWidget(pg.LayoutWidget):
         tune_run_label = QtWidgets.QLabel('Reload tune run number')
         self.addWidget(tune_run_label, 1, 1)
         self.tune_run_line = QtWidgets.QLineEdit()
-        self.tune_run_line.setText('1')
+        self.tune_run_line.setText(str(self.tune_run_number))
         self.tune_run_line.setValidator(QtGui.QIntValidator())
         self.tune_run_line.editingFinished.connect(self.refreh_tune_run_number)
         self.addWidget(self.tune_run_line, 2, 1)
-- 
2.43.0


From c11b840159f03aaa41e8f379ae85cccfd7299515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 58/76] fix: all reload windows of the GUI act on the loaded
 auto tuner

---
 qtune/gui.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qtune/gui.py b/qtune/gui.py
index 5c73b3e..c17df09 100644
--- a/qtune/gui.py
+++ b/qtune/gui.py
@@ -607,6 +607,9 @@ class GUI(QtWidgets.QMainWindow):
     @log_exceptions('plotting')
     def load_auto_tuner_from_reload_widget(self):
         self._auto_tuner = self.sender().auto_tuner
+        # all windows act on the auto tuner that is used
+        for reload_window in self._reload_windows:
+            reload_window.auto_tuner = self._auto_tuner
 
     @QtCore.pyqtSlot()
     @log_exceptions('plotting')
-- 
2.43.0


From bb47385f2ec9b5b89835e96907892e723e9ea618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:16 +0000
Subject: [PATCH 59/76] fix: discarding a writer thread does not wait for it,
 which might block forever

---
 qtune/storage.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/qtune/storage.py b/qtune/storage.py
index cdd448a..1dd9f10 100644
--- a/qtune/storage.py
+++ b/qtune/storage.py
@@ -364,7 +364,13 @@ class AsynchronousHDF5Writer:
         self._worker.join()
 
     def __del__(self):
-        self.join()
+        if isinstance(self._worker, threading.Thread):
+            # This may be called at any point of any thread, e.g. by the worker itself or while a lock is held (as h5py
+            # does while it iterates a file) that the worker needs to finish: waiting could take forever.
+            if self._worker.is_alive():
+                self._queue.put(None)
+        else:
+            self.join()
 
     def write(self, obj, file_name, name=None):
         if not self._worker.is_alive():
-- 
2.43.0


From 033959b6bc4b9950d800f0cdb855f3b739fa2e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 60/76] fix: numpy integers are indices of MATLAB views, too

---
 qtune/mat2py.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qtune/mat2py.py b/qtune/mat2py.py
index 6de5f88..f561239 100644
--- a/qtune/mat2py.py
+++ b/qtune/mat2py.py
@@ -18,6 +18,7 @@ import re
 import io
 import uuid
 import datetime
+import numbers
 
 import matlab.engine
 
@@ -110,12 +111,12 @@ def _transform_slice(python_slice):
 
 
 def _transform_tuple(index_tuple):
-    transformed = [_transform_int(idx) if isinstance(idx, int) else _transform_slice(idx)
+    transformed = [_transform_int(idx) if isinstance(idx, numbers.Integral) else _transform_slice(idx)
                    for idx in index_tuple]
     return ','.join(transformed)
 
 def transform_index(idx):
-    if isinstance(idx, int):
+    if isinstance(idx, numbers.Integral):
         idx = _transform_int(idx)
     
     elif isinstance(idx, slice):
@@ -181,11 +182,11 @@ class MATLABStructView(MATLABView):
 
 class MATLABCellView(MATLABView):
     def __getitem__(self, idx):
-        if isinstance(idx, int):
+        if isinstance(idx, numbers.Integral):
             idx = transform_index(idx)
             return make_view(self._engine, _get_item_cell(self._eval_str, idx))
 
-        elif all(isinstance(dim_idx, int) for dim_idx in idx):
+        elif all(isinstance(dim_idx, numbers.Integral) for dim_idx in idx):
             idx = transform_index(idx)
             return make_view(self._engine, _get_item_cell(self._eval_str, idx))
         
-- 
2.43.0


From 408f8165986dab433c1058b286270f46cb514a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 61/76] fix: tuples are converted for MATLAB to tuples instead
 of generators

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index b4cdf90..39b50d9 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -152,7 +152,7 @@ class SpecialMeasureMatlab:
         elif isinstance(obj, List):
             return [self.to_matlab(x) for x in obj]
         elif isinstance(obj, Tuple):
-            return (self.to_matlab(x) for x in obj)
+            return tuple(self.to_matlab(x) for x in obj)
         elif isinstance(obj, Dict):
             return {x: self.to_matlab(obj[x]) for x in obj}
         elif isinstance(obj, Set):
-- 
2.43.0


From 933981be0d8ed9c1e7235050cb2a38a1f9322748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:13 +0000
Subject: [PATCH 62/76] fix: gate voltages are sent to MATLAB as floats

---
 qtune/sm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/sm.py b/qtune/sm.py
index 39b50d9..bfd79df 100644
--- a/qtune/sm.py
+++ b/qtune/sm.py
@@ -187,7 +187,7 @@ class LegacyDQDRefactored(BasicDQD):
     def set_gate_voltages(self, new_gate_voltages: pd.Series) -> pd.Series:
         current_gate_voltages = self.read_gate_voltages()
         current_gate_voltages[new_gate_voltages.index] = new_gate_voltages[new_gate_voltages.index]
-        current_gate_voltages = self._matlab.to_matlab(current_gate_voltages)
+        current_gate_voltages = self._matlab.to_matlab(current_gate_voltages.astype(float))
         return pd.Series(self._matlab.engine.qtune.set_gates_v_pretuned(current_gate_voltages))
 
     def measure(self, measurement: Measurement) -> np.ndarray:
-- 
2.43.0


From bf3ac5d099b9b1fbc005f57bbb9e191a69321a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 63/76] fix: parameters which get a target by a change of the
 targets are evaluated and recorded

---
 qtune/parameter_tuner.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/qtune/parameter_tuner.py b/qtune/parameter_tuner.py
index 326dd50..f8bfea0 100644
--- a/qtune/parameter_tuner.py
+++ b/qtune/parameter_tuner.py
@@ -131,6 +131,15 @@ class ParameterTuner(metaclass=HDF5Serializable):
     @target.setter
     def target(self, changes):
         self.solver.target = changes
+        # parameters which did not have a target before are not evaluated so far
+        index = self._last_parameter_values.index.union(self._relevant_parameters, sort=False)
+        self._last_parameter_values = self._last_parameter_values.reindex(index)
+        self._last_parameters_variances = self._last_parameters_variances.reindex(index)
+
+    @property
+    def _relevant_parameters(self) -> pd.Index:
+        """Parameters with a complete target."""
+        return self.target.dropna(axis='columns', how='all').dropna().index
 
     @property
     def parameters(self) -> Sequence[str]:
@@ -241,8 +250,9 @@ class SubsetTuner(ParameterTuner):
         current_parameters, current_variances = self.evaluate()
 
         self.solver.rescale_values(current_parameters, current_variances)
-        self._last_parameter_values = current_parameters[self._last_parameter_values.index]
-        self._last_parameters_variances = current_variances[self._last_parameter_values.index]
+        # the target is possibly changed since the last evaluation
+        self._last_parameter_values = current_parameters[self._relevant_parameters]
+        self._last_parameters_variances = current_variances[self._relevant_parameters]
 
         # check for an evaluation failure (only relevant parameters)
         if self._last_parameter_values.isnull().values.any():
-- 
2.43.0


From f62e9da1423b2877b9d9d8e87d6614e395eb01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 64/76] fix: parameters without a tolerance do not break the
 history

---
 qtune/history.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qtune/history.py b/qtune/history.py
index c237fb8..3701335 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -556,6 +556,8 @@ def extract_parameters_from_hierarchy(tuning_hierarchy) -> (pd.Series, pd.Series
         if isinstance(par_tuner, qtune.parameter_tuner.SubsetTuner):
             relevant_parameters = par_tuner.solver.target.desired.index[
                 ~par_tuner.solver.target.desired.apply(np.isnan)]
+            # the values of parameters without a tolerance are not stored
+            relevant_parameters = relevant_parameters.intersection(parameter.index, sort=False)
             parameters = parameters.append(parameter[relevant_parameters])
             variances = variances.append(variance[relevant_parameters])
         else:
-- 
2.43.0


From 8b22f7f51354d58ae1f523482b7af22353f88171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:18 +0000
Subject: [PATCH 65/76] fix: LeadTransition names a position after the gate
 that was swept, not after the one that was shifted

---
 qtune/evaluator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index adc5e59..afb19fa 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -562,7 +562,9 @@ class LeadTransition(Evaluator):
         error = pd.Series()
         self._raw_x_data = []
         self._raw_y_data = []
-        for data, gate, measurement in zip(raw_data, self._shifting_gates, self.measurements):
+        for data, measurement in zip(raw_data, self.measurements):
+            # the position is that of the swept gate
+            gate = measurement.options['gate']
             if len(data.shape) == 2:
                 data = data.mean(0)
             transition_pos = \
-- 
2.43.0


From a78e4098da07a689dd1abbad881398422844dab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:14 +0000
Subject: [PATCH 66/76] fix: SensingDot1D returned negative variances for
 negative signals

---
 qtune/evaluator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/evaluator.py b/qtune/evaluator.py
index afb19fa..0c1a011 100644
--- a/qtune/evaluator.py
+++ b/qtune/evaluator.py
@@ -643,9 +643,9 @@ class SensingDot1D(Evaluator):
         values["position_" + gate] = optimal_position
         error["position_" + gate] = 0.1e-3
         values["current_signal"] = current_signal
-        error["current_signal"] = current_signal / 5
+        error["current_signal"] = abs(current_signal) / 5
         values["optimal_signal"] = optimal_signal
-        error["optimal_signal"] = optimal_signal / 5
+        error["optimal_signal"] = abs(optimal_signal) / 5
         return values, error
 
     def process_raw_data(self, raw_data):
-- 
2.43.0


From fe25a26e7c3f99b5cf001a279a670f91f34e7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 67/76] fix: TestExperiment changed the initial voltages of its
 caller

---
 qtune/basic_dqd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index db1dca8..9310c4c 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -68,7 +68,7 @@ class TestExperiment(Experiment):
         :param measurements: Measurements known to the Experiment.
         :param simulator_dict: Maps Measurements by their id to Simulators.
         """
-        self._gate_voltages = initial_voltages
+        self._gate_voltages = initial_voltages.copy()
 
         self._measurements = measurements
         self._simulator_dict = simulator_dict
-- 
2.43.0


From f7560cc82e732e16a67c27d46786a0339c131d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:36 +0000
Subject: [PATCH 68/76] fix: measurements and gate names of TestExperiment are
 properties like those of Experiment

---
 qtune/basic_dqd.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/basic_dqd.py b/qtune/basic_dqd.py
index 9310c4c..bef3673 100644
--- a/qtune/basic_dqd.py
+++ b/qtune/basic_dqd.py
@@ -81,11 +81,13 @@ class TestExperiment(Experiment):
     def simulator_dict(self):
         return self._simulator_dict
 
+    @property
     def measurements(self):
         return self._measurements
 
+    @property
     def gate_voltage_names(self):
-        return self._gate_voltages.index
+        return tuple(self._gate_voltages.index)
 
     def read_gate_voltages(self):
         return self._gate_voltages.sort_index()
-- 
2.43.0


From 7adea682c893ecd86ad4459051059df1a076bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 69/76] fix: plot parameters and gradients of any name

---
 qtune/history.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 3701335..60ebae4 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -514,8 +514,9 @@ def plot_parameters(parameter_data_frame: pd.DataFrame,
     parameter_ax = parameter_data_frame.plot(subplots=True, yerr=parameter_std,
                                              ax=parameter_ax, sharex=True, legend=False)
     for ax, par_name in zip(parameter_ax, parameter_data_frame.columns):
-        ax.set_ylabel(parameter_information[par_name]["entity_unit"])
-        ax.set_title(parameter_information[par_name]["name"])
+        information = parameter_information.get(par_name, {})
+        ax.set_ylabel(information.get("entity_unit", par_name))
+        ax.set_title(information.get("name", par_name))
     parameter_ax[-1].set_xlabel("Measurement Number")
     return parameter_fig, parameter_ax
 
@@ -538,7 +539,7 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         else:
             gradient.plot(ax=ax)
 
-        ax.set_ylabel(parameter_information[parameter_name]["gradient_unit"])
+        ax.set_ylabel(parameter_information.get(parameter_name, {}).get("gradient_unit", "Gradient " + parameter_name))
     grad_ax[0].set_title("Response Matrix")
     grad_ax[-1].set_xlabel("Measurement Number")
     return grad_fig, grad_ax
-- 
2.43.0


From 251cc4020392caa395921ce86eb536110a019e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:30 +0000
Subject: [PATCH 70/76] fix: plot a single gradient and gradients without an
 estimate so far

---
 qtune/history.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 60ebae4..3e22130 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -531,11 +531,14 @@ def plot_gradients(gradients: Dict[str, pd.DataFrame],
         grad_fig, grad_ax = plt.subplots(nrows=len(gradients))
     else:
         grad_fig, grad_ax = None, axes
+    grad_ax = np.atleast_1d(grad_ax)
 
     for ax, (parameter_name, gradient) in zip(grad_ax, gradients.items()):
-        if parameter_name in gradient_std:
+        if gradient.empty:
+            # there is no estimate of this gradient so far
+            pass
+        elif parameter_name in gradient_std:
             gradient.plot(ax=ax, yerr=gradient_std[parameter_name].applymap(np.sqrt))
-
         else:
             gradient.plot(ax=ax)
 
-- 
2.43.0


From 93ee5075b4468ff63eba5e8ca93f1b9e4eeb6be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 71/76] fix: plot_evaluator_data skips unknown evaluators and
 plots all of them by default

---
 qtune/history.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 3e22130..5840367 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -428,10 +428,12 @@ class History:
         :param evaluator_names: Names of the evaluator to be plotted.
         :return: Figure, Axes
         """
+        if evaluator_names is None:
+            evaluator_names = [name for name in self.evaluator_names if name in plot_function_matching]
         for name in evaluator_names:
             if name not in self._evaluator_data.columns:
                 self.logger.warning(name + ' is not in the evaluation data.')
-                evaluator_names.remove(name)
+        evaluator_names = [name for name in evaluator_names if name in self._evaluator_data.columns]
 
         if end is None:
             end = start + 1
-- 
2.43.0


From 82c05b3819a9ca1d924a1dae4139e8c52f45de9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 72/76] fix: SensingDot1D is plotted in the axes given as array

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 5840367..0c586cd 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -664,7 +664,7 @@ def plot_transition(ax, evaluator_hdf5: dict, **_):
 
 
 def plot_1dim_sensing_dot_scan(ax, evaluator_hdf5: dict, **_):
-    if isinstance(ax, Tuple) or isinstance(ax, List):
+    if isinstance(ax, Tuple) or isinstance(ax, List) or isinstance(ax, np.ndarray):
         ax = ax[0]
     qtune.util.plot_raw_data_vertical_marks(y_data=evaluator_hdf5['raw_y_data'],
                                             x_data=evaluator_hdf5['raw_x_data'],
-- 
2.43.0


From 46d98ab317ec351bc27d33d5873738aac3822991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 73/76] fix: repeated scans are averaged for the plot with
 vertical marks

---
 qtune/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/util.py b/qtune/util.py
index a46e05d..b50fa02 100644
--- a/qtune/util.py
+++ b/qtune/util.py
@@ -263,8 +263,8 @@ def plot_raw_data_vertical_marks(y_data, x_data, marking_position, ax=None):
     if y_data is None:
         return ax
     y_data = y_data.squeeze()
-    if len(y_data) == 2:
-        y_data = np.nanmean(y_data)
+    if len(y_data.shape) == 2:
+        y_data = np.nanmean(y_data, 0)
     if x_data is None:
         x_data = np.arange(0, y_data.shape[0])
 
-- 
2.43.0


From e8c559e86a6c587c32fab41ff0d1bb5277071363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:48 +0000
Subject: [PATCH 74/76] fix: plot rows of the history without evaluator data

---
 qtune/history.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 0c586cd..6ac168f 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -453,8 +453,8 @@ class History:
                 if not self._evaluator_data.loc[self._evaluator_data.index[i], evaluator] != self._evaluator_data.loc[
                     self._evaluator_data.index[i], evaluator]]
             eval_data_fig, eval_data_ax = plt.subplots(nrows=2,
-                                                       ncols=sum(number_measurements) // 2 + sum(
-                                                           number_measurements) % 2)
+                                                       ncols=max(1, sum(number_measurements) // 2 + sum(
+                                                           number_measurements) % 2))
             eval_data_figs.append(eval_data_fig)
             eval_data_axs.append(eval_data_ax)
             ax_list = [eval_data_ax.ravel()[sum(number_measurements[0:j]):sum(number_measurements[0:j + 1])] for j in
-- 
2.43.0


From 1f6d1fefa6d3f3e05f78ade1902b7bb36c570531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:27 +0000
Subject: [PATCH 75/76] fix: plot a single measurement of an evaluator in the
 axes given

---
 qtune/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qtune/history.py b/qtune/history.py
index 6ac168f..4bcad6b 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -473,7 +473,7 @@ class History:
             self.logger.warning(evaluator_name + ' is not in the evaluation data.')
             return
         plot_data = self._evaluator_data.loc[self._evaluator_data.index[tune_run_number], evaluator_name]
-        plot_function_matching[evaluator_name](ax=ax, evaluator_hdf5=plot_data, evaluator=evaluator_name)
+        plot_function_matching[evaluator_name](ax=np.atleast_1d(ax), evaluator_hdf5=plot_data, evaluator=evaluator_name)
 
     @classmethod
     def _unravel_gradient_covariance_matrix(cls, parameter_name, covariance_matrix: pd.DataFrame):
-- 
2.43.0


From dc28513155fc5a57fc33eee010f383b4da7fde51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 76/76] fix: read_files reads any kind of entry and files with
 reserved objects

---
 qtune/history.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/qtune/history.py b/qtune/history.py
index 4bcad6b..33f8a4a 100644
--- a/qtune/history.py
+++ b/qtune/history.py
@@ -109,12 +109,11 @@ def read_files(file_or_files, reserved=None):
 
     for file_name in files:
         with h5py.File(file_name, 'r') as root:
-            entries = [key for key in root.keys() if not key.startswith('#')]
+            loaded_data = qtune.storage.from_hdf5(root, reserved)
+            entries = [key for key in loaded_data if not key.startswith('#') and key not in (reserved or ())]
 
             for entry in entries:
-                entry_data = qtune.storage.from_hdf5(root[entry], reserved)
-
-                data.append((entry, entry_data))
+                data.append((entry, loaded_data[entry]))
 
     return sorted(data, key=operator.itemgetter(0))
 
-- 
2.43.0

